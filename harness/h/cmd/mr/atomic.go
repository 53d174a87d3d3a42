package main

import (
	"errors"
	"fmt"
	"io/fs"
	"math/rand"
	"runtime"
	"sync"
	"unsafe"

	"github.com/miniLCT/gosb/gogenerics/gconstraints"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gpool"
	"verifh/codes"
	"verifh/sc"
	"verifh/tr"
)

type strErr string

func (s strErr) Error() string { return string(s) }

type intErr int

func (i intErr) Error() string { return fmt.Sprint(int(i)) }

type structErr struct{ a, b int }

func (structErr) Error() string { return "struct" }

type sliceErr []int // cannot be compared

func (sliceErr) Error() string { return "slice" }

type mapErr map[string]int

func (mapErr) Error() string { return "map" }

var (
	theSlice = sliceErr{1}
	theMap   = mapErr{"a": 1}
	regErrs  = []error{nil, errors.New("x"), errors.New("x"), strErr("x"), strErr("y"), intErr(0), intErr(1), structErr{1, 2}, structErr{2, 1},
		(*ptrErr)(nil), &ptrErr{1}, &ptrErr{1}, fs.ErrNotExist, &fs.PathError{Op: "o", Path: "p", Err: fs.ErrNotExist}, theSlice, theMap, sliceErr(nil), errors.Join(strErr("x")), strErr("")}
)

func errID(e error) int {
	switch x := e.(type) {
	case sliceErr:
		if x == nil {
			return 16
		}
		if len(x) == 1 && &x[0] == &theSlice[0] {
			return 14
		}
		return 99
	case mapErr:
		x["z"] = 7
		ok := theMap["z"] == 7
		delete(x, "z")
		if ok {
			return 15
		}
		return 99
	}
	for i, y := range regErrs {
		switch y.(type) {
		case sliceErr, mapErr:
			continue
		}
		if y == e {
			return i
		}
	}
	return 99
}

type regOp struct {
	set bool
	v   int
}

func errHistory(tasks [][]regOp, pick sc.Picker, o sc.Opt) sc.Result {
	h := &sc.H{}
	tr.Begin(tr.Ev{"x": 0})
	var a gconstraints.AtomicError
	do := func(t int, p regOp) {
		if p.set {
			h.Call(t, "set", tr.Ev{"v": p.v}, func() any { a.Set(regErrs[p.v]); return 0 })
		} else {
			h.Call(t, "load", nil, func() any { return errID(a.Load()) })
		}
	}
	var fs []func()
	for t, ps := range tasks {
		fs = append(fs, func() {
			for _, p := range ps {
				do(t+1, p)
			}
		})
	}
	res := sc.Run(fs, pick, o)
	if !res.Stuck {
		do(9, regOp{})
		do(9, regOp{})
	}
	h.Emit(tr.Ev{"x": 0}, res.Stuck)
	return res
}

func atomicError() {
	r := tr.Rng
	// all pairs of errors, alone: in every order, with loads between
	n := 0
	for i := range regErrs {
		for j := range regErrs {
			if n++; tr.Mine(n) {
				errHistory([][]regOp{{{}, {true, i}, {}, {true, j}, {}, {true, 0}, {}}}, sc.Uniform(r), sc.Opt{})
				errHistory([][]regOp{{{true, i}, {true, j}}}, sc.Uniform(r), sc.Opt{})
			}
		}
	}
	val := func() int { return r.Intn(len(regErrs)) }
	rnd := func(n int) []regOp {
		ps := []regOp{}
		for ; n > 0; n-- {
			ps = append(ps, regOp{r.Intn(5) < 3, val()})
		}
		return ps
	}
	for i := 0; i < tr.Scale(200, 3000)/tr.Shards; i++ {
		tasks := [][]regOp{rnd(1 + r.Intn(3)), rnd(1 + r.Intn(3))}
		if r.Intn(2) == 0 {
			tasks = append(tasks, rnd(1+r.Intn(2)))
		}
		runs, _ := sc.Explore(2, tr.Scale(150, 3000), func(p sc.Picker) sc.Result { return errHistory(tasks, p, sc.Opt{Record: true}) })
		tr.Extra["explored runs"] += runs
	}
	for i := 0; i < tr.Scale(4000, 60000)/tr.Shards; i++ {
		var tasks [][]regOp
		for t := 2 + r.Intn(3); t > 0; t-- {
			tasks = append(tasks, rnd(1+r.Intn(4)))
		}
		errHistory(tasks, sc.Any(r, len(tasks), 30), sc.Opt{Rng: r})
	}
}

// ---------------------------------------------------------------- pools

type object struct{ id int }

func (o *object) Error() string { return "object" }

// box makes what a pool holds from an object; nil is no object.
type box[X any] struct {
	enc func(*object) X
	dec func(X) *object
}

type byValue struct {
	name string
	o    *object
}

func same(o *object) *object { return o }
func asErr(o *object) error {
	if o == nil {
		return nil
	}
	return o
}
func ofErr(x error) *object { o, _ := x.(*object); return o }
func asAny(o *object) any {
	if o == nil {
		return nil
	}
	return *o
}
func ofAny(x any) *object {
	if o, ok := x.(object); ok {
		return &o
	}
	return nil
}
func asValue(o *object) byValue { return byValue{"value", o} }
func ofValue(v byValue) *object { return v.o }

// poolRun: tasks get, hold, mark, and put back objects (or arrays).
func poolRun[X, E any](b box[X], el codes.Of[E], r *rand.Rand, ntasks int, array bool, size uint, pick sc.Picker, o sc.Opt) sc.Result {
	h := &sc.H{}
	capacity := 0
	if array {
		capacity = int(size)
	}
	cfg := tr.Ev{"cap": capacity}
	tr.Begin(cfg)
	var mu sync.Mutex
	made := 0
	ids := map[unsafe.Pointer]int{}
	none := r.Intn(3) == 0 // the constructor sometimes makes none
	objs := gpool.New(func() X {
		mu.Lock()
		defer mu.Unlock()
		if none && made%3 == 1 {
			none = false
			return b.enc(nil)
		}
		made++
		return b.enc(&object{made})
	})
	number := func(x X) int {
		if o := b.dec(x); o != nil {
			return o.id
		}
		return 0
	}
	arrs := gpool.NewArrayPool[E](size)
	// arrays are known by where they are
	id := func(a []E) int {
		if cap(a) == 0 {
			return 0
		}
		mu.Lock()
		defer mu.Unlock()
		p := unsafe.Pointer(&a[:1][0])
		if ids[p] == 0 {
			made++
			ids[p] = made
		}
		return ids[p]
	}
	var keep []any // so that no address is used again
	seeds := make([]int64, ntasks)
	for i := range seeds {
		seeds[i] = r.Int63()
	}
	task := func(t int) {
		r := rand.New(rand.NewSource(seeds[t-1]))
		var held []X
		var heldA [][]E
		mark := map[int]int{}
		check := func(a []E) {
			h.Call(t, "intact", nil, func() any {
				ok := 1
				for _, x := range a[:cap(a)] {
					if el.Dec(x) != mark[id(a)] {
						ok = 0
					}
				}
				return ok
			})
		}
		for n := 2 + r.Intn(6); n > 0; n-- {
			if array {
				if len(heldA) == 0 || r.Intn(2) == 0 {
					var a []E
					h.Call(t, "get", nil, func() any {
						a = arrs.Get()
						return []int{id(a), len(a), cap(a)}
					})
					mu.Lock()
					keep = append(keep, a)
					mu.Unlock()
					m := t*1000 + n
					mark[id(a)] = m
					for i := range a[:cap(a)] {
						a[:cap(a)][i] = el.Enc(m)
					}
					if cap(a) > 0 { // an array without room is none
						heldA = append(heldA, a)
					}
				} else {
					k := r.Intn(len(heldA))
					a := heldA[k]
					heldA = append(heldA[:k:k], heldA[k+1:]...)
					check(a)
					if cap(a) > 0 {
						switch r.Intn(4) {
						case 0:
							a = a[:r.Intn(cap(a)+1)]
						case 1:
							a = append(a[:cap(a):cap(a)], el.Enc(5)) // another, larger one
							mu.Lock()
							keep = append(keep, a)
							mu.Unlock()
						}
					}
					h.Call(t, "put", tr.Ev{"x": []int{id(a), len(a), cap(a)}}, func() any { arrs.Put(a); return 0 })
				}
				continue
			}
			if len(held) == 0 || r.Intn(2) == 0 {
				var x X
				h.Call(t, "get", nil, func() any {
					x = objs.Get()
					return []int{number(x), 0, 0}
				})
				if b.dec(x) != nil {
					held = append(held, x)
				}
			} else {
				k := r.Intn(len(held))
				x := held[k]
				held = append(held[:k:k], held[k+1:]...)
				h.Call(t, "put", tr.Ev{"x": []int{number(x), 0, 0}}, func() any { objs.Put(x); return 0 })
			}
		}
		for _, a := range heldA {
			check(a)
		}
	}
	var fs []func()
	for t := 1; t <= ntasks; t++ {
		fs = append(fs, func() { task(t) })
	}
	res := sc.Run(fs, pick, o)
	if !res.Stuck {
		if r.Intn(4) == 0 {
			runtime.GC()
		}
		seeds = append(seeds, r.Int63())
		task(len(seeds))
	}
	h.Emit(cfg, res.Stuck)
	runtime.KeepAlive(keep)
	return res
}

func pools() {
	r := tr.Rng
	for i := 0; i < tr.Scale(6000, 150000)/tr.Shards; i++ {
		n := 1 + r.Intn(4)
		array, size := r.Intn(2) == 0, []uint{0, 1, 2, 3, 8, 100}[r.Intn(6)]
		pick, o := sc.Any(r, n, 60), sc.Opt{Rng: r}
		switch i % 5 {
		case 0, 1:
			poolRun(box[*object]{same, same}, codes.Int, r, n, array, size, pick, o)
		case 2:
			poolRun(box[error]{asErr, ofErr}, codes.Text, r, n, array, size, pick, o)
		case 3:
			poolRun(box[any]{asAny, ofAny}, codes.Any, r, n, array, size, pick, o)
		case 4:
			poolRun(box[byValue]{asValue, ofValue}, codes.Big, r, n, array, size, pick, o)
		}
	}
}
