package main

import (
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gring"
	"verifh/codes"
	"verifh/tr"
)

type ringRunner interface {
	new(n int) bool
	do(op string, e, s, n int) bool
	size() int
}

type ringRun[T any] struct {
	codes.Of[T]
	els []*gring.Ring[T]
	ids map[*gring.Ring[T]]int
}

func (r *ringRun[T]) size() int { return len(r.els) }

// newRingRun is for rings of the type number kind; those from ringKinds on are numbers.
func newRingRun(kind int) ringRunner {
	switch kind {
	case 1:
		return newRingRunOf(codes.Any)
	case 2:
		return newRingRunOf(codes.Ptr)
	case 3:
		return newRingRunOf(codes.Err)
	case 4:
		return newRingRunOf(codes.Big)
	case 5:
		return newRingRunOf(codes.Text)
	case 6:
		return newRingRunOf(codes.Slice)
	}
	return newRingRunOf(codes.Int)
}

const ringKinds = 7

func newRingRunOf[T any](c codes.Of[T]) ringRunner {
	tr.Begin(tr.Ev{"x": 0})
	return &ringRun[T]{Of: c, ids: map[*gring.Ring[T]]int{}}
}

func (r *ringRun[T]) id(e *gring.Ring[T]) int {
	if e == nil {
		return 0
	}
	return r.ids[e]
}

func (r *ringRun[T]) at(i int) *gring.Ring[T] {
	if i == 0 {
		return nil
	}
	return r.els[i-1]
}

func (r *ringRun[T]) add(e *gring.Ring[T]) {
	r.els = append(r.els, e)
	r.ids[e] = len(r.els)
	e.Value = r.Enc(len(r.els) - 1)
}

func (r *ringRun[T]) op(name string, args tr.Ev, f func() any) bool {
	var nx, pv []int
	e := tr.Ev{}
	for k, v := range args {
		e[k] = v
	}
	e["op"] = name
	tr.Busy(true, e)
	p, res := tr.Try(func() any {
		x := f()
		nx, pv = []int{}, []int{}
		for _, q := range r.els {
			nx = append(nx, r.id(q.Next()))
			pv = append(pv, r.id(q.Prev()))
		}
		return x
	})
	tr.Busy(false, nil)
	e["p"], e["res"] = p, res
	if nx == nil {
		nx, pv = []int{}, []int{}
	}
	e["nx"], e["pv"] = nx, pv
	tr.Add(e)
	return p == 0
}

func (r *ringRun[T]) new(n int) bool {
	return r.op("new", tr.Ev{"n": n}, func() any {
		var x *gring.Ring[T]
		if n == 1 && tr.Rng.Intn(2) == 0 {
			x = new(gring.Ring[T]) // the zero value is a ring of one element
			r.add(x)
			return r.id(x)
		}
		x = gring.New[T](n)
		for i, e := 0, x; i < n; i++ {
			r.add(e)
			e = e.Next()
		}
		return r.id(x)
	})
}

func (r *ringRun[T]) do(op string, e, s, n int) bool {
	switch op {
	case "next":
		return r.op(op, tr.Ev{"e": e}, func() any { return r.id(r.at(e).Next()) })
	case "prev":
		return r.op(op, tr.Ev{"e": e}, func() any { return r.id(r.at(e).Prev()) })
	case "move":
		return r.op(op, tr.Ev{"e": e, "n": n}, func() any { return r.id(r.at(e).Move(n)) })
	case "len":
		return r.op(op, tr.Ev{"e": e}, func() any { return r.at(e).Len() })
	case "do":
		return r.op(op, tr.Ev{"e": e}, func() any {
			x := []int{}
			r.at(e).Do(func(v any) {
				if len(x) > 50000 {
					panic("endless")
				}
				x = append(x, r.DecAny(v)+1)
			})
			return x
		})
	case "link":
		return r.op(op, tr.Ev{"e": e, "s": s}, func() any { return r.id(r.at(e).Link(r.at(s))) })
	case "unlink":
		return r.op(op, tr.Ev{"e": e, "n": n}, func() any { return r.id(r.at(e).Unlink(n)) })
	}
	return true
}

func rings() {
	r := tr.Rng
	i := 0
	// two rings of up to 4 elements: every link and unlink, twice
	for a := 1; a <= 4; a++ {
		for c := 0; c <= 4; c++ {
			n := a + c
			for e := 1; e <= a; e++ {
				for s := 0; s <= n; s++ {
					i++
					if !tr.Mine(i) {
						continue
					}
					run := newRingRun(0)
					run.new(a)
					run.new(c)
					if run.do("link", e, s, 0) {
						run.do("do", e, 0, 0)
						run.do("link", 1+r.Intn(n), r.Intn(n+1), 0)
						run.do("len", r.Intn(n+1), 0, 0)
					}
					tr.End()
				}
			}
			for k := -3; k <= 2*n+3; k++ {
				i++
				if !tr.Mine(i) {
					continue
				}
				run := newRingRun(0)
				run.new(a)
				run.new(c)
				run.do("link", 1, r.Intn(n+1), 0)
				e := 1 + r.Intn(n)
				run.do("move", e, 0, k)
				if run.do("unlink", e, 0, k) {
					run.do("do", e, 0, 0)
					run.do("len", e, 0, 0)
					run.do("move", 1+r.Intn(n), 0, -k)
				}
				tr.End()
			}
		}
	}
	ops := []string{"next", "prev", "move", "len", "do", "link", "link", "link", "unlink", "unlink"}
	for i := 0; i < tr.Scale(800, 12000)/tr.Shards; i++ {
		run := newRingRun(i % (2 * ringKinds))
		for j := 1 + r.Intn(3); j > 0; j-- {
			run.new(r.Intn(7))
		}
		run.new(1)
		for j := 2 + r.Intn(16); j > 0; j-- {
			if r.Intn(12) == 0 {
				run.new(r.Intn(4) - 1)
				continue
			}
			n := run.size()
			op := ops[r.Intn(len(ops))]
			e := 1 + r.Intn(n)
			if (op == "len" || op == "do") && r.Intn(10) == 0 {
				e = 0
			}
			if !run.do(op, e, r.Intn(n+1), r.Intn(31)-10) {
				break
			}
		}
		tr.End()
	}
	for j, n := range tr.Sizes() {
		for kind := 0; kind < 3; kind++ {
			if !tr.Mine(4*j + kind) {
				continue
			}
			run := newRingRun(0)
			run.new(n)
			run.new(2)
			run.do("len", 1, 0, 0)
			run.do("do", 1, 0, 0)
			switch kind {
			case 0:
				run.do("move", 1, 0, n-1)
				run.do("move", 2, 0, -n+1)
				run.do("move", 2, 0, 1-3*n)
				run.do("move", n+1, 0, 2*n+1)
			case 1:
				run.do("link", 1, n+1, 0)
				run.do("unlink", 1, 0, n)
				run.do("len", 1, 0, 0)
			case 2:
				run.do("unlink", 3, 0, 2*n-1)
				run.do("link", 2, n-1, 0)
				run.do("len", 2, 0, 0)
			}
			run.do("do", n, 0, 0)
			tr.End()
		}
	}
}
