package main

import (
	"github.com/miniLCT/gosb/gogenerics/gcontainers/glist"
	"verifh/codes"
	"verifh/tr"
)

type listRun[T any] struct {
	codes.Of[T]
	quiet bool // do not look at the lists after each operation
	ls    []*glist.List[T]
	els   []*glist.Element[T] // by id - 1
	ids   map[*glist.Element[T]]int
	where []int // list of each element: 0 removed, -1 not to be used any more
	v     int
}

type listRunner interface {
	op(name string, l, e, m, o int) bool
	pick() int
	be(quiet bool)
	sizes() (lists, elements int)
}

func (r *listRun[T]) be(quiet bool) { r.quiet = quiet }

func (r *listRun[T]) sizes() (int, int) { return len(r.ls), len(r.els) }

// newListRun makes n lists of the type number kind; those from listKinds on are numbers.
func newListRun(n, kind int) listRunner {
	switch kind {
	case 1:
		return newListRunOf(n, codes.Any)
	case 2:
		return newListRunOf(n, codes.Unit)
	case 3:
		return newListRunOf(n, codes.Ptr)
	case 4:
		return newListRunOf(n, codes.Err)
	case 5:
		return newListRunOf(n, codes.Big)
	case 6:
		return newListRunOf(n, codes.Text)
	case 7:
		return newListRunOf(n, codes.Slice)
	}
	return newListRunOf(n, codes.Int)
}

const listKinds = 8

func newListRunOf[T any](n int, c codes.Of[T]) *listRun[T] {
	r := &listRun[T]{Of: c, ids: map[*glist.Element[T]]int{}}
	for i := 0; i < n; i++ {
		if (i+tr.Rng.Intn(2))%2 == 0 {
			r.ls = append(r.ls, glist.New[T]())
		} else {
			r.ls = append(r.ls, new(glist.List[T]))
		}
	}
	tr.Begin(tr.Ev{"lists": n})
	return r
}

func (r *listRun[T]) id(e *glist.Element[T], l int) int {
	if e == nil {
		return 0
	}
	if i, ok := r.ids[e]; ok {
		return i
	}
	r.els = append(r.els, e)
	r.where = append(r.where, l)
	r.ids[e] = len(r.els)
	return len(r.els)
}

// look describes all lists, by every way there is to go through them.
func (r *listRun[T]) look(ret int) tr.Ev {
	if r.quiet {
		return tr.Ev{"r": ret}
	}
	f, b, n, g, v := [][]int{}, [][]int{}, []int{}, [][]int{}, [][]int{}
	const limit = 50000 // a list that does not end
	for i, l := range r.ls {
		fi, bi, gi, vi := []int{}, []int{}, []int{}, []int{}
		for e, k := l.Front(), 0; e != nil && k < limit; e, k = e.Next(), k+1 {
			fi = append(fi, r.id(e, i+1))
			vi = append(vi, r.Dec(e.Value))
		}
		for e, k := l.Back(), 0; e != nil && k < limit; e, k = e.Prev(), k+1 {
			bi = append(bi, r.id(e, i+1))
		}
		l.Range(func(e *glist.Element[T]) {
			if len(gi) > limit {
				panic("endless")
			}
			gi = append(gi, r.id(e, i+1))
		})
		f, b, n, g, v = append(f, fi), append(b, bi), append(n, l.Len()), append(g, gi), append(v, vi)
	}
	dead := 0
	for i, e := range r.els {
		if r.where[i] == 0 && (e.Next() != nil || e.Prev() != nil) {
			dead++
		}
	}
	return tr.Ev{"r": ret, "f": f, "b": b, "n": n, "g": g, "v": v, "dead": dead}
}

func (r *listRun[T]) op(name string, l, e, m, o int) bool {
	li := r.ls[l-1]
	r.v++
	v := r.Norm(r.v % 50)
	if tr.Rng.Intn(4) == 0 { // a value that is there, or nothing
		v = r.Norm(tr.Rng.Intn(3))
	}
	x := r.Enc(v)
	args := tr.Ev{"l": l}
	var f func() int
	switch name {
	case "pushfront":
		args["v"] = v
		f = func() int { return r.id(li.PushFront(x), l) }
	case "pushback":
		args["v"] = v
		f = func() int { return r.id(li.PushBack(x), l) }
	case "insbefore":
		args["v"], args["m"] = v, m
		f = func() int { return r.id(li.InsertBefore(x, r.els[m-1]), l) }
	case "insafter":
		args["v"], args["m"] = v, m
		f = func() int { return r.id(li.InsertAfter(x, r.els[m-1]), l) }
	case "remove":
		args["e"] = e
		f = func() int {
			x := r.DecAny(li.Remove(r.els[e-1]))
			if r.where[e-1] == l {
				r.where[e-1] = 0
			}
			return x
		}
	case "tofront":
		args["e"] = e
		f = func() int { li.MoveToFront(r.els[e-1]); return 0 }
	case "toback":
		args["e"] = e
		f = func() int { li.MoveToBack(r.els[e-1]); return 0 }
	case "movebefore":
		args["e"], args["m"] = e, m
		f = func() int { li.MoveBefore(r.els[e-1], r.els[m-1]); return 0 }
	case "moveafter":
		args["e"], args["m"] = e, m
		f = func() int { li.MoveAfter(r.els[e-1], r.els[m-1]); return 0 }
	case "pushbacklist":
		args["o"] = o
		f = func() int { li.PushBackList(r.ls[o-1]); return 0 }
	case "pushfrontlist":
		args["o"] = o
		f = func() int { li.PushFrontList(r.ls[o-1]); return 0 }
	case "init":
		f = func() int {
			for i, w := range r.where {
				if w == l {
					r.where[i] = -1 // still says that it is in the list: not to be used
				}
			}
			li.Init()
			return 0
		}
	case "setval":
		args["e"], args["v"] = e, v
		f = func() int { r.els[e-1].Value = x; return 0 }
	default:
		f = func() int { return 0 }
	}
	p, _ := tr.Do(name, args, func() any { return r.look(f()) })
	return p == 0
}

var listOps = []string{"pushfront", "pushback", "insbefore", "insafter", "remove", "tofront", "toback", "movebefore", "moveafter", "pushbacklist", "pushfrontlist", "init", "setval"}

// pick returns a usable element.
func (r *listRun[T]) pick() int {
	var c []int
	for i, w := range r.where {
		if w >= 0 {
			c = append(c, i+1)
		}
	}
	if len(c) == 0 {
		return 0
	}
	return c[tr.Rng.Intn(len(c))]
}

func lists() {
	r := tr.Rng
	// on lists of 0 to 4 elements: every operation with every element, and a second one after it
	for n := 0; n <= 4; n++ {
		type step struct {
			op      string
			l, e, m int
			o       int
		}
		var steps []step
		total := n + 2 // one element of the other list, one removed
		for _, op := range listOps {
			switch op {
			case "pushfront", "pushback":
				steps = append(steps, step{op: op, l: 1})
			case "init":
				continue
			case "pushbacklist", "pushfrontlist":
				steps = append(steps, step{op: op, l: 1, o: 1}, step{op: op, l: 1, o: 2})
			case "movebefore", "moveafter":
				for e := 1; e <= total; e++ {
					for m := 1; m <= total; m++ {
						steps = append(steps, step{op: op, l: 1, e: e, m: m})
					}
				}
			default:
				for e := 1; e <= total; e++ {
					steps = append(steps, step{op: op, l: 1, e: e, m: e})
				}
			}
		}
		for i, a := range steps {
			if !tr.Mine(i) {
				continue
			}
			run := newListRun(2, 0)
			for k := 0; k < n; k++ {
				run.op("pushback", 1, 0, 0, 0)
			}
			run.op("pushback", 2, 0, 0, 0)
			run.op("pushback", 2, 0, 0, 0)
			run.op("remove", 2, n+2, 0, 0)
			if run.op(a.op, a.l, a.e, a.m, a.o) {
				b := steps[r.Intn(len(steps))]
				run.op(b.op, 1+r.Intn(2), b.e, b.m, 1+r.Intn(2))
				run.op("init", 1, 0, 0, 0)
				run.op("pushback", 1, 0, 0, 0)
			}
			tr.End()
		}
	}
	for i := 0; i < tr.Scale(800, 12000)/tr.Shards; i++ {
		run := newListRun(1+r.Intn(3), i%(2*listKinds))
		for j := 3 + r.Intn(30); j > 0; j-- {
			nl, els := run.sizes()
			op := listOps[r.Intn(len(listOps))]
			if (op == "init" || op == "pushbacklist" || op == "pushfrontlist") && r.Intn(3) != 0 {
				op = "pushback"
			}
			if els > 40 && (op == "pushbacklist" || op == "pushfrontlist") {
				op = "remove"
			}
			e, m := run.pick(), run.pick()
			if e == 0 {
				op = "pushback"
			}
			if !run.op(op, 1+r.Intn(nl), e, m, 1+r.Intn(nl)) {
				break
			}
		}
		tr.End()
	}
	for j, n := range tr.Sizes() {
		if !tr.Mine(j) {
			continue
		}
		// one by one
		run := newListRun(2, 0)
		run.be(true)
		for k := 0; k < n; k++ {
			switch {
			case k == 0 || r.Intn(3) > 0:
				run.op("pushback", 1, 0, 0, 0)
			case r.Intn(2) == 0:
				run.op("pushfront", 1, 0, 0, 0)
			default:
				run.op([]string{"insbefore", "insafter"}[r.Intn(2)], 1, 0, run.pick(), 0)
			}
		}
		run.be(false)
		run.op("look", 1, 0, 0, 0)
		run.op("pushback", 1, 0, 0, 0)
		run.op("moveafter", 1, run.pick(), run.pick(), 0)
		run.op("remove", 1, run.pick(), 0, 0)
		run.be(true)
		for k := n - n/4; k > 0; k-- {
			run.op("remove", 1, run.pick(), 0, 0)
		}
		run.be(false)
		run.op("look", 1, 0, 0, 0)
		tr.End()
		// doubling
		run = newListRun(2, 0)
		run.op("pushback", 1, 0, 0, 0)
		for k := 1; k < n; k *= 2 {
			run.op([]string{"pushbacklist", "pushfrontlist"}[r.Intn(2)], 1, 0, 0, 1)
		}
		run.op("pushback", 1, 0, 0, 0)
		run.op("pushfrontlist", 2, 0, 0, 1)
		run.op("pushbacklist", 2, 0, 0, 1)
		run.op("tofront", 1, run.pick(), 0, 0)
		run.op("init", 1, 0, 0, 0)
		tr.End()
	}
}
