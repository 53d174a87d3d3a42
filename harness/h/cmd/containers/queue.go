package main

import (
	"errors"

	"github.com/miniLCT/gosb/gogenerics/gcontainers/gqueue"
	"verifh/codes"
	"verifh/tr"
)

func ve(v int, err error) []int {
	if err != nil {
		if errors.Is(err, gqueue.ErrorEmptyQueue) {
			return []int{v, 1}
		}
		return []int{v, 2}
	}
	return []int{v, 0}
}

type queueRunner interface {
	op(name string) bool
	grow(n int)
}

type queueRun[T any] struct {
	codes.Of[T]
	gen int
	q   *gqueue.Queue[T]
	v   int
}

// newQueueRun makes a run with values of type number kind; those from queueKinds on are numbers.
func newQueueRun(kind int) queueRunner {
	switch kind {
	case 1:
		return &queueRun[any]{Of: codes.Any}
	case 2:
		return &queueRun[struct{}]{Of: codes.Unit}
	case 3:
		return &queueRun[*int]{Of: codes.Ptr}
	case 4:
		return &queueRun[error]{Of: codes.Err}
	case 5:
		return &queueRun[codes.Wide]{Of: codes.Big}
	case 6:
		return &queueRun[string]{Of: codes.Text}
	case 7:
		return &queueRun[[]int]{Of: codes.Slice}
	}
	return &queueRun[int]{Of: codes.Int}
}

const queueKinds = 8

func (r *queueRun[T]) grow(n int) { r.gen = n }

// next is a new number, or one that was there before.
func (r *queueRun[T]) next() int {
	r.v++
	if tr.Rng.Intn(4) == 0 {
		return r.Norm(tr.Rng.Intn(min(r.v, 3)))
	}
	return r.Norm(r.v)
}

func (r *queueRun[T]) decs(x []T) []int {
	s := []int{}
	for _, v := range x {
		s = append(s, r.Dec(v))
	}
	return s
}

func (r *queueRun[T]) ve(v T, err error) []int { return ve(r.Dec(v), err) }

func (r *queueRun[T]) op(name string) bool {
	q := r.q
	var p int
	switch name {
	case "push":
		v := r.next()
		p, _ = tr.Do(name, tr.Ev{"v": v}, func() any { return tr.B(q.Push(r.Enc(v)) != nil) })
	case "pop":
		p, _ = tr.Do(name, nil, func() any { return r.ve(q.Pop()) })
	case "peek":
		p, _ = tr.Do(name, nil, func() any { return r.ve(gqueue.Peek(q)) })
	case "peekall":
		var x []T
		p, _ = tr.Do(name, nil, func() any { x = gqueue.PeekAll(q); return r.decs(x) })
		for i := range x {
			x[i] = r.Enc(9) // it is the caller's
		}
	case "len":
		p, _ = tr.Do(name, nil, func() any { return q.Len() })
	case "empty":
		p, _ = tr.Do(name, nil, func() any { return tr.B(gqueue.IsEmpty(q)) })
	case "clear":
		p, _ = tr.Do(name, nil, func() any { gqueue.Clear(q); return 0 })
	case "new":
		p, _ = tr.Do(name, nil, func() any { r.q = gqueue.New[T](); return 0 })
	case "gen":
		s := make([]T, max(tr.Rng.Intn(5), r.gen))
		for i := range s {
			s[i] = r.Enc(r.next())
		}
		p, _ = tr.Do(name, tr.Ev{"s": r.decs(s)}, func() any { r.q = gqueue.Gen(s); return 0 })
		for i := range s {
			s[i] = r.Enc(9)
		}
	case "iter":
		p, _ = tr.Do(name, nil, func() any {
			x := []int{}
			for v := range gqueue.Iterator(q) {
				x = append(x, r.Dec(v))
			}
			return x
		})
	}
	return p == 0
}

func queues() {
	names := []string{"push", "pop", "peek", "peekall", "len", "iter", "clear"}
	b := &batch{cfg: tr.Ev{"x": 0}}
	seqs(tr.Scale(4, 6), len(names), func(s []int) {
		b.next(150)
		r := newQueueRun(0)
		r.op("new")
		for _, x := range s {
			if !r.op(names[x]) {
				return
			}
		}
		r.op("peekall")
	})
	b.end()
	all := append(names, "push", "push", "push", "pop", "gen", "new", "empty")
	for i := 0; i < tr.Scale(400, 8000)/tr.Shards; i++ {
		tr.Begin(b.cfg)
		r := newQueueRun(i % (2 * queueKinds))
		r.op([]string{"new", "gen"}[tr.Rng.Intn(2)])
		for j := 5 + tr.Rng.Intn(60); j > 0; j-- {
			n := all[tr.Rng.Intn(len(all))]
			if (n == "clear" || n == "iter" || n == "new" || n == "gen") && tr.Rng.Intn(3) != 0 {
				n = "push"
			}
			if !r.op(n) {
				break
			}
		}
		tr.End()
	}
	for j, n := range tr.Sizes() {
		for kind := 0; kind < 3; kind++ {
			if !tr.Mine(4*j + kind) {
				continue
			}
			tr.Begin(b.cfg)
			r := newQueueRun(0)
			r.op("new")
			if kind == 0 {
				r.grow(n)
				r.op("gen")
			} else {
				for k := 0; k < n; k++ {
					r.op("push")
				}
			}
			for _, x := range []string{"len", "peekall", "push", "pop", "peek", "len"} {
				r.op(x)
			}
			if kind == 1 {
				for k := 0; k <= n && r.op("pop"); k++ {
				}
			} else {
				r.op("iter")
			}
			r.op("push")
			r.op("peekall")
			tr.End()
		}
	}
}
