package main

import (
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gheap"
	"verifh/tr"
)

type el = [2]int

func heapLess(c int) func(a, b el) bool {
	return func(a, b el) bool {
		switch c {
		case 1:
			return a[0] > b[0]
		case 2:
			return a[0]%4 < b[0]%4
		case 3:
			return a[0]/3 < b[0]/3
		}
		return a[0] < b[0]
	}
}

type heapRun struct {
	h    *gheap.Heap[el]
	id   int
	size int
}

func (r *heapRun) build(c int, keys []int) {
	els := make([]el, len(keys), len(keys)+tr.Rng.Intn(3))
	enc := make([]el, len(keys))
	for i, k := range keys {
		r.id++
		els[i] = el{k, r.id}
		enc[i] = els[i]
	}
	r.size = len(keys)
	tr.Do("build", tr.Ev{"c": c, "els": enc}, func() any {
		if len(keys) == 0 {
			r.h = gheap.New(heapLess(c))
		} else {
			r.h = gheap.NewWithData(els, heapLess(c))
		}
		return 0
	})
}

func (r *heapRun) push(k int) {
	r.id++
	e := el{k, r.id}
	r.size++
	tr.Do("push", tr.Ev{"el": e}, func() any { gheap.Push(r.h, e); return 0 })
}

func (r *heapRun) pop() bool {
	if r.size == 0 {
		return false
	}
	r.size--
	p, _ := tr.Do("pop", nil, func() any { return gheap.Pop(r.h) })
	return p == 0
}

func (r *heapRun) drain() {
	for r.pop() {
	}
}

func heaps() {
	b := &batch{cfg: tr.Ev{"x": 0}}
	r := tr.Rng
	// every small array, built and pushed, popped until empty; with pushes in between
	max := tr.Scale(5, 7)
	for n := 0; n <= max; n++ {
		k := 4
		if n > 4 {
			k = 3
		}
		seqs(n, k, func(s []int) {
			b.next(120)
			run := heapRun{}
			run.build(0, s)
			run.drain()
			run.build(1, nil)
			for _, x := range s {
				run.push(x)
			}
			run.drain()
		})
	}
	// every interleaving of pushes and pops of a permutation
	seqs(tr.Scale(7, 10), 2, func(s []int) {
		b.next(120)
		run := heapRun{}
		run.build(0, []int{4, 2, 6, 1, 5, 3, 7}[:3+r.Intn(5)])
		for _, x := range s {
			if x == 0 {
				run.push(r.Intn(8))
			} else {
				run.pop()
			}
		}
		run.drain()
	})
	b.end()
	// large random ones
	for i := 0; i < tr.Scale(96, 1200)/tr.Shards; i++ {
		tr.Begin(b.cfg)
		run := heapRun{}
		c := r.Intn(4)
		n := r.Intn(60)
		keys := make([]int, n)
		span := []int{2, 6, 30, 1000}[r.Intn(4)]
		for j := range keys {
			keys[j] = r.Intn(span)
		}
		switch r.Intn(4) {
		case 0: // descending
			for j := range keys {
				keys[j] = n - j
			}
		case 1:
			for j := range keys {
				keys[j] = j
			}
		}
		run.build(c, keys)
		for j := r.Intn(80); j > 0; j-- {
			if r.Intn(2) == 0 {
				run.push(r.Intn(span))
			} else {
				run.pop()
			}
		}
		run.drain()
		tr.End()
	}
	for j, n := range tr.Sizes() {
		for c := 0; c < 4; c++ {
			if !tr.Mine(5*j + c) {
				continue
			}
			tr.Begin(b.cfg)
			run := heapRun{}
			keys := make([]int, n)
			for k := range keys {
				keys[k] = []int{n - k, k, r.Intn(n), r.Intn(4)}[(j+c)%4]
			}
			m := n
			if r.Intn(2) == 0 {
				m = n / 2
			}
			run.build(c, keys[:m])
			for _, k := range keys[m:] {
				run.push(k)
			}
			for k := 0; k < 20; k++ {
				run.pop()
				run.push([]int{0, n + k, r.Intn(n)}[r.Intn(3)])
			}
			if n > 300 && c%2 == 1 {
				for k := 0; k < 100 && run.pop(); k++ {
				}
			} else {
				run.drain()
			}
			tr.End()
		}
	}
}
