package main

import (
	"math/rand"

	"github.com/miniLCT/gosb/library/bitset"
	"verifh/sc"
	"verifh/tr"
)

type op struct {
	name string
	h    int
	hs   []int
	x, y int
}

func (o op) args() tr.Ev {
	e := tr.Ev{"h": o.h + 1}
	switch o.name {
	case "set":
		e["off"], e["v"] = o.x, o.y
	case "get":
		e["off"] = o.x
	case "count", "sub":
		e["a"], e["z"] = o.x, o.y
	case "range":
		e["stop"] = o.x
	case "binary":
		e["sep"] = []int{}
	case "and", "or", "xor", "andnot":
		hs := []int{}
		for _, x := range o.hs {
			hs = append(hs, x+1)
		}
		e["hs"] = hs
	}
	return e
}

func (o op) run(sets []*bitset.BitSet) any {
	s := sets[o.h]
	switch o.name {
	case "set":
		return setOp(s, o.x, o.y == 1)
	case "get":
		return tr.B(s.Get(o.x))
	case "count":
		return s.Count(o.x, o.y)
	case "sub":
		return tr.Ints(s.Sub(o.x, o.y).Bytes())
	case "range":
		r := [][]int{}
		s.Range(func(i int, t bool) bool {
			r = append(r, []int{i, tr.B(t)})
			return o.x == 0 || len(r) < o.x
		})
		return r
	case "clear":
		s.Clear()
	case "size":
		return s.Size()
	case "bytes":
		return tr.Ints(s.Bytes())
	case "binary":
		return tr.Bytes(s.Binary(""))
	case "string":
		return tr.Bytes(s.String())
	case "not", "and", "or", "xor", "andnot":
		var ys []*bitset.BitSet
		for _, y := range o.hs {
			ys = append(ys, sets[y])
		}
		return tr.Ints(combine(o.name, s, ys).Bytes())
	}
	return 0
}

func history(init [][]byte, tasks [][]op, pick sc.Picker, o sc.Opt) sc.Result {
	h := &sc.H{}
	var sets []*bitset.BitSet
	cfg := [][]int{}
	for _, b := range init {
		sets = append(sets, bitset.New(append([]byte{}, b...)...))
		cfg = append(cfg, tr.Ints(b))
	}
	var fs []func()
	for t, ops := range tasks {
		fs = append(fs, func() {
			for _, q := range ops {
				h.Call(t+1, q.name, q.args(), func() any { return q.run(sets) })
			}
		})
	}
	res := sc.Run(fs, pick, o)
	if !res.Stuck {
		for i := range sets {
			q := op{name: "bytes", h: i}
			h.Call(0, q.name, q.args(), func() any { return q.run(sets) })
		}
	}
	h.Emit(tr.Ev{"sets": cfg}, res.Stuck)
	tr.Extra["schedules"]++
	tr.Extra["steps"] += res.Steps
	return res
}

func randOp(r *rand.Rand, nsets int, write bool) op {
	o := op{h: r.Intn(nsets), x: r.Intn(20) - 3, y: r.Intn(2)}
	if write {
		o.name = "set"
		if r.Intn(6) == 0 {
			o.name = "clear"
		}
		return o
	}
	o.name = []string{"and", "or", "xor", "andnot", "and", "or", "not", "get", "set", "count", "sub", "range", "clear", "size", "bytes", "binary", "string"}[r.Intn(17)]
	switch o.name {
	case "and", "or", "xor", "andnot":
		for n := 1 + r.Intn(2); n > 0; n-- {
			o.hs = append(o.hs, r.Intn(nsets))
		}
	case "count", "sub":
		o.x, o.y = r.Intn(10), r.Intn(14)-2
	case "range":
		o.x = r.Intn(2) * r.Intn(5)
	}
	return o
}

func concurrent() {
	r := tr.Rng
	i := 0
	// every method against a growing Set, a Set within a byte, and a Clear
	for _, name := range []string{"and", "or", "xor", "andnot", "not", "get", "set", "count", "sub", "range", "clear", "size", "bytes", "binary", "string"} {
		for _, w := range []op{{name: "set", h: 0, x: 9, y: 1}, {name: "set", h: 0, x: 1, y: 1}, {name: "set", h: 0, x: 0, y: 0}, {name: "clear", h: 0}} {
			for _, self := range []bool{false, true} {
				i++
				if !tr.Mine(i) {
					continue
				}
				a := op{name: name, h: 0, x: 0, y: 20}
				switch name {
				case "and", "or", "xor", "andnot":
					a.hs = []int{1}
					if self {
						a.hs = []int{0}
					}
				case "set":
					a.x, a.y = 10, 1
					if self {
						a.x = 2
					}
				case "range":
					a.x = 0
				case "get":
					a.x = 9
				}
				init := [][]byte{{0x80}, {0xff, 0xff}}
				n, ok := sc.Explore(tr.Scale(2, 3), tr.Scale(150, 5000), func(p sc.Picker) sc.Result {
					return history(init, [][]op{{a}, {w}}, p, sc.Opt{Record: true})
				})
				tr.Extra["explored"] += n
				tr.Extra["pairs"]++
				if ok {
					tr.Extra["exhausted"]++
				}
			}
		}
	}
	// readers combining the same sets in different orders while writers wait
	for k := 0; k < tr.Scale(2400, 60000)/tr.Shards; k++ {
		ns := 2 + r.Intn(2)
		if r.Intn(4) == 0 {
			ns = 4 + r.Intn(2)
		}
		var tasks [][]op
		for j := 2; j > 0; j-- {
			p := r.Perm(ns)
			tasks = append(tasks, []op{{name: algs[r.Intn(4)], h: p[0], hs: p[1:]}})
			if r.Intn(4) == 0 {
				tasks[len(tasks)-1][0].hs = append(p[1:], p[0])
			}
		}
		for j := 1 + r.Intn(ns); j > 0; j-- {
			tasks = append(tasks, []op{{name: "set", h: r.Intn(ns), x: r.Intn(12), y: 1}})
		}
		init := [][]byte{}
		for j := 0; j < ns; j++ {
			init = append(init, bytesOf(r, 1))
		}
		history(init, tasks, sc.Any(r, len(tasks), 60), sc.Opt{})
	}
	for k := 0; k < tr.Scale(4000, 80000)/tr.Shards; k++ {
		ns := 1 + r.Intn(3)
		nt := 2 + r.Intn(2)
		tasks := make([][]op, nt)
		total := 0
		for t := range tasks {
			for n := 1 + r.Intn(3); n > 0; n-- {
				tasks[t] = append(tasks[t], randOp(r, ns, r.Intn(3) == 0))
				total++
			}
		}
		init := [][]byte{}
		for j := 0; j < ns; j++ {
			init = append(init, bytesOf(r, r.Intn(3)))
		}
		history(init, tasks, sc.Any(r, nt, total*20), sc.Opt{})
	}
}
