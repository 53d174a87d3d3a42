package main

import (
	"math/rand"
	"testing/synctest"
	"time"

	"verifh/sc"
	"verifh/tr"
)

const lkeys = 2

// call runs an operation; a batch is recorded as one operation for each key.
func call(h *sc.H, t int, o op, s store) {
	type part struct {
		t int
		e tr.Ev
	}
	var parts []part
	add := func(i int, name string, k int) {
		e := tr.Ev{"k": "call", "t": t + 10*i, "op": name, "key": k, "done": 0, "p": 0, "res": 0, "now": now(), "till": 0}
		parts = append(parts, part{t + 10*i, e})
	}
	for i, k := range o.keys {
		switch o.name {
		case "mget":
			add(i, "get", k)
		case "mset":
			add(i, "set", k)
		default:
			add(i, o.name, k)
		}
		e := parts[i].e
		if o.vals != nil {
			e["val"], e["ttl"] = o.vals[i], int(o.ttl/unit)
		}
	}
	if o.name == "purge" {
		for k := 0; k < lkeys; k++ {
			add(k, "del", k)
		}
		add(lkeys, "purge", 0)
	}
	for _, p := range parts {
		h.Add(p.e)
	}
	p, res := sc.TryKill(func() any { return s.do(o) })
	for i, x := range parts {
		r := res
		if o.name == "mget" {
			r = []int{0, 0, 1}
			if p == 0 {
				m := res.(tr.Ev)
				rs := m["r"].([][]int)
				if m["err"].(int) == 0 && i < len(rs) {
					r = []int{rs[i][0], rs[i][1], 0}
				}
			}
		}
		x.e["done"], x.e["p"], x.e["res"], x.e["till"] = 1, p, r, now()
	}
	for _, x := range parts {
		h.Add(tr.Ev{"k": "ret", "t": x.t})
	}
}

func history(pre []op, gc bool, tasks [][]op, p sc.Picker, o sc.Opt) sc.Result {
	h := &sc.H{}
	start, unit = time.Now(), time.Millisecond
	dir := newDir()
	var s store = &typed[int, int]{k: ident, v: ident, ov: ident}
	s.open(dir, time.Second)
	for _, q := range pre {
		call(h, 0, q, s)
	}
	if gc { // the next operation starts a collection
		time.Sleep(5 * time.Second)
	} else {
		time.Sleep(100 * time.Millisecond)
	}
	var fs []func()
	for t, ops := range tasks {
		fs = append(fs, func() {
			for _, q := range ops {
				if q.name == "tick" {
					sc.Advance(q.ttl)
					continue
				}
				call(h, t+1, q, s)
			}
		})
	}
	o.Settle = true
	res := sc.Run(fs, p, o)
	if !res.Stuck {
		for k := 0; k < lkeys; k++ {
			call(h, 0, op{name: "get", keys: []int{k}}, s)
		}
		synctest.Wait()
	}
	h.Emit(tr.Ev{"keys": lkeys}, res.Stuck)
	tr.Extra["schedules"]++
	tr.Extra["steps"] += res.Steps
	dropDir()
	return res
}

func lop(r *rand.Rand, v *int) op {
	*v++
	o := op{keys: []int{r.Intn(lkeys)}, ttl: time.Hour}
	if r.Intn(4) == 0 {
		o.ttl = -time.Second
	}
	switch r.Intn(12) {
	case 0, 1, 2, 3:
		o.name, o.vals = "set", []int{*v}
	case 4, 5, 6:
		o.name = "get"
	case 7:
		o.name = "del"
	case 8:
		o.name, o.keys, o.vals = "mset", []int{0, 1}, []int{*v, *v + 50}
	case 9:
		o.name, o.keys = "mget", []int{1, 0}
	case 10:
		o.name, o.keys = "mget", []int{0, 1}
	case 11:
		o.name, o.keys = "purge", nil
	}
	return o
}

func concurrent() {
	r := tr.Rng
	i := 0
	const h, e = time.Hour, -time.Second
	pres := [][]op{
		{},
		{{"set", []int{0}, []int{1}, h}},
		{{"set", []int{0}, []int{1}, e}},
		{{"set", []int{0}, []int{1}, h}, {"set", []int{0}, []int{2}, e}, {"set", []int{1}, []int{3}, h}},
	}
	ops := []op{
		{"get", []int{0}, nil, 0}, {"set", []int{0}, []int{7}, h}, {"set", []int{0}, []int{8}, e},
		{"del", []int{0}, nil, 0}, {"mget", []int{0, 1}, nil, 0}, {"mset", []int{1, 0}, []int{9, 10}, h}, {"purge", nil, nil, 0},
	}
	for _, pre := range pres {
		for _, gc := range []bool{false, true} {
			if gc && len(pre) == 0 {
				continue
			}
			for x := range ops {
				for y := x; y < len(ops); y++ {
					if i++; !tr.Mine(i) {
						continue
					}
					a, b := ops[x], ops[y]
					if b.vals != nil {
						b.vals = []int{b.vals[0] + 20, 40}[:len(b.vals)]
					}
					n, ok := sc.Explore(tr.Scale(2, 3), tr.Scale(60, 4000), func(p sc.Picker) sc.Result {
						return history(pre, gc, [][]op{{a}, {b}}, p, sc.Opt{Record: true})
					})
					tr.Extra["explored"] += n
					tr.Extra["pairs"]++
					if ok {
						tr.Extra["exhausted"]++
					}
				}
			}
		}
	}
	// time passes meanwhile
	const ms = time.Millisecond
	brief := []op{{"set", []int{0}, []int{1}, 1500 * ms}, {"set", []int{1}, []int{2}, h}}
	ops = []op{
		{"get", []int{0}, nil, 0}, {"mget", []int{0, 1}, nil, 0}, {"del", []int{0}, nil, 0},
		{"set", []int{0}, []int{7}, 1500 * ms}, {"set", []int{0}, []int{8}, h}, {"mset", []int{1, 0}, []int{9, 10}, 1200 * ms},
	}
	for x := range ops {
		for y := range ops {
			if i++; !tr.Mine(i) {
				continue
			}
			a, b := ops[x], ops[y]
			if b.vals != nil {
				b.vals = []int{b.vals[0] + 20, 40}[:len(b.vals)]
			}
			sc.Explore(tr.Scale(2, 3), tr.Scale(60, 4000), func(p sc.Picker) sc.Result {
				return history(brief, false, [][]op{{a}, {b}, {{"tick", nil, nil, 1600 * ms}}}, p, sc.Opt{Record: true})
			})
			tr.Extra["timed"]++
		}
	}
	for k := 0; k < tr.Scale(8000, 100000)/tr.Shards; k++ {
		v := 0
		timed := r.Intn(3) == 0
		var pre []op
		for n := r.Intn(4); n > 0; n-- {
			pre = append(pre, lop(r, &v))
		}
		nt := 2 + r.Intn(2)
		tasks := make([][]op, nt)
		total := 1
		for t := range tasks {
			for n := 1 + r.Intn(2); n > 0; n-- {
				o := lop(r, &v)
				if timed {
					o.ttl = time.Duration(500+r.Intn(3000)) * ms
					if r.Intn(3) == 0 {
						o = op{name: "tick", ttl: time.Duration(200+r.Intn(2000)) * ms}
					}
				}
				tasks[t] = append(tasks[t], o)
				total++
			}
		}
		history(pre, r.Intn(2) == 0, tasks, sc.Any(r, nt, total*20), sc.Opt{})
	}
}
