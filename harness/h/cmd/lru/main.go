// Driver for the LRU cache: C10 (capacity, eviction), C11 (time, number of uses), C12 (concurrent).
package main

import (
	"fmt"
	"math"
	"math/rand"
	"time"

	"github.com/miniLCT/gosb/library/cachex"
	"verifh/sc"
	"verifh/tr"
)

func main() {
	switch tr.Setup(); tr.Prop {
	case "C12":
		sc.Main(concurrent)
	case "C10":
		sc.Main(eviction)
	case "C11":
		sc.Main(expiry)
	}
}

type op struct {
	name string
	keys []int
	vals []int
	ttl  time.Duration
}

const forever = time.Duration(1000000000) * time.Millisecond

var start time.Time
var unit = time.Millisecond

func now() int { return int(time.Since(start) / unit) }

// units is d in units of time, or what amounts to forever.
func units(d time.Duration) int { return int(max(-1000000000, min(1000000000, d/unit))) }

func (o op) args() tr.Ev {
	e := tr.Ev{"now": now()}
	switch o.name {
	case "get":
		e["key"] = o.keys[0]
	case "set":
		e["key"], e["val"], e["ttl"] = o.keys[0], o.vals[0], units(o.ttl)
	case "mget", "del":
		e["keys"] = tr.Ints(o.keys)
	case "mset", "bulk":
		kvs := [][]int{}
		for i, k := range o.keys {
			kvs = append(kvs, []int{k, o.vals[i]})
		}
		e["kvs"], e["ttl"] = kvs, units(o.ttl)
	}
	return e
}

// cache hides the type of the keys and values.
type cache interface{ do(op) any }

type typed[K comparable, V any] struct {
	c  *cachex.LRUCacheV2[K, V]
	k  func(int) K
	v  func(int) V
	ov func(V) int
}

func (c typed[K, V]) do(o op) any {
	switch o.name {
	case "get":
		v, ok, err := c.c.Get(tr.Ctx(o.name, o.keys, o.vals), c.k(o.keys[0]))
		return []int{c.ov(v), tr.B(ok), tr.B(err != nil)}
	case "set":
		return tr.B(c.c.Set(tr.Ctx(o.name, o.keys, o.vals), c.k(o.keys[0]), c.v(o.vals[0]), o.ttl) != nil)
	case "mset", "bulk":
		m := map[K]V{}
		for i, k := range o.keys {
			m[c.k(k)] = c.v(o.vals[i])
		}
		err := c.c.MSet(tr.Ctx(o.name, o.keys, o.vals), m, o.ttl)
		if o.name == "bulk" && err == nil {
			break
		}
		return tr.B(err != nil)
	}
	ks := []K{}
	for _, k := range o.keys {
		ks = append(ks, c.k(k))
	}
	if o.name == "del" {
		return tr.B(c.c.Delete(tr.Ctx(o.name, o.keys, o.vals), ks...) != nil)
	}
	vs, oks, err := c.c.MGet(tr.Ctx(o.name, o.keys, o.vals), ks...)
	r := [][]int{}
	for i, v := range vs {
		if i >= len(oks) {
			r = append(r, []int{-1, -1})
			break
		}
		r = append(r, []int{c.ov(v), tr.B(oks[i])})
	}
	return tr.Ev{"r": r, "err": tr.B(err != nil)}
}

type pt struct {
	A int8
	B string
}

func newCache(kind, cap, lim int) cache {
	switch kind {
	case 1:
		return typed[string, string]{cachex.NewLRUCacheV2[string, string](cap, lim),
			func(i int) string { return fmt.Sprint("k", i) },
			func(i int) string { return fmt.Sprint(i) },
			func(s string) int { n := 0; fmt.Sscan(s, &n); return n }}
	case 2:
		return typed[pt, any]{cachex.NewLRUCacheV2[pt, any](cap, lim),
			func(i int) pt { return pt{int8(i % 3), fmt.Sprint(i / 3)} },
			func(i int) any { return i },
			func(v any) int { n, _ := v.(int); return n }}
	case 3:
		return typed[any, int]{cachex.NewLRUCacheV2[any, int](cap, lim),
			func(i int) any { return []any{int(i), int64(i), fmt.Sprint(i)}[i%3] },
			func(i int) int { return i }, func(i int) int { return i }}
	}
	return typed[int, int]{cachex.NewLRUCacheV2[int, int](cap, lim),
		func(i int) int { return i }, func(i int) int { return i }, func(i int) int { return i }}
}

func record(c cache, o op) bool {
	p, _ := tr.Do(o.name, o.args(), func() any { return c.do(o) })
	return p == 0
}

func pick(r *rand.Rand, keys, max int) []int {
	p := r.Perm(keys)
	return p[:min(len(p), r.Intn(max+1))]
}

var val int

func some(r *rand.Rand, keys int) op {
	k := r.Intn(keys)
	val++
	switch r.Intn(14) {
	case 0, 1, 2, 3:
		return op{"set", []int{k}, []int{val}, forever}
	case 4, 5, 6, 7:
		return op{"get", []int{k}, nil, 0}
	case 8:
		return op{"del", pick(r, keys, 2), nil, 0}
	case 9, 10:
		o := op{"mset", pick(r, keys, 3), nil, forever}
		for range o.keys {
			val++
			o.vals = append(o.vals, val)
		}
		return o
	}
	o := op{"mget", pick(r, keys, 4), nil, 0}
	if len(o.keys) > 0 && r.Intn(3) == 0 { // a key twice
		o.keys = append(append([]int{}, o.keys...), o.keys[r.Intn(len(o.keys))])
	}
	return o
}

func eviction() {
	r := tr.Rng
	start = time.Now()
	// every sequence of n operations on a small cache
	const keys = 3
	var alpha []op
	for k := 0; k < keys; k++ {
		alpha = append(alpha, op{"set", []int{k}, []int{0}, forever}, op{"get", []int{k}, nil, 0}, op{"del", []int{k}, nil, 0})
	}
	alpha = append(alpha, op{"mget", []int{1, 0}, nil, 0}, op{"set", []int{1}, []int{0}, -time.Hour})
	n := tr.Scale(4, 5)
	idx := make([]int, n)
	for i := 0; ; i++ {
		if tr.Mine(i) {
			cap := 1 + i/tr.Shards%2
			tr.Begin(tr.Ev{"cap": cap, "lim": 0})
			c := newCache(0, cap, 0)
			for j, x := range idx {
				o := alpha[x]
				if o.name == "set" {
					o.vals = []int{10 + j}
				}
				record(c, o)
			}
			record(c, op{"mget", []int{2, 1, 0}, nil, 0})
			tr.End()
		}
		j := n - 1
		for ; j >= 0; j-- {
			if idx[j]++; idx[j] < len(alpha) {
				break
			}
			idx[j] = 0
		}
		if j < 0 {
			break
		}
	}
	for i := 0; i < tr.Scale(1200, 30000)/tr.Shards; i++ {
		cap := 1 + r.Intn(5)
		if r.Intn(6) == 0 {
			cap = 8 + r.Intn(12)
		}
		ks := cap + r.Intn(cap+3)
		c := newCache(r.Intn(4), cap, 0)
		tr.Begin(tr.Ev{"cap": cap, "lim": 0})
		val = 0
		all := r.Perm(ks)
		dead := r.Intn(3) == 0 // some entries expire, which makes no difference to the others
		for j := 5 + r.Intn(40); j > 0; j-- {
			o := some(r, ks)
			if dead && o.ttl > 0 && r.Intn(3) == 0 {
				o.ttl = []time.Duration{-time.Hour, 10 * time.Millisecond}[r.Intn(2)]
			}
			if dead && r.Intn(8) == 0 {
				time.Sleep(20 * time.Millisecond)
			}
			if !record(c, o) {
				break
			}
		}
		record(c, op{"mget", all, nil, 0})
		tr.End()
	}
	for i, n := range tr.Sizes() {
		if tr.Mine(i) && n < 3000 {
			large(n)
		}
	}
}

// large: a cache with room for many entries.
func large(n int) {
	r := tr.Rng
	c := newCache(r.Intn(4)&^2, n, 0)
	tr.Begin(tr.Ev{"cap": n, "lim": 0})
	defer tr.End()
	all := r.Perm(n + 3)
	val = 0
	one := func(name string, k int) bool {
		val++
		return record(c, op{name, []int{k}, []int{val}, forever})
	}
	first := n/2 + r.Intn(n/2)
	o := op{"bulk", all[:first], nil, forever}
	for range o.keys {
		val++
		o.vals = append(o.vals, val)
	}
	if !record(c, o) {
		return
	}
	for _, k := range all[first : n-2] {
		if !one("set", k) {
			return
		}
	}
	// it gets full, and then some
	for j, k := range all[n-2:] {
		if !one("set", k) || !one("get", all[j]) || !one("get", all[r.Intn(n)]) {
			return
		}
	}
	if !record(c, op{"mget", r.Perm(n + 4), nil, 0}) {
		return
	}
	if record(c, op{"del", r.Perm(n + 4)[:n/2], nil, 0}) {
		for k := 0; k < 5; k++ {
			one("set", n+10+k)
		}
		record(c, op{"mget", r.Perm(n + 15), nil, 0})
	}
}

// uses: an entry that may be read many times.
func uses(lim int) {
	start = time.Now()
	c := newCache(0, 2, lim)
	tr.Begin(tr.Ev{"cap": 2, "lim": lim})
	defer tr.End()
	val = 0
	record(c, op{"set", []int{0}, []int{1}, forever})
	record(c, op{"set", []int{1}, []int{2}, forever})
	var k int
	for j := 0; j < 2*lim+2; {
		if k = tr.Rng.Intn(2); tr.Rng.Intn(9) == 0 {
			j += 20
			if !record(c, op{"mget", []int{k, k, k, k, k, k, k, k, k, k, k, k, k, k, k, k, k, k, k, k}, nil, 0}) {
				return
			}
			continue
		}
		if j++; !record(c, op{"get", []int{k}, nil, 0}) {
			return
		}
	}
	for j := 0; j < 2; j++ {
		for i := 0; i < 40; i++ {
			record(c, op{"get", []int{j}, nil, 0})
		}
	}
}

func expiry() {
	r := tr.Rng
	for i := 0; i < tr.Scale(4000, 60000)/tr.Shards; i++ {
		start, unit = time.Now(), []time.Duration{time.Nanosecond, time.Microsecond, time.Millisecond, time.Second, time.Minute}[r.Intn(5)]
		if time.Now().Year() > 2150 { // times have to stay within the range of UnixNano
			unit = time.Microsecond
		}
		lim := r.Intn(4)
		cap := []int{1, 2, 3, 20}[r.Intn(4)]
		ks := 1 + r.Intn(4)
		c := newCache(r.Intn(4), cap, lim)
		tr.Begin(tr.Ev{"cap": cap, "lim": lim})
		val = 0
		for j := 5 + r.Intn(30); j > 0; j-- {
			if r.Intn(3) == 0 {
				time.Sleep(time.Duration([]int{1, 5, 10, 11, 30, 99, 100, 101, 5000}[r.Intn(9)]) * unit)
			}
			o := some(r, ks)
			if o.name == "set" || o.name == "mset" {
				o.ttl = time.Duration([]int{10, 10, 20, 100, 100, 1000, 0, -5, 60000}[r.Intn(9)]) * unit
				if r.Intn(12) == 0 {
					o.ttl = []time.Duration{math.MaxInt64, forever, -forever, 1 << 60}[r.Intn(4)]
				}
			}
			if !record(c, o) {
				break
			}
		}
		record(c, op{"mget", r.Perm(ks), nil, 0})
		tr.End()
	}
	unit = time.Minute
	for i, n := range tr.Sizes() {
		if tr.Mine(i) {
			uses(n)
		}
	}
}

func history(cap, lim, keys int, pre []op, tasks [][]op, p sc.Picker, o sc.Opt) sc.Result {
	start = time.Now()
	h := &sc.H{Now: now}
	c := newCache(0, cap, lim)
	for _, q := range pre {
		h.Call(0, q.name, q.args(), func() any { return c.do(q) })
	}
	var fs []func()
	for t, ops := range tasks {
		fs = append(fs, func() {
			for _, q := range ops {
				if q.name == "tick" {
					sc.Advance(q.ttl)
					continue
				}
				h.Call(t+1, q.name, q.args(), func() any { return c.do(q) })
			}
		})
	}
	res := sc.Run(fs, p, o)
	if !res.Stuck {
		// the order of use shows when new keys come in
		for k := 0; k < keys; k++ {
			q := op{"get", []int{k}, nil, 0}
			h.Call(0, q.name, q.args(), func() any { return c.do(q) })
		}
	}
	h.Emit(tr.Ev{"cap": cap, "lim": lim}, res.Stuck)
	tr.Extra["schedules"]++
	tr.Extra["steps"] += res.Steps
	return res
}

func concurrent() {
	r := tr.Rng
	start = time.Now()
	const keys = 4
	ops := []op{
		{"get", []int{0}, nil, 0}, {"get", []int{3}, nil, 0},
		{"set", []int{0}, []int{50}, forever}, {"set", []int{2}, []int{51}, forever}, {"set", []int{1}, []int{52}, -5 * time.Millisecond},
		{"mget", []int{0, 1}, nil, 0}, {"mget", []int{1, 0, 1}, nil, 0},
		{"mset", []int{0, 1}, []int{53, 54}, forever}, {"mset", []int{1, 2}, []int{55, 56}, forever},
		{"del", []int{0}, nil, 0}, {"del", []int{0, 1}, nil, 0},
	}
	i := 0
	pre := []op{{"set", []int{0}, []int{1}, forever}, {"set", []int{1}, []int{2}, forever}}
	for _, lim := range []int{0, 1} {
		for x := range ops {
			for y := x; y < len(ops); y++ {
				i++
				if !tr.Mine(i) {
					continue
				}
				a, b := ops[x], ops[y]
				if b.vals != nil {
					v := []int{}
					for _, w := range b.vals {
						v = append(v, w+20)
					}
					b.vals = v
				}
				n, ok := sc.Explore(tr.Scale(2, 4), tr.Scale(150, 5000), func(p sc.Picker) sc.Result {
					return history(2, lim, keys, pre, [][]op{{a}, {b}}, p, sc.Opt{Record: true})
				})
				tr.Extra["explored"] += n
				tr.Extra["pairs"]++
				if ok {
					tr.Extra["exhausted"]++
				}
			}
		}
	}
	// time passes meanwhile
	const ms = time.Millisecond
	pre = []op{{"set", []int{0}, []int{1}, 10 * ms}, {"set", []int{1}, []int{2}, forever}}
	ops = []op{
		{"get", []int{0}, nil, 0}, {"mget", []int{0, 1, 0}, nil, 0}, {"del", []int{0}, nil, 0},
		{"set", []int{0}, []int{50}, 10 * ms}, {"set", []int{0}, []int{51}, forever}, {"set", []int{2}, []int{52}, 20 * ms},
		{"mset", []int{0, 2}, []int{53, 54}, 15 * ms},
	}
	for x := range ops {
		for y := range ops {
			if i++; !tr.Mine(i) {
				continue
			}
			a, b := ops[x], ops[y]
			if b.vals != nil {
				b.vals = []int{b.vals[0] + 20, 99}[:len(b.vals)]
			}
			sc.Explore(tr.Scale(2, 3), tr.Scale(100, 5000), func(p sc.Picker) sc.Result {
				return history(2, x%2, keys, pre, [][]op{{a}, {b}, {{"tick", nil, nil, 12 * ms}}}, p, sc.Opt{Record: true})
			})
			tr.Extra["timed"]++
		}
	}
	for k := 0; k < tr.Scale(6000, 100000)/tr.Shards; k++ {
		val = 0
		cap, lim := 1+r.Intn(3), r.Intn(3)
		timed := r.Intn(3) == 0
		var pre []op
		for n := r.Intn(5); n > 0; n-- {
			pre = append(pre, some(r, keys))
		}
		nt := 2 + r.Intn(2)
		tasks := make([][]op, nt)
		total := 0
		for t := range tasks {
			for n := 1 + r.Intn(3); n > 0; n-- {
				o := some(r, keys)
				if r.Intn(8) == 0 {
					o.ttl = -5 * ms
				} else if timed {
					o.ttl = time.Duration(5+r.Intn(20)) * ms
					if r.Intn(3) == 0 {
						o = op{name: "tick", ttl: time.Duration(1+r.Intn(15)) * ms}
					}
				}
				tasks[t] = append(tasks[t], o)
				total++
			}
		}
		history(cap, lim, keys, pre, tasks, sc.Any(r, nt, total*12), sc.Opt{})
	}
}
