package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/miniLCT/gosb/library/cachex"
	"verifh/tr"
)

// C49: every cache, used through the interface alone, is one map.

type pt struct {
	X int8
	Y string
}

// builder makes caches of every kind, by a description:
//
//	n   NoCache
//	l   LRU, with room for everything
//	f   file store
//	s   LRU that holds one or two
//	x   file store whose contents expire at once
//	(…) chain of these
type builder[K comparable, V any] struct{ dirs []string }

func (b *builder[K, V]) build(d string) (cachex.Cache[K, V], string) {
	switch d[0] {
	case 'n':
		return &cachex.NoCache[K, V]{}, d[1:]
	case 'l':
		return cachex.NewLRUCacheV2[K, V](1000, 0), d[1:]
	case 's':
		return cachex.NewLRUCacheV2[K, V](1+len(d)%2, 0), d[1:]
	case 'f', 'x':
		dirs++
		dir := filepath.Join(os.Getenv("VERIF_WORK"), fmt.Sprint("o", dirs))
		b.dirs = append(b.dirs, dir)
		return &cachex.FileStore[K, V]{Dir: dir}, d[1:]
	}
	c := &cachex.Chain[K, V]{}
	for d = d[1:]; d[0] != ')'; {
		var in cachex.Cache[K, V]
		short := d[0] == 'x'
		in, d = b.build(d)
		ttl := time.Duration(1+len(c.Caches)) * time.Hour
		if short {
			ttl = 1
		}
		c.Caches = append(c.Caches, &cachex.ChainItem[K, V]{Cache: in, TTL: ttl})
	}
	return c, d[1:]
}

// stores says what the cache is: 1 for a map, 0 for an empty one, -1 for neither (it forgets).
func stores(d string) int {
	if strings.ContainsAny(d, "lf") {
		return 1
	}
	if strings.ContainsAny(d, "sx") {
		return -1
	}
	return 0
}

// kinds is every description with up to n parts (the caches and chains in it).
func kinds(n int) []string {
	if n == 0 {
		return nil
	}
	r := []string{"n", "l", "f", "s", "x"}
	for _, s := range lists(n - 1) {
		r = append(r, "("+s+")")
	}
	return r
}

func size(d string) (n int) {
	for _, x := range d {
		if x != ')' {
			n++
		}
	}
	return
}

// lists is every sequence of descriptions with up to n parts altogether.
func lists(n int) []string {
	r := []string{""}
	for _, k := range kinds(n) {
		for _, s := range lists(n - size(k)) {
			r = append(r, k+s)
		}
	}
	return r
}

type step struct {
	op   string
	keys []int
	vals []int
}

func oneMap[K comparable, V any](d string, key func(int) K, value func(int) V, steps []step) {
	b := &builder[K, V]{}
	c, _ := b.build(d)
	defer func() {
		for _, dir := range b.dirs {
			os.RemoveAll(dir)
		}
	}()
	num := map[string]int{} // of the values by their Go syntax
	val := func(i int) V { v := value(i); num[fmt.Sprintf("%#v", v)] = i; return v }
	back := func(v V) int {
		if i, ok := num[fmt.Sprintf("%#v", v)]; ok {
			return i
		}
		return -1
	}
	keyNum := func(k K) int {
		for i := 0; i < 20; i++ {
			if key(i) == k {
				return i
			}
		}
		return -1
	}
	keys := func(is []int) (r []K) {
		for _, i := range is {
			r = append(r, key(i))
		}
		return
	}
	tr.Begin(tr.Ev{"stores": stores(d), "kind": d})
	defer tr.End()
	for _, s := range steps {
		ks := keys(s.keys)
		p := 0
		switch s.op {
		case "get":
			p, _ = tr.Do("get", tr.Ev{"key": s.keys[0]}, func() any {
				v, has, err := c.Get(tr.Ctx(s.op, s.keys, s.vals), ks[0])
				return []int{back(v), tr.B(has), tr.B(err != nil)}
			})
		case "set":
			p, _ = tr.Do("set", tr.Ev{"key": s.keys[0], "val": s.vals[0]}, func() any {
				return tr.B(c.Set(tr.Ctx(s.op, s.keys, s.vals), ks[0], val(s.vals[0]), 10*time.Hour) != nil)
			})
		case "mset":
			m := map[K]V{}
			kvs := [][]int{}
			seen := map[int]bool{}
			for i, k := range s.keys {
				if !seen[k] {
					seen[k] = true
					m[ks[i]] = val(s.vals[i])
					kvs = append(kvs, []int{k, s.vals[i]})
				}
			}
			p, _ = tr.Do("mset", tr.Ev{"kvs": kvs}, func() any { return tr.B(c.MSet(tr.Ctx(s.op, s.keys, s.vals), m, 10*time.Hour) != nil) })
			for k := range m { // it is the caller's again
				m[k] = val(77777)
			}
		case "del":
			p, _ = tr.Do("del", tr.Ev{"keys": tr.Ints(s.keys)}, func() any { return tr.B(c.Delete(tr.Ctx(s.op, s.keys, s.vals), ks...) != nil) })
			for i := range ks {
				ks[i] = key(19)
			}
		case "mget":
			p, _ = tr.Do("mget", tr.Ev{"keys": tr.Ints(s.keys)}, func() any {
				vs, oks, err := c.MGet(tr.Ctx(s.op, s.keys, s.vals), ks...)
				r := [][]int{}
				for i := 0; i < len(vs) && i < len(oks); i++ {
					r = append(r, []int{back(vs[i]), tr.B(oks[i])})
				}
				for i := range vs { // the result is the caller's
					vs[i] = val(88888)
				}
				for i := range ks {
					ks[i] = key(18)
				}
				return tr.Ev{"r": r, "nv": len(vs), "nh": len(oks), "err": tr.B(err != nil)}
			})
		case "view":
			p, _ = tr.Do("view", tr.Ev{"keys": tr.Ints(s.keys)}, func() any {
				mr, err := cachex.MGet[K, V](tr.Ctx(s.op, s.keys, s.vals), c, ks...)
				hits, mp, miss := [][]int{}, [][]int{}, []int{}
				mr.RangeHit(func(k K, v V) bool { hits = append(hits, []int{keyNum(k), back(v)}); return true })
				for k, v := range mr.HitMapValues() {
					mp = append(mp, []int{keyNum(k), back(v)})
				}
				sort.Slice(mp, func(i, j int) bool { return mp[i][0] < mp[j][0] })
				for _, k := range mr.MissKeys() {
					miss = append(miss, keyNum(k))
				}
				return tr.Ev{"hits": hits, "map": mp, "miss": miss, "err": tr.B(err != nil)}
			})
		}
		if p != 0 {
			return
		}
	}
}

func typed(t int, d string, steps []step) {
	switch t {
	case 0:
		oneMap(d, func(i int) int { return i - 2 }, func(i int) string {
			if i == 0 {
				return ""
			}
			return []string{"", "null", `"`}[i%3] + fmt.Sprint(i)
		}, steps)
	case 1:
		oneMap(d, func(i int) string {
			return []string{"", "a/b", "../x", "ü", "1"}[i%5] + strings.Repeat("x", i/5)
		}, func(i int) int { return i }, steps)
	case 3: // values that print alike
		oneMap(d, func(i int) [2]string { return [2]string{"", strings.Repeat(" ", i)} }, func(i int) []string {
			return [][]string{{fmt.Sprint(i/4) + " b"}, {fmt.Sprint(i / 4), "b"}, {fmt.Sprint(i/4) + " b", ""}, {"", fmt.Sprint(i / 4), "b"}}[i%4]
		}, steps)
	case 2:
		oneMap(d, func(i int) pt { return pt{int8(i % 2), fmt.Sprint(i / 2)} }, func(i int) pt { return pt{int8(i % 100), fmt.Sprint(i / 100)} }, steps)
	}
}

func randomSteps(r *rand.Rand, n, keys int) []step {
	some := func(m int) []int {
		ks := []int{}
		for ; m > 0; m-- {
			ks = append(ks, r.Intn(keys))
		}
		return ks
	}
	var steps []step
	few := r.Intn(2) == 0
	for ; n > 0; n-- {
		s := step{op: []string{"get", "get", "set", "set", "mset", "mset", "del", "mget", "mget", "view"}[r.Intn(10)]}
		m := 1
		if s.op[0] == 'm' || s.op[0] == 'v' || s.op == "del" {
			m = r.Intn(6)
		}
		s.keys = some(m)
		for range s.keys {
			val++
			v := val % 1000
			if few {
				v = r.Intn(4)
			}
			s.vals = append(s.vals, v)
		}
		steps = append(steps, s)
	}
	return steps
}

func allCaches() {
	r := tr.Rng
	i := 0
	ops := []step{{"set", []int{0}, []int{0}}, {"set", []int{1}, []int{5}}, {"mset", []int{0, 2}, []int{6, 7}}, {"mset", nil, nil},
		{"del", []int{0}, nil}, {"del", []int{2, 0, 2}, nil}, {"del", nil, nil}, {"mget", []int{0, 1}, nil}, {"get", []int{0}, nil}}
	look := []step{{"mget", nil, nil}, {"mget", []int{0}, nil}, {"get", []int{1}, nil}, {"view", []int{2, 1, 0, 1}, nil}, {"mget", []int{2, 0, 2, 1, 3}, nil}}
	// every cache with few parts, every two operations, then every way to look
	for _, d := range kinds(tr.Scale(3, 4)) {
		if stores(d) < 0 {
			continue
		}
		for _, a := range ops {
			for _, b := range ops {
				if i++; tr.Mine(i) {
					typed(r.Intn(4), d, append([]step{a, b}, look...))
				}
			}
		}
	}
	var all []string
	for _, d := range kinds(5) {
		if stores(d) >= 0 {
			all = append(all, d)
		}
	}
	for j := 0; j < tr.Scale(3000, 40000)/tr.Shards; j++ {
		typed(r.Intn(4), all[r.Intn(len(all))], randomSteps(r, 3+r.Intn(15), 1+r.Intn(8)))
	}
}
