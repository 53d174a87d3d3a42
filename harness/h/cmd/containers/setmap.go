package main

import (
	"math"
	"strconv"

	"github.com/miniLCT/gosb/gogenerics/gconstraints"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gmap"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gset"
	"verifh/tr"
)

// K and V are the types of keys and values, with conversions from and to numbers.
type kv[K comparable, V comparable] struct {
	k  func(int) K
	ki func(K) int
	v  func(int) V
	vi func(V) int
}

type key struct {
	a int
	b string
}

func eqf(f, a, b int) bool {
	switch f {
	case 0:
		return a == b
	case 1:
		return a%3 == b%3
	case 2:
		return a < b
	case 3:
		return true
	}
	return false
}

func (t kv[K, V]) pairs(m map[K]V) [][]int {
	r := [][]int{}
	for k, v := range m {
		r = append(r, []int{t.ki(k), t.vi(v)})
	}
	return r
}

func (t kv[K, V]) run(n, big int) {
	r := tr.Rng
	tr.Begin(tr.Ev{"x": 0})
	keys := max(1+r.Intn(8), big)
	rk := func() int { return r.Intn(keys) }
	rv := func() int { return r.Intn(4) }
	s := gset.NewSet[K]()
	m := [2]map[K]V{}
	kvs := func() ([][]int, []gconstraints.Entry[K, V]) {
		enc, es := [][]int{}, []gconstraints.Entry[K, V]{}
		for j := max(r.Intn(keys+2), big); j > 0; j-- {
			k, v := rk(), rv()
			if big > 0 {
				k = j - 1
			}
			enc = append(enc, []int{k, v})
			es = append(es, gconstraints.Entry[K, V]{Key: t.k(k), Value: t.v(v)})
		}
		return enc, es
	}
	fresh := func(i int) {
		enc, es := kvs()
		switch {
		case big == 0 && r.Intn(5) == 0: // nil
			m[i], enc = nil, [][]int{}
		case i == 1 && r.Intn(2) == 0: // like the other, perhaps with a change
			m[1] = map[K]V{}
			for k, v := range m[0] {
				m[1][k] = v
			}
			enc = t.pairs(m[1])
		default:
			m[i] = map[K]V{}
			for _, e := range es {
				m[i][e.Key] = e.Value
			}
		}
		tr.Do("mnew", tr.Ev{"i": i + 1, "kv": enc}, func() any { return 0 })
	}
	fresh(0)
	fresh(1)
	for k := 0; k < big; k++ {
		tr.Do("sadd", tr.Ev{"v": k}, func() any { return tr.B(gset.Add(s, t.k(k))) })
	}
	for ; n > 0; n-- {
		i := r.Intn(2)
		k, v := rk(), rv()
		M := m[i]
		switch r.Intn(23) {
		case 0, 1, 2:
			tr.Do("sadd", tr.Ev{"v": k}, func() any { return tr.B(gset.Add(s, t.k(k))) })
		case 3:
			tr.Do("srem", tr.Ev{"v": k}, func() any { return tr.B(gset.Remove(s, t.k(k))) })
		case 4:
			tr.Do("shas", tr.Ev{"v": k}, func() any { return tr.B(gset.Contains(s, t.k(k))) })
		case 5:
			tr.Do("slen", nil, func() any { return gset.Len(s) })
		case 6:
			tr.Do("sitems", nil, func() any {
				x := []int{}
				for _, e := range gset.Items(s) {
					x = append(x, t.ki(e))
				}
				return x
			})
		case 7:
			if r.Intn(3) == 0 {
				tr.Do("sclear", nil, func() any { gset.Clear(s); return 0 })
			} else if r.Intn(3) == 0 {
				tr.Do("snew", nil, func() any { s = gset.NewSetWithSize[K](r.Intn(10)); return 0 })
			}
		case 8:
			fresh(i)
		case 9, 10:
			if M != nil {
				tr.Do("mput", tr.Ev{"i": i + 1, "k": k, "v": v}, func() any { M[t.k(k)] = t.v(v); return 0 })
			}
		case 11:
			tr.Do("mdel", tr.Ev{"i": i + 1, "k": k}, func() any { delete(M, t.k(k)); return 0 })
		case 12:
			tr.Do("mkeys", tr.Ev{"i": i + 1}, func() any {
				x := []int{}
				for _, e := range gmap.Keys(M) {
					x = append(x, t.ki(e))
				}
				return x
			})
		case 13:
			tr.Do("mvalues", tr.Ev{"i": i + 1}, func() any {
				x := []int{}
				for _, e := range gmap.Values(M) {
					x = append(x, t.vi(e))
				}
				return x
			})
		case 14:
			tr.Do("mlen", tr.Ev{"i": i + 1}, func() any { return gmap.Len(M) })
		case 15:
			tr.Do("mhas", tr.Ev{"i": i + 1, "k": k}, func() any { return tr.B(gmap.Contains(M, t.k(k))) })
		case 16:
			if r.Intn(2) == 0 {
				tr.Do("mclear", tr.Ev{"i": i + 1}, func() any { gmap.Clear(M); return 0 })
			}
		case 17:
			tr.Do("mcopy", tr.Ev{"i": i + 1}, func() any {
				c := gmap.Copy(M)
				x := t.pairs(c)
				c[t.k(k)] = t.v(v + 1)
				delete(c, t.k(rk()))
				return []any{x, t.pairs(M)}
			})
		case 18:
			tr.Do("mentries", tr.Ev{"i": i + 1}, func() any {
				x := [][]int{}
				for _, e := range gmap.Map2Entries(M) {
					x = append(x, []int{t.ki(e.Key), t.vi(e.Value)})
				}
				return x
			})
		case 19:
			enc, es := kvs()
			tr.Do("mfrom", tr.Ev{"kv": enc}, func() any { return t.pairs(gmap.Entries2Map(es)) })
		case 20:
			tr.Do("mequal", tr.Ev{"i": i + 1, "j": 2 - i}, func() any { return tr.B(gmap.Equal(M, m[1-i])) })
		case 21:
			f := r.Intn(5)
			j := r.Intn(2)
			other := map[K]string{}
			for k, v := range m[j] {
				other[k] = strconv.Itoa(t.vi(v))
			}
			tr.Do("mequalf", tr.Ev{"i": i + 1, "j": j + 1, "f": f}, func() any {
				return tr.B(gmap.EqualWithFunc(M, other, func(a V, b string) bool {
					x, _ := strconv.Atoi(b)
					return eqf(f, t.vi(a), x)
				}))
			})
		case 22:
			tr.Do("mlook", tr.Ev{"i": i + 1}, func() any { return t.pairs(M) })
		}
	}
	tr.End()
}

func ident(i int) int { return i }
func atoi(s string) int {
	i, _ := strconv.Atoi(s)
	return i
}

func setmaps() {
	nans()
	one := func(i, n, big int) {
		switch i % 3 {
		case 0:
			kv[int, int]{ident, ident, ident, ident}.run(n, big)
		case 1:
			kv[string, float64]{strconv.Itoa, atoi, func(i int) float64 { return float64(i) }, func(f float64) int { return int(f) }}.run(n, big)
		case 2:
			kv[key, *int]{func(i int) key { return key{i, strconv.Itoa(i)} }, func(k key) int { return k.a },
				func(i int) *int {
					if i == 0 {
						return nil
					}
					return &cells[i]
				}, func(p *int) int {
					if p == nil {
						return 0
					}
					return *p
				}}.run(n, big)
		}
	}
	for i := 0; i < tr.Scale(1200, 16000)/tr.Shards; i++ {
		one(i, 10+tr.Rng.Intn(40), 0)
	}
	for j, n := range tr.Sizes() {
		for i := 0; i < 3; i++ {
			if tr.Mine(3*j + i) {
				one(i, 80, n)
			}
		}
	}
}

// nans calls everything with a key, or a value, that does not equal itself: one trace per call,
// so that one that fails is told from others.
func nans() {
	if !tr.Mine(0) {
		return
	}
	N := math.NaN()
	set := func() gset.Set[float64] {
		s := gset.NewSet[float64]()
		gset.Add(s, 1)
		gset.Add(s, N)
		gset.Add(s, N)
		return s
	}
	mp := func() map[float64]int { return map[float64]int{1: 1, N: 2} }
	mv := func() map[int]float64 { return map[int]float64{1: N} }
	same := func(a, b float64) bool { return a == b }
	for _, c := range []struct {
		f string
		g func() int
	}{
		{"set.Len", func() int { return gset.Len(set()) }},
		{"set.Contains", func() int { return tr.B(gset.Contains(set(), N)) }},
		{"set.Items", func() int { return len(gset.Items(set())) }},
		{"set.Remove", func() int { s := set(); gset.Remove(s, N); return len(s) }},
		{"set.Clear", func() int { s := set(); gset.Clear(s); return len(s) }},
		{"map.Len", func() int { return gmap.Len(mp()) }},
		{"map.Contains", func() int { return tr.B(gmap.Contains(mp(), N)) }},
		{"map.Keys", func() int { return len(gmap.Keys(mp())) }},
		{"map.Values", func() int { v := gmap.Values(mp()); return v[0] + v[1] }},
		{"map.Copy", func() int { return len(gmap.Copy(mp())) }},
		{"map.Map2Entries", func() int { e := gmap.Map2Entries(mp()); return e[0].Value + e[1].Value }},
		{"map.Entries2Map", func() int {
			return len(gmap.Entries2Map([]gconstraints.Entry[float64, int]{{Key: N}, {Key: 1}, {Key: N}}))
		}},
		{"map.Equal", func() int { m := mp(); return tr.B(gmap.Equal(m, m)) }},
		{"map.Equal values", func() int { m := mv(); return tr.B(gmap.Equal(m, m)) }},
		{"map.EqualWithFunc", func() int { m := mv(); return tr.B(gmap.EqualWithFunc(m, m, same)) }},
		{"map.EqualWithFunc all", func() int {
			m := mv()
			return tr.B(gmap.EqualWithFunc(m, m, func(a, b float64) bool { return true }))
		}},
		{"map.Clear", func() int { m := mp(); gmap.Clear(m); return len(m) }},
	} {
		tr.Begin(tr.Ev{"x": "nan"})
		tr.Do("nan", tr.Ev{"f": c.f}, func() any { return c.g() })
		tr.End()
	}
}

var cells = [8]int{0, 1, 2, 3, 4, 5, 6, 7}
