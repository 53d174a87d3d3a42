package main

import (
	"math"
	"strconv"

	"github.com/miniLCT/gosb/gogenerics/gcontainers/gslice"
	"verifh/tr"
)

type st[T comparable] struct {
	to   func(int) T
	from func(T) int
}

// arg is a slice in the middle of a larger array, so that writes outside of it are seen.
type arg[T comparable] struct {
	back, orig []T
	s          []T
	enc        []int
}

func (t st[T]) arg(enc []int, isNil bool) *arg[T] {
	a := &arg[T]{enc: enc}
	if isNil {
		a.enc = []int{}
		return a
	}
	pre, post := tr.Rng.Intn(2), tr.Rng.Intn(6)
	a.back = make([]T, pre+len(enc)+post)
	for i := range a.back {
		a.back[i] = t.to(90 + i%5)
	}
	for i, x := range enc {
		a.back[pre+i] = t.to(x)
	}
	a.s = a.back[pre : pre+len(enc)] // with spare capacity
	if post == 0 {
		a.s = a.back[pre : pre+len(enc) : pre+len(enc)]
	}
	a.orig = append([]T{}, a.back...)
	return a
}

func (a *arg[T]) changed() int {
	for i := range a.back {
		if a.back[i] != a.orig[i] {
			return 1
		}
	}
	return 0
}

func (t st[T]) enc(s []T) []int {
	r := []int{}
	for _, x := range s {
		r = append(r, t.from(x))
	}
	return r
}

// call runs one function; f returns its result, which is a slice (res) or not.
func (t st[T]) call(op string, args tr.Ev, a, b *arg[T], f func(e tr.Ev) (any, []T, bool)) {
	e := tr.Ev{"op": op, "s": a.enc, "sn": tr.B(a.s == nil), "s2": []int{}, "mod": 0, "al": 0, "nil": 0, "n": 0, "arg": []int{}}
	if b != nil {
		e["s2"] = b.enc
	}
	for k, v := range args {
		e[k] = v
	}
	tr.Busy(true, e)
	p, res := tr.Try(func() any {
		r, sl, isSlice := f(e)
		mod := a.changed()
		if b != nil {
			mod |= b.changed()
		}
		e["mod"] = mod
		e["arg"] = t.enc(a.s)
		if isSlice {
			r = t.enc(sl)
			e["nil"] = tr.B(sl == nil)
			if mod == 0 {
				for i := range sl {
					sl[i] = t.to(80)
				}
				x := append(sl, t.to(81), t.to(82))
				for i := range x {
					x[i] = t.to(83)
				}
				al := a.changed()
				if b != nil {
					al |= b.changed()
				}
				e["al"] = al
			}
		}
		return r
	})
	tr.Busy(false, nil)
	e["p"], e["res"] = p, res
	tr.Add(e)
}

func (t st[T]) all(e1, e2 []int, nil1, nil2 bool) {
	r := tr.Rng
	f := r.Intn(5)
	c := r.Intn(5)
	if len(e1) > 30 { // what is found late, or not at all
		c = append(e1[len(e1)-2:], 9999, 9998)[r.Intn(4)]
	}
	arg1 := func() *arg[T] { return t.arg(e1, nil1) }
	no := func(x any) (any, []T, bool) { return x, nil, false }
	key := func(x T) int {
		v := t.from(x)
		switch f {
		case 1:
			return v % 3
		case 2:
			return 0
		case 3:
			return v / 2
		}
		return v
	}
	pred := func(x T) bool {
		v := t.from(x)
		switch f {
		case 0:
			return v == c
		case 1:
			return v%3 == c%3
		case 2:
			return v > c
		case 3:
			return true
		}
		return false
	}
	less := func(x, y T) bool {
		a, b := t.from(x), t.from(y)
		switch f {
		case 0:
			return a < b
		case 1:
			return a > b
		}
		return a%3 < b%3
	}
	a := arg1()
	t.call("copy", nil, a, nil, func(tr.Ev) (any, []T, bool) { return nil, gslice.Copy(a.s), true })
	t.call("len", nil, a, nil, func(tr.Ev) (any, []T, bool) { return no(gslice.Len(a.s)) })
	a = arg1()
	t.call("index", tr.Ev{"c": c}, a, nil, func(tr.Ev) (any, []T, bool) { return no(gslice.Index(a.s, t.to(c))) })
	t.call("contains", tr.Ev{"c": c}, a, nil, func(tr.Ev) (any, []T, bool) { return no(tr.B(gslice.Contains(a.s, t.to(c)))) })
	t.call("indexf", tr.Ev{"c": c, "f": f}, a, nil, func(tr.Ev) (any, []T, bool) { return no(gslice.IndexWithFunc(a.s, pred)) })
	t.call("containsf", tr.Ev{"c": c, "f": f}, a, nil, func(tr.Ev) (any, []T, bool) {
		return no(tr.B(gslice.ContainsWithFunc(a.s, pred)))
	})
	a = arg1()
	t.call("unique", nil, a, nil, func(e tr.Ev) (any, []T, bool) {
		x, n := gslice.Unique(a.s)
		e["n"] = n
		return nil, x, true
	})
	a = arg1()
	t.call("uniquef", tr.Ev{"f": f % 4}, a, nil, func(e tr.Ev) (any, []T, bool) {
		if f == 4 {
			f = 0
		}
		x, n := gslice.UniqueWithFunc(a.s, key)
		e["n"] = n
		return nil, x, true
	})
	a = arg1()
	t.call("reverse", nil, a, nil, func(tr.Ev) (any, []T, bool) { return t.enc(gslice.Reverse(a.s)), nil, false })
	a = arg1()
	t.call("shuffle", nil, a, nil, func(tr.Ev) (any, []T, bool) { return t.enc(gslice.Shuffle(a.s)), nil, false })
	f = r.Intn(3)
	a = arg1()
	t.call("sortedf", tr.Ev{"f": f}, a, nil, func(tr.Ev) (any, []T, bool) { return no(tr.B(gslice.IsSortedFunc(a.s, less))) })
	a = arg1()
	b := t.arg(e2, nil2)
	t.call("equal", nil, a, b, func(tr.Ev) (any, []T, bool) { return no(tr.B(gslice.Equal(a.s, b.s))) })
	f = r.Intn(5)
	t.call("equalf", tr.Ev{"f": f}, a, b, func(tr.Ev) (any, []T, bool) {
		return no(tr.B(gslice.EqualWithFunc(a.s, b.s, func(x, y T) bool { return eqf(f, t.from(x), t.from(y)) })))
	})
	t.call("merge", nil, a, b, func(tr.Ev) (any, []T, bool) { return nil, gslice.Merge(a.s, b.s), true })
}

func (t st[T]) same(e []int) {
	a := t.arg(e, false)
	t.call("merge", nil, a, a, func(tr.Ev) (any, []T, bool) { return nil, gslice.Merge(a.s, a.s), true })
	b := t.arg(e, false)
	t.call("equal", nil, b, b, func(tr.Ev) (any, []T, bool) { return 1 - tr.B(!gslice.Equal(b.s, b.s)), nil, false })
}

func slices() {
	r := tr.Rng
	ti := st[int]{ident, ident}
	ts := st[string]{func(i int) string { return string(rune('a' + i)) }, func(s string) int {
		if s == "" {
			return -1
		}
		return int([]rune(s)[0] - 'a')
	}}
	tk := st[key]{func(i int) key { return key{i, strconv.Itoa(i)} }, func(k key) int { return k.a }}
	b := &batch{cfg: tr.Ev{"x": 0}}
	one := func(i int, e1, e2 []int, n1, n2 bool) {
		b.next(150)
		switch i % 3 {
		case 0:
			ti.all(e1, e2, n1, n2)
			a := ti.arg(e1, n1)
			ti.call("sorted", nil, a, nil, func(tr.Ev) (any, []int, bool) { return tr.B(gslice.IsSorted(a.s)), nil, false })
			ti.same(e1)
		case 1:
			ts.all(e1, e2, n1, n2)
			a := ts.arg(e1, n1)
			ts.call("sorted", nil, a, nil, func(tr.Ev) (any, []string, bool) { return tr.B(gslice.IsSorted(a.s)), nil, false })
		case 2:
			tk.all(e1, e2, n1, n2)
			tk.same(e1)
		}
	}
	for _, n1 := range []bool{false, true} {
		for _, n2 := range []bool{false, true} {
			for i := 0; i < 3; i++ {
				one(i, []int{}, []int{}, n1, n2)
				one(i, []int{}, []int{1, 2}, n1, n2 && n1)
				one(i, []int{1, 2}, []int{}, n1 && n2, n2)
			}
		}
	}
	i := 0
	for n := 0; n <= tr.Scale(4, 6); n++ {
		seqs(n, 3, func(s []int) {
			i++
			o := append([]int{}, s...)
			switch r.Intn(4) {
			case 0:
				if n > 0 {
					o[r.Intn(n)] = r.Intn(3)
				}
			case 1:
				o = o[:r.Intn(n+1)]
			case 2:
				o = append(o, r.Intn(3))
			}
			one(i, s, o, false, r.Intn(10) == 0)
		})
	}
	for i := 0; i < tr.Scale(400, 8000)/tr.Shards; i++ {
		n := r.Intn(25)
		span := 1 + r.Intn(12)
		s, o := make([]int, n), make([]int, r.Intn(25))
		for j := range s {
			s[j] = r.Intn(span)
		}
		switch r.Intn(4) {
		case 0:
			for j := range s {
				s[j] = j * span / 25
			}
		case 1:
			for j := range s {
				s[j] = (n - j) * span / 25
			}
		}
		for j := range o {
			o[j] = r.Intn(span)
		}
		if r.Intn(2) == 0 {
			o = append([]int{}, s...)
			if n > 0 && r.Intn(2) == 0 {
				o[r.Intn(n)] = r.Intn(span)
			}
		}
		one(i, s, o, false, false)
	}
	// large ones, that differ in what comes late
	for j, n := range tr.Sizes() {
		for kind := 0; kind < 5; kind++ {
			if i++; !tr.Mine(i) {
				continue
			}
			s := make([]int, n)
			for k := range s {
				switch kind {
				case 0, 4:
					s[k] = k
				case 1:
					s[k] = k * 3 / n
				case 2:
					s[k] = r.Intn(n)
				case 3:
					s[k] = n + 5 - k
				}
			}
			if kind == 4 {
				s[n-1] = 0
			} else if kind > 0 {
				s[n-1] = n + 7 - kind
			}
			o := append([]int{}, s...)
			switch r.Intn(3) {
			case 0:
				o[n-1-r.Intn(2)]++
			case 1:
				o = append(o, 1)
			}
			one(j+kind, s, o, false, false)
		}
	}
	if tr.Mine(0) {
		b.next(0)
		N := math.NaN()
		for n := 1; n <= 4; n++ {
			for i := 0; i < n; i++ {
				s := []float64{1, 2, 3, 4}[:n]
				s[i] = N
				same := func(a, b float64) bool { return a == b }
				tr.Do("nan", tr.Ev{"n": n, "i": i}, func() any {
					u, k := gslice.Unique(append(gslice.Copy(s), N))
					return []int{tr.B(gslice.Equal(s, s)), tr.B(gslice.Equal(s, gslice.Copy(s))), tr.B(gslice.EqualWithFunc(s, s, same)),
						gslice.Index(s, N), tr.B(gslice.Contains(s, N)), len(u), k, tr.B(gslice.IsSorted(s)), len(gslice.Merge(s, s))}
				})
			}
		}
	}
	// what matters sits at every place in turn
	for n := 1; n <= 64; n++ {
		if tr.Mine(n) {
			b.next(150)
			slicesSweep(n)
		}
	}
	for j, n := range tr.Sizes() {
		if tr.Mine(j) {
			b.next(150)
			slicesSweep(n)
		}
	}
	b.end()
}

// slicesSweep calls the helpers with 2, 4 ... 2n and a change at the first, second ... place.
func slicesSweep(n int) {
	s, o := make([]int, n), make([]int, n)
	for i := range s {
		s[i], o[i] = 2*i+2, 2*i+2
	}
	less := func(a, b int) bool { return a < b }
	for _, op := range []string{"index", "indexf", "equal", "equalf", "sorted", "sortedf", "unique", "uniquef", "contains", "containsf"} {
		tr.Do("sweep", tr.Ev{"n": n, "f": op}, func() any {
			res := make([][]int, 0, n)
			for i := range s {
				x := s[i]
				switch op {
				case "index":
					res = append(res, []int{gslice.Index(s, x)})
				case "indexf":
					res = append(res, []int{gslice.IndexWithFunc(s, func(v int) bool { return v == x })})
				case "contains":
					s[i] = 1
					res = append(res, []int{tr.B(gslice.Contains(s, 1)), tr.B(gslice.Contains(s, x))})
				case "containsf":
					s[i] = 1
					res = append(res, []int{tr.B(gslice.ContainsWithFunc(s, func(v int) bool { return v == 1 })), tr.B(gslice.ContainsWithFunc(s, func(v int) bool { return v == x }))})
				case "equal":
					a := tr.B(gslice.Equal(s, o))
					s[i] = 1
					res = append(res, []int{a, tr.B(gslice.Equal(s, o)), tr.B(gslice.Equal(o, s))})
				case "equalf":
					eq := func(a, b int) bool { return a == b }
					a := tr.B(gslice.EqualWithFunc(s, o, eq))
					s[i] = 1
					res = append(res, []int{a, tr.B(gslice.EqualWithFunc(s, o, eq))})
				case "sorted": // the smallest or the largest value there
					s[i] = 1
					a := tr.B(gslice.IsSorted(s))
					s[i] = 2*n + 2
					res = append(res, []int{a, tr.B(gslice.IsSorted(s))})
				case "sortedf":
					s[i] = 1
					a := tr.B(gslice.IsSortedFunc(s, less))
					s[i] = 2*n + 2
					res = append(res, []int{a, tr.B(gslice.IsSortedFunc(s, less))})
				case "unique", "uniquef": // a copy of the first
					s[i] = s[0]
					u, l := gslice.Unique(s)
					if op == "uniquef" {
						u, l = gslice.UniqueWithFunc(s, func(v int) int { return v })
					}
					t := 0
					for _, v := range u {
						t += v
					}
					res = append(res, []int{len(u), l, t})
				}
				s[i] = x
			}
			return res
		})
	}
}
