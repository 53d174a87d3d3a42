package main

import (
	"math"

	"github.com/miniLCT/gosb/gogenerics/gconstraints"
	"github.com/miniLCT/gosb/gogenerics/gnumerics"
	"verifh/tr"
)

// ordered tests one type; vals are some of its values in ascending order.
func ordered[T gconstraints.Ordered](b *batch, name string, vals []T) {
	r := tr.Rng
	rank := func(v T) int {
		for i, x := range vals {
			if x == v {
				return i
			}
		}
		return -1
	}
	var zero T
	z := rank(zero)
	for x := range vals {
		for y := range vals {
			b.next(200)
			tr.Do("max", tr.Ev{"a": x, "b": y, "t": name}, func() any { return rank(gnumerics.Max(vals[x], vals[y])) })
			tr.Do("min", tr.Ev{"a": x, "b": y, "t": name}, func() any { return rank(gnumerics.Min(vals[x], vals[y])) })
		}
		tr.Do("isempty", tr.Ev{"a": x, "z": z, "t": name}, func() any {
			return []int{tr.B(gconstraints.IsEmpty(vals[x])), tr.B(gconstraints.IsNotEmpty(vals[x]))}
		})
		tr.Do("ptr", tr.Ev{"a": x, "z": z, "t": name}, func() any {
			v := vals[x]
			p := gconstraints.ToPtr(v)
			a := rank(*p)
			v = vals[(x+1)%len(vals)]
			q := gconstraints.ToPtr(v)
			*q = vals[(x+2)%len(vals)]
			return []int{a, rank(*p), rank(gconstraints.ToValue(p)), rank(gconstraints.ToValue[T](nil))}
		})
		y := r.Intn(len(vals))
		tr.Do("pack", tr.Ev{"a": x, "b": y, "t": name}, func() any {
			a, c := gconstraints.Pack(vals[x], vals[y]).Unpack()
			return []int{rank(a), rank(c)}
		})
	}
	b.next(200)
	tr.Do("empty", tr.Ev{"z": z, "t": name}, func() any { return rank(gconstraints.Empty[T]()) })
	coll := func(s []int) {
		b.next(200)
		c := make([]T, len(s))
		for i, x := range s {
			c[i] = vals[x]
		}
		tr.Do("maxc", tr.Ev{"s": s, "z": z, "t": name}, func() any { return rank(gnumerics.MaxCollection(c)) })
		tr.Do("minc", tr.Ev{"s": s, "z": z, "t": name}, func() any { return rank(gnumerics.MinCollection(c)) })
	}
	coll([]int{})
	for i := 0; i < tr.Scale(40, 800); i++ {
		s := make([]int, 1+r.Intn(9))
		for j := range s {
			s[j] = r.Intn(len(vals))
		}
		switch r.Intn(4) {
		case 0: // only values on one side of zero
			for j := range s {
				if s[j] <= z {
					s[j] = len(vals) - 1 - r.Intn(2)
				}
			}
		case 1:
			for j := range s {
				if s[j] >= z && z > 0 {
					s[j] = r.Intn(z)
				}
			}
		}
		coll(s)
	}
	for _, n := range tr.Sizes() {
		for i := 0; i < 2; i++ {
			s := make([]int, n)
			for j := range s {
				s[j] = len(vals) / 2
			}
			s[n-1] = i * (len(vals) - 1)
			coll(s)
		}
	}
	// one value that differs, at every place
	for n := 1; n <= 64; n++ {
		sweep(b, name, n, vals, rank)
	}
	for _, n := range tr.Sizes() {
		sweep(b, name, n, vals, rank)
	}
}

// nanNumerics uses not-a-numbers (0), which are neither less nor greater than anything, 0 (1) and 1 (2).
func nanNumerics(b *batch) {
	dec := func(v float64) int {
		if v != v {
			return 0
		}
		return int(v) + 1
	}
	for n := 1; n <= 5; n++ {
		seqs(n, 3, func(s []int) {
			b.next(200)
			c := make([]float64, n)
			for i, x := range s {
				c[i] = float64(x - 1)
				if x == 0 {
					c[i] = math.NaN()
				}
			}
			tr.Do("nan", tr.Ev{"s": append([]int{}, s...)}, func() any {
				res := []int{dec(gnumerics.MaxCollection(c)), dec(gnumerics.MaxBy(c, func(a, b float64) bool { return a > b })),
					dec(gnumerics.MinCollection(c)), dec(gnumerics.MinBy(c, func(a, b float64) bool { return a < b }))}
				if n == 2 {
					res = append(res, dec(gnumerics.Max(c[0], c[1])), dec(gnumerics.Min(c[0], c[1])))
				}
				return res
			})
		})
	}
}

func sweep[T gconstraints.Ordered](b *batch, name string, n int, vals []T, rank func(T) int) {
	b.next(200)
	x, y := tr.Rng.Intn(len(vals)), tr.Rng.Intn(len(vals)-1)
	if y >= x {
		y++
	}
	c := make([]T, n)
	for i := range c {
		c[i] = vals[x]
	}
	every := func(f func([]T) T) []int {
		res := make([]int, n)
		for i := range c {
			c[i] = vals[y]
			res[i] = rank(f(c))
			c[i] = vals[x]
		}
		return res
	}
	less := func(a, b T) bool { return a < b }
	tr.Do("sweep", tr.Ev{"n": n, "a": x, "b": y, "t": name}, func() any {
		return [][]int{every(gnumerics.MaxCollection[T]), every(gnumerics.MinCollection[T]),
			every(func(c []T) T { return gnumerics.MaxBy(c, func(a, b T) bool { return a > b }) }),
			every(func(c []T) T { return gnumerics.MinBy(c, less) })}
	})
}

func numerics() {
	r := tr.Rng
	b := &batch{cfg: tr.Ev{"x": 0}}
	switch tr.Shard % 4 {
	case 0:
		ordered(b, "int", []int{math.MinInt64, -7, -1, 0, 1, 8, math.MaxInt64})
		ordered(b, "int8", []int8{-128, -1, 0, 1, 127})
	case 1:
		ordered(b, "uint64", []uint64{0, 1, 1 << 63, math.MaxUint64})
		ordered(b, "string", []string{"", "\x00", "A", "a", "aa", "b", "\xff"})
	case 2:
		ordered(b, "float64", []float64{math.Inf(-1), -math.MaxFloat64, -1.5, -math.SmallestNonzeroFloat64, 0, math.SmallestNonzeroFloat64, 0.1, math.MaxFloat64, math.Inf(1)})
		ordered(b, "float32", []float32{-1, 0, 1})
	case 3:
		ordered(b, "int64", []int64{math.MinInt64, math.MinInt32, 0, math.MaxInt32, math.MaxInt64})
		ordered(b, "uint8", []uint8{0, 1, 254, 255})
	}
	by := func(s []int) {
		f := r.Intn(4)
		c, enc := make([]el, len(s)), make([]el, len(s))
		for i, x := range s {
			c[i] = el{x, i + 1}
			enc[i] = c[i]
		}
		cmp := func(a, b el) bool {
			switch f {
			case 0:
				return a[0] > b[0]
			case 1:
				return a[0] < b[0]
			case 2:
				return a[0]%3 > b[0]%3
			}
			return a[0]%3 < b[0]%3
		}
		b.next(200)
		tr.Do("maxby", tr.Ev{"s": enc, "f": f}, func() any { return gnumerics.MaxBy(c, cmp) })
		tr.Do("minby", tr.Ev{"s": enc, "f": f}, func() any { return gnumerics.MinBy(c, cmp) })
	}
	for n := 0; n <= tr.Scale(4, 6); n++ {
		seqs(n, 4, by)
	}
	for i := 0; i < tr.Scale(400, 8000)/tr.Shards; i++ {
		s := make([]int, 1+r.Intn(20))
		for j := range s {
			s[j] = r.Intn(1 + r.Intn(10))
		}
		by(s)
	}
	if tr.Mine(0) {
		nanNumerics(b)
	}
	for j, n := range tr.Sizes() {
		for k := 0; k < 4; k++ {
			if !tr.Mine(4*j + k) {
				continue
			}
			s := make([]int, n)
			for i := range s {
				s[i] = []int{i, n - i, 7, r.Intn(n)}[k]
			}
			s[n-1] = []int{0, n + 5, 8, 6}[r.Intn(4)]
			by(s)
			by(s)
		}
	}
	b.end()
}
