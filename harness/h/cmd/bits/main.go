// Driver for BitSet: C20 (one set), C21 (algebra), C22 (concurrent).
package main

import (
	"encoding/hex"
	"math"

	"github.com/miniLCT/gosb/library/bitset"
	"verifh/sc"
	"verifh/tr"
)

func main() {
	switch tr.Setup(); tr.Prop {
	case "C20":
		single()
	case "C21":
		algebra()
	case "C22":
		sc.Main(concurrent)
		return
	}
	tr.Finish()
}

// world are the sets of a trace, in order of creation.
type world struct {
	sets []*bitset.BitSet
	// the slice that sets are made from parts of, as it is and as it was
	buf, was []byte
	parts    [][2]int
}

// part makes a set from a part of the slice; parts do not overlap.
func (w *world) part(a, z int) {
	w.parts = append(w.parts, [2]int{a, z})
	w.do("new", tr.Ev{"h": 1, "b": tr.Ints(w.buf[a:z])}, func() any {
		w.sets = append(w.sets, bitset.New(w.buf[a:z]...))
		return 0
	})
}

// outer looks at the bytes of the slice that are in none of the parts.
func (w *world) outer() bool {
	out := func(b []byte) []int {
		r := []int{}
		for i, x := range b {
			in := false
			for _, p := range w.parts {
				in = in || p[0] <= i && i < p[1]
			}
			if !in {
				r = append(r, int(x))
			}
		}
		return r
	}
	return w.do("outer", tr.Ev{"h": 1, "b": out(w.was)}, func() any { return out(w.buf) })
}

func clamp(n int) int {
	const m = 1000000000
	return max(-m, min(m, n))
}

func (w *world) do(op string, args tr.Ev, f func() any) bool {
	p, _ := tr.Do(op, args, f)
	return p == 0
}

func (w *world) reset() {
	w.sets = nil
	w.do("reset", tr.Ev{"h": 1}, func() any { return 0 })
}

func (w *world) new(b []byte) {
	w.do("new", tr.Ev{"h": 1, "b": tr.Ints(b)}, func() any {
		w.sets = append(w.sets, bitset.New(append([]byte{}, b...)...))
		return 0
	})
}

func (w *world) hex(s string) {
	w.do("hex", tr.Ev{"h": 1, "b": tr.Bytes(s)}, func() any {
		x, err := bitset.NewFromHex(s)
		if err != nil {
			return 1
		}
		w.sets = append(w.sets, x)
		return 0
	})
}

func setOp(x *bitset.BitSet, off int, v bool) any {
	old, err := x.Set(off, v)
	return []int{tr.B(old), tr.B(err != nil)}
}

func (w *world) set(h, off, v int) bool {
	return w.do("set", tr.Ev{"h": h + 1, "off": clamp(off), "v": v}, func() any { return setOp(w.sets[h], off, v == 1) })
}

func (w *world) get(h, off int) {
	w.do("get", tr.Ev{"h": h + 1, "off": clamp(off)}, func() any { return tr.B(w.sets[h].Get(off)) })
}

func (w *world) count(h, a, z int) {
	w.do("count", tr.Ev{"h": h + 1, "a": clamp(a), "z": clamp(z)}, func() any { return w.sets[h].Count(a, z) })
}

// result notes a new set and returns its bytes.
func (w *world) result(x *bitset.BitSet) any {
	w.sets = append(w.sets, x)
	return tr.Ints(x.Bytes())
}

func (w *world) sub(h, a, z int) bool {
	return w.do("sub", tr.Ev{"h": h + 1, "a": clamp(a), "z": clamp(z)}, func() any { return w.result(w.sets[h].Sub(a, z)) })
}

func (w *world) rng(h, stop int) {
	w.do("range", tr.Ev{"h": h + 1, "stop": stop}, func() any {
		r := [][]int{}
		w.sets[h].Range(func(o int, t bool) bool {
			r = append(r, []int{o, tr.B(t)})
			return stop == 0 || len(r) < stop
		})
		return r
	})
}

// look reads the whole set in one of several ways.
func (w *world) look(h int, how string, sep string) {
	x := w.sets[h]
	switch how {
	case "bytes":
		var b []byte
		w.do(how, tr.Ev{"h": h + 1}, func() any { b = x.Bytes(); return tr.Ints(b) })
		for i := range b {
			b[i] ^= 0xa5 // a copy: it changes nothing
		}
		_ = append(b, 0xff)
	case "binary":
		w.do(how, tr.Ev{"h": h + 1, "sep": tr.Bytes(sep)}, func() any { return tr.Bytes(x.Binary(sep)) })
	case "string":
		w.do(how, tr.Ev{"h": h + 1}, func() any { return tr.Bytes(x.String()) })
	case "size":
		w.do(how, tr.Ev{"h": h + 1}, func() any { return x.Size() })
	}
}

func (w *world) clear(h int) {
	w.do("clear", tr.Ev{"h": h + 1}, func() any { w.sets[h].Clear(); return 0 })
}

func combine(op string, x *bitset.BitSet, ys []*bitset.BitSet) *bitset.BitSet {
	switch op {
	case "and":
		return x.And(ys...)
	case "or":
		return x.Or(ys...)
	case "xor":
		return x.Xor(ys...)
	case "andnot":
		return x.AndNot(ys...)
	}
	return x.Not()
}

func (w *world) alg(op string, h int, hs []int) bool {
	e := tr.Ev{"h": h + 1}
	var ys []*bitset.BitSet
	if op != "not" {
		n := make([]int, len(hs))
		for i, y := range hs {
			n[i] = y + 1
			ys = append(ys, w.sets[y])
		}
		e["hs"] = n
	}
	return w.do(op, e, func() any {
		r := combine(op, w.sets[h], ys)
		if op != "not" && len(hs) == 0 {
			if r != w.sets[h] {
				return []int{-1}
			}
			return []int{}
		}
		for _, x := range w.sets {
			if x == r {
				return []int{-2} // not a new set
			}
		}
		return w.result(r)
	})
}

func bytesOf(r interface{ Intn(int) int }, n int) []byte {
	b := make([]byte, n)
	k := r.Intn(4)
	for i := range b {
		switch k {
		case 0:
			b[i] = byte(r.Intn(256))
		case 1:
			b[i] = 0xff
		case 2:
			b[i] = byte(1 << r.Intn(8))
		default:
			b[i] = []byte{0, 0xff, 1, 0x80, 0xaa, 0x55, 0x0f}[r.Intn(7)]
		}
	}
	return b
}

func single() {
	r := tr.Rng
	w := &world{}
	n := 0
	trace := func(f func()) {
		if n == 0 {
			tr.Begin(tr.Ev{"x": 0})
		}
		n++
		w.reset()
		f()
		if tr.Len() > 250 {
			tr.End()
			n = 0
		}
	}
	i := 0
	// every range and offset of sets of up to 3 bytes
	for size := 0; size <= 3; size++ {
		pats := [][]byte{bytesOf(r, size), {0xff, 0xff, 0xff}, {0x96, 0xc3, 0x5a}}
		for pi, b := range pats {
			b = append([]byte{}, b[:min(size, len(b))]...)
			lim := 8*size + 2
			for a := -lim; a <= lim; a++ {
				i++
				if !tr.Mine(i) {
					continue
				}
				trace(func() {
					w.new(b)
					w.get(0, a)
					for z := -lim; z <= lim; z++ {
						if size == 3 && pi == 0 && z%2 == 0 {
							continue
						}
						w.count(0, a, z)
						if pi < 2 || size < 3 {
							w.sub(0, a, z)
						}
					}
				})
				trace(func() {
					w.new(b)
					v := r.Intn(2)
					w.set(0, a, v)
					w.get(0, a)
					w.look(0, "bytes", "")
					w.set(0, a, 1-v)
					w.look(0, "bytes", "")
					w.look(0, "size", "")
				})
			}
		}
	}
	// hex
	for _, s := range []string{"", "0", "00", "fF", "aBcDeF", "0g", "g0", "12 34", "0x12", "zz", "1", "123", "ffffffff", "7f80", " 1", "1 ", "é0", "0/", ":0", "@0", "G0", "`0", "0`"} {
		i++
		if tr.Mine(i) {
			trace(func() {
				w.hex(s)
				if len(w.sets) > 0 {
					for _, how := range []string{"bytes", "binary", "string", "size"} {
						w.look(0, how, "")
					}
				}
			})
		}
	}
	// random histories
	extremes := []int{math.MaxInt, math.MinInt, math.MaxInt - 1, math.MinInt + 1}
	for k := 0; k < tr.Scale(800, 20000)/tr.Shards; k++ {
		trace(func() {
			size := r.Intn(6)
			if r.Intn(8) == 0 {
				size = r.Intn(20)
			}
			w.new(bytesOf(r, size))
			off := func() int {
				s := w.sets[0].Size()
				if r.Intn(12) == 0 {
					return extremes[r.Intn(4)]
				}
				return r.Intn(2*s+8) - s - 4
			}
			for j := 4 + r.Intn(25); j > 0; j-- {
				switch r.Intn(12) {
				case 0, 1, 2, 3:
					o := off()
					if o > 200 {
						o = r.Intn(200)
					}
					w.set(0, o, r.Intn(2))
				case 4, 5:
					w.get(0, off())
				case 6:
					w.count(0, off(), off())
				case 7:
					a, z := off(), off()
					if w.sub(0, a, z) && r.Intn(2) == 0 {
						// the subset is a set of its own
						h := len(w.sets) - 1
						w.set(h, r.Intn(12), 1)
						w.look(0, "bytes", "")
						w.look(h, "bytes", "")
						if r.Intn(2) == 0 {
							w.set(0, 0, r.Intn(2))
							w.look(h, "string", "")
						}
					}
				case 8:
					w.rng(0, r.Intn(2)*(1+r.Intn(w.sets[0].Size()+2)))
				case 9:
					w.look(0, []string{"bytes", "bytes", "string", "size"}[r.Intn(4)], "")
				case 10:
					w.look(0, "binary", []string{"", " ", ", ", "0", "01", "--"}[r.Intn(6)])
				case 11:
					if r.Intn(6) == 0 {
						w.clear(0)
					}
				}
			}
			w.look(0, "bytes", "")
		})
	}
	// sets made from parts of one slice
	for k := 0; k < tr.Scale(300, 4000)/tr.Shards; k++ {
		trace(func() {
			w.buf = bytesOf(r, 1+r.Intn(12))
			w.was = append([]byte{}, w.buf...)
			w.parts = nil
			for at := 0; at < len(w.buf) && len(w.sets) < 3; {
				a := at + r.Intn(min(3, len(w.buf)-at))
				at = min(a+r.Intn(4), len(w.buf))
				w.part(a, at)
				at += r.Intn(2)
			}
			for j := 2 + r.Intn(8); j > 0; j-- {
				h := r.Intn(len(w.sets))
				switch s := w.sets[h].Size(); r.Intn(6) {
				case 0:
					w.set(h, r.Intn(s+1), r.Intn(2))
				case 1, 2:
					w.set(h, s+r.Intn(24), r.Intn(2))
				case 3:
					w.sub(h, r.Intn(s+1), s-1)
					w.set(len(w.sets)-1, r.Intn(40), 1)
				case 4:
					w.alg(algs[r.Intn(4)], h, []int{r.Intn(len(w.sets))})
					w.set(len(w.sets)-1, r.Intn(40), 1)
				case 5:
					w.clear(h)
				}
				w.look(r.Intn(len(w.sets)), "bytes", "")
				w.outer()
			}
			for h := range w.sets {
				w.look(h, "bytes", "")
			}
		})
	}
	// large sets
	for k, size := range tr.Sizes() {
		if !tr.Mine(k) {
			continue
		}
		if n > 0 {
			tr.End()
			n = 0
		}
		trace(func() {
			b := make([]byte, size)
			r.Read(b)
			w.new(b)
			for j := 0; j < 6; j++ {
				w.get(0, r.Intn(16*size)-8*size)
				w.count(0, r.Intn(8*size), -1-r.Intn(9))
			}
			w.get(0, 8*size-1)
			w.set(0, 8*size-1-r.Intn(9), r.Intn(2))
			w.count(0, 0, -1)
			w.sub(0, r.Intn(20), -1-r.Intn(9))
			w.sub(0, 8*r.Intn(3), -1)
			w.look(0, "string", "")
			if size < 600 {
				w.look(0, "binary", ",")
				w.rng(0, 0)
			}
			// it grows by one byte, and by many
			w.set(0, 8*size+r.Intn(8), 1)
			w.look(0, "bytes", "")
			w.set(0, 8*size+16+r.Intn(4*size), 1)
			w.look(0, "bytes", "")
			w.look(0, "size", "")
			h := len(w.sets)
			w.new([]byte{0x81})
			w.set(h, 8*size+r.Intn(8), 1)
			w.look(h, "bytes", "")
			w.count(h, -8*size-8, 8*size+8)
			w.clear(0)
			w.look(0, "bytes", "")
			w.hex(hex.EncodeToString(b))
			w.look(len(w.sets)-1, "bytes", "")
		})
	}
	if n > 0 {
		tr.End()
	}
}

var algs = []string{"and", "or", "xor", "andnot"}

func algebra() {
	r := tr.Rng
	i := 0
	// all pairs of sizes and selected bytes
	for s1 := 0; s1 <= 3; s1++ {
		for s2 := 0; s2 <= 3; s2++ {
			for s3 := -1; s3 <= 3; s3++ {
				i++
				if !tr.Mine(i) {
					continue
				}
				for rep := 0; rep < tr.Scale(4, 20); rep++ {
					w := &world{}
					tr.Begin(tr.Ev{"x": 0})
					w.new(bytesOf(r, s1))
					w.new(bytesOf(r, s2))
					hs := []int{1}
					if s3 >= 0 {
						w.new(bytesOf(r, s3))
						hs = []int{1, 2}
					}
					for _, op := range algs {
						w.alg(op, 0, hs)
						w.alg(op, 0, []int{0})
						w.alg(op, 1, append([]int{0, 1}, hs...))
						w.alg(op, 0, nil)
					}
					w.alg("not", 0, nil)
					for h := 0; h <= len(hs); h++ {
						w.look(h, "bytes", "")
					}
					tr.End()
				}
			}
		}
	}
	// random expressions: results are operands again, and everything is independent
	for k := 0; k < tr.Scale(600, 20000)/tr.Shards; k++ {
		w := &world{}
		tr.Begin(tr.Ev{"x": 0})
		for j := 2 + r.Intn(3); j > 0; j-- {
			w.new(bytesOf(r, r.Intn(5)))
		}
		for j := 3 + r.Intn(12); j > 0; j-- {
			n := len(w.sets)
			h := r.Intn(n)
			switch r.Intn(7) {
			case 0:
				w.alg("not", h, nil)
			case 1:
				w.set(h, r.Intn(40)-8, r.Intn(2))
			case 2:
				w.look(r.Intn(n), "bytes", "")
			default:
				var hs []int
				for m := r.Intn(4); m > 0; m-- {
					hs = append(hs, r.Intn(n))
				}
				if !w.alg(algs[r.Intn(4)], h, hs) {
					j = 0
				}
			}
		}
		for h := range w.sets {
			w.look(h, "bytes", "")
		}
		tr.End()
	}
	// large sets
	for k, size := range tr.Sizes() {
		if !tr.Mine(k) {
			continue
		}
		w := &world{}
		tr.Begin(tr.Ev{"x": 0})
		for _, n := range []int{size, size / 2, size + 5} {
			b := make([]byte, n)
			r.Read(b)
			w.new(b)
		}
		for _, op := range algs {
			for _, hs := range [][]int{{0, 1}, {1, 0}, {0, 2}, {0, 2, 1}} {
				w.alg(op, hs[0], hs[1:])
			}
			w.sets = w.sets[:3]
			tr.End()
			tr.Begin(tr.Ev{"x": 0})
			for _, x := range w.sets {
				tr.Do("new", tr.Ev{"h": 1, "b": tr.Ints(x.Bytes())}, func() any { return 0 })
			}
		}
		w.alg("not", 2, nil)
		for h := range w.sets {
			w.look(h, "bytes", "")
		}
		tr.End()
	}
}
