// Driver for fastrand: C36.
package main

import (
	"fmt"
	"math"

	"github.com/miniLCT/gosb/hack/fastrand"
	"verifh/rngctl"
	"verifh/tr"
)

func main() { tr.Main(random) }

func big(neg bool, x uint64) []int {
	return []int{tr.B(neg), int(x >> 48), int(x >> 32 & 0xffff), int(x >> 16 & 0xffff), int(x & 0xffff)}
}

func sbig(x int64) []int {
	if x < 0 {
		return big(true, -uint64(x))
	}
	return big(false, uint64(x))
}

func ubig(x uint64) []int { return big(false, x) }

// the draws: those of the list first, then random ones
var draws []uint64
var at int

func draw() uint64 {
	at++
	if at <= len(draws) {
		return draws[at-1]
	}
	if at > len(draws)+10000 {
		panic("the draws do not lead to a result")
	}
	return tr.Rng.Uint64()
}

func list(l []uint64) { draws, at = l, 0 }

func floor53(f float64) (int, []int) {
	if math.IsNaN(f) || f < 0 {
		return 0, big(true, 1)
	}
	if f >= 1024 {
		return 1, big(false, math.MaxUint64)
	}
	return 1, ubig(uint64(f * (1 << 53)))
}

func random() {
	control := rngctl.Set(func() uint32 { return uint32(draw()) }, draw)
	r := tr.Rng
	interesting := func() uint64 {
		switch r.Intn(5) {
		case 0:
			return r.Uint64()
		case 1:
			return uint64(1)<<r.Intn(64) + uint64(r.Intn(5)) - 2
		case 2:
			return -uint64(r.Intn(4))
		case 3:
			return uint64(r.Intn(20))
		}
		return (uint64(1)<<r.Intn(64))*uint64(1+r.Intn(7)) - uint64(r.Intn(3)) // close to multiples
	}
	num := func() uint64 {
		switch r.Intn(6) {
		case 0:
			return uint64(r.Intn(10))
		case 1:
			return -uint64(r.Intn(3))
		}
		return interesting()
	}
	tr.Begin(tr.Ev{"x": 0})
	flush := func() {
		if tr.Len() > 200 {
			tr.End()
			tr.Begin(tr.Ev{"x": 0})
		}
	}
	ranged := func(op string, n uint64, ds []uint64) {
		list(ds)
		switch op {
		case "Intn":
			tr.Do(op, tr.Ev{"n": sbig(int64(n))}, func() any { return sbig(int64(fastrand.Intn(int(n)))) })
		case "Int31n":
			tr.Do(op, tr.Ev{"n": sbig(int64(int32(n)))}, func() any { return sbig(int64(fastrand.Int31n(int32(n)))) })
		case "Int63n":
			tr.Do(op, tr.Ev{"n": sbig(int64(n))}, func() any { return sbig(fastrand.Int63n(int64(n))) })
		case "Uintn":
			tr.Do(op, tr.Ev{"n": ubig(n)}, func() any { return ubig(uint64(fastrand.Uintn(uint(n)))) })
		case "Uint32n":
			tr.Do(op, tr.Ev{"n": ubig(uint64(uint32(n)))}, func() any { return ubig(uint64(fastrand.Uint32n(uint32(n)))) })
		case "Uint64n":
			tr.Do(op, tr.Ev{"n": ubig(n)}, func() any { return ubig(fastrand.Uint64n(n)) })
		case "Int31":
			tr.Do(op, nil, func() any { return sbig(int64(fastrand.Int31())) })
		case "Int63":
			tr.Do(op, nil, func() any { return sbig(fastrand.Int63()) })
		case "Int":
			tr.Do(op, nil, func() any { return sbig(int64(fastrand.Int())) })
		case "Float32":
			e := tr.Ev{"ok": 1}
			doInto(op, e, func() (any, int) { ok, x := floor53(float64(fastrand.Float32())); return x, ok })
		case "Float64":
			e := tr.Ev{"ok": 1}
			doInto(op, e, func() (any, int) { ok, x := floor53(fastrand.Float64()); return x, ok })
		}
		flush()
	}
	names := []string{"Intn", "Int31n", "Int63n", "Uintn", "Uint32n", "Uint64n", "Int31", "Int63", "Int", "Float32", "Float64"}
	// the edges of bounds and draws, all pairs
	edges := []uint64{0, 1, 2, 3, 5, 6, 7, 10, 1<<31 - 2, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 2, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<53 - 1, 1 << 53, 1<<62 - 1, 1 << 62, 1<<62 + 1, 1<<63 - 2, 1<<63 - 1, 1 << 63, 1<<63 + 1, 1<<64 - 2, 1<<64 - 1}
	i := 0
	for _, op := range names {
		for _, n := range edges {
			for _, d := range edges {
				if i++; tr.Mine(i) {
					ranged(op, n, []uint64{d})
				}
			}
		}
	}
	for k := 0; k < tr.Scale(40000, 1500000)/tr.Shards; k++ {
		n := num()
		ds := []uint64{}
		for c := r.Intn(4); c > 0; c-- {
			d := interesting()
			if r.Intn(3) == 0 && n != 0 { // at the limits where the result changes
				d = uint64(math.MaxUint64)/n*uint64(r.Intn(8)) + uint64(r.Intn(3)) - 1
				if r.Intn(2) == 0 {
					d = uint64(math.MaxUint32)/n*uint64(r.Intn(8)) + uint64(r.Intn(3)) - 1
				}
			}
			ds = append(ds, d)
		}
		ranged(names[r.Intn(len(names))], n, ds)
	}
	// permutations
	seq := func(max int) []uint64 {
		ds := []uint64{}
		for c := r.Intn(max + 1); c > 0; c-- {
			ds = append(ds, interesting())
		}
		return ds
	}
	large := append([]int{}, tr.Sizes()...)
	for k := 0; k < tr.Scale(3000, 60000)/tr.Shards; k++ {
		n := r.Intn(12) - 1
		if r.Intn(20) == 0 {
			n = r.Intn(60)
		}
		if len(large) > 0 {
			n, large = large[0], large[1:]
		}
		list(seq(n + 1))
		tr.Do("Perm", tr.Ev{"n": n}, func() any { return tr.Ints(fastrand.Perm(n)) })
		list(seq(n + 1))
		swaps := [][]int{}
		e := tr.Ev{"n": n}
		tr.Busy(true, tr.Ev{"op": "Shuffle", "n": n, "swaps": swaps})
		p, _ := tr.Try(func() any { fastrand.Shuffle(n, func(i, j int) { swaps = append(swaps, []int{i, j}) }); return 0 })
		tr.Busy(false, nil)
		e["op"], e["p"], e["res"], e["swaps"] = "Shuffle", p, 0, swaps
		tr.Add(e)
		flush()
	}
	tr.End()
	tr.Begin(tr.Ev{"x": 0})
	if control && tr.Shard >= 4 {
		even(4, tr.Shard%2 == 0)
		even(3, tr.Shard%2 == 1)
		even(2, tr.Shard%2 == 0)
	}
	if control {
		counts()
	}
	tr.End()
	// reading
	tr.Begin(tr.Ev{"x": 0})
	for n := 0; n < tr.Scale(70, 600); n++ {
		if tr.Mine(n) {
			for off := 0; off < 3; off++ {
				read(n, off)
			}
		}
	}
	tr.End()
	// the generator as it is
	rngctl.Reset()
	tr.Begin(tr.Ev{"x": 0})
	for k := 0; k < tr.Scale(200, 3000); k++ {
		ranged(names[r.Intn(len(names))], num(), nil)
		n := r.Intn(9)
		tr.Do("Perm", tr.Ev{"n": n}, func() any { return tr.Ints(fastrand.Perm(n)) })
	}
	tr.End()
	tr.Begin(tr.Ev{"x": 0})
	for i, n := range append([]int{2, 3, 4, 5, 8, 17}, tr.Sizes()...) {
		if tr.Mine(i) {
			mixed(n)
		}
	}
	tr.End()
	tr.Begin(tr.Ev{"x": 0})
	for n := 0; n < 40; n++ {
		read(n, n%3)
	}
	for k := 0; k < tr.Scale(16, 200); k++ {
		read(1<<(6+(k+tr.Shard)%9)+r.Intn(33)-16, r.Intn(9))
		read(r.Intn(6000), r.Intn(9))
	}
	tr.End()
}

func doInto(op string, e tr.Ev, f func() (any, int)) {
	tr.Busy(true, e)
	ok := 0
	p, res := tr.Try(func() any { x, o := f(); ok = o; return x })
	tr.Busy(false, nil)
	e["op"], e["p"], e["res"], e["ok"] = op, p, res, ok
	if p != 0 {
		e["res"] = big(true, 1)
	}
	tr.Add(e)
}

// even runs Perm (or Shuffle) of n with all combinations of draws from a set that has the same number of
// draws for each pair of a part (of the range of draws) and a remainder.
func even(n int, perm bool) {
	k := []int{1, 1, 2, 6, 12}[n]
	var set []uint64
	for part := 0; part < k; part++ {
		for rem := 0; rem < k; rem++ {
			v := (uint64(part)*2 + 1) * (1 << 31) / uint64(k)
			v = v/uint64(k)*uint64(k) + uint64(rem)
			// in both halves of 64 bits
			w := (uint64(part)*2 + 1) << 62 / uint64(k)
			hi := w >> 32 << 32
			// the lower half is v; the remainder of the whole has to be rem, too
			for hi>>32*(1<<32%uint64(k))%uint64(k) != 0 {
				hi += 1 << 32
			}
			set = append(set, hi|v)
		}
	}
	op, num, most := "PermEven", map[string]int{}, 0
	perms := map[string][]int{}
	if !perm {
		op = "ShuffleEven"
	}
	idx := make([]int, n+1)
	e := tr.Ev{"n": n, "perms": [][]int{}, "counts": []int{}}
	tr.Busy(true, tr.Ev{"op": op, "n": n, "perms": [][]int{}, "counts": []int{}})
	p, _ := tr.Try(func() any {
		for {
			ds := make([]uint64, len(idx))
			for i, x := range idx {
				ds[i] = set[x]
			}
			list(ds)
			var s []int
			if perm {
				s = fastrand.Perm(n)
			} else {
				s = make([]int, n)
				for i := range s {
					s[i] = i
				}
				fastrand.Shuffle(n, func(i, j int) { s[i], s[j] = s[j], s[i] })
			}
			most = max(most, at)
			key := fmt.Sprint(s)
			num[key]++
			perms[key] = s
			// the next combination of those draws that are used
			i := min(at, len(idx)) - 1
			for ; i >= 0; i-- {
				if idx[i]++; idx[i] < len(set) {
					break
				}
				idx[i] = 0
			}
			if i < 0 {
				return 0
			}
		}
	})
	tr.Busy(false, nil)
	if p == 0 && most == 0 {
		return // its draws come from elsewhere
	}
	ps, cs := [][]int{}, []int{}
	for k, s := range perms {
		ps = append(ps, s)
		cs = append(cs, num[k])
	}
	e["op"], e["p"], e["res"], e["perms"], e["counts"] = op, p, 0, ps, cs
	tr.Add(e)
}

// mixed looks at the positions of 150 outcomes: each has numbers of both halves in some of them (but with
// a probability of 3000 * (2/3)^150 at most).
func mixed(n int) {
	for _, op := range []string{"Perm", "Shuffle"} {
		tr.Do("Mixed", tr.Ev{"n": n, "f": op}, func() any {
			low, high := make([]bool, n), make([]bool, n)
			for k := 0; k < 150; k++ {
				var s []int
				if op == "Perm" {
					s = fastrand.Perm(n)
				} else {
					s = make([]int, n)
					for i := range s {
						s[i] = i
					}
					fastrand.Shuffle(n, func(i, j int) { s[i], s[j] = s[j], s[i] })
				}
				for i, x := range s {
					if x < n/2 {
						low[i] = true
					} else {
						high[i] = true
					}
				}
			}
			r := [][]int{{}, {}}
			for i := range low {
				if !low[i] {
					r[0] = append(r[0], i)
				}
				if !high[i] {
					r[1] = append(r[1], i)
				}
			}
			return r
		})
	}
}

// counts tries all draws of 32 bits.
func counts() {
	for _, n := range []int{3, 6, 7, 5, 1000, 9, 12, 641}[tr.Shard%8:][:1] {
		if !tr.Thorough && tr.Shard >= 3 {
			return
		}
		cs := make([]int, n)
		other := 0
		again := false
		var cur uint32
		first, other64, skip := true, false, false
		rngctl.Set(func() uint32 {
			if first {
				first = false
				return cur
			}
			again = true
			return tr.Rng.Uint32()
		}, func() uint64 { other64 = true; return draw() })
		tr.Busy(true, tr.Ev{"op": "Counts", "n": n, "counts": []int{}, "other": 1})
		var p int
		for hi := uint64(0); hi < 1<<32 && p == 0 && !skip; hi += 1 << 24 {
			tr.Busy(true, tr.Ev{"op": "Counts", "n": n, "counts": []int{}, "other": 1})
			p, _ = tr.Try(func() any {
				for x := hi; x < hi+1<<24; x++ {
					cur, first, again = uint32(x), true, false
					j := int(fastrand.Int31n(int32(n)))
					if first || other64 { // its draws are others
						skip = true
						return 0
					}
					if again {
						continue
					}
					if j < 0 || j >= n {
						other++
					} else {
						cs[j]++
					}
				}
				return 0
			})
		}
		tr.Busy(false, nil)
		rngctl.Set(func() uint32 { return uint32(draw()) }, draw)
		if skip {
			return
		}
		tr.Add(tr.Ev{"op": "Counts", "n": n, "counts": cs, "other": other + p, "p": p, "res": 0})
	}
}

func read(n, off int) {
	changed := make([]bool, n)
	outside := 0
	e := tr.Ev{"op": "Read", "len": n, "missed": []int{}, "outside": 0, "err": 0}
	tr.Busy(true, e)
	e = tr.Ev{"len": n}
	errs := 0
	p, res := tr.Try(func() any {
		ret := n
		for k := 0; k < 24; k++ {
			list(nil)
			b := make([]byte, n+off+40)
			for i := range b {
				b[i] = byte(i*7 + k)
			}
			m, err := fastrand.Read(b[16+off : 16+off+n : 16+off+n+8*(k%2)])
			if m != n {
				ret = m
			}
			errs += tr.B(err != nil)
			for i := range b {
				if b[i] != byte(i*7+k) {
					if i < 16+off || i >= 16+off+n {
						outside++
					} else {
						changed[i-16-off] = true
					}
				}
			}
		}
		return ret
	})
	tr.Busy(false, nil)
	missed := []int{}
	for i := 0; i < n; i++ {
		if !changed[i] {
			missed = append(missed, i)
		}
	}
	e["op"], e["p"], e["res"], e["err"], e["outside"], e["missed"] = "Read", p, res, errs, outside, missed
	tr.Add(e)
}
