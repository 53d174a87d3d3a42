package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"strings"

	"github.com/miniLCT/gosb/gogenerics/gconstraints"
	"github.com/miniLCT/gosb/gogenerics/gds/gskiplist"
	"verifh/codes"
	"verifh/rngctl"
	"verifh/tr"
)

// level is what the next draws of the level yield.
var level int

func forceLevels() {
	rngctl.Set(func() uint32 { return 1<<uint(level) | tr.Rng.Uint32()<<uint(level+1)<<1 },
		func() uint64 { return 1<<uint(level) | uint64(tr.Rng.Uint32())<<uint(level+1)<<1 })
}

type skipRun[K gconstraints.Ordered, V any] struct {
	to func(int) K
	c  codes.Of[V]
	l  *gskiplist.SkipList[K, V]
	v  int
	// entries got earlier, by key, until the key is deleted
	held map[int]*gskiplist.SkipListElement[K, V]
}

// hold gets the entry of a key that is there.
func (r *skipRun[K, V]) hold(k int) {
	if x, ok := r.l.FindGreaterOrEqual(r.to(k)); ok && x != nil {
		if v, has := r.l.Find(r.to(k)); has && r.c.Dec(v) == r.c.Dec(x.GetValue()) {
			if r.held == nil {
				r.held = map[int]*gskiplist.SkipListElement[K, V]{}
			}
			r.held[k] = x
		}
	}
}

// look looks at what is held and at its neighbours.
func (r *skipRun[K, V]) look() bool {
	ok := true
	for k := 0; ok && k < 130; k++ {
		if r.held[k] != nil {
			ok = r.do("held", k)
		}
	}
	return ok
}

func (r *skipRun[K, V]) do(op string, k int) bool {
	e := tr.Ev{"k": k}
	l := r.l
	pair := func(x *gskiplist.SkipListElement[K, V]) []int {
		if x == nil {
			return []int{0, 0}
		}
		return []int{r.c.Dec(x.GetValue()), 1}
	}
	var f func() any
	switch op {
	case "new":
		f = func() any { r.l = gskiplist.New[K, V](); return 0 }
	case "insert":
		r.v++
		v := r.v
		e["v"] = r.c.Norm(v)
		f = func() any { l.Insert(r.to(k), r.c.Enc(v)); return 0 }
	case "change":
		r.v++
		v := r.v
		e["v"] = r.c.Norm(v)
		f = func() any { return tr.B(l.ChangeValue(r.to(k), r.c.Enc(v))) }
	case "delete":
		delete(r.held, k)
		f = func() any { l.Delete(r.to(k)); return 0 }
	case "find":
		f = func() any {
			v, ok := l.Find(r.to(k))
			if !ok {
				return []int{0, 0}
			}
			return []int{r.c.Dec(v), 1}
		}
	case "held":
		x := r.held[k]
		f = func() any {
			return []int{r.c.Dec(x.GetValue()), r.c.Dec(l.Next(x).GetValue()), r.c.Dec(l.Prev(x).GetValue())}
		}
	case "count":
		f = func() any { return l.GetNodeCount() }
	case "empty":
		f = func() any { return tr.B(l.IsEmpty()) }
	case "small":
		f = func() any { return pair(l.GetSmallestNode()) }
	case "large":
		f = func() any { return pair(l.GetLargestNode()) }
	case "fge":
		f = func() any {
			x, ok := l.FindGreaterOrEqual(r.to(k))
			if !ok {
				x = nil
			} else if x == nil {
				return []int{-1, 1}
			}
			return pair(x)
		}
	case "walk":
		f = func() any {
			fwd, bwd := []int{}, []int{}
			if s := l.GetSmallestNode(); s != nil {
				for x, n := s, 0; n < 50000; n++ {
					fwd = append(fwd, r.c.Dec(x.GetValue()))
					if x = l.Next(x); x == s {
						break
					}
				}
			}
			if s := l.GetLargestNode(); s != nil {
				for x, n := s, 0; n < 50000; n++ {
					bwd = append(bwd, r.c.Dec(x.GetValue()))
					if x = l.Prev(x); x == s {
						break
					}
				}
			}
			return [][]int{fwd, bwd}
		}
	}
	p, _ := tr.Do(op, e, f)
	return p == 0
}

func (r *skipRun[K, V]) observe(nav bool, span int) bool {
	ok := true
	if nav {
		ok = r.do("walk", 0) && r.do("small", 0) && r.do("large", 0)
		for k := 0; ok && k <= span; k++ {
			ok = r.do("fge", k)
		}
		return ok
	}
	ok = r.do("count", 0) && r.do("empty", 0)
	for k := 0; ok && k < span; k++ {
		ok = r.do("find", k)
	}
	return ok
}

func skipRandom[K gconstraints.Ordered, V any](to func(int) K, c codes.Of[V], nav bool) {
	rng := tr.Rng
	tr.Begin(tr.Ev{"x": 0})
	r := &skipRun[K, V]{to: to, c: c}
	r.do("new", 0)
	span := []int{3, 6, 12, 30}[rng.Intn(4)]
	style := rng.Intn(5)
	n := 10 + rng.Intn(4*span)
	if rng.Intn(10) == 0 {
		span, n = 120, 150
	}
	order := rng.Perm(span)
	holding := rng.Intn(3) != 0 && span < 120
	for j := 0; j < n; j++ {
		switch style {
		case 0:
			level = 0
		case 1:
			level = rng.Intn(3)
		case 2:
			level = rng.Intn(26)
		case 3:
			level = 24
		default:
			for level = 0; level < 10 && rng.Intn(2) == 0; level++ {
			}
		}
		k := rng.Intn(span)
		op := []string{"insert", "insert", "insert", "delete", "delete", "change", "find", "fge"}[rng.Intn(8)]
		if span >= 30 && j < span && rng.Intn(3) != 0 {
			op, k = "insert", order[j]
		}
		if (op == "find" || op == "fge") == nav && op != "insert" && op != "delete" && op != "change" {
			op = map[bool]string{true: "fge", false: "find"}[nav]
		}
		ok := r.do(op, k)
		if nav && ok && holding {
			if rng.Intn(3) == 0 {
				r.hold(k)
			}
			if rng.Intn(4) == 0 {
				ok = r.look()
			}
		}
		if ok && rng.Intn(3) == 0 {
			if nav {
				ok = r.do([]string{"walk", "walk", "small", "large", "fge"}[rng.Intn(5)], rng.Intn(span+1))
			} else {
				ok = r.do([]string{"count", "find", "find", "empty"}[rng.Intn(4)], rng.Intn(span))
			}
		}
		if !ok {
			tr.End()
			return
		}
	}
	if r.observe(nav, span) { // and empty it
		for _, k := range rng.Perm(span) {
			if !r.do("delete", k) {
				break
			}
			if rng.Intn(4) == 0 && !r.do(map[bool]string{true: "walk", false: "count"}[nav], 0) {
				break
			}
		}
		r.observe(nav, 2)
		level = 1
		r.do("insert", 1)
		r.observe(nav, 2)
	}
	tr.End()
}

type named string

func intSkips(d int) *skipRun[int, int] {
	return &skipRun[int, int]{to: func(i int) int { return i + d }, c: codes.Int}
}

// scripted repeats the calls and draws that lead to each structure of SkipAlgo.tla,
// and goes on from there.
func scripted(nav bool) {
	var scripts [][][3]int
	raw, err := os.ReadFile(os.Getenv("VERIF_SCRIPT"))
	if err != nil {
		return
	}
	if err := json.Unmarshal(raw, &scripts); err != nil {
		panic(err)
	}
	const keys, levels = 5, 4
	b := &batch{cfg: tr.Ev{"x": 0}}
	for i, sc := range scripts {
		if !tr.Mine(i) {
			continue
		}
		per := tr.Scale(1, 6)
		for j := 0; j < per; j++ {
			b.next(150)
			r := intSkips(0)
			ok := r.do("new", 0)
			one := func(ins bool, k, lvl int) {
				level = lvl
				op := "delete"
				if ins {
					op = "insert"
				}
				ok = ok && r.do(op, k)
				if nav && ok {
					r.hold(k)
				}
			}
			for _, c := range sc {
				one(c[0] == 1, c[1], c[2])
			}
			if j == 0 {
				ok = ok && r.observe(nav, keys+1)
			}
			n := (i/tr.Shards*per + j) % (keys * (levels + 1))
			one(n%(levels+1) != 0, n/(levels+1)+1, n%(levels+1)-1)
			ok = ok && (!nav || r.look()) && r.observe(nav, keys+1)
			if !ok {
				b.end()
			}
		}
	}
	b.end()
}

func skiplists(nav bool) {
	forceLevels()
	rng := tr.Rng
	scripted(nav)
	// every sequence of n insertions and deletions with every draw of levels
	type step struct {
		op  string
		k   int
		lvl int
	}
	var alpha []step
	for k := 0; k < 3; k++ {
		for l := 0; l < 3; l++ {
			alpha = append(alpha, step{"insert", k, l})
		}
		alpha = append(alpha, step{"delete", k, 0})
	}
	b := &batch{cfg: tr.Ev{"x": 0}}
	n := tr.Scale(4, 5)
	idx := make([]int, n)
	for i := 0; ; i++ {
		if tr.Mine(i) {
			b.next(150)
			r := intSkips(-1)
			ok := r.do("new", 0)
			for _, x := range idx {
				level = alpha[x].lvl
				ok = ok && r.do(alpha[x].op, alpha[x].k)
				if nav && ok {
					for k := 0; k < 3; k++ {
						if r.held[k] == nil {
							r.hold(k)
						}
					}
				}
			}
			ok = ok && (!nav || r.look())
			if !ok || !r.observe(nav, 3) {
				b.end()
			}
		}
		j := n - 1
		for ; j >= 0; j-- {
			if idx[j]++; idx[j] < len(alpha) {
				break
			}
			idx[j] = 0
		}
		if j < 0 {
			break
		}
	}
	// every order of insertion of 4 keys with levels 0 to 2, and deletion of one or two
	i := 0
	perms(4, func(p []int) {
		for l := 0; l < 81; l++ {
			i++
			if !tr.Mine(i) || !tr.Thorough && rng.Intn(2) == 0 {
				continue
			}
			b.next(150)
			r := intSkips(0)
			ok := r.do("new", 0)
			for j, x := range p {
				level = []int{l % 3, l / 3 % 3, l / 9 % 3, l / 27 % 3}[j]
				ok = ok && r.do("insert", x)
			}
			ok = ok && r.do("delete", rng.Intn(4)) && r.observe(nav, 4)
			level = rng.Intn(3)
			if !ok || !r.do([]string{"delete", "insert"}[rng.Intn(2)], rng.Intn(4)) || !r.observe(nav, 4) {
				b.end()
			}
		}
	})
	b.end()
	for i := 0; i < tr.Scale(400, 8000)/tr.Shards; i++ {
		ints := func(i int) int { return i*3 - 10 }
		texts := func(i int) string { return fmt.Sprintf("%04d", i) }
		floats := func(i int) float64 {
			if i == 0 {
				return math.Inf(-1)
			}
			return float64(i)/2 - 3
		}
		switch i % 12 {
		case 0, 1, 2:
			skipRandom(ints, codes.Int, nav)
		case 3:
			skipRandom(texts, codes.Int, nav)
		case 4:
			skipRandom(floats, codes.Int, nav)
		case 5:
			skipRandom(ints, codes.Any, nav)
		case 6:
			skipRandom(texts, codes.Ptr, nav)
		case 7:
			skipRandom(floats, codes.Big, nav)
		case 8:
			skipRandom(func(i int) named { return named(texts(i)) }, codes.Text, nav)
		case 9: // across the sign
			skipRandom(func(i int) uint64 { return 1<<63 - 5 + uint64(i) }, codes.Err, nav)
		case 10:
			skipRandom(func(i int) int8 { return int8(i - 128) }, codes.Slice, nav)
		case 11: // the first is the empty text, and a text begins with the one before
			skipRandom(func(i int) string { return strings.Repeat("a", i) }, codes.Unit, nav)
		}
	}
	// many entries
	for i := 0; i < 3*len(tr.Sizes()); i++ {
		n := tr.Sizes()[i/3]
		if !tr.Mine(i) {
			continue
		}
		b.next(1)
		r := intSkips(-1)
		ok := r.do("new", 0)
		style := rng.Intn(3)
		order := rng.Perm(n)
		switch dir := i % 3; dir {
		case 0, 1: // ascending or descending
			for j := range order {
				order[j] = j + dir*(n-1-2*j)
			}
		}
		for _, x := range order {
			switch level = 0; style {
			case 0:
				for level < 20 && rng.Intn(2) == 0 {
					level++
				}
			case 1:
				level = rng.Intn(6)
			case 2:
				level = rng.Intn(25)
			}
			ok = ok && r.do("insert", x)
		}
		some := func(n int) bool {
			if nav {
				ok := r.do("walk", 0) && r.do("small", 0) && r.do("large", 0)
				for j := 0; ok && j < 6; j++ {
					ok = r.do("fge", rng.Intn(n+2))
				}
				return ok && r.do("fge", n) && r.do("fge", 0)
			}
			ok := r.do("count", 0) && r.do("empty", 0)
			for j := 0; ok && j < 40; j++ {
				ok = r.do("find", rng.Intn(n+1))
			}
			return ok
		}
		ok = ok && some(n)
		for j, x := range rng.Perm(n) {
			ok = ok && r.do([]string{"delete", "delete", "change"}[rng.Intn(3)], x)
			if j%(n/5) == n/10 {
				ok = ok && some(n)
			}
		}
		if !ok || !some(n) {
			b.end()
		}
	}
	b.end()
}
