package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"

	rbt "github.com/miniLCT/gosb/gogenerics/gds/grbt"
	"verifh/codes"
	"verifh/tr"
)

// ktype converts the keys of the specification to keys of a type.
type ktype[K comparable] struct {
	to   func(int) K
	from func(K) int
	lt   func(a, b K) bool
}

type wrap struct {
	s string
	n int
}

var kInt = ktype[int]{func(i int) int { return i }, func(i int) int { return i }, func(a, b int) bool { return a < b }}
var kStr = ktype[string]{func(i int) string { return fmt.Sprintf("k%04d", i) }, func(s string) int {
	n := 0
	fmt.Sscanf(s, "k%d", &n)
	return n
}, func(a, b string) bool { return a < b }}
var kWrap = ktype[wrap]{func(i int) wrap { return wrap{"x", i} }, func(w wrap) int { return w.n }, func(a, b wrap) bool { return a.n < b.n }}

// kText: 0 is the empty text, and a text begins with the one before.
var kText = ktype[string]{func(i int) string { return strings.Repeat("ab", max(i, 0)) }, func(s string) int { return len(s) / 2 }, func(a, b string) bool { return a < b }}

// kAny: 0 is nil; the others of several types.
var kAny = ktype[any]{codes.Any.Enc, codes.Any.Dec, func(a, b any) bool { return codes.Any.Dec(a) < codes.Any.Dec(b) }}

var kArr = ktype[[3]int8]{func(i int) [3]int8 { return [3]int8{2: int8(i)} }, func(a [3]int8) int { return int(a[2]) }, func(a, b [3]int8) bool { return a[2] < b[2] }}

// kPtr: pointers, 0 is nil.
func kPtr() ktype[*int] {
	m := map[int]*int{0: nil}
	n := func(p *int) int {
		if p == nil {
			return 0
		}
		return *p
	}
	return ktype[*int]{func(i int) *int {
		if _, ok := m[i]; !ok {
			m[i] = &i
		}
		return m[i]
	}, n, func(a, b *int) bool { return n(a) < n(b) }}
}

type tree[K comparable, V any] struct {
	t    *rbt.RbTree[K, V]
	keys map[int]bool // for choosing arguments only
}

type rbRun[K comparable, V any] struct {
	k     ktype[K]
	val   codes.Of[V]
	c     int
	ts    []*tree[K, V]
	log   func(a, b K) // called by the comparison
	v     int
	limit int
	calls int
}

func newRb[K comparable, V any](k ktype[K], val codes.Of[V], c int) *rbRun[K, V] {
	r := &rbRun[K, V]{k: k, val: val, c: c}
	r.ts = []*tree[K, V]{{rbt.New[K, V](r.less), map[int]bool{}}}
	return r
}

func (r *rbRun[K, V]) less(a, b K) bool {
	if r.log != nil {
		r.log(a, b)
	}
	if r.c == 1 {
		return r.k.lt(b, a)
	}
	return r.k.lt(a, b)
}

// path returns the other keys that are compared with key when looking for it.
func (r *rbRun[K, V]) path(t *rbt.RbTree[K, V], key int) []int {
	p := []int{}
	seen := map[int]bool{}
	r.log = func(a, b K) {
		x, y := r.k.from(a), r.k.from(b)
		if x == key {
			x = y
		}
		if x != key && !seen[x] {
			seen[x] = true
			p = append(p, x)
		}
	}
	t.Search(r.k.to(key))
	r.log = nil
	return p
}

// shape describes a tree that has the keys from 0 to max-1 at most.
func (r *rbRun[K, V]) shape(t *rbt.RbTree[K, V], max int) tr.Ev {
	keys, col, paths, miss := []int{}, []int{}, [][]int{}, []int{}
	have := map[int]bool{}
	for _, k := range t.Keys() {
		x := r.k.from(k)
		keys = append(keys, x)
		have[x] = true
		paths = append(paths, r.path(t, x))
	}
	s := t.String() // {(key, value, B) (key, value, R)}
	for i := 0; i+3 < len(s); i++ {
		switch s[i : i+4] {
		case ", B)":
			col = append(col, 1)
		case ", R)":
			col = append(col, 0)
		}
	}
	for x := -1; x <= max; x++ {
		if !have[x] && r.k.from(r.k.to(x)) == x {
			miss = append(miss, len(r.path(t, x)))
		}
	}
	return tr.Ev{"keys": keys, "col": col, "path": paths, "miss": miss}
}

func (r *rbRun[K, V]) decs(vs []V) []int {
	x := []int{}
	for _, v := range vs {
		x = append(x, r.val.Dec(v))
	}
	return x
}

func (r *rbRun[K, V]) do(op string, i, k int, args tr.Ev) (int, any) {
	t := r.ts[i]
	e := tr.Ev{"t": i + 1, "k": k}
	for a, b := range args {
		e[a] = b
	}
	key := r.k.to(k)
	switch op {
	case "insert":
		r.v++
		v := r.v
		e["v"] = r.val.Norm(v)
		t.keys[k] = true
		return tr.Do(op, e, func() any { return r.val.Dec(t.t.Insert(key, r.val.Enc(v))) })
	case "update":
		r.v++
		v := r.v
		e["v"] = r.val.Norm(v)
		return tr.Do(op, e, func() any { x, ok := t.t.Update(key, r.val.Enc(v)); return []int{r.val.Dec(x), tr.B(ok)} })
	case "delete":
		delete(t.keys, k)
		return tr.Do(op, e, func() any { return r.val.Dec(t.t.Delete(key)) })
	case "clear":
		t.keys = map[int]bool{}
		return tr.Do(op, e, func() any { t.t.Clear(); return 0 })
	case "get":
		return tr.Do(op, e, func() any { return r.val.Dec(t.t.Get(key)) })
	case "search":
		return tr.Do(op, e, func() any { return tr.B(t.t.Search(key)) })
	case "len":
		return tr.Do(op, e, func() any { return t.t.Len() })
	case "empty":
		return tr.Do(op, e, func() any { return tr.B(t.t.Empty()) })
	case "keys":
		return tr.Do(op, e, func() any {
			x := []int{}
			for _, k := range t.t.Keys() {
				x = append(x, r.k.from(k))
			}
			return x
		})
	case "values":
		return tr.Do(op, e, func() any { return r.decs(t.t.Values()) })
	case "nodes":
		return tr.Do(op, e, func() any {
			x := [][]int{}
			for _, p := range t.t.Nodes() {
				k, v := p.Unpack()
				x = append(x, []int{r.k.from(k), r.val.Dec(v)})
			}
			return x
		})
	case "getif":
		f := tr.Rng.Intn(4)
		e["f"] = f
		return tr.Do(op, e, func() any {
			return r.decs(t.t.GetIf(func(k K) bool {
				x := r.k.from(k)
				switch f {
				case 0:
					return x%2 == 0
				case 1:
					return x > 3
				}
				return f == 2
			}))
		})
	case "sub", "left", "right":
		var n *rbt.RbTree[K, V]
		p, res := tr.Do(op, e, func() any {
			switch op {
			case "sub":
				n = t.t.SubTree(r.k.to(e["from"].(int)), e["fi"] == 1, r.k.to(e["to"].(int)), e["ti"] == 1)
			case "left":
				n = t.t.LeftSubTree(key, e["fi"] == 1)
			default:
				n = t.t.RightSubTree(key, e["fi"] == 1)
			}
			return 0
		})
		if p == 0 {
			r.ts = append(r.ts, &tree[K, V]{n, map[int]bool{}})
		}
		return p, res
	}
	return 0, 0
}

func (r *rbRun[K, V]) shapeEvent(i, max int) {
	e := tr.Ev{"op": "shape", "t": i + 1, "k": 0, "res": 0}
	tr.Busy(true, e)
	var s tr.Ev
	p, _ := tr.Try(func() any { s = r.shape(r.ts[i].t, max); return 0 })
	tr.Busy(false, nil)
	e["p"] = p
	for a, b := range s {
		e[a] = b
	}
	tr.Add(e)
}

func (r *rbRun[K, V]) all(i int) bool {
	for _, op := range []string{"keys", "nodes", "values", "len", "empty", "getif"} {
		if p, _ := r.do(op, i, 0, nil); p != 0 {
			return false
		}
	}
	return true
}

func rbRandom[K comparable, V any](kt ktype[K], val codes.Of[V], n, span int) {
	rng := tr.Rng
	r := newRb(kt, val, rng.Intn(2))
	tr.Begin(tr.Ev{"c": r.c})
	ops := []string{"insert", "insert", "insert", "delete", "delete", "update", "get", "search", "len", "empty", "keys", "values", "nodes", "getif"}
	grow := true
	for j := 0; j < n; j++ {
		op := ops[rng.Intn(len(ops))]
		if rng.Intn(n) == 0 {
			op = "clear"
		}
		if rng.Intn(20) == 0 {
			grow = !grow
		}
		if op == "insert" && !grow && rng.Intn(2) == 0 {
			op = "delete"
		}
		k := rng.Intn(span)
		if op == "delete" && rng.Intn(4) != 0 { // a key that is there
			for x := 0; x < span; x++ {
				if r.ts[0].keys[(k+x)%span] {
					k = (k + x) % span
					break
				}
			}
		}
		if p, _ := r.do(op, 0, k, nil); p != 0 {
			break
		}
	}
	r.all(0)
	tr.End()
}

// trees are the calls (1 insert, 0 delete; key) that lead to each tree of RbAlgo.tla, those of this shard.
func treeScripts() (r [][][2]int) {
	raw, err := os.ReadFile(os.Getenv("VERIF_SCRIPT"))
	if err != nil {
		return nil
	}
	var all [][][2]int
	if err := json.Unmarshal(raw, &all); err != nil {
		panic(err)
	}
	for i, x := range all {
		if tr.Mine(i) {
			r = append(r, x)
		}
	}
	return r
}

// treeKeys are the keys of RbAlgo.tla.
const treeKeys = 8

// repeat makes the tree of a script.
func repeat(r *rbRun[int, int], sc [][2]int) bool {
	for _, c := range sc {
		if p, _ := r.do([]string{"delete", "insert"}[c[0]], 0, c[1], nil); p != 0 {
			return false
		}
	}
	return true
}

// scriptedMaps: every tree, and calls on it.
func scriptedMaps() {
	rng := tr.Rng
	for i, sc := range treeScripts() {
		for j := 0; j < tr.Scale(1, 8); j++ {
			r := newRb(kInt, codes.Int, 0)
			tr.Begin(tr.Ev{"c": 0})
			ok := repeat(r, sc)
			k := 1 + rng.Intn(treeKeys)
			for n := 0; ok && n < 2; n++ {
				p, _ := r.do([]string{"delete", "delete", "insert", "update"}[rng.Intn(4)], 0, k, nil)
				ok = p == 0
				k = 1 + (k+i)%treeKeys
			}
			for k := 0; ok && k <= treeKeys+1; k++ {
				p, _ := r.do([]string{"get", "search"}[(k+i+j)%2], 0, k, nil)
				ok = p == 0
			}
			if ok {
				r.all(0)
			}
			tr.End()
		}
	}
}

func rbmap() {
	rng := tr.Rng
	scriptedMaps()
	// every order of insertion of n keys, deletion in some order, observed every time
	i := 0
	N := tr.Scale(5, 6)
	for n := 1; n <= N; n++ {
		perms(n, func(p []int) {
			i++
			if !tr.Mine(i) {
				return
			}
			r := newRb(kInt, codes.Int, i/7%2)
			tr.Begin(tr.Ev{"c": r.c})
			for _, x := range p {
				if q, _ := r.do("insert", 0, x, nil); q != 0 {
					tr.End()
					return
				}
			}
			r.all(0)
			for j, x := range rng.Perm(n) {
				if q, _ := r.do("delete", 0, x, nil); q != 0 {
					break
				}
				r.do("keys", 0, 0, nil)
				if j%2 == 0 {
					r.do("nodes", 0, 0, nil)
					r.do("len", 0, 0, nil)
				}
				r.do("get", 0, rng.Intn(n), nil)
			}
			r.do("empty", 0, 0, nil)
			tr.End()
		})
	}
	for i := 0; i < tr.Scale(300, 4000)/tr.Shards; i++ {
		span := []int{4, 8, 16, 24, 40}[rng.Intn(5)]
		n := 20 + rng.Intn(3*span)
		switch i % 10 {
		case 0, 1:
			rbRandom(kInt, codes.Int, n, span)
		case 2:
			rbRandom(kStr, codes.Int, n, span)
		case 3:
			rbRandom(kWrap, codes.Int, n, span)
		case 4:
			rbRandom(kInt, codes.Any, n, span)
		case 5:
			rbRandom(kAny, codes.Ptr, n, span)
		case 6:
			rbRandom(kPtr(), codes.Text, n, span)
		case 7:
			rbRandom(kText, codes.Slice, n, span)
		case 8:
			rbRandom(kArr, codes.Err, n, span)
		case 9:
			rbRandom(kStr, codes.Unit, n, span)
		}
	}
	for i, n := range tr.Sizes() {
		if tr.Mine(i) {
			rbLarge(kInt, n)
		}
	}
}

// rbLarge: many keys, with few observations.
func rbLarge[K comparable](kt ktype[K], n int) {
	rng := tr.Rng
	r := newRb(kt, codes.Int, rng.Intn(2))
	tr.Begin(tr.Ev{"c": r.c})
	defer tr.End()
	order := rng.Perm(n)
	switch rng.Intn(3) {
	case 0:
		for j := range order {
			order[j] = j
		}
	case 1:
		for j := range order {
			order[j] = n - 1 - j
		}
	}
	some := func() bool {
		for j := 0; j < 20; j++ {
			if p, _ := r.do([]string{"get", "search", "insert", "update"}[rng.Intn(4)], 0, rng.Intn(n+1), nil); p != 0 {
				return false
			}
		}
		return r.all(0)
	}
	for _, x := range order {
		if p, _ := r.do("insert", 0, x, nil); p != 0 {
			return
		}
	}
	if !some() {
		return
	}
	for j, x := range rng.Perm(n) {
		if p, _ := r.do([]string{"delete", "delete", "insert"}[rng.Intn(3)], 0, x, nil); p != 0 {
			return
		}
		if j%(n/3) == n/5 && !some() {
			return
		}
	}
	some()
}

// shapes: every shape that appears, once.
func shapes() {
	rng := tr.Rng
	seen := map[string]bool{}
	b := &batch{cfg: tr.Ev{"x": 0}}
	note := func(r *rbRun[int, int], max int) bool {
		e := tr.Ev{"op": "shape", "res": 0}
		tr.Busy(true, e)
		var s tr.Ev
		p, _ := tr.Try(func() any { s = r.shape(r.ts[0].t, max); return 0 })
		tr.Busy(false, nil)
		tr.Extra["shapes_observed"]++
		k := fmt.Sprint(p, s)
		if seen[k] {
			return p == 0
		}
		seen[k] = true
		tr.Extra["shapes_distinct"]++
		e["p"] = p
		if p != 0 {
			s = tr.Ev{"keys": []int{}, "col": []int{}, "path": [][]int{}, "miss": []int{}}
		}
		for x, y := range s {
			e[x] = y
		}
		b.next(60)
		tr.Add(e)
		return p == 0
	}
	ins := func(r *rbRun[int, int], k int) bool {
		p, _ := tr.Try(func() any { r.ts[0].t.Insert(k, 1); return 0 })
		return p == 0
	}
	del := func(r *rbRun[int, int], k int) bool {
		tr.Busy(true, tr.Ev{"op": "shape", "keys": []int{}, "col": []int{}, "path": [][]int{}, "miss": []int{}})
		p, _ := tr.Try(func() any { r.ts[0].t.Delete(k); return 0 })
		tr.Busy(false, nil)
		return p == 0
	}
	fail := func(msg string) {
		b.next(60)
		tr.Add(tr.Ev{"op": "shape", "p": 1, "res": 0, "keys": []int{}, "col": []int{}, "path": [][]int{}, "miss": []int{}})
	}
	// from every tree of RbAlgo.tla, every call
	for _, sc := range treeScripts() {
		for k := 1; k <= treeKeys; k++ {
			for op := 0; op < 2; op++ {
				r := newRb(kInt, codes.Int, 0)
				for j, c := range append(sc[:len(sc):len(sc)], [2]int{op, k}) {
					f := ins
					if c[0] == 0 {
						f = del
					}
					if !f(r, c[1]) || j >= len(sc)-1 && !note(r, treeKeys+1) {
						fail("call")
						break
					}
				}
			}
		}
	}
	i := 0
	// every order of insertion with every order of deletion
	for n := 1; n <= tr.Scale(5, 6); n++ {
		perms(n, func(p []int) {
			i++
			if !tr.Mine(i) {
				return
			}
			p = append([]int{}, p...)
			perms(n, func(q []int) {
				r := newRb(kInt, codes.Int, 0)
				for _, x := range p {
					if !ins(r, x) || !note(r, n) {
						fail("insert")
						return
					}
				}
				for _, x := range q {
					if !del(r, x) || !note(r, n) {
						fail("delete")
						return
					}
				}
			})
		})
	}
	// larger trees, ascending, descending, random, with deletions and insertions mixed
	for i := 0; i < tr.Scale(240, 4000)/tr.Shards; i++ {
		r := newRb(kInt, codes.Int, 0)
		n := []int{7, 8, 10, 12, 16, 24, 40, 64}[rng.Intn(8)]
		order := rng.Perm(n)
		switch rng.Intn(4) {
		case 0:
			for j := range order {
				order[j] = j
			}
		case 1:
			for j := range order {
				order[j] = n - 1 - j
			}
		}
		bad := false
		for j, x := range order {
			if !ins(r, x) || (j%4 == 3 || j == n-1) && !note(r, n) {
				bad = true
				break
			}
		}
		del1 := rng.Perm(n)
		switch rng.Intn(5) {
		case 0:
			for j := range del1 {
				del1[j] = j
			}
		case 1:
			for j := range del1 {
				del1[j] = n - 1 - j
			}
		}
		for _, x := range del1 {
			if bad {
				break
			}
			if rng.Intn(4) == 0 && !ins(r, rng.Intn(n)) || !del(r, x) {
				bad = true
			}
			if n <= 16 || rng.Intn(n/8) == 0 {
				bad = bad || !note(r, n)
			}
		}
		if bad {
			fail("random")
		}
	}
	b.end()
	// big ones: only the number of comparisons
	for i := 0; i < tr.Scale(16, 64)/tr.Shards; i++ {
		tr.Begin(tr.Ev{"x": 0})
		r := newRb(kInt, codes.Int, 0)
		n := 500 + rng.Intn(3000)
		p, _ := tr.Try(func() any {
			asc := rng.Intn(2) == 0
			for _, x := range rng.Perm(n) {
				if asc {
					x = r.ts[0].t.Len()
				}
				r.ts[0].t.Insert(x, 1)
			}
			for j := rng.Intn(n); j > 0; j-- {
				r.ts[0].t.Delete(rng.Intn(n))
			}
			return 0
		})
		max := 0
		tr.Try(func() any {
			for x := 0; x < n; x++ {
				if l := len(r.path(r.ts[0].t, x)); l > max {
					max = l
				}
			}
			return 0
		})
		tr.Add(tr.Ev{"op": "big", "p": p, "n": r.ts[0].t.Len(), "miss": []int{max}})
		tr.End()
	}
}

func rbViews[K comparable, V any](kt ktype[K], val codes.Of[V]) {
	rng := tr.Rng
	one := func(n, span int, f func(r *rbRun[K, V])) {
		r := newRb(kt, val, rng.Intn(2))
		tr.Begin(tr.Ev{"c": r.c})
		for j := 0; j < n; j++ {
			r.do("insert", 0, 1+2*rng.Intn(span), nil) // odd keys, so that others are between
		}
		for j := rng.Intn(n/2 + 1); j > 0; j-- {
			r.do("delete", 0, 1+2*rng.Intn(span), nil)
		}
		f(r)
		tr.End()
	}
	view := func(r *rbRun[K, V], i, max int) bool {
		op := []string{"sub", "sub", "left", "right"}[rng.Intn(4)]
		fi := rng.Intn(2)
		ti := rng.Intn(2)
		a, b := rng.Intn(max), rng.Intn(max)
		if r.c == 0 && a > b || r.c == 1 && a < b {
			if rng.Intn(6) != 0 {
				a, b = b, a
			}
		}
		if a == b {
			ti = fi
		}
		p, _ := r.do(op, i, a, tr.Ev{"from": a, "fi": fi, "to": b, "ti": ti})
		return p == 0
	}
	after := func(r *rbRun[K, V], max int) {
		// the view is right and valid, the original as before; both are independent
		n := len(r.ts) - 1
		r.all(n)
		r.shapeEvent(n, max)
		r.do("nodes", 0, 0, nil)
		for j := 0; j < 4; j++ {
			r.do([]string{"insert", "delete", "update"}[rng.Intn(3)], rng.Intn(n+1), rng.Intn(max), nil)
		}
		for i := range r.ts {
			r.do("nodes", i, 0, nil)
		}
		r.shapeEvent(n, max)
	}
	span := []int{3, 6, 10, 20}[rng.Intn(4)]
	one(rng.Intn(2*span), span, func(r *rbRun[K, V]) {
		for j := 0; j < 3; j++ {
			if view(r, rng.Intn(len(r.ts)), 2*span+2) {
				after(r, 2*span+2)
			}
		}
	})
}

func views() {
	rng := tr.Rng
	// small trees: every bound and flag
	i := 0
	for n := 0; n <= 4; n++ {
		max := 2*n + 2
		for a := 0; a < max; a++ {
			for b := 0; b < max; b++ {
				for f := 0; f < 4; f++ {
					i++
					if !tr.Mine(i) || a == b && f%3 != 0 {
						continue
					}
					r := newRb(kInt, codes.Int, i/8%2)
					tr.Begin(tr.Ev{"c": r.c})
					for _, x := range rng.Perm(n) {
						r.do("insert", 0, 2*x+1, nil)
					}
					p, _ := r.do("sub", 0, 0, tr.Ev{"from": a, "fi": f & 1, "to": b, "ti": f >> 1})
					if p == 0 && b == a {
						r.do("left", 0, a, tr.Ev{"fi": f & 1})
						r.do("nodes", 1, 0, nil)
						r.do("right", 0, a, tr.Ev{"fi": f & 1})
						r.do("nodes", 2, 0, nil)
					}
					if p == 0 {
						r.do("nodes", 1, 0, nil)
						r.do("len", 1, 0, nil)
					}
					r.do("nodes", 0, 0, nil)
					tr.End()
				}
			}
		}
	}
	// views of every tree of RbAlgo.tla
	for _, sc := range treeScripts() {
		for j := 0; j < tr.Scale(1, 8); j++ {
			r := newRb(kInt, codes.Int, 0)
			tr.Begin(tr.Ev{"c": 0})
			ok := repeat(r, sc)
			for n := 1; ok && n <= 2; n++ {
				a, b := rng.Intn(treeKeys+2), rng.Intn(treeKeys+2)
				if a > b {
					a, b = b, a
				}
				fi, ti := rng.Intn(2), rng.Intn(2)
				if a == b {
					ti = fi
				}
				p, _ := r.do([]string{"sub", "sub", "left", "right"}[rng.Intn(4)], 0, a, tr.Ev{"from": a, "fi": fi, "to": b, "ti": ti})
				if ok = p == 0; ok {
					r.do("nodes", n, 0, nil)
					r.do("len", n, 0, nil)
					r.shapeEvent(n, treeKeys+1)
				}
			}
			if ok {
				r.do("nodes", 0, 0, nil)
			}
			tr.End()
		}
	}
	for i := 0; i < tr.Scale(300, 4000)/tr.Shards; i++ {
		switch i % 6 {
		case 0:
			rbViews(kInt, codes.Int)
		case 1:
			rbViews(kStr, codes.Any)
		case 2:
			rbViews(kAny, codes.Int)
		case 3:
			rbViews(kPtr(), codes.Big)
		case 4:
			rbViews(kText, codes.Ptr)
		case 5:
			rbViews(kWrap, codes.Text)
		}
	}
}
