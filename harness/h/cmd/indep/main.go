// Driver for C48: package functions, methods of distinct objects, and looking
// at one object from several goroutines do not interfere.
package main

import (
	"context"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"time"

	gsync "github.com/miniLCT/gosb/gogenerics/gconcurrent/sync"
	"github.com/miniLCT/gosb/gogenerics/gconstraints"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gheap"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/glist"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gmap"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gpool"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gqueue"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gring"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gset"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gslice"
	grbt "github.com/miniLCT/gosb/gogenerics/gds/grbt"
	"github.com/miniLCT/gosb/gogenerics/gds/gskiplist"
	"github.com/miniLCT/gosb/gogenerics/gnumerics"
	"github.com/miniLCT/gosb/hack/fastrand"
	"github.com/miniLCT/gosb/hack/unsafex"
	"github.com/miniLCT/gosb/library/bitset"
	"github.com/miniLCT/gosb/library/cachex"
	"github.com/miniLCT/gosb/library/cryptox"
	"github.com/miniLCT/gosb/library/password"
	"github.com/miniLCT/gosb/library/stringx"
	"verifh/sc"
	"verifh/tr"
)

func less(a, b int) bool { return a < b }

func text(r *rand.Rand) string {
	const a = "aZ_ .9\n\t\"<&#é語&#x41;&#65;\\u8bed\u2028HttpID_json"
	rs := []rune(a)
	var b strings.Builder
	for n := r.Intn(14); n > 0; n-- {
		b.WriteRune(rs[r.Intn(len(rs))])
	}
	if r.Intn(3) == 0 {
		b.WriteString("\\u8bed&#35821;")
	}
	return b.String()
}

func ints(r *rand.Rand, n int) []int {
	s := make([]int, n)
	for i := range s {
		s[i] = r.Intn(12)
	}
	return s
}

func sorted(s []int) []int { sort.Ints(s); return s }

func in(x, n int) bool { return 0 <= x && x < n }

// calls are computations on objects of their own. The result depends on r only.
var calls = map[string]func(r *rand.Rand) any{
	"indent": func(r *rand.Rand) any { return stringx.Indent(text(r), text(r)) },
	"snake":  func(r *rand.Rand) any { return stringx.SnakeString(text(r)) },
	"camel":  func(r *rand.Rand) any { return stringx.CamelString(text(r)) },
	"lint":   func(r *rand.Rand) any { return stringx.LintCamelString(text(r)) },
	"entity": func(r *rand.Rand) any { return stringx.HTMLEntityToUTF8(text(r), 10+6*r.Intn(2)) },
	"point":  func(r *rand.Rand) any { return stringx.CodePointToUTF8(text(r), 16) },
	"space":  func(r *rand.Rand) any { return stringx.SpaceInOne(text(r)) },
	"json":   func(r *rand.Rand) any { return string(stringx.StringMarshalJSON(text(r), r.Intn(2) == 0)) },
	"unsafe": func(r *rand.Rand) any {
		return unsafex.SliceToString(append([]byte{}, unsafex.StringToSlice(text(r))...))
	},
	"pw": func(r *rand.Rand) any {
		return password.CheckPassword(text(r), password.Flag(r.Intn(64)), r.Intn(4), 4+r.Intn(9))
	},
	"md5": func(r *rand.Rand) any { return cryptox.Md5([]byte(text(r))) },
	"sha": func(r *rand.Rand) any {
		b := []byte(text(r))
		return cryptox.Sha1(b) + cryptox.Sha256(b) + cryptox.Sha512(b)
	},
	"fnv": func(r *rand.Rand) any {
		b := []byte(text(r))
		return fmt.Sprint(cryptox.Fnv1aToUint32(b), cryptox.Fnv1aToUint64(b))
	},
	"ecb":   func(r *rand.Rand) any { return crypt(r, cryptox.AESEncrypt, cryptox.AESDecrypt, true) },
	"cbc":   func(r *rand.Rand) any { return crypt(r, cryptox.AESCBCEncrypt, cryptox.AESCBCDecrypt, false) },
	"ctr":   func(r *rand.Rand) any { return crypt(r, cryptox.AESCTREncrypt, cryptox.AESCTRDecrypt, false) },
	"draws": draws,
	"max": func(r *rand.Rand) any {
		s := ints(r, 1+r.Intn(6))
		return []int{gnumerics.Max(s[0], 5), gnumerics.MaxCollection(s), gnumerics.MinCollection(s), gnumerics.MaxBy(s, less), gnumerics.MinBy(s, less)}
	},
	"slices": slices,
	"sets":   sets,
	"heap":   heap,
	"list":   list,
	"ring":   ring,
	"queue":  queue,
	"tree":   tree,
	"skip":   skip,
	"bits":   bits,
	"pool":   pool,
	"lru":    func(r *rand.Rand) any { return cacheOps(r, cachex.NewLRUCacheV2[string, int](1+r.Intn(3), r.Intn(3))) },
	"chain":  chain,
	"smap":   syncMap,
	"consts": func(r *rand.Rand) any {
		p := gconstraints.ToPtr(r.Intn(5))
		return []any{gconstraints.ToValue(p), gconstraints.Empty[string](), gconstraints.IsEmpty(*p)}
	},
	"convert": func(r *rand.Rand) any {
		m := map[int]int{1: r.Intn(5), 2: 3}
		return gmap.Entries2Map(gmap.Map2Entries(m))
	},
}

func crypt(r *rand.Rand, enc func(k, p []byte, b ...bool) []byte, dec func(k, c []byte, b ...bool) ([]byte, error), det bool) any {
	k := make([]byte, 16+8*r.Intn(3))
	for i := range k {
		k[i] = byte(r.Intn(256))
	}
	b64 := r.Intn(2) == 0
	p := []byte(text(r))
	c := enc(k, p, b64)
	d, err := dec(k, append([]byte{}, c...), b64)
	res := []any{string(d), err, len(c)}
	if det {
		res = append(res, fmt.Sprintf("%x", c))
	}
	_, err = dec(k, []byte(text(r)+"!"), b64)
	return append(res, err != nil)
}

func draws(r *rand.Rand) any {
	ok := true
	n := 1 + r.Intn(9)
	ok = ok && in(fastrand.Intn(n), n) && in(int(fastrand.Int63n(int64(n))), n) && in(int(fastrand.Int31n(int32(n))), n) && in(int(fastrand.Uint32n(uint32(n))), n)
	ok = ok && in(int(fastrand.Uint64n(uint64(n))), n) && fastrand.Float64() < 1 && fastrand.Float32() < 1 && fastrand.Int() >= 0
	b := make([]byte, 5+r.Intn(20))
	m, err := fastrand.Read(b)
	p := sorted(fastrand.Perm(n))
	return []any{ok, m == len(b), err, p, sorted(gslice.Shuffle(ints(r, 5)))}
}

func slices(r *rand.Rand) any {
	a, b := ints(r, r.Intn(6)), ints(r, r.Intn(6))
	u, n := gslice.Unique(gslice.Copy(a))
	return []any{gslice.Equal(a, b), gslice.Index(a, 3), gslice.Contains(b, 4), u, n, gslice.Reverse(gslice.Copy(a)), gslice.Merge(a, b), gslice.IsSorted(a)}
}

func sets(r *rand.Rand) any {
	s := gset.NewSet[int]()
	for _, x := range ints(r, 6) {
		gset.Add(s, x)
	}
	gset.Remove(s, 3)
	m := map[int]int{}
	for _, x := range ints(r, 4) {
		m[x] = x * x
	}
	c := gmap.Copy(m)
	return []any{sorted(gset.Items(s)), gset.Len(s), gset.Contains(s, 5), sorted(gmap.Keys(m)), sorted(gmap.Values(m)), gmap.Equal(m, c), gmap.Contains(m, 2)}
}

func heap(r *rand.Rand) any {
	h := gheap.NewWithData(ints(r, r.Intn(5)), less)
	var res []int
	for n := 6; n > 0; n-- {
		gheap.Push(h, r.Intn(20))
	}
	for n := 6; n > 0; n-- {
		res = append(res, gheap.Pop(h))
	}
	return res
}

func list(r *rand.Rand) any {
	l := glist.New[int]()
	var es []*glist.Element[int]
	for n := 0; n < 6; n++ {
		switch {
		case len(es) == 0 || r.Intn(3) == 0:
			es = append(es, l.PushBack(n))
		case r.Intn(2) == 0:
			es = append(es, l.PushFront(n))
		case r.Intn(2) == 0:
			l.MoveToFront(es[r.Intn(len(es))])
		default:
			es = append(es, l.InsertAfter(n, es[r.Intn(len(es))]))
		}
	}
	l.Remove(es[0])
	return elems(l)
}

func elems(l *glist.List[int]) any {
	var res []int
	l.Range(func(e *glist.Element[int]) { res = append(res, e.Value) })
	for e := l.Back(); e != nil; e = e.Prev() {
		res = append(res, e.Value)
	}
	return append(res, l.Len())
}

func newRing(n int) *gring.Ring[int] {
	g := gring.New[int](n)
	for i := 0; i < n; i++ {
		g.Value = i
		g = g.Next()
	}
	return g
}

func ringElems(g *gring.Ring[int]) any {
	res := []any{g.Len(), g.Move(2).Value, g.Prev().Value}
	g.Do(func(v any) { res = append(res, v) })
	return res
}

func ring(r *rand.Rand) any {
	g := newRing(3 + r.Intn(3))
	g.Unlink(1)
	g.Link(newRing(2))
	return ringElems(g)
}

func queue(r *rand.Rand) any {
	q := gqueue.Gen(ints(r, 4))
	q.Push(r.Intn(5))
	x, err := q.Pop()
	res := []any{x, err, q.Len(), fmt.Sprint(gqueue.PeekAll(q))}
	for y := range gqueue.Iterator(q) {
		res = append(res, y)
	}
	return res
}

func newTree(r *rand.Rand) *grbt.RbTree[int, int] {
	t := grbt.New[int, int](less)
	for i, x := range ints(r, 9) {
		t.Insert(x, i)
	}
	return t
}

func treeElems(t *grbt.RbTree[int, int]) any {
	return []any{t.Keys(), t.Values(), t.Nodes(), t.Len(), t.Search(3), t.Get(4), t.Empty(), t.SubTree(2, true, 7, false).Keys(), t.LeftSubTree(5, true).Keys(), t.RightSubTree(5, true).Keys(), t.GetIf(func(k int) bool { return k%2 == 0 })}
}

func tree(r *rand.Rand) any {
	t := newTree(r)
	for _, x := range ints(r, 5) {
		t.Delete(x)
		t.Update(x+1, 77)
	}
	return treeElems(t)
}

func newSkip(r *rand.Rand) *gskiplist.SkipList[int, int] {
	t := gskiplist.New[int, int]()
	for i, x := range r.Perm(12)[:7] {
		t.Insert(x, i)
	}
	return t
}

func skipElems(t *gskiplist.SkipList[int, int]) any {
	res := []any{t.GetNodeCount(), t.IsEmpty()}
	for k := 0; k < 12; k++ {
		v, ok := t.Find(k)
		e, ok2 := t.FindGreaterOrEqual(k)
		res = append(res, v, ok, ok2)
		if ok2 {
			res = append(res, e.GetValue(), t.Next(e).GetValue(), t.Prev(e).GetValue())
		}
	}
	return append(res, t.GetSmallestNode().GetValue(), t.GetLargestNode().GetValue())
}

func skip(r *rand.Rand) any {
	t := newSkip(r)
	first := t.GetSmallestNode().GetValue()
	for _, x := range ints(r, 4) {
		t.Delete(x)
		t.ChangeValue(x+1, 50)
	}
	t.Insert(20, 1)
	return append([]any{first}, skipElems(t))
}

func bits(r *rand.Rand) any {
	a, b := bitset.New(byte(r.Intn(256)), 5), bitset.New(byte(r.Intn(256)))
	a.Set(r.Intn(30), true)
	return []any{a.And(b).String(), a.Or(b).String(), a.Xor(b).Count(0, -1), a.Not().Sub(1, 9).String(), a.Get(3), b.Binary(".")}
}

func pool(r *rand.Rand) any {
	p := gpool.New(func() *int { return new(int) })
	x := p.Get()
	*x = 4
	p.Put(x)
	a := gpool.NewArrayPool[int](4)
	s := a.Get()
	ok := len(s) == 0 && cap(s) == 4
	a.Put(append(s, 1))
	return ok
}

func cacheOps(r *rand.Rand, c cachex.Cache[string, int]) any {
	ctx := context.Background()
	var res []any
	for n := 2 + r.Intn(6); n > 0; n-- {
		k := string(rune('a' + r.Intn(4)))
		switch r.Intn(5) {
		case 0:
			v, ok, err := c.Get(ctx, k)
			res = append(res, v, ok, err)
		case 1:
			vs, oks, err := c.MGet(ctx, k, "b", "c")
			res = append(res, vs, oks, err)
		case 2:
			res = append(res, c.Delete(ctx, k, "d"))
		case 3:
			res = append(res, c.MSet(ctx, map[string]int{k: r.Intn(9)}, time.Hour))
		default:
			res = append(res, c.Set(ctx, k, r.Intn(9), time.Hour))
		}
	}
	return res
}

func chain(r *rand.Rand) any {
	var items []*cachex.ChainItem[string, int]
	for n := 1 + r.Intn(3); n > 0; n-- {
		var c cachex.Cache[string, int] = cachex.NewLRUCacheV2[string, int](1+r.Intn(4), 0)
		if r.Intn(4) == 0 {
			c = &cachex.NoCache[string, int]{}
		}
		items = append(items, &cachex.ChainItem[string, int]{Cache: c, TTL: time.Hour})
	}
	return cacheOps(r, &cachex.Chain[string, int]{Caches: items})
}

func syncMap(r *rand.Rand) any {
	var m gsync.Map[int, int]
	var res []any
	for n := 2 + r.Intn(8); n > 0; n-- {
		k := r.Intn(3)
		switch r.Intn(6) {
		case 0:
			v, ok := m.Load(k)
			res = append(res, v, ok)
		case 1:
			v, ok := m.LoadOrStore(k, r.Intn(9))
			res = append(res, v, ok)
		case 2:
			v, ok := m.LoadAndDelete(k)
			res = append(res, v, ok)
		case 3:
			s := 0
			m.Range(func(k, v int) bool { s += 10*k + v; return true })
			res = append(res, s)
		default:
			m.Store(k, r.Intn(9))
		}
	}
	return res
}

// looks are ways to look at an object that another goroutine may also be looking at.
var looks = map[string]func(r *rand.Rand) func() any{
	"list": func(r *rand.Rand) func() any {
		l := glist.New[int]()
		l.PushBack(1)
		l.PushFront(2)
		l.PushBack(3)
		return func() any { return elems(l) }
	},
	"ring": func(r *rand.Rand) func() any { g := newRing(4); return func() any { return ringElems(g) } },
	"tree": func(r *rand.Rand) func() any { t := newTree(r); return func() any { return treeElems(t) } },
	"skip": func(r *rand.Rand) func() any { t := newSkip(r); return func() any { return skipElems(t) } },
	"queue": func(r *rand.Rand) func() any {
		q := gqueue.Gen(ints(r, 4))
		return func() any {
			x, err := gqueue.Peek(q)
			return []any{x, err, q.Len(), gqueue.PeekAll(q), gqueue.IsEmpty(q)}
		}
	},
	"set": func(r *rand.Rand) func() any {
		s := gset.NewSet[int]()
		gset.Add(s, 1)
		gset.Add(s, 4)
		return func() any { return []any{gset.Len(s), gset.Contains(s, 1), sorted(gset.Items(s))} }
	},
	"map": func(r *rand.Rand) func() any {
		m := map[int]int{1: 2, 3: 4}
		return func() any {
			return []any{sorted(gmap.Keys(m)), sorted(gmap.Values(m)), gmap.Copy(m), gmap.Len(m), gmap.Contains(m, 3), gmap.Equal(m, m), len(gmap.Map2Entries(m))}
		}
	},
	"slice": func(r *rand.Rand) func() any {
		s := ints(r, 6)
		return func() any {
			return []any{gslice.Copy(s), gslice.Equal(s, s), gslice.Index(s, 3), gslice.Contains(s, 3), gslice.Len(s), gslice.Merge(s, s), gslice.IsSorted(s), gnumerics.MaxCollection(s), gnumerics.MinBy(s, less)}
		}
	},
	"bytes": func(r *rand.Rand) func() any {
		b, k := []byte(text(r)), []byte("0123456789abcdef")
		c, d := cryptox.AESCBCEncrypt(k, b), cryptox.AESEncrypt(k, b, true)
		return func() any {
			x, err := cryptox.AESCBCDecrypt(k, c)
			y, err2 := cryptox.AESDecrypt(k, d, true)
			return []any{cryptox.Md5(b), cryptox.Sha256(b), len(cryptox.AESCTREncrypt(k, b)), string(x), err, string(y), err2}
		}
	},
}

func show(x any) string {
	s := fmt.Sprint(x)
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}

func program(r *rand.Rand, names, lnames []string, pick sc.Picker) {
	type call struct {
		name string
		f    func() any
	}
	nt := 2 + r.Intn(2)
	h := &sc.H{}
	var tasks []func()
	focus := ""
	if r.Intn(2) == 0 {
		focus = names[r.Intn(len(names))] // the same function in all tasks
	}
	look := func() any { return 0 }
	lname := ""
	if r.Intn(3) == 0 {
		lname = lnames[r.Intn(len(lnames))]
		look = looks[lname](r)
	}
	// alone beforehand or afterwards: what a call leaves behind for later ones may need to be left in the run
	before := r.Intn(2) == 0
	var later []func()
	for t := 1; t <= nt; t++ {
		var cs []call
		for n := 1 + r.Intn(2); n > 0; n-- {
			name := focus
			if focus == "" {
				name = names[r.Intn(len(names))]
			}
			seed := r.Int63()
			f := calls[name]
			cs = append(cs, call{name, func() any { return f(rand.New(rand.NewSource(seed))) }})
		}
		if lname != "" {
			cs = []call{{"look " + lname, look}}
		}
		evs := make([]tr.Ev, len(cs))
		alone := func() {
			for i, c := range cs {
				p, x := tr.Try(c.f)
				evs[i]["alone"] = show([]any{p, x})
			}
		}
		for i, c := range cs {
			evs[i] = tr.Ev{"op": c.name, "t": t}
		}
		if before {
			alone()
		} else {
			later = append(later, alone)
		}
		tasks = append(tasks, func() {
			for i, c := range cs {
				p, x := sc.TryKill(c.f)
				evs[i]["now"] = show([]any{p, x})
				h.Add(evs[i])
			}
		})
	}
	tr.Begin(tr.Ev{"x": 0})
	res := sc.Run(tasks, pick, sc.Opt{Rng: r, MaxSteps: 200000})
	for _, f := range later {
		f()
	}
	for _, e := range h.Events() {
		tr.Add(e)
	}
	tr.Add(tr.Ev{"op": "end", "stuck": tr.B(res.Stuck)})
	tr.End()
}

func main() {
	sc.Main(func() {
		var names, lnames []string
		for k := range calls {
			names = append(names, k)
		}
		for k := range looks {
			lnames = append(lnames, k)
		}
		sort.Strings(names)
		sort.Strings(lnames)
		n := tr.Scale(4000, 60000)
		if tr.Race {
			n *= 6
		}
		for k := 0; k < n/tr.Shards; k++ {
			program(tr.Rng, names, lnames, sc.Any(tr.Rng, 3, 300))
		}
	})
}
