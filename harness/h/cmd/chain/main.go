// Driver for Chain and the MGet result: C13 (Get), C14 (MGet, views), C15 (writes).
package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"time"

	"github.com/miniLCT/gosb/library/cachex"
	"verifh/tr"
)

// inner is a map; what it returns for an absent key is garbage that nobody must take for a value.
type inner struct{ m map[int]int }

func (c *inner) Get(_ context.Context, k int) (int, bool, error) {
	if v, ok := c.m[k]; ok {
		return v, true, nil
	}
	return -7, false, nil
}
func (c *inner) Set(_ context.Context, k, v int, _ time.Duration) error { c.m[k] = v; return nil }
func (c *inner) MGet(_ context.Context, ks ...int) ([]int, []bool, error) {
	vs, oks := make([]int, len(ks)), make([]bool, len(ks))
	for i, k := range ks {
		vs[i], oks[i] = c.m[k], false
		if _, ok := c.m[k]; ok {
			oks[i] = true
		} else {
			vs[i] = -7
		}
	}
	return vs, oks, nil
}
func (c *inner) MSet(_ context.Context, m map[int]int, _ time.Duration) error {
	for k, v := range m {
		c.m[k] = v
	}
	return nil
}
func (c *inner) Delete(_ context.Context, ks ...int) error {
	for _, k := range ks {
		delete(c.m, k)
	}
	return nil
}

type call struct {
	l          int
	k          string
	keys, vals []int
	ttl        int
}

// level records the calls that a level gets, and fails when told to.
type level struct {
	i   int
	w   *world
	in  cachex.Cache[int, int]
	rf  int // 1: reads fail; 2: they report an error besides what they find
	wf  bool
	err error
}

type world struct {
	levels []*level
	chain  *cachex.Chain[int, int]
	log    []call
	ctx    context.Context // of the call
	ttl    []int
	errs   []error
}

// note records a call; one with another context than the caller's is recorded as another kind of call.
func (l *level) note(c context.Context, k string, keys, vals []int, ttl time.Duration) {
	w := l.w
	if !tr.SameCtx(c, w.ctx) {
		k = "c"
	}
	t := int(ttl / time.Minute)
	if ttl%time.Minute != 0 { // all times are whole minutes
		t = -7
	}
	if n := len(w.log); n > 0 && w.log[n-1].l == l.i && w.log[n-1].k == k && w.log[n-1].ttl == t {
		last := &w.log[n-1]
		last.keys = append(last.keys, keys...)
		last.vals = append(last.vals, vals...)
		return
	}
	w.log = append(w.log, call{l.i, k, append([]int{}, keys...), append([]int{}, vals...), t})
}

func (l *level) Get(c context.Context, k int) (int, bool, error) {
	l.note(c, "r", []int{k}, nil, 0)
	if l.rf == 1 {
		return -9, false, l.err
	}
	v, ok, err := l.in.Get(c, k)
	if l.rf == 2 {
		err = l.err
	}
	return v, ok, err
}

func (l *level) MGet(c context.Context, ks ...int) ([]int, []bool, error) {
	l.note(c, "r", ks, nil, 0)
	if l.rf == 1 {
		return nil, nil, l.err
	}
	vs, oks, err := l.in.MGet(c, ks...)
	if l.rf == 2 {
		err = l.err
	}
	return vs, oks, err
}

func (l *level) Set(c context.Context, k, v int, ttl time.Duration) error {
	l.note(c, "w", []int{k}, []int{v}, ttl)
	if l.wf {
		return l.err
	}
	return l.in.Set(c, k, v, ttl)
}

func (l *level) MSet(c context.Context, m map[int]int, ttl time.Duration) error {
	var ks, vs []int
	for k := range m {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	for _, k := range ks {
		vs = append(vs, m[k])
	}
	l.note(c, "w", ks, vs, ttl)
	if l.wf {
		return l.err
	}
	return l.in.MSet(c, m, ttl)
}

func (l *level) Delete(c context.Context, ks ...int) error {
	l.note(c, "d", ks, nil, 0)
	if l.wf {
		return l.err
	}
	return l.in.Delete(c, ks...)
}

func (w *world) takeLog() []tr.Ev {
	r := []tr.Ev{}
	for _, c := range w.log {
		r = append(r, tr.Ev{"l": c.l, "k": c.k, "keys": tr.Ints(c.keys), "vals": tr.Ints(c.vals), "ttl": c.ttl})
	}
	w.log = nil
	return r
}

// which says the errors of which levels are in err; 0 for an error of nobody.
func (w *world) which(err error) []int {
	r := []int{}
	if err == nil {
		return r
	}
	for i, e := range w.errs {
		if errors.Is(err, e) {
			r = append(r, i+1)
		}
	}
	if len(r) == 0 {
		r = append(r, 0)
	}
	return r
}

type levelErr struct{ l int }

func (e levelErr) Error() string { return fmt.Sprint("level ", e.l) }

var dirs int

func newWorld(r *rand.Rand, n int, cont, mocks bool) *world {
	w := &world{}
	var kinds []int
	first := r.Intn(16) - len(known)
	c := &cachex.Chain[int, int]{ContinueOnReadErr: cont}
	for i := 1; i <= n; i++ {
		var in cachex.Cache[int, int] = &inner{map[int]int{}}
		kind := 0
		if !mocks {
			switch r.Intn(5) {
			case 0:
				in = cachex.NewLRUCacheV2[int, int](100, 0)
			case 1:
				in, kind = &cachex.NoCache[int, int]{}, 1
			case 2:
				dirs++
				in = &cachex.FileStore[int, int]{Dir: filepath.Join(os.Getenv("VERIF_WORK"), fmt.Sprint("c", dirs))}
			}
		}
		kinds = append(kinds, kind)
		// the times are distinct, and so are the errors (even if of the same kind)
		ttl := 10*n + r.Intn(9) - i*9
		if ttl < 1 {
			ttl = 100 + i
		}
		var err error = levelErr{i}
		if i%3 == 2 {
			err = &levelErrP{i}
		}
		if i >= first && i-first < len(known) {
			err = known[i-first]
		}
		w.ttl = append(w.ttl, ttl)
		w.errs = append(w.errs, err)
		l := &level{i: i, w: w, in: in, err: err}
		if r.Intn(3) == 0 {
			l.err = fmt.Errorf("wrapped: %w", err)
		}
		w.levels = append(w.levels, l)
		c.Caches = append(c.Caches, &cachex.ChainItem[int, int]{Cache: l, TTL: time.Duration(ttl) * time.Minute})
	}
	w.chain = c
	if kinds == nil {
		kinds, w.ttl = []int{}, []int{}
	}
	tr.Begin(tr.Ev{"n": n, "kind": kinds, "ttl": w.ttl, "cont": tr.B(cont)})
	return w
}

var known = []error{context.DeadlineExceeded, context.Canceled, io.EOF, fs.ErrNotExist, many{"a", "b"}, os.ErrPermission}

// many cannot be compared with ==.
type many []string

func (e many) Error() string { return e[0] }

func (e many) Is(x error) bool {
	m, ok := x.(many)
	return ok && m[0] == e[0]
}

type levelErrP struct{ l int }

func (e *levelErrP) Error() string { return "level" }

func (w *world) fail(rf, wf int) (a, b []int) {
	a, b = []int{}, []int{}
	for i, l := range w.levels {
		if l.rf, l.wf = rf>>i&1, wf>>i&1 == 1; l.rf == 1 && tr.Rng.Intn(3) == 0 {
			l.rf = 2
		}
		a, b = append(a, l.rf), append(b, wf>>i&1)
	}
	return
}

func (w *world) do(op string, args tr.Ev, rf, wf int, f func() any) bool {
	a, b := w.fail(rf, wf)
	w.log = nil
	e := tr.Ev{"op": op, "rf": a, "wf": b}
	for k, v := range args {
		e[k] = v
	}
	tr.Busy(true, e)
	p, res := tr.Try(f)
	tr.Busy(false, nil)
	w.fail(0, 0)
	e["p"], e["res"], e["log"] = p, res, w.takeLog()
	tr.Add(e)
	return p == 0
}

// with is the context for a call.
func (w *world) with(of ...any) context.Context {
	w.ctx = tr.Ctx(of...)
	return w.ctx
}

// ttl is what a caller gives, which does not matter.
func ttl(i int) time.Duration {
	return []time.Duration{77 * time.Minute, 0, -time.Hour, 1, 1 << 62}[i%5]
}

func (w *world) get(k, rf, wf int) bool {
	return w.do("get", tr.Ev{"key": k}, rf, wf, func() any {
		v, ok, err := w.chain.Get(w.with("get", k), k)
		return tr.Ev{"r": [][]int{{v, tr.B(ok)}}, "err": w.which(err)}
	})
}

func pairs(vs []int, oks []bool) [][]int {
	r := [][]int{}
	for i, v := range vs {
		ok := -1
		if i < len(oks) {
			ok = tr.B(oks[i])
		}
		r = append(r, []int{v, ok})
	}
	return r
}

func (w *world) mget(ks []int, rf, wf int) bool {
	ks = tr.Ints(ks)
	return w.do("mget", tr.Ev{"keys": tr.Ints(ks)}, rf, wf, func() any {
		vs, oks, err := w.chain.MGet(w.with("mget", ks), ks...)
		return tr.Ev{"r": pairs(vs, oks), "err": w.which(err)}
	})
}

func (w *world) set(k, v, rf, wf int) bool {
	return w.do("set", tr.Ev{"key": k, "val": v}, rf, wf, func() any {
		return w.which(w.chain.Set(w.with("set", k, v), k, v, ttl(v)))
	})
}

func (w *world) mset(m map[int]int, rf, wf int) bool {
	kvs := [][]int{}
	for k, v := range m {
		kvs = append(kvs, []int{k, v})
	}
	sort.Slice(kvs, func(i, j int) bool { return kvs[i][0] < kvs[j][0] })
	return w.do("mset", tr.Ev{"kvs": kvs}, rf, wf, func() any {
		return w.which(w.chain.MSet(w.with("mset", kvs), m, ttl(len(kvs))))
	})
}

func (w *world) del(ks []int, rf, wf int) bool {
	ks = tr.Ints(ks)
	return w.do("del", tr.Ev{"keys": tr.Ints(ks)}, rf, wf, func() any {
		return w.which(w.chain.Delete(w.with("del", ks), ks...))
	})
}

func (w *world) put(l, k, v int) {
	w.levels[l].in.Set(tr.Ctx(k, v), k, v, time.Hour)
	tr.Add(tr.Ev{"op": "put", "l": l + 1, "key": k, "val": v, "p": 0, "res": 0})
}

func (w *world) drop(l, k int) {
	w.levels[l].in.Delete(tr.Ctx(l), k)
	tr.Add(tr.Ev{"op": "drop", "l": l + 1, "key": k, "p": 0, "res": 0})
}

var val int

func main() {
	tr.Main(func() {
		i := 0
		r := tr.Rng
		max := tr.Scale(3, 4)
		switch tr.Prop {
		case "C49":
			allCaches()
			return
		case "C13":
			// every chain of up to max levels, which of them have the key, which fail
			for n := 0; n <= max; n++ {
				for hold := 0; hold < 1<<n; hold++ {
					for rf := 0; rf < 1<<n; rf++ {
						for wf := 0; wf < 1<<n; wf++ {
							if i++; !tr.Mine(i) {
								continue
							}
							for _, cont := range []bool{false, true} {
								w := newWorld(r, n, cont, true)
								for l := 0; l < n; l++ {
									if hold>>l&1 == 1 {
										w.put(l, 0, 10+l)
									}
								}
								w.get(0, rf, wf)
								w.get(0, 0, 0)
								tr.End()
							}
						}
					}
				}
			}
		case "C14":
			for n := 0; n <= 2; n++ {
				for hold := 0; hold < 1<<(2*n); hold++ {
					for rf := 0; rf < 1<<n; rf++ {
						for _, ks := range [][]int{{}, {0}, {0, 1}, {1, 0}, {0, 0}, {0, 1, 0}, {1, 1, 0, 0}} {
							if i++; !tr.Mine(i) {
								continue
							}
							for _, cont := range []bool{false, true} {
								w := newWorld(r, n, cont, true)
								for l := 0; l < n; l++ {
									for k := 0; k < 2; k++ {
										if hold>>(2*l+k)&1 == 1 {
											w.put(l, k, 10*k+l)
										}
									}
								}
								w.mget(ks, rf, r.Intn(1<<n))
								w.mget([]int{0, 1}, 0, 0)
								tr.End()
							}
						}
					}
				}
			}
			views()
		case "C15":
			for n := 0; n <= max; n++ {
				for wf := 0; wf < 1<<n; wf++ {
					for op := 0; op < 5; op++ {
						if i++; !tr.Mine(i) {
							continue
						}
						w := newWorld(r, n, false, true)
						for l := 0; l < n; l++ {
							w.put(l, l%2, 10+l)
						}
						switch op {
						case 0:
							w.set(0, 5, 0, wf)
						case 1:
							w.mset(map[int]int{0: 5, 1: 6}, 0, wf)
						case 2:
							w.del([]int{0, 1, 1}, 0, wf)
						case 3:
							w.mset(nil, 0, wf)
							w.mset(map[int]int{}, 0, wf)
						case 4:
							w.del(nil, 0, wf)
						}
						w.mget([]int{0, 1}, 0, 0)
						tr.End()
					}
				}
			}
		}
		random()
		if tr.Prop != "C13" {
			large()
		}
	})
}

// large: many keys at once.
func large() {
	r := tr.Rng
	for i, n := range tr.Sizes() {
		if !tr.Mine(i) {
			continue
		}
		w := newWorld(r, 3, false, true)
		m := map[int]int{}
		for k := 0; k < n; k++ {
			m[2*k] = k + 5
		}
		ok := w.mset(m, 0, 0)
		// keys that are on all levels, on the last one only, and nowhere
		ks := []int{}
		for _, k := range r.Perm(n + 4) {
			ks = append(ks, 2*k)
		}
		some := []int{}
		for _, k := range ks {
			if r.Intn(3) == 0 {
				some = append(some, k)
			}
		}
		if tr.Prop == "C14" {
			for l, gone := range [][]int{ks, some} {
				w.levels[l].in.Delete(tr.Ctx(l), gone...)
				tr.Add(tr.Ev{"op": "drops", "l": l + 1, "keys": gone, "p": 0, "res": 0})
			}
			ok = ok && w.mget(ks, 0, 0) && w.mget(ks, 0, 0)
			w.levels[0].in.Delete(tr.Ctx(ks), ks...)
			tr.Add(tr.Ev{"op": "drops", "l": 1, "keys": ks, "p": 0, "res": 0})
			ok = ok && w.mget(ks, 0, 0) && w.mget(some, 0, 0)
			hits, vals := []int{}, []int{}
			for j := range ks {
				hits, vals = append(hits, tr.B(j%3 > 0)), append(vals, j)
			}
			view(ks, hits, vals, false, false, 0)
			view(ks, hits, vals, false, false, n-2)
		} else {
			ok = ok && w.mget(ks, 0, 0) && w.del(some, 0, 0) && w.mget(ks, 0, 0)
			ok = ok && w.mset(m, 0, 2) && w.mget(ks, 0, 0)
		}
		tr.End()
	}
}

func random() {
	r := tr.Rng
	mine := map[string]string{"C13": "get", "C14": "mget", "C15": "set"}[tr.Prop]
	for i := 0; i < tr.Scale(1600, 40000)/tr.Shards; i++ {
		n := 1 + r.Intn(4)
		if r.Intn(8) == 0 {
			n = []int{0, 5, 6, 8}[r.Intn(4)]
		}
		w := newWorld(r, n, r.Intn(2) == 0, r.Intn(3) > 0)
		const keys = 5
		mask := func() int {
			if r.Intn(3) > 0 {
				return 0
			}
			return r.Intn(1 << n)
		}
		for j := 5 + r.Intn(20); j > 0; j-- {
			k := r.Intn(keys)
			val++
			v := val % 1000
			if r.Intn(6) == 0 {
				v = 0
			}
			name := []string{"get", "mget", "set", "mset", "del", "put", "put", "drop", mine, mine}[r.Intn(10)]
			if n == 0 && (name == "put" || name == "drop") {
				name = "get"
			}
			if name == "set" && tr.Prop == "C15" {
				name = []string{"set", "mset", "del"}[r.Intn(3)]
			}
			ok := true
			switch name {
			case "get":
				ok = w.get(k, mask(), mask())
			case "mget":
				var ks []int
				for m := r.Intn(6); m > 0; m-- {
					ks = append(ks, r.Intn(keys))
				}
				ok = w.mget(ks, mask(), mask())
			case "set":
				ok = w.set(k, v, mask(), mask())
			case "mset":
				m := map[int]int{}
				for x := r.Intn(4); x > 0; x-- {
					m[r.Intn(keys)] = v + 1000*x
				}
				ok = w.mset(m, mask(), mask())
			case "del":
				var ks []int
				for m := r.Intn(4); m > 0; m-- {
					ks = append(ks, r.Intn(keys))
				}
				ok = w.del(ks, mask(), mask())
			case "put":
				w.put(r.Intn(n), k, v)
			case "drop":
				w.drop(r.Intn(n), k)
			}
			if !ok {
				break
			}
		}
		tr.End()
		if dirs > 0 {
			for ; dirs > 0; dirs-- {
				os.RemoveAll(filepath.Join(os.Getenv("VERIF_WORK"), fmt.Sprint("c", dirs)))
			}
		}
	}
}

// fixed answers with what it is told to.
type fixed struct {
	vs  []int
	oks []bool
	err error
}

func (f fixed) MGet(context.Context, ...int) ([]int, []bool, error) { return f.vs, f.oks, f.err }

func view(keys, hits, vals []int, short, fail bool, stop int) {
	f := fixed{}
	for i := range keys {
		f.vs, f.oks = append(f.vs, vals[i]), append(f.oks, hits[i] == 1)
	}
	if fail {
		f.err = errors.New("x")
	}
	if short {
		f.vs, f.oks, hits = nil, nil, []int{}
	}
	ks := tr.Ints(keys)
	e := tr.Ev{"keys": tr.Ints(keys), "hits": tr.Ints(hits), "vals": tr.Ints(vals), "fail": tr.B(fail), "stop": stop}
	tr.Do("view", e, func() any {
		m, err := cachex.MGet[int, int](tr.Ctx(keys, vals), f, ks...)
		rng, rh, rm, mp := [][]int{}, [][]int{}, []int{}, [][]int{}
		m.Range(func(k int, hit bool, v int) bool {
			if !hit {
				v = 0
			}
			rng = append(rng, []int{k, tr.B(hit), v})
			return stop == 0 || len(rng) < stop
		})
		m.RangeHit(func(k, v int) bool {
			rh = append(rh, []int{k, v})
			return stop == 0 || len(rh) < stop
		})
		m.RangeMiss(func(k int) bool {
			rm = append(rm, k)
			return stop == 0 || len(rm) < stop
		})
		for k, v := range m.HitMapValues() {
			mp = append(mp, []int{k, v})
		}
		sort.Slice(mp, func(i, j int) bool { return mp[i][0] < mp[j][0] })
		h, ms := m.HitMissKeys()
		return tr.Ev{"range": rng, "rangehit": rh, "rangemiss": rm, "map": mp, "err": tr.B(err != nil),
			"hitkeys": tr.Ints(m.HitKeys()), "misskeys": tr.Ints(m.MissKeys()), "hit": tr.Ints(h), "miss": tr.Ints(ms)}
	})
}

func views() {
	r := tr.Rng
	tr.Begin(tr.Ev{"n": 0, "kind": []int{}, "ttl": []int{}, "cont": 0})
	for n := 0; n <= 4; n++ {
		for hits := 0; hits < 1<<n; hits++ {
			for stop := 0; stop <= n; stop++ {
				for short := 0; short < 2; short++ {
					var ks, hs, vs []int
					for i := 0; i < n; i++ {
						ks, hs, vs = append(ks, r.Intn(n)), append(hs, hits>>i&1), append(vs, 10+r.Intn(3))
						if r.Intn(2) == 0 {
							ks[i] = i
						}
					}
					view(ks, hs, vs, short == 1, short == 1 || r.Intn(4) == 0, stop)
				}
			}
		}
	}
	tr.End()
}
