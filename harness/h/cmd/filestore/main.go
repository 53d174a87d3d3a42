// Driver for FileStore: C16 (alone), C17 (concurrent), C18 (crashes, damage), C19 (collection, Purge).
package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"testing/synctest"
	"time"

	"github.com/miniLCT/gosb/library/cachex"
	"github.com/miniLCT/gosb/zverif/vos"
	key1 "verifh/keys/one/key"
	key2 "verifh/keys/two/key"
	"verifh/sc"
	"verifh/tr"
)

func main() {
	switch tr.Setup(); tr.Prop {
	case "C16":
		sc.Main(alone)
	case "C17":
		sc.Main(concurrent)
	case "C18":
		sc.Main(crashes)
	case "C19":
		sc.Main(cleaning)
	}
}

var dirCount int

// newDir is a fresh directory, deep enough that what leaves it stays in the scratch directory.
func newDir() string {
	dirCount++
	name := []string{"store", ".store", "store.cache", "sto re", "s[t]*?\\e", "ünï%s", "-rf", "~", "...", "STORE"}[dirCount%10]
	d := filepath.Join(os.Getenv("VERIF_WORK"), fmt.Sprint("w", dirCount), "p", "q", name)
	if err := os.MkdirAll(d, 0o777); err != nil {
		panic(err)
	}
	return d
}

var spelled int

// spell is a path of the directory d: there are several.
func spell(d string) string {
	spelled++
	parent, name := filepath.Split(d)
	switch spelled % 9 {
	case 1:
		return d + "/"
	case 2:
		return parent + "./" + name
	case 3:
		return parent + "..//" + filepath.Base(parent) + "/" + name + "//"
	case 4:
		wd, err := os.Getwd()
		if err != nil {
			panic(err)
		}
		rel, err := filepath.Rel(wd, d)
		if err != nil {
			panic(err)
		}
		return rel
	case 5, 6:
		if err := os.MkdirAll(d, 0o777); err != nil {
			panic(err)
		}
		link := filepath.Join(parent, []string{"link", "link.cache"}[spelled%9-5])
		os.Remove(link)
		if err := os.Symlink(d, link); err != nil {
			panic(err)
		}
		return link
	}
	return d
}

func dropDir() { os.RemoveAll(filepath.Join(os.Getenv("VERIF_WORK"), fmt.Sprint("w", dirCount))) }

type op struct {
	name string
	keys []int
	vals []int
	ttl  time.Duration
}

// store hides the type of the keys and values.
type store interface {
	do(op) any
	open(dir string, cycle time.Duration)
	bad() any
}

type typed[K comparable, V any] struct {
	f  *cachex.FileStore[K, V]
	k  func(int) K
	v  func(int) V
	n  int // values are 0..n-1
	ov func(V) int
}

func (c *typed[K, V]) open(dir string, cycle time.Duration) {
	c.f = &cachex.FileStore[K, V]{Dir: dir, GCCycle: cycle}
}

// bad writes a value that has no representation.
func (c *typed[K, V]) bad() any {
	f := &cachex.FileStore[K, func()]{Dir: c.f.Dir}
	return tr.B(f.Set(tr.Ctx(tr.Traces), c.k(0), func() {}, time.Hour) != nil)
}

func (c *typed[K, V]) num(v V) int {
	if c.ov != nil {
		return c.ov(v)
	}
	for i := 0; i < c.n; i++ {
		if reflect.DeepEqual(c.v(i), v) {
			return i
		}
	}
	return -2
}

func (c *typed[K, V]) do(o op) any {
	switch o.name {
	case "get":
		v, ok, err := c.f.Get(tr.Ctx(o.name, o.keys, o.vals), c.k(o.keys[0]))
		n := 0
		if ok {
			n = c.num(v)
		}
		return []int{n, tr.B(ok), tr.B(err != nil)}
	case "set":
		return tr.B(c.f.Set(tr.Ctx(o.name, o.keys, o.vals), c.k(o.keys[0]), c.v(o.vals[0]), o.ttl) != nil)
	case "mset":
		m := map[K]V{}
		for i, k := range o.keys {
			m[c.k(k)] = c.v(o.vals[i])
		}
		return tr.B(c.f.MSet(tr.Ctx(o.name, o.keys, o.vals), m, o.ttl) != nil)
	case "purge":
		return tr.B(c.f.Purge() != nil)
	}
	ks := []K{}
	for _, k := range o.keys {
		ks = append(ks, c.k(k))
	}
	if o.name == "del" {
		return tr.B(c.f.Delete(tr.Ctx(o.name, o.keys, o.vals), ks...) != nil)
	}
	vs, oks, err := c.f.MGet(tr.Ctx(o.name, o.keys, o.vals), ks...)
	r := [][]int{}
	for i, v := range vs {
		n, ok := 0, -1
		if i < len(oks) {
			ok = tr.B(oks[i])
		}
		if ok == 1 {
			n = c.num(v)
		}
		r = append(r, []int{n, ok})
	}
	return tr.Ev{"r": r, "err": tr.B(err != nil)}
}

type pair struct{ A, B string }
type named struct{ N int }

func (named) String() string { return "same" }

// secret does not show itself, spot does not show all.
type secret string

func (secret) GoString() string { return "***" }

type spot struct{ X, Y int }

func (p spot) GoString() string { return fmt.Sprint(p.X + p.Y) }

type deep struct {
	F [2]float64
	S secret
	P spot
	A any
	u int
}

type text string

func (text) String() string { return "same" }

type mixed struct {
	A int
	B any
}

var anyKeys = []any{1, int64(1), "1", uint8(1), 1.0, true, "true", pair{"a b", "c"}, pair{"a", "b c"}, [2]string{"x y", "z"}, [2]string{"x", "y z"},
	named{1}, named{2}, text("1"), text("2"), nil, "<nil>", "", "a/b", "../a", "a\x00", "\xff", "\xfe", '1', int32(1), mixed{1, 2}, mixed{1, "2"}, struct{ A, B string }{"a", "b c"}, [1]int{1}, [2]int{1, 0},
	uint64(math.MaxUint64), int64(-1), uint64(1 << 63), int64(math.MinInt64), 1 << 53, 1<<53 + 1, float32(1), float32(0.1), 0.1, [0]int{}, [0]string{}, [2]any{1, 2}, [2]any{1, "2"}, [2]any{[2]any{1, 2}, 3}, [2]any{1, [2]any{2, 3}}}

// aliens are keys of types of other packages, which may have the same name.
var aliens = []any{key1.ID(1), key2.ID(1), 1, key1.ID(2), key1.Text("1"), key2.Text("1"), "1", key1.Pair{A: 1, B: 2}, key2.Pair{A: 1, B: 2}, key1.Pair{A: key1.ID(1), B: 2}, key1.Pair{A: key2.ID(1), B: 2}, [1]key1.ID{1}, [1]key2.ID{1},
	key1.Hidden(1), key2.Hidden(1), [2]any{key1.ID(1), key2.ID(2)}, [2]any{key2.ID(1), key1.ID(2)}, struct{ X any }{key1.Text("x")}, struct{ X any }{key2.Text("x")}, nil}

var strs = []string{"", "a", "b", "A", "a ", "a/b", "../x", "..", "/etc/passwd", "\xff", "\xfe", "\n", "a\x00b", "key", "ключ", "1", "01", "k1.cache", "%v", "%!s(string=a)", strings.Repeat("x", 300), strings.Repeat("x", 301)}

// label is an interface type, sign and flag are keys that are written in a form that they are not read from.
type label interface{ String() string }

type sign int

func (s sign) String() string               { return "same" }
func (s sign) MarshalJSON() ([]byte, error) { return []byte(`"s"`), nil }

type flag struct{ A, B bool }

func (f flag) MarshalText() ([]byte, error) { return []byte("flag"), nil }

type doc struct {
	A int
	B []string
	C map[string]int
	D *int
}

func ident(i int) int { return i }

// newStore makes a store of one of several types of keys and values; nk is how many keys there are.
func newStore(kind int) (s store, nk int) {
	seven := 7
	switch kind {
	case 1:
		return &typed[string, string]{k: func(i int) string { return strs[i] }, v: func(i int) string {
			return []string{"", "v", "<a>&\"'", "日本", "\u2028", "\x00\n\t", "null", "{}"}[i]
		}, n: 8}, len(strs)
	case 2:
		return &typed[any, int]{k: func(i int) any { return anyKeys[i] }, v: ident, n: 8}, len(anyKeys)
	case 3:
		return &typed[named, []int]{k: func(i int) named { return named{i} }, v: func(i int) []int {
			return [][]int{nil, {}, {1}, {1, 2}, {-1}, {0}, {math.MaxInt}, {math.MinInt}}[i]
		}, n: 8}, 6
	case 4:
		return &typed[pair, doc]{k: func(i int) pair {
			return []pair{{"", ""}, {"a b", "c"}, {"a", "b c"}, {"a", "b"}, {"ab", ""}, {"", "ab"}, {"a} {b", "c"}, {"a", "b} {c"}, {"a\" \"b", ""}, {"a", "b\""}}[i]
		}, v: func(i int) doc {
			return []doc{{}, {A: 1}, {B: []string{}}, {B: []string{"x"}}, {C: map[string]int{"a": 1}}, {D: &seven}, {A: -1, B: []string{"", "<"}}, {C: map[string]int{}}}[i]
		}, n: 8}, 10
	case 5:
		return &typed[text, any]{k: func(i int) text { return text(strs[i]) }, v: func(i int) any {
			return []any{nil, true, 1.5, "x", []any{}, map[string]any{}, []any{1.0, nil}, map[string]any{"Data": "x", "Exp": 1.0}}[i]
		}, n: 8}, len(strs)
	case 6:
		return &typed[[2]string, bool]{k: func(i int) [2]string {
			return [][2]string{{"", ""}, {"x y", "z"}, {"x", "y z"}, {"x", "y"}, {"xy", ""}, {"", "xy"}, {"x, y", ""}, {"x", ", y"}}[i]
		}, v: func(i int) bool { return i%2 == 1 }, n: 2}, 8
	}
	switch kind {
	case 7: // zero has two forms
		return &typed[float64, int]{k: func(i int) float64 {
			return []float64{[]float64{0, math.Copysign(0, -1)}[tr.Rng.Intn(2)], 1, -1, 0.1, math.MaxFloat64, math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64, 1e21, 1e20}[i]
		}, v: ident, ov: ident}, 9
	case 8: // keys that do not tell themselves apart when printed
		return &typed[secret, string]{k: func(i int) secret { return secret(strs[i]) }, v: func(i int) string { return strs[i] }, n: 8}, len(strs)
	case 9:
		return &typed[deep, int]{k: func(i int) deep {
			z := []float64{0, math.Copysign(0, -1)}[tr.Rng.Intn(2)]
			return []deep{{}, {F: [2]float64{1, z}}, {F: [2]float64{z, 1}}, {S: "a"}, {S: "b"}, {P: spot{1, 2}}, {P: spot{2, 1}}, {A: 1}, {A: int8(1)}, {A: "1"}, {A: spot{1, 2}}, {A: z}, {u: 1}, {u: 2}}[i]
		}, v: ident, ov: ident}, 14
	case 10:
		return &typed[label, int]{k: func(i int) label {
			return []label{nil, text(""), text("1"), text("2"), named{1}, named{2}, sign(1), sign(2), time.Second, 2 * time.Second}[i]
		}, v: ident, ov: ident}, 10
	case 11:
		return &typed[sign, string]{k: func(i int) sign { return sign(i) }, v: func(i int) string { return strs[i] }, n: 8}, 8
	case 12:
		return &typed[flag, int]{k: func(i int) flag { return flag{i%2 == 1, i > 1} }, v: ident, ov: ident}, 4
	case 13:
		return &typed[any, string]{k: func(i int) any { return aliens[i] }, v: func(i int) string { return strs[i] }, n: 8}, len(aliens)
	}
	return &typed[int, int]{k: func(i int) int { return []int{0, 1, -1, 12, 1200, 120, math.MaxInt, math.MinInt}[i] }, v: ident, ov: ident}, 8
}

// the clock: times are in units since the start
var start time.Time
var unit time.Duration

const never = 1000000000

func now() int { return int(time.Since(start) / unit) }

func (o op) args() tr.Ev {
	e := tr.Ev{"now": now()}
	ttl := o.ttl / unit
	ttl = max(-never, min(never, ttl))
	switch o.name {
	case "get":
		e["key"] = o.keys[0]
	case "set":
		e["key"], e["val"], e["ttl"] = o.keys[0], o.vals[0], int(ttl)
	case "mget", "del":
		e["keys"] = tr.Ints(o.keys)
	case "mset":
		kvs := [][]int{}
		for i, k := range o.keys {
			kvs = append(kvs, []int{k, o.vals[i]})
		}
		e["kvs"], e["ttl"] = kvs, int(ttl)
	}
	return e
}

// alone: one goroutine, all kinds of keys and values, time passes.
func alone() {
	r := tr.Rng
	for i := 0; i < tr.Scale(1300, 30000)/tr.Shards; i++ {
		start = time.Now()
		unit = []time.Duration{time.Nanosecond, time.Microsecond, time.Millisecond, time.Second, time.Minute, 24 * time.Hour}[r.Intn(6)]
		if time.Now().Year() > 2120 { // times have to stay within the range of UnixNano
			unit = time.Millisecond
		}
		cycle := []time.Duration{0, time.Second, 500 * time.Millisecond, -1, time.Hour}[r.Intn(5)]
		s, nk := newStore(r.Intn(14))
		values := 8
		if b, ok := s.(*typed[[2]string, bool]); ok {
			values = b.n
		}
		dir := newDir()
		if r.Intn(4) == 0 {
			dir = filepath.Join(dir, "not", "there yet")
		}
		s.open(spell(dir), cycle)
		tr.Begin(tr.Ev{"x": 0})
		// a few of the keys, so that they meet again
		keys := r.Perm(nk)[:min(nk, 2+r.Intn(5))]
		if r.Intn(5) == 0 {
			keys = r.Perm(nk)
		}
		key := func() int { return keys[r.Intn(len(keys))] }
		some := func(max int) []int {
			p := r.Perm(len(keys))
			n := min(len(p), r.Intn(max+1))
			ks := []int{}
			for _, x := range p[:n] {
				ks = append(ks, keys[x])
			}
			return ks
		}
		ttl := func() time.Duration {
			switch r.Intn(10) {
			case 0:
				return []time.Duration{math.MaxInt64, math.MaxInt64 - 1, math.MaxInt64 / 2, math.MaxInt64 - time.Duration(time.Now().UnixNano()), math.MaxInt64 - time.Duration(time.Now().UnixNano()) + 1}[r.Intn(5)]
			case 1:
				return []time.Duration{0, -1, -time.Hour, math.MinInt64}[r.Intn(4)] / unit * unit
			case 2, 3:
				return time.Duration(1+r.Intn(3)) * unit
			}
			return time.Duration(10+r.Intn(90)) * unit
		}
		for j := 4 + r.Intn(24); j > 0; j-- {
			if r.Intn(4) == 0 {
				time.Sleep(time.Duration([]int{1, 1, 2, 3, 5, 20, 100, 1000}[r.Intn(8)]) * unit)
			}
			o := op{ttl: ttl()}
			switch r.Intn(16) {
			case 0, 1, 2, 3, 4:
				o.name, o.keys, o.vals = "set", []int{key()}, []int{r.Intn(values)}
			case 5, 6, 7, 8:
				o.name, o.keys = "get", []int{key()}
			case 9:
				o.name, o.keys = "del", some(2)
			case 10, 11:
				o.name, o.keys = "mset", some(3)
				for range o.keys {
					o.vals = append(o.vals, r.Intn(values))
				}
			case 12, 13:
				o.name, o.keys = "mget", some(4)
				if len(o.keys) > 0 && r.Intn(3) == 0 {
					o.keys = append(o.keys, o.keys[0])
				}
			case 14:
				switch r.Intn(4) {
				case 0:
					o.name = "purge"
				case 1:
					tr.Do("setbad", tr.Ev{"now": now()}, s.bad)
					continue
				default:
					continue
				}
			case 15:
				tr.Do("open", tr.Ev{"now": now()}, func() any { s.open(spell(dir), cycle); return 0 })
				continue
			}
			p, _ := tr.Do(o.name, o.args(), func() any { return s.do(o) })
			synctest.Wait() // a collection may run
			if p != 0 {
				break
			}
		}
		for _, k := range keys {
			o := op{name: "get", keys: []int{k}}
			tr.Do(o.name, o.args(), func() any { return s.do(o) })
		}
		synctest.Wait()
		tr.End()
		dropDir()
	}
	for kind := 0; kind < 6; kind++ {
		if tr.Mine(kind) {
			twins(kind, tr.Scale(250000, 2000000))
		}
	}
	for i, n := range tr.Sizes() {
		if tr.Mine(i) {
			many(n)
			long(n)
			long(64 * n)
		}
	}
}

// many: many keys at once.
func many(n int) {
	r := tr.Rng
	start, unit = time.Now(), time.Second
	s := &typed[string, int]{k: func(i int) string { return fmt.Sprint("key-", i) }, v: ident, ov: ident}
	s.open(spell(newDir()), time.Hour)
	tr.Begin(tr.Ev{"x": 0})
	defer dropDir()
	defer tr.End()
	do := func(o op) bool {
		p, _ := tr.Do(o.name, o.args(), func() any { return s.do(o) })
		return p == 0
	}
	o := op{name: "mset", keys: r.Perm(n), ttl: time.Hour}
	for i := range o.keys {
		o.vals = append(o.vals, i)
	}
	all := op{name: "mget", keys: r.Perm(n + 2)}
	if do(o) && do(all) && do(op{name: "del", keys: r.Perm(n)[:n/2]}) && do(all) && do(op{name: "purge"}) {
		do(all)
	}
}

// twins: of very many keys, those that are looked for in the same file are used together.
func twins(kind, n int) {
	key := func(i int) any { return i }
	switch kind {
	case 1:
		key = func(i int) any { return fmt.Sprint("key-", i) }
	case 2:
		key = func(i int) any { return pair{fmt.Sprint(i / 500), fmt.Sprint(i % 500)} }
	case 3:
		key = func(i int) any { return float64(i)*1e-7 + math.Pi }
	case 4:
		key = func(i int) any { return [2]any{uint16(i / 1000), strs[i%10] + fmt.Sprint(i%1000)} }
	case 5:
		key = func(i int) any { return text(strings.Repeat("z", 600) + fmt.Sprintf("%08x", i*2654435761)) }
	}
	start, unit = time.Now(), time.Second
	defer dropDir()
	f := &cachex.FileStore[any, int]{Dir: newDir(), GCCycle: time.Hour}
	first := make(map[string]int, n)
	at, ctx := 0, tr.Ctx("get", []int{0}, nil)
	var same [][2]int
	vos.Names = func(name string) {
		if j, ok := first[name]; !ok {
			first[name] = at
		} else if j != at && len(same) < 20 {
			same = append(same, [2]int{j, at})
		}
	}
	for ; at < n; at++ {
		f.Get(ctx, key(at))
	}
	vos.Names = nil
	tr.Extra["keys looked up"] += n
	for _, p := range same {
		s := &typed[any, int]{k: func(i int) any { return key(p[i]) }, v: ident, ov: ident}
		s.open(newDir(), time.Hour)
		tr.Begin(tr.Ev{"x": 0})
		for _, o := range []op{{name: "set", keys: []int{0}, vals: []int{1}, ttl: time.Hour}, {name: "get", keys: []int{1}}, {name: "set", keys: []int{1}, vals: []int{2}, ttl: time.Hour},
			{name: "mget", keys: []int{0, 1}}, {name: "del", keys: []int{1}}, {name: "get", keys: []int{0}}} {
			if p, _ := tr.Do(o.name, o.args(), func() any { return s.do(o) }); p != 0 {
				break
			}
		}
		tr.End()
	}
	synctest.Wait()
}

// long: keys and values that are long, and differ only somewhere.
func long(n int) {
	r := tr.Rng
	start, unit = time.Now(), time.Second
	k := func(i int) string {
		b := []byte(strings.Repeat("k", n))
		if i > 0 {
			b[[]int{0, 0, n - 1, n / 2, n - 1}[i]] = "axyzw"[i]
		}
		return string(b)
	}
	v := func(i int) string {
		b := []byte(strings.Repeat("<\"v", n))
		if i > 0 {
			b[[]int{0, 0, 3*n - 1, n, 2 * n}[i]] = "axyzw"[i]
		}
		return string(b[:len(b)-i/4])
	}
	var s store = &typed[string, string]{k: k, v: v, n: 5}
	if r.Intn(2) == 0 {
		type big struct {
			N int
			S []string
		}
		s = &typed[[2]string, big]{k: func(i int) [2]string { return [2]string{k(i % 3), k(i / 3)} }, v: func(i int) big { return big{i, strings.Split(v(i), "v")} }, n: 5}
	}
	dir := newDir()
	s.open(dir, time.Hour)
	tr.Begin(tr.Ev{"x": 0})
	defer dropDir()
	defer tr.End()
	do := func(o op) bool {
		p, _ := tr.Do(o.name, o.args(), func() any { return s.do(o) })
		return p == 0
	}
	for i := 0; i < 5; i++ {
		if !do(op{name: "set", keys: []int{i}, vals: []int{(i + 1) % 5}, ttl: time.Hour}) {
			return
		}
	}
	if !do(op{name: "mget", keys: []int{4, 3, 2, 1, 0}}) || !do(op{name: "mset", keys: []int{0, 3}, vals: []int{4, 2}, ttl: time.Hour}) {
		return
	}
	tr.Do("open", tr.Ev{"now": now()}, func() any { s.open(dir, 0); return 0 })
	if do(op{name: "del", keys: []int{2}}) {
		do(op{name: "mget", keys: []int{0, 1, 2, 3, 4}})
	}
	synctest.Wait()
}
