// Driver for sync.Map: C01 (concurrent histories), C02 (sequential), C03 (Range in concurrent histories).
package main

import (
	"encoding/json"
	"math/rand"
	"os"
	"strconv"

	gsync "github.com/miniLCT/gosb/gogenerics/gconcurrent/sync"
	"verifh/sc"
	"verifh/tr"
)

type op struct {
	name          string
	key, val, old int
	stop          int
}

func (o op) args() tr.Ev {
	e := tr.Ev{"key": o.key}
	switch o.name {
	case "store", "los", "swap":
		e["val"] = o.val
	case "cas":
		e["val"], e["old"] = o.val, o.old
	case "cad":
		e["old"] = o.old
	case "range":
		e["stop"] = o.stop
	}
	return e
}

// gomap hides the types of keys and values.
type gomap interface {
	run(op) any
	Range(func(k, v int) bool)
	norm(op) op
}

type typed[K comparable, V any] struct {
	m   gsync.Map[K, V]
	k   func(int) K
	ok  func(K) int
	v   func(int) V
	ov  func(V) int
	one bool // there is only one value
}

func (m *typed[K, V]) norm(o op) op {
	if m.one {
		o.val, o.old = 0, 0
	}
	return o
}

func (m *typed[K, V]) pair(v V, ok bool) []int { return []int{m.ov(v), tr.B(ok)} }

func (m *typed[K, V]) Range(f func(k, v int) bool) {
	m.m.Range(func(k K, v V) bool { return f(m.ok(k), m.ov(v)) })
}

func (m *typed[K, V]) run(o op) any {
	k := m.k(o.key)
	switch o.name {
	case "load":
		return m.pair(m.m.Load(k))
	case "store":
		m.m.Store(k, m.v(o.val))
	case "los":
		return m.pair(m.m.LoadOrStore(k, m.v(o.val)))
	case "lad":
		return m.pair(m.m.LoadAndDelete(k))
	case "delete":
		m.m.Delete(k)
	case "swap":
		return m.pair(m.m.Swap(k, m.v(o.val)))
	case "cas":
		return tr.B(m.m.CompareAndSwap(k, m.v(o.old), m.v(o.val)))
	case "cad":
		return tr.B(m.m.CompareAndDelete(k, m.v(o.old)))
	case "range":
		r := [][]int{}
		m.Range(func(k, v int) bool {
			r = append(r, []int{k, v})
			return o.stop == 0 || len(r) < o.stop
		})
		return r
	}
	return 0
}

func num(s string) int { n, _ := strconv.Atoi(s); return n }

type point struct {
	X int
	Y any
}

var cells = func() (a [5000]*int) { // cells[0] is nil
	for i := 1; i < len(a); i++ {
		a[i] = new(int)
		*a[i] = i
	}
	return
}()

// newMap makes a map of one of several types; the zero value of a type is always the value 0.
func newMap(kind int) gomap {
	id := func(i int) int { return i }
	text := func(i int) string {
		if i == 0 {
			return ""
		}
		return strconv.Itoa(i)
	}
	switch kind {
	case 1:
		return &typed[string, string]{k: text, ok: num, v: text, ov: num}
	case 2: // no value takes any room
		return &typed[point, struct{}]{k: func(i int) point { return point{i / 3, []any{nil, "x", 1.5}[i%3]} },
			ok: func(p point) int {
				return 3*p.X + map[any]int{nil: 0, "x": 1, 1.5: 2}[p.Y]
			}, v: func(int) struct{} { return struct{}{} }, ov: func(struct{}) int { return 0 }, one: true}
	case 3:
		return &typed[any, any]{
			k: func(i int) any {
				switch i % 5 {
				case 0:
					return i
				case 1:
					return int64(i)
				case 2:
					return text(i)
				case 3:
					return [1]int{i}
				}
				if i == 4 {
					return nil
				}
				return &cells[i]
			},
			ok: func(k any) int {
				switch x := k.(type) {
				case int:
					return x
				case int64:
					return int(x)
				case string:
					return num(x)
				case [1]int:
					return x[0]
				case **int:
					return **x
				}
				return 4
			},
			v: func(i int) any {
				if i == 0 {
					return nil
				}
				if i%2 == 0 {
					return i
				}
				return text(i)
			},
			ov: func(v any) int {
				switch x := v.(type) {
				case int:
					return x
				case string:
					return num(x)
				}
				return 0
			}}
	case 4: // pointers: the values are where they point to
		return &typed[float64, *int]{k: func(i int) float64 { return float64(i) / 2 }, ok: func(f float64) int { return int(2 * f) },
			v: func(i int) *int { return cells[i] },
			ov: func(p *int) int {
				if p == nil {
					return 0
				}
				return *p
			}}
	case 5:
		return &typed[uint8, [40]int]{k: func(i int) uint8 { return uint8(i) }, ok: func(k uint8) int { return int(k) },
			v: func(i int) (a [40]int) { a[39] = i; return }, ov: func(a [40]int) int { return a[39] }}
	case 6:
		return &typed[int, error]{k: id, ok: id, v: func(i int) error {
			if i == 0 {
				return nil
			}
			return numErr(i)
		}, ov: func(e error) int {
			n, _ := e.(numErr)
			return int(n)
		}}
	}
	return &typed[int, int]{k: id, ok: id, v: id, ov: id}
}

const kinds = 7

type numErr int

func (e numErr) Error() string { return "same" }

var names = []string{"load", "store", "los", "lad", "delete", "swap", "cas", "cad"}

func randOp(r *rand.Rand, keys int, val *int, rng bool) op {
	o := op{name: names[r.Intn(len(names))], key: r.Intn(keys)}
	if rng && r.Intn(6) == 0 {
		o.name = "range"
		if r.Intn(3) == 0 {
			o.stop = 1 + r.Intn(keys)
		}
	}
	*val++
	o.val = *val
	o.old = r.Intn(*val + 1)
	if r.Intn(3) == 0 { // the same value again
		o.val = r.Intn(*val + 1)
	}
	return o
}

func main() {
	if tr.Setup(); tr.Prop == "C02" {
		sequential()
		tr.Finish()
		return
	}
	sc.Main(concurrent)
}

// scripts are what TLC found to lead to each state at rest of SyncMapAlgo.tla.
func scripts() (r [][]op) {
	f, err := os.ReadFile(os.Getenv("VERIF_SCRIPT"))
	if err != nil {
		return preludes
	}
	var js [][]struct {
		Op            string
		Key, Val, Old int
	}
	if err := json.Unmarshal(f, &js); err != nil {
		panic(err)
	}
	for _, j := range js {
		ops := []op{}
		for _, o := range j {
			ops = append(ops, op{name: o.Op, key: o.Key, val: o.Val, old: o.Old})
		}
		r = append(r, ops)
	}
	return r
}

// preludes bring the map into kinds of states: empty, only in the dirty map,
// promoted, promoted with additions, with deleted entries (nil or expunged).
var preludes = [][]op{
	{},
	{{name: "store", key: 0, val: 1}},
	{{name: "store", key: 0, val: 1}, {name: "range"}},
	{{name: "store", key: 0, val: 1}, {name: "range"}, {name: "delete", key: 0}},
	{{name: "store", key: 0, val: 1}, {name: "range"}, {name: "store", key: 1, val: 2}},
	{{name: "store", key: 0, val: 1}, {name: "range"}, {name: "delete", key: 0}, {name: "store", key: 1, val: 2}},
	{{name: "store", key: 0, val: 1}, {name: "store", key: 2, val: 3}, {name: "range"}, {name: "delete", key: 0}, {name: "store", key: 1, val: 2}},
	{{name: "store", key: 0, val: 1}, {name: "store", key: 1, val: 2}, {name: "range"}, {name: "delete", key: 0}},
	{{name: "store", key: 0, val: 1}, {name: "range"}, {name: "store", key: 1, val: 2}, {name: "store", key: 2, val: 3}, {name: "delete", key: 1}},
}

func scenario(kind int, prelude []op, tasks [][]op, keys int, pick sc.Picker, o sc.Opt) sc.Result {
	m := newMap(kind)
	h := &sc.H{}
	for _, q := range prelude {
		q = m.norm(q)
		h.Call(0, q.name, q.args(), func() any { return m.run(q) })
	}
	var fs []func()
	for t, ops := range tasks {
		fs = append(fs, func() {
			for _, q := range ops {
				if q.name == "range" {
					rangeTask(h, m, t+1, q)
					continue
				}
				q = m.norm(q)
				h.Call(t+1, q.name, q.args(), func() any { return m.run(q) })
			}
		})
	}
	res := sc.Run(fs, pick, o)
	if !res.Stuck {
		for k := 0; k < keys; k++ {
			q := op{name: "load", key: k}
			h.Call(0, q.name, q.args(), func() any { return m.run(q) })
		}
	}
	h.Emit(tr.Ev{"keys": keys}, res.Stuck)
	tr.Extra["schedules"]++
	tr.Extra["steps"] += res.Steps
	return res
}

// rangeTask records a Range as a call, the pairs visited, and a return.
func rangeTask(h *sc.H, m gomap, t int, q op) {
	h.Add(tr.Ev{"k": "rcall", "t": t})
	n := 0
	p, _ := sc.TryKill(func() any {
		m.Range(func(k, v int) bool {
			n++
			h.Add(tr.Ev{"k": "visit", "t": t, "key": k, "val": v})
			return q.stop == 0 || n < q.stop
		})
		return 0
	})
	h.Add(tr.Ev{"k": "rret", "t": t, "p": p, "stopped": tr.B(q.stop > 0 && n >= q.stop), "n": n, "stop": q.stop})
}

func concurrent() {
	const keys = 3
	withRange := tr.Prop == "C03"
	r := tr.Rng
	// every pair of operations on every prelude, under every schedule with at most 2 preemptions
	ops := []op{}
	for _, n := range names {
		ops = append(ops, op{name: n, key: 0, val: 7, old: 1}, op{name: n, key: 1, val: 8, old: 2})
	}
	if withRange {
		ops = append(ops, op{name: "range"})
	}
	i := 0
	for _, pre := range scripts() {
		for x := range ops {
			for y := x; y < len(ops); y++ {
				a, b := ops[x], ops[y]
				if withRange && a.name != "range" && b.name != "range" {
					continue
				}
				if a.key != b.key && a.name != "range" && b.name != "range" && len(pre) < 2 {
					continue
				}
				i++
				if !tr.Mine(i) {
					continue
				}
				b.val += 20
				n, ok := sc.Explore(tr.Scale(2, 4), tr.Scale(220, 20000), func(p sc.Picker) sc.Result {
					return scenario(0, pre, [][]op{{a}, {b}}, keys, p, sc.Opt{Record: true})
				})
				tr.Extra["explored"] += n
				if ok {
					tr.Extra["exhausted"]++
				}
				tr.Extra["pairs"]++
			}
		}
	}
	// a value is replaced by the same value, or by another and then back, while others compare
	if !withRange {
		again := [][]op{}
		for _, n := range []string{"store", "swap", "cas", "los"} {
			again = append(again, []op{{name: n, key: 0, val: 1, old: 1}})
		}
		again = append(again, []op{{name: "store", key: 0, val: 7}, {name: "store", key: 0, val: 1}}, []op{{name: "delete", key: 0}, {name: "los", key: 0, val: 1}},
			[]op{{name: "cas", key: 0, val: 7, old: 1}, {name: "cas", key: 0, val: 1, old: 7}}, []op{{name: "cad", key: 0, old: 1}, {name: "swap", key: 0, val: 1}})
		for _, pre := range preludes[1:] {
			for _, n := range []string{"cas", "cad", "lad", "swap", "los", "delete"} {
				for j, a := range again {
					i++
					if !tr.Mine(i) {
						continue
					}
					b := op{name: n, key: 0, val: []int{8, 1}[j%2], old: 1}
					n, _ := sc.Explore(tr.Scale(2, 4), tr.Scale(150, 20000), func(p sc.Picker) sc.Result {
						return scenario(0, pre, [][]op{a, {b}}, keys, p, sc.Opt{Record: true})
					})
					tr.Extra["explored"] += n
					tr.Extra["again"]++
				}
			}
		}
	}
	// random programs under random schedules
	N := tr.Scale(9000, 120000) / tr.Shards
	for i := 0; i < N; i++ {
		val := 0
		var pre []op
		for n := r.Intn(10); n > 0; n-- {
			pre = append(pre, randOp(r, keys, &val, true))
		}
		nt := 2 + r.Intn(2)
		few := r.Intn(3) == 0 // few values: they come back
		tasks := make([][]op, nt)
		total := 0
		for t := range tasks {
			for n := 1 + r.Intn(3); n > 0; n-- {
				o := randOp(r, keys, &val, false)
				if few {
					o.val, o.old = r.Intn(2), r.Intn(2)
				}
				tasks[t] = append(tasks[t], o)
				total++
			}
		}
		if withRange {
			tasks[0] = []op{{name: "range", stop: []int{0, 0, 0, 1, 2}[r.Intn(5)]}}
			if r.Intn(4) == 0 {
				tasks[0] = append(tasks[0], op{name: "range"})
			}
		}
		scenario(r.Intn(2*kinds), pre, tasks, keys, sc.Any(r, nt, total*16), sc.Opt{})
	}
	// many keys
	for i := 0; i < 3*len(tr.Sizes()); i++ {
		n := tr.Sizes()[i/3]
		if !tr.Mine(i) || n > 2500 {
			continue
		}
		val := 0
		pre := many(r, n, &val)
		tasks := make([][]op, 2)
		for t := range tasks {
			for j := 0; j < 4; j++ {
				o := randOp(r, n+2, &val, false)
				if j < 2 { // a miss
					o.name = "load"
				}
				tasks[t] = append(tasks[t], o)
			}
		}
		if withRange {
			tasks[0] = []op{{name: "range"}}
		}
		scenario(0, pre, tasks, n+2, sc.Any(r, 2, 130), sc.Opt{})
	}
}

// many are operations that leave the map with about n keys.
func many(r *rand.Rand, n int, val *int) []op {
	var ops []op
	first := []int{n, n / 2, n - 1, 0}[r.Intn(4)]
	for j, k := range r.Perm(n) {
		if j == first {
			switch r.Intn(3) {
			case 0:
				ops = append(ops, op{name: "range"})
			case 1: // so many misses that it is promoted
				for _, x := range r.Perm(first)[:min(first, j+2)] {
					ops = append(ops, op{name: "load", key: x})
				}
			}
		}
		*val++
		ops = append(ops, op{name: []string{"store", "store", "los", "swap"}[r.Intn(4)], key: k, val: *val})
	}
	for j := r.Intn(n / 3); j > 0; j-- {
		ops = append(ops, op{name: []string{"delete", "lad"}[r.Intn(2)], key: r.Intn(n)})
	}
	return ops
}

func sequential() {
	r := tr.Rng
	kind := 0
	seq := func(keys int, ops []op) {
		m := newMap(kind)
		tr.Begin(tr.Ev{"keys": keys})
		for _, o := range ops {
			o = m.norm(o)
			tr.Do(o.name, o.args(), func() any { return m.run(o) })
		}
		tr.End()
	}
	// every sequence of up to n operations on one or two keys
	var alpha []op
	for k := 0; k < 2; k++ {
		for _, n := range names {
			switch n {
			case "cas", "cad":
				alpha = append(alpha, op{name: n, key: k, val: 2, old: 1}, op{name: n, key: k, val: 1, old: 2})
			case "store", "los", "swap":
				alpha = append(alpha, op{name: n, key: k, val: 1}, op{name: n, key: k, val: 2})
			default:
				alpha = append(alpha, op{name: n, key: k})
			}
		}
	}
	alpha = append(alpha, op{name: "range"})
	i := 0
	for _, a := range alpha {
		for _, b := range alpha {
			for _, c := range alpha {
				i++
				if tr.Mine(i) {
					seq(2, []op{a, b, c, {name: "range"}})
				}
			}
		}
	}
	// from every state that the structure can be in, every operation, and then a look at everything
	for i, pre := range scripts() {
		if !tr.Mine(i) {
			continue
		}
		for k := 0; k < 3; k++ {
			for _, n := range append([]string{"range"}, names...) {
				if n == "range" && k > 0 {
					continue
				}
				seq(3, append(append([]op{}, pre...), op{name: n, key: k, val: 2, old: 1}, op{name: "load", key: i % 3}, op{name: "range"},
					op{name: "swap", key: (k + 1) % 3, val: 3}, op{name: "range"}))
			}
		}
	}
	N := tr.Scale(1500, 20000) / tr.Shards
	for i := 0; i < N; i++ {
		kind = i % (2 * kinds)
		keys := 1 + r.Intn(6)
		val := 0
		n := 5 + r.Intn(60)
		var ops []op
		for j := 0; j < n; j++ {
			o := randOp(r, keys, &val, true)
			if r.Intn(2) == 0 { // few values, so that comparisons succeed
				o.val, o.old = r.Intn(3), r.Intn(3)
			}
			ops = append(ops, o)
		}
		seq(keys, ops)
	}
	// many keys
	kind = 0
	for i := 0; i < 2*len(tr.Sizes()); i++ {
		n := tr.Sizes()[i/2]
		if !tr.Mine(i) {
			continue
		}
		val := 0
		ops := many(r, n, &val)
		rng := op{name: "range", stop: r.Intn(2) * r.Intn(n)}
		loads := func() {
			for _, k := range r.Perm(n + 2) {
				ops = append(ops, op{name: "load", key: k})
			}
		}
		if r.Intn(2) == 0 {
			ops = append(ops, rng)
		}
		loads()
		for j := n / 2; j > 0; j-- {
			ops = append(ops, randOp(r, n+2, &val, j%(n/4) == 0))
		}
		loads()
		ops = append(ops, op{name: "range"})
		seq(n+2, ops)
	}
}
