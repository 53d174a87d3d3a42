package vsched

import (
	"reflect"
	"runtime"
	"sort"
	"sync"
	"unsafe"
)

// Recording of memory accesses and of what orders them, in code instrumented with -race.

type rec struct {
	g    uint64
	kind byte // r, w: access; R, W: atomic access; a: acquire; l: release; f: fork; s: first event of a goroutine; e: of one nobody has forked
	at   unsafe.Pointer
	pc   uintptr
}

var race struct {
	sync.Mutex
	on    bool
	log   []rec
	keep  []any // so that no address is used twice
	known map[uint64]bool
	forks int
	sel   map[uint64][]unsafe.Pointer
	rng   map[uint64][]unsafe.Pointer
}

// RaceStart starts recording.
func RaceStart() {
	race.Lock()
	race.on, race.log, race.keep, race.forks = true, nil, nil, 0
	race.known, race.sel, race.rng = map[uint64]bool{}, map[uint64][]unsafe.Pointer{}, map[uint64][]unsafe.Pointer{}
	race.Unlock()
}

// RaceTask says that the calling goroutine is one of the test's tasks.
func RaceTask() {
	race.Lock()
	if race.on {
		race.known[gid()] = true
	}
	race.Unlock()
}

// RaceEvent is an event of a recording. X numbers the location or the synchronising object.
type RaceEvent struct {
	K    string
	T, X int
	At   string
}

// RaceStop ends the recording. It leaves out what cannot make a difference:
// locations that only one goroutine has accessed or nobody has written, objects
// that only one goroutine has used, and repeated accesses.
func RaceStop() (evs []RaceEvent, threads, locs, objs int) {
	race.Lock()
	race.on = false
	log := race.log
	race.log, race.keep = nil, nil
	race.Unlock()
	type use struct {
		first uint64
		many  bool
		wr    bool
	}
	loc, obj := map[unsafe.Pointer]*use{}, map[unsafe.Pointer]*use{}
	note := func(m map[unsafe.Pointer]*use, r rec, wr bool) {
		u := m[r.at]
		if u == nil {
			u = &use{first: r.g}
			m[r.at] = u
		}
		u.many = u.many || u.first != r.g
		u.wr = u.wr || wr
	}
	for _, r := range log {
		switch r.kind {
		case 'r', 'R':
			note(loc, r, false)
		case 'w', 'W':
			note(loc, r, true)
		case 'a', 'l':
			note(obj, r, true)
		}
	}
	plain := map[unsafe.Pointer]bool{}
	for _, r := range log {
		if r.kind == 'r' || r.kind == 'w' {
			plain[r.at] = true
		}
	}
	tn := map[uint64]int{}
	ln, on := map[unsafe.Pointer]int{}, map[unsafe.Pointer]int{}
	num := func(m map[unsafe.Pointer]int, p unsafe.Pointer) int {
		if m[p] == 0 {
			m[p] = len(m) + 1
		}
		return m[p]
	}
	type key struct {
		g uint64
		k byte
		p unsafe.Pointer
	}
	seen := map[key]int{} // when last accessed, in epochs of the goroutine
	epoch := map[uint64]int{}
	for _, r := range log {
		if tn[r.g] == 0 {
			tn[r.g] = len(tn) + 1
		}
		e := RaceEvent{T: tn[r.g]}
		switch r.kind {
		case 'r', 'w', 'R', 'W':
			u := loc[r.at]
			if !u.many || !u.wr || !plain[r.at] {
				continue
			}
			k := key{r.g, r.kind, r.at}
			if n, ok := seen[k]; ok && n == epoch[r.g] {
				continue
			}
			seen[k] = epoch[r.g]
			e.K = map[byte]string{'r': "rd", 'w': "wr", 'R': "ard", 'W': "awr"}[r.kind]
			e.X = num(ln, r.at)
			if f, _ := runtime.CallersFrames([]uintptr{r.pc}).Next(); f.File != "" {
				i := len(f.File) - 1
				for i > 0 && f.File[i-1] != '/' {
					i--
				}
				e.At = f.File[i:] + ":" + itoa(f.Line)
			}
		case 'a', 'l':
			if !obj[r.at].many {
				continue
			}
			epoch[r.g]++
			e.K = map[byte]string{'a': "acq", 'l': "rel"}[r.kind]
			e.X = num(on, r.at)
		case 'f', 's', 'e':
			epoch[r.g]++
			e.K = map[byte]string{'f': "fork", 's': "start", 'e': "join"}[r.kind]
		}
		evs = append(evs, e)
	}
	// forks with nobody starting, and starts, acquires and so on after the last access, make no difference
	last := len(evs)
	for last > 0 && evs[last-1].K != "rd" && evs[last-1].K != "wr" && evs[last-1].K != "ard" && evs[last-1].K != "awr" {
		last--
	}
	return evs[:last], len(tn), len(ln), len(on)
}

func itoa(n int) string {
	if n < 10 {
		return string(rune('0' + n))
	}
	return itoa(n/10) + string(rune('0'+n%10))
}

func gid() uint64 {
	var b [40]byte
	n := uint64(0)
	for _, c := range b[len("goroutine "):runtime.Stack(b[:], false)] {
		if c < '0' || c > '9' {
			break
		}
		n = n*10 + uint64(c-'0')
	}
	return n
}

// add appends records of the calling goroutine. race is locked.
func add(kind byte, ps ...unsafe.Pointer) {
	g := gid()
	if !race.known[g] {
		race.known[g] = true
		k := byte('e')
		if race.forks > 0 {
			race.forks--
			k = 's'
		}
		race.log = append(race.log, rec{g: g, kind: k})
	}
	var pc [1]uintptr
	if kind == 'r' || kind == 'w' {
		runtime.Callers(4, pc[:])
	}
	for _, p := range ps {
		race.log = append(race.log, rec{g, kind, p, pc[0]})
	}
}

func note(kind byte, p unsafe.Pointer, keep any) {
	if !race.on {
		return
	}
	race.Lock()
	if race.on {
		if keep != nil {
			race.keep = append(race.keep, keep)
		}
		add(kind, p)
	}
	race.Unlock()
}

// Acq: what comes now comes after the releases of p so far.
func Acq(p unsafe.Pointer) { note('a', p, nil) }

// Rel: what came before comes before the acquires of p to come.
func Rel(p unsafe.Pointer) { note('l', p, nil) }

// AtomicRd and AtomicWr are atomic accesses to p.
func AtomicRd(p unsafe.Pointer) {
	if race.on {
		note('R', p, nil)
		note('a', p, nil)
	}
}

func AtomicWr(p unsafe.Pointer) {
	if race.on {
		note('W', p, nil)
		note('a', p, nil)
		note('l', p, nil)
	}
}

// Fork: a goroutine is about to be started.
func Fork() {
	if !race.on {
		return
	}
	race.Lock()
	if race.on {
		add('f', nil)
		race.forks++
	}
	race.Unlock()
}

var leafCache = map[reflect.Type][]uintptr{}

// leaves are the offsets of the parts of a value of type t that are accessed as a unit.
func leaves(t reflect.Type) []uintptr {
	if l, ok := leafCache[t]; ok {
		return l
	}
	var l []uintptr
	switch t.Kind() {
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			for _, o := range leaves(t.Field(i).Type) {
				l = append(l, t.Field(i).Offset+o)
			}
		}
	case reflect.Array:
		for i := 0; i < t.Len() && i < 64; i++ {
			for _, o := range leaves(t.Elem()) {
				l = append(l, uintptr(i)*t.Elem().Size()+o)
			}
		}
	default:
		l = []uintptr{0}
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	leafCache[t] = l
	return l
}

func access[T any](kind byte, p *T) {
	if !race.on || p == nil {
		return
	}
	race.Lock()
	if race.on {
		race.keep = append(race.keep, p)
		for _, o := range leaves(reflect.TypeOf(p).Elem()) {
			add(kind, unsafe.Add(unsafe.Pointer(p), o))
		}
	}
	race.Unlock()
}

// Rd: *p is read.
func Rd[T any](p *T) *T { access('r', p); return p }

// Wr: *p is written.
func Wr[T any](p *T) *T { access('w', p); return p }

// Set assigns to *p.
func Set[T any](p *T) func(T) {
	return func(v T) { *p = v; access('w', p) }
}

func mapAt[M any](m *M) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(m)) }

// MapRd: m is read.
func MapRd[M ~map[K]V, K comparable, V any](m M) M {
	if m != nil {
		note('r', mapAt(&m), m)
	}
	return m
}

// MapWr: m is written.
func MapWr[M ~map[K]V, K comparable, V any](m M) M {
	if m != nil {
		note('w', mapAt(&m), m)
	}
	return m
}

// MapSet assigns to m[k].
func MapSet[M ~map[K]V, K comparable, V any](m M) func(K) func(V) {
	return func(k K) func(V) {
		return func(v V) {
			if m != nil {
				note('w', mapAt(&m), m)
			}
			m[k] = v
		}
	}
}

// Elems: the elements of s are read.
func Elems[S ~[]E, E any](s S) S {
	if race.on {
		for i := range s {
			access('r', &s[i])
		}
	}
	return s
}

// Copy is copy.
func Copy[T any](dst, src []T) int {
	if race.on {
		for i := 0; i < len(dst) && i < len(src); i++ {
			access('r', &src[i])
			access('w', &dst[i])
		}
	}
	return copy(dst, src)
}

// CopyStr is copy.
func CopyStr[T ~string](dst []byte, src T) int {
	if race.on {
		for i := 0; i < len(dst) && i < len(src); i++ {
			access('w', &dst[i])
		}
	}
	return copy(dst, src)
}

// Append is append.
func Append[S ~[]E, E any](s S, e ...E) S {
	n := len(s)
	r := append(s, e...)
	if race.on {
		if n+len(e) > cap(s) {
			Elems(s)
		} else {
			for i := n; i < len(r); i++ {
				access('w', &r[i])
			}
		}
	}
	return r
}

func chanAt[C any](c C) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c)) }

// Recv receives from c.
func Recv[T any](c <-chan T) T {
	Rel(chanAt(c))
	v := <-c
	Acq(chanAt(c))
	return v
}

// Recv2 receives from c.
func Recv2[T any](c <-chan T) (T, bool) {
	Rel(chanAt(c))
	v, ok := <-c
	Acq(chanAt(c))
	return v, ok
}

// Send sends to c.
func Send[T any](c chan<- T) func(T) {
	return func(v T) {
		Rel(chanAt(c))
		c <- v
		Acq(chanAt(c))
	}
}

// RelDone: c is about to be closed.
func RelDone(c <-chan struct{}) { Rel(chanAt(c)) }

// Close closes c.
func Close[T any](c chan<- T) {
	Rel(chanAt(c))
	close(c)
}

// Sel: c is channel number i of a select statement.
func Sel[C any](i int, c C) C {
	if !race.on {
		return c
	}
	p := chanAt(c)
	g := gid()
	race.Lock()
	if i == 0 {
		race.sel[g] = nil
	}
	race.sel[g] = append(race.sel[g], p)
	race.Unlock()
	if p != nil {
		Rel(p)
	}
	return c
}

// Selected: the case with channel number i was chosen.
func Selected(i int) {
	if !race.on {
		return
	}
	g := gid()
	race.Lock()
	var p unsafe.Pointer
	if i < len(race.sel[g]) {
		p = race.sel[g][i]
	}
	race.Unlock()
	if p != nil {
		Acq(p)
	}
}

// Ranged: there is a loop over c.
func Ranged[C any](c C) C {
	if race.on {
		g := gid()
		race.Lock()
		race.rng[g] = append(race.rng[g], chanAt(c))
		race.Unlock()
		Rel(chanAt(c))
	}
	return c
}

func ranged(f func(unsafe.Pointer)) {
	if !race.on {
		return
	}
	g := gid()
	race.Lock()
	ps := append([]unsafe.Pointer{}, race.rng[g]...)
	race.Unlock()
	for _, p := range ps {
		f(p)
	}
}

// AcqAll and RelAll are for all channels that the goroutine loops over.
func AcqAll() { ranged(Acq) }
func RelAll() { ranged(Rel) }
