// Driver for mr: C04 (success), C05 (cancel, context), C06 (panics), C07 (returning), C08 (ForEach, Finish),
// for AtomicError: C09, and for the pools: C32.
package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"runtime"
	"time"

	"github.com/miniLCT/gosb/gogenerics/gconcurrent/mr"
	"github.com/miniLCT/gosb/zverif/vsched"
	"verifh/sc"
	"verifh/tr"
)

func main() {
	switch tr.Setup(); tr.Prop {
	case "C09":
		sc.Main(atomicError)
	case "C32":
		sc.Main(pools)
	default:
		vsched.ByGoroutine = true
		sc.Main(mapReduce)
	}
}

// act is something that a function passed to mr does.
type act struct {
	kind byte // w: write v, c: cancel with error v, p: panic with v, y: yield, s: sleep, b: barrier, r: read (v = -1: all), o: offer an item, q: wait until nothing else can run
	v    int
}

type scenario struct {
	kind    string
	workers int // as given, 0: not given
	gen     []act
	maps    [][]act
	red     []act
	ctx     byte // 0: none, d: done from the start, s: a deadline, c: cancelled by a task, f: cancelled by a function passed
	ctxStep int
	barrier int
	srcCap  int
	twice   bool // options are given twice
	types   int  // which types items, values and results have
	closed  bool // the source channel is filled and closed beforehand
}

func (s *scenario) effective() int {
	switch {
	case s.kind == "finish" || s.kind == "finishvoid":
		return len(s.maps)
	case s.workers == noWorkers:
		return 16
	case s.workers < 1:
		return 1
	}
	return s.workers
}

const noWorkers = -100

type wrapped struct{ error }

func (w wrapped) Unwrap() error { return w.error }

type ptrErr struct{ n int }

func (e *ptrErr) Error() string { return fmt.Sprint("ptr", e.n) }

// the errors that user code cancels with: 1.. ; -1 stands for the package error for nil
var errs = []error{0: nil, 1: errors.New("e"), 2: errors.New("e"), 3: &ptrErr{3}, 4: wrapped{mr.ErrReduceNoOutput}, 5: mr.ErrReduceNoOutput,
	6: (*ptrErr)(nil), 7: context.DeadlineExceeded, 8: fmt.Errorf("x: %w", mr.ErrCancelWithNil), 9: context.Canceled}

func outcome(val int, err error) (string, int) {
	switch {
	case err == nil:
		return "val", val
	case err == mr.ErrCancelWithNil:
		return "err", 0
	}
	for i, e := range errs {
		if i > 0 && i != 5 && i != 7 && e == err {
			return "err", i
		}
	}
	if err == mr.ErrReduceNoOutput {
		return "none", 0
	}
	if err == context.DeadlineExceeded {
		return "dead", 0
	}
	return "err", 99
}

// panics that user code panics with: 1..
var panicErr = errors.New("panic")

type shape struct{ a, b int }

// panicKinds is the number of kinds of panics: those below are runtime errors, the others are values.
const panicKinds = 22

var panicVals = map[int]any{
	1: "one", 2: panicErr, 4: nil, 5: &ptrErr{5}, 8: mr.ErrCancelWithNil, 9: mr.ErrReduceNoOutput, 10: context.Canceled, 11: context.DeadlineExceeded,
	12: shape{1, 2}, 13: "", 14: 0, 15: false, 16: (*ptrErr)(nil), 17: []int{1}, 18: map[string]int{}, 19: func() {}, 20: wrapped{mr.ErrCancelWithNil}, 21: struct{}{}, 22: [2]any{nil, []int{}},
}

func doPanic(v int) {
	switch v {
	case 3:
		var m map[int]int
		m[1] = 1
	case 6:
		_ = panicVals[1].([]int)
	case 7:
		var p *shape
		p.a++
	}
	panic(panicVals[v])
}

// panicID says which of the panics x is the value of; 0: none of them.
func panicID(x any) int {
	switch x := x.(type) {
	case *runtime.PanicNilError:
		return 4
	case *runtime.TypeAssertionError:
		return 6
	case runtime.Error:
		if s := x.Error(); s == "assignment to entry in nil map" {
			return 3
		} else if s == "runtime error: invalid memory address or nil pointer dereference" {
			return 7
		}
		return 0
	case []int:
		if len(x) == 1 && x[0] == 1 {
			return 17
		}
		return 0
	case map[string]int:
		return 18
	case func():
		return 19
	case [2]any:
		return 22
	}
	for k, v := range panicVals {
		if k != 4 && (k < 17 || k == 20 || k == 21) && v == x {
			return k
		}
	}
	return 0
}

// code writes numbers as values of a type; 0 as its zero value.
type code[T any] struct {
	enc func(int) T
	dec func(T) int
}

type numErr int

func (e numErr) Error() string { return "number" }

type wide struct {
	pad [9]int
	n   int
}

// kit is what depends on the types of items, values and results; all the same here.
type kit interface {
	open(n int)
	send(i int)
	close()
	call(r *run, opts []mr.Option) (string, int)
}

type kitOf[T any] struct {
	code[T]
	source chan T
}

func newKit(kind int) kit {
	switch kind {
	case 1:
		return &kitOf[any]{code: code[any]{enc: func(i int) any {
			switch {
			case i == 0:
				return nil
			case i%2 == 0:
				return numErr(i)
			}
			return i
		}, dec: func(x any) int {
			switch v := x.(type) {
			case int:
				return v
			case numErr:
				return int(v)
			}
			return 0
		}}}
	case 2:
		return &kitOf[error]{code: code[error]{enc: func(i int) error {
			if i == 0 {
				return nil
			}
			return numErr(i)
		}, dec: func(e error) int {
			n, _ := e.(numErr)
			return int(n)
		}}}
	case 3:
		return &kitOf[wide]{code: code[wide]{enc: func(i int) wide { return wide{n: i} }, dec: func(w wide) int { return w.n }}}
	case 4:
		return &kitOf[*int]{code: code[*int]{enc: func(i int) *int {
			if i == 0 {
				return nil
			}
			return &i
		}, dec: func(p *int) int {
			if p == nil {
				return 0
			}
			return *p
		}}}
	}
	return &kitOf[int]{code: code[int]{enc: func(i int) int { return i }, dec: func(i int) int { return i }}}
}

const kitKinds = 5

// items are numbered from 1, and the first is the zero value
func (k *kitOf[T]) open(n int) { k.source = make(chan T, n) }
func (k *kitOf[T]) send(i int) { vsched.Send(k.source)(k.enc(i - 1)) }
func (k *kitOf[T]) close()     { vsched.Close(k.source) }

func (k *kitOf[T]) call(r *run, opts []mr.Option) (string, int) {
	generate := func(source chan<- T) { r.generate(func(i int) { vsched.Send(source)(k.enc(i - 1)) }) }
	mapper := func(x T, w mr.Writer[T], cancel func(error)) {
		r.mapper(k.dec(x)+1, func(v int) { w.Write(k.enc(v)) }, cancel)
	}
	reduce := func(pipe <-chan T, write func(int), cancel func(error)) {
		r.reduce(func() (int, bool) {
			u, ok := vsched.Recv2(pipe)
			return k.dec(u), ok
		}, write, cancel)
	}
	reducer := func(pipe <-chan T, w mr.Writer[T], cancel func(error)) {
		reduce(pipe, func(v int) { w.Write(k.enc(v)) }, cancel)
	}
	switch r.kind {
	case "mr":
		v, err := mr.MapReduce(generate, mapper, reducer, opts...)
		return outcome(k.dec(v), err)
	case "chan":
		v, err := mr.MapReduceChan(k.source, mapper, reducer, opts...)
		return outcome(k.dec(v), err)
	case "void":
		err := mr.MapReduceVoid(generate, mapper, func(pipe <-chan T, cancel func(error)) { reduce(pipe, nil, cancel) }, opts...)
		if err == nil {
			return "ok", 0
		}
		return voidOutcome(err)
	}
	mr.ForEach(generate, func(x T) { r.mapper(k.dec(x)+1, nil, nil) }, opts...)
	return "ok", 0
}

type run struct {
	*scenario
	kit
	h       *sc.H
	bar     chan struct{}
	arrived int
	cancel0 func()
	done    <-chan struct{}
}

func (r *run) ev(k string, i, v int) { r.h.Add(tr.Ev{"k": k, "i": i, "v": v}) }

func (r *run) common(a act, cancel func(error)) {
	switch a.kind {
	case 'y':
		vsched.Y()
	case 's':
		time.Sleep(time.Duration(a.v) * time.Millisecond)
	case 'p':
		r.ev("panic", 0, a.v)
		doPanic(a.v)
	case 'c':
		r.ev("cancel", 0, a.v)
		vsched.Y()
		cancel(errs[a.v])
		r.ev("cancelled", 0, a.v)
	case 'q':
		vsched.Quiet()
		r.ev("quiet", 0, 0)
	case 'x':
		r.expire()
	}
}

func (r *run) expire() {
	if r.cancel0 != nil {
		r.ev("ctx0", 0, 0)
		vsched.RelDone(r.done)
		r.cancel0()
		r.ev("ctx1", 0, 0)
	}
}

func (r *run) generate(send func(int)) {
	n := 0
	for _, a := range r.gen {
		vsched.Y()
		if a.kind == 'o' {
			n++
			r.ev("offer", n, 0)
			send(n)
		} else {
			r.common(a, nil)
		}
	}
	r.ev("genend", 0, 0)
}

// mapper is what the mapper does with item i.
func (r *run) mapper(i int, write func(int), cancel func(error)) {
	r.ev("mstart", i, 0)
	defer r.ev("mend", i, 0)
	var as []act
	if i >= 1 && i <= len(r.maps) {
		as = r.maps[i-1]
	}
	for _, a := range as {
		vsched.Y()
		switch a.kind {
		case 'w':
			r.ev("mwrite", i, a.v)
			write(a.v)
		case 'b':
			if r.arrived++; r.arrived == r.barrier {
				vsched.Close(r.bar)
			}
			vsched.Recv(r.bar)
		default:
			r.common(a, cancel)
		}
	}
}

func (r *run) reduce(read func() (int, bool), write func(int), cancel func(error)) {
	defer r.ev("rend", 0, 0)
	for _, a := range r.red {
		vsched.Y()
		switch a.kind {
		case 'r':
			for n := a.v; n != 0; n-- {
				u, ok := read()
				if !ok {
					r.ev("rclosed", 0, 0)
					break
				}
				r.ev("rread", 0, u)
			}
		case 'w':
			r.ev("rwrite", 0, a.v)
			write(a.v)
		default:
			r.common(a, cancel)
		}
	}
}

// call makes the call and returns how it ended.
func (r *run) call() (o string, v int) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(vsched.Killed); ok {
				panic(p)
			}
			o, v = "panic", panicID(p)
		}
	}()
	var opts []mr.Option
	if r.workers != noWorkers {
		if r.twice { // the last one counts
			opts = append(opts, mr.WithWorkers(7-r.workers))
		}
		opts = append(opts, mr.WithWorkers(r.workers))
	}
	if r.twice {
		c, f := context.WithCancel(context.Background())
		f()
		opts = append(opts, mr.WithContext(c))
		if r.ctx == 0 {
			opts = append(opts, mr.WithContext(context.Background()))
		}
	}
	switch r.ctx {
	case 'd', 'c', 'f':
		c, f := context.WithCancel(context.Background())
		r.cancel0, r.done = f, c.Done()
		if r.ctx == 'd' {
			r.expire()
		}
		opts = append(opts, mr.WithContext(c))
	case 's':
		c, f := context.WithTimeout(context.Background(), time.Duration(r.ctxStep)*time.Millisecond)
		defer f()
		r.ev("ctx0", 0, 0)
		opts = append(opts, mr.WithContext(c))
	}
	switch r.kind {
	case "finish":
		var fs []func() error
		for i := range r.maps {
			fs = append(fs, func() (err error) {
				// the last cancel is the error returned
				e := 0
				for _, a := range r.maps[i] {
					if a.kind == 'c' {
						e = a.v
					}
				}
				r.mapper(i+1, nil, func(error) {})
				return errs[e]
			})
		}
		err := mr.Finish(fs...)
		if err == nil {
			return "ok", 0
		}
		return voidOutcome(err)
	case "finishvoid":
		var fs []func()
		for i := range r.maps {
			fs = append(fs, func() { r.mapper(i+1, nil, nil) })
		}
		mr.FinishVoid(fs...)
		return "ok", 0
	}
	return r.kit.call(r, opts)
}

func voidOutcome(err error) (string, int) {
	if err == mr.ErrReduceNoOutput {
		return "err", 5
	}
	return outcome(0, err)
}

func (s *scenario) fns() bool { return s.kind == "finish" || s.kind == "finishvoid" }

func (s *scenario) run(pick sc.Picker, o sc.Opt) sc.Result {
	given := 0
	if s.fns() {
		given = len(s.maps)
	}
	cfg := tr.Ev{"prop": tr.Prop, "kind": s.kind, "workers": s.effective(), "given": given, "fns": tr.B(s.fns())}
	tr.Begin(cfg)
	r := &run{scenario: s, kit: newKit(s.types), h: &sc.H{}, bar: make(chan struct{})}
	tasks := []func(){func() {
		o, v := r.call()
		r.h.Add(tr.Ev{"k": "ret", "o": o, "v": v})
	}}
	if s.kind == "chan" {
		if s.closed {
			r.open(len(s.gen))
			for i := range s.gen {
				r.ev("offer", i+1, 0)
				r.send(i + 1)
			}
			r.ev("genend", 0, 0)
			r.close()
		} else {
			r.open(s.srcCap)
			tasks = append(tasks, func() { r.generate(r.send); r.close() })
		}
	}
	if s.ctx == 'c' {
		tasks = append(tasks, func() {
			for i := 0; i < s.ctxStep; i++ {
				vsched.Y()
			}
			r.expire()
		})
	}
	o.Settle, o.IdleAdvance, o.IdleMax, o.MaxSteps = true, 5*time.Millisecond, 1000, 50000+1000*len(s.maps)
	res := sc.Run(tasks, pick, o)
	// what has not been allowed to end is not recorded as such
	for _, e := range r.h.Events() {
		tr.Add(e)
	}
	tr.Add(tr.Ev{"k": "end", "stuck": tr.B(res.Stuck), "leaked": res.Leaked})
	tr.End()
	return res
}

func acts(r *rand.Rand, n int, kinds string, fresh *int) []act {
	as := []act{}
	for ; n > 0; n-- {
		k := kinds[r.Intn(len(kinds))]
		a := act{kind: k}
		switch k {
		case 'w':
			*fresh++
			a.v = *fresh
		case 'c':
			a.v = r.Intn(len(errs))
		case 'p':
			a.v = 1 + r.Intn(panicKinds)
		case 's':
			a.v = 1 + r.Intn(30)
		}
		as = append(as, a)
	}
	return as
}

// random makes a scenario; faults says which faults there may be: c (cancel), p (panic), x (context), 2 (several writes of the reducer)
func random(r *rand.Rand, kinds []string, faults string) *scenario {
	has := func(c byte) bool {
		for i := range faults {
			if faults[i] == c {
				return true
			}
		}
		return false
	}
	s := &scenario{kind: kinds[r.Intn(len(kinds))]}
	s.workers = []int{noWorkers, 1, 2, 3, 0, -5, 20, 1, 2}[r.Intn(9)]
	n := r.Intn(5)
	if r.Intn(12) == 0 {
		n = 14 + r.Intn(12)
	}
	fresh := -r.Intn(3) // the values written are all different, 0 may be among them
	s.twice = r.Intn(6) == 0
	s.types = max(0, r.Intn(2*kitKinds)-kitKinds)
	if s.fns() {
		n = max(n, 1)
	}
	// one or two faults, at a random place each
	type place struct{ where, i int } // 0: generator, 1: mapper, 2: reducer
	faulty := map[place][]act{}
	if faults != "" {
		for k := 1 + r.Intn(3); k > 0; k-- {
			f := faults[r.Intn(len(faults))]
			a := act{kind: f}
			p := place{r.Intn(3), 0}
			switch f {
			case 'c':
				a.v = r.Intn(len(errs))
				p.where = 1 + r.Intn(2)
			case 'p':
				a.v = 1 + r.Intn(panicKinds)
			case 'x':
				if s.ctx == 0 {
					s.ctx = "dcccs"[r.Intn(5)]
					s.ctxStep = r.Intn(40)
				}
				if s.ctx == 's' || s.ctx == 'd' || r.Intn(2) == 0 {
					continue
				}
				s.ctx = 'f'
			case '2':
				continue
			}
			if p.where == 1 && n > 0 {
				p.i = 1 + r.Intn(n)
			}
			faulty[p] = append(faulty[p], a)
		}
	}
	mix := func(as []act, fs []act) []act {
		for _, f := range fs {
			i := r.Intn(len(as) + 1)
			as = append(as[:i:i], append([]act{f}, as[i:]...)...)
		}
		return as
	}
	for i := 0; i < n; i++ {
		if r.Intn(6) == 0 {
			s.gen = append(s.gen, acts(r, 1, "ys", &fresh)...)
		}
		s.gen = append(s.gen, act{kind: 'o'})
	}
	s.gen = mix(s.gen, faulty[place{0, 0}])
	writes := s.kind == "mr" || s.kind == "chan" || s.kind == "void"
	for i := 0; i < n; i++ {
		ks := "yyys"
		if writes {
			ks = "wwwwyys"
		}
		as := acts(r, r.Intn(4), ks, &fresh)
		s.maps = append(s.maps, mix(as, faulty[place{1, i + 1}]))
	}
	if n > 0 && faults == "" && r.Intn(6) == 0 {
		for i := range s.maps {
			s.maps[i] = append([]act{{kind: 'q'}}, s.maps[i]...)
		}
	} else if n > 0 && faults == "" && r.Intn(3) == 0 {
		s.barrier = min(n, s.effective())
		for i := range s.maps {
			s.maps[i] = append([]act{{kind: 'b'}}, s.maps[i]...)
		}
	}
	if writes {
		switch r.Intn(8) {
		case 0:
		case 1:
			s.red = []act{{'r', r.Intn(4)}}
		default:
			s.red = []act{{'r', -1}}
		}
		if r.Intn(4) == 0 {
			s.red = mix(s.red, acts(r, 1, "ys", &fresh))
		}
		if s.kind != "void" {
			w := 1
			if r.Intn(8) == 0 {
				w = 0
			} else if has('2') && r.Intn(3) == 0 {
				w = 2 + r.Intn(2)
			}
			for ; w > 0; w-- {
				fresh++
				a := act{'w', fresh}
				if r.Intn(4) == 0 {
					s.red = mix(s.red, []act{a})
				} else {
					s.red = append(s.red, a)
				}
			}
		}
		s.red = mix(s.red, faulty[place{2, 0}])
	}
	if faults != "" && r.Intn(4) == 0 {
		q := []act{{kind: 'q'}}
		if s.red = mix(s.red, q); r.Intn(2) == 0 {
			s.gen = mix(s.gen, q)
		}
	}
	if s.kind == "chan" {
		// the sender is the caller's: it neither panics nor has faults
		var g []act
		for _, a := range s.gen {
			if a.kind != 'p' {
				g = append(g, a)
			}
		}
		s.gen = g
		s.srcCap = r.Intn(3)
		if s.closed = r.Intn(3) == 0; s.closed {
			s.gen = nil
			for i := 0; i < n; i++ {
				s.gen = append(s.gen, act{kind: 'o'})
			}
		}
	}
	if s.fns() {
		s.workers, s.ctx = noWorkers, 0
		s.gen = nil
	}
	if !writes || s.kind == "finish" {
		for i, as := range s.maps {
			var keep []act
			for _, a := range as {
				if a.kind == 'c' && (s.kind != "finish" || a.v == 0) {
					continue
				}
				keep = append(keep, a)
			}
			s.maps[i] = keep
		}
	}
	return s
}

func mapReduce() {
	kinds := []string{"mr", "mr", "chan", "void"}
	faults := ""
	switch tr.Prop {
	case "C05":
		faults = "cx2"
	case "C06":
		faults = "pppcx2"
	case "C07":
		kinds = []string{"mr", "mr", "chan", "void", "foreach", "finish", "finishvoid"}
		faults = "pcx2"
	case "C08":
		kinds = []string{"foreach", "foreach", "finish", "finish", "finishvoid"}
		faults = "pc"
	}
	if tr.Prop == "C06" {
		kinds = append(kinds, "foreach", "finish", "finishvoid")
	}
	r := tr.Rng
	// small calls under all schedules with few preemptions
	type small struct{ s *scenario }
	for i, s := range smalls() {
		if !tr.Mine(i) {
			continue
		}
		runs, complete := sc.Explore(tr.Scale(1, 2), tr.Scale(120, 6000), func(p sc.Picker) sc.Result { return s.run(p, sc.Opt{Record: true}) })
		tr.Extra["explored runs"] += runs
		if complete {
			tr.Extra["explored completely"]++
		}
	}
	for i := 0; i < 2*len(tr.Sizes()); i++ {
		if n := tr.Sizes()[i/2]; tr.Mine(i) && n < 2000 {
			large(r, n, kinds[r.Intn(len(kinds))], []string{"", faults}[i%2]).run(sc.Any(r, 4, 150), sc.Opt{Rng: r})
		}
	}
	if tr.Prop == "C04" || tr.Prop == "C08" || tr.Prop == "C07" {
		for i, w := range []int{noWorkers, -1, 0, 1, 2, 5, 15, 16, 17, 31, 32, 33, 64, 65, 127, 129, 200, 257, 300, noWorkers} {
			if tr.Mine(i) {
				for k := 0; k < 6; k++ {
					full(r, w, kinds[r.Intn(len(kinds))], k%2 == 0).run(sc.Any(r, 4, 150), sc.Opt{Rng: r})
				}
			}
		}
	}
	for i := 0; i < tr.Scale(4000, 200000)/tr.Shards; i++ {
		f := faults
		if r.Intn(8) == 0 {
			f = ""
		}
		s := random(r, kinds, f)
		for k := 0; k < 2; k++ {
			s.run(sc.Any(r, 4, 150), sc.Opt{Rng: r})
		}
	}
}

// full is a call with more items than workers, where mappers go on when no others can start: as many of them are
// running together as there can be. Or the mappers wait until as many of them are running as should be.
func full(r *rand.Rand, workers int, kind string, barrier bool) *scenario {
	s := &scenario{kind: kind, workers: workers}
	n := 0
	if s.fns() {
		n = 1 + r.Intn(40)
		s.workers = noWorkers
	} else {
		n = s.effective() + r.Intn(4)
	}
	writes := kind == "mr" || kind == "chan" || kind == "void"
	for i := 0; i < n; i++ {
		if !s.fns() {
			s.gen = append(s.gen, act{kind: 'o'})
		}
		as := []act{{kind: 'q'}}
		if barrier {
			as[0].kind, s.barrier = 'b', n
			if !s.fns() {
				s.barrier = min(n, s.effective())
			}
		}
		if writes {
			as = append(as, act{'w', i + 1})
		}
		s.maps = append(s.maps, as)
	}
	if writes {
		s.red = []act{{'r', -1}}
		if kind != "void" {
			s.red = append(s.red, act{'w', n + 1})
		}
	}
	return s
}

// large is a call with n items and n mappers, or a few; with a fault at the end of some of the calls.
func large(r *rand.Rand, n int, kind, faults string) *scenario {
	s := &scenario{kind: kind, workers: n}
	for i := 0; i < n; i++ {
		s.gen = append(s.gen, act{kind: 'o'})
		as := []act{}
		if s.kind == "mr" || s.kind == "chan" || s.kind == "void" {
			as = append(as, act{'w', i + 1})
		}
		s.maps = append(s.maps, as)
	}
	s.red = []act{{'r', -1}}
	if s.kind != "void" {
		s.red = append(s.red, act{'w', n + 1})
	}
	if s.kind == "foreach" || s.kind[0] == 'f' {
		s.red = nil
	}
	if s.kind[:2] == "fi" {
		s.workers, s.gen = noWorkers, nil
	} else if r.Intn(3) == 0 {
		s.workers = 1 + r.Intn(4)
	}
	if faults == "" {
		s.barrier = min(n, s.effective())
		for i := range s.maps {
			s.maps[i] = append([]act{{kind: 'b'}}, s.maps[i]...)
		}
		return s
	}
	switch f := faults[r.Intn(len(faults))]; {
	case f == 'p' || f == 'c' && s.kind != "foreach" && s.kind != "finishvoid":
		k := n - 1 - r.Intn(4)
		s.maps[k] = append(s.maps[k], act{f, 1 + r.Intn(3)})
	case f == 'x' && s.kind[:2] != "fi":
		s.ctx, s.ctxStep = 'c', r.Intn(4*n)
	}
	return s
}

// smalls are calls with up to two items and at most one fault or two.
func smalls() []*scenario {
	var l []*scenario
	all := act{'r', -1}
	item := act{kind: 'o'}
	w := func(v int) act { return act{'w', v} }
	c := func(v int) act { return act{'c', v} }
	p := func(v int) act { return act{'p', v} }
	add := func(s scenario) {
		switch tr.Prop {
		case "C08":
			if s.kind == "mr" {
				s.kind = "foreach"
			}
		}
		l = append(l, &s)
	}
	one, two := []act{item}, []act{item, item}
	maps1 := [][]act{{w(1)}, {w(2)}}
	switch tr.Prop {
	case "C04", "C08":
		if tr.Prop == "C08" {
			maps1 = [][]act{{{kind: 'y'}}, {}}
			for _, k := range []string{"finish", "finishvoid"} {
				add(scenario{kind: k, maps: maps1})
				add(scenario{kind: k, maps: [][]act{{{kind: 'b'}}, {{kind: 'b'}}}, barrier: 2})
				if k == "finish" {
					add(scenario{kind: k, maps: [][]act{{c(1)}, {c(2)}}})
					add(scenario{kind: k, maps: [][]act{{}, {c(4)}}})
				}
			}
		}
		for _, n := range []int{1, 2} {
			add(scenario{kind: "mr", workers: n, gen: two, maps: maps1, red: []act{all, w(3)}})
			add(scenario{kind: "mr", workers: n, gen: one, maps: maps1, red: []act{w(3), all}})
			add(scenario{kind: "mr", workers: n, gen: two, maps: maps1, red: []act{w(3)}})
		}
		add(scenario{kind: "mr", workers: 2, gen: two, maps: [][]act{{{kind: 'b'}}, {{kind: 'b'}}}, barrier: 2, red: []act{all, w(3)}})
	case "C05", "C06", "C07":
		for _, f := range []act{c(1), p(1), {kind: 'x'}} {
			ctx := byte(0)
			if f.kind == 'x' {
				ctx = 'f'
			}
			if f.kind == 'c' && tr.Prop == "C06" || f.kind == 'p' && tr.Prop == "C05" {
				continue
			}
			for _, n := range []int{1, 2} {
				add(scenario{kind: "mr", workers: n, ctx: ctx, gen: two, maps: [][]act{{f}, {w(2)}}, red: []act{all, w(3)}})
				add(scenario{kind: "mr", workers: n, ctx: ctx, gen: two, maps: [][]act{{w(1), f}, {w(2), w(4)}}, red: []act{{'r', 1}, w(3)}})
				add(scenario{kind: "mr", workers: n, ctx: ctx, gen: two, maps: maps1, red: []act{f, w(3)}})
				add(scenario{kind: "mr", workers: n, ctx: ctx, gen: one, maps: maps1, red: []act{w(3), f}})
				add(scenario{kind: "mr", workers: n, ctx: ctx, gen: two, maps: [][]act{{f}, {f}}, red: []act{w(3)}})
				if f.kind != 'c' {
					add(scenario{kind: "mr", workers: n, ctx: ctx, gen: []act{item, f, item}, maps: maps1, red: []act{all, w(3)}})
				}
			}
			if f.kind == 'p' {
				add(scenario{kind: "foreach", workers: 2, gen: two, maps: [][]act{{f}, {}}})
				add(scenario{kind: "foreach", workers: 1, gen: []act{item, f}, maps: [][]act{{}, {}}})
				add(scenario{kind: "mr", workers: 1, gen: one, maps: [][]act{{p(1)}}, red: []act{p(2)}})
			}
			add(scenario{kind: "mr", workers: 1, ctx: ctx, gen: one, maps: [][]act{{f}}, red: []act{w(3), w(4)}})
			if f.kind != 'p' {
				q := act{kind: 'q'}
				add(scenario{kind: "mr", workers: 1, ctx: ctx, gen: []act{item, q, q, q}, maps: [][]act{{f}}, red: []act{q, w(3), all}})
				add(scenario{kind: "mr", workers: 1, ctx: ctx, gen: []act{item, item, q}, maps: [][]act{{f}, {q}}, red: []act{q, w(3)}})
				add(scenario{kind: "void", workers: 1, ctx: ctx, gen: []act{item, item, q}, maps: [][]act{{f}, {q}}, red: []act{q}})
			}
		}
		add(scenario{kind: "mr", workers: 1, gen: one, maps: maps1, red: []act{w(3), w(4)}})
		add(scenario{kind: "void", workers: 1, gen: one, maps: [][]act{{c(5)}}, red: []act{all}})
		add(scenario{kind: "mr", workers: 1, gen: one, maps: [][]act{{c(1)}}, red: []act{c(2)}})
	}
	return l
}
