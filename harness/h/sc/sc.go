// Package sc runs tasks on the code under test under a schedule that it controls.
package sc

import (
	"math/rand"
	"os"
	"runtime"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/miniLCT/gosb/zverif/vsched"
	"verifh/tr"
)

// Main runs body in a synctest bubble.
func Main(body func()) {
	tr.Setup()
	testing.Main(func(string, string) (bool, error) { return true, nil }, []testing.InternalTest{{
		Name: "driver",
		F: func(t *testing.T) {
			synctest.Test(t, func(t *testing.T) {
				defer tr.Guard()
				body()
				tr.Finish()
				os.Exit(0)
			})
		},
	}}, nil, nil)
}

// Result says how a schedule went.
type Result struct {
	Stuck   bool // a task could not finish
	Steps   int
	Leaked  int // goroutines left over although nothing prevents them from ending
	Choices []Choice
}

// Choice is one scheduling decision.
type Choice struct {
	N, Picked int
	Tids      []int
	Prev      int // index of the goroutine that ran before, or -1
}

// Picker decides which goroutine continues: the index in ps.
type Picker func(ps []*vsched.P, prev int, step int) int

// Opt are the options of a run.
type Opt struct {
	MaxSteps int
	// IdleAdvance is by how much time advances when nothing can run, IdleMax how often.
	IdleAdvance time.Duration
	IdleMax     int
	// TickEvery: advance time by Tick with probability 1/TickEvery at a step.
	TickEvery int
	Tick      time.Duration
	Rng       *rand.Rand
	Record    bool
	// OnStep is called when nothing runs, after each step.
	OnStep func()
	// Settle: after the tasks have finished, let what they started finish as well.
	Settle bool
	// Idle is called when nothing can run; it returns true if it has changed that.
	Idle func() bool
}

var advance time.Duration

// Advance lets time pass while all tasks stay where they are; tasks call it between operations.
func Advance(d time.Duration) {
	vsched.Y()
	advance = d
	vsched.Y()
}

// Run runs the tasks under a schedule. Call it in the bubble.
func Run(tasks []func(), pick Picker, o Opt) Result {
	if o.MaxSteps == 0 {
		o.MaxSteps = 20000
	}
	var res Result
	var mu sync.Mutex
	left := len(tasks)
	finished := func() bool { mu.Lock(); defer mu.Unlock(); return left == 0 }
	base := runtime.NumGoroutine()
	vsched.Start()
	if tr.Race {
		vsched.RaceStart()
	}
	for i, t := range tasks {
		go func() {
			vsched.RaceTask()
			vsched.ParkAs(i + 1)
			defer func() {
				mu.Lock()
				left--
				mu.Unlock()
				if r := recover(); r != nil {
					if _, ok := r.(vsched.Killed); !ok {
						panic(r)
					}
				}
			}()
			t()
		}()
		synctest.Wait()
	}
	tr.Busy(true, tr.Ev{"k": "run", "op": "run"})
	prevTid := 0
	idle := 0
	for {
		synctest.Wait()
		if o.OnStep != nil {
			o.OnStep()
		}
		if advance > 0 {
			time.Sleep(advance)
			advance = 0
			continue
		}
		if finished() && !o.Settle {
			break
		}
		ps := vsched.Runnable()
		if len(ps) == 0 {
			if o.Idle != nil && o.Idle() {
				continue
			}
			if finished() && runtime.NumGoroutine() <= base {
				break
			}
			if idle < o.IdleMax {
				idle++
				time.Sleep(o.IdleAdvance)
				continue
			}
			res.Stuck = !finished()
			break
		}
		if o.TickEvery > 0 && o.Rng.Intn(o.TickEvery) == 0 {
			time.Sleep(o.Tick)
			continue
		}
		prev := -1
		for i, p := range ps {
			if p.Tid == prevTid && prevTid != 0 {
				prev = i
			}
		}
		k := pick(ps, prev, res.Steps)
		if k < 0 || k >= len(ps) {
			k = 0
		}
		if o.Record {
			tids := make([]int, len(ps))
			for i, p := range ps {
				tids[i] = p.Tid
			}
			res.Choices = append(res.Choices, Choice{len(ps), k, tids, prev})
		}
		prevTid = ps[k].Tid
		vsched.Resume(ps[k])
		res.Steps++
		if res.Steps > o.MaxSteps {
			res.Stuck = true
			break
		}
	}
	tr.Busy(false, nil)
	synctest.Wait()
	if n := runtime.NumGoroutine() - base; n > 0 && finished() {
		res.Leaked = n
	}
	vsched.Stop()
	if tr.Race {
		evs, threads, locs, objs := vsched.RaceStop()
		// a state of the specification has clocks of threads for each thread and object
		cost := len(evs) * threads * (threads + objs + 4*locs)
		if raceCost += cost; cost > 200e6 || raceCost > 1500e6 {
			raceCost -= cost
			tr.Extra["too large for races"]++
			return res
		}
		l := make([]tr.Ev, 0, len(evs))
		for _, e := range evs {
			x := tr.Ev{"k": e.K, "t": e.T, "x": e.X}
			if e.At != "" {
				x["at"] = e.At
			}
			l = append(l, x)
		}
		tr.Write(tr.Ev{"threads": threads, "locs": locs, "objs": objs}, l)
	}
	return res
}

var raceCost int

// Uniform picks any goroutine.
func Uniform(r *rand.Rand) Picker {
	return func(ps []*vsched.P, prev, step int) int { return r.Intn(len(ps)) }
}

// Sticky stays with the same goroutine but switches with probability 1/n.
func Sticky(r *rand.Rand, n int) Picker {
	return func(ps []*vsched.P, prev, step int) int {
		if prev >= 0 && r.Intn(n) != 0 {
			return prev
		}
		return r.Intn(len(ps))
	}
}

// PCT runs the task with the highest priority; at d random steps the priority of the one running drops.
func PCT(r *rand.Rand, tasks, d, length int) Picker {
	prio := map[int]int{}
	for i, p := range r.Perm(tasks) {
		prio[i+1] = d + 1 + p
	}
	change := map[int]int{}
	for i := 0; i < d; i++ {
		change[r.Intn(length)] = i
	}
	return func(ps []*vsched.P, prev, step int) int {
		best := 0
		for i, p := range ps {
			if _, ok := prio[p.Tid]; !ok { // started by the code under test
				prio[p.Tid] = d + 1 + r.Intn(tasks+10)
			}
			if prio[p.Tid] > prio[ps[best].Tid] {
				best = i
			}
		}
		if c, ok := change[step]; ok {
			prio[ps[best].Tid] = c
			for i, p := range ps {
				if prio[p.Tid] > prio[ps[best].Tid] {
					best = i
				}
			}
		}
		return best
	}
}

// Any returns a random strategy.
func Any(r *rand.Rand, tasks, length int) Picker {
	switch r.Intn(6) {
	case 0:
		return Uniform(r)
	case 1:
		return Sticky(r, 2+r.Intn(12))
	default:
		return PCT(r, tasks, 1+r.Intn(3), length)
	}
}

// Explore runs one scenario under every schedule with at most maxPreempt
// preemptions (or maxRuns of them). run gets a picker and must run the scenario
// anew with Opt.Record set. It reports whether all schedules were run.
func Explore(maxPreempt, maxRuns int, run func(Picker) Result) (runs int, complete bool) {
	type node struct {
		n, picked, dflt int
		pre             int // preemptions before this choice
		tried           []bool
	}
	var path []node
	for runs < maxRuns {
		depth := len(path)
		res := run(func(ps []*vsched.P, prev, step int) int {
			if step < depth {
				return path[step].picked
			}
			return dflt(prev)
		})
		runs++
		// extend the path with the default choices made
		pre := 0
		for i, c := range res.Choices {
			d := dflt(c.Prev)
			if d >= c.N {
				d = 0
			}
			if i >= depth {
				nd := node{n: c.N, picked: c.Picked, dflt: d, pre: pre, tried: make([]bool, c.N)}
				nd.tried[c.Picked] = true
				path = append(path, nd)
			}
			if c.Prev >= 0 && c.Picked != c.Prev {
				pre++
			}
			if i < depth {
				path[i].pre = preBefore(res.Choices, i)
			}
		}
		if len(path) > len(res.Choices) {
			path = path[:len(res.Choices)]
		}
		// backtrack
		found := false
		for len(path) > 0 && !found {
			i := len(path) - 1
			nd := &path[i]
			c := res.Choices[i]
			for k := 0; k < nd.n && k < c.N; k++ {
				if nd.tried[k] {
					continue
				}
				cost := 0
				if c.Prev >= 0 && k != c.Prev {
					cost = 1
				}
				if nd.pre+cost > maxPreempt {
					continue
				}
				nd.tried[k] = true
				nd.picked = k
				found = true
				break
			}
			if !found {
				path = path[:i]
			}
		}
		if !found {
			return runs, true
		}
	}
	return runs, false
}

func dflt(prev int) int {
	if prev >= 0 {
		return prev
	}
	return 0
}

func preBefore(cs []Choice, i int) int {
	n := 0
	for _, c := range cs[:i] {
		if c.Prev >= 0 && c.Picked != c.Prev {
			n++
		}
	}
	return n
}

// H records a concurrent history.
type H struct {
	Now func() int // if set, calls are recorded with the time of their return

	mu  sync.Mutex
	evs []tr.Ev
}

// Call records the call of an operation, runs it, and records its return. What
// it returned is also put into the event of the call, for the checker to know in advance.
func (h *H) Call(t int, op string, args tr.Ev, f func() any) {
	e := tr.Ev{"k": "call", "t": t, "op": op, "done": 0, "p": 0, "res": 0}
	for k, v := range args {
		e[k] = v
	}
	h.mu.Lock()
	h.evs = append(h.evs, e)
	h.mu.Unlock()
	p, res := TryKill(f)
	h.mu.Lock()
	e["done"], e["p"], e["res"] = 1, p, res
	if h.Now != nil {
		e["till"] = h.Now()
	}
	h.evs = append(h.evs, tr.Ev{"k": "ret", "t": t})
	h.mu.Unlock()
}

// TryKill is tr.Try, except that a crash is passed on.
func TryKill(f func() any) (p int, res any) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(vsched.Killed); ok {
				panic(r)
			}
			p, res = tr.Panic, 0
		}
	}()
	return tr.Ok, f()
}

// Add records an event.
func (h *H) Add(e tr.Ev) {
	h.mu.Lock()
	h.evs = append(h.evs, e)
	h.mu.Unlock()
}

// Emit writes the history as a trace.
func (h *H) Emit(cfg tr.Ev, stuck bool) {
	tr.Begin(cfg)
	for _, e := range h.evs {
		tr.Add(e)
	}
	tr.Add(tr.Ev{"k": "end", "t": 0, "stuck": tr.B(stuck)})
	tr.End()
}

// Events are the events recorded.
func (h *H) Events() []tr.Ev {
	h.mu.Lock()
	defer h.mu.Unlock()
	return append([]tr.Ev(nil), h.evs...)
}
