// Package vsched is the cooperative scheduler that instrumented code runs
// under. Every goroutine parks at Y (before each statement) or in Block (a lock
// it cannot have yet); the controller, which runs in a synctest bubble, lets one
// of them continue at a time. A goroutine blocked in a channel operation is not
// parked: it comes back by itself when the channel operation completes.
package vsched

import (
	"runtime"
	"sync"
)

// P is one parked goroutine.
type P struct {
	Tid  int // the task it belongs to as far as known, 0 if not
	Seq  int
	Lock bool // waits for a lock
	Last bool // waits until nothing else can run
	cond func() bool
	ch   chan struct{}
}

var (
	mu     sync.Mutex
	on     bool
	parked []*P
	cur    int
	seq    int
	killed bool
)

// ByGoroutine: a task is a goroutine, for code that starts goroutines itself.
var ByGoroutine bool
var ids map[uint64]int

func tid() int {
	if !ByGoroutine {
		return cur
	}
	var b [40]byte
	n := uint64(0)
	for _, c := range b[len("goroutine "):runtime.Stack(b[:], false)] {
		if c < '0' || c > '9' {
			break
		}
		n = n*10 + uint64(c-'0')
	}
	if ids[n] == 0 {
		ids[n] = len(ids) + 1
	}
	return ids[n]
}

// Killed is what a goroutine panics with after Kill.
type Killed struct{}

func park(cond func() bool) {
	mu.Lock()
	if !on {
		mu.Unlock()
		if cond != nil && !cond() {
			panic("verif: lock would never be released")
		}
		return
	}
	seq++
	p := &P{Tid: tid(), Seq: seq, cond: cond, Lock: cond != nil, ch: make(chan struct{})}
	parked = append(parked, p)
	mu.Unlock()
	<-p.ch
	if killed {
		panic(Killed{})
	}
}

// fresh: the goroutine running has passed a Y since it last did anything shared.
var fresh bool

// Hook, if set, is called at every point at which something could happen.
var Hook func()

// Y is a point at which the scheduler may switch: instrumented code calls it
// before each statement.
func Y() {
	if Hook != nil {
		Hook()
	}
	if !on {
		return
	}
	park(nil)
	fresh = true
}

// Op is Y for the shims, just before an operation; there is no need to switch
// again if the statement the operation is in has just done so.
func Op() {
	if !on {
		return
	}
	if fresh {
		fresh = false
		return
	}
	park(nil)
}

// Block waits until cond holds. cond is evaluated while nothing else runs.
func Block(cond func() bool) { park(cond) }

// Quiet waits until nothing else can run (except after time has passed).
func Quiet() {
	mu.Lock()
	if !on {
		mu.Unlock()
		return
	}
	seq++
	p := &P{Tid: tid(), Seq: seq, Last: true, ch: make(chan struct{})}
	parked = append(parked, p)
	mu.Unlock()
	<-p.ch
	if killed {
		panic(Killed{})
	}
}

// On reports whether the scheduler is in control.
func On() bool { return on }

// Start puts the scheduler in control.
func Start() {
	mu.Lock()
	on, parked, cur, seq, killed = true, nil, 0, 0, false
	ids = map[uint64]int{}
	mu.Unlock()
}

// Stop ends the control; parked goroutines stay parked for ever.
func Stop() {
	mu.Lock()
	on = false
	parked = nil
	mu.Unlock()
}

// Free ends the control and lets all parked goroutines run freely.
func Free() {
	mu.Lock()
	on = false
	ps := parked
	parked = nil
	mu.Unlock()
	for _, p := range ps {
		close(p.ch)
	}
}

// Runnable returns the parked goroutines that can continue.
// Only call it when everything else is blocked.
func Runnable() []*P {
	mu.Lock()
	defer mu.Unlock()
	var r []*P
	for _, p := range parked {
		if !p.Last && (p.cond == nil || p.cond()) {
			r = append(r, p)
		}
	}
	for _, p := range parked {
		if p.Last && len(r) == 0 {
			r = append(r, p)
		}
	}
	return r
}

// Parked returns how many goroutines are parked.
func Parked() int {
	mu.Lock()
	defer mu.Unlock()
	return len(parked)
}

// Resume lets p continue.
func Resume(p *P) {
	mu.Lock()
	for i, q := range parked {
		if p == q {
			parked = append(parked[:i], parked[i+1:]...)
			break
		}
	}
	cur = p.Tid
	mu.Unlock()
	close(p.ch)
}

// SetTid names the task that the calling goroutine is; call it first thing.
func SetTid(t int) {
	mu.Lock()
	cur = t
	mu.Unlock()
}

// ParkAs parks the calling goroutine as the start of task t.
func ParkAs(t int) {
	mu.Lock()
	seq++
	if ByGoroutine {
		t = tid()
	}
	p := &P{Tid: t, Seq: seq, ch: make(chan struct{})}
	parked = append(parked, p)
	mu.Unlock()
	<-p.ch
}

// Kill makes every goroutine that continues from now on panic: a crash.
func Kill() {
	mu.Lock()
	killed = true
	mu.Unlock()
}

// IsKilled reports whether Kill was called since Start.
func IsKilled() bool { return killed }
