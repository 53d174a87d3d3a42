// Package tr records what the code under test does as traces, which the runner
// has TLC check against the specification.
package tr

import (
	"bufio"
	"context"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"sync"
	"time"
)

// Ev is an event (or a configuration).
type Ev = map[string]any

// Outcomes of an operation: it returned, it panicked, it did not return (within
// the time limit, or because the process died).
const (
	Ok    = 0
	Panic = 1
	Hang  = 2
)

var (
	Seed     int64
	Thorough bool
	Race     bool // record memory accesses instead of histories
	Prop     string
	Shard    int
	Shards   int
	Rng      *rand.Rand

	out     *bufio.Writer
	outFile *os.File
	journal *os.File
	mu      sync.Mutex
	cfg     Ev
	evs     []Ev
	seen    = map[[32]byte]bool{}

	// Stats
	Traces, Distinct, Ops int
	Extra                 = map[string]int{}

	progress int64
	busy     bool
	current  Ev
)

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// Scale returns q in the quick tier and t in the thorough one.
func Scale(q, t int) int {
	if Race { // one schedule shows most races of a program
		q, t = (q+15)/16, (t+15)/16
	}
	if Thorough {
		return t
	}
	return q
}

// Mine reports whether case number i belongs to this shard.
func Mine(i int) bool { return i%Shards == Shard }

type ctxKey struct{}

// ctxs are contexts of every kind; the library hands them on and does nothing else with them.
var ctxs = func() (l []context.Context) {
	bg := context.Background()
	done, cancel := context.WithCancel(bg)
	cancel()
	late, cancel2 := context.WithDeadline(context.WithValue(bg, ctxKey{}, "late"), time.Unix(1, 0))
	cancel2()
	value := context.WithValue(bg, ctxKey{}, "value")
	open, _ := context.WithCancel(value)
	cause, cancel3 := context.WithCancelCause(value)
	cancel3(fmt.Errorf("cause"))
	return []context.Context{bg, bg, done, late, value, open, cause, context.TODO()}
}()

// Ctx is a context that depends on the arguments only.
func Ctx(of ...any) context.Context {
	h := fnv.New32a()
	fmt.Fprint(h, Seed, of)
	return ctxs[h.Sum32()>>8%uint32(len(ctxs))]
}

// SameCtx reports whether c was derived from x, or is x.
func SameCtx(c, x context.Context) bool {
	return c != nil && c.Value(ctxKey{}) == x.Value(ctxKey{}) && c.Err() == x.Err()
}

// Setup reads the environment.
func Setup() {
	s, _ := strconv.ParseInt(env("VERIF_SEED", "1"), 10, 64)
	Seed = s
	Thorough = env("VERIF_TIER", "quick") == "thorough"
	Race = env("VERIF_RACE", "") != ""
	Prop = env("VERIF_PROP", "")
	Shard, _ = strconv.Atoi(env("VERIF_SHARD", "0"))
	Shards, _ = strconv.Atoi(env("VERIF_SHARDS", "1"))
	Rng = rand.New(rand.NewSource(Seed*1000003 + int64(Shard)*7919 + 17))
	f, err := os.Create(env("VERIF_OUT", "/dev/stdout"))
	if err != nil {
		panic(err)
	}
	outFile = f
	out = bufio.NewWriterSize(f, 1<<20)
	if j := os.Getenv("VERIF_JOURNAL"); j != "" {
		journal, err = os.Create(j)
		if err != nil {
			panic(err)
		}
	}
	go watchdog()
}

// realNow is not faked by synctest: the watchdog runs outside any bubble.
func watchdog() {
	limit, _ := strconv.Atoi(env("VERIF_HANG", "20"))
	last, since := int64(-1), time.Now()
	for {
		time.Sleep(200 * time.Millisecond)
		mu.Lock()
		if progress != last || !busy {
			last, since = progress, time.Now()
		} else if time.Since(since) > time.Duration(limit)*time.Second {
			if os.Getenv("VERIF_STACKS") != "" {
				b := make([]byte, 1<<20)
				os.Stderr.Write(b[:runtime.Stack(b, true)])
			}
			e := Ev{}
			for k, v := range current {
				e[k] = v
			}
			e["p"], e["res"] = Hang, 0
			evs = append(evs, e)
			flushLocked()
			Extra["hang"]++
			finishLocked()
			os.Exit(0)
		}
		mu.Unlock()
	}
}

// Begin starts a trace.
func Begin(c Ev) {
	mu.Lock()
	cfg, evs = c, nil
	progress++
	mu.Unlock()
	if journal != nil {
		b, _ := json.Marshal(c)
		journal.Truncate(0)
		journal.Seek(0, 0)
		fmt.Fprintf(journal, "%s\n", b)
	}
}

// Busy says that code under test runs (on) or not: the watchdog only counts that time.
func Busy(on bool, e Ev) {
	mu.Lock()
	busy, current = on, e
	progress++
	mu.Unlock()
	if on && journal != nil {
		b, _ := json.Marshal(e)
		fmt.Fprintf(journal, "%s\n", b)
	}
}

// Journal notes a finished event, in case the process dies later in this trace.
func note(e Ev) {
	if journal != nil {
		b, _ := json.Marshal(e)
		fmt.Fprintf(journal, "+%s\n", b)
	}
}

// Do runs an operation and records it with its outcome and result.
func Do(op string, args Ev, f func() any) (p int, res any) {
	e := Ev{"op": op}
	for k, v := range args {
		e[k] = v
	}
	Busy(true, e)
	p, res = Try(f)
	Busy(false, nil)
	e["p"], e["res"] = p, res
	mu.Lock()
	evs = append(evs, e)
	Ops++
	mu.Unlock()
	note(e)
	return p, res
}

// Try runs f and reports whether it panicked.
func Try(f func() any) (p int, res any) {
	defer func() {
		if r := recover(); r != nil {
			if os.Getenv("VERIF_STACKS") != "" {
				b := make([]byte, 1<<14)
				fmt.Fprintf(os.Stderr, "panic: %v\n%s\n", r, b[:runtime.Stack(b, false)])
			}
			p, res = Panic, 0
		}
	}()
	return Ok, f()
}

// Add records an event as it is.
func Add(e Ev) {
	mu.Lock()
	evs = append(evs, e)
	Ops++
	mu.Unlock()
	note(e)
}

// Len is the number of events recorded in this trace.
func Len() int { return len(evs) }

// End finishes the trace.
func End() {
	mu.Lock()
	flushLocked()
	mu.Unlock()
}

// Drop forgets the trace.
func Drop() { evs = nil }

func flushLocked() {
	if Race {
		evs = nil
		progress++
		return
	}
	writeLocked()
}

// Write writes a trace that is not an ordinary one.
func Write(c Ev, l []Ev) {
	mu.Lock()
	defer mu.Unlock()
	oc, oe := cfg, evs
	cfg, evs = c, l
	Ops += len(l)
	writeLocked()
	cfg, evs = oc, oe
}

func writeLocked() {
	Traces++
	if evs == nil {
		evs = []Ev{}
	}
	b, err := json.Marshal(Ev{"cfg": cfg, "ev": evs})
	if err != nil {
		panic(err)
	}
	h := sha256.Sum256(b)
	if !seen[h] {
		seen[h] = true
		Distinct++
		out.Write(b)
		out.WriteByte('\n')
	}
	evs = nil
	progress++
}

func finishLocked() {
	Extra["traces"], Extra["distinct"], Extra["ops"] = Traces, Distinct, Ops
	b, _ := json.Marshal(Ev{"stats": Extra})
	out.Write(b)
	out.WriteByte('\n')
	out.Flush()
	outFile.Close()
}

// Finish writes everything out.
func Finish() {
	mu.Lock()
	finishLocked()
	mu.Unlock()
}

// Main runs a driver that is not concurrent.
func Main(body func()) {
	Setup()
	defer Guard()
	body()
	Finish()
}

// Guard, deferred by a driver, says that a panic is the driver's own.
func Guard() {
	if r := recover(); r != nil {
		b := make([]byte, 1<<14)
		fmt.Fprintf(os.Stderr, "verif-driver: %v\n%s\n", r, b[:runtime.Stack(b, false)])
		os.Exit(3)
	}
}

// B is a bool as a number.
func B(b bool) int {
	if b {
		return 1
	}
	return 0
}

// Ints is never nil.
func Ints[T ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint8 | ~uint16 | ~uint32](s []T) []int {
	r := make([]int, len(s))
	for i, v := range s {
		r[i] = int(v)
	}
	return r
}

// Bytes as numbers.
func Bytes(s string) []int { return Ints([]byte(s)) }

// Bools as numbers.
func Bools(s []bool) []int {
	r := make([]int, len(s))
	for i, v := range s {
		r[i] = B(v)
	}
	return r
}

// Sizes are sizes of large cases, beyond what limits and buffers usually are.
func Sizes() []int {
	if Thorough {
		return []int{33, 70, 140, 270, 530, 1050, 2100, 4200}
	}
	return []int{33, 70, 140, 270, 530, 1050, 4200}
}
