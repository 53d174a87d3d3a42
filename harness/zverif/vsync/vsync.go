// Package vsync has the API of package sync, with locks that the scheduler controls.
package vsync

import (
	"sync"
	"sync/atomic"
	"unsafe"

	"github.com/miniLCT/gosb/zverif/vsched"
)

type Locker = sync.Locker

// Cond is sync.Cond.
type Cond struct {
	L    Locker
	real sync.Cond
	once sync.Once
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	c.once.Do(func() { c.real.L = c.L })
	c.real.Wait()
	vsched.Acq(unsafe.Pointer(c))
}
func (c *Cond) Signal()    { vsched.Rel(unsafe.Pointer(c)); c.real.Signal() }
func (c *Cond) Broadcast() { vsched.Rel(unsafe.Pointer(c)); c.real.Broadcast() }

// WaitGroup is sync.WaitGroup.
type WaitGroup struct{ real sync.WaitGroup }

func (w *WaitGroup) Add(n int) { vsched.Rel(unsafe.Pointer(w)); w.real.Add(n) }
func (w *WaitGroup) Done()     { vsched.Rel(unsafe.Pointer(w)); w.real.Done() }
func (w *WaitGroup) Wait()     { w.real.Wait(); vsched.Acq(unsafe.Pointer(w)) }
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsched.Fork()
	go func() { defer w.Done(); f() }()
}

// Pool is sync.Pool.
type Pool struct {
	New  func() any
	real sync.Pool
}

func (p *Pool) Get() any {
	defer vsched.Acq(unsafe.Pointer(p))
	if x := p.real.Get(); x != nil {
		return x
	}
	if p.New == nil {
		return nil
	}
	return p.New()
}
func (p *Pool) Put(x any) {
	if x != nil {
		vsched.Rel(unsafe.Pointer(p))
		p.real.Put(x)
	}
}

// Map is sync.Map.
type Map struct{ real sync.Map }

func (m *Map) rel() { vsched.Op(); vsched.Rel(unsafe.Pointer(m)) }
func (m *Map) acq() { vsched.Acq(unsafe.Pointer(m)) }

func (m *Map) Load(k any) (any, bool) { m.rel(); defer m.acq(); return m.real.Load(k) }
func (m *Map) Store(k, v any)         { m.rel(); defer m.acq(); m.real.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.rel()
	defer m.acq()
	return m.real.LoadOrStore(k, v)
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.rel()
	defer m.acq()
	return m.real.LoadAndDelete(k)
}
func (m *Map) Delete(k any)              { m.rel(); defer m.acq(); m.real.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool) { m.rel(); defer m.acq(); return m.real.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.rel()
	defer m.acq()
	return m.real.CompareAndSwap(k, o, n)
}
func (m *Map) CompareAndDelete(k, o any) bool {
	m.rel()
	defer m.acq()
	return m.real.CompareAndDelete(k, o)
}
func (m *Map) Range(f func(k, v any) bool) {
	m.real.Range(func(k, v any) bool { m.acq(); return f(k, v) })
	m.acq()
}

func (m *Map) Clear() { m.rel(); defer m.acq(); m.real.Clear() }

// OnceFunc and the like: a panic is repeated.
func OnceFunc(f func()) func() {
	var o Once
	var bad bool
	var p any
	return func() {
		o.Do(func() {
			bad = true
			defer func() {
				if p = recover(); bad {
					panic(p)
				}
			}()
			f()
			bad = false
		})
		if bad {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var v T
	o := OnceFunc(func() { v = f() })
	return func() T { o(); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var v T
	var u U
	o := OnceFunc(func() { v, u = f() })
	return func() (T, U) { o(); return v, u }
}

// Mutex is sync.Mutex. While the scheduler is not in control it is a real one.
type Mutex struct {
	held bool
	real sync.Mutex
}

func (m *Mutex) Lock() {
	vsched.Op()
	defer vsched.Acq(unsafe.Pointer(m))
	if m.held {
		vsched.Block(func() bool { return !m.held })
	}
	if !vsched.On() {
		m.real.Lock()
		return
	}
	m.held = true
}

func (m *Mutex) TryLock() bool {
	vsched.Op()
	if m.held {
		return false
	}
	if !vsched.On() {
		return m.real.TryLock()
	}
	m.held = true
	vsched.Acq(unsafe.Pointer(m))
	return true
}

func (m *Mutex) Unlock() {
	vsched.Rel(unsafe.Pointer(m))
	if m.held {
		m.held = false
		return
	}
	if vsched.On() && m.real.TryLock() {
		panic("sync: unlock of unlocked mutex")
	}
	m.real.Unlock()
}

// RWMutex is sync.RWMutex: a waiting writer holds back new readers, and the
// readers waiting when it unlocks go before the next writer.
type RWMutex struct {
	w       bool // a writer holds or waits for the readers to leave
	ann     bool // readers have to wait
	r       int
	waiting []*bool
	real    sync.RWMutex
}

func (m *RWMutex) RLock() {
	vsched.Op()
	defer vsched.Acq(unsafe.Pointer(&m.w))
	if m.ann {
		g := new(bool)
		m.waiting = append(m.waiting, g)
		vsched.Block(func() bool { return *g })
		return
	}
	if !vsched.On() {
		m.real.RLock()
		return
	}
	m.r++
}

func (m *RWMutex) TryRLock() bool {
	vsched.Op()
	if m.ann {
		return false
	}
	if !vsched.On() {
		return m.real.TryRLock()
	}
	vsched.Acq(unsafe.Pointer(&m.w))
	m.r++
	return true
}

func (m *RWMutex) RUnlock() {
	vsched.Rel(unsafe.Pointer(&m.r))
	if m.r > 0 {
		m.r--
		return
	}
	if vsched.On() {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.real.RUnlock()
}

func (m *RWMutex) Lock() {
	vsched.Op()
	defer m.acq()
	if m.w {
		vsched.Block(func() bool { return !m.w })
	}
	if !vsched.On() {
		if m.r > 0 {
			vsched.Block(func() bool { return false })
		}
		m.real.Lock()
		return
	}
	m.w = true
	m.ann = true
	if m.r > 0 {
		vsched.Block(func() bool { return m.r == 0 })
	}
}

func (m *RWMutex) TryLock() bool {
	vsched.Op()
	if m.w || m.r > 0 {
		return false
	}
	if !vsched.On() {
		return m.real.TryLock()
	}
	m.w, m.ann = true, true
	m.acq()
	return true
}

func (m *RWMutex) acq() {
	vsched.Acq(unsafe.Pointer(&m.w))
	vsched.Acq(unsafe.Pointer(&m.r))
}

func (m *RWMutex) Unlock() {
	vsched.Rel(unsafe.Pointer(&m.w))
	if !m.w && !vsched.On() {
		m.real.Unlock()
		return
	}
	if !m.w || m.r > 0 {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.ann = false
	for _, g := range m.waiting {
		*g = true
		m.r++
	}
	m.waiting = nil
	m.w = false
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once is sync.Once.
type Once struct {
	m    Mutex
	done atomic.Bool
}

func (o *Once) Do(f func()) {
	vsched.Op()
	defer vsched.Acq(unsafe.Pointer(o))
	if o.done.Load() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done.Load() {
		defer func() { vsched.Rel(unsafe.Pointer(o)); o.done.Store(true) }()
		f()
	}
}
