// Package vsync stands in for sync in instrumented code: the same operations,
// each a scheduling point, blocking only through the scheduler.
package vsync

import (
	"sync"
	"unsafe"
	"verifharness/vsched"
)

type (
	Locker = sync.Locker
)

// Mutex is sync.Mutex.
type Mutex struct{ m sync.Mutex }

func (m *Mutex) id() uintptr { return uintptr(unsafe.Pointer(m)) }

func (m *Mutex) Lock() {
	vsched.S()
	for vsched.Active() {
		if m.m.TryLock() {
			return
		}
		vsched.Block(m.id())
	}
	m.m.Lock()
}

func (m *Mutex) TryLock() bool {
	vsched.S()
	return m.m.TryLock()
}

func (m *Mutex) Unlock() {
	m.m.Unlock()
	vsched.Wake(m.id())
	vsched.S()
}

// RWMutex is sync.RWMutex.
type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) id() uintptr { return uintptr(unsafe.Pointer(m)) }

func (m *RWMutex) Lock() {
	vsched.S()
	for vsched.Active() {
		if m.m.TryLock() {
			return
		}
		vsched.Block(m.id())
	}
	m.m.Lock()
}

func (m *RWMutex) TryLock() bool  { vsched.S(); return m.m.TryLock() }
func (m *RWMutex) TryRLock() bool { vsched.S(); return m.m.TryRLock() }

func (m *RWMutex) Unlock() {
	m.m.Unlock()
	vsched.Wake(m.id())
	vsched.S()
}

func (m *RWMutex) RLock() {
	vsched.S()
	for vsched.Active() {
		if m.m.TryRLock() {
			return
		}
		vsched.Block(m.id())
	}
	m.m.RLock()
}

func (m *RWMutex) RUnlock() {
	m.m.RUnlock()
	vsched.Wake(m.id())
	vsched.S()
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// Once is sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues is sync.OnceValues.
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// Pool is a sync.Pool that always hands out what was put back last. Handing an
// object out happens after putting that object back.
type Pool struct {
	New func() any
	l   [64]slot
	n   int
}

type slot struct {
	m sync.Mutex
	v any
}

//go:norace
//go:noinline
func (p *Pool) pop() (s *slot, v any) {
	if p.n == 0 {
		return nil, nil
	}
	p.n--
	s = &p.l[p.n]
	return s, s.v
}

//go:norace
//go:noinline
func (p *Pool) top() *slot { return &p.l[p.n] }

//go:norace
//go:noinline
func (p *Pool) full() bool { return p.n == len(p.l) }

//go:norace
//go:noinline
func (p *Pool) push(s *slot, v any) {
	s.v = v
	p.n++
}

func (p *Pool) Get() any {
	vsched.S()
	if s, v := p.pop(); s != nil {
		s.m.Lock()
		s.m.Unlock()
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v any) {
	if v == nil || p.full() {
		return
	}
	s := p.top()
	s.m.Lock()
	s.m.Unlock()
	p.push(s, v)
	vsched.S()
}

// Map is sync.Map.
type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool)           { vsched.S(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { vsched.S(); m.m.Store(k, v); vsched.S() }
func (m *Map) LoadOrStore(k, v any) (any, bool) { vsched.S(); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { vsched.S(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { vsched.S(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { vsched.S(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool  { vsched.S(); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool   { vsched.S(); return m.m.CompareAndDelete(k, o) }
func (m *Map) Range(f func(k, v any) bool)      { vsched.S(); m.m.Range(f) }
func (m *Map) Clear()                           { vsched.S(); m.m.Range(func(k, _ any) bool { m.m.Delete(k); return true }) }

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	m sync.Mutex
	n int
	w sync.WaitGroup
}

func (w *WaitGroup) Add(d int) {
	w.m.Lock()
	w.n += d
	n := w.n
	w.m.Unlock()
	w.w.Add(d)
	if n == 0 {
		vsched.Wake(uintptr(unsafe.Pointer(w)))
	}
	vsched.S()
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsched.Go(func() { defer w.Done(); f() })
}

func (w *WaitGroup) Wait() {
	vsched.S()
	for vsched.Active() {
		w.m.Lock()
		n := w.n
		w.m.Unlock()
		if n == 0 {
			break
		}
		vsched.Block(uintptr(unsafe.Pointer(w)))
	}
	w.w.Wait()
}

// Cond is sync.Cond; a signal wakes every waiter, which sync.Cond allows for.
type Cond struct {
	L Locker
	c *sync.Cond
}

func NewCond(l Locker) *Cond { return &Cond{L: l, c: sync.NewCond(l)} }

func (c *Cond) Wait() {
	if !vsched.Active() {
		c.c.Wait()
		return
	}
	c.L.Unlock()
	vsched.Block(uintptr(unsafe.Pointer(c)))
	c.L.Lock()
}

func (c *Cond) Signal()    { vsched.Wake(uintptr(unsafe.Pointer(c))); c.c.Signal(); vsched.S() }
func (c *Cond) Broadcast() { vsched.Wake(uintptr(unsafe.Pointer(c))); c.c.Broadcast(); vsched.S() }
