package verifsync

import (
	"sync"
	"sync/atomic"
	"unsafe"
)

// Locker is sync.Locker.
type Locker = sync.Locker

// Mutex is a sync.Mutex.
type Mutex struct{ m sync.Mutex }

func (m *Mutex) Lock() {
	t := self()
	if t == nil {
		m.m.Lock()
		return
	}
	point(t)
	for !m.m.TryLock() {
		if ex.aborting {
			return
		}
		block(t, unsafe.Pointer(m))
	}
}

func (m *Mutex) TryLock() bool {
	Point()
	return m.m.TryLock()
}

func (m *Mutex) Unlock() {
	t := self()
	if t != nil && ex.aborting {
		return
	}
	m.m.Unlock()
	wake(unsafe.Pointer(m))
	if t != nil {
		point(t)
	}
}

// RWMutex is a sync.RWMutex.
type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) Lock() {
	t := self()
	if t == nil {
		m.m.Lock()
		return
	}
	point(t)
	for !m.m.TryLock() {
		if ex.aborting {
			return
		}
		block(t, unsafe.Pointer(m))
	}
}

func (m *RWMutex) RLock() {
	t := self()
	if t == nil {
		m.m.RLock()
		return
	}
	point(t)
	for !m.m.TryRLock() {
		if ex.aborting {
			return
		}
		block(t, unsafe.Pointer(m))
	}
}

func (m *RWMutex) TryLock() bool {
	Point()
	return m.m.TryLock()
}

func (m *RWMutex) TryRLock() bool {
	Point()
	return m.m.TryRLock()
}

func (m *RWMutex) Unlock() {
	t := self()
	if t != nil && ex.aborting {
		return
	}
	m.m.Unlock()
	wake(unsafe.Pointer(m))
	if t != nil {
		point(t)
	}
}

func (m *RWMutex) RUnlock() {
	t := self()
	if t != nil && ex.aborting {
		return
	}
	m.m.RUnlock()
	wake(unsafe.Pointer(m))
	if t != nil {
		point(t)
	}
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker of the read lock.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once is a sync.Once.
type Once struct {
	done atomic.Uint32
	m    Mutex
}

// Do calls f the first time.
func (o *Once) Do(f func()) {
	Point()
	if o.done.Load() == 1 {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if o.done.Load() == 0 {
		defer o.done.Store(1)
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	g := OnceValue(func() struct{} { f(); return struct{}{} })
	return func() { g() }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	g := OnceValues(func() (T, struct{}) { return f(), struct{}{} })
	return func() T { v, _ := g(); return v }
}

// OnceValues is sync.OnceValues. Those made while packages initialise are like new in each execution.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	type state struct {
		once Once
		v1   T1
		v2   T2
		ok   bool
		p    any
	}
	s := new(state)
	if !started.Load() {
		OnReset(func() { s = new(state) })
	}
	return func() (T1, T2) {
		s := s
		s.once.Do(func() {
			defer func() {
				if !s.ok {
					s.p = recover()
				}
			}()
			s.v1, s.v2 = f()
			s.ok = true
		})
		if !s.ok {
			panic(s.p)
		}
		return s.v1, s.v2
	}
}

var started atomic.Bool

// Start tells that packages have been initialised.
func Start() { started.Store(true) }

// WaitGroup is a sync.WaitGroup.
type WaitGroup struct {
	w sync.WaitGroup
	n atomic.Int64
}

func (w *WaitGroup) Add(n int) {
	Point()
	w.n.Add(int64(n))
	w.w.Add(n)
	wake(unsafe.Pointer(w))
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	go func() {
		defer w.Done()
		f()
	}()
}

func (w *WaitGroup) Wait() {
	if t := self(); t != nil {
		point(t)
		for w.n.Load() > 0 {
			block(t, unsafe.Pointer(w))
		}
	}
	w.w.Wait()
}

// Cond is a sync.Cond.
type Cond struct {
	L  Locker
	m  sync.Mutex
	ws []*condWaiter
}

type condWaiter struct {
	ok atomic.Bool
	ch chan struct{}
}

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	w := &condWaiter{ch: make(chan struct{}, 1)}
	c.m.Lock()
	c.ws = append(c.ws, w)
	c.m.Unlock()
	c.L.Unlock()
	if t := self(); t != nil {
		for !w.ok.Load() {
			block(t, unsafe.Pointer(c))
		}
	} else {
		<-w.ch
	}
	c.L.Lock()
}

func (c *Cond) signal(n int) {
	Point()
	c.m.Lock()
	for ; n > 0 && len(c.ws) > 0; n-- {
		c.ws[0].ok.Store(true)
		c.ws[0].ch <- struct{}{}
		c.ws = c.ws[1:]
	}
	c.m.Unlock()
	wake(unsafe.Pointer(c))
}

func (c *Cond) Signal()    { c.signal(1) }
func (c *Cond) Broadcast() { c.signal(1 << 30) }

// Map is a sync.Map.
type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool)           { Point(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { Point(); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { Point(); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { Point(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { Point(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { Point(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool  { Point(); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool   { Point(); return m.m.CompareAndDelete(k, o) }
func (m *Map) Range(f func(k, v any) bool)      { Point(); m.m.Range(f) }
func (m *Map) Clear()                           { Point(); m.m.Clear() }

// Pool is a sync.Pool that never drops anything (up to a limit), and returns what was put last.
type Pool struct {
	New  func() any
	lock atomic.Uint32
	reg  bool
	n    int
	it   [64]poolItem
}

type poolItem struct {
	v  any
	hb *int // orders what happened before the Put before what happens after the Get
}

//go:norace
func (p *Pool) acquire() {
	for !p.lock.CompareAndSwap(0, 1) {
		pause()
	}
}

//go:norace
func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	Point()
	it := poolItem{v, new(int)}
	raceRelease(unsafe.Pointer(it.hb))
	raceOff()
	p.acquire()
	if !p.reg {
		p.reg = true
		OnReset(func() { p.drop() })
	}
	if p.n < len(p.it) {
		p.it[p.n].v, p.it[p.n].hb = it.v, it.hb
		p.n++
	}
	p.lock.Store(0)
	raceOn()
	Point()
}

//go:norace
func (p *Pool) drop() {
	p.acquire()
	for i := range p.it {
		p.it[i].v, p.it[i].hb = nil, nil
	}
	p.n = 0
	p.lock.Store(0)
}

//go:norace
func (p *Pool) Get() any {
	Point()
	raceOff()
	p.acquire()
	var v any
	var hb *int
	if p.n > 0 {
		p.n--
		v, hb = p.it[p.n].v, p.it[p.n].hb
		p.it[p.n].v, p.it[p.n].hb = nil, nil
	}
	p.lock.Store(0)
	raceOn()
	if hb != nil {
		raceAcquire(unsafe.Pointer(hb))
	}
	if v == nil && p.New != nil {
		v = p.New()
	}
	return v
}
