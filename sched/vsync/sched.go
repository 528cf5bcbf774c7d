// Package verifsync stands in for package sync, letting a scheduler decide which thread continues at each operation.
//
// Outside of Run it behaves like package sync. The scheduler itself is hidden from the race detector, so that only the
// synchronisation of the program under test orders its memory accesses.
package verifsync

import (
	"runtime/debug"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"
)

const (
	maxThreads = 8
	maxSteps   = 1 << 16
	maxStreak  = 600
)

// thread states
const (
	unused = iota
	ready
	blocked // waiting for on
	done
)

type thread struct {
	id     int
	goid   uint64
	state  int
	on     unsafe.Pointer
	ch     chan struct{}
	out    bool // blocked in something the scheduler doesn't know
	panicv any
	stack  []byte
}

// Decision is a scheduling decision.
type Decision struct {
	N       int // alternatives
	Chosen  int
	Preempt bool // alternatives other than 0 are preemptions
}

type exec struct {
	th        [maxThreads]thread
	n         int
	cur       int // holder of the token
	live      int
	prefix    []int
	dec       []Decision // fixed capacity
	nd        int
	points    int
	diverged  bool
	deadlock  bool
	aborting  bool
	tooLong   bool
	fin       chan struct{}
	yields    int
	streak    int // points in a row of the same thread while others are ready
	progress  uint64
	outsiders int
}

var (
	active atomic.Bool
	ex     *exec
	decBuf = make([]Decision, maxSteps)
	// Reset functions of package level state, called before each execution.
	resets []func()
)

type abortT struct{}

// self is the controlled thread that calls, or nil.
//
//go:norace
func self() *thread {
	raceOff()
	on := active.Load()
	raceOn()
	if !on {
		return nil
	}
	e := ex
	if e == nil {
		return nil
	}
	g := goid()
	if e.cur >= 0 && e.th[e.cur].goid == g {
		return &e.th[e.cur]
	}
	for i := 0; i < e.n; i++ {
		if e.th[i].goid == g && e.th[i].state != done {
			return &e.th[i]
		}
	}
	return nil
}

// Point is a scheduling point.
//
//go:norace
func Point() {
	t := self()
	if t == nil {
		return
	}
	point(t)
}

//go:norace
func point(t *thread) {
	e := ex
	if e.aborting {
		return
	}
	raceOff()
	e.progress++
	e.points++
	if t.out || e.cur != t.id { // was taken for blocked: queue up
		t.out = false
		t.state = ready
		e.outsiders--
		if e.cur < 0 {
			e.cur = t.id
		} else {
			<-t.ch
		}
		raceOn()
		if e.aborting {
			panic(abortT{})
		}
		return
	}
	if next := e.choose(t.id); next != t.id {
		e.switchTo(t, next)
	}
	raceOn()
	if e.aborting {
		panic(abortT{})
	}
}

// switchTo passes the token and waits for it to return.
//
//go:norace
func (e *exec) switchTo(t *thread, next int) {
	e.cur = next
	e.th[next].ch <- struct{}{}
	<-t.ch
}

// choose decides which thread continues; cur is not among the alternatives unless it's ready.
//
//go:norace
func (e *exec) choose(cur int) int {
	var alt [maxThreads]int
	n := 0
	preempt := cur >= 0 && e.th[cur].state == ready
	if preempt {
		alt[0] = cur
		n = 1
	}
	for i := 0; i < e.n; i++ {
		if i != cur && e.th[i].state == ready && !e.th[i].out {
			alt[n] = i
			n++
		}
	}
	if n == 0 {
		return -1
	}
	if n == 1 {
		return alt[0]
	}
	// a thread that keeps polling has to let others go on
	if preempt {
		if e.streak++; e.streak > maxStreak {
			e.streak = 0
			e.yields++
			return alt[1+e.yields%(n-1)]
		}
	} else {
		e.streak = 0
	}
	if e.nd >= maxSteps {
		e.tooLong = true
		return alt[0]
	}
	c := 0
	if e.nd < len(e.prefix) {
		c = e.prefix[e.nd]
		if c >= n {
			c = 0
			e.diverged = true
		}
	}
	d := &e.dec[e.nd]
	d.N, d.Chosen, d.Preempt = n, c, preempt
	e.nd++
	if c > 0 {
		e.streak = 0
	}
	return alt[c]
}

// block waits until woken.
//
//go:norace
func block(t *thread, on unsafe.Pointer) {
	e := ex
	if e.aborting {
		panic(abortT{})
	}
	raceOff()
	e.progress++
	e.points++
	if t.out || e.cur != t.id {
		t.out = false
		e.outsiders--
	}
	t.state, t.on = blocked, on
	next := e.choose(-1)
	if next < 0 {
		e.cur = -1
		if e.outsiders == 0 {
			e.stuck()
		}
		<-t.ch
	} else {
		if e.cur == t.id || e.cur < 0 {
			e.switchTo(t, next)
		} else {
			<-t.ch
		}
	}
	raceOn()
	if e.aborting {
		panic(abortT{})
	}
}

// stuck handles that no thread can continue: a foreign goroutine may still wake one, so that is left to the controller.
//
//go:norace
func (e *exec) stuck() { e.deadlock = true }

// wake makes the threads ready that wait for on.
//
//go:norace
func wake(on unsafe.Pointer) {
	raceOff()
	if active.Load() {
		e := ex
		for i := 0; i < e.n; i++ {
			if t := &e.th[i]; t.state == blocked && t.on == on {
				t.state, t.on = ready, nil
				e.deadlock = false
			}
		}
	}
	raceOn()
}

// Result of an execution.
type Result struct {
	Decisions []Decision // valid until the next execution
	Points    int
	Deadlock  bool
	Diverged  bool
	Outside   bool // a thread blocked in something the scheduler doesn't control
	Panics    []string
}

// OnReset registers what makes package level state like new.
func OnReset(f func()) { resets = append(resets, f) }

// Reset makes the package level state like new.
func Reset() {
	for _, f := range resets {
		f()
	}
}

// Run executes the threads under the decisions of prefix, followed by never switching without need.
//
//go:norace
func Run(prefix []int, fs ...func()) *Result {
	Reset()
	e := &exec{prefix: prefix, dec: decBuf, fin: make(chan struct{}, 1), cur: -1, n: len(fs), live: len(fs)}
	var wg sync.WaitGroup
	started := make(chan struct{})
	ex = e
	for i, f := range fs {
		t := &e.th[i]
		t.id, t.ch, t.state = i, make(chan struct{}, 1), ready
		wg.Add(1)
		go e.thread(t, f, started, &wg)
		<-started
	}
	raceOff()
	active.Store(true)
	first := e.choose(-1)
	e.cur = first
	e.th[first].ch <- struct{}{}
	raceOn() // the timer needs its own synchronisation
	out := false
	seen := uint64(0)
	tm := time.NewTimer(25 * time.Millisecond)
	idle := 0
loop:
	for {
		select {
		case <-e.fin:
			break loop
		case <-tm.C:
			if e.progress == seen && e.live > 0 {
				idle++
				if e.deadlock && idle >= 40 || idle > 400 {
					e.deadlock = true
					e.aborting = true
					for i := 0; i < e.n; i++ {
						if e.th[i].state == blocked || e.th[i].state == ready {
							raceOff()
							select {
							case e.th[i].ch <- struct{}{}:
							default:
							}
							raceOn()
						}
					}
					// threads blocked for good outside are left behind
					select {
					case <-e.fin:
					case <-time.After(time.Second):
					}
					break loop
				}
				// The holder of the token is blocked elsewhere, or no thread is ready: let another one go on.
				if c := e.cur; c >= 0 && e.th[c].state == ready && !e.th[c].out {
					other := -1
					for i := 0; i < e.n; i++ {
						if i != c && e.th[i].state == ready && !e.th[i].out {
							other = i
							break
						}
					}
					if other >= 0 {
						out = true
						e.th[c].out = true
						e.outsiders++
						e.cur = other
						raceOff()
						e.th[other].ch <- struct{}{}
						raceOn()
					}
				} else if c < 0 {
					for i := 0; i < e.n; i++ {
						if e.th[i].state == ready && !e.th[i].out {
							e.cur = i
							raceOff()
							e.th[i].ch <- struct{}{}
							raceOn()
							break
						}
					}
				}
			} else {
				idle = 0
			}
			seen = e.progress
			tm.Reset(25 * time.Millisecond)
		}
	}
	tm.Stop()
	raceOff()
	active.Store(false)
	raceOn()
	res := &Result{Decisions: e.dec[:e.nd], Points: e.points, Deadlock: e.deadlock, Diverged: e.diverged, Outside: out}
	for i := 0; i < e.n; i++ {
		if t := &e.th[i]; t.panicv != nil {
			res.Panics = append(res.Panics, sprint(t.panicv)+"\n"+string(t.stack))
		}
	}
	if !e.deadlock {
		wg.Wait()
	}
	return res
}

//go:norace
func (e *exec) thread(t *thread, f func(), started chan struct{}, wg *sync.WaitGroup) {
	defer wg.Done()
	t.goid = goid()
	started <- struct{}{}
	raceOff()
	<-t.ch
	raceOn()
	call(t, f)
	raceOff()
	e.progress++
	wasOut := t.out || e.cur != t.id
	if wasOut {
		t.out = false
		e.outsiders--
	}
	t.state = done
	e.live--
	if e.live == 0 {
		e.fin <- struct{}{}
	} else if !e.aborting && (!wasOut || e.cur < 0) {
		next := e.choose(-1)
		e.cur = next
		if next >= 0 {
			e.th[next].ch <- struct{}{}
		} else if e.outsiders == 0 {
			e.stuck()
		}
	}
	raceOn()
}

func call(t *thread, f func()) {
	defer func() {
		if v := recover(); v != nil {
			if _, ok := v.(abortT); !ok {
				t.panicv, t.stack = v, debug.Stack()
			}
		}
	}()
	f()
}

func sprint(v any) string {
	switch v := v.(type) {
	case error:
		return v.Error()
	case string:
		return v
	}
	return "panic"
}

// Controlled tells if the caller is a thread of an execution.
func Controlled() bool { return self() != nil }
