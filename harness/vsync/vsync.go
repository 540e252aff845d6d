// Package vsync stands in for package sync in the instrumented copy of the code under test.  Without an active
// scheduler the types behave like those of package sync; with one, every lock operation is a scheduling point.
package vsync

import (
	"runtime"
	real "sync"
	"time"
)

// Scheduler decides which goroutine proceeds.
type Scheduler interface {
	// Park blocks the calling goroutine until it is chosen to run, which happens only while cond holds.
	Park(kind string, cond func() bool)
	// Preempt says whether the running goroutine should be preempted before the next statement.
	Preempt() bool
	// Aborted is true when the run is being torn down.
	Aborted() bool
	// Runaway is called when a goroutine executed too many statements without blocking.
	Runaway()
}

var (
	active Scheduler
	ticks  int
)

// TickLimit bounds the statements executed between two scheduling decisions.
var TickLimit = 3_000_000

func SetScheduler(s Scheduler) { active = s; ticks = 0 }
func ResetTicks()              { ticks = 0 }

// T counts a statement.
func T() {
	ticks++
	if ticks > TickLimit {
		ticks = 0
		if active != nil {
			active.Runaway()
		} else {
			panic("runaway: statement limit exceeded")
		}
	}
}

// Y is a possible preemption before a statement.
func Y() {
	T()
	s := active
	if s == nil {
		return
	}
	if s.Aborted() {
		return
	}
	if s.Preempt() {
		s.Park("stmt", nil)
	}
}

// Point is an unconditional scheduling point.
func Point(kind string) {
	s := active
	if s == nil || s.Aborted() {
		return
	}
	s.Park(kind, nil)
}

func Gosched() { Point("gosched"); runtime.Gosched() }

// Mutex has the semantics of sync.Mutex: whoever comes may take a free lock, but a waiter that has waited for a
// millisecond is next.
type Mutex struct {
	r      real.Mutex
	locked bool
	queue  []*waiter
}

type waiter struct{ since time.Time }

func (m *Mutex) Lock() {
	s := active
	if s == nil {
		m.r.Lock()
		return
	}
	if s.Aborted() {
		return
	}
	w := &waiter{time.Now()}
	m.queue = append(m.queue, w)
	s.Park("lock", func() bool {
		if m.locked {
			return false
		}
		for _, x := range m.queue {
			if x == w {
				return true
			}
			if time.Since(x.since) >= time.Millisecond {
				return false
			}
		}
		return true
	})
	if !s.Aborted() {
		m.locked = true
		for i, x := range m.queue {
			if x == w {
				m.queue = append(m.queue[:i:i], m.queue[i+1:]...)
				break
			}
		}
	}
}

func (m *Mutex) TryLock() bool {
	s := active
	if s == nil {
		return m.r.TryLock()
	}
	if s.Aborted() {
		return true
	}
	s.Park("trylock", nil)
	if m.locked {
		return false
	}
	for _, x := range m.queue {
		if time.Since(x.since) >= time.Millisecond {
			return false
		}
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	s := active
	if s == nil {
		m.r.Unlock()
		return
	}
	if s.Aborted() {
		return
	}
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	s.Park("unlock", nil)
}

// RWMutex has the semantics of sync.RWMutex: a waiting writer holds back new readers, and the readers it held back
// come before the next writer.
type RWMutex struct {
	r       real.RWMutex
	w       Mutex
	writer  bool // a writer is waiting for the readers to leave, or writing
	readers int
	held    []*bool
}

func (m *RWMutex) Lock() {
	s := active
	if s == nil {
		m.r.Lock()
		return
	}
	if s.Aborted() {
		return
	}
	m.w.Lock()
	m.writer = true
	s.Park("wlock", func() bool { return m.readers == 0 })
}

func (m *RWMutex) Unlock() {
	s := active
	if s == nil {
		m.r.Unlock()
		return
	}
	if s.Aborted() {
		return
	}
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	for _, h := range m.held {
		*h = true
		m.readers++
	}
	m.held = nil
	m.w.Unlock()
}

func (m *RWMutex) RLock() {
	s := active
	if s == nil {
		m.r.RLock()
		return
	}
	if s.Aborted() {
		return
	}
	s.Park("rlock", nil)
	if !m.writer {
		m.readers++
		return
	}
	in := false
	m.held = append(m.held, &in)
	s.Park("rlock", func() bool { return in })
}

func (m *RWMutex) RUnlock() {
	s := active
	if s == nil {
		m.r.RUnlock()
		return
	}
	if s.Aborted() {
		return
	}
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	s.Park("runlock", nil)
}

func (m *RWMutex) TryLock() bool {
	s := active
	if s == nil {
		return m.r.TryLock()
	}
	if s.Aborted() {
		return true
	}
	if !m.w.TryLock() {
		return false
	}
	if m.readers > 0 {
		m.w.Unlock()
		return false
	}
	m.writer = true
	return true
}

func (m *RWMutex) TryRLock() bool {
	s := active
	if s == nil {
		return m.r.TryRLock()
	}
	if s.Aborted() {
		return true
	}
	s.Park("tryrlock", nil)
	if m.writer {
		return false
	}
	m.readers++
	return true
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() real.Locker { return (*rlocker)(m) }

// Once runs its function once; like sync.Once, concurrent callers wait for the first to finish.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// Cond over a vsync lock.  Waiting is done on a channel, which the scheduler sees as blocked.
type Cond struct {
	L  real.Locker
	ws []chan struct{}
}

func NewCond(l real.Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	ch := make(chan struct{})
	c.ws = append(c.ws, ch)
	c.L.Unlock()
	<-ch
	c.L.Lock()
}

func (c *Cond) Signal() {
	if len(c.ws) > 0 {
		close(c.ws[0])
		c.ws = c.ws[1:]
	}
}

func (c *Cond) Broadcast() {
	for _, ch := range c.ws {
		close(ch)
	}
	c.ws = nil
}

type (
	WaitGroup = real.WaitGroup
	Map       = real.Map
	Pool      = real.Pool
	Locker    = real.Locker
)
