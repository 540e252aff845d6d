// Package dsync stands in for package sync where virtual time is to pass while a goroutine waits for a lock: its
// locks block on channels.  First come, first served.
package dsync

import real "sync"

type lock struct {
	mu      real.Mutex
	readers int
	writer  bool
	queue   []*waiter
}
type waiter struct {
	read bool
	c    chan struct{}
}

func (l *lock) free(read bool) bool { return !l.writer && (read || l.readers == 0) }
func (l *lock) take(read bool) {
	if read {
		l.readers++
	} else {
		l.writer = true
	}
}
func (l *lock) lock(read bool) {
	l.mu.Lock()
	if len(l.queue) == 0 && l.free(read) {
		l.take(read)
		l.mu.Unlock()
		return
	}
	w := &waiter{read, make(chan struct{})}
	l.queue = append(l.queue, w)
	l.mu.Unlock()
	<-w.c
}
func (l *lock) try(read bool) bool {
	l.mu.Lock()
	defer l.mu.Unlock()
	if len(l.queue) == 0 && l.free(read) {
		l.take(read)
		return true
	}
	return false
}
func (l *lock) unlock(read bool) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if read {
		if l.readers == 0 {
			panic("sync: RUnlock of unlocked RWMutex")
		}
		l.readers--
	} else {
		if !l.writer {
			panic("sync: unlock of unlocked mutex")
		}
		l.writer = false
	}
	for len(l.queue) > 0 && l.free(l.queue[0].read) {
		w := l.queue[0]
		l.queue = l.queue[1:]
		l.take(w.read)
		close(w.c)
	}
}

type Mutex struct{ l lock }

func (m *Mutex) Lock()         { m.l.lock(false) }
func (m *Mutex) Unlock()       { m.l.unlock(false) }
func (m *Mutex) TryLock() bool { return m.l.try(false) }

type RWMutex struct{ l lock }

func (m *RWMutex) Lock()          { m.l.lock(false) }
func (m *RWMutex) Unlock()        { m.l.unlock(false) }
func (m *RWMutex) TryLock() bool  { return m.l.try(false) }
func (m *RWMutex) RLock()         { m.l.lock(true) }
func (m *RWMutex) RUnlock()       { m.l.unlock(true) }
func (m *RWMutex) TryRLock() bool { return m.l.try(true) }

type rlocker RWMutex

func (r *rlocker) Lock()                { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock()              { (*RWMutex)(r).RUnlock() }
func (m *RWMutex) RLocker() real.Locker { return (*rlocker)(m) }

// Once runs a function once; who comes meanwhile waits for it.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

type (
	Cond      = real.Cond
	WaitGroup = real.WaitGroup
	Map       = real.Map
	Pool      = real.Pool
	Locker    = real.Locker
)

func NewCond(l Locker) *Cond { return real.NewCond(l) }
