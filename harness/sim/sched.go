// Package sim runs the real client against a scripted server, storage and application under a controlled
// scheduler and records what can be observed at the library's boundary.
package sim

import (
	"bytes"
	"math/rand"
	"runtime"
	"strconv"
	"sync"
	"testing/synctest"
	"time"

	"verif/harness/vsync"
)

type slot struct {
	kind string
	cond func() bool
	ch   chan struct{}
	gid  int64
}

// Sched is a one-at-a-time scheduler living in a synctest bubble: every other goroutine is either parked here or
// durably blocked, or it is the one that was chosen.
type Sched struct {
	mu     sync.Mutex
	parked []*slot
	rng    *rand.Rand
	abort  bool

	// strategy
	fifo    bool
	pre     float64
	pct     bool
	prio    map[int64]int
	changes map[int]bool
	npark   int
	low     int

	runaway func()
	Parks   int
}

type aborted struct{}

func NewSched(seed int64, fifo bool, pre float64, pctDepth int) *Sched {
	s := &Sched{rng: rand.New(rand.NewSource(seed)), fifo: fifo, pre: pre}
	if pctDepth > 0 {
		s.pct = true
		s.prio = map[int64]int{}
		s.changes = map[int]bool{}
		for i := 0; i < pctDepth; i++ {
			s.changes[s.rng.Intn(600)] = true
		}
	}
	return s
}

func goid() int64 {
	var buf [40]byte
	n := runtime.Stack(buf[:], false)
	f := bytes.Fields(buf[:n])
	v, _ := strconv.ParseInt(string(f[1]), 10, 64)
	return v
}

func (s *Sched) Park(kind string, cond func() bool) {
	if s.abort {
		runtime.Goexit()
	}
	sl := &slot{kind: kind, cond: cond, ch: make(chan struct{})}
	if s.pct {
		sl.gid = goid()
	}
	s.mu.Lock()
	s.parked = append(s.parked, sl)
	s.Parks++
	s.mu.Unlock()
	<-sl.ch
	vsync.ResetTicks()
	if s.abort {
		runtime.Goexit()
	}
}

func (s *Sched) Preempt() bool {
	if s.pre <= 0 {
		return false
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.rng.Float64() < s.pre
}

func (s *Sched) Aborted() bool { return s.abort }
func (s *Sched) Runaway() {
	if s.runaway != nil {
		s.runaway()
	}
}

// Step waits until every goroutine is blocked and lets one enabled goroutine run. It reports whether there was one.
func (s *Sched) Step() bool {
	synctest.Wait()
	en := s.enabled()
	if len(en) == 0 {
		return false
	}
	k := 0
	switch {
	case s.fifo:
	case s.pct:
		s.npark++
		best := -1
		for i, j := range en {
			g := s.parked[j].gid
			if _, ok := s.prio[g]; !ok {
				s.prio[g] = s.rng.Intn(1 << 20)
			}
			if best < 0 || s.prio[g] > s.prio[s.parked[en[best]].gid] {
				best = i
			}
		}
		k = best
		if s.changes[s.npark] {
			s.low--
			s.prio[s.parked[en[k]].gid] = s.low
		}
	default:
		k = s.rng.Intn(len(en))
	}
	s.release(en[k])
	return true
}

func (s *Sched) Enabled() bool { synctest.Wait(); return len(s.enabled()) > 0 }

func (s *Sched) enabled() []int {
	s.mu.Lock()
	defer s.mu.Unlock()
	var en []int
	for i, sl := range s.parked {
		if sl.cond == nil || sl.cond() {
			en = append(en, i)
		}
	}
	return en
}

func (s *Sched) release(i int) {
	s.mu.Lock()
	sl := s.parked[i]
	s.parked = append(s.parked[:i], s.parked[i+1:]...)
	s.mu.Unlock()
	close(sl.ch)
}

// Settle runs everything that can run without the passage of (noticeable) time.
func (s *Sched) Settle() {
	for idle := 0; idle < 2; {
		if s.Step() {
			idle = 0
			continue
		}
		time.Sleep(3 * time.Nanosecond) // lets goroutines in nanosecond sleeps continue
		idle++
	}
}

// Kill ends every goroutine that is parked or will park.
func (s *Sched) Kill() {
	s.abort = true
	for i := 0; i < 100; i++ {
		synctest.Wait()
		s.mu.Lock()
		ps := s.parked
		s.parked = nil
		s.mu.Unlock()
		if len(ps) == 0 {
			return
		}
		for _, p := range ps {
			close(p.ch)
		}
	}
}
