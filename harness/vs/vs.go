// Package vs is the controlled scheduler.  Sources rewritten by cmd/rewrite call Yield in front of
// every statement and use the shims of package sync, sync/atomic and os/signal.  While a Sched is
// active every goroutine that reaches such a point parks, and the scheduler (the root goroutine of
// a testing/synctest bubble) releases one goroutine at a time; without one Yield does nothing.
package vs

import (
	"math/rand"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"testing/synctest"
)

var on atomic.Bool

type waiter struct {
	g  uint64
	ch chan struct{}
}

var (
	mu     sync.Mutex
	parked []waiter
)

// slowGoid is the number of the calling goroutine.
func slowGoid() uint64 {
	var buf [40]byte
	n := runtime.Stack(buf[:], false)
	var id uint64
	for _, c := range buf[10:n] { // "goroutine N ["
		if c < '0' || c > '9' {
			break
		}
		id = id*10 + uint64(c-'0')
	}
	return id
}

// Yield parks the goroutine until the scheduler picks it.
func Yield() {
	if !on.Load() {
		return
	}
	w := waiter{Goid(), make(chan struct{})}
	mu.Lock()
	parked = append(parked, w)
	mu.Unlock()
	<-w.ch
}

// Strategy decides who runs next.
type Strategy struct {
	Kind string  `json:"kind"` // seg, rand, sticky, pct
	Seed int64   `json:"seed"`
	Seg  [][]int `json:"seg"` // seg: [thread, steps] (steps < 0: until it blocks or ends)
	P    int     `json:"p"`   // sticky: per mille of staying; pct: horizon
	D    int     `json:"d"`   // pct: priority changes
}

// Sched is one controlled run.
type Sched struct {
	st    Strategy
	rng   *rand.Rand
	last  uint64
	seg   int
	taken int
	prio  map[uint64]int
	low   int
	chg   map[int]bool
	Steps int
	Max   int
	idx   map[uint64]int // designated threads
	Taken map[uint64]int // steps per goroutine
	SegN  []int          // steps each segment really took
}

// New starts controlling; everything that calls Yield from now on parks.
func New(st Strategy) *Sched {
	s := &Sched{st: st, rng: rand.New(rand.NewSource(st.Seed)), prio: map[uint64]int{}, chg: map[int]bool{},
		idx: map[uint64]int{}, Taken: map[uint64]int{}, Max: 200000, SegN: make([]int, len(st.Seg))}
	for i := 0; i < st.D; i++ {
		s.chg[1+s.rng.Intn(st.P+1)] = true
	}
	mu.Lock()
	parked = nil
	mu.Unlock()
	on.Store(true)
	return s
}

// Thread designates goroutine g as thread i of the strategy.
func (s *Sched) Thread(g uint64, i int) { s.idx[g] = i }

// Stop ends control: parked goroutines stay parked until Release.
func (s *Sched) Stop() { on.Store(false) }

// Release lets everything that is parked go.
func (s *Sched) Release() {
	on.Store(false)
	mu.Lock()
	p := parked
	parked = nil
	mu.Unlock()
	for _, w := range p {
		close(w.ch)
	}
}

// Step releases one goroutine; false if nobody is waiting to be released.  It must be called by
// the root goroutine of the bubble.
func (s *Sched) Step() bool {
	synctest.Wait()
	mu.Lock()
	if len(parked) == 0 {
		mu.Unlock()
		return false
	}
	sort.Slice(parked, func(i, j int) bool { return parked[i].g < parked[j].g })
	k := s.choose(parked)
	w := parked[k]
	parked = append(parked[:k:k], parked[k+1:]...)
	mu.Unlock()
	s.last = w.g
	s.Taken[w.g]++
	s.Steps++
	close(w.ch)
	return true
}

// Run steps until nothing is parked any more (false: it did not end).
func (s *Sched) Run() bool {
	for n := 0; n < s.Max; n++ {
		if !s.Step() {
			return true
		}
	}
	return false
}

func (s *Sched) choose(p []waiter) int {
	switch s.st.Kind {
	case "seg":
		for s.seg < len(s.st.Seg) {
			c := s.st.Seg[s.seg]
			if c[1] < 0 || s.taken < c[1] {
				for i, w := range p {
					if t, ok := s.idx[w.g]; ok && t == c[0] {
						s.taken++
						s.SegN[s.seg]++
						return i
					}
				}
			}
			s.seg++
			s.taken = 0
		}
		fallthrough
	case "sticky":
		if s.st.Kind == "seg" || s.rng.Intn(1000) < s.st.P {
			for i, w := range p {
				if w.g == s.last {
					return i
				}
			}
		}
		if s.st.Kind == "seg" {
			return 0
		}
	case "pct":
		for _, w := range p {
			if _, ok := s.prio[w.g]; !ok {
				s.prio[w.g] = 1000 + s.rng.Intn(1000000)
			}
		}
		best := func() int {
			b := 0
			for i, w := range p {
				if s.prio[w.g] > s.prio[p[b].g] {
					b = i
				}
			}
			return b
		}
		b := best()
		if s.chg[s.Steps] {
			s.low--
			s.prio[p[b].g] = s.low
			b = best()
		}
		return b
	}
	return s.rng.Intn(len(p))
}
