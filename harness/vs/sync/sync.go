// Package sync stands in for the standard package in rewritten sources: blocking is durable in
// the sense of testing/synctest, and every operation is a scheduling point.
package sync

import (
	"sync"

	"verif/vs"
)

type (
	Pool   = sync.Pool
	Locker = sync.Locker
)

// queue is a set of blocked goroutines.
type queue struct{ q []chan struct{} }

func (q *queue) add() chan struct{} {
	ch := make(chan struct{})
	q.q = append(q.q, ch)
	return ch
}
func (q *queue) wake() {
	for _, ch := range q.q {
		close(ch)
	}
	q.q = nil
}

// Mutex is a mutual exclusion lock.
type Mutex struct {
	in     sync.Mutex
	locked bool
	q      queue
}

func (m *Mutex) Lock() {
	for {
		m.in.Lock()
		if !m.locked {
			m.locked = true
			m.in.Unlock()
			return
		}
		ch := m.q.add()
		m.in.Unlock()
		<-ch
		vs.Yield()
	}
}

func (m *Mutex) TryLock() bool {
	vs.Yield()
	m.in.Lock()
	defer m.in.Unlock()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	m.in.Lock()
	if !m.locked {
		m.in.Unlock()
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	m.q.wake()
	m.in.Unlock()
	vs.Yield()
}

// RWMutex is a reader/writer lock; a waiting writer blocks new readers.
type RWMutex struct {
	in      sync.Mutex
	w       bool
	waiting int
	r       int
	q       queue
}

func (m *RWMutex) Lock() {
	vs.Yield()
	m.in.Lock()
	m.waiting++
	for m.w || m.r > 0 {
		ch := m.q.add()
		m.in.Unlock()
		<-ch
		vs.Yield()
		m.in.Lock()
	}
	m.waiting--
	m.w = true
	m.in.Unlock()
}

func (m *RWMutex) Unlock() {
	m.in.Lock()
	if !m.w {
		m.in.Unlock()
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	m.q.wake()
	m.in.Unlock()
	vs.Yield()
}

func (m *RWMutex) RLock() {
	vs.Yield()
	m.in.Lock()
	for m.w || m.waiting > 0 {
		ch := m.q.add()
		m.in.Unlock()
		<-ch
		vs.Yield()
		m.in.Lock()
	}
	m.r++
	m.in.Unlock()
}

func (m *RWMutex) RUnlock() {
	m.in.Lock()
	if m.r == 0 {
		m.in.Unlock()
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	m.q.wake()
	m.in.Unlock()
	vs.Yield()
}

func (m *RWMutex) TryLock() bool {
	vs.Yield()
	m.in.Lock()
	defer m.in.Unlock()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}

func (m *RWMutex) TryRLock() bool {
	vs.Yield()
	m.in.Lock()
	defer m.in.Unlock()
	if m.w || m.waiting > 0 {
		return false
	}
	m.r++
	return true
}

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

// WaitGroup panics where the standard one does.
type WaitGroup struct {
	in      sync.Mutex
	n       int
	waiters int
	waking  int
	q       queue
}

func (wg *WaitGroup) Add(d int) {
	vs.Yield()
	wg.in.Lock()
	wg.n += d
	if wg.n < 0 {
		wg.in.Unlock()
		panic("sync: negative WaitGroup counter")
	}
	if wg.waiters != 0 && d > 0 && wg.n == d {
		wg.in.Unlock()
		panic("sync: WaitGroup misuse: Add called concurrently with Wait")
	}
	if wg.n == 0 {
		wg.waking += wg.waiters
		wg.waiters = 0
		wg.q.wake()
	}
	wg.in.Unlock()
	vs.Yield()
}

func (wg *WaitGroup) Done() { wg.Add(-1) }

func (wg *WaitGroup) Wait() {
	vs.Yield()
	wg.in.Lock()
	if wg.n == 0 {
		wg.in.Unlock()
		return
	}
	wg.waiters++
	ch := wg.q.add()
	wg.in.Unlock()
	<-ch
	vs.Yield()
	wg.in.Lock()
	wg.waking--
	bad := wg.n != 0 || wg.waiters != 0
	wg.in.Unlock()
	if bad {
		panic("sync: WaitGroup is reused before previous Wait has returned")
	}
}

func (wg *WaitGroup) Go(f func()) {
	wg.Add(1)
	go func() {
		defer wg.Done()
		f()
	}()
}

// Once runs a function once; others wait for it.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	vs.Yield()
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// Cond is a condition variable.
type Cond struct {
	L  Locker
	in sync.Mutex
	q  []chan struct{}
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	ch := make(chan struct{})
	c.in.Lock()
	c.q = append(c.q, ch)
	c.in.Unlock()
	c.L.Unlock()
	<-ch
	vs.Yield()
	c.L.Lock()
}

func (c *Cond) Signal() {
	c.in.Lock()
	if len(c.q) > 0 {
		close(c.q[0])
		c.q = c.q[1:]
	}
	c.in.Unlock()
	vs.Yield()
}

func (c *Cond) Broadcast() {
	c.in.Lock()
	for _, ch := range c.q {
		close(ch)
	}
	c.q = nil
	c.in.Unlock()
	vs.Yield()
}

// Map is the standard concurrent map with scheduling points.
type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool)           { vs.Yield(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { vs.Yield(); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { vs.Yield(); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { vs.Yield(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { vs.Yield(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { vs.Yield(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool  { vs.Yield(); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool   { vs.Yield(); return m.m.CompareAndDelete(k, o) }
func (m *Map) Range(f func(k, v any) bool)      { vs.Yield(); m.m.Range(f) }
func (m *Map) Clear()                           { vs.Yield(); m.m.Clear() }
