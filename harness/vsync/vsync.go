// Package vsync stands in for package sync in the code under test: the same contracts, with scheduling points.
package vsync

import (
	"sync"

	"verif/nd"
)

type Locker = sync.Locker

// Map follows the contract of sync.Map; every method is one atomic step.
type Map struct {
	mu sync.Mutex
	m  map[interface{}]interface{}
}

func (m *Map) Load(k interface{}) (interface{}, bool) {
	nd.Yield()
	m.mu.Lock()
	nd.Acquire(&m.m)
	defer m.mu.Unlock()
	defer nd.Release(&m.m)
	v, ok := m.m[k]
	return v, ok
}

func (m *Map) Store(k, v interface{}) {
	nd.Yield()
	m.mu.Lock()
	nd.Acquire(&m.m)
	defer m.mu.Unlock()
	defer nd.Release(&m.m)
	m.set(k, v)
}

func (m *Map) set(k, v interface{}) {
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	m.m[k] = v
}

func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	nd.Yield()
	m.mu.Lock()
	nd.Acquire(&m.m)
	defer m.mu.Unlock()
	defer nd.Release(&m.m)
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.set(k, v)
	return v, false
}

func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	nd.Yield()
	m.mu.Lock()
	nd.Acquire(&m.m)
	defer m.mu.Unlock()
	defer nd.Release(&m.m)
	v, ok := m.m[k]
	delete(m.m, k)
	return v, ok
}

func (m *Map) Delete(k interface{}) { m.LoadAndDelete(k) }

func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	nd.Yield()
	m.mu.Lock()
	nd.Acquire(&m.m)
	defer m.mu.Unlock()
	defer nd.Release(&m.m)
	o, ok := m.m[k]
	m.set(k, v)
	return o, ok
}

func (m *Map) CompareAndSwap(k, o, n interface{}) bool {
	nd.Yield()
	m.mu.Lock()
	nd.Acquire(&m.m)
	defer m.mu.Unlock()
	defer nd.Release(&m.m)
	if v, ok := m.m[k]; ok && v == o {
		m.m[k] = n
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(k, o interface{}) bool {
	nd.Yield()
	m.mu.Lock()
	nd.Acquire(&m.m)
	defer m.mu.Unlock()
	defer nd.Release(&m.m)
	if v, ok := m.m[k]; ok && v == o {
		delete(m.m, k)
		return true
	}
	return false
}

func (m *Map) Clear() {
	nd.Yield()
	m.mu.Lock()
	nd.Acquire(&m.m)
	defer m.mu.Unlock()
	defer nd.Release(&m.m)
	m.m = nil
}

func (m *Map) Range(f func(k, v interface{}) bool) {
	nd.Yield()
	var ks, vs []interface{}
	m.mu.Lock()
	nd.Acquire(&m.m)
	for k, v := range m.m {
		ks = append(ks, k)
		vs = append(vs, v)
	}
	nd.Release(&m.m)
	m.mu.Unlock()
	for i := range ks {
		if !f(ks[i], vs[i]) {
			return
		}
	}
}

// Mutex is a mutual exclusion lock.
type Mutex struct {
	held bool
	real sync.Mutex
}

//go:norace
func (m *Mutex) free() bool { return !m.held }

//go:norace
func (m *Mutex) set(h bool) { m.held = h }

func (m *Mutex) take() {
	m.real.Lock()
	m.set(true)
	nd.Acquire(&m.held)
}

func (m *Mutex) Lock() {
	nd.Yield()
	nd.WaitUntil(m.free)
	m.take()
}

func (m *Mutex) TryLock() bool {
	nd.Yield()
	if !m.free() {
		return false
	}
	m.take()
	return true
}

func (m *Mutex) Unlock() {
	if m.free() {
		panic("sync: unlock of unlocked mutex")
	}
	nd.Release(&m.held)
	m.set(false)
	m.real.Unlock()
	nd.Yield()
}

// RWMutex is a reader/writer lock.
type RWMutex struct {
	held    bool
	readers int
	real    sync.RWMutex
}

//go:norace
func (m *RWMutex) free() bool { return !m.held && m.readers == 0 }

//go:norace
func (m *RWMutex) open() bool { return !m.held }

//go:norace
func (m *RWMutex) set(h bool) { m.held = h }

//go:norace
func (m *RWMutex) count(d int) int {
	m.readers += d
	return m.readers
}

func (m *RWMutex) take() {
	m.real.Lock()
	m.set(true)
	nd.Acquire(&m.held)
	nd.Acquire(&m.readers)
}

func (m *RWMutex) Lock() {
	nd.Yield()
	nd.WaitUntil(m.free)
	m.take()
}

func (m *RWMutex) Unlock() {
	if m.open() {
		panic("sync: Unlock of unlocked RWMutex")
	}
	nd.Release(&m.held)
	m.set(false)
	m.real.Unlock()
	nd.Yield()
}

func (m *RWMutex) RLock() {
	nd.Yield()
	nd.WaitUntil(m.open)
	m.rtake()
}

func (m *RWMutex) rtake() {
	m.real.RLock()
	m.count(1)
	nd.Acquire(&m.held)
}

func (m *RWMutex) RUnlock() {
	if m.count(-1) < 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	nd.Release(&m.readers)
	m.real.RUnlock()
	nd.Yield()
}

func (m *RWMutex) TryLock() bool {
	nd.Yield()
	if !m.free() {
		return false
	}
	m.take()
	return true
}

func (m *RWMutex) TryRLock() bool {
	nd.Yield()
	if !m.open() {
		return false
	}
	m.rtake()
	return true
}

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

// Once runs a function once.
type Once struct {
	mu   Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.mu.Lock()
	defer o.mu.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// WaitGroup waits for a collection of goroutines.
type WaitGroup struct {
	mu   sync.Mutex
	n    int
	real sync.WaitGroup
}

//go:norace
func (w *WaitGroup) zero() bool { return w.n == 0 }

func (w *WaitGroup) Add(d int) {
	w.mu.Lock()
	nd.Release(&w.n)
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	w.mu.Unlock()
	if nd.Native() {
		w.real.Add(d)
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	nd.WaitUntil(w.zero)
	nd.Acquire(&w.n)
	if nd.Native() {
		w.real.Wait()
	}
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	go func() {
		defer w.Done()
		f()
	}()
}

// Pool hands out new values or, like sync.Pool may, ones that were put back.
type Pool struct {
	New   func() interface{}
	items []interface{}
	mu    sync.Mutex
}

func (p *Pool) Get() interface{} {
	nd.Yield()
	p.mu.Lock()
	if n := len(p.items); n > 0 {
		v := p.items[n-1]
		p.items = p.items[:n-1]
		nd.Acquire(&p.items)
		p.mu.Unlock()
		return v
	}
	p.mu.Unlock()
	if p.New == nil {
		return nil
	}
	return p.New()
}

func (p *Pool) Put(v interface{}) {
	nd.Yield()
	p.mu.Lock()
	defer p.mu.Unlock()
	nd.Release(&p.items)
	p.items = append(p.items, v)
}

// Cond is a condition variable.
type Cond struct {
	L       Locker
	tickets []int
	next    int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	c.next++
	t := c.next
	c.tickets = append(c.tickets, t)
	c.L.Unlock()
	defer nd.Acquire(&c.next)
	nd.WaitUntil(func() bool {
		for _, x := range c.tickets {
			if x == t {
				return false
			}
		}
		return true
	})
	c.L.Lock()
}

func (c *Cond) Signal() {
	nd.Release(&c.next)
	if len(c.tickets) > 0 {
		c.tickets = c.tickets[1:]
	}
	nd.Yield()
}

func (c *Cond) Broadcast() {
	nd.Release(&c.next)
	c.tickets = nil
	nd.Yield()
}

// OnceFunc and the like run a function once and keep its results.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var r T
	return func() T {
		o.Do(func() { r = f() })
		return r
	}
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var r T
	var s U
	return func() (T, U) {
		o.Do(func() { r, s = f() })
		return r, s
	}
}
