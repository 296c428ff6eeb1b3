// Package sync stands in for the standard package in the instrumented decoder: the same operations with the same
// ordering of memory, but a thread that must wait gives way to the scheduler.
package sync

import (
	"sync"
	"sync/atomic"
	"unsafe"

	"vsim/sched"
)

// Locker is a lock.
type Locker = sync.Locker

// Map is the standard one: it never waits.
type Map = sync.Map

// Mutex is a mutual exclusion lock.
type Mutex struct{ m sync.Mutex }

// Lock locks.
func (m *Mutex) Lock() {
	for !m.m.TryLock() {
		if !sched.Block(uintptr(unsafe.Pointer(m))) {
			m.m.Lock()
			return
		}
	}
}

// TryLock locks if it can.
func (m *Mutex) TryLock() bool { return m.m.TryLock() }

// Unlock unlocks.
func (m *Mutex) Unlock() {
	m.m.Unlock()
	sched.Wake(uintptr(unsafe.Pointer(m)))
}

// RWMutex is a reader/writer lock. As in the standard one, a writer that waits keeps new readers out.
type RWMutex struct {
	m       sync.RWMutex
	writers int // that wait
}

//go:norace
func (m *RWMutex) wait(n int) { m.writers += n }

//go:norace
func (m *RWMutex) waited() bool { return m.writers > 0 }

// Lock locks for writing.
func (m *RWMutex) Lock() {
	if m.m.TryLock() {
		return
	}
	m.wait(1)
	for !m.m.TryLock() {
		if !sched.Block(uintptr(unsafe.Pointer(m))) {
			m.wait(-1)
			m.m.Lock()
			return
		}
	}
	m.wait(-1)
}

// TryLock locks if it can.
func (m *RWMutex) TryLock() bool { return m.m.TryLock() }

// Unlock unlocks.
func (m *RWMutex) Unlock() {
	m.m.Unlock()
	sched.Wake(uintptr(unsafe.Pointer(m)))
}

// RLock locks for reading.
func (m *RWMutex) RLock() {
	for m.waited() || !m.m.TryRLock() {
		if !sched.Block(uintptr(unsafe.Pointer(m))) {
			m.m.RLock()
			return
		}
	}
}

// TryRLock locks if it can.
func (m *RWMutex) TryRLock() bool { return !m.waited() && m.m.TryRLock() }

// RUnlock unlocks.
func (m *RWMutex) RUnlock() {
	m.m.RUnlock()
	sched.Wake(uintptr(unsafe.Pointer(m)))
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker is the reading side as a Locker.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once does something once.
type Once struct {
	done atomic.Uint32
	m    Mutex
}

// Do calls f the first time.
func (o *Once) Do(f func()) {
	if o.done.Load() != 0 {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if o.done.Load() == 0 {
		defer o.done.Store(1)
		f()
	}
}

// OnceFunc is as in the standard package.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is as in the standard package.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

// OnceValues is as in the standard package.
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) {
		o.Do(func() { v, u = f() })
		return v, u
	}
}

// WaitGroup waits for threads.
type WaitGroup struct {
	w sync.WaitGroup
	n atomic.Int64
}

// Add adds to the counter.
func (g *WaitGroup) Add(n int) {
	g.w.Add(n)
	if g.n.Add(int64(n)) == 0 {
		sched.Wake(uintptr(unsafe.Pointer(g)))
	}
}

// Done takes one off.
func (g *WaitGroup) Done() { g.Add(-1) }

// Go starts a thread.
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	sched.Go(func() {
		defer g.Done()
		f()
	})
}

// Wait waits for the counter to be zero.
func (g *WaitGroup) Wait() {
	for g.n.Load() > 0 {
		if !sched.Block(uintptr(unsafe.Pointer(g))) {
			break
		}
	}
	g.w.Wait()
}

// Cond is a condition.
type Cond struct {
	L Locker
	c sync.Cond
}

// NewCond makes a condition.
func NewCond(l Locker) *Cond { return &Cond{L: l, c: sync.Cond{L: l}} }

// native is the condition for threads that the scheduler leaves alone.
//
//go:norace
func (c *Cond) native() *sync.Cond {
	if c.c.L == nil {
		c.c.L = c.L
	}
	return &c.c
}

// Wait waits.
func (c *Cond) Wait() {
	if !sched.Mine() {
		c.native().Wait()
		return
	}
	// No other thread of the scheduler runs between these two.
	c.L.Unlock()
	sched.Block(uintptr(unsafe.Pointer(c)))
	c.L.Lock()
}

// Signal wakes the one that has waited longest.
func (c *Cond) Signal() {
	if !sched.WakeOne(uintptr(unsafe.Pointer(c))) {
		c.native().Signal()
	}
}

// Broadcast wakes all.
func (c *Cond) Broadcast() {
	c.native().Broadcast()
	sched.Wake(uintptr(unsafe.Pointer(c)))
}

type item struct {
	m sync.Mutex
	v interface{}
}

// Pool keeps what is put into it and gives the last one back first. As in the standard one, putting a value orders
// only the getting of that value. The items are part of the pool: one of its own for each value would be new memory,
// whose first use by another thread nothing orders.
type Pool struct {
	New   func() interface{}
	items [64]item
	used  [64]bool
	last  [64]int
	n     int
	next  int
}

// Put puts a value.
func (p *Pool) Put(v interface{}) {
	if v == nil {
		return
	}
	k := p.free()
	if k < 0 {
		return
	}
	i := &p.items[k]
	i.m.Lock()
	i.v = v
	i.m.Unlock()
	p.push(k)
}

// free finds an item that is not used, in turn.
//
//go:norace
func (p *Pool) free() int {
	for range p.used {
		k := p.next
		p.next = (p.next + 1) % len(p.used)
		if !p.used[k] {
			p.used[k] = true
			return k
		}
	}
	return -1
}

//go:norace
func (p *Pool) push(k int) {
	p.last[p.n] = k
	p.n++
}

//go:norace
func (p *Pool) pop() int {
	if p.n == 0 {
		return -1
	}
	p.n--
	return p.last[p.n]
}

//go:norace
func (p *Pool) drop(k int) { p.used[k] = false }

// Get gets a value.
func (p *Pool) Get() interface{} {
	if k := p.pop(); k >= 0 {
		i := &p.items[k]
		i.m.Lock()
		v := i.v
		i.v = nil
		i.m.Unlock()
		p.drop(k)
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
