// Package vsync stands in for package sync in the instrumented library: the
// same types, but a goroutine that has to wait is parked by the simulator.
// Ordering that the real primitives would establish is still seen by the race
// detector, because the real primitives do the locking.
package vsync

import (
	"sync"
	"sync/atomic"

	"geosim/vsim"
)

type Locker = sync.Locker

// Map is the real one, walked in the order the simulator chooses.
type Map struct{ sync.Map }

func (m *Map) Range(f func(key, value any) bool) {
	all := map[any]any{}
	m.Map.Range(func(k, v any) bool { all[k] = v; return true })
	for _, k := range vsim.Order(all) {
		if !f(k, all[k]) {
			return
		}
	}
}

// Cond wakes in the order in which goroutines came to wait.
type Cond struct {
	L Locker

	m sync.Mutex
	q []*cell
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	me := &cell{}
	c.m.Lock()
	c.q = append(c.q, me)
	c.m.Unlock()
	c.L.Unlock()
	for {
		me.m.Lock()
		woken := me.v != nil
		me.m.Unlock()
		if woken {
			break
		}
		vsim.Block()
	}
	c.L.Lock()
}

func (c *Cond) Signal() { c.wake(1) }

func (c *Cond) Broadcast() { c.wake(1 << 30) }

func (c *Cond) wake(n int) {
	vsim.Preempt()
	c.m.Lock()
	for ; n > 0 && len(c.q) > 0; n-- {
		c.q[0].m.Lock()
		c.q[0].v = true
		c.q[0].m.Unlock()
		c.q = c.q[1:]
	}
	c.m.Unlock()
	vsim.Wake()
}

type Mutex struct{ m sync.Mutex }

func (m *Mutex) Lock() {
	vsim.Preempt()
	for !m.m.TryLock() {
		vsim.Block()
	}
}
func (m *Mutex) TryLock() bool { vsim.Preempt(); return m.m.TryLock() }
func (m *Mutex) Unlock()       { m.m.Unlock(); vsim.Wake() }

type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) Lock() {
	vsim.Preempt()
	for !m.m.TryLock() {
		vsim.Block()
	}
}
func (m *RWMutex) RLock() {
	vsim.Preempt()
	for !m.m.TryRLock() {
		vsim.Block()
	}
}
func (m *RWMutex) TryLock() bool  { vsim.Preempt(); return m.m.TryLock() }
func (m *RWMutex) TryRLock() bool { vsim.Preempt(); return m.m.TryRLock() }
func (m *RWMutex) Unlock()        { m.m.Unlock(); vsim.Wake() }
func (m *RWMutex) RUnlock()       { m.m.RUnlock(); vsim.Wake() }
func (m *RWMutex) RLocker() sync.Locker {
	return (*rlocker)(m)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	done atomic.Bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	if o.done.Load() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done.Load() {
		defer o.done.Store(true) // unlocking wakes those that wait
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

type WaitGroup struct {
	n  atomic.Int64
	wg sync.WaitGroup
}

func (w *WaitGroup) Add(d int) { w.n.Add(int64(d)); w.wg.Add(d) }
func (w *WaitGroup) Done()     { w.wg.Done(); w.n.Add(-1); vsim.Wake() }
func (w *WaitGroup) Wait() {
	for w.n.Load() > 0 {
		vsim.Block()
	}
	w.wg.Wait()
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsim.Go(func() { defer w.Done(); f() })
}

// Pool reuses what was put most recently, deterministically: the reuse that is
// most likely to show that an object was put back too early or not cleaned.
// Like the real one it only orders a Put before the Get that returns the same object.
type Pool struct {
	New func() any

	items []*cell
	gen   int
}

type cell struct {
	m sync.Mutex
	v any
}

// newCell makes a cell whose first use is not taken for a use by its maker.
//
//go:norace
//go:noinline
func newCell() *cell { return new(cell) }

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	vsim.Preempt()
	c := newCell()
	c.m.Lock()
	c.v = x
	c.m.Unlock()
	p.push(c)
	vsim.Preempt()
}

func (p *Pool) Get() any {
	vsim.Preempt()
	if c := p.pop(); c != nil {
		c.m.Lock()
		defer c.m.Unlock()
		return c.v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:norace
func (p *Pool) push(c *cell) {
	k := len(p.items)
	if k == cap(p.items) { // by hand: append would tell the race detector
		n := make([]*cell, k, 2*k+1)
		for i := range p.items {
			n[i] = p.items[i]
		}
		p.items = n
	}
	p.items = p.items[:k+1]
	p.items[k] = c
}

//go:norace
func (p *Pool) pop() *cell {
	if n := vsim.Collections(); p.gen != n { // what lies here is not kept when memory is collected
		p.gen, p.items = n, nil
	}
	k := len(p.items)
	if k == 0 {
		return nil
	}
	c := p.items[k-1]
	p.items[k-1] = nil
	p.items = p.items[:k-1]
	return c
}
