// Package ssync stands in for sync under the simulated scheduler.
package ssync

import (
	"sync"

	"MODULE/zsim/rt"
)

type Locker = sync.Locker
type Map = sync.Map

type Mutex struct{ held bool }

func (m *Mutex) Lock() {
	rt.Y()
	rt.Block(func() bool { return !m.held })
	m.held = true
}

func (m *Mutex) TryLock() bool {
	rt.Y()
	if m.held {
		return false
	}
	m.held = true
	return true
}

func (m *Mutex) Unlock() {
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
	rt.Y()
}

type RWMutex struct {
	w bool
	r int
}

func (m *RWMutex) Lock() {
	rt.Y()
	rt.Block(func() bool { return !m.w && m.r == 0 })
	m.w = true
}
func (m *RWMutex) Unlock() {
	if !m.w {
		panic("sync: unlock of unlocked RWMutex")
	}
	m.w = false
	rt.Y()
}
func (m *RWMutex) RLock() {
	rt.Y()
	rt.Block(func() bool { return !m.w })
	m.r++
}
func (m *RWMutex) RUnlock() {
	if m.r == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	rt.Y()
}
func (m *RWMutex) TryLock() bool {
	rt.Y()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}
func (m *RWMutex) TryRLock() bool {
	rt.Y()
	if m.w {
		return false
	}
	m.r++
	return true
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()            { r.m.RLock() }
func (r rlocker) Unlock()          { r.m.RUnlock() }
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	rt.Y()
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) {
		o.Do(func() { a, b = f() })
		return a, b
	}
}

// Pool keeps one free list (a real pool may drop or share items at will).
type Pool struct {
	New   func() any
	items []any
}

func (p *Pool) Get() any {
	rt.Y()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New == nil {
		return nil
	}
	return p.New()
}

func (p *Pool) Put(x any) {
	p.items = append(p.items, x)
	rt.Y()
}

type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	rt.Y()
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	rt.Y()
	rt.Block(func() bool { return w.n == 0 })
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	rt.Go(func() {
		defer w.Done()
		f()
	})
}

type Cond struct {
	L   Locker
	gen int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	g := c.gen
	c.L.Unlock()
	rt.Block(func() bool { return c.gen != g })
	c.L.Lock()
}
func (c *Cond) Signal()    { c.gen++; rt.Y() }
func (c *Cond) Broadcast() { c.gen++; rt.Y() }
