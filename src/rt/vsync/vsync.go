// Package vsync stands in for sync in instrumented code. Every primitive keeps
// using the real one underneath (so the race detector sees the real
// synchronisation); only waiting is turned into polling that yields to the
// explorer.
package vsync

import (
	"sync"

	"vmc.local/rt"
)

type (
	Locker = sync.Locker
	Map    = sync.Map
	Pool   = sync.Pool
)

type Mutex struct{ m sync.Mutex }

func (m *Mutex) Lock() {
	rt.P()
	for !m.m.TryLock() {
		rt.Block()
	}
}
func (m *Mutex) TryLock() bool { return m.m.TryLock() }
func (m *Mutex) Unlock()       { m.m.Unlock(); rt.Wake(); rt.P() }

// RWMutex keeps the rule that a waiting writer stops new readers.
type RWMutex struct {
	m    sync.RWMutex
	wait int
}

//go:norace
func (m *RWMutex) waiting() bool { return m.wait > 0 }

//go:norace
func (m *RWMutex) addWait(n int) { m.wait += n }

func (m *RWMutex) Lock() {
	rt.P()
	if m.m.TryLock() {
		return
	}
	m.addWait(1)
	defer m.addWait(-1)
	for {
		rt.Block()
		if m.m.TryLock() {
			return
		}
	}
}
func (m *RWMutex) RLock() {
	rt.P()
	for m.waiting() || !m.m.TryRLock() {
		rt.Block()
	}
}
func (m *RWMutex) TryLock() bool   { return m.m.TryLock() }
func (m *RWMutex) TryRLock() bool  { return m.m.TryRLock() }
func (m *RWMutex) Unlock()         { m.m.Unlock(); rt.Wake(); rt.P() }
func (m *RWMutex) RUnlock()        { m.m.RUnlock(); rt.Wake(); rt.P() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	m    Mutex
	once sync.Once
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	o.once.Do(f)
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

type WaitGroup struct {
	m sync.Mutex
	n int
}

func (w *WaitGroup) Add(d int) {
	w.m.Lock()
	w.n += d
	neg := w.n < 0
	w.m.Unlock()
	if neg {
		panic("sync: negative WaitGroup counter")
	}
	rt.Wake()
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	for {
		w.m.Lock()
		z := w.n == 0
		w.m.Unlock()
		if z {
			return
		}
		rt.Block()
	}
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	rt.Go(func() { defer w.Done(); f() })
}

type Cond struct {
	L   Locker
	m   sync.Mutex
	gen uint64
	sig uint64
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	c.m.Lock()
	g := c.gen
	c.m.Unlock()
	c.L.Unlock()
	for {
		c.m.Lock()
		ok := c.gen != g
		c.m.Unlock()
		if ok {
			break
		}
		rt.Block()
	}
	c.L.Lock()
}
func (c *Cond) Signal()    { c.Broadcast() }
func (c *Cond) Broadcast() { c.m.Lock(); c.gen++; c.m.Unlock(); rt.Wake() }
