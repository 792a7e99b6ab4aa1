// Package simsync replaces sync's blocking primitives by ones whose waiting
// the simulator schedules.
package simsync

import (
	"sync"

	"toaqsim/simrt"
)

type Locker = sync.Locker
type Map = sync.Map

type Mutex struct{ mu sync.Mutex }

func (m *Mutex) Lock() {
	simrt.H(-2)
	for !m.mu.TryLock() {
		simrt.Block("mutex")
	}
}
func (m *Mutex) TryLock() bool { return m.mu.TryLock() }
func (m *Mutex) Unlock()       { m.mu.Unlock(); simrt.H(-3) }

type RWMutex struct{ mu sync.RWMutex }

func (m *RWMutex) Lock() {
	simrt.H(-4)
	for !m.mu.TryLock() {
		simrt.Block("rwmutex")
	}
}
func (m *RWMutex) RLock() {
	simrt.H(-5)
	for !m.mu.TryRLock() {
		simrt.Block("rwmutex")
	}
}
func (m *RWMutex) TryLock() bool   { return m.mu.TryLock() }
func (m *RWMutex) TryRLock() bool  { return m.mu.TryRLock() }
func (m *RWMutex) Unlock()         { m.mu.Unlock(); simrt.H(-6) }
func (m *RWMutex) RUnlock()        { m.mu.RUnlock(); simrt.H(-7) }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	m    Mutex
	done bool
	dm   sync.Mutex
}

func (o *Once) isDone() bool { o.dm.Lock(); defer o.dm.Unlock(); return o.done }

func (o *Once) Do(f func()) {
	if o.isDone() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if o.isDone() {
		return
	}
	defer func() { o.dm.Lock(); o.done = true; o.dm.Unlock() }()
	f()
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

type WaitGroup struct {
	m sync.Mutex
	n int
}

func (w *WaitGroup) Add(d int) {
	w.m.Lock()
	w.n += d
	n := w.n
	w.m.Unlock()
	if n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	simrt.H(-8)
	for {
		w.m.Lock()
		n := w.n
		w.m.Unlock()
		if n == 0 {
			return
		}
		simrt.Block("waitgroup")
	}
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	go simrt.W(func() { defer w.Done(); f() })()
}

type Cond struct {
	L   Locker
	m   sync.Mutex
	seq uint64
	sig []uint64
	q   []uint64
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	c.m.Lock()
	c.seq++
	me := c.seq
	c.q = append(c.q, me)
	c.m.Unlock()
	c.L.Unlock()
	for {
		c.m.Lock()
		in := false
		for _, x := range c.q {
			if x == me {
				in = true
			}
		}
		c.m.Unlock()
		if !in {
			break
		}
		simrt.Block("cond")
	}
	c.L.Lock()
}
func (c *Cond) Signal() {
	c.m.Lock()
	if len(c.q) > 0 {
		c.q = c.q[1:]
	}
	c.m.Unlock()
	simrt.H(-9)
}
func (c *Cond) Broadcast() {
	c.m.Lock()
	c.q = nil
	c.m.Unlock()
	simrt.H(-10)
}

// Pool always reuses the most recently put value.
type Pool struct {
	New func() interface{}
	m   sync.Mutex
	s   []interface{}
}

func (p *Pool) Get() interface{} {
	simrt.H(-11)
	p.m.Lock()
	if n := len(p.s); n > 0 {
		x := p.s[n-1]
		p.s = p.s[:n-1]
		p.m.Unlock()
		return x
	}
	p.m.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x interface{}) {
	if x == nil {
		return
	}
	p.m.Lock()
	p.s = append(p.s, x)
	p.m.Unlock()
	simrt.H(-12)
}
