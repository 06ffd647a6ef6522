// Package simsync stands in for sync in the code under test: same semantics,
// same ordering guarantees towards the race detector, but waiting is done in
// the simulator's scheduler, and Pool is deterministic.
package simsync

import (
	"sync"

	"verif/simrt"
)

type (
	Locker = sync.Locker
	Map    = sync.Map
)

// Cond wakes in order of arrival.
type Cond struct {
	L     Locker
	m     sync.Mutex // never contended: no scheduling point while it is held
	came  uint64
	awake uint64
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	c.m.Lock()
	t := c.came
	c.came++
	c.m.Unlock()
	c.L.Unlock()
	for {
		c.m.Lock()
		up := t < c.awake
		c.m.Unlock()
		if up {
			break
		}
		simrt.Block()
	}
	c.L.Lock()
}

func (c *Cond) Signal() {
	c.m.Lock()
	if c.awake < c.came {
		c.awake++
	}
	c.m.Unlock()
	simrt.Wake()
	simrt.Y(0)
}

func (c *Cond) Broadcast() {
	c.m.Lock()
	c.awake = c.came
	c.m.Unlock()
	simrt.Wake()
	simrt.Y(0)
}

type Mutex struct{ m sync.Mutex }

func (m *Mutex) Lock() {
	simrt.Y(0)
	for !m.m.TryLock() {
		simrt.Block()
	}
}
func (m *Mutex) TryLock() bool { simrt.Y(0); return m.m.TryLock() }
func (m *Mutex) Unlock()       { m.m.Unlock(); simrt.Wake(); simrt.Y(0) }

type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) Lock() {
	simrt.Y(0)
	for !m.m.TryLock() {
		simrt.Block()
	}
}
func (m *RWMutex) RLock() {
	simrt.Y(0)
	for !m.m.TryRLock() {
		simrt.Block()
	}
}
func (m *RWMutex) TryLock() bool   { simrt.Y(0); return m.m.TryLock() }
func (m *RWMutex) TryRLock() bool  { simrt.Y(0); return m.m.TryRLock() }
func (m *RWMutex) Unlock()         { m.m.Unlock(); simrt.Wake(); simrt.Y(0) }
func (m *RWMutex) RUnlock()        { m.m.RUnlock(); simrt.Wake(); simrt.Y(0) }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	m    RWMutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.RLock()
	d := o.done
	o.m.RUnlock()
	if d {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var once Once
	return func() { once.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var once Once
	var v T
	return func() T { once.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var once Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { once.Do(func() { v1, v2 = f() }); return v1, v2 }
}

type WaitGroup struct {
	m sync.Mutex // never contended: no scheduling point while it is held
	n int
}

func (w *WaitGroup) Add(d int) {
	w.m.Lock()
	w.n += d
	n := w.n
	w.m.Unlock()
	if n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	simrt.Wake()
	simrt.Y(0)
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	simrt.Y(0)
	for {
		w.m.Lock()
		n := w.n
		w.m.Unlock()
		if n == 0 {
			return
		}
		simrt.Block()
	}
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() {
		defer w.Done()
		f()
	})
}

// Pool hands out the item put back last. Each item carries its own ordering
// edge (as in the real one); the list itself orders nothing.
type Pool struct {
	New   func() any
	items [64]poolItem
	n     int
}

type poolItem struct {
	x  any
	mu *sync.Mutex
}

func (p *Pool) Get() any {
	simrt.Y(0)
	x, mu, ok := p.pop()
	if ok {
		mu.Lock()
		mu.Unlock()
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	mu := new(sync.Mutex)
	mu.Lock()
	mu.Unlock()
	p.push(x, mu)
	simrt.Y(0)
}

//go:norace
func (p *Pool) pop() (any, *sync.Mutex, bool) {
	if p.n == 0 {
		return nil, nil, false
	}
	p.n--
	it := p.items[p.n]
	p.items[p.n] = poolItem{}
	return it.x, it.mu, true
}

//go:norace
func (p *Pool) push(x any, mu *sync.Mutex) {
	if p.n < len(p.items) {
		p.items[p.n] = poolItem{x, mu}
		p.n++
	}
}
