//go:build go1.21

// Package simsync replaces package sync in the instrumented library: every
// operation that can block gives up the baton; the memory ordering it
// provides is that of the real primitive it contains.
package simsync

import (
	"sync"

	"github.com/phoreproject/bls/zzverif/simrt"
)

type Locker = sync.Locker

type Mutex struct {
	held bool
	mu   sync.Mutex
}

//go:norace
func (m *Mutex) free() bool { return !m.held }

//go:norace
func (m *Mutex) take() { m.held = true }

//go:norace
func (m *Mutex) drop() { m.held = false }

func (m *Mutex) Lock() {
	simrt.WaitUntil(m.free)
	m.take()
	m.mu.Lock()
}

func (m *Mutex) TryLock() bool {
	if !m.free() {
		return false
	}
	m.take()
	m.mu.Lock()
	return true
}

func (m *Mutex) Unlock() {
	m.mu.Unlock()
	m.drop()
}

// RWMutex behaves as the real one does towards waiting writers: a reader that
// comes while a writer waits is let in only after that writer, together with
// all readers waiting then. Locking for reading twice can therefore wait
// forever.
type RWMutex struct {
	w    bool // held for writing
	r    int  // held for reading, or granted
	pw   int  // writers waiting
	next int  // tickets of waiting readers
	upto int  // tickets that were let in
	in   int  // readers waiting
	mu   sync.RWMutex
}

//go:norace
func (m *RWMutex) freeW() bool { return !m.w && m.r == 0 }

//go:norace
func (m *RWMutex) freeR() bool { return !m.w && m.pw == 0 }

//go:norace
func (m *RWMutex) announce() { m.pw++ }

//go:norace
func (m *RWMutex) enterW() { m.pw--; m.w = true }

//go:norace
func (m *RWMutex) leaveW() {
	m.w = false
	m.r += m.in
	m.in = 0
	m.upto = m.next
}

//go:norace
func (m *RWMutex) add(n int) { m.r += n }

// turn is a reader waiting behind a writer.
type turn struct {
	m *RWMutex
	n int
}

//go:norace
func (m *RWMutex) queue() *turn {
	t := &turn{m, m.next}
	m.next++
	m.in++
	return t
}

//go:norace
func (t *turn) come() bool { return t.n < t.m.upto }

func (m *RWMutex) Lock() {
	m.announce()
	simrt.WaitUntil(m.freeW)
	m.enterW()
	m.mu.Lock()
}

func (m *RWMutex) Unlock() { m.mu.Unlock(); m.leaveW() }

func (m *RWMutex) RLock() {
	if m.freeR() {
		m.add(1)
	} else {
		simrt.WaitUntil(m.queue().come)
	}
	m.mu.RLock()
}

func (m *RWMutex) RUnlock() { m.mu.RUnlock(); m.add(-1) }

func (m *RWMutex) TryLock() bool {
	if !m.freeW() {
		return false
	}
	m.announce()
	m.enterW()
	m.mu.Lock()
	return true
}

func (m *RWMutex) TryRLock() bool {
	if !m.freeR() {
		return false
	}
	m.add(1)
	m.mu.RLock()
	return true
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

type WaitGroup struct {
	n  int
	wg sync.WaitGroup
}

//go:norace
func (w *WaitGroup) inc(n int) { w.n += n }

//go:norace
func (w *WaitGroup) zero() bool { return w.n <= 0 }

func (w *WaitGroup) Add(n int) { w.wg.Add(n); w.inc(n) }
func (w *WaitGroup) Done()     { w.wg.Done(); w.inc(-1) }
func (w *WaitGroup) Wait()     { simrt.WaitUntil(w.zero); w.wg.Wait() }
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	t := simrt.PreGo()
	go func() {
		simrt.GoEnter(t)
		defer simrt.GoExit(t)
		defer w.Done()
		f()
	}()
}

type Cond struct {
	L   Locker
	gen int
	sig int
	n   int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	c.n++
	gen := c.gen
	c.L.Unlock()
	simrt.WaitUntil(func() bool { return c.sig > 0 || c.gen != gen })
	if c.gen == gen {
		c.sig--
	}
	c.L.Lock()
}
func (c *Cond) Signal() {
	if c.n > 0 {
		c.n--
		c.sig++
	}
}
func (c *Cond) Broadcast() { c.gen++; c.n = 0; c.sig = 0 }

// Pool hands objects out last in, first out: the order in which reuse is
// most immediate.
type Pool struct {
	New   func() interface{}
	items []poolItem
	mu    sync.Mutex
}

type poolItem struct {
	v interface{}
}

func (p *Pool) Get() interface{} {
	p.mu.Lock()
	if n := len(p.items); n > 0 {
		v := p.items[n-1].v
		p.items = p.items[:n-1]
		p.mu.Unlock()
		return v
	}
	p.mu.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v interface{}) {
	if v == nil {
		return
	}
	p.mu.Lock()
	p.items = append(p.items, poolItem{v})
	p.mu.Unlock()
}

type Map = sync.Map

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}
