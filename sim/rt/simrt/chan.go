//go:build go1.21

package simrt

import (
	"reflect"
	"time"
	"unsafe"
)

// Channel operations of the library are performed under the scheduler: an
// operation that cannot proceed waits like any other task. Values of buffered
// channels travel through the real channel; the two sides of an unbuffered
// one meet in the table below and exchange the value, and the memory ordering
// of the rendezvous, over private channels.

type sudo struct {
	used      bool
	ch        uintptr
	send      bool
	idx       int
	s         *wait
	pass      interface{}
	tok, back chan struct{}
}

type wait struct{ done int }

type closedChan struct {
	ch  uintptr
	ref interface{} // keeps the address from being used again
}

var (
	sudos   [1024]sudo
	closed  [1024]closedChan
	nclosed int
	chrng   uint64
)

//go:norace
func chrnd() uint64 {
	chrng = chrng*6364136223846793005 + 1442695040888963407
	return chrng >> 33
}

//go:norace
func findSudo(ch uintptr, send bool) *sudo {
	for i := range sudos {
		w := &sudos[i]
		if w.used && w.ch == ch && w.send == send && w.s.done < 0 {
			return w
		}
	}
	return nil
}

//go:norace
func newSudo(ch uintptr, send bool, idx int, s *wait) *sudo {
	for i := range sudos {
		w := &sudos[i]
		if !w.used {
			*w = sudo{used: true, ch: ch, send: send, idx: idx, s: s, tok: make(chan struct{}, 1), back: make(chan struct{}, 1)}
			w.tok <- struct{}{}
			return w
		}
	}
	panic("simrt: too many channel operations")
}

//go:norace
func isClosed(ch uintptr) bool {
	for i := range closed {
		if closed[i].ch == ch {
			return true
		}
	}
	return false
}

//go:norace
func markClosed(ch uintptr, ref interface{}) {
	closed[nclosed%len(closed)] = closedChan{ch, ref}
	nclosed++
}

// Close closes a channel.
//
//go:norace
func Close[T any](c chan<- T) {
	close(c)
	markClosed(*(*uintptr)(unsafe.Pointer(&c)), c)
}

// Case is one operation of a select statement.
type Case interface {
	try() bool
	poll() bool
	enqueue(s *wait, idx int)
	dequeue()
	finish()
	rcase() reflect.SelectCase
	set(v reflect.Value, ok bool)
}

// RecvCase receives.
type RecvCase[T any] struct {
	C   <-chan T
	V   T
	OK  bool
	got bool
	su  *sudo
}

// RecvOf prepares a receive.
func RecvOf[T any](c <-chan T) *RecvCase[T] { return &RecvCase[T]{C: c} }

//go:norace
func (c *RecvCase[T]) id() uintptr { return *(*uintptr)(unsafe.Pointer(&c.C)) }

//go:norace
func (c *RecvCase[T]) try() bool {
	if c.C == nil {
		return false
	}
	if c.got {
		return true
	}
	select {
	case v, ok := <-c.C:
		c.V, c.OK = v, ok
		return true
	default:
	}
	if cap(c.C) == 0 {
		if w := findSudo(c.id(), true); w != nil {
			w.s.done = w.idx
			c.V, c.OK = <-w.pass.(chan T), true
			<-w.tok
			w.back <- struct{}{}
			return true
		}
	}
	return false
}

//go:norace
func (c *RecvCase[T]) poll() bool {
	if c.C == nil {
		return false
	}
	if c.got || len(c.C) > 0 || isClosed(c.id()) {
		return true
	}
	// a sender or closer the scheduler does not know
	select {
	case v, ok := <-c.C:
		if ok {
			c.V, c.OK, c.got = v, true, true
		}
		return true
	default:
	}
	return false
}

//go:norace
func (c *RecvCase[T]) enqueue(s *wait, idx int) {
	if c.C != nil && cap(c.C) == 0 {
		c.su = newSudo(c.id(), false, idx, s)
	}
}

//go:norace
func (c *RecvCase[T]) dequeue() {
	if c.su != nil {
		c.su.used = false
	}
}

//go:norace
func (c *RecvCase[T]) finish() {
	c.V, c.OK = <-c.su.pass.(chan T), true
	<-c.su.back
}

func (c *RecvCase[T]) rcase() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(c.C)}
}

func (c *RecvCase[T]) set(v reflect.Value, ok bool) {
	if ok {
		c.V, c.OK = v.Interface().(T), true
	}
}

// SendCase sends.
type SendCase[T any] struct {
	C  chan<- T
	V  T
	su *sudo
}

// SendTo prepares a send.
func SendTo[T any](c chan<- T) func(v T) *SendCase[T] {
	return func(v T) *SendCase[T] { return &SendCase[T]{C: c, V: v} }
}

//go:norace
func (c *SendCase[T]) id() uintptr { return *(*uintptr)(unsafe.Pointer(&c.C)) }

//go:norace
func (c *SendCase[T]) try() bool {
	if c.C == nil {
		return false
	}
	select {
	case c.C <- c.V:
		return true
	default:
	}
	if cap(c.C) == 0 {
		if w := findSudo(c.id(), false); w != nil {
			w.s.done = w.idx
			p := make(chan T, 1)
			p <- c.V
			w.pass = p
			<-w.tok
			w.back <- struct{}{}
			return true
		}
	}
	return false
}

//go:norace
func (c *SendCase[T]) poll() bool {
	return c.C != nil && (len(c.C) < cap(c.C) || isClosed(c.id()))
}

//go:norace
func (c *SendCase[T]) enqueue(s *wait, idx int) {
	if c.C != nil && cap(c.C) == 0 {
		c.su = newSudo(c.id(), true, idx, s)
		p := make(chan T, 1)
		p <- c.V
		c.su.pass = p
	}
}

//go:norace
func (c *SendCase[T]) dequeue() {
	if c.su != nil {
		c.su.used = false
	}
}

//go:norace
func (c *SendCase[T]) finish() { <-c.su.back }

func (c *SendCase[T]) rcase() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(c.C), Send: reflect.ValueOf(&c.V).Elem()}
}

func (c *SendCase[T]) set(v reflect.Value, ok bool) {}

// Select performs one of the operations and returns its index, or -1 if none
// can proceed and def is set.
//
//go:norace
func Select(def bool, cs ...Case) int {
	if !managed() {
		var rc []reflect.SelectCase
		for _, c := range cs {
			rc = append(rc, c.rcase())
		}
		if def {
			rc = append(rc, reflect.SelectCase{Dir: reflect.SelectDefault})
		}
		i, v, ok := reflect.Select(rc)
		if i == len(cs) {
			return -1
		}
		cs[i].set(v, ok)
		return i
	}
	off := 0
	if len(cs) > 1 {
		off = int(chrnd() % uint64(len(cs)))
	}
	for {
		for k := range cs {
			i := (off + k) % len(cs)
			if cs[i].try() {
				return i
			}
		}
		if def {
			return -1
		}
		s := &wait{-1}
		for i, c := range cs {
			c.enqueue(s, i)
		}
		WaitUntil(func() bool { return anyReady(s, cs) })
		for _, c := range cs {
			c.dequeue()
		}
		if s.done >= 0 {
			cs[s.done].finish()
			return s.done
		}
	}
}

//go:norace
func anyReady(s *wait, cs []Case) bool {
	if s.done >= 0 {
		return true
	}
	for _, c := range cs {
		if c.poll() {
			return true
		}
	}
	return false
}

// Recv, Recv2 and Send are single channel operations.
func Recv[T any](c <-chan T) T {
	r := RecvOf(c)
	Select(false, r)
	return r.V
}

func Recv2[T any](c <-chan T) (T, bool) {
	r := RecvOf(c)
	Select(false, r)
	return r.V, r.OK
}

func Sender[T any](c chan<- T) func(v T) {
	return func(v T) { Select(false, &SendCase[T]{C: c, V: v}) }
}

// Simulated clock. It stands still while any task can run, jumps to the next
// deadline when none can, and is moved by the simulator.

// Base is what the clock of this process starts from.
var Base = time.Unix(1700000000, 0)

func Now() time.Time                  { return Base.Add(time.Duration(nowNs())) }
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Sleep lets other tasks run until the time has come.
func Sleep(d time.Duration) { sleep(int64(d)) }

type rtimer struct {
	when   int64
	period int64
	active bool
	tick   chan time.Time
	f      func()
	// set carries the memory ordering from the caller that set the timer to
	// the function it runs
	set chan struct{}
}

//go:norace
func (t *rtimer) fire() {
	if t.f != nil {
		k := PreGo()
		go t.run(k)
		return
	}
	select {
	case t.tick <- Now():
	default:
	}
}

//go:norace
func (t *rtimer) run(k *Task) {
	defer GoExit(GoEnter(k))
	select {
	case <-t.set:
	default:
	}
	t.f()
}

var timers [1024]*rtimer

//go:norace
func (t *rtimer) start(d int64) {
	if d < 0 {
		d = 0
	}
	t.when = nowNs() + d
	if t.set != nil {
		select {
		case t.set <- struct{}{}:
		default:
		}
	}
	if t.active {
		return
	}
	for i := range timers {
		if timers[i] == nil || !timers[i].active {
			t.active = true
			timers[i] = t
			return
		}
	}
	panic("simrt: too many timers")
}

//go:norace
func (t *rtimer) stop() bool {
	was := t.active
	t.active = false
	for i := range timers {
		if timers[i] == t {
			timers[i] = nil
		}
	}
	return was
}

func init() { nextTimer, fireTimers = firstTimer, fireDue }

//go:norace
func firstTimer() (int64, bool) {
	w, ok := int64(0), false
	for _, t := range timers {
		if t != nil && t.active && (!ok || t.when < w) {
			w, ok = t.when, true
		}
	}
	return w, ok
}

//go:norace
func fireDue(now int64) {
	for i, t := range timers {
		if t != nil && t.active && t.when <= now {
			if t.period > 0 {
				t.when = now + t.period
			} else {
				t.active = false
				timers[i] = nil
			}
			t.fire()
		}
	}
}

// Timer and Ticker replace those of package time.
type Timer struct {
	C <-chan time.Time
	c chan time.Time
	r *rtimer
}

type Ticker = Timer

//go:norace
func newTimer(d, period time.Duration) *Timer {
	c := make(chan time.Time, 1)
	r := &rtimer{period: int64(period), tick: c}
	r.start(int64(d))
	return &Timer{C: c, c: c, r: r}
}

func NewTimer(d time.Duration) *Timer   { return newTimer(d, 0) }
func NewTicker(d time.Duration) *Ticker { return newTimer(d, d) }

func After(d time.Duration) <-chan time.Time { return newTimer(d, 0).C }
func Tick(d time.Duration) <-chan time.Time  { return newTimer(d, d).C }

//go:norace
func AfterFunc(d time.Duration, f func()) *Timer {
	r := &rtimer{f: f, set: make(chan struct{}, 1)}
	r.start(int64(d))
	return &Timer{r: r}
}

// Stop and Reset discard a tick that was not received.
//
//go:norace
func (t *Timer) Stop() bool {
	if t.c != nil {
		select {
		case <-t.c:
		default:
		}
	}
	return t.r.stop()
}

//go:norace
func (t *Timer) Reset(d time.Duration) bool {
	was := t.Stop()
	if t.r.period > 0 {
		t.r.period = int64(d)
	}
	t.r.start(int64(d))
	return was
}

// Gosched replaces runtime.Gosched.
func Gosched() { Yield() }
