package simrt

import (
	"sync"
	"unsafe"
)

// Channel operations of the code under test. Buffered channels are the real
// ones, polled; on an unbuffered channel the sender offers its value in a list
// of the simulator's and waits there until a receiver has taken it. Waiting is
// done in the scheduler, so that it is part of the schedule. Outside a
// simulation the operations are the plain ones.

// offer is a value on its way through an unbuffered channel.
type offer struct {
	ch    unsafe.Pointer
	v     any
	there *sync.Mutex // orders the send before the receive
	back  *sync.Mutex // orders the receive before the end of the send
	sel   *selection
	index int
	taken bool
	next  *offer
}

// selection is a select statement that offers values.
type selection struct {
	chosen int // -1
}

// listener is a task that waits to receive.
type listener struct {
	ch   unsafe.Pointer
	next *listener
}

var (
	offers    *offer
	listeners *listener
)

//go:norace
func resetChans() { offers, listeners = nil, nil }

//go:norace
func pushOffer(o *offer) {
	p := &offers
	for *p != nil {
		p = &(*p).next
	}
	*p = o
}

//go:norace
func dropOffer(o *offer) {
	for p := &offers; *p != nil; p = &(*p).next {
		if *p == o {
			*p = o.next
			o.next = nil
			return
		}
	}
}

//go:norace
func takeOffer(ch unsafe.Pointer, self *selection) *offer {
	for p := &offers; *p != nil; p = &(*p).next {
		o := *p
		if o.ch != ch || o.sel != nil && (o.sel == self || o.sel.chosen >= 0) {
			continue
		}
		*p = o.next
		o.next = nil
		o.taken = true
		if o.sel != nil {
			o.sel.chosen = o.index
		}
		return o
	}
	return nil
}

//go:norace
func locks(o *offer) (there, back *sync.Mutex) { return o.there, o.back }

//go:norace
func isTaken(o *offer) bool { return o.taken }

//go:norace
func chosenOf(s *selection) int { return s.chosen }

//go:norace
func listen(l *listener) { l.next, listeners = listeners, l }

//go:norace
func unlisten(l *listener) {
	for p := &listeners; *p != nil; p = &(*p).next {
		if *p == l {
			*p = l.next
			return
		}
	}
}

// awaited tells whether more tasks wait to receive than values are offered.
//
//go:norace
func awaited(ch unsafe.Pointer) bool {
	n := 0
	for l := listeners; l != nil; l = l.next {
		if l.ch == ch {
			n++
		}
	}
	for o := offers; o != nil; o = o.next {
		if o.ch == ch {
			n--
		}
	}
	return n > 0
}

func recvPtr[T any](ch <-chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }
func sendPtr[T any](ch chan<- T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }
func simulated() bool                           { return On() && !Killing() }
func tryRecv[T any](ch <-chan T, self *selection) (v T, ok, done bool) {
	if o := takeOffer(recvPtr(ch), self); o != nil {
		there, back := locks(o)
		there.Lock()
		v, _ = o.v.(T)
		there.Unlock()
		back.Unlock()
		Wake()
		return v, true, true
	}
	select {
	case v, ok = <-ch:
		Wake() // there is room now
		return v, ok, true
	default:
	}
	return v, false, false
}

func newOffer[T any](ch chan<- T, v T) *offer {
	there, back := new(sync.Mutex), new(sync.Mutex)
	o := &offer{ch: sendPtr(ch), v: v, there: there, back: back}
	there.Lock()
	there.Unlock()
	back.Lock()
	return o
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	if !simulated() {
		v, ok := <-ch
		return v, ok
	}
	Y(0)
	for {
		if v, ok, done := tryRecv(ch, nil); done {
			Y(0)
			return v, ok
		}
		l := &listener{ch: recvPtr(ch)}
		listen(l)
		Block()
		unlisten(l)
	}
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Send is ch <- v, in two steps that leave the conversion of v to the caller.
func Send[T any](ch chan<- T) func(T) {
	return func(v T) {
		if !simulated() {
			ch <- v
			return
		}
		Y(0)
		if cap(ch) == 0 && ch != nil {
			select { // panics if ch is closed
			case ch <- v:
				Y(0)
				return
			default:
			}
			o := newOffer(ch, v)
			pushOffer(o)
			Wake()
			for !isTaken(o) {
				Block()
				if !isTaken(o) {
					select {
					case ch <- v: // only to find it closed
						dropOffer(o)
						return
					default:
					}
				}
			}
			o.back.Lock()
			o.back.Unlock()
			Y(0)
			return
		}
		for {
			select {
			case ch <- v:
				Wake()
				Y(0)
				return
			default:
				Block()
			}
		}
	}
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	close(ch)
	if simulated() {
		Wake()
		Y(0)
	}
}

// SelCase is a case of a select statement.
type SelCase interface {
	try(s *selection, nowait bool) bool
	offer(s *selection, index int) *offer
	listen() *listener
	plain() bool
}

// RCase is a receiving case.
type RCase[T any] struct {
	ch <-chan T
	v  T
	ok bool
}

// RecvCase makes one.
func RecvCase[T any](ch <-chan T) *RCase[T] { return &RCase[T]{ch: ch} }

// V is what was received.
func (c *RCase[T]) V() T { return c.v }

// V2 also tells whether it was sent.
func (c *RCase[T]) V2() (T, bool) { return c.v, c.ok }

func (c *RCase[T]) try(s *selection, nowait bool) (done bool) {
	c.v, c.ok, done = tryRecv(c.ch, s)
	return
}
func (c *RCase[T]) offer(*selection, int) *offer { return nil }
func (c *RCase[T]) listen() *listener            { return &listener{ch: recvPtr(c.ch)} }
func (c *RCase[T]) plain() (done bool) {
	select {
	case c.v, c.ok = <-c.ch:
		return true
	default:
		return false
	}
}

// SCase is a sending case.
type SCase[T any] struct {
	ch chan<- T
	v  T
}

// SendCase makes one.
func SendCase[T any](ch chan<- T) func(T) *SCase[T] {
	return func(v T) *SCase[T] { return &SCase[T]{ch, v} }
}

func (c *SCase[T]) try(s *selection, nowait bool) bool {
	select {
	case c.ch <- c.v:
		Wake()
		return true
	default:
	}
	if nowait && c.ch != nil && cap(c.ch) == 0 && awaited(sendPtr(c.ch)) {
		o := newOffer(c.ch, c.v)
		pushOffer(o)
		Wake()
		return true
	}
	return false
}
func (c *SCase[T]) offer(s *selection, i int) *offer {
	if c.ch == nil || cap(c.ch) != 0 {
		return nil
	}
	o := newOffer(c.ch, c.v)
	o.sel, o.index = s, i
	return o
}
func (c *SCase[T]) listen() *listener { return nil }
func (c *SCase[T]) plain() bool {
	select {
	case c.ch <- c.v:
		return true
	default:
		return false
	}
}

// Select is a select statement; -1 stands for the default case.
func Select(nowait bool, cases ...SelCase) int {
	n := len(cases)
	if !simulated() {
		for {
			for i, c := range cases {
				if c.plain() {
					return i
				}
			}
			if nowait {
				return -1
			}
			Block() // gives way
		}
	}
	Y(0)
	for first := true; ; first = false {
		h := uint64(Steps()) * 0x9e3779b97f4a7c15 >> 33
		for k := 0; k < n; k++ {
			i := (k + int(h%uint64(n))) % n
			if cases[i].try(nil, nowait) {
				Y(0)
				return i
			}
		}
		if nowait {
			Y(0)
			return -1
		}
		s := &selection{chosen: -1}
		var os []*offer
		var ls []*listener
		for i, c := range cases {
			if o := c.offer(s, i); o != nil {
				os = append(os, o)
				pushOffer(o)
			}
			if l := c.listen(); l != nil {
				ls = append(ls, l)
				listen(l)
			}
		}
		if first && len(os) > 0 {
			Wake()
		}
		Block()
		for _, l := range ls {
			unlisten(l)
		}
		for _, o := range os {
			dropOffer(o)
		}
		if i := chosenOf(s); i >= 0 {
			for _, o := range os {
				if isTaken(o) {
					o.back.Lock()
					o.back.Unlock()
				}
			}
			Y(0)
			return i
		}
	}
}

// Forever is select {}.
func Forever() {
	for simulated() {
		Block()
	}
	select {}
}
