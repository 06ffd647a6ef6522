// Package simtime stands in for time in the code under test: the clock and the
// timers are the simulator's.
package simtime

import (
	"time"

	"verif/simrt"
)

func Now() Time                    { return time.Unix(0, simrt.Epoch+simrt.Ahead+simrt.Elapsed()).UTC() }
func Since(t Time) Duration        { return Now().Sub(t) }
func Until(t Time) Duration        { return t.Sub(Now()) }
func Sleep(d Duration)             { simrt.Sleep(int64(d)) }
func After(d Duration) <-chan Time { return NewTimer(d).C }

// Timer is time.Timer on the simulated clock.
type Timer struct {
	C <-chan Time
	c chan Time
	t *simrt.Timer
}

func newTimer(c chan Time, f func()) *Timer {
	return &Timer{C: c, c: c, t: simrt.NewTimer(f)}
}

func put(c chan Time) {
	select {
	case c <- Now():
	default:
	}
}

func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	t := newTimer(c, func() { put(c) })
	t.t.Set(int64(d))
	simrt.Y(0)
	return t
}

func AfterFunc(d Duration, f func()) *Timer {
	fam := simrt.Family()
	t := newTimer(nil, func() { simrt.Start(fam, f) })
	t.t.Set(int64(d))
	simrt.Y(0)
	return t
}

// drain is what Stop and Reset do since Go 1.23: no stale value is received.
func (t *Timer) drain() bool {
	select {
	case <-t.c:
		return true
	default:
		return false
	}
}

func (t *Timer) Stop() bool {
	was := t.t.Stop()
	if t.c != nil && t.drain() {
		was = true
	}
	simrt.Y(0)
	return was
}

func (t *Timer) Reset(d Duration) bool {
	was := t.Stop()
	t.t.Set(int64(d))
	return was
}

// Ticker is time.Ticker on the simulated clock.
type Ticker struct {
	C <-chan Time
	c chan Time
	t *simrt.Timer
	d Duration
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	t.t = simrt.NewTimer(func() {
		put(c)
		if simrt.On() {
			t.t.Set(int64(t.d))
		}
	})
	t.t.Set(int64(d))
	return t
}

func (t *Ticker) Stop() { t.t.Stop(); simrt.Y(0) }

func (t *Ticker) Reset(d Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	t.t.Stop()
	t.d = d
	t.t.Set(int64(d))
}

func Tick(d Duration) <-chan Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
