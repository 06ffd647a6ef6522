// Package simcontext stands in for context in the code under test: deadlines
// are on the simulated clock, and waiting for a context is part of the schedule.
package simcontext

import (
	std "context"
	"sync"
	"time"

	"verif/simrt"
	"verif/simtime"
)

func Background() Context                            { return std.Background() }
func TODO() Context                                  { return std.TODO() }
func WithValue(parent Context, key, val any) Context { return std.WithValue(parent, key, val) }
func WithoutCancel(parent Context) Context           { return std.WithoutCancel(parent) }
func WithCancel(parent Context) (Context, CancelFunc) {
	c := newCtx(parent)
	return c, func() { c.cancel(Canceled, nil) }
}

func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	c := newCtx(parent)
	return c, func(cause error) { c.cancel(Canceled, cause) }
}

func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadlineCause(parent, simtime.Now().Add(d), nil)
}

func WithTimeoutCause(parent Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(parent, simtime.Now().Add(d), cause)
}

func WithDeadline(parent Context, t time.Time) (Context, CancelFunc) {
	return WithDeadlineCause(parent, t, nil)
}

func WithDeadlineCause(parent Context, t time.Time, cause error) (Context, CancelFunc) {
	c := newCtx(parent)
	if p, ok := parent.Deadline(); ok && p.Before(t) {
		return c, func() { c.cancel(Canceled, nil) }
	}
	c.has, c.until = true, t
	left := simtime.Until(t)
	if left <= 0 {
		c.cancel(std.DeadlineExceeded, cause)
		return c, func() {}
	}
	tm := simtime.AfterFunc(left, func() { c.cancel(std.DeadlineExceeded, cause) })
	return c, func() { tm.Stop(); c.cancel(Canceled, nil) }
}

type ctx struct {
	Context // parent
	done    chan struct{}
	m       sync.Mutex // no scheduling point while it is held
	err     error
	cause   error
	has     bool
	until   time.Time
	kids    []func(err, cause error)
}

type ctxKey struct{}

func newCtx(parent Context) *ctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &ctx{Context: parent, done: make(chan struct{})}
	if p, ok := parent.Value(ctxKey{}).(*ctx); ok && p.Done() == parent.Done() {
		p.onEnd(c.cancel)
	} else if d := parent.Done(); d != nil {
		simrt.Go(func() {
			a, b := simrt.RecvCase(d), simrt.RecvCase((<-chan struct{})(c.done))
			if simrt.Select(false, a, b) == 0 {
				c.cancel(parent.Err(), std.Cause(parent))
			}
		})
	}
	return c
}

func (c *ctx) onEnd(f func(err, cause error)) {
	c.m.Lock()
	err, cause := c.err, c.cause
	if err == nil {
		c.kids = append(c.kids, f)
	}
	c.m.Unlock()
	if err != nil {
		f(err, cause)
	}
}

func (c *ctx) cancel(err, cause error) {
	if cause == nil {
		cause = err
	}
	c.m.Lock()
	if c.err != nil {
		c.m.Unlock()
		return
	}
	c.err, c.cause = err, cause
	kids := c.kids
	c.kids = nil
	c.m.Unlock()
	simrt.Close(c.done)
	for _, f := range kids {
		f(err, cause)
	}
}

func (c *ctx) Done() <-chan struct{} { return c.done }

func (c *ctx) Err() error {
	simrt.Y(0)
	c.m.Lock()
	defer c.m.Unlock()
	return c.err
}

func (c *ctx) Deadline() (time.Time, bool) {
	if c.has {
		return c.until, true
	}
	return c.Context.Deadline()
}

func (c *ctx) Value(k any) any {
	if k == (ctxKey{}) {
		return c
	}
	return c.Context.Value(k)
}

// Cause is context.Cause.
func Cause(c Context) error {
	if p, ok := c.Value(ctxKey{}).(*ctx); ok && p.Done() == c.Done() {
		p.m.Lock()
		defer p.m.Unlock()
		return p.cause
	}
	return std.Cause(c)
}

// AfterFunc is context.AfterFunc.
func AfterFunc(c Context, f func()) (stop func() bool) {
	var m sync.Mutex
	over := false
	take := func() bool {
		m.Lock()
		defer m.Unlock()
		was := !over
		over = true
		return was
	}
	fam := simrt.Family()
	newCtx(c).onEnd(func(error, error) {
		if take() {
			simrt.Start(fam, f)
		}
	})
	return take
}
