// Package sctx replaces the functions of package context which start goroutines or timers
package sctx

import (
	"context"
	"time"
	"unsafe"

	"github.com/solarisdb/solaris/zsim/sim"
	"github.com/solarisdb/solaris/zsim/stime"
)

type keyT int

var key keyT

type cctx struct {
	context.Context
	done     chan struct{}
	err      error
	cause    error
	children []*cctx
	after    []func()
	parent   *cctx
	deadline time.Time
	hasDL    bool
	timer    *stime.Timer
}

func (c *cctx) Done() <-chan struct{} { return c.done }
func (c *cctx) Err() error {
	sim.Y()
	if c.err != nil {
		sim.Acq(unsafe.Pointer(c))
	}
	return c.err
}
func (c *cctx) Value(k any) any {
	if k == &key {
		return c
	}
	return c.Context.Value(k)
}
func (c *cctx) Deadline() (time.Time, bool) {
	if c.hasDL {
		return c.deadline, true
	}
	return c.Context.Deadline()
}

func (c *cctx) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	c.err = err
	sim.Rel(unsafe.Pointer(c))
	if cause == nil {
		cause = err
	}
	c.cause = cause
	sim.CloseNow(c.done)
	ch := c.children
	c.children = nil
	for _, x := range ch {
		x.cancel(err, cause)
	}
	for _, f := range c.after {
		sim.GoNamed("ctx.after", sim.CurNode(), f)
	}
	c.after = nil
	if c.parent != nil {
		p := c.parent
		for i, x := range p.children {
			if x == c {
				p.children = append(p.children[:i:i], p.children[i+1:]...)
				break
			}
		}
	}
	if c.timer != nil {
		c.timer.Stop()
	}
}

func newCtx(parent context.Context) *cctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	sim.Enter()
	c := &cctx{Context: parent, done: make(chan struct{})}
	pd := parent.Done()
	if pd == nil {
		return c
	}
	if p, ok := parent.Value(&key).(*cctx); ok && (<-chan struct{})(p.done) == pd {
		if p.err != nil {
			c.cancel(p.err, p.cause)
		} else {
			c.parent = p
			p.children = append(p.children, c)
		}
		return c
	}
	sim.Go(func() {
		r := sim.R(pd)
		d := sim.R((<-chan struct{})(c.done))
		if sim.Select(false, r, d) == 0 {
			c.cancel(parent.Err(), context.Cause(parent))
		}
	})
	return c
}

func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	return c, func() { sim.YS(); c.cancel(context.Canceled, nil) }
}

func WithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	c := newCtx(parent)
	return c, func(cause error) { sim.YS(); c.cancel(context.Canceled, cause) }
}

func WithDeadline(parent context.Context, d time.Time) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

func WithDeadlineCause(parent context.Context, d time.Time, cause error) (context.Context, context.CancelFunc) {
	if pd, ok := parent.Deadline(); ok && pd.Before(d) {
		return WithCancel(parent)
	}
	c := newCtx(parent)
	c.deadline, c.hasDL = d, true
	dur := stime.Until(d)
	if dur <= 0 {
		c.cancel(context.DeadlineExceeded, cause)
	} else if c.err == nil {
		c.timer = stime.AfterFunc(dur, func() { c.cancel(context.DeadlineExceeded, cause) })
	}
	return c, func() { sim.YS(); c.cancel(context.Canceled, nil) }
}

func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithDeadline(parent, stime.Now().Add(d))
}

func WithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, stime.Now().Add(d), cause)
}

func AfterFunc(ctx context.Context, f func()) func() bool {
	c := newCtx(ctx)
	fired, stopped := false, false
	g := func() {
		if !stopped {
			fired = true
			f()
		}
	}
	if c.err != nil {
		sim.GoNamed("ctx.after", sim.CurNode(), g)
	} else {
		c.after = append(c.after, g)
	}
	return func() bool {
		if fired || stopped {
			return false
		}
		stopped = true
		return true
	}
}

func Cause(c context.Context) error {
	if p, ok := c.Value(&key).(*cctx); ok {
		if p.err != nil {
			sim.Acq(unsafe.Pointer(p))
		}
		return p.cause
	}
	return c.Err()
}

// WithoutCancel is as in package context, but hides the canceller from Value
func WithoutCancel(parent context.Context) context.Context { return nocancel{parent} }

type nocancel struct{ c context.Context }

func (nocancel) Deadline() (time.Time, bool) { return time.Time{}, false }
func (nocancel) Done() <-chan struct{}       { return nil }
func (nocancel) Err() error                  { return nil }
func (n nocancel) Value(k any) any {
	if k == &key {
		return nil
	}
	return n.c.Value(k)
}
