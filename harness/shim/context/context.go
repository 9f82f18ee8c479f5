// Package context is the standard package context under the controlled scheduler.
package context

import (
	real "context"
	"errors"
	"time"

	"verif.local/v/mc"
	vsync "verif.local/v/shim/sync"
	vtime "verif.local/v/shim/time"
)

type Context = real.Context
type CancelFunc = real.CancelFunc
type CancelCauseFunc = real.CancelCauseFunc

var Canceled = real.Canceled
var DeadlineExceeded = real.DeadlineExceeded

func Background() Context { return real.Background() }
func TODO() Context       { return real.TODO() }

type cctx struct {
	parent   Context
	mu       vsync.Mutex
	done     chan struct{}
	err      error
	cause    error
	children []func(err, cause error)
	deadline time.Time
	hasDL    bool
	timer    *vtime.Timer
}

type keyT struct{}

var selfKey keyT

func (c *cctx) Deadline() (time.Time, bool) {
	if c.hasDL {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *cctx) Done() <-chan struct{} { return c.done }
func (c *cctx) Err() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}
func (c *cctx) Value(k any) any {
	if k == any(&selfKey) {
		return c
	}
	return c.parent.Value(k)
}

func (c *cctx) cancel(err, cause error) {
	c.mu.Lock()
	if c.err != nil {
		c.mu.Unlock()
		return
	}
	if cause == nil {
		cause = err
	}
	c.err, c.cause = err, cause
	mc.Close(c.done)
	ch := c.children
	c.children = nil
	c.mu.Unlock()
	for _, f := range ch {
		f(err, cause)
	}
	if c.timer != nil {
		c.timer.Stop()
	}
}

func newC(parent Context) *cctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &cctx{parent: parent, done: make(chan struct{})}
	if p, ok := parent.Value(&selfKey).(*cctx); ok && p != nil {
		p.mu.Lock()
		if p.err != nil {
			e, ca := p.err, p.cause
			p.mu.Unlock()
			c.cancel(e, ca)
		} else {
			p.children = append(p.children, c.cancel)
			p.mu.Unlock()
		}
	} else if d := parent.Done(); d != nil {
		mc.Go(func() {
			a, b := mc.CRecv(d), mc.CRecv(c.done)
			if mc.Select(false, a, b) == 0 {
				c.cancel(parent.Err(), nil)
			}
		})
	}
	return c
}

func WithCancel(parent Context) (Context, CancelFunc) {
	c := newC(parent)
	return c, func() { c.cancel(Canceled, nil) }
}
func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	c := newC(parent)
	return c, func(cause error) { c.cancel(Canceled, cause) }
}
func WithDeadline(parent Context, d time.Time) (Context, CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}
func WithDeadlineCause(parent Context, d time.Time, cause error) (Context, CancelFunc) {
	if cur, ok := parent.Deadline(); ok && cur.Before(d) {
		return WithCancel(parent)
	}
	c := newC(parent)
	c.deadline, c.hasDL = d, true
	left := d.Sub(vtime.Now())
	if left <= 0 {
		c.cancel(DeadlineExceeded, cause)
	} else if c.Err() == nil {
		c.timer = vtime.AfterFunc(left, func() { c.cancel(DeadlineExceeded, cause) })
	}
	return c, func() { c.cancel(Canceled, nil) }
}
func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(parent, vtime.Now().Add(d))
}
func WithTimeoutCause(parent Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(parent, vtime.Now().Add(d), cause)
}
func WithValue(parent Context, key, val any) Context { return real.WithValue(parent, key, val) }

type without struct{ Context }

func (without) Deadline() (d time.Time, ok bool) { return }
func (without) Done() <-chan struct{}            { return nil }
func (without) Err() error                       { return nil }
func (w without) Value(k any) any {
	if k == any(&selfKey) {
		return nil
	}
	return w.Context.Value(k)
}

func WithoutCancel(parent Context) Context { return without{parent} }

func Cause(c Context) error {
	if p, ok := c.Value(&selfKey).(*cctx); ok && p != nil {
		p.mu.Lock()
		defer p.mu.Unlock()
		return p.cause
	}
	return c.Err()
}

func AfterFunc(ctx Context, f func()) (stop func() bool) {
	c := newC(ctx)
	fired := false
	c.mu.Lock()
	if c.err != nil {
		c.mu.Unlock()
		mc.Go(f)
		return func() bool { return false }
	}
	c.children = append(c.children, func(err, cause error) {
		if err != errStop {
			fired = true
			mc.Go(f)
		}
	})
	c.mu.Unlock()
	return func() bool {
		if fired || c.Err() != nil {
			return false
		}
		c.cancel(errStop, nil)
		return true
	}
}

var errStop = errors.New("stopped")
