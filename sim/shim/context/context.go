// Package context is the standard package with simulated locks, channels and
// timers.
package context

import (
	rc "context"
	"errors"

	"verif/sim/shim/sync"
	"verif/sim/shim/time"
	"verif/sim/vsim"
)

type (
	// Context is the standard interface.
	Context = rc.Context
	// CancelFunc is the standard type.
	CancelFunc = rc.CancelFunc
	// CancelCauseFunc is the standard type.
	CancelCauseFunc = rc.CancelCauseFunc
)

// Errors of the standard package.
var (
	Canceled         = rc.Canceled
	DeadlineExceeded = rc.DeadlineExceeded
)

// Background is the standard function.
func Background() Context { return rc.Background() }

// TODO is the standard function.
func TODO() Context { return rc.TODO() }

// WithValue is the standard function.
func WithValue(p Context, k, v interface{}) Context { return rc.WithValue(p, k, v) }

type keyT int

var key keyT

type ctx struct {
	Context
	mu       sync.Mutex
	done     chan struct{}
	err      error
	cause    error
	order    []*ctx
	f        func()
	deadline time.Time
	dl       bool
	timer    *time.Timer
}

func (c *ctx) Done() <-chan struct{} { return c.done }

func (c *ctx) Err() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}

func (c *ctx) Deadline() (time.Time, bool) {
	if c.dl {
		return c.deadline, true
	}
	return c.Context.Deadline()
}

func (c *ctx) Value(k interface{}) interface{} {
	if k == &key {
		return c
	}
	return c.Context.Value(k)
}

func (c *ctx) cancel(err, cause error) bool {
	c.mu.Lock()
	if c.err != nil {
		c.mu.Unlock()
		return false
	}
	if cause == nil {
		cause = err
	}
	c.err, c.cause = err, cause
	if c.done != nil {
		vsim.Close(c.done, 0)
	}
	kids := c.order
	c.order = nil
	if c.timer != nil {
		c.timer.Stop()
	}
	f := c.f
	c.mu.Unlock()
	for _, k := range kids {
		k.cancel(err, cause)
	}
	if f != nil {
		vsim.Go(0, f)
	}
	return true
}

func derive(p Context) *ctx {
	if p == nil {
		panic("cannot create context from nil parent")
	}
	c := &ctx{Context: p, done: make(chan struct{})}
	if pc, ok := p.Value(&key).(*ctx); ok {
		pc.mu.Lock()
		err, cause := pc.err, pc.cause
		if err == nil {
			pc.order = append(pc.order, c)
		}
		pc.mu.Unlock()
		if err != nil {
			c.cancel(err, cause)
		}
	}
	return c
}

// WithCancel is the standard function.
func WithCancel(p Context) (Context, CancelFunc) {
	c := derive(p)
	return c, func() { c.cancel(Canceled, nil) }
}

// WithCancelCause is the standard function.
func WithCancelCause(p Context) (Context, CancelCauseFunc) {
	c := derive(p)
	return c, func(cause error) { c.cancel(Canceled, cause) }
}

// WithDeadline is the standard function.
func WithDeadline(p Context, d time.Time) (Context, CancelFunc) { return WithDeadlineCause(p, d, nil) }

// WithDeadlineCause is the standard function.
func WithDeadlineCause(p Context, d time.Time, cause error) (Context, CancelFunc) {
	c := derive(p)
	if o, ok := p.Deadline(); !ok || d.Before(o) {
		c.deadline, c.dl = d, true
		if w := time.Until(d); w <= 0 {
			c.cancel(DeadlineExceeded, cause)
		} else {
			c.mu.Lock()
			if c.err == nil {
				c.timer = time.AfterFunc(w, func() { c.cancel(DeadlineExceeded, cause) })
			}
			c.mu.Unlock()
		}
	}
	return c, func() { c.cancel(Canceled, nil) }
}

// WithTimeout is the standard function.
func WithTimeout(p Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(p, time.Now().Add(d))
}

// WithTimeoutCause is the standard function.
func WithTimeoutCause(p Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(p, time.Now().Add(d), cause)
}

// Cause is the standard function.
func Cause(p Context) error {
	if c, ok := p.Value(&key).(*ctx); ok {
		c.mu.Lock()
		defer c.mu.Unlock()
		return c.cause
	}
	return p.Err()
}

type detached struct{ Context }

func (detached) Deadline() (t time.Time, ok bool) { return }
func (detached) Done() <-chan struct{}            { return nil }
func (detached) Err() error                       { return nil }
func (d detached) Value(k interface{}) interface{} {
	if k == &key {
		return nil
	}
	return d.Context.Value(k)
}

// WithoutCancel is the standard function.
func WithoutCancel(p Context) Context {
	if p == nil {
		panic("cannot create context from nil parent")
	}
	return detached{p}
}

// AfterFunc is the standard function.
func AfterFunc(p Context, f func()) func() bool {
	c := derive(rc.Background())
	c.f = f
	pc, ok := p.Value(&key).(*ctx)
	if ok {
		pc.mu.Lock()
		err := pc.err
		if err == nil {
			pc.order = append(pc.order, c)
		}
		pc.mu.Unlock()
		if err != nil {
			c.cancel(err, nil)
		}
	}
	return func() bool {
		c.mu.Lock()
		stopped := c.err == nil
		if stopped {
			c.err = errors.New("stopped")
			c.f = nil
		}
		c.mu.Unlock()
		return stopped
	}
}
