// Package vcontext replaces context: cancellation and deadlines use virtual channels and the virtual clock.
package vcontext

import (
	real "context"
	"errors"
	"time"
	"vshim/vsched"
	"vshim/vtime"
)

type Context = real.Context
type CancelFunc = real.CancelFunc
type CancelCauseFunc = real.CancelCauseFunc

var (
	Canceled         = real.Canceled
	DeadlineExceeded = real.DeadlineExceeded
)

func Background() Context                               { return real.Background() }
func TODO() Context                                     { return real.TODO() }
func WithValue(p Context, key, val interface{}) Context { return real.WithValue(p, key, val) }

type key struct{}

// A cctx can be cancelled; values of its parents stay visible.
type cctx struct {
	Context
	done     chan struct{}
	err      error
	cause    error
	deadline time.Time
	children []func(err, cause error)
}

func (c *cctx) Done() <-chan struct{} { return c.done }

func (c *cctx) Err() error {
	vsched.Point("ctx.Err")
	return c.err
}

func (c *cctx) Deadline() (time.Time, bool) {
	if !c.deadline.IsZero() {
		return c.deadline, true
	}
	return c.Context.Deadline()
}

func (c *cctx) Value(k interface{}) interface{} {
	if _, ok := k.(key); ok {
		return c
	}
	return c.Context.Value(k)
}

func (c *cctx) cancel(err, cause error) {
	vsched.Point("ctx cancel")
	if c.err != nil {
		return
	}
	if cause == nil {
		cause = err
	}
	c.err, c.cause = err, cause
	children := c.children
	c.children = nil
	vsched.Close[struct{}](c.done)
	for _, f := range children {
		f(err, cause)
	}
}

func of(p Context) *cctx {
	c, _ := p.Value(key{}).(*cctx)
	return c
}

func derive(p Context) *cctx {
	if p == nil {
		panic("cannot create context from nil parent")
	}
	c := &cctx{Context: p, done: make(chan struct{})}
	if q := of(p); q != nil {
		if q.err != nil {
			c.cancel(q.err, q.cause)
		} else {
			q.children = append(q.children, c.cancel)
		}
	}
	return c
}

func WithCancel(p Context) (Context, CancelFunc) {
	c := derive(p)
	return c, func() { c.cancel(Canceled, nil) }
}

func WithCancelCause(p Context) (Context, CancelCauseFunc) {
	c := derive(p)
	return c, func(cause error) { c.cancel(Canceled, cause) }
}

func WithTimeout(p Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(p, vtime.Now().Add(d))
}

func WithTimeoutCause(p Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(p, vtime.Now().Add(d), cause)
}

func WithDeadline(p Context, t time.Time) (Context, CancelFunc) { return WithDeadlineCause(p, t, nil) }

func WithDeadlineCause(p Context, t time.Time, cause error) (Context, CancelFunc) {
	if d, ok := p.Deadline(); ok && d.Before(t) {
		return WithCancel(p)
	}
	c := derive(p)
	c.deadline = t
	tm := vtime.AfterFunc(vtime.Until(t), func() { c.cancel(DeadlineExceeded, cause) })
	return c, func() {
		tm.Stop()
		c.cancel(Canceled, nil)
	}
}

func Cause(c Context) error {
	if q := of(c); q != nil {
		return q.cause
	}
	return c.Err()
}

type detached struct{ Context }

func (detached) Done() <-chan struct{}            { return nil }
func (detached) Err() error                       { return nil }
func (detached) Deadline() (t time.Time, ok bool) { return }
func (d detached) Value(k interface{}) interface{} {
	if _, ok := k.(key); ok {
		return nil
	}
	return d.Context.Value(k)
}

func WithoutCancel(p Context) Context {
	if p == nil {
		panic(errors.New("cannot create context from nil parent"))
	}
	return detached{p}
}

func AfterFunc(c Context, f func()) (stop func() bool) {
	ran := false
	run := func(error, error) {
		if !ran {
			ran = true
			vsched.Go("afterfunc", f)
		}
	}
	if q := of(c); q != nil {
		if q.err != nil {
			run(nil, nil)
		} else {
			q.children = append(q.children, run)
		}
	}
	return func() bool {
		was := !ran
		ran = true
		return was
	}
}
