// Package vctx replaces package context on the controlled runtime.
package vctx

import (
	"context"
	"fmt"
	"time"
	"vrt"
	"vrt/vtime"
)

// Context is context.Context with a controlled Done channel.
type Context interface {
	Deadline() (deadline time.Time, ok bool)
	Done() *vrt.Chan[struct{}]
	Err() error
	Value(key any) any
}

type CancelFunc func()
type CancelCauseFunc func(cause error)

var Canceled = context.Canceled
var DeadlineExceeded = context.DeadlineExceeded

type emptyCtx struct{ name string }

func (emptyCtx) Deadline() (time.Time, bool) { return time.Time{}, false }
func (emptyCtx) Done() *vrt.Chan[struct{}]   { return nil }
func (emptyCtx) Err() error                  { return nil }
func (emptyCtx) Value(key any) any           { return nil }
func (e emptyCtx) String() string            { return e.name }

func Background() Context { return emptyCtx{"context.Background"} }
func TODO() Context       { return emptyCtx{"context.TODO"} }

type keyT struct{}

var cancelKey = new(keyT)

type cancelCtx struct {
	Context
	obj      vrt.ObjID
	done     *vrt.Chan[struct{}]
	err      error
	cause    error
	children map[*cancelCtx]bool
	order    []*cancelCtx
	parent   *cancelCtx
	deadline time.Time
	hasDL    bool
	timer    vrt.TimerHandle
	after    func()
	release  *vrt.VC
}

func (c *cancelCtx) Done() *vrt.Chan[struct{}] { return c.done }
func (c *cancelCtx) Err() error {
	var e error
	vrt.Op("ctx.Err", []vrt.ObjID{c.obj}, nil, func(s *vrt.Sched, t *vrt.Thread) {
		e = c.err
		s.Acquire(t, c.obj)
	})
	return e
}
func (c *cancelCtx) Deadline() (time.Time, bool) {
	if c.hasDL {
		return c.deadline, true
	}
	return c.Context.Deadline()
}
func (c *cancelCtx) Value(key any) any {
	if key == any(cancelKey) {
		return c
	}
	return c.Context.Value(key)
}

func (c *cancelCtx) cancel(t *vrt.Thread, err, cause error) {
	if c.err != nil {
		return
	}
	c.err = err
	if cause == nil {
		cause = err
	}
	c.cause = cause
	c.timer.Stop()
	c.done.CloseNow(t)
	for _, k := range c.order {
		if c.children[k] {
			k.cancel(t, err, cause)
		}
	}
	c.children, c.order = nil, nil
	if c.parent != nil {
		delete(c.parent.children, c)
	}
	if c.after != nil {
		vrt.GoNamed("ctx.AfterFunc", c.after)
	}
}

func newCancel(parent Context) *cancelCtx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &cancelCtx{Context: parent, done: vrt.MakeChan[struct{}]()}
	p, _ := parent.Value(cancelKey).(*cancelCtx)
	if p == nil || parent.Done() != p.done {
		c.obj = vrt.NewObjID()
		c.done.SetObj(c.obj)
		if p == nil && parent.Done() == nil {
			return c
		}
		// a foreign context type: watch its Done channel like package context does
		d := parent.Done()
		vrt.GoNamed("ctx watcher", func() {
			vrt.Daemon()
			r := vrt.RecvCase(d)
			if vrt.Select(false, r, vrt.RecvCase(c.done)) == 0 {
				e := parent.Err()
				c.doCancel(e, nil)
			}
		})
		return c
	}
	c.obj = p.obj
	c.done.SetObj(c.obj)
	vrt.Op("derive context", []vrt.ObjID{c.obj}, nil, func(s *vrt.Sched, t *vrt.Thread) {
		if p.err != nil {
			s.Acquire(t, c.obj)
			c.cancel(t, p.err, p.cause)
			return
		}
		c.parent = p
		if p.children == nil {
			p.children = map[*cancelCtx]bool{}
		}
		p.children[c] = true
		p.order = append(p.order, c)
	})
	return c
}

func (c *cancelCtx) doCancel(err, cause error) {
	vrt.Op(fmt.Sprintf("cancel (%v)", err), []vrt.ObjID{c.obj}, nil, func(s *vrt.Sched, t *vrt.Thread) {
		s.Release(t, c.obj)
		c.cancel(t, err, cause)
	})
}

func WithCancel(parent Context) (Context, CancelFunc) {
	c := newCancel(parent)
	return c, func() { c.doCancel(Canceled, nil) }
}

func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	c := newCancel(parent)
	return c, func(cause error) { c.doCancel(Canceled, cause) }
}

func WithDeadline(parent Context, d time.Time) (Context, CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

func WithDeadlineCause(parent Context, d time.Time, cause error) (Context, CancelFunc) {
	c := newCancel(parent)
	if cur, ok := parent.Deadline(); ok && cur.Before(d) {
		return c, func() { c.doCancel(Canceled, nil) }
	}
	c.deadline, c.hasDL = d, true
	dur := vtime.Until(d)
	if dur <= 0 {
		c.doCancel(DeadlineExceeded, cause)
		return c, func() {}
	}
	if c.err == nil {
		c.timer = vrt.StartTimer(dur, 0, "context deadline", func() { c.cancel(nil, DeadlineExceeded, cause) })
	}
	return c, func() { c.doCancel(Canceled, nil) }
}

func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(parent, vtime.Now().Add(d))
}

func WithTimeoutCause(parent Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(parent, vtime.Now().Add(d), cause)
}

func Cause(c Context) error {
	if p, ok := c.Value(cancelKey).(*cancelCtx); ok {
		var e error
		vrt.Op("context.Cause", []vrt.ObjID{p.obj}, nil, func(s *vrt.Sched, t *vrt.Thread) { e = p.cause; s.Acquire(t, p.obj) })
		return e
	}
	return c.Err()
}

func AfterFunc(ctx Context, f func()) (stop func() bool) {
	c := newCancel(ctx)
	run := false
	if c.err != nil {
		run = true
		vrt.GoNamed("ctx.AfterFunc", f)
	} else {
		c.after = func() { f() }
	}
	return func() bool {
		if run || c.err != nil {
			return false
		}
		ok := false
		vrt.Op("AfterFunc stop", []vrt.ObjID{c.obj}, nil, func(s *vrt.Sched, t *vrt.Thread) {
			if c.err == nil {
				ok = true
				c.after = nil
				c.cancel(t, Canceled, nil)
			}
		})
		return ok
	}
}

type withoutCancel struct{ c Context }

func (withoutCancel) Deadline() (time.Time, bool) { return time.Time{}, false }
func (withoutCancel) Done() *vrt.Chan[struct{}]   { return nil }
func (withoutCancel) Err() error                  { return nil }
func (w withoutCancel) Value(key any) any {
	if key == any(cancelKey) {
		return nil
	}
	return w.c.Value(key)
}

func WithoutCancel(parent Context) Context { return withoutCancel{parent} }

type valueCtx struct {
	Context
	k, v any
}

func (v *valueCtx) Value(key any) any {
	if key == v.k {
		return v.v
	}
	return v.Context.Value(key)
}

func WithValue(parent Context, key, val any) Context {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	if key == nil {
		panic("nil key")
	}
	return &valueCtx{parent, key, val}
}

// ---- harness side ----

// Live reports how many derived, not yet released contexts hang below c.
func Live(c Context) int {
	if p, ok := c.Value(cancelKey).(*cancelCtx); ok {
		return len(p.children)
	}
	return 0
}

// PeekErr is Err without a scheduling point.
func PeekErr(c Context) error {
	if p, ok := c.Value(cancelKey).(*cancelCtx); ok {
		return p.err
	}
	return nil
}

// Released reports whether the innermost cancellable context of c has been cancelled or has expired.
func Released(c Context) bool { return PeekErr(c) != nil }

// CancelAt cancels a context at a virtual instant (a clock event, not a thread).
func CancelAt(parent Context, d time.Duration) Context {
	c := newCancel(parent)
	vrt.StartTimer(d, 0, "caller cancels", func() { c.cancel(nil, Canceled, nil) })
	return c
}

// DerivedFrom reports whether c is p or derives its cancellation and values from it.
func DerivedFrom(c, p Context) bool {
	for c != nil {
		if c == p {
			return true
		}
		switch x := c.(type) {
		case *cancelCtx:
			c = x.Context
		case *valueCtx:
			c = x.Context
		default:
			return false
		}
	}
	return false
}
