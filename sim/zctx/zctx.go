//go:build go1.24

// Package zctx replaces package context in instrumented code.
package zctx

import (
	"context"
	"time"

	"github.com/dblokhin/gringo/zzsim/zsync"
	"github.com/dblokhin/gringo/zzsim/ztime"
	"github.com/dblokhin/gringo/zzsim/zzrt"
)

type cctx struct {
	parent context.Context
	mu     zsync.Mutex
	done   chan struct{}
	err    error
	cause  error
	dl     time.Time
	hasDl  bool
	timer  *ztime.Timer
	kids   []*cctx
	fns    []func()
}

func (c *cctx) Deadline() (time.Time, bool) {
	if c.hasDl {
		return c.dl, true
	}
	return c.parent.Deadline()
}
func (c *cctx) Done() <-chan struct{} { return c.done }
func (c *cctx) Err() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}

type ckey struct{}

func (c *cctx) Value(k any) any {
	if _, ok := k.(ckey); ok {
		return c
	}
	return c.parent.Value(k)
}
func (c *cctx) cancel(err, cause error) {
	c.mu.Lock()
	if c.err != nil {
		c.mu.Unlock()
		return
	}
	c.err, c.cause = err, cause
	if cause == nil {
		c.cause = err
	}
	zzrt.Close(c.done)
	kids, fns := c.kids, c.fns
	c.kids, c.fns = nil, nil
	c.mu.Unlock()
	for _, k := range kids {
		k.cancel(err, c.cause)
	}
	for _, f := range fns {
		zzrt.Go(f)
	}
	if c.timer != nil {
		c.timer.Stop()
	}
}

func newC(parent context.Context) *cctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &cctx{parent: parent, done: make(chan struct{})}
	if p, ok := parent.Value(ckey{}).(*cctx); ok {
		p.mu.Lock()
		if p.err != nil {
			e, ca := p.err, p.cause
			p.mu.Unlock()
			c.cancel(e, ca)
		} else {
			p.kids = append(p.kids, c)
			p.mu.Unlock()
		}
	}
	return c
}

// WithCancel and the following are as in package context.
func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := newC(parent)
	return c, func() { c.cancel(context.Canceled, nil) }
}
func WithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	c := newC(parent)
	return c, func(e error) { c.cancel(context.Canceled, e) }
}
func WithDeadlineCause(parent context.Context, d time.Time, cause error) (context.Context, context.CancelFunc) {
	c := newC(parent)
	if cur, ok := parent.Deadline(); !ok || d.Before(cur) {
		c.dl, c.hasDl = d, true
		dur := ztime.Until(d)
		if dur <= 0 {
			c.cancel(context.DeadlineExceeded, cause)
		} else {
			c.timer = ztime.AfterFunc(dur, func() { c.cancel(context.DeadlineExceeded, cause) })
		}
	}
	return c, func() { c.cancel(context.Canceled, nil) }
}
func WithDeadline(parent context.Context, d time.Time) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}
func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithDeadline(parent, ztime.Now().Add(d))
}
func WithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, ztime.Now().Add(d), cause)
}
func Cause(c context.Context) error {
	if p, ok := c.Value(ckey{}).(*cctx); ok {
		p.mu.Lock()
		defer p.mu.Unlock()
		return p.cause
	}
	return c.Err()
}
func AfterFunc(ctx context.Context, f func()) func() bool {
	p, ok := ctx.Value(ckey{}).(*cctx)
	if !ok {
		return func() bool { return true }
	}
	var o zsync.Once
	stopped := false
	p.mu.Lock()
	g := func() { o.Do(func() { f() }) }
	if p.err != nil {
		p.mu.Unlock()
		zzrt.Go(g)
	} else {
		p.fns = append(p.fns, g)
		p.mu.Unlock()
	}
	return func() bool { o.Do(func() { stopped = true }); return stopped }
}

type nocancel struct{ context.Context }

func (nocancel) Deadline() (time.Time, bool) { return time.Time{}, false }
func (nocancel) Done() <-chan struct{}       { return nil }
func (nocancel) Err() error                  { return nil }
func (n nocancel) Value(k any) any {
	if _, ok := k.(ckey); ok {
		return nil
	}
	return n.Context.Value(k)
}
func WithoutCancel(parent context.Context) context.Context { return nocancel{parent} }
