package context

import (
	"context"
	"time"

	"verif.local/io/sys"
	"verif.local/simk"
)

type simCtx struct {
	context.Context
	cancel   context.CancelFunc
	deadline time.Time
	hasDl    bool
	err      error
	t        *sys.Timer
}

func (c *simCtx) Deadline() (time.Time, bool) {
	if c.hasDl {
		return c.deadline, true
	}
	return c.Context.Deadline()
}

func (c *simCtx) Err() error {
	if c.err != nil {
		return c.err
	}
	return c.Context.Err()
}

func WithCancel(parent Context) (Context, CancelFunc) {
	ctx, cancel := context.WithCancel(parent)
	return ctx, func() { cancel(); sys.WakeChans() }
}

func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(parent, time.Unix(0, simk.Clock()).Add(d))
}

func WithDeadline(parent Context, at time.Time) (Context, CancelFunc) {
	ctx, cancel := context.WithCancel(parent)
	c := &simCtx{Context: ctx, deadline: at, hasDl: true}
	if d, ok := parent.Deadline(); ok && d.Before(at) {
		c.deadline = d
	}
	c.t = sys.AddTimer(at.Sub(time.Unix(0, simk.Clock())), 0, func() {
		if c.Context.Err() == nil {
			c.err = context.DeadlineExceeded
		}
		cancel()
		sys.WakeChans()
	})
	return c, func() { c.t.Stop(); cancel(); sys.WakeChans() }
}
