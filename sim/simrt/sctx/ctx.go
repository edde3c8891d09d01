// Package sctx holds the simulated parts of package context.
package sctx

import (
	"context"
	"simrt"
	"time"
)

type dctx struct {
	context.Context
	at  time.Time
	due *bool
}

func (d dctx) Deadline() (time.Time, bool) { return d.at, true }
func (d dctx) Err() error {
	if e := d.Context.Err(); e != nil && *d.due {
		return context.DeadlineExceeded
	} else {
		return e
	}
}

// WithDeadline is context.WithDeadline.
func WithDeadline(p context.Context, at time.Time) (context.Context, context.CancelFunc) {
	return WithTimeout(p, at.Sub(simrt.NowTime()))
}

// WithTimeout is context.WithTimeout.
func WithTimeout(p context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	c, cancel := context.WithCancel(p)
	due := false
	stop := simrt.StartTimer(int64(d), func() {
		if c.Err() == nil {
			due = true
			cancel()
		}
	})
	return dctx{c, simrt.NowTime().Add(d), &due}, func() { stop(); cancel() }
}

// AfterFunc is context.AfterFunc.
func AfterFunc(c context.Context, f func()) func() bool {
	stopped, started := false, false
	simrt.Go("context.AfterFunc", func() {
		simrt.BlockUntil("context", func() bool { return stopped || c.Err() != nil })
		if !stopped {
			started = true
			f()
		}
	})
	return func() bool {
		simrt.SP()
		r := !stopped && !started
		stopped = true
		return r
	}
}
