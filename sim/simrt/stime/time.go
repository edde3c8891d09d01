// Package stime holds the simulated parts of package time.
package stime

import (
	"simrt"
	"time"
)

// Now is the simulated clock.
func Now() time.Time { simrt.SP(); return simrt.NowTime() }

// Since is time since t on the simulated clock.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until is the time until t.
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Sleep sleeps.
func Sleep(d time.Duration) { simrt.SleepFor(int64(d)) }

// Timer is time.Timer.
type Timer struct {
	C    <-chan time.Time
	c    chan time.Time
	f    func()
	stop func() bool
}

func (t *Timer) start(d time.Duration) {
	t.stop = simrt.StartTimer(int64(d), func() {
		if t.f != nil {
			simrt.Spawn("time.AfterFunc", t.f)
		} else {
			simrt.TrySend(t.c, simrt.NowTime())
		}
	})
}

// NewTimer makes a timer.
func NewTimer(d time.Duration) *Timer {
	c := simrt.MakeChan(make(chan time.Time, 1))
	t := &Timer{C: c, c: c}
	t.start(d)
	return t
}

// AfterFunc runs f later.
func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

// After is a channel that delivers later.
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

// Stop stops the timer.
func (t *Timer) Stop() bool {
	simrt.SP()
	r := t.stop()
	if t.c != nil {
		simrt.Discard(t.c)
	}
	return r
}

// Reset restarts the timer.
func (t *Timer) Reset(d time.Duration) bool {
	r := t.Stop()
	t.start(d)
	return r
}

// Ticker is time.Ticker.
type Ticker struct {
	C    <-chan time.Time
	c    chan time.Time
	d    time.Duration
	stop func() bool
	off  bool
}

// NewTicker makes a ticker.
func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := simrt.MakeChan(make(chan time.Time, 1))
	t := &Ticker{C: c, c: c, d: d}
	t.arm()
	return t
}

func (t *Ticker) arm() {
	t.stop = simrt.StartTimer(int64(t.d), func() {
		if t.off {
			return
		}
		simrt.TrySend(t.c, simrt.NowTime())
		t.arm()
	})
}

// Stop stops the ticker.
func (t *Ticker) Stop() { simrt.SP(); t.off = true; t.stop() }

// Reset changes the period.
func (t *Ticker) Reset(d time.Duration) { t.Stop(); t.off = false; t.d = d; t.arm() }

// Tick is time.Tick.
func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }
