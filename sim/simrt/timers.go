package simrt

import (
	"sort"
	"time"
	"unsafe"
)

type timer struct {
	at   int64
	seq  int
	fire func()
}

// After schedules fn at simulated time now+d; fn must not block.
func (w *World) After(d int64, fn func()) *timer {
	if d < 0 {
		d = 0
	}
	w.tseq++
	t := &timer{at: w.now + d, seq: w.tseq, fire: fn}
	w.timers = append(w.timers, t)
	sort.Slice(w.timers, func(i, j int) bool {
		if w.timers[i].at != w.timers[j].at {
			return w.timers[i].at < w.timers[j].at
		}
		return w.timers[i].seq < w.timers[j].seq
	})
	return t
}

func (w *World) cancel(t *timer) bool {
	for i, x := range w.timers {
		if x == t {
			w.timers = append(w.timers[:i:i], w.timers[i+1:]...)
			return true
		}
	}
	return false
}

var epoch = time.Unix(1600000000, 0).UTC()

// NowTime is the simulated clock: a wall clock, which may jump, and as in package
// time a monotonic reading, which may not.
func NowTime() time.Time {
	if W == nil {
		return epoch
	}
	return clockReading(epoch.Add(time.Duration(W.now+W.skew)), W.now+1)
}

// timeLayout is time.Time.
type timeLayout struct {
	wall uint64
	ext  int64
	loc  *time.Location
}

var sinceYear1885 = int64(time.Unix(0, 0).UTC().Sub(time.Date(1885, 1, 1, 0, 0, 0, 0, time.UTC)) / time.Second)

func withMono(t time.Time, mono int64) time.Time {
	l := timeLayout{wall: 1<<63 | uint64(t.Unix()+sinceYear1885)<<30 | uint64(t.Nanosecond()), ext: mono}
	return *(*time.Time)(unsafe.Pointer(&l))
}

// clockReading makes a time with a monotonic reading, if package time is as it is known.
var clockReading = func() func(time.Time, int64) time.Time {
	plain := func(t time.Time, _ int64) time.Time { return t }
	if unsafe.Sizeof(time.Time{}) != unsafe.Sizeof(timeLayout{}) {
		return plain
	}
	a, b := withMono(epoch, 5), withMono(epoch.Add(time.Hour), 12)
	if !a.Equal(epoch) || !a.Round(0).Equal(epoch) || b.Sub(a) != 7 || b.Round(0).Sub(a.Round(0)) != time.Hour ||
		a.String() == epoch.String() || a.Add(3).Sub(a) != 3 {
		return plain
	}
	return withMono
}()

// SleepFor blocks the current task for a simulated duration.
func SleepFor(d int64) {
	w := W
	if w == nil {
		return
	}
	if d <= 0 {
		w.sp(30)
		return
	}
	t := w.cur
	w.After(d, func() { w.unblock(t) })
	w.block("sleep")
}

// Timer support for package stime.

// StartTimer runs fn after d; the returned function cancels it.
func StartTimer(d int64, fn func()) func() bool {
	w := W
	if w == nil {
		return func() bool { return false }
	}
	t := w.After(d, fn)
	return func() bool { return w.cancel(t) }
}

// TrySend delivers v on ch without blocking, from a timer.
func TrySend[T any](ch chan T, v T) {
	w := W
	if w == nil {
		return
	}
	c := w.chanOf(ptrOf(&ch), cap(ch), ch, false)
	if !c.closed && c.canSend() {
		c.doSend(w, v)
	}
}

// Spawn starts a task from a timer (time.AfterFunc).
func Spawn(site string, fn func()) {
	w := W
	t := w.spawn(site, -1)
	go w.taskBody(t, fn, false)
}

// Discard empties the buffer of a timer channel.
func Discard[T any](ch chan T) {
	if W != nil {
		W.chanOf(ptrOf(&ch), cap(ch), ch, false).buf = nil
	}
}
