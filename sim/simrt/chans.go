package simrt

import (
	"reflect"
	"unsafe"
)

type waiter struct {
	t    *Task
	ch   *chanState
	val  any
	ok   bool
	send bool
	sel  *selWait
	idx  int
	done bool
	pan  bool
	poll func() (any, bool, bool) // foreign channel: value, ok, ready
}

type selWait struct {
	fired int
	val   any
	ok    bool
	pan   bool
	ws    []*waiter
}

type chanState struct {
	id      int
	cap     int
	buf     []any
	closed  bool
	recvq   []*waiter
	sendq   []*waiter
	foreign bool
	keep    any
}

func chanPtr(c any) uintptr { return reflect.ValueOf(c).Pointer() }

func ptrOf[T any](p *T) uintptr { return *(*uintptr)(unsafe.Pointer(p)) }

func (w *World) chanOf(p uintptr, capacity int, keep any, foreign bool) *chanState {
	c, ok := w.chans[p]
	if !ok {
		c = &chanState{id: w.chanSeq, cap: capacity, keep: keep, foreign: foreign}
		w.chanSeq++
		w.chans[p] = c
	}
	return c
}

// MakeChan registers a channel made by instrumented code.
func MakeChan[C any](c C) C {
	if W != nil {
		v := reflect.ValueOf(c)
		W.chanOf(v.Pointer(), v.Cap(), c, false)
	}
	return c
}

func (c *chanState) popRecv() *waiter {
	for len(c.recvq) > 0 {
		x := c.recvq[0]
		c.recvq = c.recvq[1:]
		if !x.done {
			return x
		}
	}
	return nil
}

func (c *chanState) popSend() *waiter {
	for len(c.sendq) > 0 {
		x := c.sendq[0]
		c.sendq = c.sendq[1:]
		if !x.done {
			return x
		}
	}
	return nil
}

func (x *waiter) finish(w *World, v any, ok, pan bool) {
	x.done = true
	if x.sel != nil {
		x.sel.fired, x.sel.val, x.sel.ok, x.sel.pan = x.idx, v, ok, pan
		for _, o := range x.sel.ws {
			o.done = true
		}
	} else {
		x.val, x.ok, x.pan = v, ok, pan
	}
	w.unblock(x.t)
}

func live(q []*waiter) bool {
	for _, x := range q {
		if !x.done {
			return true
		}
	}
	return false
}

func (c *chanState) canSend() bool {
	return c.closed || len(c.buf) < c.cap || live(c.recvq)
}

func (c *chanState) canRecv() bool {
	return len(c.buf) > 0 || live(c.sendq) || c.closed
}

// trySend assumes canSend.
func (c *chanState) doSend(w *World, v any) {
	if c.closed {
		panic("send on closed channel")
	}
	if r := c.popRecv(); r != nil {
		r.finish(w, v, true, false)
		return
	}
	c.buf = append(c.buf, v)
}

func (c *chanState) doRecv(w *World) (any, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]
		if s := c.popSend(); s != nil {
			c.buf = append(c.buf, s.val)
			s.finish(w, nil, true, false)
		}
		return v, true
	}
	if s := c.popSend(); s != nil {
		v := s.val
		if s.sel != nil {
			v = s.val
		}
		s.finish(w, nil, true, false)
		return v, true
	}
	return nil, false // closed
}

// SendTo sends on ch: SendTo(ch)(v).
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) {
		w := W
		if w == nil {
			ch <- v
			return
		}
		w.sp(10)
		p := ptrOf(&ch)
		if p == 0 {
			w.block("send on nil channel")
		}
		c := w.chanOf(p, cap(ch), ch, true)
		w.note(11, uint64(c.id))
		if c.canSend() {
			c.doSend(w, v)
		} else {
			x := &waiter{t: w.cur, ch: c, val: v, send: true}
			c.sendq = append(c.sendq, x)
			w.block("channel send")
			if x.pan {
				panic("send on closed channel")
			}
		}
		w.sp(12)
	}
}

func recvAny[T any](ch <-chan T) (T, bool) {
	w := W
	var zero T
	if w == nil {
		v, ok := <-ch
		return v, ok
	}
	w.sp(13)
	p := ptrOf(&ch)
	if p == 0 {
		w.block("receive on nil channel")
	}
	c := w.chanOf(p, cap(ch), ch, true)
	w.note(14, uint64(c.id))
	var v any
	var ok bool
	if c.canRecv() {
		v, ok = c.doRecv(w)
	} else {
		x := &waiter{t: w.cur, ch: c}
		if c.foreign {
			select {
			case r, o := <-ch:
				w.sp(15)
				return r, o
			default:
			}
			x.poll = pollFn(ch)
			w.pollers = append(w.pollers, x)
		}
		c.recvq = append(c.recvq, x)
		w.block("channel receive")
		v, ok = x.val, x.ok
	}
	w.sp(15)
	if !ok {
		return zero, false
	}
	r, _ := v.(T)
	return r, true
}

func pollFn[T any](ch <-chan T) func() (any, bool, bool) {
	return func() (any, bool, bool) {
		select {
		case r, o := <-ch:
			return r, o, true
		default:
			return nil, false, false
		}
	}
}

func (w *World) poll() {
	keep := w.pollers[:0]
	for _, x := range w.pollers {
		if x.done {
			continue
		}
		if v, ok, rdy := x.poll(); rdy {
			x.finish(w, v, ok, false)
			continue
		}
		keep = append(keep, x)
	}
	w.pollers = keep
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := recvAny(ch)
	return v
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) { return recvAny(ch) }

// Range1 starts a range loop over ch.
func Range1[T any](ch <-chan T) (<-chan T, T, bool) {
	v, ok := recvAny(ch)
	return ch, v, ok
}

// Range0 starts a range loop over ch that ignores the values.
func Range0[T any](ch <-chan T) (<-chan T, bool) {
	_, ok := recvAny(ch)
	return ch, ok
}

// RecvOK receives and reports only ok.
func RecvOK[T any](ch <-chan T) bool {
	_, ok := recvAny(ch)
	return ok
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	w := W
	if w == nil {
		close(ch)
		return
	}
	w.sp(16)
	p := ptrOf(&ch)
	if p == 0 {
		panic("close of nil channel")
	}
	c := w.chanOf(p, cap(ch), ch, true)
	w.note(17, uint64(c.id))
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	for {
		r := c.popRecv()
		if r == nil {
			break
		}
		r.finish(w, nil, false, false)
	}
	for {
		s := c.popSend()
		if s == nil {
			break
		}
		s.finish(w, nil, false, true)
	}
	w.sp(18)
}

// ChanLen is len(ch).
func ChanLen(ch any) int {
	w := W
	v := reflect.ValueOf(ch)
	if w == nil || v.IsNil() {
		return v.Len()
	}
	w.sp(19)
	c, ok := w.chans[v.Pointer()]
	if !ok || c.foreign {
		return v.Len()
	}
	return len(c.buf)
}

// SelCase is a case of a select statement.
type SelCase interface{ base() *selBase }

type selBase struct {
	send bool
	ptr  uintptr
	cap  int
	keep any
	val  any
	poll func() (any, bool, bool)
	rv   any
	rok  bool
}

// RecvCase is a receiving case.
type RecvCase[T any] struct{ b selBase }

func (c *RecvCase[T]) base() *selBase { return &c.b }

// Val is the received value.
func (c *RecvCase[T]) Val() T {
	v, _ := c.b.rv.(T)
	return v
}

// OK reports whether the value came from a send.
func (c *RecvCase[T]) OK() bool { return c.b.rok }

// Both returns value and ok.
func (c *RecvCase[T]) Both() (T, bool) { return c.Val(), c.b.rok }

// NewRecv makes a receiving case.
func NewRecv[T any](ch <-chan T) *RecvCase[T] {
	c := &RecvCase[T]{}
	c.b.ptr, c.b.cap, c.b.keep = ptrOf(&ch), cap(ch), ch
	if ch != nil {
		c.b.poll = pollFn(ch)
	}
	return c
}

// SendCase is a sending case.
type SendCase struct{ b selBase }

func (c *SendCase) base() *selBase { return &c.b }

// NewSend makes a sending case: NewSend(ch)(v).
func NewSend[T any](ch chan<- T) func(T) *SendCase {
	return func(v T) *SendCase {
		c := &SendCase{}
		c.b.send, c.b.ptr, c.b.cap, c.b.keep, c.b.val = true, ptrOf(&ch), cap(ch), ch, v
		return c
	}
}

// Select runs a select statement; -1 means the default case.
func Select(hasDefault bool, cases ...SelCase) int {
	w := W
	if w == nil {
		panic("simrt: select outside a simulation")
	}
	w.sp(20)
	var rdy []int
	st := make([]*chanState, len(cases))
	for i, sc := range cases {
		b := sc.base()
		if b.ptr == 0 {
			continue
		}
		c := w.chanOf(b.ptr, b.cap, b.keep, true)
		st[i] = c
		if b.send {
			if c.canSend() {
				rdy = append(rdy, i)
			}
			continue
		}
		if c.canRecv() {
			rdy = append(rdy, i)
		} else if c.foreign {
			// a value taken from a foreign channel is kept in its buffer
			if v, ok, r := b.poll(); r {
				if ok {
					c.buf = append(c.buf, v)
				} else {
					c.closed = true
				}
				rdy = append(rdy, i)
			}
		}
	}
	if len(rdy) > 0 {
		i := rdy[w.Choice(len(rdy))]
		b := cases[i].base()
		w.note(21, uint64(i))
		if b.send {
			st[i].doSend(w, b.val)
		} else {
			b.rv, b.rok = st[i].doRecv(w)
		}
		w.sp(22)
		return i
	}
	if hasDefault {
		return -1
	}
	s := &selWait{fired: -1}
	for i, sc := range cases {
		b := sc.base()
		if st[i] == nil {
			continue
		}
		x := &waiter{t: w.cur, ch: st[i], val: b.val, send: b.send, sel: s, idx: i}
		s.ws = append(s.ws, x)
		if b.send {
			st[i].sendq = append(st[i].sendq, x)
		} else {
			st[i].recvq = append(st[i].recvq, x)
			if st[i].foreign {
				x.poll = b.poll
				w.pollers = append(w.pollers, x)
			}
		}
	}
	w.block("select")
	b := cases[s.fired].base()
	if b.send {
		if s.pan {
			panic("send on closed channel")
		}
	} else {
		b.rv, b.rok = s.val, s.ok
	}
	w.sp(22)
	return s.fired
}
