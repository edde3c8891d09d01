// Package sync is the simulated package sync.
package sync

import (
	"simrt"
	realsync "sync"
)

// Locker is sync.Locker.
type Locker = realsync.Locker

// Mutex is a simulated mutex.
type Mutex struct{ held bool }

// Lock locks.
func (m *Mutex) Lock() {
	if simrt.W == nil {
		m.held = true
		return
	}
	simrt.SP()
	simrt.BlockUntil("mutex", func() bool { return !m.held })
	m.held = true
}

// TryLock tries to lock.
func (m *Mutex) TryLock() bool {
	simrt.SP()
	if m.held {
		return false
	}
	m.held = true
	return true
}

// Unlock unlocks.
func (m *Mutex) Unlock() {
	simrt.Alive()
	if !m.held {
		simrt.Fatal("sync: unlock of unlocked mutex")
	}
	m.held = false
	simrt.SP()
}

// RWMutex is a simulated reader/writer mutex; waiting writers block readers.
type RWMutex struct {
	w, r, ww int
}

// Lock locks for writing.
func (m *RWMutex) Lock() {
	if simrt.W == nil {
		m.w = 1
		return
	}
	simrt.SP()
	m.ww++
	simrt.BlockUntil("rwmutex (write)", func() bool { return m.w == 0 && m.r == 0 })
	m.ww--
	m.w = 1
}

// TryLock tries to lock for writing.
func (m *RWMutex) TryLock() bool {
	simrt.SP()
	if m.w != 0 || m.r != 0 {
		return false
	}
	m.w = 1
	return true
}

// Unlock unlocks.
func (m *RWMutex) Unlock() {
	simrt.Alive()
	if m.w == 0 {
		simrt.Fatal("sync: Unlock of unlocked RWMutex")
	}
	m.w = 0
	simrt.SP()
}

// RLock locks for reading.
func (m *RWMutex) RLock() {
	if simrt.W == nil {
		m.r++
		return
	}
	simrt.SP()
	simrt.BlockUntil("rwmutex (read)", func() bool { return m.w == 0 && m.ww == 0 })
	m.r++
}

// TryRLock tries to lock for reading.
func (m *RWMutex) TryRLock() bool {
	simrt.SP()
	if m.w != 0 || m.ww != 0 {
		return false
	}
	m.r++
	return true
}

// RUnlock unlocks.
func (m *RWMutex) RUnlock() {
	simrt.Alive()
	if m.r == 0 {
		simrt.Fatal("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	simrt.SP()
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

// RLocker returns a Locker for reading.
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// WaitGroup is a simulated wait group.
type WaitGroup struct{ n int }

// Add adds.
func (g *WaitGroup) Add(d int) {
	simrt.SP()
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

// Done is Add(-1).
func (g *WaitGroup) Done() {
	g.Add(-1)
	simrt.SP()
}

// Wait waits for zero.
func (g *WaitGroup) Wait() {
	if simrt.W == nil {
		return
	}
	simrt.SP()
	simrt.BlockUntil("waitgroup", func() bool { return g.n == 0 })
}

// Go runs f in a task.
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	simrt.Go("WaitGroup.Go", func() {
		defer g.Done()
		f()
	})
}

// Once runs a function once.
type Once struct {
	m    Mutex
	done bool
}

// Do runs f the first time.
func (o *Once) Do(f func()) {
	simrt.SP()
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

// OnceValues is sync.OnceValues.
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) {
		o.Do(func() { a, b = f() })
		return a, b
	}
}

// Cond is a simulated condition variable.
type Cond struct {
	L  Locker
	ws []*bool
}

// NewCond makes one.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait waits.
func (c *Cond) Wait() {
	woken := false
	c.ws = append(c.ws, &woken)
	c.L.Unlock()
	simrt.BlockUntil("cond", func() bool { return woken })
	c.L.Lock()
}

// Signal wakes one.
func (c *Cond) Signal() {
	simrt.SP()
	if len(c.ws) > 0 {
		*c.ws[0] = true
		c.ws = c.ws[1:]
	}
}

// Broadcast wakes all.
func (c *Cond) Broadcast() {
	simrt.SP()
	for _, w := range c.ws {
		*w = true
	}
	c.ws = nil
}

// Map is a simulated concurrent map; it ranges in insertion order.
type Map struct {
	m    map[any]any
	keys []any
}

func (m *Map) ld(k any) (any, bool) { v, ok := m.m[k]; return v, ok }
func (m *Map) st(k, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}
func (m *Map) rm(k any) {
	if _, ok := m.m[k]; !ok {
		return
	}
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			return
		}
	}
}

// Load loads.
func (m *Map) Load(k any) (any, bool) { simrt.SP(); return m.ld(k) }

// Store stores.
func (m *Map) Store(k, v any) { simrt.SP(); m.st(k, v); simrt.SP() }

// LoadOrStore loads or stores.
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	simrt.SP()
	if o, ok := m.ld(k); ok {
		return o, true
	}
	m.st(k, v)
	return v, false
}

// LoadAndDelete loads and deletes.
func (m *Map) LoadAndDelete(k any) (any, bool) {
	simrt.SP()
	v, ok := m.ld(k)
	m.rm(k)
	return v, ok
}

// Delete deletes.
func (m *Map) Delete(k any) { simrt.SP(); m.rm(k) }

// Swap swaps.
func (m *Map) Swap(k, v any) (any, bool) {
	simrt.SP()
	o, ok := m.ld(k)
	m.st(k, v)
	return o, ok
}

// CompareAndSwap swaps if equal.
func (m *Map) CompareAndSwap(k, o, n any) bool {
	simrt.SP()
	v, ok := m.ld(k)
	if !ok || v != o {
		return false
	}
	m.st(k, n)
	return true
}

// CompareAndDelete deletes if equal.
func (m *Map) CompareAndDelete(k, o any) bool {
	simrt.SP()
	v, ok := m.ld(k)
	if !ok || v != o {
		return false
	}
	m.rm(k)
	return true
}

// Range ranges.
func (m *Map) Range(f func(k, v any) bool) {
	for _, k := range append([]any{}, m.keys...) {
		simrt.SP()
		if v, ok := m.ld(k); ok && !f(k, v) {
			return
		}
	}
}

// Clear clears.
func (m *Map) Clear() { simrt.SP(); m.m, m.keys = nil, nil }

// Pool is a simulated pool: what Get returns is the simulator's choice.
type Pool struct {
	New func() any
	xs  []any
}

// Get gets.
func (p *Pool) Get() any {
	simrt.SP()
	n := len(p.xs)
	if n > 0 && simrt.W != nil && simrt.W.Choice(4) != 0 {
		i := simrt.W.Choice(n)
		x := p.xs[i]
		p.xs = append(p.xs[:i:i], p.xs[i+1:]...)
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put puts.
func (p *Pool) Put(x any) {
	if x != nil {
		p.xs = append(p.xs, x)
	}
	simrt.SP()
}
