// Package simrt is the runtime of the deterministic simulation: one simulated
// task runs at a time, and a seeded scheduler decides which one at every
// synchronisation point. It owns the clock, the random numbers, map iteration
// order, standard output and the file system seen by the instrumented code.
package simrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
)

// Sched configures the scheduler of one run. It is part of the replay file.
type Sched struct {
	Policy string  `json:"policy"`           // rand, sticky, pct, rr, block, starve, replay
	Seed   uint64  `json:"seed"`             // seed of every scheduling choice
	Fine   bool    `json:"fine,omitempty"`   // preempt between statements too
	P      float64 `json:"p,omitempty"`      // preemption probability at statement points
	Depth  int     `json:"depth,omitempty"`  // pct: number of priority change points
	Span   int     `json:"span,omitempty"`   // pct: expected run length in steps
	Starve []int   `json:"starve,omitempty"` // spawn indices run only when nothing else can
	Stall  int     `json:"stall,omitempty"`  // every so many steps the running task is stalled
	StallN int     `json:"stalln,omitempty"` // for this many steps
	Jump   int     `json:"jump,omitempty"`   // every so many steps the clock jumps
	// Replay of a recorded schedule: deviations from "keep running the current
	// task, else the lowest runnable id".
	Dev []Deviation `json:"dev,omitempty"`
}

// Deviation says that at scheduling step At the task with this id was chosen.
type Deviation struct {
	At   int `json:"at"`
	Task int `json:"task"`
}

// Failure is a run-ending observation made by the runtime itself.
type Failure struct {
	Kind  string `json:"kind"` // deadlock, livelock, panic, racemap
	Msg   string `json:"msg"`
	Stack string `json:"-"`
}

type taskState int

const (
	ready taskState = iota
	blocked
	finished
)

// Task is a simulated goroutine.
type Task struct {
	ID      int
	Site    string
	Parent  int
	wake    chan struct{}
	gone    chan struct{}
	state   taskState
	what    string      // what it is blocked on
	pred    func() bool // if set, runnable when true
	prio    uint64
	stalled int // not before this step, if others can run
	pendKey uintptr
	pendW   bool
	Tag     string // harness label
	proc    *Proc  // the simulated process it belongs to, if there are several
}

// OutEvent is one piece of standard output.
type OutEvent struct {
	Step int
	Task int
	Text string
	At   int64
}

// World is one simulated process execution.
type World struct {
	Cfg   Sched
	Limit int // step limit
	TickL int // loop iteration limit

	tasks    []*Task // live tasks, by id
	all      []*Task // tasks whose goroutine may still exist
	cur      *Task
	nextID   int
	step     int
	ticks    int
	lastSP   int
	now      int64 // simulated nanoseconds
	skew     int64
	timers   []*timer
	tseq     int
	chans    map[uintptr]*chanState
	chanSeq  int
	pollers  []*waiter
	rng      uint64 // scheduling stream
	rand     uint64 // program random stream
	randFix  *float64
	randFrom int // draws before the fixed ones
	Draws    int // random draws of the program so far

	// RandFn, if set, may give the value in [0,1) of the program's nth random draw.
	RandFn  func(n int) (c float64, ok bool)
	choiceN uint64
	nextPre int // next fine preemption step
	devs    map[int]int
	pctAt   map[int]bool
	pctLow  uint64

	Trace    []Deviation
	Hash     uint64
	Switches int
	MaxTasks int
	Points   int
	Picks    int

	finePicks int
	FixMaps   bool // iterate maps in key order
	NoVecY    bool // no preemption inside functions that handle vectors

	Out      []OutEvent
	Fail     *Failure
	Exited   bool
	ExitCode int
	Killed   bool
	KillAt   int // kill the process at this step if > 0
	FS       *FS
	Term     *Terminal
	Probes   map[string]int
	dead     bool
	doneCh   chan struct{}
	mainDone bool
	OnStep   func(w *World)
	StarveFn func(t *Task) bool
	// StarvedRan counts the times a starved task had to be run.
	StarvedRan int
	OnStarved  func(w *World, t *Task)
}

// W is the world the running code lives in, nil outside simulations.
var W *World

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// Mix hashes two integers; harnesses derive seeds with it.
func Mix(a, b uint64) uint64 { return mix(mix(a) ^ (b+0x1234567)*0x9e3779b97f4a7c15) }

func (w *World) next() uint64 {
	w.rng += 0x9e3779b97f4a7c15
	z := w.rng
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (w *World) intn(n int) int { return int(w.next() % uint64(n)) }
func (w *World) float() float64 { return float64(w.next()>>11) / (1 << 53) }

// Choice is a deterministic choice in [0,n) that does not depend on the
// scheduling stream, so that it replays under a recorded schedule.
func (w *World) Choice(n int) int {
	w.choiceN++
	return int(mix(w.Cfg.Seed^mix(w.choiceN^0xabcdef)) % uint64(n))
}

// NewWorld makes a world; run it with Run.
func NewWorld(cfg Sched, randSeed uint64) *World {
	w := &World{
		Cfg: cfg, Limit: 2000000, TickL: 200000000,
		chans: map[uintptr]*chanState{}, rng: mix(cfg.Seed), rand: mix(randSeed ^ 0x5151),
		Probes: map[string]int{}, doneCh: make(chan struct{}, 1), Hash: 14695981039346656037,
		nextPre: 1 << 60,
	}
	if cfg.Policy == "replay" {
		w.devs = map[int]int{}
		for _, d := range cfg.Dev {
			w.devs[d.At] = d.Task
		}
		if cfg.Fine {
			w.replayNext()
		}
	} else if cfg.Fine {
		w.scheduleFine()
	}
	if cfg.Policy == "pct" {
		w.pctAt = map[int]bool{}
		span := cfg.Span
		if span <= 0 {
			span = 1000
		}
		for i := 0; i < cfg.Depth; i++ {
			w.pctAt[w.intn(span)+1] = true
		}
		w.pctLow = 1 << 62
	}
	return w
}

// FixRand makes every program random draw return the constant c in [0,1).
func (w *World) FixRand(c float64) { w.randFix = &c }

// FixRandAfter lets the first n draws be random.
func (w *World) FixRandAfter(n int, c float64) { w.randFix, w.randFrom = &c, n }

func (w *World) scheduleFine() {
	p := w.Cfg.P
	if p <= 0 {
		p = 0.01
	}
	// long runs are preempted less and less often
	switch {
	case w.finePicks > 60000:
		p = min(p, 0.002)
	case w.finePicks > 20000:
		p = min(p, 0.02)
	}
	// geometric skip
	n := 1
	for w.float() >= p {
		n++
		if n > 100000 {
			break
		}
	}
	w.nextPre = w.step + n
}

func (w *World) replayNext() {
	best := 1 << 60
	for at := range w.devs {
		if at > w.step && at < best {
			best = at
		}
	}
	w.nextPre = best
}

// Run executes main as task 0 and returns when it has finished, the process
// exited or was killed, or the runtime found a failure.
func (w *World) Run(main func()) {
	prev := W
	W = w
	defer func() { W = prev }()
	resetAll()
	t := w.spawn("main", -1)
	w.cur = t
	go w.taskBody(t, main, true)
	t.wake <- struct{}{}
	<-w.doneCh
	w.dead = true
	// end every goroutine of the world, one after the other
	for _, t := range w.all {
		select {
		case <-t.gone:
		case t.wake <- struct{}{}:
			<-t.gone
		}
	}
	w.all = nil
}

func (w *World) spawn(site string, parent int) *Task {
	t := &Task{ID: w.nextID, Site: site, Parent: parent, wake: make(chan struct{}, 1), gone: make(chan struct{}), prio: mix(w.Cfg.Seed^mix(uint64(w.nextID)+77)) >> 1}
	w.nextID++
	if w.cur != nil {
		t.proc = w.cur.proc
	}
	w.tasks = append(w.tasks, t)
	w.all = append(w.all, t)
	if len(w.all) > 256 {
		k := w.all[:0]
		for _, x := range w.all {
			select {
			case <-x.gone:
			default:
				k = append(k, x)
			}
		}
		w.all = k
	}
	if len(w.tasks) > w.MaxTasks {
		w.MaxTasks = len(w.tasks)
	}
	return t
}

func (w *World) taskBody(t *Task, fn func(), isMain bool) {
	defer close(t.gone)
	<-t.wake
	if w.dead {
		return
	}
	defer func() {
		if w.dead {
			return
		}
		if r := recover(); r != nil {
			w.fail("panic", fmt.Sprint(r), string(debug.Stack()))
			return
		}
		t.state = finished
		w.remove(t)
		if isMain {
			w.mainDone = true
			w.end()
			return
		}
		w.handoff(t, false)
	}()
	fn()
}

func (w *World) remove(t *Task) {
	for i, x := range w.tasks {
		if x == t {
			w.tasks = append(w.tasks[:i], w.tasks[i+1:]...)
			return
		}
	}
}

func (w *World) end() {
	if !w.dead {
		w.dead = true
		w.doneCh <- struct{}{}
	}
}

// park ends the calling goroutine: its world is over.
func park() { runtime.Goexit() }

func (w *World) fail(kind, msg, stack string) {
	if w.Fail == nil && !w.dead {
		w.Fail = &Failure{Kind: kind, Msg: msg, Stack: stack}
	}
	w.end()
}

func (w *World) failHere(kind, msg string) {
	w.fail(kind, msg, string(debug.Stack()))
	park()
}

func (w *World) note(a, b uint64) {
	w.Hash = (w.Hash ^ (a*31 + b)) * 1099511628211
}

func (w *World) runnable() []*Task {
	if len(w.pollers) > 0 {
		w.poll()
	}
	rs := make([]*Task, 0, len(w.tasks))
	for _, t := range w.tasks {
		if t.state == ready || (t.state == blocked && t.pred != nil && t.pred()) {
			rs = append(rs, t)
		}
	}
	return rs
}

// advance makes simulated time pass; due timers fire.
func (w *World) advance(d int64) {
	w.now += d
	if w.Cfg.Jump > 0 && w.step%w.Cfg.Jump == w.Cfg.Jump-1 {
		// clock jump, forward or backward, up to an hour
		j := int64(mix(w.Cfg.Seed^uint64(w.step))%7200000) - 3600000
		w.skew = j * 1000000
		w.Probes["fault:clock-jump"]++
	}
	for len(w.timers) > 0 && w.timers[0].at <= w.now {
		t := w.timers[0]
		w.timers = w.timers[1:]
		t.fire()
	}
}

// tickStep is one scheduling step: a microsecond passes.
func (w *World) tickStep() {
	w.step++
	if w.KillAt > 0 && w.step >= w.KillAt {
		w.Killed = true
		w.end()
		park()
	}
	w.advance(1000)
}

// pick decides who runs next. cur may be not runnable.
func (w *World) pick(cur *Task, fine bool) *Task {
	w.Picks++
	if fine {
		w.finePicks++
	}
	if w.Picks-w.finePicks > w.Limit || w.Picks > 20*w.Limit {
		w.failHere("livelock", fmt.Sprintf("no end after %d scheduling steps; %s", w.Limit, w.describe()))
	}
	w.tickStep()
	rs := w.runnable()
	for len(rs) == 0 {
		if len(w.timers) == 0 {
			w.failHere("deadlock", "all goroutines are asleep: "+w.describe())
		}
		w.advance(w.timers[0].at - w.now)
		rs = w.runnable()
	}
	def := rs[0]
	curOK := false
	for _, t := range rs {
		if t == cur {
			def = t
			curOK = true
		}
	}
	ch := def
	if len(rs) > 1 {
		if w.devs != nil {
			if id, ok := w.devs[w.step]; ok {
				for _, t := range rs {
					if t.ID == id {
						ch = t
					}
				}
			}
		} else {
			ch = w.policy(cur, curOK, rs, fine)
		}
	} else if w.starved(ch) {
		w.StarvedRan++
		if w.OnStarved != nil {
			w.OnStarved(w, ch)
		}
	}
	if ch != def {
		w.Trace = append(w.Trace, Deviation{w.step, ch.ID})
	}
	if w.Cfg.Fine {
		if w.devs != nil {
			w.replayNext()
		} else {
			w.scheduleFine()
		}
	}
	if ch.state == blocked {
		ch.state = ready
		ch.pred = nil
	}
	return ch
}

func (w *World) starved(t *Task) bool {
	if w.StarveFn != nil {
		return w.StarveFn(t)
	}
	for _, i := range w.Cfg.Starve {
		if t.ID == i {
			return true
		}
	}
	return false
}

func (w *World) policy(cur *Task, curOK bool, rs []*Task, fine bool) *Task {
	// starvation and stalls filter the candidates
	if w.StarveFn != nil || len(w.Cfg.Starve) > 0 {
		var keep []*Task
		for _, t := range rs {
			if !w.starved(t) {
				keep = append(keep, t)
			}
		}
		if len(keep) > 0 {
			rs = keep
		} else {
			w.StarvedRan++
			if w.OnStarved != nil {
				w.OnStarved(w, rs[0])
			}
		}
	}
	if w.Cfg.Stall > 0 {
		if w.next()%uint64(w.Cfg.Stall) == 0 {
			v := rs[w.intn(len(rs))]
			v.stalled = w.step + w.Cfg.StallN
			w.Probes["fault:stalled-task"]++
		}
		var keep []*Task
		for _, t := range rs {
			if t.stalled <= w.step {
				keep = append(keep, t)
			}
		}
		if len(keep) > 0 {
			rs = keep
		}
	}
	has := false
	for _, t := range rs {
		if t == cur {
			has = true
		}
	}
	switch w.Cfg.Policy {
	case "sticky":
		if has && !fine && w.next()%10 != 0 {
			return cur
		}
		return rs[w.intn(len(rs))]
	case "block":
		if has && !fine {
			return cur
		}
		return rs[w.intn(len(rs))]
	case "rr":
		best := rs[0]
		for _, t := range rs {
			if cur != nil && t.ID > cur.ID {
				best = t
				break
			}
		}
		return best
	case "pct":
		if w.pctAt[w.step] && has {
			w.pctLow--
			cur.prio = w.pctLow - (1 << 61)
		}
		best := rs[0]
		for _, t := range rs {
			if t.prio > best.prio {
				best = t
			}
		}
		return best
	case "lifo":
		return rs[len(rs)-1]
	case "fifo":
		return rs[0]
	default: // rand
		return rs[w.intn(len(rs))]
	}
}

func (w *World) describe() string {
	s := ""
	for _, t := range w.tasks {
		st := "running"
		if t.state == blocked {
			st = "blocked on " + t.what
		}
		s += fmt.Sprintf("[task %d %s: %s] ", t.ID, t.Site, st)
	}
	return s
}

// handoff passes control from t (which must not continue unless picked).
func (w *World) handoff(t *Task, wait bool) {
	if w.dead {
		if wait {
			park()
		}
		return
	}
	n := w.pick(t, false)
	w.switchTo(t, n, wait)
}

func (w *World) switchTo(t, n *Task, wait bool) {
	w.note(uint64(n.ID), uint64(w.step))
	if n == t && wait {
		return
	}
	w.Switches++
	w.cur = n
	n.wake <- struct{}{}
	if wait {
		<-t.wake
		if w.dead {
			park()
		}
	}
}

// SP is a synchronisation point: the scheduler may run somebody else.
func SP() {
	w := W
	if w == nil {
		return
	}
	w.sp(1)
}

func (w *World) sp(kind uint64) {
	if w.dead {
		park()
	}
	t := w.cur
	w.Points++
	w.lastSP = w.ticks
	w.note(kind, uint64(t.ID))
	n := w.pick(t, false)
	if n != t {
		w.switchTo(t, n, true)
	}
}

// Y is a preemption point between statements, active in fine mode only.
func Y() {
	w := W
	if w == nil || !w.Cfg.Fine {
		return
	}
	if w.dead {
		park()
	}
	if w.step+1 < w.nextPre {
		w.tickStep()
		return
	}
	t := w.cur
	w.note(3, uint64(t.ID))
	n := w.pick(t, true)
	if n != t {
		w.switchTo(t, n, true)
	}
}

// YV is a preemption point inside a function that handles vectors.
func YV() {
	if w := W; w == nil || w.NoVecY {
		return
	}
	Y()
}

// Tick counts a loop iteration; endless loops without synchronisation are
// found by the budget, and long ones are preempted now and then.
func Tick() {
	w := W
	if w == nil {
		return
	}
	w.ticks++
	if w.ticks-w.lastSP > 200000 {
		if w.ticks > w.TickL {
			w.failHere("livelock", fmt.Sprintf("no end after %d loop iterations; %s", w.TickL, w.describe()))
		}
		w.sp(2)
	} else if w.dead {
		park()
	}
}

// BlockUntil blocks the current task until pred holds.
func BlockUntil(what string, pred func() bool) {
	w := W
	if w.dead {
		park()
	}
	t := w.cur
	for !pred() {
		t.state = blocked
		t.what = what
		t.pred = pred
		w.handoff(t, true)
	}
}

func (w *World) block(what string) {
	t := w.cur
	t.state = blocked
	t.what = what
	t.pred = nil
	w.handoff(t, true)
}

func (w *World) unblock(t *Task) {
	t.state = ready
	t.pred = nil
}

// Go starts a simulated goroutine.
func Go(site string, fn func()) {
	w := W
	if w == nil {
		panic("simrt: go statement outside a simulation")
	}
	if w.dead {
		park()
	}
	t := w.spawn(site, w.cur.ID)
	w.note(5, uint64(t.ID))
	go w.taskBody(t, fn, false)
	w.sp(4)
}

// Current returns the running task.
func (w *World) Current() *Task { return w.cur }

// Live lists the live tasks other than the current one.
func (w *World) Live() []*Task {
	var r []*Task
	for _, t := range w.tasks {
		if t != w.cur {
			r = append(r, t)
		}
	}
	return r
}

// Blocked reports whether t waits for something that is not there yet.
func (t *Task) Blocked() bool {
	return t.state == blocked && (t.pred == nil || !t.pred())
}

// What describes what t is blocked on.
func (t *Task) What() string { return t.what }

// Step is the current scheduling step.
func (w *World) Step() int { return w.step }

// Now is the simulated time in nanoseconds.
func (w *World) Now() int64 { return w.now }

// Drain lets other tasks run until all have finished or none can run, at most
// n steps, and returns the live ones.
func (w *World) Drain(n int) []*Task {
	for i := 0; i < n; i++ {
		var can *Task
		if len(w.pollers) > 0 {
			w.poll()
		}
		for _, t := range w.tasks {
			if t != w.cur && (t.state == ready || (t.pred != nil && t.pred())) {
				can = t
				break
			}
		}
		if can == nil {
			if len(w.timers) == 0 {
				break
			}
			w.advance(w.timers[0].at - w.now)
			continue
		}
		me := w.cur
		me.state = ready
		w.Picks++
		if can.state == blocked {
			can.state = ready
			can.pred = nil
		}
		w.step++
		w.switchTo(me, can, true)
	}
	return w.Live()
}

// Proc is one of several simulated processes that share a world.
type Proc struct {
	ID       int
	Ended    bool
	Exited   bool // by a call of os.Exit
	ExitCode int
	Killed   bool
}

// StartProcess runs main as a process of its own, next to the current task.
// Its code must not share package variables with another process.
func StartProcess(site string, id int, main func()) *Proc {
	p := &Proc{ID: id}
	Go(site, func() {
		W.cur.proc = p
		main()
		p.end()
	})
	return p
}

// end stops every goroutine of the process; when the current one is among
// them it does not return.
func (p *Proc) end() {
	w := W
	p.Ended = true
	keep := w.tasks[:0]
	for _, t := range w.tasks {
		if t.proc != p {
			keep = append(keep, t)
		}
	}
	w.tasks = keep
	if t := w.cur; t.proc == p {
		t.state = finished
		w.handoff(t, true)
		park()
	}
}

// Kill ends the process at once.
func (p *Proc) Kill() {
	if !p.Ended {
		p.Killed = true
		p.end()
	}
}

// CurrentProc is the process of the running task, or nil.
func CurrentProc() *Proc {
	if W == nil || W.cur == nil {
		return nil
	}
	return W.cur.proc
}

// KillNow ends the simulated process at once.
func (w *World) KillNow() {
	if p := w.cur.proc; p != nil {
		p.Kill()
	}
	w.Killed = true
	w.end()
	park()
}

// Exit is os.Exit.
func Exit(code int) {
	w := W
	if w == nil {
		panic("simrt: exit outside a simulation")
	}
	if p := w.cur.proc; p != nil {
		p.Exited, p.ExitCode = true, code
		p.end()
	}
	w.Exited, w.ExitCode = true, code
	w.end()
	park()
}

// Probe counts that something interesting happened.
func Probe(name string) {
	if W != nil {
		W.Probes[name]++
	}
}

// Print appends to the captured standard output.
func Print(s string) {
	w := W
	if w == nil {
		return
	}
	w.Out = append(w.Out, OutEvent{w.step, w.cur.ID, s, w.now})
}

// PrintTo is Print to a standard output which may fail.
func PrintTo(s string) (n int, err error) {
	if W != nil && W.FS != nil {
		for _, f := range W.FS.Faults {
			if f.Op == "stdout" {
				n, err := W.FS.stdout(len(s))
				if n > 0 {
					Print(s[:n])
				}
				return n, err
			}
		}
	}
	Print(s)
	return len(s), nil
}

// Stdout returns everything printed so far.
func (w *World) Stdout() string {
	s := make([]byte, 0, 64)
	for _, e := range w.Out {
		s = append(s, e.Text...)
	}
	return string(s)
}

// ---- package variable reset ----

type resetFn struct {
	seq, order int
	fn         func()
}

var resets []resetFn
var pkgSeq = map[string]int{}

// RegisterReset is called by instrumented packages.
func RegisterReset(pkg string, order int, fn func()) {
	s, ok := pkgSeq[pkg]
	if !ok {
		s = len(pkgSeq)
		pkgSeq[pkg] = s
	}
	resets = append(resets, resetFn{s, order, fn})
}

var sorted int

func resetAll() {
	if sorted != len(resets) {
		sort.SliceStable(resets, func(i, j int) bool {
			if resets[i].seq != resets[j].seq {
				return resets[i].seq < resets[j].seq
			}
			return resets[i].order < resets[j].order
		})
		sorted = len(resets)
	}
	for _, r := range resets {
		r.fn()
	}
}

// ResetPackages re-runs the package variable initialisers.
func ResetPackages() { resetAll() }

// Zero resets a package variable.
func Zero[T any](p *T) {
	var z T
	*p = z
}

// ---- concurrent map access ----

// MapAcc is called right before a statement that accesses a map. If another
// task is suspended right before an access to the same map and one of the two
// writes, the two accesses are unsynchronised.
func MapAcc(f func() uintptr, write bool) {
	w := W
	if w == nil || !w.Cfg.Fine {
		return
	}
	if len(w.tasks) < 2 {
		Y()
		return
	}
	key := mapKey(f)
	if key == 0 {
		Y()
		return
	}
	t := w.cur
	for _, o := range w.tasks {
		if o != t && o.pendKey == key && (write || o.pendW) {
			w.failHere("racemap", fmt.Sprintf("concurrent map access by %s and %s: the Go runtime aborts the process", t.Site, o.Site))
		}
	}
	t.pendKey, t.pendW = key, write
	if w.devs == nil && len(w.tasks) > 1 && w.next()%4 == 0 {
		w.nextPre = w.step + 1
	}
	Y()
	t.pendKey = 0
}

// Alive ends the calling goroutine if its world is over.
func Alive() {
	if w := W; w != nil && w.dead {
		park()
	}
}

// Fatal is an unrecoverable runtime error.
func Fatal(msg string) {
	if W == nil {
		panic(msg)
	}
	W.failHere("panic", "fatal error: "+msg)
}

func mapKey(f func() uintptr) (k uintptr) {
	defer func() {
		if recover() != nil {
			k = 0
		}
	}()
	return f()
}
