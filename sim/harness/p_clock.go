package main

import (
	"bytes"
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"time"

	"simrt"

	"github.com/ynqa/wego/pkg/model/modelutil/vector"
)

func init() {
	register(&Prop{ID: "C28", Quick: 350000,
		Rule: "A verbose training from a slow reader, on a wall clock that jumps back and forth, and saving; every report of every phase (scan, pair counting, building, each pass, saving) must fit one start of its phase, after the report that ended the phase before and, where the phase must wait for the input, before the first data came.",
		Real: "the clock, reader and schedule are simulated; times carry a monotonic reading as in package time",
		Gen:  genC28, Run: runC28, Shrink: shrinkTraining})
}

func genC28(r *R, c *Case) {
	c.M = genModel(r)
	c.M.Verbose = true
	c.M.LogB = r.I(1, 1, 2, 3, 5, 7, 1000)
	genCorpus(r, c)
	stretch(r, c, allSizes)
	c.Rd = genRead(r)
	c.Rd.Faults = nil
	c.Rd.Delay = r.I(0, 1, 50, 5000, 2000000)
	if c.Rd.Chunk == "one" && c.Rd.Delay > 5000 {
		c.Rd.Delay = 5000
	}
	if r.P(0.5) {
		c.Sched.Jump = r.I(1, 2, 3, 7, 17)
	}
	if r.P(0.3) {
		c.Sched = simrt.Sched{Seed: c.Sched.Seed, Policy: "fifo", Jump: c.Sched.Jump}
	}
	c.S = map[string]string{"typ": r.S("single", "agg")}
}

// timed is a printed report with its time and when it was out.
type timed struct {
	report
	verb    string
	elapsed time.Duration
	at      int64
}

var timedForm = regexp.MustCompile(`([a-z]+)\s+(\d+)\s+(\w+)\s+(\S+)`)

func timedReports(w *simrt.World) (out []timed, err error) {
	s := ""
	var ends []int
	for _, e := range w.Out {
		s += e.Text
		ends = append(ends, len(s))
	}
	from := 0
	for from < len(s) {
		i := strings.IndexAny(s[from:], "\r\n")
		if i < 0 {
			i = len(s) - from - 1
		}
		i += from
		j := i + 1
		for j < len(s) && (s[j] == '\r' || s[j] == '\n') {
			j++
		}
		if m := timedForm.FindStringSubmatch(s[from:i]); m != nil {
			t := timed{verb: m[1]}
			t.n, _ = strconv.Atoi(m[2])
			t.what = m[3]
			t.final = strings.Contains(s[i:j], "\n")
			if t.elapsed, err = time.ParseDuration(m[4]); err != nil {
				return nil, fmt.Errorf("report %q has no time", s[from:i])
			}
			for k, e := range ends {
				if e >= i+1 {
					t.at = w.Out[k].At
					break
				}
			}
			out = append(out, t)
		}
		from = j
	}
	return
}

func runC28(c *Case, o *Outcome) {
	ref := reference(c.text(), c.M.Lower, c.M.MinC, c.M.MaxC)
	type phase struct {
		verb, what string
		total      int
		waits      bool // cannot go on before there is input
	}
	n := len(ref.All)
	phases := []phase{{"read", "words", n, true}}
	passTotal, passWhat := len(ref.Doc), "words"
	if !c.M.isW2V() {
		tuples := 0
		for i := range ref.All {
			tuples += min(c.M.Win, n-1-i)
		}
		all, in := 0, 0
		for p := range cooc(ref.All, c.M.Win, false) {
			all++
			if ref.inside(p.a, c.M.MinC, c.M.MaxC) && ref.inside(p.b, c.M.MinC, c.M.MaxC) {
				in++
			}
		}
		phases = append(phases, phase{"read", "tuples", tuples, !c.M.Mem})
		if c.M.Model == "glove" {
			phases = append(phases, phase{"build", "items", in, false})
			passTotal, passWhat = in, "items"
		} else {
			phases = append(phases, phase{"build", "items", all, false})
		}
	}
	// all goroutines get to run before a slow reader goes on
	eager := c.Sched.Policy == "fifo" && len(c.Sched.Starve) == 0 && c.Sched.Stall == 0 && !c.Sched.Fine
	for i := 0; i < c.M.Iter; i++ {
		phases = append(phases, phase{"trained", passWhat, passTotal, !c.M.Mem && c.M.Model != "glove" && eager && c.Rd.Delay > 0})
	}
	phases = append(phases, phase{"saved", "words", len(ref.Words), false})
	var data []int64 // when data came
	var start, saving int64
	w := o.world(c, nil, func(w *simrt.World) {
		rd := newReader(c.text(), c.Rd, c.Seed)
		rd.OnRead = func(n int) {
			if n > 0 {
				data = append(data, w.Now())
			}
		}
		start = w.Now()
		m, err := trainIn(c.M, rd)
		if err != nil {
			o.bad("error", "training failed: %v (%s)", err, c.M)
			return
		}
		saving = w.Now()
		var b bytes.Buffer
		if err := m.Save(&b, vector.Type(c.S["typ"])); err != nil {
			o.bad("error", "saving failed: %v (%s)", err, c.M)
		}
	})
	if w.Fail != nil || o.Class != "" {
		return
	}
	all, err := timedReports(w)
	if err != nil {
		o.bad("no-time", "%s: %v", c.M, err)
		return
	}
	i := 0
	from := start
	for k, p := range phases {
		name := fmt.Sprintf("%s: phase %d of %d (%s ... %s)", c.M, k+1, len(phases), p.verb, p.what)
		if p.verb == "saved" {
			from = saving
		}
		// the start is between lo and hi
		lo, hi := from, int64(1)<<62
		last, prevAt := time.Duration(0), from
		done := false
		for ; i < len(all) && !done; i++ {
			t := all[i]
			if t.verb != p.verb || t.what != p.what {
				o.bad("wrong-phase", "%s: a report %s %d %s", name, t.verb, t.n, t.what)
				return
			}
			if t.elapsed < last {
				o.bad("time-backwards", "%s: a report with time %v after one with %v", name, t.elapsed, last)
				return
			}
			last = t.elapsed
			hi = min(hi, t.at-int64(t.elapsed))
			lo = max(lo, prevAt-int64(t.elapsed))
			if p.waits && p.total > 0 {
				for _, d := range data {
					if d > from && d <= t.at {
						hi = min(hi, d)
						break
					}
				}
			}
			if lo > hi {
				o.bad("wrong-time", "%s: the report of %d at %v says %v, which is not the time since the phase began, after %v (earlier reports put its start between %v and %v)",
					name, t.n, time.Duration(t.at), t.elapsed, time.Duration(from), time.Duration(lo), time.Duration(hi))
				return
			}
			prevAt = t.at
			if t.final {
				done = true
				if t.n != p.total {
					o.bad("wrong-total", "%s: ended with %d, want %d", name, t.n, p.total)
					return
				}
				from = t.at
			}
		}
		if !done {
			o.bad("no-report", "%s: no final report", name)
			return
		}
	}
	if i < len(all) {
		o.bad("wrong-phase", "%s: %d reports after the last phase, the first is %s %d %s", c.M, len(all)-i, all[i].verb, all[i].n, all[i].what)
	}
}
