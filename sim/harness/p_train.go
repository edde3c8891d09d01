package main

import (
	"errors"
	"fmt"
	"strings"

	"simrt"

	"github.com/ynqa/wego/pkg/model"
	"github.com/ynqa/wego/pkg/model/modelutil/vector"
)

func shrinkTraining(c *Case) []*Case {
	return append(shrinkWords(c), shrinkModel(c, "iter g b win neg dim verbose lower depth minc maxc")...)
}

func init() {
	register(&Prop{ID: "C01", Quick: 400000, Rule: "A model with random settings trained on a random corpus from a working reader with random chunking, under a random scheduler.",
		Gen: func(r *R, c *Case) {
			c.M = genModel(r)
			genCorpus(r, c)
			stretch(r, c, allSizes)
			c.Rd = genRead(r)
			if r.P(0.02) {
				c.Words = append(c.Words, strings.Repeat("x", r.I(4095, 65535, 65536, 70000)))
				c.Rd.Chunk, c.Rd.N, c.Rd.Empty, c.Rd.Delay = "fixed", 4096, 0, 0
			}
		},
		Run: runC01, Shrink: shrinkTraining})
	register(&Prop{ID: "C02", Quick: 800000, Rule: "A training, with or without input failures, verbose or not; after it returned, everything else is run until it ends or blocks.",
		Gen: func(r *R, c *Case) {
			c.M = genModel(r)
			c.M.Verbose = r.P(0.6)
			genCorpus(r, c)
			stretch(r, c, allSizes)
			c.Rd = genRead(r)
			if r.P(0.5) {
				genFault(r, c)
			}
		},
		Run: runC02, Shrink: shrinkTraining})
	register(&Prop{ID: "C03", Quick: 2000000, Rule: "A training whose reader fails at a random read or rewind of a random pass.",
		Gen: func(r *R, c *Case) {
			c.M = genModel(r)
			genCorpus(r, c)
			stretch(r, c, allSizes)
			c.Rd = genRead(r)
			genFault(r, c)
		},
		Run: runC03, Shrink: shrinkTraining})
}

// passes is how many times this training reads the corpus at least.
func passes(m MO) int {
	n := 1
	if !m.Mem {
		if !m.isW2V() {
			n++
		}
		if m.Model != "glove" {
			n += m.Iter
		}
	}
	return n
}

// genFault places a failure inside some pass.
func genFault(r *R, c *Case) {
	n := len(c.text())
	f := Fault{Pass: r.In(1, passes(c.M)), At: r.N(n + 1), Kind: r.S("read", "read", "data", "seek"), Times: r.I(0, 0, 1), Err: readErr(r)}
	if r.P(0.3) {
		f.At = r.I(0, n, n-1, n/2)
		if f.At < 0 {
			f.At = 0
		}
	}
	if f.Kind == "seek" {
		f.At = r.In(1, passes(c.M))
		f.Pass = 0
	}
	c.Rd.Faults = []Fault{f}
}

func checkShape(c *Case, o *Outcome, m model.Model) {
	ref := reference(c.text(), c.M.Lower, 0, -1)
	for _, t := range []vector.Type{vector.Single, vector.Agg} {
		s := snap(m, t)
		if s.row != len(ref.Words) || s.col != c.M.Dim {
			o.bad("shape", "%s: vectors are %dx%d, want %d words x %d", c.M, s.row, s.col, len(ref.Words), c.M.Dim)
		}
		if err := s.finite(); err != nil {
			o.bad("not-finite", "%s: %v", c.M, err)
		}
	}
}

func runC01(c *Case, o *Outcome) {
	o.world(c, nil, func(w *simrt.World) {
		m, err := trainIn(c.M, newReader(c.text(), c.Rd, c.Seed))
		if err != nil {
			o.bad("error", "training from a working input failed: %v (%s)", err, c.M)
			return
		}
		checkShape(c, o, m)
	})
}

func runC02(c *Case, o *Outcome) {
	o.world(c, nil, func(w *simrt.World) {
		rd := newReader(c.text(), c.Rd, c.Seed)
		m, err := c.M.build()
		if err != nil {
			o.bad("error", "model refused: %v", err)
			return
		}
		err = m.Train(rd)
		if err != nil && !errors.Is(err, ErrInjected) && rd.Fired == 0 {
			o.bad("error", "training failed: %v", err)
			return
		}
		out, calls := len(w.Out), rd.Calls
		var before, before2 *mat
		if err == nil {
			before, before2 = snap(m, vector.Single), snap(m, vector.Agg)
		}
		late := len(w.Live())
		if late > 0 {
			simrt.Probe("tasks-still-finishing-at-return")
		}
		live := w.Drain(300000)
		if len(live) > 0 {
			s := ""
			for _, t := range live {
				s += fmt.Sprintf("task %d %s blocked on %s; ", t.ID, t.Site, t.What())
			}
			o.bad("leak", "%d goroutines are left after training returned (%v): %s(%s)", len(live), err, s, c.M)
		}
		if len(w.Out) != out {
			o.bad("late-output", "printed after training returned: %q (%s)", w.Out[out].Text, c.M)
		}
		if rd.Calls != calls {
			o.bad("late-read", "the input was read %d times after training returned (%s)", rd.Calls-calls, c.M)
		}
		if err == nil {
			if d := before.diff(snap(m, vector.Single)); d != "" {
				o.bad("late-update", "vectors changed after training returned: %s (%s)", d, c.M)
			}
			if d := before2.diff(snap(m, vector.Agg)); d != "" {
				o.bad("late-update", "vectors changed after training returned: %s (%s)", d, c.M)
			}
		}
	})
}

func runC03(c *Case, o *Outcome) {
	o.world(c, nil, func(w *simrt.World) {
		rd := newReader(c.text(), c.Rd, c.Seed)
		_, err := trainIn(c.M, rd)
		if rd.Fired == 0 {
			o.Triv = true
			if err != nil {
				o.bad("error", "no failure was injected, but training failed: %v (%s)", err, c.M)
			}
			return
		}
		if err == nil {
			o.bad("error-swallowed", "the input failed (%+v) and training reported success (%s)", c.Rd.Faults, c.M)
		}
	})
}
