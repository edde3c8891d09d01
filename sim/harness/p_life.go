package main

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"regexp"
	"strconv"
	"strings"

	"simrt"

	"github.com/ynqa/wego/pkg/model"
	"github.com/ynqa/wego/pkg/model/glove"
	"github.com/ynqa/wego/pkg/model/lexvec"
	"github.com/ynqa/wego/pkg/model/modelutil/vector"
	"github.com/ynqa/wego/pkg/model/word2vec"
)

func init() {
	register(&Prop{ID: "C19", Quick: 240000,
		Rule: "A model trained several times, some trainings failing at a random read or rewind, then once more: compared bit by bit, saved text included, with a fresh model in the same and in a fresh process. Two models training, being read and being saved at the same time: each compared with training alone.",
		Gen:  genC19, Run: runC19, Shrink: shrinkC19})
	register(&Prop{ID: "C20", Quick: 400000,
		Rule: "A verbose training whose printed reports are compared with the corpus; for settings whose result does not depend on the schedule, the vectors are compared bit by bit with a silent twin.",
		Gen:  genC20, Run: runC20, Shrink: shrinkTraining})
	register(&Prop{ID: "C22", Quick: 700000,
		Rule: "A model created with settings of which some are zero, negative, huge, not a number or unknown, and trained; anything but success or an error is a violation.",
		Gen:  genC22, Run: runC22, Shrink: shrinkC22})
	register(&Prop{ID: "C25", Quick: 16000,
		Rule: "A streaming training on a corpus many batches long while the scheduler starves the workers, or other tasks; at every read of the input, the words read so far minus the words reported as trained are bounded.",
		Gen:  genC25, Run: runC25, Shrink: shrinkC25})
}

// ---- C19 ----

// steady makes settings whose result does not depend on the schedule.
func steady(r *R) MO {
	m := defaults(modelNames[r.N(4)])
	m.Opt = r.S("ns", "hs")
	m.Solver = r.S("sgd", "adagrad")
	m.Rel = r.S("ppmi", "pmi", "logco", "co")
	m.Cnt = r.S("inc", "prox")
	m.Dim = r.I(1, 2, 3, 5)
	m.Iter = r.I(1, 1, 2, 3)
	m.G = 1
	m.Mem = r.P(0.5)
	m.B = 10000
	if m.Mem {
		m.B = r.I(1, 3, 10000)
	} else {
		m.G = r.I(1, 1, 2, 4) // there is only one batch
	}
	if m.Model == "glove" {
		m.G = 1
	}
	m.Win = r.I(1, 2, 3)
	m.Neg = r.I(0, 1, 3)
	m.Depth = r.I(0, 0, 2, 3)
	m.Sub = r.X(0, 0, 0, 1e-2, 1)
	m.Lr, m.MinLR = r.X(0.05, 0.01), 1e-4
	if m.Model == "lexvec" && m.Rel == "co" {
		m.Lr = 0.001
	}
	m.MinC = r.I(0, 0, 0, 2)
	m.MaxC = r.I(-1, -1, 0, 3)
	m.Lower = r.P(0.2)
	m.Alpha = r.X(0.75, 1)
	m.Smooth = r.X(0.75, 1, 0)
	return m
}

// plain removes what draws random numbers while training.
func (m *MO) plain() {
	m.Win, m.Neg, m.Sub = 1, 0, 0
}

func genC19(r *R, c *Case) {
	c.M = steady(r)
	genCorpus(r, c)
	stretch(r, c, steadySizes)
	c.Rd = genRead(r)
	c.Rd.Faults = nil
	c.set("rand", 1+r.N(9))
	text := func() string {
		if r.P(0.3) {
			return c.text()
		}
		return strings.Join(corpus(r, r.I(0, 1, 2, 5, 9, 20), r.In(1, 8)), " ")
	}
	switch k := r.N(100); {
	case k < 60:
		c.Kind = r.S("again", "again", "fresh")
		if c.Kind == "fresh" {
			c.M.plain()
		}
		for n := r.In(1, 3); n > 0; n-- {
			c.L = append(c.L, text())
		}
		if last := len(strings.Fields(c.text())) * c.M.Iter; r.P(0.35) && last < 60 {
			// an earlier training lowers the learning rate, the last one does not
			big := corpus(r, last+r.In(1, 40), r.In(1, 6))
			if len(big) > last {
				c.M.UpdLR = r.In(last+1, len(big))
				i := r.N(len(c.L))
				c.L[i] = strings.Join(big, " ")
			}
		}
		// which of the earlier trainings fail, and where
		for i, t := range c.L {
			if r.P(0.6) {
				c.set(fmt.Sprintf("fail%d", i), 1)
				c.set(fmt.Sprintf("pass%d", i), r.In(1, passes(c.M)))
				c.set(fmt.Sprintf("at%d", i), r.N(len(t)+1))
				c.set(fmt.Sprintf("seek%d", i), r.I(0, 0, 0, 1))
			}
		}
	default:
		c.Kind = r.S("pair", "pair", "readers")
		c.M.plain()
		m2 := c.M
		if r.P(0.6) {
			m2 = steady(r)
			m2.plain()
		}
		if c.M.B > 10000 {
			m2.B = c.M.B
		}
		c.M2 = &m2
		c.L = []string{text()}
		c.M.Verbose = r.P(0.1)
	}
}

func shrinkC19(c *Case) []*Case {
	out := append(shrinkWords(c), shrinkModel(c, "iter win neg dim verbose lower depth minc maxc")...)
	if c.Kind == "again" || c.Kind == "fresh" {
		for i := range c.L {
			if len(c.L) > 1 {
				d := c.clone()
				d.L = without(d.L, i, i+1)
				for j := i; j+1 < len(c.L); j++ {
					for _, k := range []string{"fail", "pass", "at", "seek"} {
						d.I[fmt.Sprint(k, j)] = c.I[fmt.Sprint(k, j+1)]
					}
				}
				out = append(out, d)
			}
			d := c.clone()
			d.set(fmt.Sprintf("fail%d", i), 0)
			if d.I[fmt.Sprintf("fail%d", i)] != c.I[fmt.Sprintf("fail%d", i)] {
				out = append(out, d)
			}
		}
	}
	for i, t := range c.L {
		ws := strings.Fields(t)
		cuts(len(ws), func(a, b int) {
			d := c.clone()
			d.L[i] = strings.Join(without(ws, a, b), " ")
			out = append(out, d)
		})
	}
	return out
}

// left is everything a training leaves.
type left struct {
	err         error
	single, agg *mat
	text        string
}

func leave(m model.Model, err error) *left {
	l := &left{err: err}
	if err == nil {
		l.single, l.agg = snap(m, vector.Single), snap(m, vector.Agg)
		var b bytes.Buffer
		if e := m.Save(&b, vector.Agg); e != nil {
			l.err = fmt.Errorf("saving: %w", e)
		}
		l.text = b.String()
	}
	return l
}

func (l *left) diff(x *left) string {
	if l == nil || x == nil {
		return ""
	}
	if (l.err == nil) != (x.err == nil) {
		return fmt.Sprintf("error %v and %v", l.err, x.err)
	}
	if l.err != nil {
		return ""
	}
	if d := l.single.diff(x.single); d != "" {
		return "vectors: " + d
	}
	if d := l.agg.diff(x.agg); d != "" {
		return "aggregated vectors: " + d
	}
	if l.text != x.text {
		return fmt.Sprintf("saved text: %.200q and %.200q", l.text, x.text)
	}
	return ""
}

// earlier runs the trainings before the last one.
func (c *Case) earlier(o *Outcome, m model.Model) {
	for i, t := range c.L {
		plan := c.Rd
		plan.Faults = nil
		k := func(s string) int { return c.I[fmt.Sprint(s, i)] }
		if k("fail") == 1 {
			plan.Faults = []Fault{{Pass: k("pass"), At: k("at"), Kind: "read", Err: readErr(&R{c.Seed + uint64(i)})}}
			if k("seek") == 1 {
				plan.Faults = []Fault{{At: k("pass"), Kind: "seek"}}
			}
		}
		rd := newReader(t, plan, c.Seed+uint64(i))
		err := m.Train(rd)
		if rd.Fired == 0 && err != nil {
			o.bad("error", "training %d from a working input failed: %v (%s)", i, err, c.M)
		}
		if err != nil {
			simrt.Probe("failed-training-before")
		}
		if err == nil && i%2 == 0 {
			leave(m, nil) // reading and saving in between
		}
	}
}

func runC19(c *Case, o *Outcome) {
	fix := float64(c.I["rand"]) / 10
	if fix == 0.5 {
		fix = 0.55
	}
	prep := func(w *simrt.World) {
		w.FixMaps = true
		if c.M2 != nil {
			w.FixRand(fix)
		}
	}
	if c.Kind == "pair" || c.Kind == "readers" {
		texts := []string{c.text(), c.L[0]}
		mos := []MO{c.M, *c.M2}
		alone := make([]*left, 2)
		for i := range mos {
			w := simrt.NewWorld(simrt.Sched{Policy: "fifo"}, c.Seed)
			w.Limit, w.TickL = 2000000, 100000000
			prep(w)
			w.Run(func() {
				m, err := trainIn(mos[i], newReader(texts[i], Stream{}, 0))
				alone[i] = leave(m, err)
			})
			o.merge(w, false)
			if w.Fail != nil {
				o.bad(w.Fail.Kind, "alone: %s", w.Fail.Msg)
				return
			}
			if alone[i].err != nil {
				o.bad("error", "training failed: %v (%s)", alone[i].err, mos[i])
				return
			}
		}
		o.world(c, prep, func(w *simrt.World) {
			got := make([]*left, 2)
			done := 0
			var first model.Model
			if c.Kind == "readers" {
				m, err := trainIn(mos[0], newReader(texts[0], c.Rd, c.Seed))
				if err != nil {
					o.bad("error", "training failed: %v (%s)", err, mos[0])
					return
				}
				first = m
			}
			for i := range mos {
				i := i
				simrt.Go("harness trainer", func() {
					defer func() { done++ }()
					if i == 0 && first != nil {
						for k := 0; k < 3; k++ {
							simrt.SP()
							got[0] = leave(first, nil)
							if d := got[0].diff(alone[0]); d != "" {
								o.bad("interference", "a trained %s changed while another model trained: %s", c.M, d)
								return
							}
						}
						return
					}
					m, err := trainIn(mos[i], newReader(texts[i], c.Rd, c.Seed+uint64(i)))
					simrt.SP()
					got[i] = leave(m, err)
				})
			}
			simrt.BlockUntil("trainers", func() bool { return done == 2 })
			for i := range got {
				if d := got[i].diff(alone[i]); d != "" {
					o.bad("interference", "%s next to %s: %s", mos[i], mos[1-i], d)
					return
				}
			}
		})
		return
	}
	var fresh, again *left
	last := func(m model.Model) *left {
		simrt.SeedRand(c.Seed ^ 0x99)
		return leave(m, m.Train(newReader(c.text(), c.Rd, c.Seed)))
	}
	o.world(c, prep, func(w *simrt.World) {
		m, err := c.M.build()
		if err != nil {
			o.bad("error", "model refused: %v", err)
			return
		}
		c.earlier(o, m)
		again = last(m)
	})
	if o.Class != "" {
		return
	}
	// the same, but the last training is of a fresh model
	w := simrt.NewWorld(c.Sched, c.Seed)
	w.Limit, w.TickL = 2000000, 100000000
	prep(w)
	w.Run(func() {
		m, err := c.M.build()
		if err != nil {
			return
		}
		if c.Kind == "again" {
			c.earlier(o, m)
			if m, err = c.M.build(); err != nil {
				return
			}
		}
		fresh = last(m)
	})
	o.merge(w, false)
	if w.Fail != nil {
		o.bad(w.Fail.Kind, "a fresh model: %s", w.Fail.Msg)
		return
	}
	if fresh == nil || again == nil || o.Class != "" {
		return
	}
	if fresh.err != nil {
		o.bad("error", "training failed: %v (%s)", fresh.err, c.M)
		return
	}
	if d := again.diff(fresh); d != "" {
		o.bad("state-left", "%s: trained again after %d trainings, and fresh: %s", c.M, len(c.L), d)
	}
}

// ---- C20 ----

func genC20(r *R, c *Case) {
	if r.P(0.4) {
		c.Kind = "twin"
		c.M = steady(r)
		c.M.LogB = r.I(1, 2, 7, 1000)
	} else {
		c.M = genModel(r)
	}
	c.M.Verbose = true
	if r.P(0.3) {
		c.M.LogB = r.In(1, 12)
	}
	genCorpus(r, c)
	if c.Kind == "twin" {
		stretch(r, c, steadySizes)
	} else {
		stretch(r, c, allSizes)
	}
	c.Rd = genRead(r)
	c.Rd.Faults = nil
	if r.P(0.2) {
		c.set("other", r.In(1, 3))
	}
	if c.Idx == 777 || r.P(0.0001) {
		// more than sixteen bits count
		c.Kind = ""
		if c.Idx == 777 {
			c.M = defaults("skipgram")
			c.M.Verbose = true
		}
		c.Words, c.Rd, c.Sched.P = corpus(r, 65536+r.In(1, 5000), r.In(2, 6)), Stream{Chunk: "fixed", N: 4096}, 0
		c.M.Dim, c.M.Iter, c.M.Win, c.M.Neg, c.M.Depth = 2, 1, 1, r.N(2), 2
		c.M.G, c.M.B, c.M.LogB = r.In(1, 3), r.I(1000, 30000, 100000), r.I(1000, 7777, 65535, 65536, 70000)
		c.M.MinC, c.M.MaxC, c.M.Sub = 0, -1, 0
		calm(c)
		return
	}
	if c.Kind == "twin" && r.P(0.06) {
		// reports cannot be printed
		c.FSF = []simrt.FileFault{{Op: "stdout", Nth: r.In(1, 40), Times: r.I(0, 0, 1, 3), Err: r.S("ENOSPC", "EIO", "EPIPE", "EAGAIN"), Short: r.I(0, 0, 5)}}
	}
}

// report is a printed progress report.
type report struct {
	n     int
	what  string
	final bool
}

var reportForm = regexp.MustCompile(`(trained|read|build|saved)\s+(\d+)\s+(\w+)`)

func reports(w *simrt.World, upto int, verb string) (out []report) {
	return reportsIn(w.Out[:upto], verb)
}

// steps checks the reports of a phase which runs once: upwards at the interval, then the total.
func steps(rs []report, what string, total, interval int) error {
	last, done, n, slack := 0, false, 0, 0
	for _, r := range rs {
		if r.what != what {
			continue
		}
		switch n++; {
		case done:
			return fmt.Errorf("another report of %d %s after the total", r.n, what)
		case r.final && r.n != total:
			return fmt.Errorf("the total is reported as %d %s, it is %d", r.n, what, total)
		case r.final && last+interval+slack <= total:
			return fmt.Errorf("the last report before the total of %d %s was %d, interval %d", total, what, last, interval)
		case r.final:
			done = true
		case r.n == 0 && n == 1:
			slack = 1 // reports the words before the current one
		case r.n != last+interval:
			return fmt.Errorf("a report of %d %s after %d, interval %d", r.n, what, last, interval)
		default:
			last = r.n
		}
	}
	if !done {
		return fmt.Errorf("the total of %d %s is not reported", total, what)
	}
	return nil
}

func reportsIn(out []simrt.OutEvent, verb string) (res []report) {
	s := ""
	for _, e := range out {
		s += e.Text
	}
	// a report ends at a carriage return, a final one at a newline
	for s != "" {
		i := strings.IndexAny(s, "\r\n")
		if i < 0 {
			i = len(s) - 1
		}
		j := i + 1
		for j < len(s) && (s[j] == '\r' || s[j] == '\n') {
			j++
		}
		if m := reportForm.FindStringSubmatch(s[:i]); m != nil && m[1] == verb {
			n, _ := strconv.Atoi(m[2])
			res = append(res, report{n, m[3], strings.Contains(s[i:j], "\n")})
		}
		s = s[j:]
	}
	return
}

// trainBeside trains a model; another one which reports differently is made
// before it, after it, or both.
func (c *Case) trainBeside(mo MO, rd io.ReadSeeker) (model.Model, error) {
	other := mo
	other.Verbose, other.LogB = !mo.Verbose, mo.LogB+2
	if c.I["other"]&1 > 0 {
		other.build()
	}
	m, err := mo.build()
	if err != nil {
		return nil, fmt.Errorf("new: %w", err)
	}
	if c.I["other"]&2 > 0 {
		other.build()
	}
	return m, m.Train(rd)
}

func runC20(c *Case, o *Outcome) {
	ref := reference(c.text(), c.M.Lower, c.M.MinC, c.M.MaxC)
	total := len(ref.Doc)
	if c.M.Model == "glove" {
		total = 0
		for p := range cooc(ref.All, c.M.Win, false) {
			if ref.inside(p.a, c.M.MinC, c.M.MaxC) && ref.inside(p.b, c.M.MinC, c.M.MaxC) {
				total++
			}
		}
	}
	var loud *left
	prep := func(w *simrt.World) { w.FixMaps = c.Kind == "twin" }
	o.world(c, func(w *simrt.World) {
		prep(w)
		if len(c.FSF) > 0 {
			w.FS = newFS(c)
		}
	}, func(w *simrt.World) {
		m, err := c.trainBeside(c.M, newReader(c.text(), c.Rd, c.Seed))
		if err != nil {
			o.bad("error", "training failed: %v (%s)", err, c.M)
			return
		}
		n := len(w.Out)
		if c.Kind == "twin" {
			loud = leave(m, nil)
		}
		if len(c.FSF) > 0 {
			return // what was printed may lack anything
		}
		// the corpus scan, the count of the pairs, their table
		read := reports(w, n, "read")
		err = steps(read, "words", len(ref.All), c.M.LogB)
		if err == nil && (c.M.Model == "glove" || c.M.Model == "lexvec") {
			tuples, items := 0, total
			for i := range ref.All {
				tuples += min(c.M.Win, len(ref.All)-1-i)
			}
			if c.M.Model == "lexvec" {
				items = len(cooc(ref.All, c.M.Win, false))
			}
			if err = steps(read, "tuples", tuples, c.M.LogB); err == nil {
				err = steps(reports(w, n, "build"), "items", items, c.M.LogB)
			}
		}
		if err != nil {
			o.bad("wrong-report", "%s: %v", c.M, err)
			return
		}
		// every pass
		finals, last := 0, 0
		var all []string
		for _, r := range reports(w, n, "trained") {
			all = append(all, fmt.Sprint(r.n))
			if r.final {
				all[len(all)-1] += "."
				if r.n != total {
					o.bad("wrong-report", "%s: pass %d reported %d, want %d", c.M, finals+1, r.n, total)
					return
				}
				if last+c.M.LogB <= total {
					o.bad("wrong-report", "%s: pass %d: the last report before %d was %d, interval %d", c.M, finals+1, total, last, c.M.LogB)
					return
				}
				finals++
				last = 0
				continue
			}
			if r.n != last+c.M.LogB {
				o.bad("wrong-report", "%s: a report of %d after %d, interval %d", c.M, r.n, last, c.M.LogB)
				return
			}
			last = r.n
		}
		if finals != c.M.Iter || last != 0 {
			o.bad("wrong-report", "%s: %d final reports when training returned, want one for each of the %d passes (%s)", c.M, finals, c.M.Iter, strings.Join(all, " "))
			return
		}
		if c.Kind != "twin" && len(ref.All) < 1000 {
			n = len(w.Out)
			if err := m.Save(&bytes.Buffer{}, "single"); err != nil {
				o.bad("error", "saving failed: %v (%s)", err, c.M)
			} else if err := steps(reportsIn(w.Out[n:], "saved"), "words", len(ref.Words), c.M.LogB); err != nil {
				o.bad("wrong-report", "saving, %s: %v", c.M, err)
			}
		}
	})
	if c.Kind != "twin" || loud == nil || o.Class != "" {
		return
	}
	mo := c.M
	mo.Verbose = false
	var silent *left
	w := simrt.NewWorld(simrt.Sched{Policy: "fifo"}, c.Seed)
	w.Limit, w.TickL = 2000000, 100000000
	prep(w)
	w.Run(func() {
		m, err := c.trainBeside(mo, newReader(c.text(), Stream{}, 0))
		silent = leave(m, err)
	})
	o.merge(w, false)
	if w.Fail != nil {
		o.bad(w.Fail.Kind, "silent twin: %s", w.Fail.Msg)
		return
	}
	if d := loud.diff(silent); d != "" {
		o.bad("verbose-changes", "%s: verbose and silent: %s", c.M, d)
	}
}

// ---- C22 ----

func genC22(r *R, c *Case) {
	c.M = genModel(r)
	c.Words = corpus(r, r.I(0, 1, 2, 3, 5, 8), r.In(1, 5))
	c.Rd = Stream{Chunk: r.S("", "one", "rand")}
	c.M.Verbose = r.P(0.5)
	num := func() int {
		return r.I(math.MinInt, math.MinInt32, -1000, -2, -1, 0, 0, 0, 1, 2, 1000)
	}
	cnt := func() int { return r.I(math.MinInt, -1, 0, 1, 2, 1000, math.MaxInt, math.MaxInt32) }
	bad := []string{"", "bogus", "NS", "SGD", "skip-gram", "ns ", "inc\x00", "ppmi,pmi"}
	special := func() int { return r.N(len(floats22)) }
	c.I = map[string]int{}
	for k := r.In(1, 4); k > 0; k-- {
		switch r.N(22) {
		case 0, 1:
			c.M.Dim = num()
		case 2:
			c.M.Iter = r.I(math.MinInt, -1, 0, 0, 2)
		case 3, 4:
			c.M.G = num()
		case 5, 6:
			c.M.B = num()
		case 7, 8:
			c.M.Win = num()
			if r.P(0.3) {
				c.M.Win = r.I(1<<20, 1<<31, 1<<40, math.MaxInt/2, math.MaxInt/2+1, math.MaxInt)
			}
		case 9:
			c.M.Neg = r.I(math.MinInt, -1, 0, 50)
		case 10:
			c.M.Depth = num()
		case 11:
			c.M.MinC = cnt()
		case 12:
			c.M.MaxC = cnt()
		case 13, 14:
			c.M.UpdLR = num()
		case 15, 16:
			c.M.LogB = num()
		case 17:
			c.M.Xmax = num()
		case 18:
			switch b := bad[r.N(len(bad))]; r.N(5) {
			case 0:
				c.M.Opt = b
			case 1:
				c.M.Solver = b
			case 2:
				c.M.Rel = b
			case 3:
				c.M.Cnt = b
			default:
				if c.M.isW2V() {
					c.M.Model = "?" + b
				}
			}
		default:
			c.set([]string{"lr", "minlr", "sub", "alpha", "smooth"}[r.N(5)], special())
		}
	}
	// one large size at a time
	big := 0
	for _, p := range []*int{&c.M.G, &c.M.Dim, &c.M.Win} {
		if *p > 100 {
			if big++; big > 1 {
				*p = 2
			}
		}
	}
}

// not in the case itself: JSON has no such numbers
var floats22 = []float64{math.NaN(), math.Inf(1), math.Inf(-1), -1, 0, 1, 1e300, -1e300, 5e-324, 100}

func shrinkC22(c *Case) []*Case {
	out := shrinkWords(c)
	def := defaults(c.M.Model)
	add := func(f func(d *Case)) {
		d := c.clone()
		f(d)
		out = append(out, d)
	}
	for k := range map[string]int{"lr": 0, "minlr": 0, "sub": 0, "alpha": 0, "smooth": 0} {
		if _, ok := c.I[k]; ok {
			k := k
			add(func(d *Case) { delete(d.I, k) })
		}
	}
	if c.M != def {
		for i, f := range []func(m *MO){
			func(m *MO) { m.Dim = def.Dim }, func(m *MO) { m.Iter = def.Iter }, func(m *MO) { m.G = def.G },
			func(m *MO) { m.B = def.B }, func(m *MO) { m.Win = def.Win }, func(m *MO) { m.Neg = def.Neg },
			func(m *MO) { m.Depth = def.Depth }, func(m *MO) { m.MinC = def.MinC }, func(m *MO) { m.MaxC = def.MaxC },
			func(m *MO) { m.UpdLR = def.UpdLR }, func(m *MO) { m.LogB = def.LogB }, func(m *MO) { m.Xmax = def.Xmax },
			func(m *MO) { m.Opt = def.Opt }, func(m *MO) { m.Solver = def.Solver }, func(m *MO) { m.Rel = def.Rel },
			func(m *MO) { m.Cnt = def.Cnt }, func(m *MO) { m.Verbose = false }, func(m *MO) { m.Lower = false },
			func(m *MO) { m.Sub = 0 }, func(m *MO) { m.Mem = true }} {
			_ = i
			d := c.clone()
			f(&d.M)
			if d.M != c.M {
				out = append(out, d)
			}
		}
	}
	return out
}

// unusable names a setting nothing can be trained with.
func unusable(m MO, words int) string {
	one := func(x string, of ...string) bool {
		for _, y := range of {
			if x == y {
				return true
			}
		}
		return false
	}
	w2v, lex, glo := m.isW2V(), m.Model == "lexvec", m.Model == "glove"
	switch {
	case m.Dim < 1:
		return "no dimensions"
	case m.G < 1:
		return "no goroutines"
	case m.Win < 1:
		return "an empty window"
	case m.Verbose && m.LogB < 1:
		return "an empty interval of reports"
	case !glo && !m.Mem && m.B < 1:
		return "an empty batch"
	case !glo && m.UpdLR < 1:
		return "an empty interval of rates"
	case w2v && !one(m.Model, "skipgram", "cbow"):
		return "an unknown model"
	case w2v && !one(m.Opt, "ns", "hs"):
		return "an unknown optimizer"
	case glo && !one(m.Solver, "sgd", "adagrad"):
		return "an unknown solver"
	case glo && words > 1 && !one(m.Cnt, "inc", "prox"):
		return "an unknown way to count"
	case lex && words > 1 && !one(m.Rel, "ppmi", "pmi", "co", "logco"):
		return "an unknown relation"
	}
	return ""
}

func runC22(c *Case, o *Outcome) {
	mo := c.M
	for k, p := range map[string]*float64{"lr": &mo.Lr, "minlr": &mo.MinLR, "sub": &mo.Sub, "alpha": &mo.Alpha, "smooth": &mo.Smooth} {
		if i, ok := c.I[k]; ok {
			*p = floats22[i]
		}
	}
	if strings.HasPrefix(mo.Model, "?") {
		mo.Model = mo.Model[1:]
	}
	o.world(c, nil, func(w *simrt.World) {
		m, err := mo.build()
		if err != nil {
			simrt.Probe("refused-at-creation")
			return
		}
		if err := m.Train(newReader(c.text(), c.Rd, c.Seed)); err != nil {
			simrt.Probe("refused-at-training")
			return
		}
		simrt.Probe("trained")
		ref := reference(c.text(), mo.Lower, 0, -1)
		if x := unusable(mo, len(ref.All)); x != "" {
			o.bad("not-refused", "training of %d words succeeded with %s (%s)", len(ref.All), x, mo)
			return
		}
		for _, t := range []vector.Type{vector.Single, vector.Agg} {
			if s := snap(m, t); s.row != len(ref.Words) || s.col != mo.Dim {
				o.bad("shape", "training succeeded (%s dim=%d) but the vectors are %dx%d for %d words", mo, mo.Dim, s.row, s.col, len(ref.Words))
			}
		}
	})
}

// ---- C25 ----

func genC25(r *R, c *Case) {
	c.M = defaults(r.S("skipgram", "cbow", "lexvec"))
	c.M.Opt = r.S("ns", "hs")
	c.M.Dim, c.M.Win, c.M.Neg = r.I(1, 1, 1, 4, 12), r.I(1, 1, 1, 2, 5, 12), r.I(0, 1, 1, 8)
	c.M.Depth = r.I(0, 1, 5, 12)
	c.M.G = r.I(1, 1, 2, 3)
	c.M.B = r.I(1, 2, 3, 4)
	c.M.Iter = r.I(1, 1, 2)
	if r.P(0.03) {
		c.M.G, c.M.B, c.M.Iter = r.I(6, 8, 12), r.I(5, 8, 10), 1
	}
	c.M.Mem = false
	c.M.Verbose, c.M.LogB = true, 1
	n := ahead(c.M)*2 + r.In(20, 120)
	v := r.In(1, 6)
	for i := 0; i < n; i++ {
		c.Words = append(c.Words, string(rune('a'+r.N(v))))
	}
	c.Rd = Stream{Chunk: "fixed", N: r.In(4, 24)}
	c.set("starve", r.I(1, 1, 1, 2, 0))
	c.Sched.Stall, c.Sched.StallN = 0, 0
	if c.I["starve"] == 1 {
		c.Sched.Starve = nil
	} else if c.I["starve"] == 2 {
		c.Sched.Starve = nil
		for i := r.In(1, 4); i > 0; i-- {
			c.Sched.Starve = append(c.Sched.Starve, r.In(1, 14))
		}
	}
}

// ahead is how many words may be read and not yet trained.
func ahead(m MO) int { return 6*m.G*m.B + 16*m.B + 48 }

func shrinkC25(c *Case) (out []*Case) {
	for _, d := range append(shrinkWords(c), shrinkModel(c, "iter g b neg dim")...) {
		if len(d.Words) > ahead(d.M) {
			out = append(out, d)
		}
	}
	return
}

func runC25(c *Case, o *Outcome) {
	text := c.text()
	// words begun before each position
	begun := make([]int, len(text)+1)
	for i := 1; i <= len(text); i++ {
		begun[i] = begun[i-1]
		if text[i-1] != ' ' && (i == 1 || text[i-2] == ' ') {
			begun[i]++
		}
	}
	// a first run tells which passes train and which tasks read in them
	readers := map[int]bool{}
	var order []int
	in := map[int]map[int]bool{}
	o.aux(c.Seed, func(w *simrt.World) {
		rd := newReader(text, Stream{}, 0)
		rd.OnRead = func(int) {
			p := rd.passes
			if in[p] == nil {
				in[p] = map[int]bool{}
				order = append(order, p)
			}
			in[p][w.Current().ID] = true
		}
		mo := c.M
		mo.Verbose = false
		if _, err := trainIn(mo, rd); err != nil {
			o.bad("error", "training failed: %v (%s)", err, c.M)
		}
	})
	if o.Class != "" {
		return
	}
	if len(order) <= c.M.Iter {
		o.bad("not-streamed", "%s: the input was read in %d passes for %d training passes: the corpus is held in memory", c.M, len(order), c.M.Iter)
		return
	}
	first := order[len(order)-c.M.Iter]
	for p, ts := range in {
		if p == first {
			for t := range ts {
				readers[t] = true
			}
		}
	}
	o.world(c, func(w *simrt.World) {
		if c.I["starve"] == 1 {
			w.StarveFn = func(t *simrt.Task) bool { return t.ID != 0 && !readers[t.ID] }
		}
	}, func(w *simrt.World) {
		rd := newReader(text, c.Rd, c.Seed)
		from, seen, trained, pass := 0, 0, 0, 0
		worst := 0
		rd.OnRead = func(int) {
			if rd.passes < first {
				return
			}
			if rd.passes != pass {
				pass, trained, from = rd.passes, 0, len(w.Out)
			}
			for ; seen < len(w.Out); seen++ {
				if seen < from {
					continue
				}
				if m := reportForm.FindStringSubmatch(w.Out[seen].Text); m != nil && m[1] == "trained" {
					trained, _ = strconv.Atoi(m[2])
				}
			}
			a := begun[rd.pos] - trained
			if a > worst {
				worst = a
			}
			if a > ahead(c.M) {
				o.bad("read-ahead", "%s: %d words of %d were read while %d were trained", c.M, begun[rd.pos], len(c.Words), trained)
			}
		}
		if _, err := trainIn(c.M, rd); err != nil {
			o.bad("error", "training failed: %v (%s)", err, c.M)
		}
		if w.StarvedRan > 0 {
			simrt.Probe("starved-task-had-to-run")
		}
		if worst > (c.M.G+1)*c.M.B {
			simrt.Probe("read-ahead-beyond-workers")
		}
	})
}

var _ = word2vec.DefaultOptions
var _ = glove.DefaultOptions
var _ = lexvec.DefaultOptions
