package main

import (
	"fmt"

	"simrt"
)

func init() {
	register(&Prop{ID: "C29", Quick: 250000,
		Rule: "The same training in memory and streaming, from the same random numbers, with settings under which neither cuts the corpus; readers fragment differently and the schedules differ. Vectors and saved text are compared bit by bit.",
		Real: "everything but the readers is the real code",
		Gen:  genC29, Run: runC29, Shrink: shrinkC29})
}

func genC29(r *R, c *Case) {
	c.M = steady(r)
	c.M.Mem, c.M.G = true, 1
	c.M.Win = r.I(1, 2, 3, 5, 20)
	c.M.Neg = r.I(0, 1, 2, 5)
	c.M.MinC = r.I(0, 0, 1, 2, 3)
	c.M.MaxC = r.I(-1, -1, 0, 2, 3, 5)
	c.M.UpdLR = 1 << 30
	c.M.Verbose = r.P(0.1)
	genCorpus(r, c)
	stretch(r, c, steadySizes)
	if r.P(0.3) {
		// the same words in other cases
		for i, w := range c.Words {
			if r.P(0.4) {
				c.Words[i] = fmt.Sprint(w, "X")
				if r.P(0.5) {
					c.Words[i] = fmt.Sprint(w, "x")
				}
			}
		}
	}
	c.Rd = genRead(r)
	c.Rd.Faults = nil
	c.set("g", r.I(1, 1, 2, 3, 8))
	c.set("b", r.I(0, 0, 1, 1000))
	c.set("chunk", r.N(3))
}

func shrinkC29(c *Case) []*Case {
	return append(shrinkWords(c), shrinkModel(c, "iter win neg dim verbose lower depth minc maxc")...)
}

func runC29(c *Case, o *Outcome) {
	prep := func(w *simrt.World) { w.FixMaps = true }
	var mem, str *left
	o.world(c, prep, func(w *simrt.World) {
		m, err := trainIn(c.M, newReader(c.text(), c.Rd, c.Seed))
		mem = leave(m, err)
	})
	if o.Class != "" {
		return
	}
	mo := c.M
	mo.Mem = false
	mo.G = c.I["g"]
	mo.B = len(reference(c.text(), mo.Lower, mo.MinC, mo.MaxC).Doc) + c.I["b"]
	if mo.B < 1 {
		mo.B = 1
	}
	if mo.Model == "glove" {
		mo.G = 1
	}
	s := c.Sched
	s.Seed++
	w := simrt.NewWorld(s, c.Seed)
	w.Limit, w.TickL = 2000000, 100000000
	prep(w)
	w.Run(func() {
		rd := Stream{Chunk: []string{"", "one", "rand"}[c.I["chunk"]]}
		m, err := trainIn(mo, newReader(c.text(), rd, c.Seed+1))
		str = leave(m, err)
	})
	o.merge(w, false)
	if w.Fail != nil {
		o.bad(w.Fail.Kind, "streaming: %s", w.Fail.Msg)
		return
	}
	for i, l := range []*left{mem, str} {
		if l.err != nil {
			o.bad("error", "training failed: %v (%s)", l.err, []MO{c.M, mo}[i])
			return
		}
	}
	if d := mem.diff(str); d != "" {
		o.bad("modes-differ", "%s in memory, and streaming with %d workers in batches of %d: %s", c.M, mo.G, mo.B, d)
	}
}
