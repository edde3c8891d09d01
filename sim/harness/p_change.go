package main

import (
	"strings"

	"simrt"

	"github.com/ynqa/wego/pkg/model"
)

func init() {
	register(&Prop{ID: "C31", Quick: 400000,
		Rule: "What the input gives changes between passes: words appended, removed, replaced or cut, the input emptied or filled, at a random rewind and perhaps again. The training must end; the vocabulary must be that of the first pass; the vectors of words which no later pass contains are compared bit by bit with the initial ones.",
		Real: "everything but the reader is the real code",
		Gen:  genC31, Run: runC31, Shrink: shrinkC31})
}

func genC31(r *R, c *Case) {
	c.M = genModel(r)
	c.M.Mem = r.P(0.1)
	genCorpus(r, c)
	stretch(r, c, "g win neg b logb")
	c.Rd = genRead(r)
	c.Rd.Faults = nil
	first := strings.Fields(c.text())
	words := append([]string(nil), first...)
	fresh := []string{"new0", "new1", "new2", "NEW1"}
	n := passes(c.M)
	at := r.In(0, max(0, n-2))
	for k := 0; k < n; k++ {
		if k == at || k > at && r.P(0.2) {
			words = change(r, words, first, fresh)
		}
		c.L = append(c.L, strings.Join(words, " "))
		if len(words) > len(c.Words) {
			d := *c
			d.Words = words
			calm(&d)
			c.M = d.M
		}
	}
}

func change(r *R, words, first, fresh []string) (out []string) {
	pick := func() string {
		if len(first) > 0 && r.P(0.5) {
			w := first[r.N(len(first))]
			switch r.N(8) {
			case 0: // nearly the same word
				return strings.ToUpper(w)
			case 1:
				return w + r.S("s", ".", "0")
			case 2:
				return strings.ToLower(w)
			}
			return w
		}
		return fresh[r.N(len(fresh))]
	}
	switch r.N(8) {
	case 0: // emptied
	case 1: // cut short
		out = append(out, words[:r.N(len(words)+1)]...)
	case 2: // appended
		out = append(out, words...)
		for i := r.In(1, 8); i > 0; i-- {
			out = append(out, pick())
		}
	case 3: // other text
		for i := r.In(1, 20); i > 0; i-- {
			out = append(out, pick())
		}
	case 4: // put in front
		for i := r.In(1, 8); i > 0; i-- {
			out = append(out, pick())
		}
		out = append(out, words...)
	default: // a word dropped or replaced
		gone, by := "", ""
		if len(first) > 0 {
			gone = first[0]
			if r.P(0.6) {
				gone = first[r.N(len(first))]
			}
		}
		if r.P(0.7) {
			by = pick()
		}
		for _, w := range words {
			switch {
			case w != gone:
				out = append(out, w)
			case by != "":
				out = append(out, by)
			}
		}
		if r.P(0.3) {
			out = append(out, fresh[r.N(len(fresh))])
		}
	}
	return
}

func shrinkC31(c *Case) []*Case {
	out := append(shrinkWords(c), shrinkModel(c, "g b iter win neg dim verbose lower depth minc maxc")...)
	for i := range c.L {
		ws := strings.Fields(c.L[i])
		for n := (len(ws) + 1) / 2; n > 0; n /= 2 {
			for at := 0; at < len(ws); at += n {
				d := c.clone()
				d.L[i] = strings.Join(append(append([]string(nil), ws[:at]...), ws[min(at+n, len(ws)):]...), " ")
				out = append(out, d)
			}
		}
	}
	return out
}

func runC31(c *Case, o *Outcome) {
	ref := reference(c.text(), c.M.Lower, 0, -1)
	var m model.Model
	var err error
	var h *held
	var rd *SimReader
	o.world(c, nil, func(w *simrt.World) {
		rd = newReader(c.text(), c.Rd, c.Seed)
		rd.later = append([]string(nil), c.L...)
		if m, err = trainIn(c.M, rd); err == nil {
			h = hold(m, c.Wr)
		}
	})
	if o.Class != "" {
		return
	}
	// what was read after the first pass
	known := map[string]bool{}
	for _, w := range ref.Words {
		known[w] = true
	}
	changed, strange := false, false
	later := map[string]bool{}
	for i := 0; i < rd.turns; i++ {
		t := c.L[min(i, len(c.L)-1)]
		changed = changed || strings.Join(strings.Fields(t), " ") != strings.Join(strings.Fields(c.text()), " ")
		for _, w := range strings.Fields(t) {
			if c.M.Lower {
				w = strings.ToLower(w)
			}
			later[w] = true
			strange = strange || !known[w]
		}
	}
	if err != nil {
		if !changed {
			o.bad("error", "%s: training failed although the input did not change: %v", c.M, err)
		}
		o.probe("refused", 1)
		return
	}
	if d := h.complete(ref, c.M.Dim); d != "" {
		o.bad("wrong-model", "%s: the input changed after the first pass; the model is not of the vocabulary read first: %s", c.M, d)
		return
	}
	for _, v := range h.vec {
		if d := v.finite(); d != nil {
			o.bad("not-finite", "%s: the input changed after the first pass: %v", c.M, d)
			return
		}
	}
	if c.M.Mem || !changed || rd.turns == 0 {
		o.Triv = true
		return
	}
	w0, _ := initial(o, c.M, c.text(), c.Seed)
	if o.Class != "" || w0 == nil {
		return
	}
	if strange {
		o.probe("unknown-words", 1)
	}
	for i, w := range ref.Words {
		if later[w] {
			continue
		}
		o.probe("vanished-words", 1)
		for j, x := range h.vec[0].v[i] {
			if x != w0.v[i][j] {
				o.bad("confused", "%s: no pass after the first contains %q, its vector was trained: value %d was %v, is %v (first %.200q, then %.300q)", c.M, w, j, w0.v[i][j], x, c.text(), c.L)
				return
			}
		}
	}
}
