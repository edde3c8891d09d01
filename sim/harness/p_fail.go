package main

import (
	"bytes"
	"fmt"
	"math"
	"strings"

	"simrt"

	"github.com/ynqa/wego/pkg/model"
	"github.com/ynqa/wego/pkg/model/modelutil/vector"
)

func init() {
	register(&Prop{ID: "C27", Quick: 500000,
		Rule: "A model is trained nought to three times, then a training of it fails: the stream fails at a random byte or rewind of a random pass, or a setting is unusable. Between and after the trainings it is saved and read. What it saves is compared with what it held before and with the vocabulary of the failed training.",
		Real: "everything but the reader is the real code",
		Gen:  genC27, Run: runC27, Shrink: shrinkC27})
}

func genC27(r *R, c *Case) {
	c.M = genModel(r)
	genCorpus(r, c)
	stretch(r, c, allSizes)
	c.Rd = genRead(r)
	c.Rd.Faults = nil
	for n := r.I(0, 0, 1, 1, 1, 2, 3); n > 0; n-- {
		t := strings.Join(corpus(r, r.I(0, 1, 2, 5, 9, 20), r.In(1, 8)), " ")
		if r.P(0.2) {
			t = c.text()
		}
		c.L = append(c.L, t)
	}
	// the earlier ones may fail too
	for i, t := range c.L {
		if r.P(0.25) {
			c.fail(r, i, t)
		}
	}
	if r.P(0.1) {
		c.Kind = "untrained"
		c.L = nil
		return
	}
	c.L = append(c.L, c.text())
	c.fail(r, len(c.L)-1, c.text())
	if r.P(0.1) && len(c.L) == 1 {
		c.Kind = "settings"
		switch {
		case c.M.Model == "glove" && r.P(0.5):
			c.M.Cnt = "nosuch"
		case c.M.Model == "glove":
			c.M.Solver = "nosuch"
		case c.M.Model == "lexvec":
			c.M.Rel = "nosuch"
		case r.P(0.5):
			c.M.Opt = "nosuch"
		default:
			c.M.Model = "nosuch"
		}
	}
}

// fail makes training number i fail.
func (c *Case) fail(r *R, i int, t string) {
	c.set(fmt.Sprintf("fail%d", i), 1)
	pass := 1
	if r.P(0.6) {
		pass = r.In(1, passes(c.M))
	}
	c.set(fmt.Sprintf("pass%d", i), pass)
	c.set(fmt.Sprintf("at%d", i), r.N(len(t)+1))
	if r.P(0.25) {
		c.set(fmt.Sprintf("seek%d", i), 1)
	}
}

func shrinkC27(c *Case) []*Case {
	out := shrinkModel(c, "iter win neg dim verbose lower depth minc maxc")
	for i := range c.L {
		if len(c.L) > 1 && i < len(c.L)-1 {
			d := c.clone()
			d.L = without(d.L, i, i+1)
			for j := i; j+1 < len(c.L); j++ {
				for _, k := range []string{"fail", "pass", "at", "seek"} {
					d.set(fmt.Sprint(k, j), c.I[fmt.Sprint(k, j+1)])
				}
			}
			out = append(out, d)
		}
		ws := strings.Fields(c.L[i])
		for n := len(ws) / 2; n > 0; n /= 2 {
			d := c.clone()
			d.L[i] = strings.Join(ws[:len(ws)-n], " ")
			out = append(out, d)
		}
	}
	return out
}

// held is what a model shows of itself.
type held struct {
	saveErr [2]error
	text    [2]string
	vec     [2]*mat
}

func hold(m model.Model, wr Stream) *held {
	h := &held{}
	for i, typ := range []vector.Type{vector.Single, vector.Agg} {
		var b bytes.Buffer
		h.saveErr[i] = m.Save(&b, typ)
		h.text[i] = b.String()
		h.vec[i] = snap(m, typ)
	}
	return h
}

func (h *held) diff(g *held) string {
	for i := range h.text {
		if h.saveErr[i] != nil || g.saveErr[i] != nil {
			return fmt.Sprintf("saving: %v and %v", h.saveErr[i], g.saveErr[i])
		}
		if h.text[i] != g.text[i] {
			return fmt.Sprintf("saved text: %.200q and %.200q", h.text[i], g.text[i])
		}
		if d := h.vec[i].diff(g.vec[i]); d != "" {
			return "vectors: " + d
		}
	}
	return ""
}

// complete reports why h is not a model of the whole vocabulary.
func (h *held) complete(ref *Ref, dim int) string {
	for i := range h.text {
		words, vecs, err := parseVectors(h.text[i])
		if err != nil {
			return err.Error()
		}
		if len(words) != len(ref.Words) {
			return fmt.Sprintf("%d lines for a vocabulary of %d", len(words), len(ref.Words))
		}
		if h.vec[i].row != len(words) || h.vec[i].col != dim {
			return fmt.Sprintf("vectors are %dx%d, want %dx%d", h.vec[i].row, h.vec[i].col, len(words), dim)
		}
		for j, w := range words {
			if w != ref.Words[j] {
				return fmt.Sprintf("line %d is of %q, want %q", j, w, ref.Words[j])
			}
			for k, x := range vecs[j] {
				if k < dim && !sixDigits(x, h.vec[i].v[j][k]) {
					return fmt.Sprintf("line %d value %d is %v, the vector has %v", j, k, x, h.vec[i].v[j][k])
				}
			}
		}
	}
	return ""
}

func runC27(c *Case, o *Outcome) {
	o.world(c, nil, func(w *simrt.World) {
		m, err := c.M.build()
		if err != nil {
			if c.Kind != "settings" {
				o.bad("error", "model refused: %v (%s)", err, c.M)
			}
			return
		}
		var before *held // after the last successful training
		untrained := func(when string) bool {
			h := hold(m, c.Wr)
			for i := range h.saveErr {
				if h.saveErr[i] == nil {
					o.bad("false-success", "%s: %s, saving succeeded with %.200q", c.M, when, h.text[i])
					return false
				}
			}
			return true
		}
		if c.Kind == "untrained" || c.Seed%4 == 0 {
			if !untrained("never trained") || c.Kind == "untrained" {
				return
			}
		}
		for i, t := range c.L {
			plan := c.Rd
			k := func(s string) int { return c.I[fmt.Sprint(s, i)] }
			if k("fail") == 1 {
				plan.Faults = []Fault{{Pass: k("pass"), At: k("at"), Kind: "read", Err: readErr(&R{c.Seed + uint64(i)})}}
				if k("seek") == 1 {
					plan.Faults = []Fault{{At: k("pass"), Kind: "seek"}}
				}
			}
			rd := newReader(t, plan, c.Seed+uint64(i))
			err := m.Train(rd)
			if err == nil {
				if c.Kind == "settings" {
					return // C22
				}
				h := hold(m, c.Wr)
				if d := h.complete(reference(t, c.M.Lower, 0, -1), c.M.Dim); d != "" && rd.Fired == 0 {
					o.bad("incomplete", "%s: after training %d succeeded: %s", c.M, i, d)
					return
				}
				before = h
				continue
			}
			if rd.Fired == 0 && c.Kind != "settings" {
				o.bad("error", "training %d from a working input failed: %v (%s)", i, err, c.M)
				return
			}
			simrt.Probe("failed-training")
			h := hold(m, c.Wr)
			if h.saveErr[0] != nil && h.saveErr[1] != nil {
				continue // nothing is saved
			}
			if before != nil && h.diff(before) == "" {
				simrt.Probe("kept-the-old")
				continue
			}
			if d := h.complete(reference(t, c.M.Lower, 0, -1), c.M.Dim); d != "" {
				old := ""
				if before != nil {
					old = fmt.Sprintf(", not what it held before (%.200q),", before.text[0])
				}
				o.bad("wrong-vectors", "%s: after training %d failed (%v) saving gives %.200q%s and not the new vocabulary: %s", c.M, i, err, h.text[0], old, d)
				return
			}
			simrt.Probe("holds-the-new")
			if before != nil {
				for x, v := range h.vec[0].v {
					for y, u := range before.vec[0].v {
						same := len(v) > 0
						for k := range v {
							same = same && k < len(u) && v[k] == u[k]
						}
						if same && c.M.Dim > 1 {
							o.bad("old-vectors", "%s: after training %d failed (%v) word %d of the new vocabulary holds the vector of word %d of the training before", c.M, i, err, x, y)
							return
						}
					}
				}
			}
			if before != nil && c.M.Dim > 1 {
				// what the sum has besides the word vectors
				old := before.contexts()
				for x, v := range h.contexts() {
					for y, u := range old {
						same, flat := len(u) == len(v), true
						for k := range v {
							same = same && math.Abs(v[k]-u[k]) <= 1e-12*(1+math.Abs(u[k]))
							flat = flat && v[k] == v[0]
						}
						if same && !flat {
							o.bad("old-vectors", "%s: after training %d failed (%v) word %d of the new vocabulary has the context vector of word %d of the training before", c.M, i, err, x, y)
							return
						}
					}
				}
				simrt.Probe("contexts-new")
			}
			before = h
		}
	})
}

// contexts are the differences of the two exports.
func (h *held) contexts() (out [][]float64) {
	for i, v := range h.vec[1].v {
		d := make([]float64, len(v))
		for k := range v {
			if i < len(h.vec[0].v) && k < len(h.vec[0].v[i]) {
				d[k] = v[k] - h.vec[0].v[i][k]
			}
		}
		out = append(out, d)
	}
	return
}
