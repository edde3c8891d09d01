package main

import (
	"math"

	"simrt"
)

// Vocabularies far too large to decode: with window 1, no negatives and a
// learning rate of 1e-10 the change of every vector is a sum over the corpus,
// whatever the order, and is compared with it.

// wideWords gives the case a wide vocabulary.
func wideWords(r *R, c *Case) int {
	n := r.I(257, 300, 520, 1030, 2050, 4100, 8200)
	if r.P(0.08) {
		n = 65536 + r.In(1, 2000)
	}
	c.Seps, c.Rd, c.Text = "", Stream{}, ""
	if r.P(0.5) {
		c.Rd = Stream{Chunk: "fixed", N: r.I(512, 4096, 8191)}
	}
	c.set("ids", n)
	c.Words = nil
	all := distinct(n)
	for i := r.In(0, 2*min(n, 3000)); i > 0; i-- {
		k := r.N(n)
		if r.P(0.3) {
			k = r.N(3)
		} else if r.P(0.3) {
			k = n - 1 - r.N(3)
		}
		c.Words = append(c.Words, all[k])
	}
	return n
}

// manyWords gives a case that saves a model a wide vocabulary.
func manyWords(r *R, c *Case) {
	if !r.P(0.0004) {
		return
	}
	wideWords(r, c)
	c.Words = nil
	c.M.Dim, c.M.Iter, c.M.Verbose, c.M.B = r.I(1, 2, 3), 0, false, 1000000
	c.Rd = Stream{}
	c.Sched.P = min(c.Sched.P, 0.01)
}

// genWide makes such a case, or says no.
func genWide(r *R, c *Case) bool {
	if !r.P(0.0004) {
		return false
	}
	c.Kind = "wide"
	n := wideWords(r, c)
	c.M.Win, c.M.Neg, c.M.Iter, c.M.Sub = 1, 0, r.I(1, 1, 2), 0
	c.M.MinC, c.M.MaxC, c.M.Lower, c.M.Verbose = 0, -1, false, false
	if n > 65536 {
		c.M.Iter = 1
	}
	c.M.Dim = r.I(2, 3, 8)
	if c.M.Model == "lexvec" || c.M.isW2V() {
		if c.M.Mem {
			c.M.G = 1
		} else {
			c.M.B = 1000000
		}
	}
	c.M.UpdLR, c.M.LogB = 1<<30, 100000
	c.Sched.P = 0
	return true
}

func runWide(c *Case, o *Outcome) {
	d := runDecodedIn(c, o, func(w *simrt.World) { w.NoVecY = true })
	if d == nil {
		return
	}
	V, dim, T := len(d.ref.Words), c.M.Dim, float64(c.M.Iter)
	w0, c0 := d.w0.v, d.c0.v
	rows := func() [][]float64 {
		m := make([][]float64, V)
		for i := range m {
			m[i] = make([]float64, dim)
		}
		return m
	}
	// what is expected, the sizes added up, and for GloVe what the biases may add
	ew, sw, bw := rows(), rows(), rows()
	ec, sc, bc := rows(), rows(), rows()
	add := func(e, s [][]float64, i int, g float64, v []float64) {
		for j := range v {
			e[i][j] += g * v[j]
			s[i][j] += math.Abs(g * v[j])
		}
	}
	rel := 0.002
	switch {
	case c.M.isW2V():
		rel = 0.013 // the scores are tabulated
		a := make([]float64, dim)
		for _, u := range occurrences(d.ref.Doc, nil, c.M.Model == "cbow") {
			for j := range a {
				a[j] = 0
				for _, x := range u.ctx {
					a[j] += w0[x][j]
				}
			}
			g := T / (1 + math.Exp(dot(a, c0[u.centre])))
			for _, x := range u.ctx {
				add(ew, sw, x, g, c0[u.centre])
			}
			add(ec, sc, u.centre, g, a)
		}
	case c.M.Model == "lexvec":
		t := cooc(d.ref.All, 1, false)
		for i, a := range d.ref.Doc {
			for _, k := range []int{i - 1, i + 1} {
				if k < 0 || k >= len(d.ref.Doc) {
					continue
				}
				b := d.ref.Doc[k]
				g := T * (association(c.M, d.ref, t, a, b) - dot(w0[a], w0[b]))
				add(ew, sw, a, g, w0[b])
				add(ew, sw, b, g, w0[a])
			}
		}
	default:
		for p, n := range cooc(d.ref.All, 1, c.M.Cnt == "prox") {
			coef := T
			if n < float64(c.M.Xmax) {
				coef *= math.Pow(n/float64(c.M.Xmax), c.M.Alpha)
			}
			fit := func(i, j int) {
				g := coef * (math.Log(n) - dot(w0[i], c0[j]))
				add(ew, sw, i, g, c0[j])
				add(ec, sc, j, g, w0[i])
				for k := 0; k < dim; k++ {
					bw[i][k] += coef * 2 / float64(dim) * c0[j][k]
					bc[j][k] += coef * 2 / float64(dim) * w0[i][k]
				}
			}
			fit(p.a, p.b)
			fit(p.b, p.a)
		}
	}
	check := func(what string, got, e, s, b [][]float64) {
		for i := range got {
			for j, x := range got[i] {
				x /= eps
				tol := rel*(s[i][j]+b[i][j]) + 1e-5*(1+T)
				if x > e[i][j]+tol || x < e[i][j]-b[i][j]-tol {
					o.bad("wrong-sum", "%s: over %d words, the %s vector of word %d (%q, %d times) changed by %.6g times the learning rate in component %d, its occurrences make it %.6g (biases -%.3g) ± %.2g",
						c.M, V, what, i, d.ref.Words[i], d.ref.Freq[i], x, j, e[i][j], b[i][j], tol)
					return
				}
			}
		}
	}
	check("word", d.dw, ew, sw, bw)
	if o.Class == "" && c.M.Model != "lexvec" {
		check("context", d.dc, ec, sc, bc)
	}
	o.probe("wide-words", V)
}
