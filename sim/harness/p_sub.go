package main

import (
	"fmt"
	"math"
	"strconv"

	"simrt"
)

func init() {
	register(&Prop{ID: "C30", Quick: 150000,
		Rule: "word2vec and LexVec with a subsampling threshold, learning rate 1e-10, window 1. In most cases every random number drawn while training is one constant, so that all occurrences of a word are decided alike and the decision is known for a probability; otherwise they are random and occurrences must be decided one by one. Which occurrences were trained is decoded from the exported vectors.",
		Real: "everything but the reader is the real code",
		Gen:  genC30, Run: runC30, Shrink: shrinkC30})
}

func genC30(r *R, c *Case) {
	c.M = decodeModel(r, r.S("skipgram", "cbow", "lexvec"))
	c.Rd = genRead(r)
	c.Rd.Faults = nil
	c.M.Win, c.M.Neg, c.M.Rel = 1, 0, "co"
	// not cut
	if c.M.Mem {
		c.M.G = 1
	} else {
		c.M.B = 10000
	}
	c.M.Sub = r.X(0, 1e-4, 1e-3, 1e-2, 0.05, 0.1, 0.2, 0.4, 0.9, 0.99)
	if r.P(0.03) {
		c.Kind = "curve"
		c.M.Iter = 1
		c.M.Sub = r.X(1e-3, 1e-2, 0.03, 0.05, 0.1)
		v := r.In(2, 4)
		for i := r.In(6, 36); i > 0; i-- {
			k := r.N(v)
			if r.P(0.7) {
				k = r.N(k + 1)
			}
			c.Words = append(c.Words, fmt.Sprint("w", k))
		}
	} else if r.P(0.2) {
		c.Kind = "draws"
		v, k := 20, r.I(2, 3)
		c.M.Iter = r.I(1, 3, 3)
		if c.M.Iter == 1 {
			k = r.I(4, 5)
		}
		if c.M.Model == "lexvec" {
			c.M.Model = "skipgram"
		}
		c.M.Sub = r.X(0.1, 0.3, 0.5, 0.9, 1.5)
		for i := 0; i < v*k; i++ {
			c.Words = append(c.Words, fmt.Sprint("w", i%v))
		}
		for i := range c.Words {
			j := r.N(i + 1)
			c.Words[i], c.Words[j] = c.Words[j], c.Words[i]
		}
	} else {
		c.Kind = "fixed"
		c.M.Iter = r.I(1, 1, 2)
		v := r.In(2, 7)
		n := r.In(2, 40)
		for i := 0; i < n; i++ {
			k := r.N(v)
			if r.P(0.6) {
				k = r.N(k + 1)
			}
			c.Words = append(c.Words, fmt.Sprint("w", k))
		}
		u := r.F()
		switch r.N(8) {
		case 0:
			u = 1e-9
		case 1:
			u = 1 - 1e-9
		case 2, 3, 4:
			// between the probabilities of two counts
			u = 1 - math.Sqrt(c.M.Sub/(float64(r.In(1, 12))+0.5))
		case 5:
			u = math.Sqrt(c.M.Sub * float64(n) / (float64(r.In(1, 12)) + 0.5))
		case 6:
			u = 1 - r.F()*0.2
		}
		if !(u > 1e-9) {
			u = 1e-9
		}
		if !(u < 1-1e-9) {
			u = 1 - 1e-9
		}
		c.S = map[string]string{"u": strconv.FormatFloat(u, 'g', -1, 64)}
		if c.M.Model != "lexvec" && r.P(0.2) {
			c.M.MinC, c.M.MaxC = r.In(1, 3), r.I(-1, 0, 5)
		}
	}
	for {
		ref := reference(c.text(), false, c.M.MinC, c.M.MaxC)
		over := false
		for p, x := range cooc(ref.Doc, 1, false) {
			if p.a == p.b {
				x *= 2
			}
			over = over || x*float64(c.M.Iter) > 40
		}
		if !over {
			break
		}
		c.Words = c.Words[:len(c.Words)-1]
	}
	c.M.Dim = max(48, 4*len(reference(c.text(), false, 0, -1).Words)+4)
}

func shrinkC30(c *Case) []*Case {
	out := shrinkModel(c, "g verbose iter")
	if c.Kind == "fixed" {
		out = append(shrinkWords(c), shrinkModel(c, "iter g verbose minc maxc")...)
	}
	return out
}

// centres decodes how often word a was trained as the neighbour of centre b, over
// all passes. For LexVec a pair is fitted to one value from both sides, so only
// the sum of both is known.
func centres(c *Case, o *Outcome, d *decoded) (n [][]int, sum bool) {
	V := len(d.ref.Words)
	if c.M.Model != "lexvec" {
		m := nsCounts(c, o, d)
		if m == nil {
			return nil, false
		}
		return integral(o, c.M, d.ref, m, func(i, j int) float64 { return math.Abs(m[i][j]) }), false
	}
	basis := append(append([][]float64{}, d.w0.v...), d.c0.v...)
	a := d.table(o, "the word vector", d.dw, basis, c.M.Lr, 0.01)
	if a == nil {
		return nil, true
	}
	t := cooc(d.ref.All, 1, false)
	for i := 0; i < V; i++ {
		n = append(n, make([]int, V))
		for j := 0; j < V; j++ {
			g := association(c.M, d.ref, t, i, j) - dot(d.w0.v[i], d.w0.v[j])
			if math.Abs(g) < 0.05 {
				if math.Abs(a[i][j]) > 0.05 {
					o.bad("wrong-fit", "%s: %q and %q do not occur together but were moved by %.4g", c.M, d.ref.Words[i], d.ref.Words[j], a[i][j])
					return nil, true
				}
				continue
			}
			k := a[i][j] / g
			if i == j {
				k /= 2
			}
			if math.Abs(k-float64(round(k))) > 0.05+0.005*math.Abs(k) {
				o.bad("wrong-fit", "%s: %q and %q: the change is %.4g times that of one fit", c.M, d.ref.Words[i], d.ref.Words[j], k)
				return nil, true
			}
			n[i][j] = round(k)
		}
	}
	return n, true
}

// before counts the random numbers drawn before the first pass.
func before(c *Case, o *Outcome) int {
	mo := c.M
	mo.Iter, mo.Verbose = 0, false
	w := o.aux(c.Seed, func(w *simrt.World) {
		if _, err := trainIn(mo, newReader(c.text(), Stream{}, 0)); err != nil {
			o.bad("error", "training with no iterations failed: %v", err)
		}
	})
	return w.Draws
}

// runCurve finds the probability with which each word is trained.
func runCurve(c *Case, o *Outcome) {
	draws := before(c, o)
	ref := reference(c.text(), false, 0, -1)
	V := len(ref.Words)
	if o.Class != "" || len(ref.Doc) < 2 || V < 2 {
		o.Triv = o.Class == ""
		return
	}
	adj := cooc(ref.Doc, 1, false)
	e := func(a, b int) int {
		k := int(adj[mkpair(a, b)])
		if a == b {
			k *= 2
		}
		return k
	}
	// which words are trained when the random numbers are u
	memo := map[float64][]bool{}
	set := func(u float64) []bool {
		if s, ok := memo[u]; ok {
			return s
		}
		d := runDecodedIn(c, o, func(x *simrt.World) { x.FixRandAfter(draws, u) })
		if d == nil {
			return nil
		}
		n, sum := centres(c, o, d)
		if n == nil {
			return nil
		}
		var found []bool
		for m := 0; m < 1<<V; m++ {
			s := make([]bool, V)
			for i := range s {
				s[i] = m>>i&1 == 1
			}
			if _, _, ok := fits(s, n, sum, 1, e); ok {
				if found != nil {
					o.Triv = true
					return nil
				}
				found = s
			}
		}
		if found == nil {
			o.bad("wrong-choice", "%s, threshold %g, random number %g: what was trained is no choice of words: %v (neighbour, centre), counts %v", c.M, c.M.Sub, u, n, ref.Freq)
			return nil
		}
		memo[u] = found
		return found
	}
	p := make([]float64, V)
	for i := range p {
		lo, hi := 0.0, 1.0
		for k := 0; k < 14; k++ {
			u := (lo + hi) / 2
			s := set(u)
			if s == nil {
				return
			}
			if s[i] {
				lo = u
			} else {
				hi = u
			}
		}
		p[i] = (lo + hi) / 2
	}
	// a word is trained for every number below its probability and for none above
	for u, s := range memo {
		for i := range s {
			if s[i] != (u < p[i]) {
				o.bad("wrong-choice", "%s, threshold %g: %q is trained with probability %.4f but decided otherwise at %g", c.M, c.M.Sub, ref.Words[i], p[i], u)
				return
			}
		}
	}
	falling, known := true, true
	const tol = 2e-4
	total := float64(len(ref.All))
	for i := range p {
		known = known && math.Abs(p[i]-math.Max(0, 1-math.Sqrt(c.M.Sub/float64(ref.Freq[i])))) < tol
		for j := range p {
			if ref.Freq[i] == ref.Freq[j] && math.Abs(p[i]-p[j]) > tol {
				o.bad("by-count", "%s, threshold %g: %q and %q both occur %d times but are trained with probability %.4f and %.4f", c.M, c.M.Sub, ref.Words[i], ref.Words[j], ref.Freq[i], p[i], p[j])
				return
			}
			if ref.Freq[i] > ref.Freq[j] {
				falling = falling && (p[i] < p[j]-tol || float64(ref.Freq[j]) < 3*c.M.Sub*total && p[i] < p[j]+tol)
			}
		}
	}
	switch {
	case falling:
	case known:
		simrt.Probe("rarer-words-skipped")
		o.bad("rarer-skipped", "rarer words are skipped more often: a word counted n times is skipped with probability sqrt(threshold/n)")
	default:
		o.bad("wrong-probability", "%s, threshold %g: words counted %v times are trained with probability %.4f", c.M, c.M.Sub, ref.Freq, p)
	}
}

// fits compares what was trained with training exactly the words in s as centres.
func fits(s []bool, n [][]int, sum bool, T int, e func(a, b int) int) (int, int, bool) {
	for a := range n {
		for b := range n {
			want := 0
			if s[b] {
				want = T * e(a, b)
			}
			if sum && s[a] && a != b {
				want += T * e(a, b)
			}
			if n[a][b] != want {
				return a, b, false
			}
		}
	}
	return 0, 0, true
}

func runC30(c *Case, o *Outcome) {
	if c.Kind == "curve" {
		runCurve(c, o)
		return
	}
	var d *decoded
	u := 0.0
	if c.Kind == "fixed" {
		u, _ = strconv.ParseFloat(c.S["u"], 64)
		draws := before(c, o)
		if o.Class != "" {
			return
		}
		d = runDecodedIn(c, o, func(x *simrt.World) { x.FixRandAfter(draws, u) })
	} else {
		d = runDecoded(c, o)
	}
	if d == nil {
		return
	}
	words, V, T := d.ref.Words, len(d.ref.Words), c.M.Iter
	if len(d.ref.Doc) < 2 {
		o.Triv = true
		return
	}
	n, sum := centres(c, o, d)
	if n == nil {
		return
	}
	adj := cooc(d.ref.Doc, 1, false)
	// one pass over every occurrence: word a next to centre b
	e := func(a, b int) int {
		k := int(adj[mkpair(a, b)])
		if a == b {
			k *= 2
		}
		return k
	}
	fits := func(s []bool) (int, int, bool) { return fits(s, n, sum, T, e) }
	for a := range words {
		for b := range words {
			top := T * e(a, b)
			if sum && a != b {
				top *= 2
			}
			if n[a][b] < 0 || n[a][b] > top {
				o.bad("extra-update", "%s: %q was trained %d times next to %q, the corpus has %d in %d passes", c.M, words[a], n[a][b], words[b], top, T)
				return
			}
		}
	}
	all := make([]bool, V)
	for i := range all {
		all[i] = true
	}
	if c.M.Sub == 0 {
		if a, b, ok := fits(all); !ok {
			o.bad("skipped", "%s: without subsampling, %q was trained %d times next to %q, the corpus has %d in %d passes", c.M, words[a], n[a][b], words[b], T*e(a, b), T)
		}
		return
	}
	if c.Kind == "draws" {
		runDraws(c, o, d, n, sum, e)
		return
	}
	total := float64(len(d.ref.All))
	set := func(f func(i int) bool) []bool {
		s := make([]bool, V)
		for i := range s {
			s[i] = f(i)
		}
		return s
	}
	// the rarer the likelier trained
	ok := false
	for top := 0; top <= len(d.ref.All) && !ok; top++ {
		s := set(func(i int) bool { return d.ref.Freq[i] <= top })
		if _, _, ok = fits(s); !ok {
			continue
		}
		for i := range s {
			if !s[i] && u < 1e-8 && e2(e, i, V) > 0 {
				o.bad("never-trained", "%s, threshold %g: %q (%d of %.0f words) is skipped although the random number is %g", c.M, c.M.Sub, words[i], d.ref.Freq[i], total, u)
				return
			}
			if s[i] && u > 1-1e-8 && float64(d.ref.Freq[i])/total > 3*c.M.Sub && e2(e, i, V) > 0 {
				o.bad("never-skipped", "%s, threshold %g: %q (%d of %.0f words) is trained although the random number is %g", c.M, c.M.Sub, words[i], d.ref.Freq[i], total, u)
				return
			}
		}
	}
	if ok {
		return
	}
	// what was found on the tree this was written for, see known_findings.txt
	keep := func(i int) float64 { return math.Max(0, 1-math.Sqrt(c.M.Sub/float64(d.ref.Freq[i]))) }
	near := false
	s := set(func(i int) bool {
		near = near || math.Abs(keep(i)-u) < 1e-7
		return keep(i) > u
	})
	if near {
		o.Triv = true
		return
	}
	if _, _, ok := fits(s); ok {
		simrt.Probe("rarer-words-skipped")
		o.bad("rarer-skipped", "rarer words are skipped more often: a word counted n times is skipped with probability sqrt(threshold/n)")
		return
	}
	o.bad("wrong-choice", "%s, threshold %g, random number %g: no choice of words by their counts %v explains what was trained: %v (neighbour, centre)", c.M, c.M.Sub, u, d.ref.Freq, n)
}

// e2 is how often a word has a neighbour.
func e2(e func(a, b int) int, i, v int) int {
	k := 0
	for a := 0; a < v; a++ {
		k += e(a, i)
	}
	return k
}

// runDraws: every occurrence is decided by itself in every pass.
func runDraws(c *Case, o *Outcome, d *decoded, n [][]int, sum bool, e func(a, b int) int) {
	T, V := c.M.Iter, len(n)
	got, full := 0, 0
	for a := range n {
		for b := range n {
			got += n[a][b]
			full += T * e(a, b)
			if sum && a != b {
				full += T * e(a, b)
			}
		}
	}
	p := float64(got) / float64(full)
	if p < 0.25 || p > 0.75 || V < 20 || sum {
		o.Triv = true
		return
	}
	whole, passes := 0, 0
	for b := 0; b < V; b++ {
		k, t, every := 0, 0, true
		for a := 0; a < V; a++ {
			k += n[a][b]
			t += T * e(a, b)
			every = every && n[a][b]%T == 0
		}
		if k == 0 || k == t {
			whole++
		}
		if every {
			passes++
		}
	}
	if whole == V {
		o.bad("by-word", "%s, threshold %g: all occurrences of a word are trained in all passes or none, for every one of %d words", c.M, c.M.Sub, V)
	} else if T >= 3 && passes == V {
		o.bad("by-pass", "%s, threshold %g: each of %d passes trains the same occurrences", c.M, c.M.Sub, T)
	}
}
