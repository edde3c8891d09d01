package main

import (
	"fmt"
	"math"
	"strings"

	"simrt"

	"github.com/ynqa/wego/pkg/model"
	"github.com/ynqa/wego/pkg/model/modelutil/vector"
)

// Update decoding. With a tiny learning rate the change of a vector is, to first
// order, a combination of the initial vectors, with the update counts (times rate
// and gradient) as coefficients. The initial vectors are linearly independent, so
// the coefficients, and from them the counts, can be read off the exported
// vectors, whatever the order of updates was.

const eps = 1e-10

// decoded is what one training did to the exported vectors.
type decoded struct {
	ref      *Ref
	w0, c0   *mat // initial word and context vectors
	w1, c1   *mat
	dw, dc   [][]float64
	w, ctx   [][]float64 // coefficients of dw over c0 and of dc over w0 (NS), see below
	parts    int         // the corpus may be split into this many parts
	trainErr error
}

// parts is how many pieces workers or batches may cut the corpus into.
func parts(m MO, n int) int {
	p := 1
	if m.Mem {
		p = m.G
	} else if m.B > 0 {
		p = (n + m.B - 1) / m.B
	}
	if p < 1 {
		p = 1
	}
	return p
}

// runDecoded trains in the main world and takes differences to the initial vectors.
func runDecoded(c *Case, o *Outcome) *decoded { return runDecodedIn(c, o, nil) }

func runDecodedIn(c *Case, o *Outcome, prep func(w *simrt.World)) *decoded {
	d := &decoded{ref: reference(c.text(), c.M.Lower, c.M.MinC, c.M.MaxC)}
	d.parts = parts(c.M, len(d.ref.Doc))
	d.w0, d.c0 = initial(o, c.M, c.text(), c.Seed)
	if o.Class != "" {
		return nil
	}
	ok := false
	o.world(c, prep, func(w *simrt.World) {
		m, err := trainIn(c.M, newReader(c.text(), c.Rd, c.Seed))
		if err != nil {
			o.bad("error", "training from a working input failed: %v (%s)", err, c.M)
			return
		}
		d.w1, d.c1 = export(m)
		ok = true
	})
	if !ok || o.Class != "" {
		return nil
	}
	if d.w1.row != len(d.ref.Words) || d.w1.col != c.M.Dim || d.w0.row != d.w1.row {
		o.bad("shape", "%s: vectors are %dx%d, want %dx%d", c.M, d.w1.row, d.w1.col, len(d.ref.Words), c.M.Dim)
		return nil
	}
	d.dw, d.dc = d.w1.minus(d.w0), d.c1.minus(d.c0)
	return d
}

// table decodes rows over a basis; nil with a violation if something else was added.
func (d *decoded) table(o *Outcome, what string, rows, basis [][]float64, scale, tol float64) [][]float64 {
	dec := newDecoder(basis)
	if dec == nil {
		o.Triv = true
		return nil
	}
	// what counts as nothing
	tiny := scale * norm(basis) * 1e-4
	t := make([][]float64, len(rows))
	for i, r := range rows {
		if vnorm(r) < tiny {
			t[i] = make([]float64, len(basis))
			continue
		}
		x, rest := dec.coef(r)
		// what is too small to be an update may be rounding
		if rest > tol && rest*vnorm(r) > 0.005*scale*norm(basis) {
			o.bad("stray-update", "%s of word %q changed by something that is no update against the vectors of other words (%.2g of the change is unexplained)", what, d.ref.Words[i], rest)
			return nil
		}
		for j := range x {
			x[j] /= scale
		}
		t[i] = x
	}
	return t
}

func vnorm(v []float64) float64 {
	s := 0.0
	for _, x := range v {
		s += x * x
	}
	return math.Sqrt(s)
}

func norm(b [][]float64) float64 {
	s := 0.0
	for _, v := range b {
		s = math.Max(s, vnorm(v))
	}
	return s
}

func transpose(m [][]float64) [][]float64 {
	if len(m) == 0 {
		return nil
	}
	t := make([][]float64, len(m[0]))
	for i := range t {
		t[i] = make([]float64, len(m))
		for j := range m {
			t[i][j] = m[j][i]
		}
	}
	return t
}

func dot(a, b []float64) float64 {
	s := 0.0
	for i := range a {
		s += a[i] * b[i]
	}
	return s
}

// agree compares the counts read from the two sides of each update.
func agree(o *Outcome, mo MO, ref *Ref, a, b [][]float64, rel float64) bool {
	for i := range a {
		for j := range a[i] {
			if !near(a[i][j], b[i][j], rel, 0.02) {
				o.bad("one-sided", "%s: updates of context %q for word %q: %.4g in the word vector, %.4g in the output vector", mo, ref.Words[i], ref.Words[j], a[i][j], b[i][j])
				return false
			}
		}
	}
	return true
}

// ---- C04 ----

func decodeModel(r *R, name string) MO {
	m := defaults(name)
	m.Lr, m.MinLR = eps, eps/10
	m.G = r.I(1, 2, 2, 3, 4, 5, 7)
	m.B = r.I(1, 2, 3, 4, 5, 7, 11, 50, 10000)
	m.Mem = r.P(0.5)
	m.Iter = r.I(1, 1, 2, 3)
	m.Neg = 0
	m.Verbose = r.P(0.08)
	m.LogB = r.I(1, 3, 1000)
	return m
}

func init() {
	register(&Prop{ID: "C04", Quick: 250000,
		Rule: "word2vec with negative sampling, learning rate 1e-10, on corpora of up to a dozen distinct words; the number of updates of every (context, output) pair is decoded from both sides of the exported vectors and compared with a count over the corpus.",
		Gen:  genC04, Run: runC04, Shrink: shrinkDecode})
	register(&Prop{ID: "C06", Quick: 250000,
		Rule: "LexVec, learning rate 1e-10; fits of every (word, word) and (word, negative) pair decoded from the exported vectors and compared with the corpus and the association values.",
		Gen:  genC06, Run: runC06, Shrink: shrinkDecode})
	register(&Prop{ID: "C07", Quick: 400000,
		Rule: "GloVe, learning rate 1e-10; fits of every ordered pair decoded from the exported vectors, against the co-occurrence counts and a single-worker, single-pass run.",
		Gen:  genC07, Run: runC07, Shrink: shrinkDecode})
	register(&Prop{ID: "C08", Quick: 250000,
		Rule: "word2vec and LexVec on a corpus of distinct words with window 1; the learning rate of every single update is decoded from the exported vectors.",
		Gen:  genC08, Run: runC08, Shrink: shrinkDecode})
	register(&Prop{ID: "C12", Quick: 400000,
		Rule: "A model with count limits; vectors of words outside the limits are compared bit by bit with the initial ones.",
		Gen:  genC12, Run: runC12, Shrink: shrinkDecode})
}

func shrinkDecode(c *Case) []*Case {
	out := append(shrinkWords(c), shrinkModel(c, "iter g b neg verbose lower depth minc maxc")...)
	if c.Kind == "wide" {
		out = append(shrinkWords(c), shrinkModel(c, "iter dim")...)
		return out
	}
	if c.Kind == "exact" {
		out = append(shrinkWords(c), shrinkModel(c, "iter neg verbose dim")...)
	}
	if c.Kind == "distinct" {
		// keep the words distinct: only a suffix may go
		out = shrinkModel(c, "iter g b neg verbose")
		for k := 2; k < len(c.Words); k += 1 + k/3 {
			d := c.clone()
			d.Words = d.Words[:k]
			out = append(out, d)
		}
	}
	return out
}

// genFar makes a corpus in one piece and passes enough for every distance to be used.
func genFar(r *R, c *Case) {
	c.Words = distinct(r.In(4, 14))
	c.M.Win = r.I(3, 5, 7, 11, 13, 17, 19) // primes: the low bits of the generator have short periods
	c.M.Iter = 40
	c.M.B = 100
	if c.M.Mem {
		c.M.G = 1
	}
	c.Sched.P = math.Min(c.Sched.P, 0.1)
}

// farUnused finds a distance within the window which a training in one piece should
// have used sixty times and did not. n gives the updates of two words, both ways.
func farUnused(win, size, passes int, n func(i, j int) int) (int, float64) {
	if win != 3 && win != 5 && win != 7 && win != 11 && win != 13 && win != 17 && win != 19 {
		return 0, 0
	}
	for k := 1; k < size && k <= win; k++ {
		expected := 2 * float64((size-k)*passes*(win-k+1)) / float64(win)
		used := 0
		for i := 0; i+k < size; i++ {
			used += n(i, i+k)
		}
		if expected >= 60 && used == 0 {
			return k, expected
		}
	}
	return 0, 0
}

func genC04(r *R, c *Case) {
	c.M = decodeModel(r, r.S("skipgram", "cbow"))
	c.Rd = genRead(r)
	if genWide(r, c) {
		return
	}
	if r.P(0.08) {
		genExactC04(r, c)
		return
	}
	v := 0
	switch k := r.N(100); {
	case k < 35:
		c.Kind = "distinct"
		n := r.I(2, 3, 4, 5, 6, 8, 10, 12, 15)
		c.Words = distinct(n)
		c.M.Win = r.I(1, 2, 3, 5, 8)
		if r.P(0.15) {
			genFar(r, c)
		}
		v = len(c.Words)
	case k < 60:
		c.Kind = "adjacent"
		c.Words = corpus(r, r.In(2, 40), r.In(2, 9))
		c.M.Win = 1
	case k < 75:
		c.Kind = "window"
		c.Words = corpus(r, r.In(2, 25), r.In(2, 9))
		c.M.Win = r.In(2, 6)
		c.M.B, c.M.Mem = r.I(25, 100), r.P(0.5)
		if c.M.Mem {
			c.M.G = 1
		}
	case k < 97:
		c.Kind = "negatives"
		c.Words = corpus(r, r.In(2, 30), r.In(2, 9))
		c.M.Win = 1
		c.M.Neg = r.In(1, 6)
	default:
		c.Kind = "many"
		c.Words = corpus(r, r.In(150, 300), 13) // a prime: the low bits of the generator have a short period
		c.M.Win = 1
		c.M.Neg = r.In(1, 6)
		c.M.Iter = r.In(2, 3)
		c.M.G, c.M.B, c.M.Mem = r.I(1, 2, 3), r.I(40, 1000), r.P(0.5)
		c.Rd.Chunk = ""
	}
	if c.Kind != "distinct" && c.Kind != "many" && r.P(0.3) {
		c.M.MinC = r.In(1, 3)
		c.M.MaxC = r.I(-1, -1, 0, 3, 5)
	}
	if v == 0 {
		v = len(reference(c.text(), false, 0, -1).Words)
	}
	c.M.Dim = 2*v + 4
	if c.M.Dim < 48 {
		c.M.Dim = 48
	}
	if c.Kind != "many" {
		// counts beyond fifty cannot be told apart
		limit := func() bool {
			ref := reference(c.text(), c.M.Lower, c.M.MinC, c.M.MaxC)
			for p, x := range cooc(ref.Doc, c.M.Win, false) {
				if p.a == p.b {
					x *= 2
				}
				if x*float64(c.M.Iter) > 40 {
					return true
				}
			}
			return false
		}
		for limit() {
			if c.M.Iter > 1 {
				c.M.Iter--
			} else {
				c.Words = c.Words[:len(c.Words)-1]
			}
		}
	}
}

// nsCounts decodes P-Q[context][output] of word2vec with negative sampling.
func nsCounts(c *Case, o *Outcome, d *decoded) [][]float64 {
	scale := 0.5 * c.M.Lr
	a := d.table(o, "the word vector", d.dw, d.c0.v, scale, 0.01)
	if a == nil {
		return nil
	}
	b := d.table(o, "the output vector", d.dc, d.w0.v, scale, 0.01)
	if b == nil {
		return nil
	}
	if !agree(o, c.M, d.ref, a, transpose(b), 0.02) {
		return nil
	}
	return a
}

func round(x float64) int { return int(math.Floor(x + 0.5)) }

// integral turns counts into integers; gradients are off by up to 0.6 %
// because of the sigmoid table.
func integral(o *Outcome, mo MO, ref *Ref, m [][]float64, size func(i, j int) float64) [][]int {
	r := make([][]int, len(m))
	for i := range m {
		r[i] = make([]int, len(m[i]))
		for j, x := range m[i] {
			k := round(x)
			tol := 0.05 + 0.008*size(i, j)
			if math.Abs(x-float64(k)) > tol && tol < 0.45 {
				o.bad("partial-update", "%s: context %q, word %q: %.4g updates is no whole number", mo, ref.Words[i], ref.Words[j], x)
				return nil
			}
			r[i][j] = k
		}
	}
	return r
}

func runC04(c *Case, o *Outcome) {
	if c.Kind == "exact" {
		exactC04(c, o)
		return
	}
	if c.Kind == "wide" {
		runWide(c, o)
		return
	}
	d := runDecoded(c, o)
	if d == nil {
		return
	}
	doc := d.ref.Doc
	if len(doc) < 2 || len(d.ref.Words) < 2 {
		o.Triv = true
		for i := range d.dw {
			if len(doc) < 2 && vnorm(d.dw[i]) != 0 {
				o.bad("unexpected-update", "%s: a single word has no context but %q was trained", c.M, d.ref.Words[i])
			}
		}
		return
	}
	m := nsCounts(c, o, d)
	if m == nil {
		return
	}
	T := c.M.Iter
	words := d.ref.Words
	full := cooc(doc, c.M.Win, false)
	adj := cooc(doc, 1, false)
	cuts := T * (d.parts - 1)
	// e counts (context a, centre b) pairs
	e := func(t map[pair]float64, a, b int) int {
		n := int(t[mkpair(a, b)])
		if a == b {
			n *= 2
		}
		return n * T
	}
	if c.Kind == "many" {
		runC04many(c, o, d, m, adj, cuts)
		return
	}
	if c.Kind == "negatives" {
		N := integral(o, c.M, d.ref, m, func(i, j int) float64 {
			return float64(2*e(adj, i, j)) + math.Abs(m[i][j]) + 4
		})
		if N == nil {
			return
		}
		for a := range words {
			pos, neg := 0, 0
			for b := range words {
				p := e(adj, a, b)
				q := p - N[a][b]
				pos += p
				neg += q
				if q < 0 {
					o.bad("extra-update", "%s: context %q, word %q: net %d positive updates, the corpus has only %d", c.M, words[a], words[b], N[a][b], p)
					return
				}
			}
			// a cut removes a positive pair and shows as a negative here
			if neg > c.M.Neg*pos+2*cuts {
				o.bad("extra-negative", "%s: context %q: %d negatives for %d updates with %d negatives each", c.M, words[a], neg, pos, c.M.Neg)
				return
			}
			if pos == 0 && neg > 0 {
				o.bad("extra-negative", "%s: context %q: %d negatives but no update", c.M, words[a], neg)
				return
			}
		}
		return
	}
	N := integral(o, c.M, d.ref, m, func(i, j int) float64 { return float64(e(full, i, j)) + math.Abs(m[i][j]) })
	if N == nil {
		return
	}
	for a := range words {
		for b := range words {
			if N[a][b] < 0 || N[a][b] > e(full, a, b) {
				o.bad("extra-update", "%s: context %q, word %q: %d updates, the corpus has at most %d in %d passes", c.M, words[a], words[b], N[a][b], e(full, a, b), T)
				return
			}
		}
	}
	lost := 0
	for a := range words {
		for b := range words {
			k := e(adj, a, b) - N[a][b]
			if k > 0 {
				lost += k
			}
		}
	}
	// cutting between two neighbours loses both directions
	if lost > 2*cuts {
		o.bad("lost-update", "%s: %d updates of direct neighbours are missing (%d words in at most %d parts, %d passes)", c.M, lost, len(doc), d.parts, T)
		return
	}
	if c.M.Win == 1 {
		for a := range words {
			for b := range words {
				if N[a][b] != N[b][a] {
					o.bad("asymmetric", "%s: %q for %q: %d updates, the other way round %d", c.M, words[a], words[b], N[a][b], N[b][a])
					return
				}
			}
		}
	}
	if c.Kind == "distinct" {
		checkDistinct(c, o, d, N, T)
	}
}

// checkDistinct uses that words are positions.
func checkDistinct(c *Case, o *Outcome, d *decoded, N [][]int, T int) {
	n := len(d.ref.Doc)
	// fixed cuts: all or none of the updates across are missing
	part := make([]int, n)
	fixed := true
	for i := 0; i+1 < n; i++ {
		l := N[i+1][i] // context i+1 for centre i
		k := N[i][i+1]
		if l != k {
			o.bad("asymmetric", "%s: neighbours %d and %d: %d updates one way, %d the other", c.M, i, i+1, l, k)
			return
		}
		part[i+1] = part[i]
		if l == 0 {
			part[i+1]++
		} else if l != T {
			fixed = false
		}
	}
	if fixed && n > 0 && part[n-1] == 0 {
		if k, e := farUnused(c.M.Win, n, T, func(i, j int) int { return N[i][j] + N[j][i] }); k > 0 {
			o.bad("window", "%s: no update at distance %d in %d passes over %d words, where about %.0f are due", c.M, k, T, n, e)
			return
		}
	}
	for p := 0; p < n; p++ {
		for k := 1; k-1 <= c.M.Win && k < n; k++ {
			l, h := p-k, p+k
			if k > 1 {
				if l >= 0 && N[l][p] > N[l+1][p] || h < n && N[h][p] > N[h-1][p] {
					o.bad("window", "%s: word %d has more updates at distance %d than at %d", c.M, p, k, k-1)
					return
				}
			}
			if fixed {
				in := func(q int) bool { return q >= 0 && q < n && part[q] == part[p] }
				if in(l) && in(h) && N[l][p] != N[h][p] {
					o.bad("asymmetric", "%s: word %d: %d updates at distance %d before it, %d after it", c.M, p, N[l][p], k, N[h][p])
					return
				}
				for _, q := range []int{l, h} {
					if q >= 0 && q < n && !in(q) && N[q][p] != 0 {
						o.bad("window", "%s: words %d and %d are in different parts but %d updates were made", c.M, p, q, N[q][p])
						return
					}
				}
			}
		}
	}
}

// runC04many: the number of negatives, over many updates.
func runC04many(c *Case, o *Outcome, d *decoded, m [][]float64, adj map[pair]float64, cuts int) {
	sum, pos := 0.0, 0.0
	for a := range m {
		for b := range m[a] {
			sum += m[a][b]
			p := adj[mkpair(a, b)]
			if a == b {
				p *= 2
			}
			pos += p * float64(c.M.Iter)
		}
	}
	v, k := float64(len(m)), float64(c.M.Neg)
	lo, hi := pos-2*float64(cuts), pos
	neg := pos - sum
	if neg > k*hi*1.01+2*float64(cuts)+1 {
		o.bad("extra-negative", "%s: %.1f negatives for %.0f updates with %d negatives each", c.M, neg, pos, c.M.Neg)
	}
	want := k*lo*(1-1/v) - 8*math.Sqrt(k*hi*2/v) - 0.01*k*hi - 2
	if v >= 10 && neg < want {
		o.bad("lost-negative", "%s: only %.1f negatives for %.0f updates with %d negatives each (at least %.1f expected over %d words)", c.M, neg, pos, c.M.Neg, want, len(m))
	}
}

// ---- C06 ----

func genC06(r *R, c *Case) {
	c.M = decodeModel(r, "lexvec")
	c.Rd = genRead(r)
	c.M.Rel = r.S("ppmi", "ppmi", "pmi", "co", "logco")
	c.M.Smooth = r.X(0.75, 1, 0.5)
	if genWide(r, c) {
		return
	}
	if r.P(0.08) {
		genExactC06(r, c)
		return
	}
	switch k := r.N(100); {
	case k < 40:
		c.Kind = "distinct"
		c.Words = distinct(r.I(2, 3, 4, 5, 6, 8, 10))
		c.M.Win = r.I(1, 2, 3, 5)
		c.M.Rel = r.S("co", "pmi", "ppmi")
		if r.P(0.1) {
			genFar(r, c)
			c.M.Rel = "co"
		}
	case k < 75:
		c.Kind = "adjacent"
		c.Words = corpus(r, r.In(2, 30), r.In(2, 7))
		c.M.Win = 1
		if r.P(0.3) {
			c.M.MinC = r.In(1, 3)
			c.M.MaxC = r.I(-1, -1, 0, 3, 5)
		}
	default:
		c.Kind = "negatives"
		v := r.In(2, 6)
		for k := r.In(2, 4); k > 0; k-- {
			for j := 0; j < v; j++ {
				c.Words = append(c.Words, fmt.Sprint("w", j))
			}
		}
		for i := range c.Words {
			j := r.N(i + 1)
			c.Words[i], c.Words[j] = c.Words[j], c.Words[i]
		}
		c.M.Rel = "co"
		c.M.Win = len(c.Words) + r.N(3)
		c.M.Neg = r.In(1, 5)
		if n := len(c.Words); n*n*c.M.Iter*(c.M.Neg+1) > 2000 {
			c.M.Iter = 1
		}
		if c.Sched.P > 0.05 {
			c.Sched.P = 0.05
		}
	}
	c.M.Lower = r.P(0.1)
	v := len(reference(c.text(), c.M.Lower, 0, -1).Words)
	c.M.Dim = 4*v + 4
}

// association is the reference association value of two words.
func association(mo MO, ref *Ref, t map[pair]float64, a, b int) float64 {
	if a > b {
		a, b = b, a
	}
	n := t[pair{a, b}]
	if n == 0 {
		return 0 // the pair has no item
	}
	pmi := math.Log(n) - math.Log(float64(ref.Freq[a])) - mo.Smooth*math.Log(float64(ref.Freq[b])) + mo.Smooth*math.Log(float64(len(ref.All)))
	switch mo.Rel {
	case "ppmi":
		return math.Max(pmi, 0)
	case "pmi":
		return pmi
	case "co":
		return n
	}
	return math.Log(n)
}

func runC06(c *Case, o *Outcome) {
	if c.Kind == "exact" {
		exactC06(c, o)
		return
	}
	if c.Kind == "wide" {
		runWide(c, o)
		return
	}
	d := runDecoded(c, o)
	if d == nil {
		return
	}
	words, doc := d.ref.Words, d.ref.Doc
	V := len(words)
	if len(doc) < 2 {
		o.Triv = true
		return
	}
	basis := append(append([][]float64{}, d.w0.v...), d.c0.v...)
	a := d.table(o, "the word vector", d.dw, basis, c.M.Lr, 0.01)
	if a == nil {
		return
	}
	b := d.table(o, "the context vector", d.dc, d.w0.v, c.M.Lr, 0.01)
	if b == nil {
		return
	}
	t := cooc(d.ref.All, c.M.Win, false)
	docT := cooc(doc, c.M.Win, false)
	adj := cooc(doc, 1, false)
	T := c.M.Iter
	// positives: word rows against word rows
	total, unsure := 0, false
	lost := 0
	n := make([][]int, V)
	for i := range n {
		n[i] = make([]int, V)
	}
	for i := 0; i < V; i++ {
		for j := i; j < V; j++ {
			f := association(c.M, d.ref, t, i, j)
			g := f - dot(d.w0.v[i], d.w0.v[j])
			x, y := a[i][j], a[j][i]
			if !near(x, y, 0.01, 0.003) {
				o.bad("one-sided", "%s: fit of %q and %q: %.4g in one vector, %.4g in the other", c.M, words[i], words[j], x, y)
				return
			}
			max := 2 * T * int(docT[mkpair(i, j)])
			if math.Abs(g) < 0.05 {
				unsure = true
				if math.Abs(x) > 0.06*float64(max+1)*2 {
					o.bad("wrong-fit", "%s: %q and %q have association %.4g, but were moved by %.4g", c.M, words[i], words[j], f, x)
					return
				}
				continue
			}
			k := x / g
			if i == j {
				k /= 2
			}
			if math.Abs(k-float64(round(k))) > 0.05+0.005*math.Abs(k) {
				o.bad("wrong-fit", "%s: %q and %q: the change is %.4g times that of one fit to the association value %.4g", c.M, words[i], words[j], k, f)
				return
			}
			n[i][j] = round(k)
			n[j][i] = n[i][j]
			total += n[i][j]
			if n[i][j] < 0 || n[i][j] > max {
				o.bad("extra-update", "%s: %q and %q were fitted %d times, the corpus has at most %d in %d passes", c.M, words[i], words[j], n[i][j], max, T)
				return
			}
			if l := 2*T*int(adj[mkpair(i, j)]) - n[i][j]; l > 0 {
				lost += l
			}
			if c.M.Win == 1 && n[i][j]%2 != 0 {
				o.bad("asymmetric", "%s: neighbours %q and %q were fitted %d times", c.M, words[i], words[j], n[i][j])
				return
			}
		}
	}
	if lost > 2*T*(d.parts-1) {
		o.bad("lost-update", "%s: %d fits of direct neighbours are missing (%d words in at most %d parts, %d passes)", c.M, lost, len(doc), d.parts, T)
		return
	}
	if c.Kind == "distinct" && !unsure && d.parts == 1 && len(doc) == V {
		if k, e := farUnused(c.M.Win, V, T, func(i, j int) int { return n[i][j] }); k > 0 {
			o.bad("window", "%s: no fit at distance %d in %d passes over %d words, where about %.0f are due", c.M, k, T, V, e)
			return
		}
	}
	if c.Kind == "distinct" && !unsure {
		for i := 0; i < V; i++ {
			for j := i + 2; j < V; j++ {
				if n[i][j] > n[i][j-1] && n[i][j] > n[i+1][j] {
					o.bad("window", "%s: words %d and %d were fitted %d times, more than pairs inside them", c.M, i, j, n[i][j])
					return
				}
			}
		}
	}
	// negatives: word rows against context rows
	neg := 0
	for i := 0; i < V; i++ {
		for s := 0; s < V; s++ {
			x, y := a[i][V+s], b[s][i]
			if !near(x, y, 0.01, 0.003) {
				o.bad("one-sided", "%s: negative %q for %q: %.4g in the word vector, %.4g in the context vector", c.M, words[s], words[i], x, y)
				return
			}
			f := association(c.M, d.ref, t, i, s)
			g := f - dot(d.w0.v[i], d.c0.v[s])
			if c.M.Neg == 0 {
				if math.Abs(x) > 0.003 {
					o.bad("extra-negative", "%s: negative %q for %q without negative sampling", c.M, words[s], words[i])
					return
				}
				continue
			}
			k := x / g
			if math.Abs(g) < 0.05 || math.Abs(k-float64(round(k))) > 0.05+0.005*math.Abs(k) || k < -0.1 {
				o.bad("wrong-fit", "%s: negative %q for %q: the change is %.4g times that of one fit to the association value %.4g", c.M, words[s], words[i], k, f)
				return
			}
			neg += round(k)
		}
	}
	if c.Kind == "negatives" && !unsure && neg != c.M.Neg*total {
		o.bad("wrong-negatives", "%s: %d negatives for %d fits with %d negatives each", c.M, neg, total, c.M.Neg)
	}
}

// ---- C07 ----

func genC07(r *R, c *Case) {
	c.M = decodeModel(r, "glove")
	c.Rd = genRead(r)
	c.M.Cnt = r.S("inc", "inc", "prox")
	c.M.Solver = r.S("sgd", "sgd", "adagrad")
	c.M.Win = r.I(1, 2, 3, 5, 8)
	c.M.Xmax = r.I(1, 2, 3, 5, 100)
	c.M.Alpha = r.X(0.75, 1, 0.5, 0)
	if genWide(r, c) {
		return
	}
	if r.P(0.08) {
		genExactC07(r, c)
		return
	}
	c.M.Lower = r.P(0.15)
	c.Words = corpus(r, r.In(2, 40), r.In(1, 10))
	if r.P(0.3) {
		c.M.MinC = r.In(1, 3)
		c.M.MaxC = r.I(-1, -1, 0, 4, 8)
	}
	c.M.Sub = r.X(0, 1e-3)
	v := len(reference(c.text(), c.M.Lower, 0, -1).Words)
	c.M.Dim = 2*v + 30
}

func runC07(c *Case, o *Outcome) {
	if c.Kind == "exact" {
		exactC07(c, o)
		return
	}
	if c.Kind == "wide" {
		runWide(c, o)
		return
	}
	d := runDecoded(c, o)
	if d == nil {
		return
	}
	a := d.table(o, "the word vector", d.dw, d.c0.v, c.M.Lr, 0.01)
	b := [][]float64(nil)
	if a != nil {
		b = d.table(o, "the context vector", d.dc, d.w0.v, c.M.Lr, 0.01)
	}
	if b == nil {
		return
	}
	// one pass of one worker, same initial vectors
	mo := c.M
	mo.G, mo.Iter, mo.Verbose = 1, 1, false
	var w1 *mat
	o.aux(c.Seed, func(w *simrt.World) {
		m, err := trainIn(mo, newReader(c.text(), Stream{}, 0))
		if err == nil {
			w1, _ = export(m)
		}
	})
	if w1 == nil {
		o.bad("error", "the reference training failed")
		return
	}
	ra := d.table(o, "the word vector", w1.minus(d.w0), d.c0.v, c.M.Lr, 0.01)
	if ra == nil {
		return
	}
	words := d.ref.Words
	t := cooc(d.ref.All, c.M.Win, c.M.Cnt == "prox")
	bt := transpose(b)
	for i := range words {
		for j := range words {
			n := t[mkpair(i, j)]
			if !d.ref.inside(i, c.M.MinC, c.M.MaxC) || !d.ref.inside(j, c.M.MinC, c.M.MaxC) {
				n = 0
			}
			x := a[i][j]
			if !near(x, bt[i][j], 0.01, 0.002) {
				o.bad("one-sided", "%s: fit of %q and %q: %.4g in the word vector, %.4g in the context vector", c.M, words[i], words[j], x, bt[i][j])
				return
			}
			if n == 0 {
				if math.Abs(x) > 0.002 {
					o.bad("extra-update", "%s: %q and %q must not be fitted but were (%.4g)", c.M, words[i], words[j], x)
					return
				}
				continue
			}
			coef := 1.0
			if n < float64(c.M.Xmax) {
				coef = math.Pow(n/float64(c.M.Xmax), c.M.Alpha)
			}
			if i == j {
				coef *= 2
			}
			// the biases are not exported, but lie between 0 and 1/dim
			lo := dot(d.w0.v[i], d.c0.v[j]) - math.Log(n)
			hi := lo + 2/float64(c.M.Dim)
			T := float64(c.M.Iter)
			lo, hi = -hi*coef*T, -lo*coef*T
			slack := 0.01*math.Max(math.Abs(lo), math.Abs(hi)) + 0.003
			if x < lo-slack || x > hi+slack {
				o.bad("wrong-fit", "%s cnt=%s xmax=%d alpha=%g: %q and %q co-occur %.4g times: the fits of %d passes should move them by %.4g to %.4g, but did by %.4g", c.M, c.M.Cnt, c.M.Xmax, c.M.Alpha, words[i], words[j], n, c.M.Iter, lo, hi, x)
				return
			}
			if math.Abs(ra[i][j]) > 0.02 {
				if k := x / ra[i][j]; math.Abs(k-T) > 0.05+0.01*T {
					o.bad("lost-update", "%s: %q and %q were fitted %.4g times in %d passes", c.M, words[i], words[j], k, c.M.Iter)
					return
				}
			}
		}
	}
}

// ---- C08 ----

func genC08(r *R, c *Case) {
	c.M = decodeModel(r, r.S("skipgram", "skipgram", "cbow", "lexvec"))
	c.Rd = genRead(r)
	if c.Idx == 333 || r.P(0.0002) {
		genLongC08(r, c)
		return
	}
	c.Kind = "distinct"
	n := r.I(4, 6, 8, 12, 16, 20)
	if r.P(0.02) {
		n = r.In(40, 44)
	}
	c.Words = distinct(n)
	c.M.Win = 1
	c.M.UpdLR = r.I(1, 1, 2, 3, 5, n/2, n, n+1)
	if n >= 40 {
		c.M.UpdLR = r.In(1, 5)
		c.M.Iter = 1
	}
	c.M.MinLR = eps * r.X(0, 0.001, 0.1, 0.3, 0.6, 0.9, 1)
	c.M.Rel = "co"
	c.M.Dim = 2*n + 4
	if c.M.Model == "lexvec" {
		c.M.Dim = 4*n + 4
	}
	if r.P(0.2) {
		// more words outside the limits lower the slope
		c.set("rare", r.In(1, 6))
	}
	if k := c.I["rare"]; k > 0 {
		// every word twice in a row would merge neighbours, so the kept words
		// stay single and an over-frequent word is added
		for i := 0; i < k+1; i++ {
			p := r.N(len(c.Words) + 1)
			c.Words = append(c.Words[:p:p], append([]string{"zz"}, c.Words[p:]...)...)
		}
		c.M.MaxC = 1
		if c.M.Model == "lexvec" {
			c.M.Dim += 4
		}
		c.M.Dim += 2
	}
}

// genLongC08 makes a corpus of one word repeated beyond every 16-bit count,
// with single words in between whose updates tell the rate there.
func genLongC08(r *R, c *Case) {
	c.Kind = "long"
	n := r.I(300, 1100, 5000, 20000, 33000, 66000, 70000)
	if c.Idx == 333 {
		n = 70000
	}
	c.M = decodeModel(r, r.S("skipgram", "cbow"))
	c.M.Win, c.M.G, c.M.B, c.M.Iter = 1, 1, 100000, 1
	c.M.Dim = 48
	c.M.Verbose = false
	c.M.UpdLR = r.I(1, 7, 100, 1000, 10000)
	c.M.MinLR = eps * r.X(0, 0.001, 0.1, 0.3)
	c.Rd = Stream{Chunk: "fixed", N: 4096}
	c.Sched.P = math.Min(c.Sched.P, 0.001)
	every := max(n/r.In(10, 40), 3)
	c.Words = nil
	for i, k := 0, 0; i < n; i++ {
		w := "zz"
		if i%every == 1 {
			w = fmt.Sprint("m", k)
			k++
		}
		c.Words = append(c.Words, w)
	}
	c.Words = append(c.Words, "zz")
}

// longC08 reads the rates off the words next to the repeated one.
func (c *Case) longC08(d *decoded, o *Outcome) {
	doc := d.ref.Doc
	z := d.ref.ID["zz"]
	cz := d.c0.v[z]
	prev, first := math.Inf(1), true
	for i, id := range doc {
		if id == z {
			continue
		}
		l, h := i > 0 && doc[i-1] == z, i+1 < len(doc) && doc[i+1] == z
		if !l || !h {
			continue
		}
		s := dot(d.dw[id], cz) / dot(cz, cz)
		rest := 0.0
		for j, x := range d.dw[id] {
			y := x - s*cz[j]
			rest += y * y
		}
		if math.Sqrt(rest) > 0.05*vnorm(d.dw[id])+1e-4*eps {
			o.bad("wrong-update", "%s: the change of the word %d of %d is no multiple of its neighbour's output vector", c.M, i, len(doc))
			return
		}
		x := s / eps // two updates with a gradient of one half
		const tol = 0.03
		switch lo := math.Max(c.M.MinLR/eps, 1-float64(i+1)/float64(len(doc))); {
		case x > 1+tol || x < c.M.MinLR/eps-tol:
			o.bad("rate-out-of-bounds", "%s updlr=%d: about word %d of %d the rate was %.4g x the initial one", c.M, c.M.UpdLR, i, len(doc), x)
			return
		case first && x < 1-tol && i < 4 && len(doc) > 200:
			o.bad("first-rate", "%s updlr=%d: the first updates used %.4g x the initial rate", c.M, c.M.UpdLR, x)
			return
		case x > prev+tol:
			o.bad("rate-rises", "%s updlr=%d: the rate rises from %.4g to %.4g before word %d of %d", c.M, c.M.UpdLR, prev, x, i, len(doc))
			return
		case x < lo-tol:
			o.bad("rate-too-low", "%s updlr=%d: about word %d of %d the rate was %.4g x the initial one, at least %.4g is due", c.M, c.M.UpdLR, i, len(doc), x, lo)
			return
		}
		prev, first = x, false
	}
}

func runC08(c *Case, o *Outcome) {
	d := runDecoded(c, o)
	if d == nil {
		return
	}
	if c.Kind == "long" {
		c.longC08(d, o)
		return
	}
	doc := d.ref.Doc
	n := len(doc)
	if n < 2 {
		o.Triv = true
		return
	}
	T := float64(c.M.Iter)
	lo, hi := c.M.MinLR/eps*T, T
	var rates []float64 // summed over passes, per position; NaN if unknown
	lex := c.M.Model == "lexvec"
	if lex {
		basis := append(append([][]float64{}, d.w0.v...), d.c0.v...)
		a := d.table(o, "the word vector", d.dw, basis, eps, 0.01)
		if a == nil {
			return
		}
		t := cooc(d.ref.All, 1, false)
		for i := 0; i+1 < n; i++ {
			f := association(c.M, d.ref, t, doc[i], doc[i+1])
			g := f - dot(d.w0.v[doc[i]], d.w0.v[doc[i+1]])
			if math.Abs(g) < 0.05 || !near(a[doc[i]][doc[i+1]], a[doc[i+1]][doc[i]], 0.01, 0.003) {
				rates = append(rates, math.NaN())
				continue
			}
			rates = append(rates, a[doc[i]][doc[i+1]]/g/2) // mean of two positions
		}
	} else {
		a := d.table(o, "the word vector", d.dw, d.c0.v, 0.5*eps, 0.01)
		if a == nil {
			return
		}
		// the first score of an update is near one half, and known
		half := func(i int, ctx ...int) float64 {
			in := 0.0
			for _, k := range ctx {
				if k >= 0 && k < n {
					in += dot(d.w0.v[doc[k]], d.c0.v[doc[i]])
				}
			}
			return 2 / (1 + math.Exp(in))
		}
		for i := 0; i < n; i++ {
			l, h := math.NaN(), math.NaN()
			if i > 0 {
				l = a[doc[i-1]][doc[i]]
			}
			if i+1 < n {
				h = a[doc[i+1]][doc[i]]
			}
			switch {
			case c.M.Model != "cbow" || !(math.Abs(l) > 0.002 && math.Abs(h) > 0.002):
				l, h = l/half(i, i-1), h/half(i, i+1)
			default:
				l, h = l/half(i, i-1, i+1), h/half(i, i-1, i+1)
			}
			x := l
			if math.IsNaN(x) || (!math.IsNaN(h) && h > l) {
				x = h
			}
			rates = append(rates, x)
		}
	}
	tol := 0.008*T + 0.002
	cut := func(x float64) bool { return math.IsNaN(x) || math.Abs(x) < 0.002 }
	cuts, max, min := 0, 0.0, math.Inf(1)
	for i, x := range rates {
		if cut(x) {
			if !math.IsNaN(x) {
				cuts++
			}
			continue
		}
		if x > hi+tol || x < lo-tol {
			// partly cut pairs cannot be told from low rates with several passes
			if x < lo-tol && d.parts > 1 && T > 1 && !c.fixedCuts() {
				continue
			}
			o.bad("rate-out-of-bounds", "%s updlr=%d: the updates at position %d used %.4g x the initial rate over %d passes, allowed %.4g to %.4g", c.M, c.M.UpdLR, i, x, c.M.Iter, lo, hi)
			return
		}
		max, min = math.Max(max, x), math.Min(min, x)
	}
	single := d.parts == 1
	if cuts > 0 && c.M.MinLR >= 0.1*eps && single {
		o.bad("rate-out-of-bounds", "%s: the updates at %d positions used no learning rate", c.M, cuts)
		return
	}
	if max == 0 {
		return
	}
	wl := T
	if lex {
		// the first pair is the mean of the first two rates
		wl = T * (1 - 0.5*math.Min(1, 1/float64(len(d.ref.All)))*1.0001)
		if c.M.UpdLR > 1 {
			wl = T
		}
		if c.M.MinLR > 0 {
			wl = math.Max(math.Min(wl, T), c.M.MinLR/eps*T)
		}
	}
	if single {
		// one part: positions are trained in order
		if x := rates[0]; !cut(x) && x < wl-tol {
			o.bad("first-rate", "%s updlr=%d: the first updates used %.4g x the initial rate over %d passes", c.M, c.M.UpdLR, x, c.M.Iter)
			return
		}
		prev := math.Inf(1)
		for i, x := range rates {
			if cut(x) {
				continue
			}
			if x > prev+1.5*tol {
				o.bad("rate-rises", "%s updlr=%d: the rate rises from %.4g to %.4g at position %d", c.M, c.M.UpdLR, prev, x, i)
				return
			}
			prev = x
			// it never falls faster than the words trained before allow
			k := float64(i)
			if lex {
				k = float64(i + 1)
			}
			if f := T * math.Max(c.M.MinLR/eps, 1-k/float64(len(d.ref.All))); x < f-tol {
				o.bad("rate-too-low", "%s updlr=%d: position %d used %.4g x the initial rate over %d passes, after %d of %d words it must be at least %.4g", c.M, c.M.UpdLR, i, x, c.M.Iter, i, len(d.ref.All), f)
				return
			}
		}
	} else if c.M.Iter == 1 && !lex && max < 1-tol && n >= 2*d.parts && (c.M.Mem || n%c.M.B != 1) {
		o.bad("first-rate", "%s updlr=%d: no update used the initial rate, the highest is %.4g of it", c.M, c.M.UpdLR, max)
		return
	}
	fair := c.Sched.Policy == "rand" && len(c.Sched.Starve) == 0 && c.Sched.Stall == 0
	if fair && n >= 40 && c.M.UpdLR <= 5 && c.M.MinLR <= 0.3*eps && min > 0.85*T && d.parts <= 2 {
		o.bad("rate-constant", "%s updlr=%d: the rate did not fall over %d words, the lowest is %.4g of the initial one", c.M, c.M.UpdLR, n, min/T)
	}
}

// fixedCuts says that parts are the same in every pass.
func (c *Case) fixedCuts() bool { return true }

// ---- C12 ----

func genC12(r *R, c *Case) {
	c.M = decodeModel(r, modelNames[r.N(4)])
	c.M.Lr, c.M.MinLR = 0.01, 0.001
	c.M.Opt = r.S("ns", "ns", "hs")
	c.M.Solver = r.S("sgd", "adagrad")
	c.M.Rel = r.S("ppmi", "pmi", "co", "logco")
	c.M.Cnt = r.S("inc", "prox")
	c.M.Win = r.I(1, 2, 3, 6)
	c.M.Neg = r.I(0, 1, 3)
	c.M.Dim = r.I(2, 5, 8)
	c.M.Lower = r.P(0.2)
	c.M.Depth = r.I(0, 0, 2, 100)
	c.Rd = genRead(r)
	c.Words = corpus(r, r.In(1, 40), r.In(1, 10))
	c.M.MinC = r.I(0, 1, 2, 3, 4)
	c.M.MaxC = r.I(-1, 0, 1, 2, 3, 5, 8)
	stretch(r, c, "words words g iter dim win neg b")
	if r.P(0.05) {
		c.M.MinC, c.M.MaxC = r.In(4, 14), r.I(-1, 7, 10, 12, 20)
		if r.P(0.3) {
			c.M.MinC = 0
		}
		c.Words = corpus(r, r.In(30, 200), r.In(2, 20))
	}
	if c.M.isW2V() && c.M.Opt == "hs" {
		c.M.Iter = 3
	}
}

func runC12(c *Case, o *Outcome) {
	d := runDecoded(c, o)
	if d == nil {
		return
	}
	words, doc := d.ref.Words, d.ref.Doc
	out := 0
	for i, w := range words {
		if d.ref.inside(i, c.M.MinC, c.M.MaxC) {
			continue
		}
		out++
		for j := range d.w0.v[i] {
			if d.w0.v[i][j] != d.w1.v[i][j] {
				o.bad("excluded-trained", "%s: %q occurs %d times, outside the limits, but its vector changed (%v, initially %v)", c.M, w, d.ref.Freq[i], d.w1.v[i], d.w0.v[i])
				return
			}
		}
	}
	if d.parts > 1 && c.M.Model != "glove" || len(words) < 2 {
		o.Triv = out == 0
		return
	}
	if c.M.isW2V() && c.M.Opt == "hs" && len(doc) < 6 {
		return
	}
	near := map[int]bool{}
	use := doc
	t := cooc(use, 1, false)
	if c.M.Model == "glove" {
		t = cooc(d.ref.All, c.M.Win, false)
	}
	for p := range t {
		if d.ref.inside(p.a, c.M.MinC, c.M.MaxC) && d.ref.inside(p.b, c.M.MinC, c.M.MaxC) {
			near[p.a], near[p.b] = true, true
		}
	}
	for i, w := range words {
		if near[i] && vnorm(d.dw[i]) == 0 {
			o.bad("included-untrained", "%s: %q occurs %d times, inside the limits, and has neighbours, but its vector never changed", c.M, w, d.ref.Freq[i])
			return
		}
	}
}

// ---- C23 ----

func init() {
	register(&Prop{ID: "C23", Quick: 300000,
		Rule: "A trained model exported several times, also from several goroutines at once and while returned copies are overwritten; kinds compared with each other and with a training of zero and of many passes.",
		Gen: func(r *R, c *Case) {
			c.M = genModel(r)
			c.M.Dim = r.I(2, 4, 8, 16)
			genCorpus(r, c)
			c.Rd = genRead(r)
			c.set("n", r.In(2, 5))
			if r.P(0.05) {
				genRows(r, c)
			}
		},
		Run: runC23, Shrink: shrinkTraining})
}

// genRows makes a training whose updates pair the rows of the two kinds.
func genRows(r *R, c *Case) {
	c.Kind = "rows"
	c.M = decodeModel(r, r.S("skipgram", "cbow", "lexvec", "glove"))
	c.M.Win, c.M.Rel, c.M.Neg = 1, "co", 1
	c.Words = corpus(r, r.In(4, 60), r.In(2, 32))
	c.M.Dim = max(48, 2*len(reference(c.text(), false, 0, -1).Words)+4)
}

// runRows checks that what agg adds to the vector of a word is the context vector of
// that very word: an update moves a word vector along context vectors, and those
// context vectors along the word vector, by the same amount.
func runRows(c *Case, o *Outcome) {
	d := runDecoded(c, o)
	if d == nil {
		return
	}
	if len(d.ref.Words) < 2 {
		o.Triv = true
		return
	}
	V := len(d.ref.Words)
	basis, skip := d.c0.v, 0
	if c.M.Model == "lexvec" {
		basis, skip = append(append([][]float64{}, d.w0.v...), d.c0.v...), V
	}
	a := d.table(o, "agg minus single: the word vector", d.dw, basis, c.M.Lr, 0.02)
	if a == nil {
		return
	}
	b := d.table(o, "agg minus single: the context vector", d.dc, d.w0.v, c.M.Lr, 0.02)
	if b == nil {
		return
	}
	most := 0.0
	for i := range a {
		a[i] = a[i][skip:]
		for _, x := range a[i] {
			most = math.Max(most, math.Abs(x))
		}
	}
	for i := range a {
		for j := range a[i] {
			if math.Abs(a[i][j]-b[j][i]) > 0.02*most+0.02 {
				o.bad("kinds", "%s: training moved %q along the context vector of %q by %.4g, and that along the former by %.4g: agg minus single is not the context vector of the same word", c.M, d.ref.Words[i], d.ref.Words[j], a[i][j], b[j][i])
				return
			}
		}
	}
}

func runC23(c *Case, o *Outcome) {
	if c.Kind == "rows" {
		runRows(c, o)
		return
	}
	ref := reference(c.text(), c.M.Lower, 0, -1)
	V := len(ref.Words)
	var first, agg, single2, agg2 *mat
	o.world(c, nil, func(w *simrt.World) {
		m, err := trainIn(c.M, newReader(c.text(), c.Rd, c.Seed))
		if err != nil {
			o.bad("error", "training from a working input failed: %v (%s)", err, c.M)
			return
		}
		first, agg = snap(m, vector.Single), snap(m, vector.Agg)
		for _, t := range []vector.Type{"", "both", "Single", "agg "} {
			var b strings.Builder
			if err := m.Save(&b, t); err == nil || b.Len() > 0 {
				o.bad("unknown-kind", "%s: saving the kind %q returned %v and wrote %d bytes", c.M, t, err, b.Len())
				return
			}
		}
		// overwrite what was returned
		for _, t := range []vector.Type{vector.Single, vector.Agg} {
			x := m.WordVector(t)
			for i := 0; i < x.Row(); i++ {
				for j := range x.Slice(i) {
					x.Slice(i)[j] = 1e9
				}
			}
		}
		done := 0
		k := c.I["n"]
		for g := 0; g < k; g++ {
			g := g
			simrt.Go("harness exporter", func() {
				for r := 0; r < 2; r++ {
					t, want := vector.Single, first
					if (g+r)%2 == 1 {
						t, want = vector.Agg, agg
					}
					x := m.WordVector(t)
					s := &mat{row: x.Row(), col: x.Col()}
					for i := 0; i < s.row; i++ {
						s.v = append(s.v, append([]float64(nil), x.Slice(i)...))
						for j := range x.Slice(i) {
							x.Slice(i)[j] = -7
						}
					}
					if df := want.diff(s); df != "" {
						o.bad("export-differs", "%s: %s export by goroutine %d of %d: %s", c.M, t, g, k, df)
					}
				}
				done++
			})
		}
		simrt.BlockUntil("exporters", func() bool { return done == k })
		single2, agg2 = snap(m, vector.Single), snap(m, vector.Agg)
	})
	if o.Class != "" || first == nil {
		return
	}
	if df := first.diff(single2); df != "" {
		o.bad("export-disturbs", "%s: single export changed: %s", c.M, df)
		return
	}
	if df := agg.diff(agg2); df != "" {
		o.bad("export-disturbs", "%s: agg export changed: %s", c.M, df)
		return
	}
	if first.row != V || first.col != c.M.Dim || agg.row != V || agg.col != c.M.Dim {
		o.bad("shape", "%s: single is %dx%d, agg %dx%d, want %dx%d", c.M, first.row, first.col, agg.row, agg.col, V, c.M.Dim)
		return
	}
	if c.M.isW2V() && c.M.Opt == "hs" {
		// no context vectors
		if df := first.diff(agg); df != "" {
			o.bad("kinds", "%s has no context vectors but agg differs from single: %s", c.M, df)
		}
		return
	}
	kinds(c, o, V)
}

// kinds tells word vectors, context vectors and their sum apart: at the start the
// components of both are independent draws from one range, so the sum is larger.
func kinds(c *Case, o *Outcome, V int) {
	w, x := initial(o, c.M, c.text(), c.Seed)
	if w == nil || o.Class != "" {
		return
	}
	D := float64(c.M.Dim)
	n := float64(V) * D
	if n < 8 {
		return
	}
	lim := 0.5 / D
	mean := 0.0
	if c.M.Model == "glove" {
		lim, mean = 1/D, 0.5/D
	}
	sum, over := 0.0, 0
	sw, sx := 0.0, 0.0
	for i := range w.v {
		for j := range w.v[i] {
			a := w.v[i][j]
			if math.Abs(a) > lim*1.000001 {
				over++
			}
			sum += (a - mean) * (x.v[i][j] - mean)
			sw += (a - mean) * (a - mean)
			sx += (x.v[i][j] - mean) * (x.v[i][j] - mean)
		}
	}
	if over > 0 {
		o.bad("kinds", "%s: %d of %.0f components of the untrained single vectors are outside the range of one vector: they are sums", c.M, over, n)
		return
	}
	if sx == 0 {
		o.bad("kinds", "%s: agg equals single although the model has context vectors", c.M)
		return
	}
	// context = agg - single must be an independent draw, not minus the context
	if rho := sum / math.Sqrt(sw*sx); n >= 60 && math.Abs(rho) > 8/math.Sqrt(n) {
		o.bad("kinds", "%s: agg minus single correlates with single (%.2f): it is not the context vectors", c.M, rho)
		return
	}
	for i := range x.v {
		for j := range x.v[i] {
			b := x.v[i][j]
			if math.Abs(b) > lim*1.000001+1e-12 {
				o.bad("kinds", "%s: agg minus single is %.4g in row %d, outside the range of a context vector", c.M, b, i)
				return
			}
		}
	}
}

var _ model.Model
