package main

import (
	"fmt"
	"io"
	"math"
	"strings"

	"simrt"

	"github.com/ynqa/wego/pkg/model"
	"github.com/ynqa/wego/pkg/model/glove"
	"github.com/ynqa/wego/pkg/model/lexvec"
	"github.com/ynqa/wego/pkg/model/modelutil/vector"
	"github.com/ynqa/wego/pkg/model/word2vec"
)

func (o MO) isW2V() bool { return o.Model != "glove" && o.Model != "lexvec" }

// build makes the model through its public options.
func (o MO) build() (model.Model, error) {
	switch o.Model {
	case "glove":
		p := glove.DefaultOptions()
		p.Alpha, p.BatchSize, p.CountType, p.Dim, p.DocInMemory = o.Alpha, o.B, o.Cnt, o.Dim, o.Mem
		p.Goroutines, p.Initlr, p.Iter, p.LogBatch = o.G, o.Lr, o.Iter, o.LogB
		p.MaxCount, p.MinCount, p.SolverType, p.SubsampleThreshold = o.MaxC, o.MinC, o.Solver, o.Sub
		p.ToLower, p.Verbose, p.Window, p.Xmax = o.Lower, o.Verbose, o.Win, o.Xmax
		return glove.NewForOptions(p)
	case "lexvec":
		p := lexvec.DefaultOptions()
		p.BatchSize, p.Dim, p.DocInMemory, p.Goroutines, p.Initlr = o.B, o.Dim, o.Mem, o.G, o.Lr
		p.Iter, p.LogBatch, p.MaxCount, p.MinCount, p.MinLR = o.Iter, o.LogB, o.MaxC, o.MinC, o.MinLR
		p.NegativeSampleSize, p.RelationType, p.Smooth = o.Neg, o.Rel, o.Smooth
		p.SubsampleThreshold, p.ToLower, p.UpdateLRBatch = o.Sub, o.Lower, o.UpdLR
		p.Verbose, p.Window = o.Verbose, o.Win
		return lexvec.NewForOptions(p)
	}
	p := word2vec.DefaultOptions()
	p.BatchSize, p.Dim, p.DocInMemory, p.Goroutines, p.Initlr = o.B, o.Dim, o.Mem, o.G, o.Lr
	p.Iter, p.LogBatch, p.MaxCount, p.MaxDepth, p.MinCount, p.MinLR = o.Iter, o.LogB, o.MaxC, o.Depth, o.MinC, o.MinLR
	p.ModelType, p.NegativeSampleSize, p.OptimizerType = o.Model, o.Neg, o.Opt
	p.SubsampleThreshold, p.ToLower, p.UpdateLRBatch = o.Sub, o.Lower, o.UpdLR
	p.Verbose, p.Window = o.Verbose, o.Win
	return word2vec.NewForOptions(p)
}

// defaults are small working settings for a model.
func defaults(m string) MO {
	return MO{Model: m, Opt: "ns", Solver: "sgd", Rel: "ppmi", Cnt: "inc", Dim: 4, Iter: 1, G: 2, B: 10,
		Win: 2, Neg: 2, Depth: 0, MinC: 0, MaxC: -1, UpdLR: 1 << 30, LogB: 1000, Lr: 0.01, MinLR: 1e-6,
		Alpha: 0.75, Smooth: 0.75, Xmax: 10}
}

var modelNames = []string{"skipgram", "cbow", "lexvec", "glove"}

// genModel varies everything a user may set, within what must work.
func genModel(r *R) MO {
	m := defaults(modelNames[r.N(4)])
	m.Opt = r.S("ns", "ns", "hs")
	m.Solver = r.S("sgd", "adagrad")
	m.Rel = r.S("ppmi", "ppmi", "pmi", "logco", "co")
	m.Cnt = r.S("inc", "inc", "prox")
	m.Dim = r.I(1, 2, 3, 4, 7)
	m.Iter = r.I(1, 1, 2, 3)
	m.G = r.I(1, 2, 2, 3, 4, 5, 8)
	m.B = r.I(1, 2, 3, 5, 7, 10, 100, 10000)
	m.Win = r.I(1, 2, 2, 3, 5, 9)
	m.Neg = r.I(0, 1, 2, 5)
	m.Depth = r.I(0, 0, 1, 2, 3, 5, 100)
	m.Mem = r.P(0.5)
	m.Lower = r.P(0.2)
	m.Verbose = r.P(0.2)
	m.LogB = r.I(1, 2, 7, 1000)
	m.UpdLR = r.I(1, 2, 5, 13, 1000)
	m.Lr = r.X(0.025, 0.01, 0.001)
	m.MinLR = r.X(0, 1e-6, 1e-4)
	m.Sub = r.X(0, 0, 1e-3, 0.1)
	m.Alpha = r.X(0.75, 1, 0)
	m.Smooth = r.X(0.75, 1, 0)
	m.Xmax = r.I(1, 10, 100)
	if m.Model == "lexvec" && m.Rel == "co" {
		m.Lr = 0.001
	}
	if r.P(0.3) {
		m.MinC = r.In(0, 3)
		if r.P(0.3) {
			m.MaxC = r.In(1, 6)
		}
	}
	return m
}

// genCorpus makes a corpus, small most of the time.
func genCorpus(r *R, c *Case) {
	n := r.I(0, 1, 2, 3, 5, 8, 13, 21, 34, 55)
	if r.P(0.5) {
		n = r.In(4, 40)
	}
	c.Words = corpus(r, n, r.In(1, 12))
	c.Seps = r.S("", "", " \n", " \t\r\n", "\n", " \u00a0\u2003")
}

// stretch takes one case in a few dozen far beyond the usual sizes, in one of
// the settings named.
func stretch(r *R, c *Case, what string) {
	defer calm(c)
	if strings.HasPrefix(what, "words") && what != "words dim" && r.P(0.00006) {
		// a corpus beyond what any test reads
		n := r.In(10001, 30000)
		if r.P(0.2) {
			n = r.In(30000, 70000)
		}
		c.Words = corpus(r, n, r.I(9, 130, 300, 1000))
		c.M.Iter, c.M.Win, c.M.Neg, c.M.Dim = 1, 1, min(c.M.Neg, 1), 1
		c.M.B = max(c.M.B, r.I(1000, 10000, 100000))
		c.M.LogB = max(c.M.LogB, 1000)
		if what == allSizes {
			c.M.UpdLR = r.I(1000, 10000, 30000)
		} else if what == steadySizes {
			c.M.B = 1000000
		}
		c.Sched.P = min(c.Sched.P, 0.01)
		return
	}
	if !r.P(0.03) {
		return
	}
	w := strings.Fields(what)
	k := w[r.N(len(w))]
	if k == "words" && r.P(0.05) {
		// a long corpus, of little work per word
		c.Words = corpus(r, r.In(1000, 3000), r.I(2, 9, 40, 130, 300))
		c.M.Iter, c.M.Win, c.M.Neg, c.M.Dim = 1, 1, min(c.M.Neg, 1), min(c.M.Dim, 2)
		c.M.B = max(c.M.B, r.I(7, 100, 1000, 10000))
		c.M.LogB = max(c.M.LogB, r.I(7, 100, 128, 256, 1000))
		c.Sched.P = min(c.Sched.P, 0.05)
		return
	}
	switch k {
	case "words":
		c.Words = corpus(r, r.In(56, 320), r.I(2, 9, 40, 130, 300))
		c.M.Iter = min(c.M.Iter, 2)
	case "g":
		c.M.G = r.I(6, 7, 9, 12, 16, 17, 32, 33, 64, 100)
	case "iter":
		c.M.Iter = r.I(4, 5, 6, 8, 10, 12, 17)
	case "dim":
		c.M.Dim = r.I(8, 10, 16, 17, 31, 32, 33, 50, 64, 65, 100, 128, 130)
	case "win":
		c.M.Win = r.I(4, 6, 8, 10, 12, 16, 20, 32, 40, 64, 100)
		if r.P(0.15) {
			// wider than any corpus
			c.M.Win = r.I(1<<20, 1<<31, 1<<40, math.MaxInt/2, math.MaxInt/2+1, math.MaxInt)
		}
	case "neg":
		c.M.Neg = r.I(4, 6, 8, 10, 15, 16, 20, 32)
	case "b":
		c.M.B = r.I(4, 6, 8, 9, 11, 12, 15, 16, 20, 24, 32, 33, 50, 64)
		c.Words = corpus(r, r.In(40, 150), r.In(2, 40))
	case "lim":
		c.M.MinC, c.M.MaxC = r.I(0, 4, 5, 6, 7, 8, 10, 12), r.I(-1, -1, 7, 8, 10, 12, 16)
		c.Words = corpus(r, r.In(40, 200), r.In(2, 20))
	case "logb":
		c.M.LogB = r.I(3, 4, 5, 6, 8, 9, 10, 16, 20, 32, 50, 100)
		c.Words = corpus(r, r.In(40, 150), r.In(2, 40))
	}
}

// calm keeps the training of raw counts from diverging: a step must not exceed
// the inverse of the largest count there can be.
func calm(c *Case) {
	if c.M.Model == "lexvec" && c.M.Rel == "co" {
		// every worker may have computed its step from the same values
		c.M.Lr = math.Min(c.M.Lr, 0.5/float64(1+2*len(c.Words)*min(c.M.Win, len(c.Words))*max(1, c.M.G)))
		c.M.MinLR = math.Min(c.M.MinLR, c.M.Lr)
	}
}

const allSizes, steadySizes = "words words g iter dim win neg b logb lim", "words words iter dim win neg logb lim"

// mat is a copy of a matrix.
type mat struct {
	row, col int
	v        [][]float64
}

func snap(m model.Model, typ vector.Type) *mat {
	x := m.WordVector(typ)
	r := &mat{row: x.Row(), col: x.Col()}
	for i := 0; i < r.row; i++ {
		r.v = append(r.v, append([]float64(nil), x.Slice(i)...))
	}
	return r
}

func (m *mat) finite() error {
	for i := range m.v {
		for j, x := range m.v[i] {
			if math.IsNaN(x) || math.IsInf(x, 0) {
				return fmt.Errorf("row %d column %d is %v", i, j, x)
			}
		}
	}
	return nil
}

func (m *mat) diff(n *mat) string {
	if m.row != n.row || m.col != n.col {
		return fmt.Sprintf("shape %dx%d and %dx%d", m.row, m.col, n.row, n.col)
	}
	for i := range m.v {
		for j := range m.v[i] {
			if m.v[i][j] != n.v[i][j] && !(math.IsNaN(m.v[i][j]) && math.IsNaN(n.v[i][j])) {
				return fmt.Sprintf("row %d column %d: %v and %v", i, j, m.v[i][j], n.v[i][j])
			}
		}
	}
	return ""
}

// minus subtracts row by row.
func (m *mat) minus(n *mat) [][]float64 {
	d := make([][]float64, m.row)
	for i := range d {
		d[i] = make([]float64, m.col)
		for j := range d[i] {
			d[i][j] = m.v[i][j] - n.v[i][j]
		}
	}
	return d
}

// trained is what one training run left.
type trained struct {
	err    error
	single *mat
	ctx    *mat // context vectors: agg minus single; nil without
	mod    model.Model
	rd     *SimReader
}

// trainIn builds and trains a model inside the running world.
func trainIn(o MO, rd io.ReadSeeker) (model.Model, error) {
	m, err := o.build()
	if err != nil {
		return nil, fmt.Errorf("new: %w", err)
	}
	return m, m.Train(rd)
}

func export(m model.Model) (single, ctx *mat) {
	single = snap(m, vector.Single)
	agg := snap(m, vector.Agg)
	ctx = &mat{row: agg.row, col: agg.col, v: agg.minus(single)}
	return
}

// initial returns the vectors a model starts from with this random seed.
func initial(o *Outcome, mo MO, text string, seed uint64) (single, ctx *mat) {
	mo.Iter = 0
	mo.Verbose = false
	w := o.aux(seed, func(w *simrt.World) {
		m, err := trainIn(mo, newReader(text, Stream{}, 0))
		if err != nil {
			o.bad("error", "training with no iterations failed: %v", err)
			return
		}
		single, ctx = export(m)
	})
	_ = w
	return
}

// decode writes each row of delta as a combination of the rows of basis.
// It returns nil if the basis is not independent enough.
type decoder struct {
	n, d int
	b    [][]float64
	inv  [][]float64 // inverse of the Gram matrix
}

func newDecoder(basis [][]float64) *decoder {
	n := len(basis)
	if n == 0 {
		return &decoder{}
	}
	g := make([][]float64, n)
	for i := range g {
		g[i] = make([]float64, 2*n)
		for j := 0; j < n; j++ {
			for k := range basis[i] {
				g[i][j] += basis[i][k] * basis[j][k]
			}
		}
		g[i][n+i] = 1
	}
	for c := 0; c < n; c++ {
		p := c
		for i := c + 1; i < n; i++ {
			if math.Abs(g[i][c]) > math.Abs(g[p][c]) {
				p = i
			}
		}
		g[c], g[p] = g[p], g[c]
		pv := g[c][c]
		if math.Abs(pv) < 1e-9*math.Abs(g[0][0])+1e-300 {
			return nil
		}
		for j := range g[c] {
			g[c][j] /= pv
		}
		for i := 0; i < n; i++ {
			if i != c && g[i][c] != 0 {
				f := g[i][c]
				for j := range g[i] {
					g[i][j] -= f * g[c][j]
				}
			}
		}
	}
	inv := make([][]float64, n)
	for i := range inv {
		inv[i] = g[i][n:]
	}
	return &decoder{n: n, d: len(basis[0]), b: basis, inv: inv}
}

// coef returns x with delta = Σ x_i basis_i, and the size of what is left over
// relative to the largest possible part.
func (d *decoder) coef(delta []float64) ([]float64, float64) {
	p := make([]float64, d.n)
	for i := range p {
		for k := range delta {
			p[i] += d.b[i][k] * delta[k]
		}
	}
	x := make([]float64, d.n)
	for i := range x {
		for j := range p {
			x[i] += d.inv[i][j] * p[j]
		}
	}
	var rest, tot float64
	for k := range delta {
		e := delta[k]
		for i := range x {
			e -= x[i] * d.b[i][k]
		}
		rest += e * e
		tot += delta[k] * delta[k]
	}
	if tot == 0 {
		return x, 0
	}
	return x, math.Sqrt(rest / tot)
}

// modelName is used in messages.
func (o MO) String() string {
	s := o.Model
	if o.isW2V() {
		s += "/" + o.Opt
	}
	return fmt.Sprintf("%s mem=%v g=%d b=%d win=%d iter=%d neg=%d min=%d max=%d", s, o.Mem, o.G, o.B, o.Win, o.Iter, o.Neg, o.MinC, o.MaxC)
}
