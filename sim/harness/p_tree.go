//go:build !noapi_tree

package main

import (
	"fmt"
	"math"
	"sort"

	"simrt"

	"github.com/ynqa/wego/pkg/corpus/dictionary"
	"github.com/ynqa/wego/pkg/corpus/dictionary/node"
)

func init() {
	register(&Prop{ID: "C05", Quick: 600000,
		Rule: "word2vec with hierarchical softmax and window 1. Several workers: the sum over all words of change times initial value depends only on which nodes each occurrence scored, not on the order, and is compared with the tree. One worker: the vectors are compared with a reference training, up to saturating scores.",
		Gen:  genC05, Run: runC05, Shrink: shrinkC05})
	register(&Prop{ID: "C21", Quick: 600000,
		Rule: "Several clients look up paths of random words and depths in one tree at the same time; each result is compared with a walk up the tree, at once and again at the end.",
		Gen:  genC21, Run: runC21, Shrink: shrinkC21})
}

// tree is the code's frequency tree over a vocabulary, and each word's path
// from the root down, walked by the harness.
type tree struct {
	leaf []*node.Node
	path [][]*node.Node
}

func makeTree(words []string, all []int, dim int) *tree {
	d := dictionary.New()
	for _, id := range all {
		d.Add(words[id])
	}
	t := &tree{leaf: d.HuffnamTree(dim)}
	for _, l := range t.leaf {
		t.path = append(t.path, walk(l))
	}
	return t
}

func walk(l *node.Node) (p []*node.Node) {
	for n := l; n != nil && len(p) < 100000; n = n.Parent {
		p = append(p, n)
	}
	for i, j := 0, len(p)-1; i < j; i, j = i+1, j-1 {
		p[i], p[j] = p[j], p[i]
	}
	return
}

// cut is the part of a path within the depth limit.
func cutPath(p []*node.Node, depth int) []*node.Node {
	if depth > 0 && depth < len(p) {
		return p[:depth]
	}
	return p
}

// sound checks that the tree is a full binary tree over the words, of the least
// cost for the frequencies.
func (t *tree) sound(freq []int) error {
	n := len(freq)
	if len(t.leaf) != n {
		return fmt.Errorf("%d leaves for %d words", len(t.leaf), n)
	}
	if n == 0 {
		return nil
	}
	kids := map[*node.Node]map[*node.Node]bool{}
	isLeaf := map[*node.Node]bool{}
	cost := 0
	for i, p := range t.path {
		if p[0] != t.path[0][0] {
			return fmt.Errorf("words 0 and %d have different roots", i)
		}
		if isLeaf[p[len(p)-1]] {
			return fmt.Errorf("word %d shares its leaf", i)
		}
		isLeaf[p[len(p)-1]] = true
		cost += (len(p) - 1) * freq[i]
		for j := 0; j+1 < len(p); j++ {
			if kids[p[j]] == nil {
				kids[p[j]] = map[*node.Node]bool{}
			}
			kids[p[j]][p[j+1]] = true
		}
	}
	for k, c := range kids {
		if isLeaf[k] {
			return fmt.Errorf("a word is an inner node")
		}
		if len(c) != 2 {
			return fmt.Errorf("an inner node has %d children", len(c))
		}
		codes := map[int]int{}
		for x := range c {
			codes[x.Code]++
		}
		if codes[0] != 1 || codes[1] != 1 {
			return fmt.Errorf("the children of a node have the codes %v", codes)
		}
	}
	// the least cost, by always joining the two lightest
	h := append([]int(nil), freq...)
	sort.Ints(h)
	var sums []int // in order
	pop := func() (x int) {
		if len(sums) == 0 || len(h) > 0 && h[0] < sums[0] {
			x, h = h[0], h[1:]
		} else {
			x, sums = sums[0], sums[1:]
		}
		return
	}
	best := 0
	for len(h)+len(sums) > 1 {
		s := pop() + pop()
		best += s
		sums = append(sums, s)
	}
	if cost != best {
		return fmt.Errorf("the paths cost %d, the best tree %d", cost, best)
	}
	return nil
}

func genC05(r *R, c *Case) {
	c.M = defaults(r.S("skipgram", "cbow"))
	c.M.Opt = "hs"
	c.M.Win = 1
	c.M.Neg = r.I(0, 5)
	c.M.Depth = r.I(0, 0, 0, 1, 2, 3, 4, 7, 100)
	c.M.Lower = r.P(0.1)
	c.M.Verbose = r.P(0.05)
	c.M.LogB = r.I(1, 3, 1000)
	c.M.Mem = r.P(0.5)
	c.Rd = genRead(r)
	switch k := r.N(100); {
	case k < 50:
		c.Kind = "order"
		v := r.In(2, 6)
		c.Words = corpus(r, r.In(2, 14), v)
		c.M.G = r.I(1, 2, 2, 3, 3, 4, 6)
		c.M.B = r.I(1, 2, 3, 4, 5, 7, 20)
		c.M.Dim = r.I(4, 8, 16)
		c.M.Lr, c.M.MinLR = 1e-3, 1e-4
	case k < 60:
		c.Kind = "loose"
		c.Words = corpus(r, r.In(40, 70), r.In(3, 7))
		c.M.G = r.I(2, 3)
		c.M.B = r.I(10, 20, 100)
		c.M.Dim = r.I(4, 8)
		c.M.Lr, c.M.MinLR = 1e-3, 1e-4
	default:
		c.Kind = "exact"
		c.Words = corpus(r, r.In(2, 30), r.In(2, 12))
		c.M.G, c.M.B = 1, r.I(1, 5, 100)
		if !c.M.Mem {
			c.M.G, c.M.B = r.I(1, 2, 4), r.I(30, 100, 10000)
		}
		c.M.Dim = r.I(1, 2, 3, 8)
		c.M.Lr = r.X(0.025, 0.5, 3, 10, 40)
		c.M.MinLR = c.M.Lr / 10
		c.M.Iter = r.I(1, 1, 2, 3)
		if r.P(0.02) {
			c.Words = corpus(r, r.In(70, 300), r.In(40, 200))
			c.M.B = max(c.M.B, 300)
			c.M.Iter = 1
			c.Rd.Chunk = ""
		} else if r.P(0.0003) {
			// a wide vocabulary
			wideWords(r, c)
			c.M.Win, c.M.Iter, c.M.Dim, c.M.B = 1, 1, 1, 1000000
			c.M.G, c.M.Lr, c.M.MinLR = 1, 0.025, 0.0025
			c.M.UpdLR, c.M.LogB = 1<<30, 100000
			c.Sched.P = 0
			return
		} else if r.P(0.001) {
			// the deepest tree so many words can make
			c.Words = nil
			for i, a, b := r.In(16, 19), 1, 1; i > 0; i, a, b = i-1, b, a+b {
				for j := 0; j < a; j++ {
					c.Words = append(c.Words, fmt.Sprint("w", i))
				}
			}
			for i := range c.Words {
				j := r.N(i + 1)
				c.Words[i], c.Words[j] = c.Words[j], c.Words[i]
			}
			c.M.B = 100000 // in one part
			c.M.Iter, c.M.Dim = 1, 1
			c.M.Depth = r.I(0, 0, 16, 17, 18, 100)
			c.M.Lr = r.X(0.025, 0.5)
			c.M.MinLR = c.M.Lr / 10
			c.Rd = Stream{}
			c.Sched.P = min(c.Sched.P, 0.05)
			return
		}
	}
	if r.P(0.25) {
		c.M.MinC = r.In(1, 3)
		c.M.MaxC = r.I(-1, -1, 0, 4)
	}
	if c.Kind == "order" && parts(c.M, len(reference(c.text(), c.M.Lower, c.M.MinC, c.M.MaxC).Doc)) == 1 {
		c.M.Iter = r.I(1, 2, 3)
	}
}

func shrinkC05(c *Case) []*Case {
	f := "iter g b verbose lower depth minc maxc"
	if c.Kind == "exact" {
		f = "iter verbose lower depth minc maxc dim"
	}
	var out []*Case
	for _, d := range append(shrinkWords(c), shrinkModel(c, f)...) {
		// several passes only while nothing is cut
		if d.Kind != "exact" && d.M.Iter > 1 && parts(d.M, len(d.Words)) > 1 {
			continue
		}
		out = append(out, d)
	}
	return out
}

// quadratic is the expected value of Σ_c Δw_c[j]·w_c[j] and the scale of its error.
func quadratic(t *tree, mo MO, w [][]float64, occs []occ, passes int) (q, scale []float64) {
	q, scale = make([]float64, mo.Dim), make([]float64, mo.Dim)
	type acc struct{ sum, abs, sq []float64 }
	nodes := map[*node.Node]*acc{}
	var order []*acc
	a := make([]float64, mo.Dim)
	for _, u := range occs {
		for j := range a {
			a[j] = 0
			for _, x := range u.ctx {
				a[j] += w[x][j]
			}
		}
		p := cutPath(t.path[u.centre], mo.Depth)
		for i := 0; i+1 < len(p); i++ {
			n := nodes[p[i]]
			if n == nil {
				n = &acc{make([]float64, mo.Dim), make([]float64, mo.Dim), make([]float64, mo.Dim)}
				nodes[p[i]] = n
				order = append(order, n)
			}
			s := 0.5
			if p[i+1].Code == 1 {
				s = -0.5
			}
			for j := range a {
				n.sum[j] += s * a[j]
				n.abs[j] += math.Abs(a[j]) / 2
				n.sq[j] += a[j] * a[j] / 4
			}
		}
	}
	T := float64(passes)
	h := mo.Lr * mo.Lr / 2
	for _, n := range order {
		for j := range q {
			q[j] += h * (T*T*n.sum[j]*n.sum[j] - T*n.sq[j])
			scale[j] += h * (T*T*n.abs[j]*n.abs[j] - T*n.sq[j])
		}
	}
	return
}

func runC05(c *Case, o *Outcome) {
	ref := reference(c.text(), c.M.Lower, c.M.MinC, c.M.MaxC)
	if len(ref.Words) == 0 {
		o.Triv = true
	}
	t := makeTree(ref.Words, ref.All, c.M.Dim)
	if err := t.sound(ref.Freq); err != nil {
		o.bad("bad-tree", "frequencies %v: %v", ref.Freq, err)
		return
	}
	w0, _ := initial(o, c.M, c.text(), c.Seed)
	if o.Class != "" {
		return
	}
	var w1 *mat
	o.world(c, func(w *simrt.World) { w.NoVecY = c.Kind == "order" }, func(w *simrt.World) {
		m, err := trainIn(c.M, newReader(c.text(), c.Rd, c.Seed))
		if err != nil {
			o.bad("error", "training from a working input failed: %v (%s)", err, c.M)
			return
		}
		w1, _ = export(m)
	})
	if w1 == nil || o.Class != "" {
		return
	}
	if w1.row != len(ref.Words) || w1.col != c.M.Dim || w0.row != w1.row {
		o.bad("shape", "%s: vectors are %dx%d, want %dx%d", c.M, w1.row, w1.col, len(ref.Words), c.M.Dim)
		return
	}
	if c.Kind == "exact" {
		exactC05(c, o, ref, t, w0, w1)
		return
	}
	// Σ_c Δw_c w_c
	got := make([]float64, c.M.Dim)
	noise := make([]float64, c.M.Dim)
	for i := range w0.v {
		for j := range got {
			got[j] += (w1.v[i][j] - w0.v[i][j]) * w0.v[i][j]
			noise[j] += 1e-15 * w0.v[i][j] * w0.v[i][j] * float64(len(ref.Doc)+1)
		}
	}
	rel := 0.02
	if c.Kind == "loose" {
		rel = 0.15
	}
	miss := func(cut map[int]bool) (float64, string) {
		q, sc := quadratic(t, c.M, w0.v, occurrences(ref.Doc, cut, c.M.Model == "cbow"), c.M.Iter)
		bad, where := 0.0, ""
		for j := range q {
			lim := rel*sc[j] + noise[j]
			if x := math.Abs(got[j]-q[j]) / lim; x > bad {
				bad = x
				where = fmt.Sprintf("component %d: %.6g, expected %.6g ± %.1g", j, got[j], q[j], lim)
			}
		}
		return bad, where
	}
	n := len(ref.Doc)
	best, where := miss(plannedCuts(c.M, n))
	if best <= 1 {
		return
	}
	// the corpus may be cut elsewhere
	k := parts(c.M, n) - 1
	if c.Kind == "order" && n <= 15 {
		tryCuts(n, k, func(cut map[int]bool) bool {
			x, _ := miss(cut)
			best = math.Min(best, x)
			return best <= 1
		})
	} else if k > 0 {
		// anything up to losing the pairs at the cuts
		q0, _ := quadratic(t, c.M, w0.v, occurrences(ref.Doc, nil, c.M.Model == "cbow"), c.M.Iter)
		_, sc := quadratic(t, c.M, w0.v, occurrences(ref.Doc, nil, c.M.Model == "cbow"), c.M.Iter)
		lost := 4 * float64(k) / float64(2*n)
		best = 0
		for j := range q0 {
			best = math.Max(best, math.Abs(got[j]-q0[j])/((rel+2*lost)*sc[j]+noise[j]))
		}
	}
	if best > 1 {
		o.bad("wrong-nodes", "%s depth=%d: the scored tree nodes do not add up: %s (frequencies %v)", c.M, c.M.Depth, where, ref.Freq)
	}
}

// plannedCuts is where the current code cuts.
func plannedCuts(m MO, n int) map[int]bool {
	cut := map[int]bool{}
	if m.Mem {
		s := 0
		for i := 1; i < m.G; i++ {
			s += (n + i) / m.G
			cut[s] = true
		}
		return cut
	}
	for s := m.B; s < n; s += m.B {
		cut[s] = true
	}
	return cut
}

// tryCuts tries every way to cut n words into at most k+1 parts.
func tryCuts(n, k int, f func(cut map[int]bool) bool) {
	var rec func(from int, cut []int) bool
	rec = func(from int, cut []int) bool {
		m := map[int]bool{}
		for _, i := range cut {
			m[i] = true
		}
		if f(m) {
			return true
		}
		if len(cut) == k {
			return false
		}
		for i := from; i < n; i++ {
			if rec(i+1, append(cut[:len(cut):len(cut)], i)) {
				return true
			}
		}
		return false
	}
	rec(1, nil)
}

// exactC05 compares with a reference training.
func exactC05(c *Case, o *Outcome, ref *Ref, t *tree, w0, w1 *mat) {
	const size, lim = 1000, 6.0
	sigmoid := func(x float64) float64 {
		i := int((x + lim) * (size / lim / 2))
		i = max(0, min(size-1, i))
		e := math.Exp((float64(i)/size*2 - 1) * lim)
		return e / (e + 1)
	}
	us := occurrences(ref.Doc, nil, c.M.Model == "cbow")
	for k, us := range [][]occ{us, mirrored(us)} {
		w := make([][]float64, len(w0.v))
		for i := range w {
			w[i] = append([]float64(nil), w0.v[i]...)
		}
		nodes := map[*node.Node][]float64{}
		saturated := 0
		optim := func(id int, a, tmp []float64) {
			p := cutPath(t.path[id], c.M.Depth)
			for i := 0; i+1 < len(p); i++ {
				v := nodes[p[i]]
				if v == nil {
					v = make([]float64, c.M.Dim)
					nodes[p[i]] = v
				}
				x := dot(a, v)
				if x <= -lim || x >= lim {
					saturated++
					continue
				}
				g := (1 - float64(p[i+1].Code) - sigmoid(x)) * c.M.Lr
				for j := range v {
					tmp[j] += g * v[j]
					v[j] += g * a[j]
				}
			}
		}
		a, tmp := make([]float64, c.M.Dim), make([]float64, c.M.Dim)
		for it := 0; it < c.M.Iter; it++ {
			for _, u := range us {
				for j := range a {
					a[j], tmp[j] = 0, 0
					for _, x := range u.ctx {
						a[j] += w[x][j]
					}
				}
				optim(u.centre, a, tmp)
				for _, x := range u.ctx {
					for j := range tmp {
						w[x][j] += tmp[j]
					}
				}
			}
		}
		if saturated > 0 {
			simrt.Probe("saturated-score")
			o.probe("saturated-scores", saturated)
		}
		big := 1.0
		for i := range w {
			for j := range w[i] {
				big = math.Max(big, math.Abs(w[i][j]))
			}
		}
		if math.IsNaN(big) || math.IsInf(big, 0) || big > 1e6 {
			o.Triv = true
			return
		}
		wrong := ""
		for i := range w {
			for j := range w[i] {
				if wrong == "" && (math.Abs(w[i][j]-w1.v[i][j]) > 1e-7*big || math.IsNaN(w1.v[i][j])) {
					wrong = fmt.Sprintf("%s depth=%d lr=%g: component %d of %q is %.10g, a reference training gives %.10g (%d saturated scores, frequencies %v)", c.M, c.M.Depth, c.M.Lr, j, ref.Words[i], w1.v[i][j], w[i][j], saturated, ref.Freq)
				}
			}
		}
		if wrong == "" {
			return
		}
		if k == 1 {
			o.bad("wrong-training", "%s", wrong)
		}
	}
}

// ---- C21 ----

func genC21(r *R, c *Case) {
	n := r.I(1, 2, 3, 4, 6, 10, 20)
	if r.P(0.1) {
		n = r.In(20, 300)
	}
	most := 2000.0
	if r.P(0.002) {
		n, most = r.In(20, 32), 300000
	}
	c.Words = distinct(n)
	f := make([]float64, n)
	for i := range f {
		k := c.Seed % 4
		if most > 2000 {
			k = 1
		}
		switch k {
		case 0:
			f[i] = 1
		case 1: // as deep as possible
			f[i] = math.Min(math.Pow(1.7, float64(i)), most)
		case 2:
			f[i] = float64(r.In(1, 50))
		default:
			f[i] = math.Max(1, 300/float64(i+1))
		}
		f[i] = math.Floor(f[i])
	}
	c.Vec = [][]float64{f}
	hot := r.In(1, 3)
	for g := r.In(1, 6); g > 0; g-- {
		var q []query
		for k := r.In(1, 8); k > 0; k-- {
			w := r.N(n)
			if r.P(0.6) {
				w = r.N(hot) % n
			}
			d := r.I(0, 0, 1, 2, 3, 5, 50, 1<<40)
			if r.P(0.05) {
				d = -r.In(1, 3)
			}
			q = append(q, query{Kind: "path", Word: c.Words[w], K: d, Ign: nil})
		}
		c.Q = append(c.Q, q)
	}
}

func shrinkC21(c *Case) (out []*Case) {
	for i := range c.Q {
		if len(c.Q) > 1 {
			d := c.clone()
			d.Q = without(d.Q, i, i+1)
			out = append(out, d)
		}
		cuts(len(c.Q[i]), func(a, b int) {
			d := c.clone()
			d.Q[i] = without(d.Q[i], a, b)
			out = append(out, d)
		})
	}
	cuts(len(c.Words), func(a, b int) {
		d := c.clone()
		d.Words = without(d.Words, a, b)
		d.Vec[0] = without(d.Vec[0], a, b)
		if len(d.Words) == 0 {
			return
		}
		have := map[string]bool{}
		for _, w := range d.Words {
			have[w] = true
		}
		for i := range d.Q {
			var q []query
			for _, x := range d.Q[i] {
				if have[x.Word] {
					q = append(q, x)
				}
			}
			d.Q[i] = q
		}
		out = append(out, d)
	})
	return
}

func runC21(c *Case, o *Outcome) {
	d := dictionary.New()
	at := map[string]int{}
	for i, wd := range c.Words {
		at[wd] = i
		for k := 0; k < int(c.Vec[0][i]); k++ {
			d.Add(wd)
		}
	}
	leaf := d.HuffnamTree(2)
	if len(leaf) != len(c.Words) {
		o.bad("bad-tree", "%d leaves for %d words", len(leaf), len(c.Words))
		return
	}
	o.world(c, nil, func(w *simrt.World) {
		want := make([][]*node.Node, len(leaf))
		for i, l := range leaf {
			want[i] = walk(l)
		}
		type res struct {
			q   query
			got []*node.Node
		}
		kept := make([][]res, len(c.Q))
		same := func(when string, x res) bool {
			p := cutPath(want[at[x.q.Word]], x.q.K)
			ok := len(p) == len(x.got)
			for i := 0; ok && i < len(p); i++ {
				ok = p[i] == x.got[i]
			}
			if !ok {
				o.bad("wrong-path", "%s: the path of %q to depth %d has %d nodes, the tree %d (whole path %d)", when, x.q.Word, x.q.K, len(x.got), len(p), len(want[at[x.q.Word]]))
			}
			return ok
		}
		done := 0
		for g := range c.Q {
			g := g
			simrt.Go("harness lookup", func() {
				defer func() { done++ }()
				for _, q := range c.Q[g] {
					x := res{q, leaf[at[q.Word]].GetPath(q.K)}
					kept[g] = append(kept[g], x)
					if !same("at once", x) {
						return
					}
				}
			})
		}
		simrt.BlockUntil("clients", func() bool { return done == len(c.Q) })
		for g := range kept {
			for _, x := range kept[g] {
				if !same("afterwards", x) {
					return
				}
			}
		}
		for i, l := range leaf {
			p := walk(l)
			for j := range p {
				if len(p) != len(want[i]) || p[j] != want[i][j] {
					o.bad("tree-changed", "lookups changed the tree above %q", c.Words[i])
					return
				}
			}
		}
	})
}
