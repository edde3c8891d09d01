package main

import (
	"math"
	"sort"

	"simrt"
)

// Exact comparison for tiny corpora and one worker: every training the random
// draws allow is computed by a reference implementation, and the exported vectors
// must be those of one of them, with any learning rate. This sees what a first-order
// decoding cannot: the order of reads and writes inside an update, saturated scores,
// biases, accumulated squares.

const maxLeaves = 3000

// state is the word vectors followed by the context vectors.
type state [][]float64

func (s state) copy() state {
	n := make(state, len(s))
	for i := range s {
		n[i] = append([]float64(nil), s[i]...)
	}
	return n
}

// step is one update with its possible outcomes.
type step func(s state) []state

// explore tries all outcomes and returns the least difference to the goal,
// where the first rows of the state are compared with it.
func explore(s state, steps []step, goal state) (best float64, big float64, leaves int) {
	best = math.Inf(1)
	var rec func(s state, i int)
	rec = func(s state, i int) {
		if leaves >= maxLeaves || best < 1e-9 {
			return
		}
		if i == len(steps) {
			leaves++
			d, m := 0.0, 1.0
			for i := range goal {
				for j := range goal[i] {
					m = math.Max(m, math.Abs(s[i][j]))
					d = math.Max(d, math.Abs(s[i][j]-goal[i][j]))
				}
			}
			if math.IsNaN(m) || m > 1e5 || math.IsNaN(d) {
				// what is lost in rounding cannot be compared
				big = math.Inf(1)
				return
			}
			big = math.Max(big, m)
			best = math.Min(best, d/m)
			return
		}
		for _, n := range steps[i](s) {
			rec(n, i+1)
		}
	}
	rec(s, 0)
	return
}

func tableSigmoid(x float64) float64 {
	const size, lim = 1000, 6.0
	i := int((x + lim) * (size / lim / 2))
	i = max(0, min(size-1, i))
	e := math.Exp((float64(i)/size*2 - 1) * lim)
	return e / (e + 1)
}

// occ is one update: the words it is made from, and the word it is for.
type occ struct {
	ctx    []int
	centre int
	pos    int
}

// mirrored takes the context of every word from the right to the left.
func mirrored(us []occ) []occ {
	out := append([]occ(nil), us...)
	for i := 0; i+1 < len(out); i++ {
		if out[i].pos == out[i+1].pos {
			out[i], out[i+1] = out[i+1], out[i]
			i++
		}
	}
	return out
}

// occurrences lists the updates of one pass with window 1 over a corpus cut
// before the given positions.
func occurrences(doc []int, cut map[int]bool, cbow bool) (out []occ) {
	for i := range doc {
		var ctx []int
		if i > 0 && !cut[i] {
			ctx = append(ctx, doc[i-1])
		}
		if i+1 < len(doc) && !cut[i+1] {
			ctx = append(ctx, doc[i+1])
		}
		if cbow {
			if len(ctx) > 0 {
				out = append(out, occ{ctx, doc[i], i})
			}
			continue
		}
		for _, x := range ctx {
			out = append(out, occ{[]int{x}, doc[i], i})
		}
	}
	return
}

// place is one position of the corpus: for every window that may be drawn there,
// the updates it makes.
type place [][]occ

// places lists the positions of one pass over a corpus in one piece.
func places(doc []int, win int, cbow, mirror bool) (out []place) {
	for i := range doc {
		var p place
		seen := 0
		for reach := 1; reach <= win; reach++ {
			var ctx []int
			for j := max(0, i-reach); j <= min(len(doc)-1, i+reach); j++ {
				if j != i {
					ctx = append(ctx, doc[j])
				}
			}
			if len(ctx) == seen {
				continue // a wider window has no more to offer
			}
			seen = len(ctx)
			if mirror {
				for a, b := 0, len(ctx)-1; a < b; a, b = a+1, b-1 {
					ctx[a], ctx[b] = ctx[b], ctx[a]
				}
			}
			us := []occ{{ctx, doc[i], i}}
			if !cbow {
				us = nil
				for _, x := range ctx {
					us = append(us, occ{[]int{x}, doc[i], i})
				}
			}
			p = append(p, us)
		}
		if p != nil {
			out = append(out, p)
		}
	}
	return
}

// leavesOf is the number of outcomes of n passes over the places, where one update has k.
func leavesOf(ps []place, k, n int) int {
	t := 1
	for ; n > 0; n-- {
		for _, p := range ps {
			s := 0
			for _, us := range p {
				s += product(k, len(us))
			}
			if t *= s; t > 1<<30 {
				return 1 << 30
			}
		}
	}
	return t
}

// stepsOf turns passes over the places into steps.
func stepsOf(ps []place, n int, update func(u occ) []step) (out []step) {
	for ; n > 0; n-- {
		for _, p := range ps {
			if len(p) == 1 {
				for _, u := range p[0] {
					out = append(out, update(u)...)
				}
				continue
			}
			p := p
			out = append(out, func(s state) (res []state) {
				for _, us := range p {
					now := []state{s}
					for _, u := range us {
						for _, st := range update(u) {
							var next []state
							for _, x := range now {
								next = append(next, st(x)...)
							}
							now = next
						}
					}
					res = append(res, now...)
				}
				return
			})
		}
	}
	return
}

func repeated(us []occ, n int) (out []occ) {
	for ; n > 0; n-- {
		out = append(out, us...)
	}
	return
}

// draws lists the sequences of at most n words out of V other than id.
func draws(V, n, id int) (out [][]int) {
	var rec func(cur []int)
	rec = func(cur []int) {
		out = append(out, append([]int(nil), cur...))
		if len(cur) == n {
			return
		}
		for x := 0; x < V; x++ {
			if x != id {
				rec(append(cur, x))
			}
		}
	}
	rec(nil)
	return
}

func geometric(V, n int) (s int) {
	for k, p := 0, 1; k <= n; k, p = k+1, p*(V-1) {
		s += p
	}
	return
}

func product(base, n int) int {
	p := 1
	for ; n > 0; n-- {
		if p *= base; p > 1<<30 {
			return 1 << 30
		}
	}
	return p
}

// smallCorpus shortens the corpus until the number of outcomes is within bounds.
func (c *Case) smallCorpus(leaves func(ref *Ref) int) {
	for {
		ref := reference(c.text(), c.M.Lower, c.M.MinC, c.M.MaxC)
		if leaves(ref) <= maxLeaves || len(c.Words) < 2 {
			return
		}
		if c.M.Iter > 1 {
			c.M.Iter--
		} else if c.M.Neg > 1 {
			c.M.Neg--
		} else {
			c.Words = c.Words[:len(c.Words)-1]
		}
	}
}

func (c *Case) exactly(r *R) {
	c.Kind = "exact"
	c.Words = corpus(r, r.I(2, 2, 3, 4, 5, 7), r.In(1, 4))
	c.M.Win, c.M.MinC, c.M.MaxC, c.M.Lower = 1, 0, -1, false
	c.M.G, c.M.B = 1, r.I(10, 100)
	if !c.M.Mem {
		c.M.G = r.I(1, 2, 3)
	}
	c.M.Dim = r.In(1, 4)
	c.M.Iter = r.I(1, 2, 3, 4)
}

// wider draws windows beyond the direct neighbours for some cases.
func (c *Case) wider(r *R) {
	if !r.P(0.4) {
		return
	}
	c.M.Win = r.I(2, 2, 3, 4)
	c.Words = corpus(r, r.I(3, 4, 5, 6, 7, 8), r.In(1, 7))
	c.M.Iter = r.I(1, 1, 2)
	if r.P(0.6) {
		c.M.Neg = 0
	}
}

func nsLeaves(c *Case) func(ref *Ref) int {
	return func(ref *Ref) int {
		return leavesOf(places(ref.Doc, c.M.Win, c.M.Model == "cbow", false), geometric(len(ref.Words), c.M.Neg), c.M.Iter)
	}
}

func genExactC04(r *R, c *Case) {
	c.exactly(r)
	c.M.Neg = r.I(0, 1, 1, 2, 3)
	c.wider(r)
	c.M.Lr = r.X(0.025, 0.5, 3, 10, 40)
	c.M.MinLR = c.M.Lr / 10
	c.smallCorpus(nsLeaves(c))
}

func (d *decoded) states() (from, goal state) {
	from = append(append(state{}, d.w0.v...), d.c0.v...)
	goal = append(append(state{}, d.w1.v...), d.c1.v...)
	return from.copy(), goal
}

// decide reports a violation if no outcome is the one seen. The steps may be in one of
// several orders: what is promised is what is trained.
func (d *decoded) decide(c *Case, o *Outcome, from state, goal state, saturated *int, orders ...[]step) {
	best, big, leaves := math.Inf(1), 0.0, 0
	for _, steps := range orders {
		x, y, n := explore(from, steps, goal)
		best, big, leaves = math.Min(best, x), math.Max(big, y), max(leaves, n)
		if best <= 1e-7 {
			break
		}
	}
	if *saturated > 0 {
		simrt.Probe("saturated-score")
		o.probe("saturated-scores", *saturated)
	}
	o.probe("reference-trainings", leaves)
	if leaves >= maxLeaves || math.IsInf(big, 0) || big == 0 {
		o.Triv = true
		return
	}
	if best > 1e-7 {
		o.bad("wrong-training", "%s lr=%g iter=%d: the vectors are those of none of the %d possible trainings; the nearest differs by %.3g of the largest component", c.M, c.M.Lr, c.M.Iter, leaves, best)
	}
}

func exactC04(c *Case, o *Outcome) {
	d := runDecoded(c, o)
	if d == nil {
		return
	}
	V, dim := len(d.ref.Words), c.M.Dim
	if nsLeaves(c)(d.ref) > maxLeaves || len(d.ref.Doc) == 0 {
		o.Triv = true
		return
	}
	sat := 0
	order := func(mirror, last bool) []step {
		return stepsOf(places(d.ref.Doc, c.M.Win, c.M.Model == "cbow", mirror), c.M.Iter, func(u occ) []step {
			all := draws(V, c.M.Neg, u.centre)
			return []step{func(s state) (out []state) {
				for _, neg := range all {
					n := s.copy()
					a, tmp := make([]float64, dim), make([]float64, dim)
					for _, x := range u.ctx {
						for j := range a {
							a[j] += n[x][j]
						}
					}
					train := func(label float64, v []float64) {
						x := dot(v, a)
						g := 0.0
						switch {
						case x <= -6:
							g = label * c.M.Lr
							sat++
						case x >= 6:
							g = (label - 1) * c.M.Lr
							sat++
						default:
							g = (label - tableSigmoid(x)) * c.M.Lr
						}
						for j := range a {
							tmp[j] += g * v[j]
							v[j] += g * a[j]
						}
					}
					if !last {
						train(1, n[V+u.centre])
					}
					for _, x := range neg {
						train(0, n[V+x])
					}
					if last {
						train(1, n[V+u.centre])
					}
					for _, x := range u.ctx {
						for j := range tmp {
							n[x][j] += tmp[j]
						}
					}
					out = append(out, n)
				}
				return
			}}
		})
	}
	from, goal := d.states()
	d.decide(c, o, from, goal, &sat, order(false, false), order(true, false), order(false, true), order(true, true))
}

// ---- LexVec ----

func lexLeaves(c *Case) func(ref *Ref) int {
	return func(ref *Ref) int {
		return leavesOf(places(ref.Doc, c.M.Win, false, false), product(len(ref.Words), c.M.Neg), c.M.Iter)
	}
}

func genExactC06(r *R, c *Case) {
	c.exactly(r)
	c.M.Neg = r.I(0, 1, 1, 2)
	c.wider(r)
	c.M.Lr = r.X(0.01, 0.1, 0.5, 1)
	c.M.MinLR = c.M.Lr / 10
	c.smallCorpus(lexLeaves(c))
}

func exactC06(c *Case, o *Outcome) {
	d := runDecoded(c, o)
	if d == nil {
		return
	}
	V := len(d.ref.Words)
	if lexLeaves(c)(d.ref) > maxLeaves || len(d.ref.Doc) == 0 {
		o.Triv = true
		return
	}
	t := cooc(d.ref.All, c.M.Win, false)
	fit := func(s state, a, b int, f float64) {
		v, u := s[a], s[b]
		diff := (dot(v, u) - f) * c.M.Lr
		for j := range v {
			x, y := diff*u[j], diff*v[j]
			v[j] -= x
			u[j] -= y
		}
	}
	order := func(mirror, last bool) []step {
		return stepsOf(places(d.ref.Doc, c.M.Win, false, mirror), c.M.Iter, func(u occ) (steps []step) {
			x, y := u.centre, u.ctx[0]
			positive := func(s state) []state {
				n := s.copy()
				fit(n, x, y, association(c.M, d.ref, t, x, y))
				return []state{n}
			}
			if !last {
				steps = append(steps, positive)
			}
			for k := 0; k < c.M.Neg; k++ {
				steps = append(steps, func(s state) (out []state) {
					for y := 0; y < V; y++ {
						n := s.copy()
						fit(n, x, V+y, association(c.M, d.ref, t, x, y))
						out = append(out, n)
					}
					return
				})
			}
			if last {
				steps = append(steps, positive)
			}
			return
		})
	}
	zero := 0
	from, goal := d.states()
	d.decide(c, o, from, goal, &zero, order(false, false), order(true, false), order(false, true), order(true, true))
}

// ---- GloVe ----

type gpair struct {
	a, b    int
	f, coef float64
}

func glovePairs(c *Case, ref *Ref) (ps []gpair) {
	t := cooc(ref.All, c.M.Win, c.M.Cnt == "prox")
	V := len(ref.Words)
	for a := 0; a < V; a++ {
		for b := a; b < V; b++ {
			n := t[pair{a, b}]
			if n == 0 || !ref.inside(a, c.M.MinC, c.M.MaxC) || !ref.inside(b, c.M.MinC, c.M.MaxC) {
				continue
			}
			coef := 1.0
			if n < float64(c.M.Xmax) {
				coef = math.Pow(n/float64(c.M.Xmax), c.M.Alpha)
			}
			ps = append(ps, gpair{a, b, math.Log(n), coef})
		}
	}
	return
}

func gloveLeaves(c *Case) func(ref *Ref) int {
	return func(ref *Ref) int {
		f := 1
		for n := len(glovePairs(c, ref)); n > 1; n-- {
			f *= n
			if f > maxLeaves {
				return f
			}
		}
		// a pass may take a pair's directions in either order
		return product(f*product(2, len(glovePairs(c, ref))), c.M.Iter)
	}
}

func genExactC07(r *R, c *Case) {
	c.exactly(r)
	c.M.Win = r.I(1, 1, 2, 3)
	c.M.G = 1
	c.M.Lr = r.X(0.01, 0.1, 0.5)
	c.M.Solver = r.S("sgd", "adagrad", "adagrad")
	c.smallCorpus(gloveLeaves(c))
}

// unseen finds which of the program's random draws become values that are not
// exported, the biases of GloVe. The nth draw is draw(n). It returns the vectors
// before the first pass, nil if they are not the draws divided by the dimension.
func unseen(c *Case, o *Outcome, draw func(n int) float64) (single, ctx *mat, rest map[int]bool) {
	mo := c.M
	mo.Iter, mo.Verbose = 0, false
	w := o.aux(c.Seed, func(w *simrt.World) {
		w.RandFn = func(n int) (float64, bool) { return draw(n), true }
		m, err := trainIn(mo, newReader(c.text(), Stream{}, 0))
		if err != nil {
			o.bad("error", "training with no iterations failed: %v", err)
			return
		}
		single, ctx = export(m)
	})
	if o.Class != "" || ctx == nil || single.col != mo.Dim {
		return nil, nil, nil
	}
	var at []int
	for n := 0; n < w.Draws; n++ {
		at = append(at, n)
	}
	sort.Slice(at, func(i, j int) bool { return draw(at[i]) < draw(at[j]) })
	rest = map[int]bool{}
	for _, n := range at {
		rest[n] = true
	}
	for _, v := range [][][]float64{single.v, ctx.v} {
		for _, row := range v {
			for _, x := range row {
				x *= float64(mo.Dim)
				i := sort.Search(len(at), func(i int) bool { return draw(at[i]) > x-1e-9 })
				if i == len(at) || math.Abs(draw(at[i])-x) > 1e-9 || !rest[at[i]] {
					return nil, nil, nil
				}
				delete(rest, at[i])
			}
		}
	}
	return
}

// exactC07 starts every bias at the same constant, as biases are not exported, and in
// some cases every other value too.
func exactC07(c *Case, o *Outcome) {
	ref := reference(c.text(), c.M.Lower, c.M.MinC, c.M.MaxC)
	ps := glovePairs(c, ref)
	if gloveLeaves(c)(ref) > maxLeaves || len(ps) == 0 {
		o.Triv = true
		return
	}
	V, dim := len(ref.Words), c.M.Dim
	const fix = 0.375
	d := &decoded{ref: ref}
	draw := func(n int) float64 {
		z := (c.Seed<<20 + uint64(n) + 1) * 0x9e3779b97f4a7c15
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		return float64((z^(z>>31))>>11) / (1 << 53)
	}
	var w0, c0 *mat
	var bias map[int]bool
	if c.Seed%4 != 0 {
		w0, c0, bias = unseen(c, o, draw)
		if o.Class != "" {
			return
		}
		if w0 != nil && len(bias) == 2*V {
			o.probe("distinct-values", 1)
		} else {
			w0 = nil
		}
	}
	o.world(c, func(w *simrt.World) {
		w.RandFn = func(n int) (float64, bool) {
			if w0 == nil || bias[n] {
				return fix, true
			}
			return draw(n), true
		}
	}, func(w *simrt.World) {
		m, err := trainIn(c.M, newReader(c.text(), c.Rd, c.Seed))
		if err != nil {
			o.bad("error", "training from a working input failed: %v (%s)", err, c.M)
			return
		}
		d.w1, d.c1 = export(m)
	})
	if d.w1 == nil || o.Class != "" {
		return
	}
	if d.w1.row != V || d.w1.col != dim {
		o.bad("shape", "%s: vectors are %dx%d, want %dx%d", c.M, d.w1.row, d.w1.col, V, dim)
		return
	}
	// rows: vectors of words, of contexts, with the bias last; then squares
	from := make(state, 4*V)
	for i := range from {
		from[i] = make([]float64, dim+1)
		for j := range from[i] {
			from[i][j] = fix / float64(dim)
			switch {
			case i >= 2*V:
				from[i][j] = 1
			case w0 == nil || j == dim:
			case i < V:
				from[i][j] = w0.v[i][j]
			default:
				from[i][j] = c0.v[i-V][j]
			}
		}
	}
	fit := func(s state, x, y int, p gpair) {
		v, u, gv, gu := s[x], s[y], s[2*V+x], s[2*V+y]
		diff := (dot(v[:dim], u[:dim]) + v[dim] + u[dim] - p.f) * p.coef * c.M.Lr
		for j := 0; j <= dim; j++ {
			a, b := diff*u[j], diff*v[j]
			if j == dim {
				a, b = diff, diff
			}
			if c.M.Solver == "adagrad" {
				a2, b2 := a*a, b*b
				if j < dim {
					gv[j] += a2
					gu[j] += b2
				}
				a /= math.Sqrt(gv[j])
				b /= math.Sqrt(gu[j])
				if j == dim {
					gv[j] += a2
					gu[j] += b2
				}
			}
			v[j] -= a
			u[j] -= b
		}
	}
	// a step is a whole pass: the pairs in any order
	pass := func(s state) (out []state) {
		var rec func(s state, left []gpair)
		rec = func(s state, left []gpair) {
			if len(left) == 0 {
				out = append(out, s)
				return
			}
			for i, p := range left {
				rest := append(append([]gpair(nil), left[:i]...), left[i+1:]...)
				for dir := 0; dir < 2; dir++ {
					n := s.copy()
					x, y := [2]int{p.a, V + p.b}, [2]int{V + p.a, p.b}
					if dir == 1 {
						if p.a == p.b {
							break
						}
						x, y = y, x
					}
					fit(n, x[0], x[1], p)
					fit(n, y[0], y[1], p)
					rec(n, rest)
				}
			}
		}
		rec(s, ps)
		return
	}
	var steps []step
	for it := 0; it < c.M.Iter; it++ {
		steps = append(steps, pass)
	}
	zero := 0
	goal := append(append(state{}, d.w1.v...), d.c1.v...)
	d.decide(c, o, from, goal, &zero, steps)
}
