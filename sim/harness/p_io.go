package main

import (
	"fmt"
	"math"
	"slices"
	"sort"
	"strconv"
	"strings"

	"simrt"
	"simrt/sio"

	"github.com/ynqa/wego/pkg/embedding"
	"github.com/ynqa/wego/pkg/model"
	"github.com/ynqa/wego/pkg/model/modelutil/vector"
	"github.com/ynqa/wego/pkg/search"
)

func init() {
	register(&Prop{ID: "C13", Quick: 450000,
		Rule: "A trained model saved to writers that fail, tear, run full or take any time, also by several goroutines at once; what a successful save wrote is compared with the model and with an undisturbed save.",
		Gen:  genC13, Run: runC13, Shrink: shrinkTraining})
	register(&Prop{ID: "C14", Quick: 500000,
		Rule: "A vector file in random number formats loaded from readers with random chunking, cut-off ends, read failures and malformed lines, by several loaders at once.",
		Gen:  genC14, Run: runC14, Shrink: shrinkC14})
	register(&Prop{ID: "C15", Quick: 450000,
		Rule: "A trained model saved and loaded again, through a buffer read in random chunks or through a pipe with the loader running concurrently.",
		Gen:  genC15, Run: runC15, Shrink: shrinkTraining})
	register(&Prop{ID: "C16", Quick: 2000000,
		Rule: "Several goroutines with random queries on one shared searcher; every answer is compared with a brute-force ranking and with the answer the query gets alone.",
		Gen:  genC16, Run: runC16, Shrink: shrinkC16})
}

// ---- C13 ----

// smallModel picks a model that trains quickly; what it learns does not matter.
func smallModel(r *R, c *Case) {
	c.M = defaults(modelNames[r.N(4)])
	c.M.Opt = r.S("ns", "ns", "hs")
	c.M.G = r.I(1, 2, 3)
	c.M.Mem = r.P(0.5)
	c.M.B = r.I(3, 10, 1000)
	c.M.Dim = r.I(1, 2, 3, 5, 10)
	c.M.Iter = r.I(0, 1, 1)
	c.M.Lower = r.P(0.2)
	c.M.Lr = r.X(0.01, 0.025)
	if c.M.isW2V() && r.P(0.3) {
		// components of any size
		c.M.Lr = r.X(1, 10, 40)
		c.M.Iter = r.In(1, 3)
	}
	c.M.Verbose = r.P(0.15)
	c.M.LogB = r.I(1, 2, 1000)
	n := r.In(0, 15)
	c.Words = corpus(r, n, r.In(1, 8))
	c.Seps = r.S("", "", "", " \n", " \t\r\n\v\f", " \u00a0\u0085\u2003\u3000\u2028")
	if r.P(0.15) {
		for i := range c.Words {
			if r.P(0.5) {
				c.Words[i] = oddWords[r.N(len(oddWords))]
			}
		}
	}
	if r.P(0.15) {
		// more than one buffer of output
		c.M.Dim = r.In(40, 120)
		c.Words = corpus(r, 20, 20)
		c.M.Iter = 0
	} else if r.P(0.01) {
		c.Words = corpus(r, r.In(30, 320), r.I(16, 40, 140, 300))
		c.M.Iter = min(c.M.Iter, 1)
	}
	manyWords(r, c)
}

func genC13(r *R, c *Case) {
	smallModel(r, c)
	c.S = map[string]string{"typ": r.S("single", "agg")}
	c.set("n", r.I(1, 1, 1, 2, 3))
	size := (c.I["ids"] + len(c.Words)) * (3 + 10*c.M.Dim)
	switch r.N(5) {
	case 0:
	case 1:
		c.Wr.Room = 1 + r.N(size+1)
		if r.P(0.3) {
			c.Wr.Room = r.I(1, 4095, 4096, 4097, 8192)
		}
	default:
		f := Fault{At: r.N(size + 1), Times: r.I(0, 0, 1), Err: writeErr(r)}
		if r.P(0.3) {
			f.At = r.I(0, 4096, 8192, size/2, 1)
		}
		c.Wr.Faults = []Fault{f}
		c.Wr.Short = r.P(0.5)
		c.Wr.NoErr = c.Wr.Short && r.P(0.4)
	}
	if r.P(0.3) {
		c.Wr.Delay = r.I(1, 100)
	}
}

// parseVectors reads saved text. It is deliberately independent of the loader.
func parseVectors(s string) (words []string, vecs [][]float64, err error) {
	if s == "" {
		return nil, nil, nil
	}
	if !strings.HasSuffix(s, "\n") {
		return nil, nil, fmt.Errorf("the last line is not ended")
	}
	for i, l := range strings.Split(strings.TrimSuffix(s, "\n"), "\n") {
		f := strings.Fields(l)
		if len(f) < 1 {
			return nil, nil, fmt.Errorf("line %d is empty", i)
		}
		var v []float64
		for _, x := range f[1:] {
			y, err := strconv.ParseFloat(x, 64)
			if err != nil {
				return nil, nil, fmt.Errorf("line %d: %v", i, err)
			}
			v = append(v, y)
		}
		words, vecs = append(words, f[0]), append(vecs, v)
	}
	return
}

// sixDigits says whether x is what reading y written with six digits after the
// point gives. Reading rounds once more, to a neighbouring number.
func sixDigits(x, y float64) bool {
	return x == y || x != x && y != y || math.Abs(x-y) <= 5.1e-7+2.3e-16*math.Abs(y)
}

// checkSaved compares saved text with the model.
func checkSaved(text string, ref *Ref, m *mat) error {
	words, vecs, err := parseVectors(text)
	if err != nil {
		return err
	}
	if len(words) != len(ref.Words) {
		return fmt.Errorf("%d lines for %d words", len(words), len(ref.Words))
	}
	for i, w := range words {
		if w != ref.Words[i] {
			return fmt.Errorf("line %d is %q, want %q", i, w, ref.Words[i])
		}
		if len(vecs[i]) != m.col {
			return fmt.Errorf("line %d has %d values, want %d", i, len(vecs[i]), m.col)
		}
		for j, x := range vecs[i] {
			if !sixDigits(x, m.v[i][j]) {
				return fmt.Errorf("line %d value %d is %g, the model has %g", i, j, x, m.v[i][j])
			}
		}
	}
	return nil
}

// train01 trains in the running world; reports a failure.
func train01(c *Case, o *Outcome) model.Model {
	m, err := trainIn(c.M, newReader(c.text(), Stream{}, c.Seed))
	if err != nil {
		o.bad("error", "training from a working input failed: %v (%s)", err, c.M)
		return nil
	}
	return m
}

func runC13(c *Case, o *Outcome) {
	typ := c.S["typ"]
	ref := reference(c.text(), c.M.Lower, 0, -1)
	o.world(c, nil, func(w *simrt.World) {
		m := train01(c, o)
		if m == nil {
			return
		}
		good := newWriter(Stream{}, 0)
		if err := m.Save(good, typ); err != nil {
			o.bad("error", "saving to a working destination failed: %v", err)
			return
		}
		full := string(good.Got)
		if err := checkSaved(full, ref, snap(m, typ)); err != nil {
			o.bad("wrong-output", "%s, %s: %v", c.M, typ, err)
			return
		}
		done := 0
		for k := 0; k < c.I["n"]; k++ {
			wr := newWriter(c.Wr, c.Seed+uint64(k))
			simrt.Go("harness saver", func() {
				defer func() { done++ }()
				err := m.Save(wr, typ)
				got := string(wr.Got)
				switch {
				case err == nil && got != full:
					o.bad("false-success", "%s: saving succeeded but the destination has %d of %d bytes (%d failures)", c.M, len(got), len(full), wr.Fired)
				case err != nil && wr.Fired == 0:
					o.bad("error", "saving failed without a reason: %v", err)
				case !strings.HasPrefix(full, got) && c.Wr.Faults != nil && c.Wr.Faults[0].Times == 0:
					o.bad("wrong-output", "%s: a failed save wrote something else", c.M)
				}
			})
		}
		simrt.BlockUntil("savers", func() bool { return done == c.I["n"] })
		if s := w.Drain(10000); len(s) > 0 {
			o.bad("leak", "goroutines are left after saving")
		}
	})
}

// ---- C14 ----

type refEmb struct {
	word string
	vec  []float64
}

func genC14(r *R, c *Case) {
	c.Rd = genRead(r)
	n, dim := r.In(0, 8), r.In(1, 6)
	if r.P(0.05) {
		n, dim = r.In(1, 3), r.I(500, 1000, 6000, 7000, 13000)
		c.Rd.Chunk, c.Rd.N, c.Rd.Delay, c.Rd.Empty = r.S("", "fixed"), r.I(1000, 4096), 0, 0
	} else if r.P(0.02) {
		n, dim = r.In(9, 300), sizeOf(r)
	}
	if r.P(0.0007) {
		n, dim = r.In(1, 2), 120000
		c.Rd = Stream{}
	} else if r.P(0.0005) {
		n, dim = r.I(1030, 4100, 8200), r.In(1, 2)
		if r.P(0.1) {
			n = 65536 + r.In(1, 2000)
		}
		c.Rd = Stream{Chunk: r.S("", "fixed"), N: r.I(1000, 4096)}
		c.Sched.P = min(c.Sched.P, 0.01)
	}
	ws := vocab(r, n)
	if n > 1 && r.P(0.1) {
		ws[r.N(n)] = ws[r.N(n)] // a word twice
	}
	if n > 1 && r.P(0.04) {
		i := 1 + r.N(n-1)
		ws[i] = ws[i-1]
	}
	counts := n > 0 && r.P(0.03) // the first line looks like the size of the file
	if counts {
		ws[0] = r.S(fmt.Sprint(n-1), fmt.Sprint(n), "12")
		dim = r.I(1, 1, dim)
	}
	sep, eol := r.S(" ", " ", "\t", "  ", " \t"), r.S("\n", "\n", "\n", "\r\n", " \n")
	bad := -1
	if n > 0 && r.P(0.2) {
		bad = r.N(n)
	}
	for i := 0; i < n; i++ {
		var b strings.Builder
		d := dim
		if r.P(0.05) {
			d = r.In(1, 4)
		}
		b.WriteString(ws[i])
		if i == bad && r.P(0.4) {
			d = 0
		}
		badAt := -1
		if i == bad && d > 0 {
			badAt = r.N(d)
		}
		for j := 0; j < d; j++ {
			x := (r.F() - 0.5) * r.X(1, 1, 10, 1e-3, 1e5)
			b.WriteString(sep)
			switch {
			case j == badAt:
				b.WriteString(r.S("x", "1.0.0", "1,5", "--1", "0x", "1e", ".", "1e999", "-1e400", "1f", "0b1", "NaN0"))
			case counts && i == 0:
				b.WriteString(fmt.Sprint(r.In(1, 300)))
			case r.P(0.01):
				b.WriteString(r.S("+1", "0x1p-2", "inf", "-Inf", "NaN", "infinity", "007", "1.", ".5", "1e-400", "0x_1p0", "123456789012345678901234567890"))
			case r.P(0.1):
				b.WriteString(r.S("0", "-0.000000", "1", "-1", "1e-7", "5E3"))
			case r.P(0.2):
				b.WriteString(strconv.FormatFloat(x, 'g', -1, 64))
			default:
				b.WriteString(strconv.FormatFloat(x, 'f', 6, 64))
			}
		}
		b.WriteString(eol)
		c.L = append(c.L, b.String())
	}
	if bad >= 0 {
		c.Kind = "malformed"
		c.set("bad", bad)
	}
	if n > 0 && r.P(0.2) {
		// no newline at the end
		c.L[n-1] = strings.TrimRight(c.L[n-1], "\r\n ")
	}
	if c.Kind == "" && n > 0 && r.P(0.05) {
		// lines without a word
		c.Kind = "blank"
		for k := r.I(1, 1, 2); k > 0; k-- {
			i := r.N(len(c.L) + 1)
			l := r.S("", "", "\r", "\t", " ", "  ") + "\n"
			if i == len(c.L) && !strings.HasSuffix(c.L[i-1], "\n") {
				l = "\n" + l
			}
			c.L = append(c.L[:i:i], append([]string{l}, c.L[i:]...)...)
		}
	}
	size := len(strings.Join(c.L, ""))
	if c.Kind == "" && size > 0 && r.P(0.35) {
		c.Kind = "cut"
		c.set("cut", r.N(size+1))
	}
	if r.P(0.3) {
		c.Rd.Faults = []Fault{{Pass: 1, At: r.N(size + 1), Kind: r.S("read", "data"), Times: r.I(0, 0, 1), Err: readErr(r)}}
		if r.P(0.3) {
			c.Rd.Faults[0].At = size
		}
	}
	c.set("n", r.I(1, 1, 2, 3))
}

func shrinkC14(c *Case) (out []*Case) {
	if c.Kind == "malformed" {
		return nil
	}
	cuts(len(c.L), func(i, j int) {
		d := c.clone()
		d.L = without(d.L, i, j)
		out = append(out, d)
	})
	if c.I["n"] > 1 {
		d := c.clone()
		d.set("n", 1)
		out = append(out, d)
	}
	return
}

func refLine(l string) (refEmb, error) {
	f := strings.Fields(l)
	if len(f) < 2 {
		return refEmb{}, fmt.Errorf("too short")
	}
	e := refEmb{word: f[0]}
	for _, x := range f[1:] {
		v, err := strconv.ParseFloat(x, 64)
		if err != nil {
			return e, err
		}
		e.vec = append(e.vec, v)
	}
	return e, nil
}

func sameEmb(g embedding.Embedding, e refEmb) error {
	if g.Word != e.word || g.Dim != len(e.vec) || len(g.Vector) != len(e.vec) {
		return fmt.Errorf("%q with %d values (dimension %d), want %q with %d", g.Word, len(g.Vector), g.Dim, e.word, len(e.vec))
	}
	n := 0.0
	for j, x := range e.vec {
		if g.Vector[j] != x && !(math.IsNaN(x) && math.IsNaN(g.Vector[j])) {
			return fmt.Errorf("%q value %d is %g, want %g", e.word, j, g.Vector[j], x)
		}
		n += x * x
	}
	if !near(g.Norm, math.Sqrt(n), 1e-12, 1e-300) {
		return fmt.Errorf("%q norm is %g, want %g", e.word, g.Norm, math.Sqrt(n))
	}
	return nil
}

func runC14(c *Case, o *Outcome) {
	text := strings.Join(c.L, "")
	complete := len(c.L) // lines that are there in full
	if c.Kind == "cut" {
		k := c.I["cut"]
		if k > len(text) {
			k = len(text)
		}
		text = text[:k]
		complete = 0
		for s := 0; complete < len(c.L); complete++ {
			s += len(c.L[complete])
			if s > k {
				break
			}
		}
	}
	var want []refEmb
	for _, l := range c.L[:complete] {
		if c.Kind == "blank" && strings.TrimSpace(l) == "" {
			continue
		}
		e, err := refLine(l)
		if err != nil {
			break
		}
		want = append(want, e)
	}
	o.world(c, nil, func(w *simrt.World) {
		done := 0
		for k := 0; k < c.I["n"]; k++ {
			rd := newReader(text, c.Rd, c.Seed+uint64(k))
			simrt.Go("harness loader", func() {
				defer func() { done++ }()
				embs, err := embedding.Load(rd)
				if err != nil && len(embs) > 0 {
					o.bad("partial-load", "loading failed (%v) and still returned %d embeddings", err, len(embs))
					return
				}
				switch {
				case rd.Fired > 0:
					if err == nil {
						o.bad("error-swallowed", "the stream failed (%+v) but loading returned %d embeddings", c.Rd.Faults, len(embs))
					}
				case c.Kind == "malformed":
					if err == nil {
						o.bad("malformed-accepted", "line %d is malformed (%.60q) but loading succeeded", c.I["bad"], c.L[c.I["bad"]])
					}
				case c.Kind == "cut":
					if err != nil {
						simrt.Probe("cut-refused")
						return
					}
					simrt.Probe("cut-accepted")
					if len(embs) < complete || len(embs) > complete+1 || len(embs) > len(c.L) {
						o.bad("wrong-load", "the file was cut after %d complete lines, %d embeddings were loaded", complete, len(embs))
						return
					}
					for i := range want {
						if err := sameEmb(embs[i], want[i]); err != nil {
							o.bad("wrong-load", "cut file, complete line %d: %v", i, err)
							return
						}
					}
					if len(embs) > complete {
						if e, _ := refLine(c.L[complete]); e.word != embs[complete].Word {
							o.bad("wrong-load", "cut line: word %q, want %q", embs[complete].Word, e.word)
						}
					}
				default:
					if err != nil && c.Kind == "blank" {
						simrt.Probe("blank-refused")
						return
					}
					if err != nil {
						o.bad("error", "loading failed: %v", err)
						return
					}
					if len(embs) != len(want) {
						o.bad("wrong-load", "%d lines, %d embeddings", len(want), len(embs))
						return
					}
					for i := range want {
						if err := sameEmb(embs[i], want[i]); err != nil {
							o.bad("wrong-load", "line %d: %v", i, err)
							return
						}
					}
				}
			})
		}
		simrt.BlockUntil("loaders", func() bool { return done == c.I["n"] })
	})
}

// ---- C15 ----

func genC15(r *R, c *Case) {
	smallModel(r, c)
	c.S = map[string]string{"typ": r.S("single", "agg"), "via": r.S("pipe", "pipe", "buffer")}
	if c.I["ids"] > 0 {
		if c.S["via"] == "buffer" {
			c.Rd = Stream{Chunk: "fixed", N: r.I(512, 4096, 8191)}
		}
		return
	}
	c.Rd = genRead(r)
	if r.P(0.01) {
		c.M.Dim = r.I(6000, 7300, 8000)
		c.M.Iter = 0
		c.Words = c.Words[:min(len(c.Words), 3)]
		c.Rd = Stream{}
	}
	if r.P(0.01) && len(c.Words) > 0 {
		c.Words[r.N(len(c.Words))] = strings.Repeat("long", r.I(1000, 16384, 20000))
		c.Rd = Stream{}
	}
}

func runC15(c *Case, o *Outcome) {
	typ := c.S["typ"]
	ref := reference(c.text(), c.M.Lower, 0, -1)
	o.world(c, nil, func(w *simrt.World) {
		m := train01(c, o)
		if m == nil {
			return
		}
		var embs embedding.Embeddings
		var lerr, serr error
		if c.S["via"] == "pipe" {
			pr, pw := sio.Pipe()
			done := false
			simrt.Go("harness saver", func() {
				serr = m.Save(pw, typ)
				pw.CloseWithError(serr)
				done = true
			})
			embs, lerr = embedding.Load(pr)
			pr.Close()
			simrt.BlockUntil("saver", func() bool { return done })
		} else {
			wr := newWriter(c.Wr, c.Seed)
			serr = m.Save(wr, typ)
			embs, lerr = embedding.Load(newReader(string(wr.Got), c.Rd, c.Seed^5))
		}
		if serr != nil || lerr != nil {
			o.bad("error", "%s: saving: %v, loading: %v", c.M, serr, lerr)
			return
		}
		x := snap(m, typ)
		if len(embs) != len(ref.Words) {
			o.bad("wrong-load", "%s: %d words saved, %d loaded", c.M, len(ref.Words), len(embs))
			return
		}
		for i, e := range embs {
			if e.Word != ref.Words[i] || e.Dim != c.M.Dim || len(e.Vector) != c.M.Dim {
				o.bad("wrong-load", "%s: word %d is %q with dimension %d, want %q and %d", c.M, i, e.Word, e.Dim, ref.Words[i], c.M.Dim)
				return
			}
			n := 0.0
			for j, y := range e.Vector {
				if !sixDigits(y, x.v[i][j]) {
					o.bad("wrong-load", "%s: %q value %d is %g, the model has %g", c.M, e.Word, j, y, x.v[i][j])
					return
				}
				n += y * y
			}
			if !near(e.Norm, math.Sqrt(n), 1e-12, 1e-300) {
				o.bad("wrong-load", "%s: the norm of %q is %g, want %g", c.M, e.Word, e.Norm, math.Sqrt(n))
				return
			}
		}
		if _, err := search.New(embs...); err != nil {
			o.bad("searcher-refuses", "%s: %v", c.M, err)
		}
	})
}

// ---- C16 ----

// items are embeddings as the loader makes them.
func items(words []string, vecs [][]float64) embedding.Embeddings {
	var e embedding.Embeddings
	for i, w := range words {
		n := 0.0
		for _, x := range vecs[i] {
			n += x * x
		}
		e = append(e, embedding.Embedding{Word: w, Dim: len(vecs[i]), Vector: append([]float64(nil), vecs[i]...), Norm: math.Sqrt(n)})
	}
	return e
}

func genVec(r *R, dim int) []float64 {
	v := make([]float64, dim)
	style := r.N(10)
	for i := range v {
		switch {
		case style == 0:
		case style < 4:
			v[i] = float64(r.In(-2, 2))
		case style < 6:
			v[i] = float64(r.In(0, 1))
		default:
			v[i] = (r.F() - 0.5) * r.X(1, 1, 100, 1e-3)
		}
	}
	return v
}

// sizeOf is a number of components: small, or beyond any unrolled loop.
func sizeOf(r *R) int {
	if r.P(0.02) {
		return r.In(21, 140)
	}
	if r.P(0.1) {
		return r.In(5, 20)
	}
	return r.In(1, 4)
}

type query struct {
	Kind string    `json:"kind"` // word vector ignore
	Word string    `json:"word,omitempty"`
	K    int       `json:"k"`
	Vec  []float64 `json:"vec,omitempty"`
	Ign  []string  `json:"ign,omitempty"`
}

func genC16(r *R, c *Case) {
	n, dim := r.In(0, 12), sizeOf(r)
	if r.P(0.005) {
		n, dim = r.In(50, 300), r.In(2, 20)
		c.Sched.P = min(c.Sched.P, 0.05)
	}
	if r.P(0.0005) {
		// very many items
		n, dim = r.I(1030, 4100, 8200), r.In(2, 4)
		if r.P(0.1) {
			n = 65536 + r.In(1, 2000)
		}
		c.set("many", n)
		c.set("dim", dim)
		c.Sched.P = 0
		for g := r.I(1, 2); g > 0; g-- {
			var qs []query
			for k := r.In(1, 3); k > 0; k-- {
				q := query{Kind: r.S("word", "vector", "ignore"), K: r.I(1, 5, 10, 100, 300), Vec: genVec(r, dim)}
				if n < 5000 && r.P(0.2) {
					q.K = r.I(n, n+1)
				}
				q.Word = fmt.Sprint("w", r.I(0, n-1, r.N(n)))
				for j := r.N(4); j > 0; j-- {
					q.Ign = append(q.Ign, fmt.Sprint("w", r.I(0, n-1, r.N(n))))
				}
				qs = append(qs, q)
			}
			c.Q = append(c.Q, qs)
		}
		return
	}
	c.L = vocab(r, n)
	for range c.L {
		v := genVec(r, dim)
		if len(c.Vec) > 0 && r.P(0.15) {
			v = append([]float64(nil), c.Vec[r.N(len(c.Vec))]...) // equal items
		}
		c.Vec = append(c.Vec, v)
	}
	g := r.I(1, 2, 2, 3, 4, 6)
	for i := 0; i < g; i++ {
		var qs []query
		k := r.In(1, 4)
		if r.P(0.02) {
			k = r.In(5, 20)
		}
		for ; k > 0; k-- {
			q := query{Kind: r.S("word", "word", "vector", "ignore"), K: r.I(0, 1, 1, 2, 3, 5, 10, n, n+1, 100, -1, 1<<12, 1<<62)}
			if n > 0 {
				q.Word = c.L[r.N(n)]
			}
			if q.Word == "" || r.P(0.08) {
				q.Word = r.S("nosuchword", "Nosuch", "?")
			}
			q.Vec = genVec(r, dim)
			if q.Kind != "word" && r.P(0.03) {
				q.Vec = genVec(r, r.I(dim-1, dim+1, 2*dim, 0))
			}
			for j := r.N(4); j > 0 && n > 0; j-- {
				q.Ign = append(q.Ign, c.L[r.N(n)])
			}
			qs = append(qs, q)
		}
		c.Q = append(c.Q, qs)
	}
}

func shrinkC16(c *Case) (out []*Case) {
	if n := c.I["many"]; n > 2 {
		for _, k := range []int{n / 2, n * 3 / 4, n - 1} {
			d := c.clone()
			d.set("many", k)
			out = append(out, d)
		}
	}
	cuts(len(c.Q), func(i, j int) {
		d := c.clone()
		d.Q = without(d.Q, i, j)
		out = append(out, d)
	})
	for k := range c.Q {
		if len(c.Q[k]) > 1 {
			d := c.clone()
			d.Q[k] = d.Q[k][1:]
			out = append(out, d)
			e := c.clone()
			e.Q[k] = e.Q[k][:len(e.Q[k])-1]
			out = append(out, e)
		}
	}
	cuts(len(c.L), func(i, j int) {
		d := c.clone()
		d.L, d.Vec = without(d.L, i, j), without(d.Vec, i, j)
		out = append(out, d)
	})
	return
}

func cosine(a, b []float64) float64 {
	na, nb := math.Sqrt(dot(a, a)), math.Sqrt(dot(b, b))
	if na == 0 || nb == 0 {
		return 0
	}
	return dot(a, b) / (na * nb)
}

// checkNeighbors compares an answer with the definition.
func checkNeighbors(words []string, vecs [][]float64, q []float64, k int, ignore []string, got search.Neighbors) error {
	const tol = 1e-9
	skip := map[string]bool{}
	for _, w := range ignore {
		skip[w] = true
	}
	sim := map[string]float64{}
	var all []float64
	sure := 0
	for i, w := range words {
		if skip[w] {
			continue
		}
		s := cosine(q, vecs[i])
		sim[w] = s
		if s > -tol {
			all = append(all, s)
		}
		if s > tol {
			sure++
		}
	}
	sort.Sort(sort.Reverse(sort.Float64Slice(all)))
	if k < 0 {
		k = 0
	}
	if len(got) > k {
		return fmt.Errorf("%d neighbours, at most %d were asked for", len(got), k)
	}
	if len(got) < min(k, sure) {
		return fmt.Errorf("%d neighbours, there are %d candidates and %d were asked for", len(got), sure, k)
	}
	seen := map[string]bool{}
	for i, n := range got {
		s, ok := sim[n.Word]
		if !ok {
			return fmt.Errorf("neighbour %d is %q, which is excluded or no item", i, n.Word)
		}
		if seen[n.Word] {
			return fmt.Errorf("%q is there twice", n.Word)
		}
		seen[n.Word] = true
		if n.Rank != uint(i+1) {
			return fmt.Errorf("neighbour %d has rank %d", i, n.Rank)
		}
		if math.Abs(n.Similarity-s) > tol {
			return fmt.Errorf("the similarity of %q is %.12g, reported %.12g", n.Word, s, n.Similarity)
		}
		if i >= len(all) || math.Abs(s-all[i]) > tol {
			return fmt.Errorf("neighbour %d is %q with similarity %.12g, but there are better ones", i, n.Word, s)
		}
		if n.Similarity <= 0 {
			return fmt.Errorf("neighbour %d has similarity %g", i, n.Similarity)
		}
		if i > 0 && n.Similarity > got[i-1].Similarity {
			return fmt.Errorf("neighbour %d is better than the one before", i)
		}
	}
	return nil
}

// notIn are the words which are not excluded.
func notIn(words, not []string) (res []string) {
	for _, w := range words {
		if !slices.Contains(not, w) {
			res = append(res, w)
		}
	}
	return
}

func (q query) run(s *search.Searcher) (search.Neighbors, error) {
	switch q.Kind {
	case "word":
		return s.SearchInternal(q.Word, q.K)
	case "vector":
		return s.SearchVector(q.Vec, q.K)
	}
	n := 0.0
	for _, x := range q.Vec {
		n += x * x
	}
	return s.Search(embedding.Embedding{Vector: q.Vec, Norm: math.Sqrt(n)}, q.K, q.Ign...)
}

func runC16(c *Case, o *Outcome) {
	known := map[string]int{}
	words, vecs := c.L, c.Vec
	if n := c.I["many"]; n > 0 {
		words, vecs = distinct(n), nil
		for r := (&R{c.Seed ^ 77}); len(vecs) < n; {
			v := make([]float64, c.I["dim"])
			for j := range v {
				v[j] = r.F() - 0.5
			}
			vecs = append(vecs, v)
		}
	}
	for i, w := range words {
		known[w] = i + 1
	}
	o.world(c, nil, func(w *simrt.World) {
		s, err := search.New(items(words, vecs)...)
		if err != nil {
			o.bad("error", "the searcher refuses the items: %v", err)
			return
		}
		done := 0
		answers := make([][]search.Neighbors, len(c.Q))
		for g := range c.Q {
			g := g
			simrt.Go("harness searcher", func() {
				defer func() { done++ }()
				for _, q := range c.Q[g] {
					got, err := q.run(s)
					simrt.SP()
					answers[g] = append(answers[g], got)
					vec, ign := q.Vec, q.Ign
					if q.Kind == "word" {
						i := known[q.Word]
						if i == 0 {
							if err == nil {
								o.bad("unknown-word", "%q is unknown but the query returned %v", q.Word, got)
							}
							continue
						}
						vec, ign = vecs[i-1], []string{q.Word}
					} else if q.Kind == "vector" {
						ign = nil
					}
					if len(vecs) > 0 && len(vec) != len(vecs[0]) {
						// nothing can be near it
						if len(got) > 0 {
							o.bad("other-dimension", "the items have %d dimensions, the query %d, but it returned %v", len(vecs[0]), len(vec), got)
						} else if err == nil && q.K > 0 && len(notIn(words, ign)) > 0 {
							o.bad("other-dimension", "the items have %d dimensions, the query %d, but there is no error", len(vecs[0]), len(vec))
						}
						continue
					}
					if err != nil {
						o.bad("error", "query %+v failed: %v", q, err)
						continue
					}
					if err := checkNeighbors(words, vecs, vec, q.K, ign, got); err != nil {
						o.bad("wrong-answer", "%d goroutines, query %+v: %v", len(c.Q), q, err)
					}
				}
			})
		}
		simrt.BlockUntil("searchers", func() bool { return done == len(c.Q) })
		if o.Class != "" {
			return
		}
		// again, alone
		for g := range c.Q {
			for i, q := range c.Q[g] {
				got, _ := q.run(s)
				was := answers[g][i]
				same := len(got) == len(was)
				for j := 0; same && j < len(got); j++ {
					same = got[j] == was[j]
				}
				if !same {
					o.bad("answer-changed", "query %+v returned %v among %d goroutines and %v alone", q, was, len(c.Q), got)
					return
				}
			}
		}
		for i, e := range s.Items {
			for j := range e.Vector {
				if e.Word != words[i] || e.Vector[j] != vecs[i][j] {
					o.bad("items-changed", "queries changed item %d", i)
					return
				}
			}
		}
	})
}

var _ = vector.Single

var oddWords = []string{"I", "İ", "ß", "ẞ", "Σ", "σ", "ς", "É", "é", "É", "ǅ", "K", "\xff", "\xc3\x28", "a\u200bb", "\ufeff", "Ω", "Å", "0", "-", "AB", "ab", "Ab"}
