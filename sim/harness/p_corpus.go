//go:build !noapi_corpus

package main

import (
	"errors"
	"fmt"
	"math"
	"sort"
	"strings"

	"simrt"

	cps "github.com/ynqa/wego/pkg/corpus"
	"github.com/ynqa/wego/pkg/corpus/cooccurrence/encode"
	"github.com/ynqa/wego/pkg/corpus/fs"
	"github.com/ynqa/wego/pkg/corpus/memory"
	"github.com/ynqa/wego/pkg/util/verbose"
)

func init() {
	register(&Prop{ID: "C09", Quick: 800000,
		Rule: "A corpus in random words and separators, loaded in both storage modes by readers with random chunking, empty reads and failures; dictionary and length compared with a reference reading.",
		Gen:  genC09, Run: runC09, Shrink: shrinkCorpus})
	register(&Prop{ID: "C10", Quick: 1000000,
		Rule: "A corpus loaded with co-occurrence counting in both storage modes by readers with random chunking and failures; every entry compared with a count over all pairs of positions.",
		Gen:  genC10, Run: runC10, Shrink: shrinkCorpus})
	register(&Prop{ID: "C11", Quick: 1500000,
		Rule: "A loaded corpus streamed in batches to a consumer of random speed, with random chunking and failures of the reader; batches compared with the filtered corpus, once when received and again at the end.",
		Gen:  genC11, Run: runC11, Shrink: shrinkCorpus})
}

func shrinkCorpus(c *Case) []*Case {
	out := append(shrinkWords(c), shrinkModel(c, "win b lower minc maxc verbose")...)
	for _, k := range []string{"off", "slow", "cap"} {
		if c.I[k] > 0 {
			d := c.clone()
			d.set(k, 0)
			out = append(out, d)
		}
	}
	return out
}

func genText(r *R, c *Case, n int) {
	c.Words = corpus(r, n, r.In(1, 10))
	if r.P(0.25) {
		for i := range c.Words {
			if r.P(0.5) {
				c.Words[i] = oddWords[r.N(len(oddWords))]
			}
		}
	}
	c.Seps = r.S("", "", " \n", " \t\r\n\v\f", "\n", " \u00a0\u0085\u2003\u3000\u2028")
	c.Rd = genRead(r)
}

// wide makes a long corpus of many distinct words.
func (c *Case) wide(r *R, n int) {
	c.Words = corpus(r, n, r.I(5, 50, 300, n))
	c.Rd.Chunk, c.Rd.N, c.Rd.Delay, c.Rd.Empty = r.S("", "fixed", "rand"), r.I(64, 512, 1000), 0, 0
	if c.Sched.P > 0.05 {
		c.Sched.P = 0.05
	}
}

func genC09(r *R, c *Case) {
	n := r.I(0, 1, 2, 3, 5, 8, 13, 30)
	if r.P(0.5) {
		n = r.In(1, 60)
	}
	if r.P(0.004) {
		n = r.In(300, 3000)
	}
	genText(r, c, n)
	if n > 100 {
		c.wide(r, n)
	}
	if r.P(0.01) {
		n := r.I(4095, 4096, 4097, 65535, 65536, 65537, 70000, 140000)
		if r.P(0.05) {
			n = 1<<20 + r.I(-1, 1, 1<<19)
		}
		c.Words = append(c.Words, strings.Repeat("x", n)+"y", "z")
		c.Rd.Chunk, c.Rd.N, c.Rd.Empty, c.Rd.Delay = r.S("", "fixed"), r.I(1024, 4096, 10000), 0, 0
	}
	if r.P(0.0003) {
		// counts of more than sixteen bits
		c.Words, c.Seps, c.Rd = corpus(r, r.I(70000, 140000), r.In(1, 2)), "", Stream{}
		c.Sched.P = 0
	} else if r.P(0.0004) {
		wideWords(r, c)
		c.Sched.P = min(c.Sched.P, 0.01)
	}
	if r.P(0.1) {
		// around the size of the read buffer
		pad := 4096 - len(c.text())%4096 + r.In(-3, 3)
		if pad > 0 {
			c.Words = append(c.Words, strings.Repeat("p", pad))
			c.Words = append(c.Words, corpus(r, 5, 3)...)
		}
		c.Rd.Chunk = r.S("", "fixed")
		c.Rd.N = r.I(512, 4096)
		c.Rd.Delay = 0
	}
	c.M = defaults("skipgram")
	c.M.Lower = r.P(0.4)
	c.M.MinC, c.M.MaxC = r.I(0, 0, 2), r.I(-1, -1, 0, 3)
	c.M.Verbose = r.P(0.1)
	c.M.LogB = r.I(1, 3, 100)
	if r.P(0.2) {
		c.set("off", r.N(len(c.text())+1))
	}
	genReadFault(r, c, 1)
}

// genReadFault places a failure in one of the passes, now and then.
func genReadFault(r *R, c *Case, passes int) {
	if !r.P(0.3) {
		return
	}
	n := len(c.text())
	f := Fault{Pass: r.In(1, passes), At: r.N(n + 1), Kind: r.S("read", "read", "data", "seek"), Times: r.I(0, 0, 1), Err: readErr(r)}
	if r.P(0.3) {
		f.At = r.I(0, n, n/2)
	}
	if f.Kind == "seek" {
		f.Pass, f.At = 0, r.In(1, passes)
	}
	c.Rd.Faults = []Fault{f}
}

func (c *Case) corpus(mem bool, salt uint64) (cps.Corpus, *SimReader) {
	rd := newReader(c.text(), c.Rd, c.Seed^salt)
	rd.pos = c.I["off"]
	if rd.pos > len(rd.data) {
		rd.pos = 0
	}
	if mem {
		return memory.New(rd, c.M.Lower, c.M.MaxC, c.M.MinC), rd
	}
	return fs.New(rd, c.M.Lower, c.M.MaxC, c.M.MinC), rd
}

func mode(mem bool) string {
	if mem {
		return "in memory"
	}
	return "streamed"
}

// checkDictionary compares with the reference.
func checkDictionary(o *Outcome, mem bool, cp cps.Corpus, ref *Ref) bool {
	d := cp.Dictionary()
	if cp.Len() != len(ref.All) {
		o.bad("wrong-length", "%s: the corpus has %d words, %d were counted", mode(mem), len(ref.All), cp.Len())
		return false
	}
	if d.Len() != len(ref.Words) {
		o.bad("wrong-vocabulary", "%s: the corpus has %d distinct words, the dictionary %d", mode(mem), len(ref.Words), d.Len())
		return false
	}
	for i, w := range ref.Words {
		got, ok := d.Word(i)
		id, ok2 := d.ID(w)
		if !ok || !ok2 || got != w || id != i {
			o.bad("wrong-vocabulary", "%s: word %d must be %q, the dictionary has %q there and number %d (%v) for it", mode(mem), i, w, got, id, ok2)
			return false
		}
		if d.IDFreq(i) != ref.Freq[i] || d.WordFreq(w) != ref.Freq[i] {
			o.bad("wrong-count", "%s: %q occurs %d times, counted %d (%d)", mode(mem), w, ref.Freq[i], d.IDFreq(i), d.WordFreq(w))
			return false
		}
	}
	// numbers and words which there are not
	for _, i := range []int{len(ref.Words), len(ref.Words) + 1, 1 << 30, -1, math.MinInt} {
		if w, ok := d.Word(i); ok || d.IDFreq(i) != 0 {
			o.bad("wrong-vocabulary", "%s: of %d words, word %d is %q (%v) with count %d", mode(mem), len(ref.Words), i, w, ok, d.IDFreq(i))
			return false
		}
	}
	for _, w := range []string{"", "no word"} {
		if i, ok := d.ID(w); ok || d.WordFreq(w) != 0 {
			o.bad("wrong-vocabulary", "%s: %q does not occur but has number %d and count %d", mode(mem), w, i, d.WordFreq(w))
			return false
		}
	}
	return true
}

func runC09(c *Case, o *Outcome) {
	ref := reference(c.text(), c.M.Lower, c.M.MinC, c.M.MaxC)
	o.world(c, nil, func(w *simrt.World) {
		done := 0
		for k := 0; k < 2; k++ {
			mem := k == 1
			simrt.Go("harness loader", func() {
				defer func() { done++ }()
				cp, rd := c.corpus(mem, uint64(k))
				err := cp.Load(nil, verbose.New(c.M.Verbose), c.M.LogB)
				if rd.Fired > 0 {
					if err == nil {
						o.bad("error-swallowed", "%s: the reader failed (%+v) but loading succeeded", mode(mem), c.Rd.Faults)
					}
					return
				}
				if err != nil {
					o.bad("error", "%s: loading failed: %v", mode(mem), err)
					return
				}
				if checkDictionary(o, mem, cp, ref) && mem {
					sameDoc(o, cp.IndexedDoc(), ref)
				}
			})
		}
		simrt.BlockUntil("loaders", func() bool { return done == 2 })
	})
}

func sameDoc(o *Outcome, doc []int, ref *Ref) {
	if len(doc) != len(ref.Doc) {
		o.bad("wrong-document", "the filtered corpus has %d words, want %d", len(doc), len(ref.Doc))
		return
	}
	for i := range doc {
		if doc[i] != ref.Doc[i] {
			o.bad("wrong-document", "the filtered corpus has word %d at %d, want %d", doc[i], i, ref.Doc[i])
			return
		}
	}
}

func genC10(r *R, c *Case) {
	n := r.I(0, 1, 2, 3, 4, 5, 8)
	if r.P(0.6) {
		n = r.In(1, 30)
	}
	if r.P(0.004) {
		n = r.In(100, 600)
	}
	genText(r, c, n)
	if n > 90 {
		c.wide(r, n)
	}
	if r.P(0.0003) {
		// counts of more than sixteen bits
		c.Words, c.Seps, c.Rd = corpus(r, 2200, r.In(1, 2)), "", Stream{}
		c.Sched.P = 0
	}
	if r.P(0.0002) {
		wideWords(r, c)
		c.Sched.P = 0
	}
	big := r.P(0.00001)
	if big {
		// word numbers of more than sixteen bits
		c.Words, c.Seps, c.Rd = corpus(r, 30, 10), "", Stream{}
		c.set("ids", 65536+r.In(0, 2000))
		c.Sched.P = 0
	}
	c.M = defaults("glove")
	c.M.Lower = r.P(0.4)
	c.M.Win = r.I(1, 1, 2, 3, 4, 5, 10, 40)
	if len(c.Words) <= 60 && r.P(0.03) {
		// wider than any corpus
		c.M.Win = r.I(1<<20, 1<<31, 1<<40, math.MaxInt/2+1, math.MaxInt)
	}
	if len(c.Words) == 2200 {
		c.M.Win = 40
	}
	if big || c.I["ids"] > 0 {
		c.M.Win = r.I(1, 1, 2)
	}
	if c.Idx == 20021 {
		// word numbers of more than twenty-one bits, once
		c.set("ids", 1<<21+100)
		c.Words, c.Seps, c.Rd, c.M.Win = corpus(r, 30, 10), "", Stream{}, 1
		c.Sched.P = 0
	}
	c.M.Cnt = r.S("inc", "prox")
	c.M.MinC, c.M.MaxC = r.I(0, 0, 2), r.I(-1, -1, 0, 3)
	c.M.Verbose = r.P(0.1)
	c.M.LogB = r.I(1, 3, 100)
	if c.I["ids"] > 0 {
		c.M.LogB = 100000
	}
	genReadFault(r, c, 2)
}

func runC10(c *Case, o *Outcome) {
	ref := reference(c.text(), c.M.Lower, c.M.MinC, c.M.MaxC)
	want := cooc(ref.All, c.M.Win, c.M.Cnt == "prox")
	o.world(c, nil, func(w *simrt.World) {
		done := 0
		for k := 0; k < 2; k++ {
			mem := k == 1
			if k != c.Idx%2 && c.I["ids"] > 1<<20 {
				done++ // one mode is enough, and takes long enough
				continue
			}
			simrt.Go("harness loader", func() {
				defer func() { done++ }()
				cp, rd := c.corpus(mem, uint64(k))
				err := cp.Load(&cps.WithCooccurrence{CountType: c.M.Cnt, Window: c.M.Win}, verbose.New(c.M.Verbose), c.M.LogB)
				if rd.Fired > 0 {
					if err == nil {
						o.bad("error-swallowed", "%s: the reader failed (%+v) but loading succeeded", mode(mem), c.Rd.Faults)
					}
					return
				}
				if err != nil {
					o.bad("error", "%s: loading failed: %v", mode(mem), err)
					return
				}
				if !checkDictionary(o, mem, cp, ref) {
					return
				}
				got := map[pair]float64{}
				for e, x := range cp.Cooccurrence().EncodedMatrix() {
					a, b := encode.DecodeBigram(e)
					p := mkpair(int(a), int(b))
					if y, ok := got[p]; ok {
						o.bad("split-count", "%s: the pair of words %d and %d has two entries, %.12g and %.12g", mode(mem), a, b, x, y)
						return
					}
					got[p] = x
				}
				comparePairs(o, mem, c.M, ref, got, want)
			})
		}
		simrt.BlockUntil("loaders", func() bool { return done == 2 })
	})
}

func comparePairs(o *Outcome, mem bool, mo MO, ref *Ref, got, want map[pair]float64) {
	keys := map[pair]bool{}
	for p := range got {
		keys[p] = true
	}
	for p := range want {
		keys[p] = true
	}
	var ks []pair
	for p := range keys {
		if math.Abs(got[p]-want[p]) > 1e-9*(1+want[p]) {
			ks = append(ks, p)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].a < ks[j].a || ks[i].a == ks[j].a && ks[i].b < ks[j].b })
	for _, p := range ks {
		n := func(i int) string {
			if i < len(ref.Words) {
				return fmt.Sprintf("%q", ref.Words[i])
			}
			return fmt.Sprint("number ", i)
		}
		o.bad("wrong-cooccurrence", "%s, %s, window %d: %s and %s: %.12g, want %.12g", mode(mem), mo.Cnt, mo.Win, n(p.a), n(p.b), got[p], want[p])
		return
	}
}

func genC11(r *R, c *Case) {
	n := r.I(0, 1, 2, 3, 5, 8)
	if r.P(0.7) {
		n = r.In(1, 60)
	}
	if r.P(0.004) {
		n = r.In(300, 2000)
	}
	genText(r, c, n)
	if n > 100 {
		c.wide(r, n)
	}
	c.M = defaults("skipgram")
	c.M.Lower = r.P(0.3)
	c.M.MinC, c.M.MaxC = r.I(0, 0, 1, 2, 3), r.I(-1, -1, 0, 2, 3, 5)
	if r.P(0.04) {
		c.M.MinC, c.M.MaxC = r.I(0, 4, 5, 6, 8, 10, 12), r.I(-1, -1, 7, 8, 10, 12, 16)
		c.Words = corpus(r, r.In(40, 200), r.In(2, 20))
	}
	c.M.B = r.I(1, 1, 2, 3, 5, 7, 16, 100, 10000)
	if r.P(0.0005) {
		wideWords(r, c)
		c.M.B = r.I(7, 1000, 4096, 65536, 100000)
		c.M.MinC, c.M.MaxC = r.I(0, 0, 2), -1
		c.Sched.P = min(c.Sched.P, 0.01)
	}
	if r.P(0.3) {
		// exactly full batches
		if k := len(reference(c.text(), c.M.Lower, c.M.MinC, c.M.MaxC).Doc); k > 0 {
			c.M.B = r.I(k, k+1, (k+1)/2, k-1)
			if c.M.B < 1 {
				c.M.B = 1
			}
		}
	}
	c.set("cap", r.I(0, 1, 2, 5))
	c.set("slow", r.I(0, 0, 1, 100, 5000, 5000000, 3600000000))
	c.set("twice", r.I(0, 0, 1))
	if r.P(0.15) && len(c.Words) < 1000 {
		c.set("held", r.In(1, 3))
	}
	if r.P(0.2) {
		c.set("off", r.N(len(c.text())+1))
	}
	genReadFault(r, c, 3)
	for i := range c.Rd.Faults {
		if c.Rd.Faults[i].Pass == 1 {
			c.Rd.Faults[i].Pass = 2
		}
		if f := &c.Rd.Faults[i]; f.Kind == "seek" && f.At == 1 {
			f.At = 2
		}
	}
}

// heldC11 asks a corpus held in memory for its words several times.
func (c *Case) heldC11(o *Outcome, ref *Ref) bool {
	cp, rd := c.corpus(true, 1)
	if err := cp.Load(nil, verbose.New(false), 100); err != nil || rd.Fired > 0 {
		return true // C03, C09
	}
	var before [][]int
	for k := 0; k <= c.I["held"]; k++ {
		before = append(before, cp.IndexedDoc())
		for i, got := range before {
			same := len(got) == len(ref.Doc)
			for j := range got {
				same = same && got[j] == ref.Doc[j]
			}
			if !same {
				o.bad("wrong-stream", "the words of the corpus held in memory, asked for the %d. of %d times, are %v; the corpus has %v", i+1, k+1, got, ref.Doc)
				return false
			}
		}
	}
	return true
}

func runC11(c *Case, o *Outcome) {
	ref := reference(c.text(), c.M.Lower, c.M.MinC, c.M.MaxC)
	o.world(c, nil, func(w *simrt.World) {
		cp, rd := c.corpus(false, 0)
		if err := cp.Load(nil, verbose.New(false), 100); err != nil {
			o.bad("error", "loading failed: %v", err)
			return
		}
		if c.I["held"] > 0 && !c.heldC11(o, ref) {
			return
		}
		r := &R{c.Seed ^ 0x1234}
		for pass := 0; pass <= c.I["twice"]; pass++ {
			fired := rd.Fired
			ch := simrt.MakeChan(make(chan []int, c.I["cap"]))
			var err error
			returned := false
			simrt.Go("harness streamer", func() {
				err = cp.BatchWords(ch, c.M.B)
				returned = true
			})
			var kept, copies [][]int
			var all []int
			for {
				if s := c.I["slow"]; s > 0 && r.P(0.5) {
					simrt.SleepFor(int64(1+r.N(s)) * 1000)
				}
				b, ok := simrt.Recv2(ch)
				if !ok {
					break
				}
				if len(b) > c.M.B {
					o.bad("batch-too-large", "a batch of %d words, at most %d were requested", len(b), c.M.B)
					return
				}
				kept = append(kept, b)
				copies = append(copies, append([]int(nil), b...))
				all = append(all, b...)
			}
			simrt.BlockUntil("streamer", func() bool { return returned })
			for i := range kept {
				for j := range copies[i] {
					if len(kept[i]) != len(copies[i]) || kept[i][j] != copies[i][j] {
						o.bad("batch-changed", "batch %d was %v when it was received, later %v", i, copies[i], kept[i])
						return
					}
				}
			}
			failed := rd.Fired > fired
			for i := range all {
				if i >= len(ref.Doc) || all[i] != ref.Doc[i] {
					o.bad("wrong-stream", "batch size %d: word %d of the stream is %d; the stream is %v, the corpus %v", c.M.B, i, all[i], all, ref.Doc)
					return
				}
			}
			if failed {
				if err == nil {
					o.bad("error-swallowed", "the reader failed (%+v) but streaming returned no error", c.Rd.Faults)
				} else if !errors.Is(err, ErrInjected) {
					simrt.Probe("error-other-than-injected")
				}
				return
			}
			if err != nil {
				o.bad("error", "streaming failed: %v", err)
				return
			}
			if len(all) != len(ref.Doc) {
				o.bad("lost-words", "batch size %d: the stream ended after %d of %d words", c.M.B, len(all), len(ref.Doc))
				return
			}
		}
		if len(w.Drain(10000)) > 0 {
			o.bad("leak", "goroutines are left after streaming")
		}
	})
}
