//go:build !noapi_opts

package main

import (
	"bytes"
	"fmt"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"simrt"

	"github.com/ynqa/wego/pkg/model"
	"github.com/ynqa/wego/pkg/model/glove"
	"github.com/ynqa/wego/pkg/model/lexvec"
	"github.com/ynqa/wego/pkg/model/modelutil/vector"
	"github.com/ynqa/wego/pkg/model/word2vec"
)

func init() {
	register(&Prop{ID: "C26", Quick: 40000,
		Rule: "The same training started three ways (command line flags on a simulated file system, the options structure, functional options) with a random subset of the settings given, in random order and sometimes twice, and the others left at their defaults, from the same random numbers and under the same schedule; the saved vectors and the progress reports must be identical. The default values the command's help shows are compared with those of the library.",
		Real: "the command line is real (cobra); the file system is simulated",
		Gen:  genC26, Run: runC26, Shrink: shrinkTraining})
}

// setting is one training setting and the ways to give it.
type setting[O any, F any] struct {
	flag   string
	short  string
	val    string // as a flag value; "true" for switches
	wrong  string // another value
	put    func(p *O)
	opt    F
	optBad F // functional option with the other value
	def    func(p *O) any
}

func ftoa(x float64) string { return strconv.FormatFloat(x, 'g', -1, 64) }

type w2vSet = setting[word2vec.Options, word2vec.ModelOption]
type lexSet = setting[lexvec.Options, lexvec.ModelOption]
type gloSet = setting[glove.Options, glove.ModelOption]

func (m MO) w2vSettings() []w2vSet {
	type O = word2vec.Options
	i, f, s := strconv.Itoa, ftoa, func(s string) string { return s }
	return []w2vSet{
		{"batch", "", i(m.B), "3", func(p *O) { p.BatchSize = m.B }, word2vec.BatchSize(m.B), word2vec.BatchSize(3), func(p *O) any { return p.BatchSize }},
		{"dim", "d", i(m.Dim), "6", func(p *O) { p.Dim = m.Dim }, word2vec.Dim(m.Dim), word2vec.Dim(6), func(p *O) any { return p.Dim }},
		{"goroutines", "", i(m.G), "3", func(p *O) { p.Goroutines = m.G }, word2vec.Goroutines(m.G), word2vec.Goroutines(3), func(p *O) any { return p.Goroutines }},
		{"in-memory", "", "true", "", func(p *O) { p.DocInMemory = true }, word2vec.DocInMemory(), nil, func(p *O) any { return p.DocInMemory }},
		{"initlr", "", f(m.Lr), "0.3", func(p *O) { p.Initlr = m.Lr }, word2vec.Initlr(m.Lr), word2vec.Initlr(0.3), func(p *O) any { return p.Initlr }},
		{"iter", "", i(m.Iter), "4", func(p *O) { p.Iter = m.Iter }, word2vec.Iter(m.Iter), word2vec.Iter(4), func(p *O) any { return p.Iter }},
		{"log-batch", "", i(m.LogB), "6", func(p *O) { p.LogBatch = m.LogB }, word2vec.LogBatch(m.LogB), word2vec.LogBatch(6), func(p *O) any { return p.LogBatch }},
		{"max-count", "", i(m.MaxC), "4", func(p *O) { p.MaxCount = m.MaxC }, word2vec.MaxCount(m.MaxC), word2vec.MaxCount(4), func(p *O) any { return p.MaxCount }},
		{"max-depth", "", i(m.Depth), "2", func(p *O) { p.MaxDepth = m.Depth }, word2vec.MaxDepth(m.Depth), word2vec.MaxDepth(2), func(p *O) any { return p.MaxDepth }},
		{"min-count", "", i(m.MinC), "4", func(p *O) { p.MinCount = m.MinC }, word2vec.MinCount(m.MinC), word2vec.MinCount(4), func(p *O) any { return p.MinCount }},
		{"min-lr", "", f(m.MinLR), "0.02", func(p *O) { p.MinLR = m.MinLR }, word2vec.MinLR(m.MinLR), word2vec.MinLR(0.02), func(p *O) any { return p.MinLR }},
		{"model", "", s(m.Model), "cbow", func(p *O) { p.ModelType = m.Model }, word2vec.Model(m.Model), word2vec.Model("cbow"), func(p *O) any { return p.ModelType }},
		{"sample", "", i(m.Neg), "4", func(p *O) { p.NegativeSampleSize = m.Neg }, word2vec.NegativeSampleSize(m.Neg), word2vec.NegativeSampleSize(4), func(p *O) any { return p.NegativeSampleSize }},
		{"optimizer", "", s(m.Opt), "hs", func(p *O) { p.OptimizerType = m.Opt }, word2vec.Optimizer(m.Opt), word2vec.Optimizer("hs"), func(p *O) any { return p.OptimizerType }},
		{"threshold", "", f(m.Sub), "0.2", func(p *O) { p.SubsampleThreshold = m.Sub }, word2vec.SubsampleThreshold(m.Sub), word2vec.SubsampleThreshold(0.2), func(p *O) any { return p.SubsampleThreshold }},
		{"to-lower", "", "true", "", func(p *O) { p.ToLower = true }, word2vec.ToLower(), nil, func(p *O) any { return p.ToLower }},
		{"update-lr-batch", "", i(m.UpdLR), "4", func(p *O) { p.UpdateLRBatch = m.UpdLR }, word2vec.UpdateLRBatch(m.UpdLR), word2vec.UpdateLRBatch(4), func(p *O) any { return p.UpdateLRBatch }},
		{"verbose", "", "true", "", func(p *O) { p.Verbose = true }, word2vec.Verbose(), nil, func(p *O) any { return p.Verbose }},
		{"window", "w", i(m.Win), "4", func(p *O) { p.Window = m.Win }, word2vec.Window(m.Win), word2vec.Window(4), func(p *O) any { return p.Window }},
	}
}

func (m MO) lexSettings() []lexSet {
	type O = lexvec.Options
	i, f, s := strconv.Itoa, ftoa, func(s string) string { return s }
	return []lexSet{
		{"batch", "", i(m.B), "3", func(p *O) { p.BatchSize = m.B }, lexvec.BatchSize(m.B), lexvec.BatchSize(3), func(p *O) any { return p.BatchSize }},
		{"dim", "d", i(m.Dim), "6", func(p *O) { p.Dim = m.Dim }, lexvec.Dim(m.Dim), lexvec.Dim(6), func(p *O) any { return p.Dim }},
		{"goroutines", "", i(m.G), "3", func(p *O) { p.Goroutines = m.G }, lexvec.Goroutines(m.G), lexvec.Goroutines(3), func(p *O) any { return p.Goroutines }},
		{"in-memory", "", "true", "", func(p *O) { p.DocInMemory = true }, lexvec.DocInMemory(), nil, func(p *O) any { return p.DocInMemory }},
		{"initlr", "", f(m.Lr), "0.003", func(p *O) { p.Initlr = m.Lr }, lexvec.Initlr(m.Lr), lexvec.Initlr(0.003), func(p *O) any { return p.Initlr }},
		{"iter", "", i(m.Iter), "4", func(p *O) { p.Iter = m.Iter }, lexvec.Iter(m.Iter), lexvec.Iter(4), func(p *O) any { return p.Iter }},
		{"log-batch", "", i(m.LogB), "6", func(p *O) { p.LogBatch = m.LogB }, lexvec.LogBatch(m.LogB), lexvec.LogBatch(6), func(p *O) any { return p.LogBatch }},
		{"max-count", "", i(m.MaxC), "4", func(p *O) { p.MaxCount = m.MaxC }, lexvec.MaxCount(m.MaxC), lexvec.MaxCount(4), func(p *O) any { return p.MaxCount }},
		{"min-count", "", i(m.MinC), "4", func(p *O) { p.MinCount = m.MinC }, lexvec.MinCount(m.MinC), lexvec.MinCount(4), func(p *O) any { return p.MinCount }},
		{"min-lr", "", f(m.MinLR), "0.02", func(p *O) { p.MinLR = m.MinLR }, lexvec.MinLR(m.MinLR), lexvec.MinLR(0.02), func(p *O) any { return p.MinLR }},
		{"sample", "", i(m.Neg), "4", func(p *O) { p.NegativeSampleSize = m.Neg }, lexvec.NegativeSampleSize(m.Neg), lexvec.NegativeSampleSize(4), func(p *O) any { return p.NegativeSampleSize }},
		{"rel", "", s(m.Rel), "logco", func(p *O) { p.RelationType = m.Rel }, lexvec.Relation(m.Rel), lexvec.Relation("logco"), func(p *O) any { return p.RelationType }},
		{"smooth", "", f(m.Smooth), "0.4", func(p *O) { p.Smooth = m.Smooth }, lexvec.Smooth(m.Smooth), lexvec.Smooth(0.4), func(p *O) any { return p.Smooth }},
		{"threshold", "", f(m.Sub), "0.2", func(p *O) { p.SubsampleThreshold = m.Sub }, lexvec.SubsampleThreshold(m.Sub), lexvec.SubsampleThreshold(0.2), func(p *O) any { return p.SubsampleThreshold }},
		{"to-lower", "", "true", "", func(p *O) { p.ToLower = true }, lexvec.ToLower(), nil, func(p *O) any { return p.ToLower }},
		{"update-lr-batch", "", i(m.UpdLR), "4", func(p *O) { p.UpdateLRBatch = m.UpdLR }, lexvec.UpdateLRBatch(m.UpdLR), lexvec.UpdateLRBatch(4), func(p *O) any { return p.UpdateLRBatch }},
		{"verbose", "", "true", "", func(p *O) { p.Verbose = true }, lexvec.Verbose(), nil, func(p *O) any { return p.Verbose }},
		{"window", "w", i(m.Win), "4", func(p *O) { p.Window = m.Win }, lexvec.Window(m.Win), lexvec.Window(4), func(p *O) any { return p.Window }},
	}
}

func (m MO) gloSettings() []gloSet {
	type O = glove.Options
	i, f, s := strconv.Itoa, ftoa, func(s string) string { return s }
	// there are no functional options for these
	logb := func(n int) glove.ModelOption { return func(p *O) { p.LogBatch = n } }
	cnt := func(t string) glove.ModelOption { return func(p *O) { p.CountType = t } }
	return []gloSet{
		{"alpha", "", f(m.Alpha), "0.6", func(p *O) { p.Alpha = m.Alpha }, glove.Alpha(m.Alpha), glove.Alpha(0.6), func(p *O) any { return p.Alpha }},
		{"batch", "", i(m.B), "3", func(p *O) { p.BatchSize = m.B }, glove.BatchSize(m.B), glove.BatchSize(3), func(p *O) any { return p.BatchSize }},
		{"cnt", "", s(m.Cnt), "prox", func(p *O) { p.CountType = m.Cnt }, cnt(m.Cnt), cnt("prox"), func(p *O) any { return p.CountType }},
		{"dim", "d", i(m.Dim), "6", func(p *O) { p.Dim = m.Dim }, glove.Dim(m.Dim), glove.Dim(6), func(p *O) any { return p.Dim }},
		{"goroutines", "", i(m.G), "3", func(p *O) { p.Goroutines = m.G }, glove.Goroutines(m.G), glove.Goroutines(3), func(p *O) any { return p.Goroutines }},
		{"in-memory", "", "true", "", func(p *O) { p.DocInMemory = true }, glove.DocInMemory(), nil, func(p *O) any { return p.DocInMemory }},
		{"initlr", "", f(m.Lr), "0.3", func(p *O) { p.Initlr = m.Lr }, glove.Initlr(m.Lr), glove.Initlr(0.3), func(p *O) any { return p.Initlr }},
		{"iter", "", i(m.Iter), "4", func(p *O) { p.Iter = m.Iter }, glove.Iter(m.Iter), glove.Iter(4), func(p *O) any { return p.Iter }},
		{"log-batch", "", i(m.LogB), "6", func(p *O) { p.LogBatch = m.LogB }, logb(m.LogB), logb(6), func(p *O) any { return p.LogBatch }},
		{"max-count", "", i(m.MaxC), "4", func(p *O) { p.MaxCount = m.MaxC }, glove.MaxCount(m.MaxC), glove.MaxCount(4), func(p *O) any { return p.MaxCount }},
		{"min-count", "", i(m.MinC), "4", func(p *O) { p.MinCount = m.MinC }, glove.MinCount(m.MinC), glove.MinCount(4), func(p *O) any { return p.MinCount }},
		{"solver", "", s(m.Solver), "adagrad", func(p *O) { p.SolverType = m.Solver }, glove.Solver(m.Solver), glove.Solver("adagrad"), func(p *O) any { return p.SolverType }},
		{"threshold", "", f(m.Sub), "0.2", func(p *O) { p.SubsampleThreshold = m.Sub }, glove.SubsampleThreshold(m.Sub), glove.SubsampleThreshold(0.2), func(p *O) any { return p.SubsampleThreshold }},
		{"to-lower", "", "true", "", func(p *O) { p.ToLower = true }, glove.ToLower(), nil, func(p *O) any { return p.ToLower }},
		{"verbose", "", "true", "", func(p *O) { p.Verbose = true }, glove.Verbose(), nil, func(p *O) any { return p.Verbose }},
		{"window", "w", i(m.Win), "4", func(p *O) { p.Window = m.Win }, glove.Window(m.Win), glove.Window(4), func(p *O) any { return p.Window }},
		{"xmax", "", i(m.Xmax), "4", func(p *O) { p.Xmax = m.Xmax }, glove.Xmax(m.Xmax), glove.Xmax(4), func(p *O) any { return p.Xmax }},
	}
}

func (m MO) settingNames() (out []string) {
	switch m.Model {
	case "glove":
		for _, s := range m.gloSettings() {
			out = append(out, s.flag)
		}
	case "lexvec":
		for _, s := range m.lexSettings() {
			out = append(out, s.flag)
		}
	default:
		for _, s := range m.w2vSettings() {
			out = append(out, s.flag)
		}
	}
	return
}

func genC26(r *R, c *Case) {
	c.M = genModel(r)
	if r.P(0.003) {
		c.Kind = "help"
		return
	}
	m := &c.M
	m.Verbose, m.Lower, m.Mem = true, true, true // when given
	m.Xmax = r.I(1, 2, 10, 50)
	m.Alpha = r.X(0.5, 1, 0.9)
	m.Smooth = r.X(0.5, 1, 0.9, 0)
	if m.Model == "lexvec" {
		m.Lr = r.X(0.01, 0.001)
	}
	p := r.X(0.2, 0.5, 0.8, 1)
	given := map[string]bool{}
	for _, n := range m.settingNames() {
		given[n] = r.P(p)
	}
	if m.isW2V() && m.Model == "skipgram" && r.P(0.9) {
		given["model"] = true
	}
	if r.P(0.7) {
		// most words are rarer than the default limit
		given["min-count"] = true
	}
	if !given["in-memory"] && m.Model != "glove" {
		// what is trained must not depend on when something is read
		given["goroutines"] = true
		m.G = 1
		m.UpdLR = 1 << 30
	}
	for _, n := range m.settingNames() {
		if !given[n] {
			continue
		}
		c.L = append(c.L, n)
		if r.P(0.1) && n != "goroutines" && n != "update-lr-batch" && n != "in-memory" {
			c.L = append(c.L, n+"!") // first with another value
		}
	}
	for i := range c.L {
		j := r.N(i + 1)
		c.L[i], c.L[j] = c.L[j], c.L[i]
	}
	// the other value comes first
	at := map[string]int{}
	for i, n := range c.L {
		at[n] = i
	}
	for i, n := range c.L {
		if strings.HasSuffix(n, "!") {
			if j := at[n[:len(n)-1]]; j < i {
				c.L[i], c.L[j] = c.L[j], c.L[i]
			}
		}
	}
	n := r.In(8, 45)
	v := r.In(1, 8)
	if r.P(0.05) {
		n = r.I(0, 1, 2)
	}
	c.Words = corpus(r, n, v)
	stretch(r, c, "words dim")
	for i, w := range c.Words {
		if len(w) > 100 {
			c.Words[i] = w[:50]
		}
	}
	if r.P(0.3) {
		// the same words in other cases
		for i, w := range c.Words {
			if r.P(0.5) {
				c.Words[i] = strings.ToUpper(w)
			}
		}
	}
	c.S = map[string]string{"typ": r.S("", "single", "agg")}
	c.FSI = map[string]int{"chunk": r.I(0, 0, 1, -20, 16)}
}

// way is what one way of training gave.
type way struct {
	err  string
	text string
	said []string
}

var saidForm = regexp.MustCompile(`(?:trained|read|build|saved)\s+\d+\s+\w+`)

func (c *Case) ways(flags []string, byStruct, byOpts func() (model.Model, error), bystander func(), o *Outcome) (out []way) {
	name := c.M.Model
	if c.M.isW2V() {
		name = "word2vec"
	}
	typ := vector.Type(vector.Single)
	args := []string{"wego", name, "--input", "in.txt"}
	if c.Seed%2 == 0 {
		args = []string{"wego", name, "-i", "in.txt"}
	}
	tail := []string{"-o", "out/v.txt"}
	if c.Seed%3 == 0 {
		tail = []string{"--output=out/v.txt"}
	}
	if c.S["typ"] != "" {
		typ = vector.Type(c.S["typ"])
		tail = append(tail, "--vec-type", c.S["typ"])
	}
	args = append(append(args, flags...), tail...)
	for i, make := range []func() (model.Model, error){nil, byStruct, byOpts} {
		w := simrt.NewWorld(simrt.Sched{Policy: "fifo"}, c.Seed)
		w.Limit, w.TickL = 4000000, 200000000
		w.FixMaps = true
		f := newFS(c)
		w.FS = f
		f.Put("in.txt", []byte(c.text()))
		var g way
		w.Run(func() {
			if make == nil {
				cli(w, args)
				return
			}
			var b bytes.Buffer
			// another model with other settings, made before or after
			if c.Seed%7 < 2 {
				bystander()
			}
			m, err := make()
			if c.Seed%5 < 2 {
				bystander()
			}
			if err == nil {
				err = m.Train(newReader(c.text(), Stream{}, 0))
			}
			if err == nil {
				err = m.Save(&b, typ)
			}
			if err != nil {
				g.err = err.Error()
			}
			g.text = b.String()
		})
		o.merge(w, i == 0)
		if w.Fail != nil {
			o.bad(w.Fail.Kind, "%s: %s", []string{"command line", "options structure", "functional options"}[i], w.Fail.Msg)
			return nil
		}
		if make == nil {
			if w.Exited && w.ExitCode != 0 {
				g.err = fmt.Sprint("exit status ", w.ExitCode)
			}
			b, _ := f.Get("out/v.txt")
			g.text = string(b)
		}
		g.said = saidForm.FindAllString(output(w), -1)
		out = append(out, g)
	}
	return
}

func runC26(c *Case, o *Outcome) {
	if c.Kind == "help" {
		c.helpC26(o)
		return
	}
	var flags []string
	flag := func(n, short, val string) {
		dash := "--" + n
		if short != "" && c.Seed%2 == 1 {
			dash = "-" + short
		}
		switch {
		case val == "true" && c.Seed%3 == 1 && short == "":
			flags = append(flags, dash+"=true")
		case val == "true":
			flags = append(flags, dash)
		case c.Seed%5 == 0:
			flags = append(flags, dash+"="+val)
		default:
			flags = append(flags, dash, val)
		}
	}
	var st, fn func() (model.Model, error)
	var by func()
	switch c.M.Model {
	case "glove":
		st, fn, by = collect(c, c.M.gloSettings(), glove.DefaultOptions(), flag, glove.NewForOptions, glove.New)
	case "lexvec":
		st, fn, by = collect(c, c.M.lexSettings(), lexvec.DefaultOptions(), flag, lexvec.NewForOptions, lexvec.New)
	default:
		st, fn, by = collect(c, c.M.w2vSettings(), word2vec.DefaultOptions(), flag, word2vec.NewForOptions, word2vec.New)
	}
	ways := c.ways(flags, st, fn, by, o)
	if ways == nil {
		return
	}
	desc := fmt.Sprintf("%s with %s", c.M.Model, strings.Join(flags, " "))
	names := []string{"by flags", "by the options structure", "by functional options"}
	verbose := false
	for _, n := range c.L {
		verbose = verbose || n == "verbose"
	}
	for i, g := range ways {
		if g.err != "" {
			o.bad("error", "%s: training %s failed: %s", desc, names[i], g.err)
			return
		}
		if (len(g.said) > 0) != verbose {
			o.bad("differ", "%s: training %s printed %d reports, verbose %v", desc, names[i], len(g.said), verbose)
			return
		}
		if i == 0 {
			continue
		}
		if a, b := strings.Join(ways[i-1].said, ", "), strings.Join(g.said, ", "); a != b {
			o.bad("differ", "%s: reports %s: %.600s; %s: %.600s", desc, names[i-1], a, names[i], b)
			return
		}
		if ways[i-1].text != g.text {
			o.bad("differ", "%s: the vectors %s and %s differ: %.300q and %.300q", desc, names[i-1], names[i], ways[i-1].text, g.text)
			return
		}
	}
	if len(ways[0].text) == 0 {
		o.Triv = true
	}
}

func collect[O any, F any](c *Case, all []setting[O, F], def O, flag func(n, short, val string),
	forOpts func(O) (model.Model, error), fresh func(...F) (model.Model, error)) (st, fn func() (model.Model, error), bystander func()) {
	var fs, others []F
	for _, s := range all {
		if s.wrong != "" {
			others = append(others, s.optBad)
		}
	}
	for _, n := range c.L {
		for _, s := range all {
			switch {
			case n == s.flag:
				flag(s.flag, s.short, s.val)
				s.put(&def)
				fs = append(fs, s.opt)
			case n == s.flag+"!" && s.wrong != "":
				flag(s.flag, s.short, s.wrong)
				fs = append(fs, s.optBad)
			}
		}
	}
	return func() (model.Model, error) { return forOpts(def) }, func() (model.Model, error) { return fresh(fs...) }, func() { fresh(others...) }
}

var helpForm = regexp.MustCompile(`(?m)^\s+(?:-(\w), )?\s*--([\w-]+)(.*)$`)
var helpDef = regexp.MustCompile(`\(default (.*)\)\s*$`)

// helpC26 compares the defaults in the help texts with those of the library.
func (c *Case) helpC26(o *Outcome) {
	check := func(name string, want map[string]string) {
		f, err := os.CreateTemp("", "wegohelp")
		if err != nil {
			return
		}
		defer os.Remove(f.Name())
		defer f.Close()
		was := null
		null = f
		w := o.aux(c.Seed, func(w *simrt.World) { cli(w, []string{"wego", name, "--help"}) })
		null = was
		b, _ := os.ReadFile(f.Name())
		text := string(b) + output(w)
		if w.Fail != nil {
			return
		}
		if w.Exited && w.ExitCode != 0 {
			o.bad("error", "wego %s --help failed with status %d", name, w.ExitCode)
			return
		}
		got := map[string]string{}
		for _, m := range helpForm.FindAllStringSubmatch(text, -1) {
			got[m[2]] = ""
			if d := helpDef.FindStringSubmatch(m[3]); d != nil {
				got[m[2]] = strings.Trim(d[1], `"`)
			}
		}
		var names []string
		for n := range want {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			g, ok := got[n]
			if !ok {
				o.bad("help", "wego %s --help does not mention --%s", name, n)
				return
			}
			if w := want[n]; g != w && !(g == "" && (w == "0" || w == "false")) {
				if x, err := strconv.ParseFloat(g, 64); err == nil {
					if y, err := strconv.ParseFloat(w, 64); err == nil && near(x, y, 1e-9, 0) {
						continue
					}
				}
				o.bad("help", "wego %s --help says the default of --%s is %q, that of the library is %q", name, n, g, w)
				return
			}
		}
	}
	switch c.M.Model {
	case "glove":
		check("glove", defaultTexts(c.M.gloSettings(), glove.DefaultOptions()))
	case "lexvec":
		check("lexvec", defaultTexts(c.M.lexSettings(), lexvec.DefaultOptions()))
	default:
		check("word2vec", defaultTexts(c.M.w2vSettings(), word2vec.DefaultOptions()))
	}
}

func defaultTexts[O any, F any](all []setting[O, F], def O) map[string]string {
	out := map[string]string{}
	for _, s := range all {
		out[s.flag] = fmt.Sprint(s.def(&def))
	}
	return out
}
