package main

import (
	"errors"
	"fmt"
	"math"
	"os"
	"sort"
	"strconv"
	"strings"

	"simrt"
)

func init() {
	register(&Prop{ID: "C18", Quick: 350000,
		Rule: "A training command with random settings on a simulated file system whose operations fail, tear, run full or lose the process at a random operation, byte or scheduling step; then the same command again without the trouble. Or two commands at once, as two processes on one file system.",
		Real: "the command line is real (cobra); the file system and process death are simulated",
		Gen:  genC18, Run: runC18, Shrink: shrinkC18})
}

// flags writes the settings as command line flags.
func (m MO) flags() []string {
	f := []string{"--dim", strconv.Itoa(m.Dim), "--iter", strconv.Itoa(m.Iter), "--goroutines", strconv.Itoa(m.G),
		"--batch", strconv.Itoa(m.B), "--window", strconv.Itoa(m.Win), "--min-count", strconv.Itoa(m.MinC),
		"--max-count", strconv.Itoa(m.MaxC), "--initlr", strconv.FormatFloat(m.Lr, 'g', -1, 64),
		"--threshold", strconv.FormatFloat(m.Sub, 'g', -1, 64), "--log-batch", strconv.Itoa(m.LogB)}
	if m.Mem {
		f = append(f, "--in-memory")
	}
	if m.Lower {
		f = append(f, "--to-lower")
	}
	if m.Verbose {
		f = append(f, "--verbose")
	}
	switch m.Model {
	case "glove":
		return append(f, "--solver", m.Solver, "--cnt", m.Cnt, "--xmax", strconv.Itoa(m.Xmax))
	case "lexvec":
		return append(f, "--rel", m.Rel, "--sample", strconv.Itoa(m.Neg), "--update-lr-batch", strconv.Itoa(m.UpdLR))
	}
	return append(f, "--model", m.Model, "--optimizer", m.Opt, "--sample", strconv.Itoa(m.Neg),
		"--max-depth", strconv.Itoa(m.Depth), "--update-lr-batch", strconv.Itoa(m.UpdLR))
}

func genC18(r *R, c *Case) {
	c.M = genModel(r)
	c.M.Iter = r.I(0, 1, 1, 2)
	if r.P(0.15) {
		c.M.Dim = r.In(50, 150) // more output than one buffer
	}
	genCorpus(r, c)
	stretch(r, c, "words g win neg b logb")
	for i, w := range c.Words {
		if len(w) > 100 {
			c.Words[i] = w[:50]
		}
	}
	c.S = map[string]string{"in": r.S("corpus.txt", "corpus.txt", "data/c.txt", "/data/c.txt"),
		"out": r.S("out.txt", "out.txt", "new/out.txt", "new/deeper/v.txt", "/tmp/out"), "what": "ok",
		"typ": r.S("single", "single", "agg")}
	c.FSI = map[string]int{"chunk": r.I(0, 0, 0, 1, -20, 16)}
	size := len(c.Words)*(4+10*c.M.Dim) + 20
	switch r.N(16) {
	case 0, 1, 2:
		c.FSI["killop"] = r.In(1, 40)
		if r.P(0.5) {
			c.FSI["killmid"] = r.In(1, size)
		}
	case 3, 4:
		// at a scheduling step
		c.set("killat", int(math.Exp(r.F()*math.Log(6000)))+1)
	case 5, 6, 7, 8:
		c.FSF = []simrt.FileFault{{Op: r.S("read", "read", "write", "write", "open", "create", "close", "stat", "rename", "link", "remove", "seek", "mkdir", "sync", "*", "stdout"),
			Nth: r.I(1, 1, 2, 3, r.In(1, 20)), Times: r.I(0, 0, 1, 2), Err: r.S("EIO", "ENOSPC", "EACCES", "EINTR", "EMFILE", "EAGAIN", "EDQUOT", "ESTALE", "EROFS", "EPIPE"), Short: r.I(0, 0, 5, 100)}}
		if r.P(0.2) {
			c.FSF = append(c.FSF, simrt.FileFault{Op: r.S("remove", "close", "stat", "write"), Nth: 1, Err: "EIO"})
		}
		if r.P(0.15) {
			// something is at the output path, and looking at it fails
			c.S["what"] = "exists"
			c.FSF = []simrt.FileFault{{Op: "stat", Nth: r.I(1, 1, 2), Times: r.I(0, 0, 1), Err: r.S("EIO", "EACCES", "ENAMETOOLONG"), Path: r.S(c.S["out"], c.S["out"], "")}}
		}
	case 9, 10:
		c.FSI["room"] = r.N(size)
		if r.P(0.3) {
			c.FSI["room"] = r.I(0, 1, 4095, 4096, 4097)
		}
	case 11:
		c.S["what"] = "exists"
	case 12:
		c.S["what"] = r.S("noinput", "indir", "badopt", "typ", "readonly", "outdir", "appears", "appears", "appears")
	}
	if c.S["what"] == "badopt" {
		switch r.N(6) {
		case 0:
			c.M.Dim = r.I(0, -1)
		case 1:
			c.M.G = r.I(0, -1)
		case 2:
			c.M.B = r.I(0, -5)
			c.M.Mem = false
		case 3:
			c.M.Win = r.I(0, -1)
		case 4:
			c.M.Opt, c.M.Solver, c.M.Rel = "nosuch", "nosuch", "nosuch"
		case 5:
			c.M.LogB = r.I(0, -1)
		}
	}
	if c.S["what"] == "appears" {
		// while the input is read, after the output was closed, or after any operation
		c.set("apat", r.I(0, -1, -1, -1, r.In(1, 30), r.In(1, 30)))
	}
	if c.S["what"] == "ok" && r.P(0.1) {
		genTwo(r, c)
		return
	}
	if c.S["what"] == "typ" {
		c.S["typ"] = r.S("both", "", "Single")
	}
	if r.P(0.05) {
		c.set("prof", 1)
		if w := c.S["what"]; r.P(0.3) && (w == "ok" || w == "exists") {
			// in the way of the profile
			p := r.S("cpu.prof", "./cpu.prof", "/work/cpu.prof", "../work/cpu.prof")
			if r.P(0.8) {
				c.S["out"] = p
			} else {
				c.S["in"] = p
			}
			if w == "ok" {
				c.S["what"] = "prof"
			}
		}
	}
}

// genTwo adds a second command that runs at the same time.
func genTwo(r *R, c *Case) {
	c.S["what"], c.S["typ"] = "two", "single"
	m := genModel(r)
	m.Iter = r.I(0, 1, 1)
	m.Lower = c.M.Lower
	m.LogB, m.Lr = max(1, m.LogB), 0.001
	if m.Dim == c.M.Dim {
		m.Dim++ // tells their files apart
	}
	if r.P(0.3) {
		m.Lr = min(m.Lr, c.M.Lr)
		m.Model, m.Opt, m.Solver, m.Rel, m.Cnt = c.M.Model, c.M.Opt, c.M.Solver, c.M.Rel, c.M.Cnt
	}
	d := *c
	d.M = m
	calm(&d)
	m = d.M
	c.L = append([]string{m.command()}, m.flags()...)
	c.set("dim2", m.Dim)
	c.S["out2"] = c.S["out"]
	if r.P(0.3) {
		c.S["out2"] += r.S("2", ".tmp", "~")
	}
	// the second one starts after this many operations of the first
	c.set("start2", r.I(0, 1, 2, 3, r.In(1, 12), r.In(1, 40)))
	c.FSF, c.FSI["room"] = nil, -1
	switch r.N(8) {
	case 0, 1:
		c.FSI["killop"] = r.In(1, 60)
	case 2:
		c.set("killat", 0)
		c.set("kill2", r.I(1, 2))
		c.set("kill2at", int(math.Exp(r.F()*math.Log(4000)))+1)
	case 3:
		c.FSF = []simrt.FileFault{{Op: r.S("read", "write", "open", "create", "close"),
			Nth: r.I(1, 1, 2, 3, r.In(1, 20)), Times: r.I(1, 1, 2), Err: r.S("EIO", "ENOSPC", "EACCES"), Short: r.I(0, 0, 5, 100)}}
	}
}

func (m MO) command() string {
	if m.isW2V() {
		return "word2vec"
	}
	return m.Model
}

// runTwo runs two commands at the same time.
func runTwo(c *Case, o *Outcome) {
	in := c.S["in"]
	text := c.text()
	f := newFS(c)
	if i := strings.LastIndex(f.Abs(in), "/"); i > 0 {
		f.Nodes[f.Abs(in)[:i]] = &simrt.Node{Dir: true, Mode: os.ModeDir | 0755}
	}
	f.Put(in, []byte(text))
	ref := reference(text, c.M.Lower, 0, -1)
	type command struct {
		args []string
		out  string
		dim  int
		p    *simrt.Proc
	}
	cmds := []*command{
		{append([]string{"wego", c.M.command(), "-i", in, "-o", c.S["out"]}, c.M.flags()...), c.S["out"], c.M.Dim, nil},
		{append([]string{"wego", c.L[0], "-i", in, "-o", c.S["out2"]}, c.L[1:]...), c.S["out2"], c.I["dim2"], nil},
	}
	var w *simrt.World
	run := func(w *simrt.World) {
		one, two := cmds[0], cmds[1]
		one.p = simrt.StartProcess("first command", 4321, func() { cliOf(0, one.args) })
		simrt.BlockUntil("first command", func() bool { return one.p.Ended || len(f.Log) >= max(1, c.I["start2"]) })
		two.p = simrt.StartProcess("second command", 4322, func() { cliOf(1, two.args) })
		if k := c.I["kill2"]; k > 0 {
			p := cmds[k-1].p
			simrt.BlockUntil("time to kill", func() bool { return p.Ended || w.Step() >= c.I["kill2at"] })
			if !p.Ended {
				simrt.Probe("fault:kill")
			}
			p.Kill()
		}
		simrt.BlockUntil("both commands", func() bool { return one.p.Ended && two.p.Ended })
	}
	quietly(func() {
		w = o.world(c, func(w *simrt.World) {
			w.FS = f
			w.KillAt = c.I["killat"]
		}, run)
	})
	if w.Fail != nil {
		return
	}
	fired, killed := w.Killed, w.Killed
	for k := range w.Probes {
		fired = fired || strings.HasPrefix(k, "fault:fs-") || k == "fault:disk-full"
	}
	at := map[string]bool{f.Abs(in): true}
	for _, x := range cmds {
		at[f.Abs(x.out)] = true
		killed = killed || x.p == nil || x.p.Killed
	}
	for i, x := range cmds {
		b, is := f.Get(x.out)
		var good, dims []int
		ran := 0
		for j, y := range cmds {
			if y.out != x.out {
				continue
			}
			if y.p == nil {
				// the machine died before the starter heard of the process it had started
				if w.Killed {
					dims = append(dims, y.dim)
				}
				continue
			}
			ran++
			// the processes of a machine that died did not exit
			if dead := y.p.Killed || w.Killed && !y.p.Ended; dead {
				dims = append(dims, y.dim)
			} else if y.p.ExitCode == 0 {
				good, dims = append(good, j), append(dims, y.dim)
			}
		}
		if len(good) > 1 {
			o.bad("overwritten", "two commands at once both succeeded with the output %s (%q and %q)", x.out, cmds[0].args, cmds[1].args)
			return
		}
		if len(good) == 1 {
			dims = []int{cmds[good[0]].dim}
		}
		switch {
		case !is && len(good) > 0:
			o.bad("incomplete-output", "two commands at once: number %d succeeded and there is no output (%q and %q)", good[0], cmds[0].args, cmds[1].args)
			return
		case is:
			why := "no command that could have made it succeeded or was killed"
			for _, d := range dims {
				if why = completeFile(string(b), ref, d); why == "" {
					break
				}
			}
			if why != "" {
				class := "partial-output"
				if len(good) > 0 {
					class = "incomplete-output"
				}
				o.bad(class, "two commands at once (%d of the %d with this output succeeded): %d bytes at the output path of command %d: %s (%q and %q)", len(good), ran, len(b), i, why, cmds[0].args, cmds[1].args)
				return
			}
		case !fired && !killed:
			o.bad("error", "two commands at once: no output at %s although nothing is wrong (%q and %q)", x.out, cmds[0].args, cmds[1].args)
			return
		}
	}
	if b, is := f.Get(in); !is || string(b) != text {
		o.bad("input-changed", "two commands at once: the input file is changed")
		return
	}
	if !killed {
		for p, n := range f.Nodes {
			if !n.Dir && !at[p] {
				o.bad("leftover", "two commands at once left %s behind (%q and %q)", p, cmds[0].args, cmds[1].args)
				return
			}
		}
	}
	o.probe("two-commands", 1)
	if c.S["out"] == c.S["out2"] {
		o.probe("two-commands-one-output", 1)
	}
}

// completeFile reports why the text is not the complete vector file.
func completeFile(text string, ref *Ref, dim int) string {
	words, vecs, err := parseVectors(text)
	if err != nil {
		return err.Error()
	}
	if len(words) != len(ref.Words) {
		return fmt.Sprintf("%d lines for %d words", len(words), len(ref.Words))
	}
	for i, w := range words {
		if w != ref.Words[i] || len(vecs[i]) != dim {
			return fmt.Sprintf("line %d is %q with %d values, want %q with %d", i, w, len(vecs[i]), ref.Words[i], dim)
		}
		for _, x := range vecs[i] {
			if math.IsNaN(x) || math.IsInf(x, 0) {
				return fmt.Sprintf("line %d has a value %v", i, x)
			}
		}
	}
	return ""
}

func shrinkC18(c *Case) (out []*Case) {
	out = shrinkTraining(c)
	for _, k := range []string{"chunk", "killmid"} {
		if c.FSI[k] != 0 {
			d := c.clone()
			d.FSI[k] = 0
			out = append(out, d)
		}
	}
	return
}

func runC18(c *Case, o *Outcome) {
	if c.S["what"] == "two" {
		runTwo(c, o)
		return
	}
	in, out := c.S["in"], c.S["out"]
	args := append([]string{"wego", c.M.command(), "-i", in, "-o", out, "--vec-type", c.S["typ"]}, c.M.flags()...)
	if c.I["prof"] > 0 {
		args = append(args, "--prof")
	}
	text := c.text()
	f := newFS(c)
	dir := func(p string) {
		if i := strings.LastIndex(f.Abs(p), "/"); i > 0 {
			f.Nodes[f.Abs(p)[:i]] = &simrt.Node{Dir: true, Mode: os.ModeDir | 0755}
		}
	}
	dir(in)
	f.Put(in, []byte(text))
	old := ""
	there := false
	put := func(s string) {
		dir(out)
		f.Put(out, []byte(s))
		old, there = s, true
	}
	switch c.S["what"] {
	case "exists":
		// the old file may have any size
		put([]string{"", "old vectors\n", strings.Repeat("old 1.0 2.0\n", 50)}[c.Seed%3])
	case "noinput":
		delete(f.Nodes, f.Abs(in))
	case "indir":
		f.Nodes[f.Abs(in)] = &simrt.Node{Dir: true, Mode: os.ModeDir | 0755}
	case "readonly":
		dir(out)
		p := f.Abs(out)
		f.Nodes[p[:strings.LastIndex(p, "/")]].Mode = os.ModeDir | 0555
	case "outdir":
		dir(out)
		f.Nodes[f.Abs(out)] = &simrt.Node{Dir: true, Mode: os.ModeDir | 0755}
	}
	ref := reference(text, c.M.Lower, 0, -1)
	complete := func() error {
		b, ok := f.Get(out)
		if !ok {
			return fmt.Errorf("there is no output file")
		}
		if why := completeFile(string(b), ref, c.M.Dim); why != "" {
			return errors.New(why)
		}
		return nil
	}
	before := map[string]bool{}
	files := func() (all []string) {
		for p, n := range f.Nodes {
			if !n.Dir && p != f.Abs(out) && p != f.Abs(in) && !(c.I["prof"] > 0 && p == f.Abs("cpu.prof")) {
				all = append(all, p)
			}
		}
		sort.Strings(all)
		return
	}
	look := func() {
		for _, p := range files() {
			before[p] = true
		}
	}
	look()
	w := o.world(c, func(w *simrt.World) {
		w.FS = f
		w.KillAt = c.I["killat"]
	}, func(w *simrt.World) {
		if c.S["what"] == "appears" {
			simrt.Go("harness: another program", func() {
				// while the command reads its input
				simrt.BlockUntil("input opened", func() bool {
					if k := c.I["apat"]; k > 0 {
						return len(f.Log) >= k
					}
					for _, e := range f.Log {
						if e.Op == "read" && c.I["apat"] == 0 || e.Op == "close" && f.Abs(e.Path) != f.Abs(in) {
							return true
						}
					}
					return false
				})
				if _, is := f.Get(out); !is {
					put([]string{"somebody else's file\n", "", "x"}[c.Seed%3])
				}
			})
		}
		cli(w, args)
	})
	if w.Fail != nil {
		return
	}
	stuck := false // a file could not be removed
	for _, x := range c.FSF {
		stuck = stuck || x.Op == "remove" || x.Op == "*" || x.Op == "stat"
	}
	check := func(run string, w *simrt.World, fired bool) (ok bool) {
		if !w.Killed && !(fired && stuck) {
			for _, p := range files() {
				if !before[p] {
					o.bad("leftover", "%s the command ended and left %s behind (%q)", run, p, args)
					return
				}
			}
			o.probe("nothing-left", 1)
		}
		b, is := f.Get(out)
		code := 0
		if w.Exited {
			code = w.ExitCode
		}
		if have, is := f.Get(in); c.S["what"] != "noinput" && c.S["what"] != "indir" && (!is || string(have) != text) {
			o.bad("input-changed", "%s the input file is changed", run)
			return
		}
		if there {
			if !is || string(b) != old {
				o.bad("overwritten", "%s the file that was at the output path is changed: %.100q, was %.100q", run, b, old)
			} else if !w.Killed && code == 0 {
				o.bad("false-success", "%s the command succeeded although the output path was taken", run)
			}
			return
		}
		switch {
		case w.Killed:
			if is {
				if err := complete(); err != nil {
					o.bad("partial-output", "%s the process was killed and the output path holds an incomplete file: %v", run, err)
				}
				return
			}
			return true
		case code != 0:
			if is {
				o.bad("partial-output", "%s the command failed with status %d and left %d bytes at the output path", run, code, len(b))
				return
			}
			if _, is := f.Nodes[f.Abs(out)]; is && c.S["what"] != "outdir" {
				o.bad("partial-output", "%s the command failed and left something at the output path", run)
				return
			}
			if !fired && c.S["what"] == "ok" {
				o.bad("error", "%s the command failed with status %d for no reason (%q)", run, code, args)
				return
			}
			return true
		default:
			if c.S["what"] == "noinput" || c.S["what"] == "indir" || c.S["what"] == "outdir" {
				o.bad("false-success", "%s the command succeeded (%s)", run, c.S["what"])
			} else if c.S["what"] == "typ" {
				o.bad("unknown-kind", "%s the command succeeded though there are no vectors of the type %q", run, c.S["typ"])
			} else if err := complete(); err != nil {
				o.bad("incomplete-output", "%s the command succeeded, but: %v (%q)", run, err, args)
			}
			return
		}
	}
	fired := w.Killed
	for k := range w.Probes {
		fired = fired || strings.HasPrefix(k, "fault:fs-") || k == "fault:disk-full"
	}
	what := fmt.Sprintf("(%v room %d kill %d/%d/%d)", c.FSF, c.FSI["room"], c.FSI["killop"], c.FSI["killmid"], c.I["killat"])
	again := check(what, w, fired)
	if o.Class == "" && !there && (w.Killed || c.Seed%4 == 0) && c.S["what"] != "outdir" {
		if kept, is := f.Get(out); is {
			// the finished output is moved away and the command runs again: the moved file stays
			g := simrt.NewFS()
			g.Nodes = f.Nodes
			f = g
			f.Nodes["/work/keep.txt"] = f.Nodes[f.Abs(out)]
			delete(f.Nodes, f.Abs(out))
			look()
			w3 := o.aux(c.Seed, func(w *simrt.World) { w.FS = f; cli(w, args) })
			if w3.Fail == nil {
				if b, is := f.Get("/work/keep.txt"); !is || string(b) != string(kept) {
					o.bad("overwritten", "the output was moved to keep.txt and the command run again, after %s: keep.txt is now %.100q, was %.100q", what, b, kept)
					return
				}
				check("run again with the output moved away, after "+what+",", w3, false)
				o.probe("moved-away", 1)
			}
			return
		}
	}
	if !again || c.S["what"] == "badopt" || c.S["what"] == "typ" {
		return
	}
	if c.S["what"] != "ok" && c.S["what"] != "readonly" && c.S["what"] != "noinput" {
		return
	}
	// the cause is gone: the same command must work
	g := f
	f = simrt.NewFS()
	f.Nodes = g.Nodes
	for p, n := range f.Nodes {
		if n.Dir {
			n.Mode = os.ModeDir | 0755
		}
		_ = p
	}
	if c.S["what"] == "noinput" {
		f.Put(in, []byte(text))
	}
	defer func(s string) { c.S["what"] = s }(c.S["what"])
	c.S["what"] = "ok"
	look()
	w2 := o.aux(c.Seed, func(w *simrt.World) { w.FS = f; cli(w, args) })
	if w2.Fail != nil {
		return
	}
	check("on the second try, after "+what+",", w2, false)
	if o.Class == "" {
		if _, is := f.Get(out); !is {
			o.bad("error", "the second try %s gave no output", what)
		}
		o.probe("second-try", 1)
	}
}
