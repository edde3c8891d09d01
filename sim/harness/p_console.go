package main

import (
	"fmt"
	"os"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"

	"simrt"
	"simrt/sos"

	root "github.com/ynqa/wego"
	"github.com/ynqa/wego/pkg/search"
	"github.com/ynqa/wego/pkg/search/console"
	root2 "github.com/ynqa/wego2"
)

func init() {
	register(&Prop{ID: "C17", Quick: 450000,
		Rule: "A console session fed random lines (words, sums, differences, unknown words, broken expressions, anything) whose terminal may end or fail, sharing its searcher with other goroutines; every answer is compared with a brute-force ranking and with the answer of a fresh session.",
		Real: "the line editor is a stub that delivers the scripted lines and failures",
		Gen:  genC17, Run: runC17, Shrink: shrinkC17})
	register(&Prop{ID: "C24", Quick: 600000,
		Rule: "The query command run on vector files that are complete, missing, malformed, inconsistent or fail while they are opened, examined or read, with any word and rank; the printed rows are compared with a brute-force ranking over the file.",
		Real: "the command line is real (cobra); the file system is simulated",
		Gen:  genC24, Run: runC24, Shrink: shrinkC24})
}

// null takes what cobra writes to the real standard streams.
var null = func() *os.File {
	f, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	if err != nil {
		return os.Stderr
	}
	return f
}()

type row struct {
	rank int
	word string
	sim  float64
}

// rows finds the neighbours in printed text. It does not depend on the layout.
func rows(s string) (r []row) {
	for _, l := range strings.Split(s, "\n") {
		f := strings.Fields(strings.ReplaceAll(l, "|", " "))
		if len(f) == 2 {
			f = []string{f[0], "", f[1]} // a row without a word
		}
		if len(f) != 3 {
			continue
		}
		n, err := strconv.Atoi(f[0])
		x, err2 := strconv.ParseFloat(f[2], 64)
		if err != nil || err2 != nil || !strings.Contains(f[2], ".") {
			continue
		}
		r = append(r, row{n, f[1], x})
	}
	return
}

// complaint finds a line which reports an error next to an answer.
func complaint(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if len(rows(l)) > 0 {
			continue
		}
		low := strings.ToLower(l)
		for _, x := range []string{"fail", "error", "invalid", "<nil>", "%!", "cannot", "unable"} {
			if strings.Contains(low, x) {
				return l
			}
		}
	}
	return ""
}

// checkRows compares printed rows, which have six decimals, with the definition.
func checkRows(words []string, vecs [][]float64, q []float64, k int, ignore []string, got []row) error {
	const tol = 1e-6
	var ns search.Neighbors
	skip := map[string]bool{}
	for _, w := range ignore {
		skip[w] = true
	}
	sim := map[string]float64{}
	for i, w := range words {
		if !skip[w] {
			sim[w] = cosine(q, vecs[i])
		}
	}
	for i, g := range got {
		s, ok := sim[g.word]
		if !ok {
			return fmt.Errorf("row %d is %q, which is excluded or no item", i, g.word)
		}
		if s-g.sim > tol || g.sim-s > tol {
			return fmt.Errorf("the similarity of %q is %.9f, printed %.6f", g.word, s, g.sim)
		}
		if i > 0 && g.sim > got[i-1].sim {
			return fmt.Errorf("row %d is better than the one before", i)
		}
		ns = append(ns, search.Neighbor{Word: g.word, Rank: uint(g.rank), Similarity: sim[g.word]})
	}
	// rounding differences between this computation and theirs
	for i := range ns {
		if ns[i].Similarity <= 0 && ns[i].Similarity > -1e-9 {
			ns[i].Similarity = 1e-300
		}
		if i > 0 && ns[i].Similarity > ns[i-1].Similarity && ns[i].Similarity < ns[i-1].Similarity+1e-9 {
			ns[i].Similarity = ns[i-1].Similarity
		}
	}
	return checkNeighbors(words, vecs, q, k, ignore, ns)
}

var pointer = regexp.MustCompile(`0x[0-9a-f]+`)

func noptr(s string) string { return pointer.ReplaceAllString(s, "0x") }

// ---- C17 ----

// plainIdent reports words a console line can name.
func plainIdent(w string) bool {
	for i, c := range w {
		if !(c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c > 127 && letters[c] || i > 0 && c >= '0' && c <= '9') {
			return false
		}
	}
	return w != "" && w != "_" && !keywords[w] && w != "exit"
}

var letters = map[rune]bool{'ä': true, 'é': true, 'ñ': true, '日': true, '本': true, '語': true, 'ß': true, 'Σ': true}
var keywords = map[string]bool{"func": true, "type": true, "go": true, "if": true, "for": true, "map": true, "chan": true,
	"var": true, "select": true, "struct": true, "range": true, "return": true, "package": true, "import": true,
	"interface": true, "break": true, "case": true, "const": true, "continue": true, "default": true, "defer": true,
	"else": true, "fallthrough": true, "goto": true, "switch": true}

func genIdent(r *R) string {
	return r.S("a", "b", "cat", "dog", "Cat", "w1", "w2", "_x", "x_y", "äé", "日本", "ñ", "apple", "banana", "true", "nil",
		"Exit", "exit2", "veryLongIdentifierWhichIsStillJustOneWord", "string", "err", "Σ")
}

func genConsoleLine(r *R, c *Case) string {
	w := func() string {
		if len(c.L) > 0 && r.P(0.8) {
			return c.L[r.N(len(c.L))]
		}
		return r.S("nosuch", "Unknown", "zz9", "func", "日本語")
	}
	sp := func() string { return r.S("", " ", " ", "  ", "\t") }
	switch k := r.N(100); {
	case k < 30:
		return w()
	case k < 60:
		return w() + sp() + r.S("+", "-") + sp() + w()
	case k < 66:
		return w() + sp() + r.S("*", "/", "%", "&", "|", "&&", "==", "<<", "&^", "<") + sp() + w()
	case k < 72:
		return w() + r.S("+", "-") + w() + r.S("+", "-") + w()
	case k < 76:
		return r.S("(", "-", "+", "&", "*", "!", "^", "<-") + w() + r.S("", ")")
	case k < 79:
		return sp() + w() + sp()
	case k < 81:
		return "(" + w() + ")" + r.S("+", "-") + w()
	case k < 84:
		return w() + r.S("+", "-") + r.S("1", "2.5", "\"s\"", "'c'", "1i", "nosuch", "[]int{}", "func(){}", "a.b", "f()", "x[0]", "(b)", "-a")
	case k < 87:
		return r.S("1", "2.5", "'c'", "\"s\"", "nosuch", "a.b", "f()", "func(){}", "-a") + r.S("+", "-") + w()
	case k < 90:
		return r.S("exit ", " exit", "exit;", "EXIT", "exit+a", "exit()", "quit", "a;b", "a\nb", "a//", "/*", "a/*x*/", "+", "-", "a +", "+ a", "a b")
	case k < 93:
		return r.S("{", "}", "((((", "))))", "[", "a[", "a(", "\"", "'", "`", "\\", "\x00", "\xff\xfe", "#", "$", "@", "?", "…", ":=", "a:=b", "a=b", "a++", "...", "func", "chan int", "map[a]b", "struct{}", "interface{}", "[]a", "*a", "a.(type)", "a.(b)")
	case k < 95:
		return strings.Repeat("(", r.I(3, 50, 1000, 5000)) + w() + strings.Repeat(")", r.I(3, 50, 1000, 5000))
	case k < 97:
		return strings.Repeat(w()+"+", r.I(3, 50, 500)) + w()
	default:
		b := make([]byte, r.In(1, 12))
		for i := range b {
			b[i] = byte(r.N(256))
		}
		return string(b)
	}
}

func genC17(r *R, c *Case) {
	n, dim := r.In(1, 10), sizeOf(r)
	if r.P(0.02) {
		n = r.In(11, 60)
	}
	for len(c.L) < n {
		w := genIdent(r)
		if r.P(0.2) {
			w += fmt.Sprint(len(c.L))
		}
		dup := false
		for _, x := range c.L {
			dup = dup || x == w
		}
		if dup {
			w = fmt.Sprintf("%s%d", w, len(c.L))
		}
		c.L = append(c.L, w)
		v := genVec(r, dim)
		if len(c.Vec) > 0 && r.P(0.1) {
			v = append([]float64(nil), c.Vec[r.N(len(c.Vec))]...)
		}
		c.Vec = append(c.Vec, v)
	}
	k := r.In(1, 8)
	if r.P(0.03) {
		k = r.In(9, 40)
	}
	for ; k > 0; k-- {
		switch {
		case r.P(0.05):
			c.Term = append(c.Term, simrt.TermLine{Text: ""})
		case r.P(0.06):
			c.Term = append(c.Term, simrt.TermLine{Text: "exit"})
		case r.P(0.06):
			c.Term = append(c.Term, simrt.TermLine{Err: r.S("eof", "abort", "io", "ueof"), Text: r.S("", "a", "exit")})
		default:
			c.Term = append(c.Term, simrt.TermLine{Text: genConsoleLine(r, c)})
		}
	}
	if r.P(0.7) {
		c.Term = append(c.Term, simrt.TermLine{Text: "exit"})
	}
	c.set("k", r.I(1, 2, 3, 10, 10, 0, -1, 1000))
	c.set("others", r.I(0, 0, 1, 2))
}

func shrinkC17(c *Case) (out []*Case) {
	cuts(len(c.Term), func(i, j int) {
		d := c.clone()
		d.Term = without(d.Term, i, j)
		out = append(out, d)
	})
	cuts(len(c.L), func(i, j int) {
		d := c.clone()
		d.L, d.Vec = without(d.L, i, j), without(d.Vec, i, j)
		if len(d.L) > 0 {
			out = append(out, d)
		}
	})
	if c.I["others"] > 0 {
		d := c.clone()
		d.set("others", 0)
		out = append(out, d)
	}
	return
}

// session runs a console on the terminal lines and returns what it printed
// after every line, the number of prompts and how it ended.
func session(w *simrt.World, s *search.Searcher, k int, lines []simrt.TermLine) (out []string, prompts int, err error) {
	return sessionNew(w, func() (*console.Console, error) { return console.New(s, k) }, lines)
}

func sessionNew(w *simrt.World, mk func() (*console.Console, error), lines []simrt.TermLine) (out []string, prompts int, err error) {
	me := w.Current().ID
	var marks []int
	t := &simrt.Terminal{Lines: lines, OnLine: func(int) { marks = append(marks, len(w.Out)) }}
	w.Term = t
	c, err := mk()
	if err != nil {
		return nil, 0, err
	}
	err = c.Run()
	marks = append(marks, len(w.Out))
	for i := 0; i+1 < len(marks); i++ {
		s := ""
		for _, e := range w.Out[marks[i]:marks[i+1]] {
			if e.Task == me {
				s += e.Text
			}
		}
		out = append(out, s)
	}
	return out, t.Prompts, err
}

// parseConsole recognises lines whose meaning is fixed.
func parseConsole(l string) (kind string, a, b string) {
	f := strings.Trim(l, " \t")
	if !utf8.ValidString(f) {
		return "", "", ""
	}
	if plainIdent(f) {
		return "word", f, ""
	}
	for _, op := range []string{"+", "-"} {
		if p := strings.Split(f, op); len(p) == 2 {
			x, y := strings.Trim(p[0], " \t"), strings.Trim(p[1], " \t")
			if plainIdent(x) && plainIdent(y) && !strings.ContainsAny(x+y, "+-") {
				return op, x, y
			}
		}
	}
	for _, op := range []string{"*", "/", "%", "|"} {
		if p := strings.Split(f, op); len(p) == 2 && plainIdent(strings.Trim(p[0], " \t")) && plainIdent(strings.Trim(p[1], " \t")) {
			return "invalid", "", ""
		}
	}
	switch f {
	case "1", "2.5", "(", ")", "{", "[", "\"", "a +", "+", "-", "a b", "a++", "a=b", "a:=b", "...", "func", "#", "$", "@", "?":
		return "invalid", "", ""
	}
	return "", "", ""
}

func runC17(c *Case, o *Outcome) {
	at := map[string]int{}
	for i, w := range c.L {
		at[w] = i + 1
	}
	k := c.I["k"]
	// where the session must end
	end := len(c.Term)
	for i, l := range c.Term {
		if l.Err != "" || l.Text == "exit" {
			end = i
			break
		}
	}
	o.world(c, nil, func(w *simrt.World) {
		s, err := search.New(items(c.L, c.Vec)...)
		if err != nil {
			o.bad("error", "the searcher refuses the items: %v", err)
			return
		}
		over, done := false, 0
		for g := 0; g < c.I["others"]; g++ {
			g := g
			simrt.Go("harness searcher", func() {
				defer func() { done++ }()
				for i := 0; i < 10 && !over; i++ {
					j := (g + i) % len(c.L)
					got, err := s.SearchInternal(c.L[j], 3)
					if err == nil {
						err = checkNeighbors(c.L, c.Vec, c.Vec[j], 3, []string{c.L[j]}, got)
					}
					if err != nil {
						o.bad("wrong-answer", "a query next to the console: %v", err)
					}
				}
			})
		}
		out, prompts, err := session(w, s, k, c.Term)
		over = true
		simrt.BlockUntil("searchers", func() bool { return done == c.I["others"] })
		if out == nil {
			o.bad("error", "the console refuses to start: %v", err)
			return
		}
		if prompts != end+1 {
			o.bad("no-end", "the console prompted %d times, it should have ended at line %d of %q", prompts, end, c.Term)
			return
		}
		if (end == len(c.Term) || c.Term[end].Text == "exit" && c.Term[end].Err == "") && err != nil {
			o.bad("error", "the console ended with %v", err)
		}
		for i := 0; i < end && i < len(out); i++ {
			l, got := c.Term[i].Text, out[i]
			if l == "" {
				if len(rows(got)) > 0 {
					o.bad("wrong-answer", "an empty line is answered with %q", got)
				}
				continue
			}
			kind, a, b := parseConsole(l)
			switch kind {
			case "word":
				if at[a] == 0 {
					if len(rows(got)) > 0 || !strings.Contains(got, a) {
						o.bad("wrong-answer", "line %d %q (unknown) is answered with %q", i, l, got)
					}
					break
				}
				if err := checkRows(c.L, c.Vec, c.Vec[at[a]-1], k, []string{a}, rows(got)); err != nil {
					o.bad("wrong-answer", "line %d %q: %v; printed %q", i, l, err, got)
				} else if x := complaint(got); x != "" {
					o.bad("false-error", "line %d %q is answered, and then %q", i, l, x)
				}
			case "+", "-":
				if at[a] == 0 || at[b] == 0 {
					bad := a
					if at[a] != 0 {
						bad = b
					}
					if len(rows(got)) > 0 || !strings.Contains(got, bad) && !(at[b] == 0 && strings.Contains(got, b)) {
						o.bad("wrong-answer", "line %d %q (%q is unknown) is answered with %q", i, l, bad, got)
					}
					break
				}
				q := make([]float64, len(c.Vec[0]))
				for j := range q {
					q[j] = c.Vec[at[a]-1][j] + c.Vec[at[b]-1][j]
					if kind == "-" {
						q[j] = c.Vec[at[a]-1][j] - c.Vec[at[b]-1][j]
					}
				}
				if err := checkRows(c.L, c.Vec, q, k, []string{a, b}, rows(got)); err != nil {
					o.bad("wrong-answer", "line %d %q: %v; printed %q", i, l, err, got)
				} else if x := complaint(got); x != "" {
					o.bad("false-error", "line %d %q is answered, and then %q", i, l, x)
				}
			default:
				if strings.TrimSpace(got) == "" {
					o.bad("no-answer", "line %d %q is not answered", i, l)
				}
				if kind == "invalid" && len(rows(got)) > 0 {
					o.bad("wrong-answer", "line %d %q is answered with %q", i, l, got)
				}
			}
			if o.Class != "" {
				return
			}
		}
		if err := sameItems(s, c); err != nil {
			o.bad("items-changed", "after the session %v", err)
			return
		}
		// every line again, each in a session of its own
		for i := 0; i < end && i < len(out); i++ {
			l := c.Term[i].Text
			if l == "" {
				continue
			}
			f, err := search.New(items(c.L, c.Vec)...)
			if err != nil {
				return
			}
			fresh, _, _ := session(w, f, k, []simrt.TermLine{{Text: l}, {Text: "exit"}})
			if len(fresh) < 1 || noptr(fresh[0]) != noptr(out[i]) {
				o.bad("history", "line %d %q is answered with %q after %q, a fresh session answers %q", i, l, out[i], c.Term[:i], fresh)
				return
			}
		}
	})
}

func sameItems(s *search.Searcher, c *Case) error {
	if len(s.Items) != len(c.L) {
		return fmt.Errorf("there are %d items, %d were given", len(s.Items), len(c.L))
	}
	for i, e := range s.Items {
		for j := range c.Vec[i] {
			if e.Word != c.L[i] || len(e.Vector) != len(c.Vec[i]) || e.Vector[j] != c.Vec[i][j] {
				return fmt.Errorf("item %d (%q) has changed", i, c.L[i])
			}
		}
	}
	return nil
}

// ---- C24 ----

// cli runs the program with these arguments and returns its exit status.
func cli(w *simrt.World, args []string) {
	out, err, was := os.Stdout, os.Stderr, os.Args
	defer func() { os.Stdout, os.Stderr, os.Args = out, err, was }()
	os.Stdout, os.Stderr, os.Args, sos.Args = null, null, args, args
	root.Main()
}

// twoMains are two copies of the program: the package variables of each are
// its own.
var twoMains = [2]func(){root.Main, root2.Main}

// cliOf runs the program in one of two processes.
func cliOf(i int, args []string) {
	os.Args, sos.Args = args, args
	twoMains[i]()
}

// quietly runs fn with the real standard output closed off.
func quietly(fn func()) {
	out, err, was := os.Stdout, os.Stderr, os.Args
	defer func() { os.Stdout, os.Stderr, os.Args = out, err, was }()
	os.Stdout, os.Stderr = null, null
	fn()
}

func genC24(r *R, c *Case) {
	n, dim := r.In(0, 10), sizeOf(r)
	if r.P(0.005) {
		n, dim = r.In(40, 200), r.In(3, 12)
	}
	c.L = nil
	for _, x := range vocab(r, n) {
		x = strings.ReplaceAll(strings.ReplaceAll(x, "|", "p"), "-", "m")
		if len(x) > 60 {
			x = x[:20]
		}
		c.L = append(c.L, strings.ToValidUTF8(x, "z"))
	}
	seen := map[string]bool{}
	for i, x := range c.L {
		for seen[x] {
			x += "d"
		}
		seen[x] = true
		c.L[i] = x
	}
	var lines []string
	for i := range c.L {
		v := genVec(r, dim)
		if i > 0 && r.P(0.1) {
			v = append([]float64(nil), c.Vec[r.N(i)]...)
		}
		c.Vec = append(c.Vec, v)
		l := c.L[i]
		for j := range v {
			s := strconv.FormatFloat(v[j], 'f', 6, 64)
			v[j], _ = strconv.ParseFloat(s, 64)
			l += " " + s
		}
		lines = append(lines, l+"\n")
	}
	word := "nosuch"
	if n > 0 && r.P(0.85) {
		word = c.L[r.N(n)]
	}
	c.S = map[string]string{"word": word, "file": "vec.txt", "what": "ok"}
	k := r.I(10, 10, 1, 2, 3, 100, 0)
	c.set("k", k)
	switch r.N(12) {
	case 0:
		c.S["what"] = "missing"
	case 1:
		c.S["what"] = "dir"
	case 2:
		if n > 0 {
			c.S["what"] = "malformed"
			i := r.N(n)
			lines[i] = r.S(c.L[i]+"\n", c.L[i]+" x\n", c.L[i]+" 1.0 0.1.2\n", strings.TrimSuffix(lines[i], "\n")+" nope\n")
		}
	case 3:
		if n > 1 {
			c.S["what"] = "inconsistent"
			i := r.In(1, n-1)
			lines[i] = strings.TrimSuffix(lines[i], "\n") + " 0.5\n"
			if dim > 1 && r.P(0.5) {
				lines[i] = lines[i][:strings.LastIndex(lines[i][:strings.LastIndex(lines[i], " ")], " ")] + "\n"
			}
		}
	case 4, 5, 6:
		c.FSF = []simrt.FileFault{{Op: r.S("read", "read", "read", "open", "stat", "close"), Nth: r.I(1, 1, 2, 3), Times: r.I(0, 0, 1),
			Err: r.S("EIO", "EACCES", "EINTR", "EAGAIN", "ESTALE"), Short: r.I(0, 0, 5, 40), Path: "vec.txt"}}
	}
	if c.S["what"] == "ok" && n > 0 && r.P(0.03) {
		c.S["what"] = "blank"
		i := r.N(n + 1)
		lines = append(lines[:i:i], append([]string{r.S("", "", "\r", " ", "\t") + "\n"}, lines[i:]...)...)
	}
	c.FSI = map[string]int{"chunk": r.I(0, 0, 1, 7, -20, 64)}
	// what embeddings the file ends with a missing newline
	text := strings.Join(lines, "")
	if r.P(0.15) {
		text = strings.TrimSuffix(text, "\n")
	}
	if r.P(0.1) && c.S["what"] == "ok" && n > 0 {
		// more than a read buffer
		big := strings.Repeat(" 0.250000", 3000)
		for i := range lines {
			lines[i] = strings.TrimSuffix(lines[i], "\n") + big + "\n"
			for j := 0; j < 3000; j++ {
				c.Vec[i] = append(c.Vec[i], 0.25)
			}
		}
		text = strings.Join(lines, "")
		c.FSI["chunk"] = r.I(0, 4096)
	}
	if c.S["what"] != "missing" {
		c.Files = map[string]string{"vec.txt": text}
	}
	c.Args = []string{"wego", "query", r.S("-i", "--input"), "vec.txt", r.S("-r", "--rank"), fmt.Sprint(k), "--", word}
	rank := c.Args[4:6]
	if r.P(0.15) {
		c.set("k", 10) // the default
		rank = nil
	}
	in := c.Args[2:4]
	if r.P(0.15) && c.S["what"] != "dir" {
		// the default
		in = nil
		if t, ok := c.Files["vec.txt"]; ok {
			c.Files = map[string]string{"example/word_vectors.txt": t}
		}
		c.S["file"] = "example/word_vectors.txt"
		for i := range c.FSF {
			c.FSF[i].Path = "word_vectors.txt"
		}
	}
	if r.P(0.25) {
		c.Kind = "console"
		for j := r.In(1, 5); j > 0; j-- {
			w := func() string {
				if n > 0 && r.P(0.85) {
					return c.L[r.N(n)]
				}
				return "nosuch"
			}
			t := w()
			if r.P(0.4) {
				t += r.S("+", " - ", "-", " + ") + w()
			}
			c.Term = append(c.Term, simrt.TermLine{Text: t})
		}
		c.Term = append(c.Term, []simrt.TermLine{{Text: "exit"}, {Err: "eof"}, {Err: "io"}}[r.I(0, 0, 1, 2)])
		c.Args = append(append([]string{"wego", "console"}, in...), rank...)
		return
	}
	c.Args = append(append(append([]string{"wego", "query"}, in...), rank...), "--", word)
	if c.S["what"] == "ok" && r.P(0.06) {
		// the answer cannot be printed
		c.FSF = append(c.FSF, simrt.FileFault{Op: "stdout", Nth: r.I(1, 1, 2, 3, r.In(1, 30)), Times: r.I(0, 0, 1), Err: r.S("ENOSPC", "EIO", "EDQUOT"), Short: r.I(0, 0, 1, 7, 40, 100)})
	}
	switch r.N(25) {
	case 0:
		c.Args = c.Args[:len(c.Args)-1]
		c.S["what"] = "args"
	case 1:
		c.Args = append(c.Args, "another")
		c.S["what"] = "args"
	}
}

func shrinkC24(c *Case) (out []*Case) {
	if c.FSI["chunk"] != 0 {
		d := c.clone()
		d.FSI["chunk"] = 0
		out = append(out, d)
	}
	return
}

// newFS makes the file system of a case.
func newFS(c *Case) *simrt.FS {
	f := simrt.NewFS()
	for p, t := range c.Files {
		f.Put(p, []byte(t))
	}
	f.Faults = c.FSF
	f.Chunk = c.FSI["chunk"]
	if r, ok := c.FSI["room"]; ok {
		f.Room = r
	}
	f.KillOp, f.KillMid = c.FSI["killop"], c.FSI["killmid"]
	return f
}

func output(w *simrt.World) string {
	var b strings.Builder
	for _, e := range w.Out {
		b.WriteString(e.Text)
	}
	return b.String()
}

func runC24(c *Case, o *Outcome) {
	f := newFS(c)
	if c.S["what"] == "dir" {
		f = simrt.NewFS()
		f.Nodes["/work/vec.txt"] = &simrt.Node{Dir: true, Mode: os.ModeDir | 0755}
	}
	before := f.List("/")
	var marks []int
	term := &simrt.Terminal{Lines: c.Term}
	w := o.world(c, func(w *simrt.World) {
		w.FS = f
		w.Term = term
		term.OnLine = func(int) { marks = append(marks, len(w.Out)) }
	}, func(w *simrt.World) { cli(w, c.Args) })
	if w.Fail != nil {
		return
	}
	code := 0
	if w.Exited {
		code = w.ExitCode
	}
	fired := false
	for k := range w.Probes {
		fired = fired || strings.HasPrefix(k, "fault:fs-")
	}
	mute := false // the standard output failed
	for k := range w.Probes {
		mute = mute || strings.HasPrefix(k, "fault:fs-stdout")
	}
	got := rows(output(w))
	if d, ok := f.Get(c.S["file"]); ok && string(d) != c.Files[c.S["file"]] || fmt.Sprint(before) != fmt.Sprint(f.List("/")) {
		o.bad("file-changed", "the query changed files: %q before, %q after", before, f.List("/"))
		return
	}
	if c.Kind == "console" {
		runC24console(c, o, w, code, fired, got, append(marks, len(w.Out)))
		return
	}
	at := -1
	for i, x := range c.L {
		if x == c.S["word"] {
			at = i
		}
	}
	blank := c.S["what"] == "blank" // may be refused
	right := (c.S["what"] == "ok" || blank) && at >= 0
	if code != 0 {
		if len(got) > 0 && !mute {
			o.bad("partial-answer", "the query failed with status %d after printing %d neighbours", code, len(got))
		} else if right && !fired && !blank {
			o.bad("error", "the query failed with status %d on a complete file (word %q)", code, c.S["word"])
		}
		return
	}
	if !right {
		o.bad("false-success", "the query succeeded although the file or the request is bad (%s, word %q)", c.S["what"], c.S["word"])
		return
	}
	if err := checkRows(c.L, c.Vec, c.Vec[at], c.I["k"], []string{c.S["word"]}, got); err != nil {
		o.bad("wrong-answer", "query %q, rank %d, faults %v: %v; printed %q", c.S["word"], c.I["k"], fired, err, output(w))
	} else if x := complaint(output(w)); x != "" {
		o.bad("false-error", "query %q is answered with status 0, and %q", c.S["word"], x)
	}
}

// runC24console checks a session of the console command.
func runC24console(c *Case, o *Outcome, w *simrt.World, code int, fired bool, got []row, marks []int) {
	blank := c.S["what"] == "blank" // may be refused
	right := (c.S["what"] == "ok" || blank) && len(c.L) > 0
	last := c.Term[len(c.Term)-1]
	if !right || len(marks) == 1 {
		if len(got) > 0 {
			o.bad("partial-answer", "the console printed %d neighbours without a complete file (%s)", len(got), c.S["what"])
		} else if code == 0 {
			o.bad("false-success", "the console ended successfully although the file is bad (%s)", c.S["what"])
		} else if right && !fired && !blank {
			o.bad("error", "the console failed with status %d on a complete file", code)
		} else if !right && len(marks) > 1 && c.S["what"] != "ok" {
			o.bad("false-success", "the console asked for input although the file is bad (%s)", c.S["what"])
		}
		return
	}
	if len(marks) != len(c.Term)+1 {
		o.bad("no-end", "the console prompted %d times for %d lines", len(marks)-1, len(c.Term))
		return
	}
	if (code != 0) != (last.Err == "io") && !fired {
		o.bad("wrong-status", "the console ended with status %d after %q %q", code, last.Text, last.Err)
		return
	}
	at := map[string]int{}
	for i, x := range c.L {
		at[x] = i + 1
	}
	for i, l := range c.Term[:len(c.Term)-1] {
		text := ""
		for _, e := range w.Out[marks[i]:marks[i+1]] {
			text += e.Text
		}
		got := rows(text)
		kind, a, b := parseConsole(l.Text)
		if kind == "word" {
			b = a
		} else if kind != "+" && kind != "-" {
			continue
		}
		if at[a] == 0 || at[b] == 0 {
			if len(got) > 0 || !strings.Contains(text, a) && !strings.Contains(text, b) {
				o.bad("wrong-answer", "console line %q (unknown words) is answered with %q", l.Text, text)
				return
			}
			continue
		}
		x, y := c.Vec[at[a]-1], c.Vec[at[b]-1]
		q := append([]float64(nil), x...)
		for j := range q {
			switch kind {
			case "+":
				q[j] += y[j]
			case "-":
				q[j] -= y[j]
			}
		}
		if err := checkRows(c.L, c.Vec, q, c.I["k"], []string{a, b}, got); err != nil {
			o.bad("wrong-answer", "console line %q, rank %d, faults %v: %v; printed %q", l.Text, c.I["k"], fired, err, text)
			return
		}
		if x := complaint(text); x != "" {
			o.bad("false-error", "console line %q is answered, and then %q", l.Text, x)
			return
		}
	}
}
