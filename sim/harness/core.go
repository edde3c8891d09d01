// The harness: workloads, oracles, search, minimisation and replay.
package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strings"
	"unicode/utf8"

	"simrt"
)

// R is a splitmix generator: every choice of a case comes from one.
type R struct{ s uint64 }

func (r *R) U() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *R) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U() % uint64(n))
}
func (r *R) In(a, b int) int         { return a + r.N(b-a+1) }
func (r *R) F() float64              { return float64(r.U()>>11) / (1 << 53) }
func (r *R) P(p float64) bool        { return r.F() < p }
func (r *R) I(xs ...int) int         { return xs[r.N(len(xs))] }
func (r *R) S(xs ...string) string   { return xs[r.N(len(xs))] }
func (r *R) X(xs ...float64) float64 { return xs[r.N(len(xs))] }

// MO are the settings of a model.
type MO struct {
	Model   string  `json:"model"` // skipgram cbow lexvec glove, or a bad name for word2vec
	Opt     string  `json:"opt,omitempty"`
	Solver  string  `json:"solver,omitempty"`
	Rel     string  `json:"rel,omitempty"`
	Cnt     string  `json:"cnt,omitempty"`
	Dim     int     `json:"dim"`
	Iter    int     `json:"iter"`
	G       int     `json:"g"`
	B       int     `json:"b"`
	Win     int     `json:"win"`
	Neg     int     `json:"neg"`
	Depth   int     `json:"depth"`
	MinC    int     `json:"minc"`
	MaxC    int     `json:"maxc"`
	UpdLR   int     `json:"updlr"`
	LogB    int     `json:"logb"`
	Mem     bool    `json:"mem"`
	Lower   bool    `json:"lower"`
	Verbose bool    `json:"verbose"`
	Lr      float64 `json:"lr"`
	MinLR   float64 `json:"minlr"`
	Sub     float64 `json:"sub"`
	Alpha   float64 `json:"alpha"`
	Smooth  float64 `json:"smooth"`
	Xmax    int     `json:"xmax"`
}

// Fault makes one call of a stream fail.
type Fault struct {
	Pass  int    `json:"pass"`            // reads after this many rewinds
	At    int    `json:"at"`              // byte offset in the pass (reads), nth call (seek)
	Kind  string `json:"kind"`            // read, data (error together with data), seek, write
	Times int    `json:"times,omitempty"` // 0: for ever
	Err   string `json:"err,omitempty"`   // which error, ErrInjected if empty
}

// Stream describes how a reader or writer behaves.
type Stream struct {
	Chunk  string  `json:"chunk,omitempty"` // whole one rand fixed
	N      int     `json:"n,omitempty"`
	Empty  int     `json:"empty,omitempty"` // in 100 reads that return nothing
	EOFD   bool    `json:"eofd,omitempty"`  // end of file together with the last data
	Delay  int     `json:"delay,omitempty"` // simulated latency per call, in microseconds
	Faults []Fault `json:"faults,omitempty"`
	Room   int     `json:"room,omitempty"`  // writers: bytes that fit, 0 unlimited
	Short  bool    `json:"short,omitempty"` // writers: a failing write takes some bytes
	NoErr  bool    `json:"noerr,omitempty"` // writers: short writes without an error
}

// Case is one simulated run: everything needed to repeat it.
type Case struct {
	Prop  string            `json:"prop"`
	Idx   int               `json:"idx"`
	Kind  string            `json:"kind,omitempty"`
	Seed  uint64            `json:"seed"`
	Sched simrt.Sched       `json:"sched"`
	Words []string          `json:"words,omitempty"`
	Seps  string            `json:"seps,omitempty"` // separator alphabet
	Text  string            `json:"text,omitempty"` // used instead of words when set
	M     MO                `json:"m"`
	M2    *MO               `json:"m2,omitempty"`
	Rd    Stream            `json:"rd"`
	Wr    Stream            `json:"wr"`
	Files map[string]string `json:"files,omitempty"`
	FSF   []simrt.FileFault `json:"fsf,omitempty"`
	FSI   map[string]int    `json:"fsi,omitempty"`
	Term  []simrt.TermLine  `json:"term,omitempty"`
	Args  []string          `json:"args,omitempty"`
	I     map[string]int    `json:"i,omitempty"`
	S     map[string]string `json:"s,omitempty"`
	L     []string          `json:"l,omitempty"`
	Vec   [][]float64       `json:"vec,omitempty"`
	Q     [][]query         `json:"q,omitempty"`
}

// Strings that are not valid UTF-8 would be changed by JSON.
const rawMark = "\u0001hex:"

func encStr(s string) string {
	if utf8.ValidString(s) && !strings.HasPrefix(s, rawMark) {
		return s
	}
	return rawMark + hex.EncodeToString([]byte(s))
}

func decStr(s string) string {
	if h, ok := strings.CutPrefix(s, rawMark); ok {
		if b, err := hex.DecodeString(h); err == nil {
			return string(b)
		}
	}
	return s
}

// strings returns a copy with f applied to every free string.
func (c Case) mapStrings(f func(string) string) Case {
	list := func(l []string) []string {
		if l == nil {
			return nil
		}
		r := make([]string, len(l))
		for i, s := range l {
			r[i] = f(s)
		}
		return r
	}
	table := func(m map[string]string) map[string]string {
		if m == nil {
			return nil
		}
		r := map[string]string{}
		for k, s := range m {
			r[f(k)] = f(s)
		}
		return r
	}
	c.Words, c.Args, c.L = list(c.Words), list(c.Args), list(c.L)
	c.Files, c.S = table(c.Files), table(c.S)
	c.Text, c.Seps = f(c.Text), f(c.Seps)
	if c.Term != nil {
		t := append([]simrt.TermLine(nil), c.Term...)
		for i := range t {
			t[i].Text = f(t[i].Text)
		}
		c.Term = t
	}
	if c.Q != nil {
		q := make([][]query, len(c.Q))
		for i := range c.Q {
			q[i] = append([]query(nil), c.Q[i]...)
			for j := range q[i] {
				q[i][j].Word = f(q[i][j].Word)
				q[i][j].Ign = list(q[i][j].Ign)
			}
		}
		c.Q = q
	}
	return c
}

type plainCase Case

func (c *Case) MarshalJSON() ([]byte, error) {
	p := plainCase(c.mapStrings(encStr))
	return json.Marshal(&p)
}

func (c *Case) UnmarshalJSON(b []byte) error {
	if err := json.Unmarshal(b, (*plainCase)(c)); err != nil {
		return err
	}
	*c = c.mapStrings(decStr)
	return nil
}

func (c *Case) clone() *Case {
	b, _ := json.Marshal(c)
	d := &Case{}
	if err := json.Unmarshal(b, d); err != nil {
		panic(err)
	}
	return d
}

func (c *Case) set(k string, v int) {
	if c.I == nil {
		c.I = map[string]int{}
	}
	c.I[k] = v
}

// text is the corpus as bytes.
func (c *Case) text() string {
	if c.Text != "" {
		return c.Text
	}
	if n := c.I["ids"]; n > 0 {
		return strings.Join(append(distinct(n), c.Words...), " ")
	}
	return joinWords(c.Words, c.Seps, c.Seed)
}

func joinWords(ws []string, seps string, seed uint64) string {
	if seps == "" {
		return strings.Join(ws, " ")
	}
	rs := []rune(seps)
	r := &R{seed ^ 0x77}
	var b strings.Builder
	put := func(min int) {
		for n := min + r.I(0, 0, 0, 1, 2); n > 0; n-- {
			b.WriteRune(rs[r.N(len(rs))])
		}
	}
	put(0)
	for i, w := range ws {
		if i > 0 {
			put(1)
		}
		b.WriteString(w)
	}
	put(0)
	return b.String()
}

// Outcome is what a run showed.
type Outcome struct {
	Class  string            `json:"class,omitempty"` // violation class, empty if none
	Msg    string            `json:"msg,omitempty"`
	Hash   uint64            `json:"hash"`
	Steps  int               `json:"steps"`
	Points int               `json:"points"`
	Sw     int               `json:"sw"`
	Tasks  int               `json:"tasks"`
	SimNS  int64             `json:"simns"`
	Worlds int               `json:"worlds"`
	Probes map[string]int    `json:"probes,omitempty"`
	Triv   bool              `json:"triv,omitempty"` // nothing to check
	Trace  []simrt.Deviation `json:"trace,omitempty"`
	Fine   bool              `json:"-"`
	out    *simrt.World
}

func (o *Outcome) bad(class, format string, a ...any) {
	if o.Class == "" {
		o.Class, o.Msg = class, fmt.Sprintf(format, a...)
		if len(o.Msg) > 3000 {
			o.Msg = o.Msg[:3000]
		}
	}
}

func (o *Outcome) probe(n string, k int) {
	if o.Probes == nil {
		o.Probes = map[string]int{}
	}
	o.Probes[n] += k
}

func (o *Outcome) merge(w *simrt.World, main bool) {
	o.Worlds++
	o.Steps += w.Step()
	o.Points += w.Picks
	o.Sw += w.Switches
	o.SimNS += w.Now()
	if w.MaxTasks > o.Tasks {
		o.Tasks = w.MaxTasks
	}
	o.Hash = simrt.Mix(o.Hash, w.Hash)
	if main {
		o.Trace = w.Trace
	}
	for k, v := range w.Probes {
		o.probe(k, v)
	}
}

// world runs fn under the scheduler of the case. A failure seen by the runtime
// (deadlock, endless run, crash) is a violation.
func (o *Outcome) world(c *Case, prep func(w *simrt.World), fn func(w *simrt.World)) *simrt.World {
	w := simrt.NewWorld(c.Sched, c.Seed)
	w.Limit, w.TickL = 2000000, 100000000
	if prep != nil {
		prep(w)
	}
	w.Run(func() { fn(w) })
	o.merge(w, true)
	if w.Fail != nil {
		o.bad(w.Fail.Kind, "%s\n%s", w.Fail.Msg, trimStack(w.Fail.Stack))
	}
	return w
}

// aux runs fn under a fixed schedule: a reference run.
func (o *Outcome) aux(seed uint64, fn func(w *simrt.World)) *simrt.World {
	w := simrt.NewWorld(simrt.Sched{Policy: "fifo"}, seed)
	w.Limit, w.TickL = 2000000, 100000000
	w.Run(func() { fn(w) })
	o.merge(w, false)
	if w.Fail != nil {
		o.bad(w.Fail.Kind, "in the reference run: %s\n%s", w.Fail.Msg, trimStack(w.Fail.Stack))
	}
	return w
}

func trimStack(s string) string {
	var keep []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "simrt/") || strings.Contains(l, "runtime/") {
			continue
		}
		keep = append(keep, strings.TrimSpace(l))
	}
	if len(keep) > 24 {
		keep = keep[:24]
	}
	return strings.Join(keep, "\n")
}

// Prop is one property's workload and oracle.
type Prop struct {
	ID     string
	Rule   string
	Real   string
	Quick  int // runs in the quick tier
	Gen    func(r *R, c *Case)
	Run    func(c *Case, o *Outcome)
	Shrink func(c *Case) []*Case
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

func propIDs() []string {
	var r []string
	for k := range props {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func strHash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// makeCase builds case number idx of a property.
func makeCase(p *Prop, seed uint64, idx int) *Case {
	r := &R{simrt.Mix(simrt.Mix(seed, strHash(p.ID)), uint64(idx))}
	c := &Case{Prop: p.ID, Idx: idx, Seed: r.U() >> 12}
	c.Sched = genSched(r)
	p.Gen(r, c)
	return c
}

// runCase executes a case. A panic of the harness itself is not a violation.
func runCase(c *Case) *Outcome {
	p := props[c.Prop]
	o := &Outcome{}
	p.Run(c, o)
	return o
}

// genSched picks a scheduler.
func genSched(r *R) simrt.Sched {
	s := simrt.Sched{Seed: r.U() >> 12}
	switch k := r.N(100); {
	case k < 36:
		s.Policy = "rand"
	case k < 50:
		s.Policy = "sticky"
	case k < 68:
		s.Policy = "pct"
		s.Depth = r.In(1, 6)
		s.Span = r.I(50, 200, 800, 3000)
	case k < 78:
		s.Policy = "block"
	case k < 84:
		s.Policy = "rr"
	case k < 88:
		s.Policy = "lifo"
	case k < 92:
		s.Policy = "fifo"
	default:
		s.Policy = "rand"
		for n := r.In(1, 3); n > 0; n-- {
			s.Starve = append(s.Starve, r.In(1, 12))
		}
	}
	if r.P(0.45) {
		s.Fine = true
		s.P = r.X(0.4, 0.15, 0.05, 0.01)
	}
	if r.P(0.15) {
		s.Stall = r.I(5, 20, 100)
		s.StallN = r.I(10, 100, 1000)
	}
	if r.P(0.15) {
		s.Jump = r.I(3, 17, 101)
	}
	return s
}

// ---- corpora ----

var alphabets = []string{"a", "ab", "abcdefghij", "abcdefghijklmnopqrstuvwxyz", "aAbBcC", "äöüéñ", "日本語言葉", "0123456789", "-_'.,!", "\U0001F600x", "#%\"`\\/<>&$*[]{}();:?|~^+=@", "%dsvqx", "#a", "+-0.1eE", "NaInf"}

// vocab makes n distinct words.
func vocab(r *R, n int) []string {
	seen := map[string]bool{}
	var out []string
	plain := r.P(0.6)
	if n > 1 && r.P(0.05) {
		a, b := twins(r)
		seen[a], seen[b] = true, true
		out = append(out, a, b)
	}
	for len(out) < n {
		var w string
		if plain {
			w = fmt.Sprintf("w%d", len(out))
			if r.P(0.2) {
				w = strings.ToUpper(w)
			}
		} else {
			al := []rune(alphabets[r.N(len(alphabets))])
			for k := r.In(1, 4); k > 0; k-- {
				w += string(al[r.N(len(al))])
			}
			if r.P(0.01) {
				w = strings.Repeat(w, 200)
			}
		}
		if len(seen) > 3 && !plain && r.P(0.3) {
			w += fmt.Sprint(len(out))
		}
		if !seen[w] {
			seen[w] = true
			out = append(out, w)
		} else {
			w += fmt.Sprint("q", len(seen))
			if !seen[w] {
				seen[w] = true
				out = append(out, w)
			}
		}
	}
	return out
}

// corpus makes n words over v distinct ones; every word occurs if n >= v.
func corpus(r *R, n, v int) []string {
	if n == 0 {
		return nil
	}
	if v > n {
		v = n
	}
	if v < 1 {
		v = 1
	}
	vo := vocab(r, v)
	ws := make([]string, 0, n)
	style := r.N(4)
	for i := 0; i < n; i++ {
		switch {
		case i < v && style != 3:
			ws = append(ws, vo[i])
		case style == 0:
			ws = append(ws, vo[r.N(v)])
		case style == 1: // skewed
			ws = append(ws, vo[int(float64(v)*r.F()*r.F()*r.F())])
		case style == 2: // runs
			if r.P(0.6) && len(ws) > 0 {
				ws = append(ws, ws[len(ws)-1])
			} else {
				ws = append(ws, vo[r.N(v)])
			}
		default:
			ws = append(ws, vo[i%v])
		}
	}
	if style == 1 || style == 0 {
		for i := range ws {
			j := r.N(i + 1)
			ws[i], ws[j] = ws[j], ws[i]
		}
	}
	return ws
}

// twins are two different words which look the same to code that does not look closely.
func twins(r *R) (string, string) {
	switch r.N(4) {
	case 0: // the same in their first bytes
		p := strings.Repeat(r.S("a", "xy", "é", "0"), r.I(2, 4, 7, 8, 16, 32, 50, 64, 100, 128, 255, 256))
		return p + "1", p + r.S("2", "0", "12")
	case 1: // the same letters, or the same number
		p := [][2]string{{"abc", "acb"}, {"ab", "ba"}, {"1", "1.0"}, {"1", "01"}, {"0", "-0"}, {"1e3", "1000"}, {"x", "x\x00"},
			{"\u00e9", "e\u0301"}, {"a", "a\u200b"}, {"a", "\ufeffa"}, {"a", "\u0430"}, {"\xff", "\xfe"}, {"\xff", "\ufffd"},
			{"nan", "NaN"}, {"inf", "infinity"}, {"_", "__"}, {".", ".."}, {"-", "--"}, {"K", "\u212a"}, {"s", "\u017f"}, {"\u0130", "i"}}[r.N(21)]
		return p[0], p[1]
	default: // the same under a 32 bit hash: FNV-1a, FNV-1, CRC, Adler, times 33, times 65599, times 31, CRC-C
		p := [][2]string{{"bgtpxmjm", "jykji"}, {"omwmnrzq", "mroujnz"}, {"vustua", "zythflu"}, {"npqixcg", "ocedybj"},
			{"zymau", "eeskuhw"}, {"ihwdb", "vgmybo"}, {"eourrfx", "doptxnn"}, {"jjkhd", "ncwofn"}, {"pfzrxzv", "ajhqqwrl"},
			{"oqjuuxdb", "cdqhlwlw"}, {"brfhqxxr", "vwoin"}, {"Aa", "BB"}, {"rnbmnq", "ycwcfso"}}[r.N(13)]
		return p[0], p[1]
	}
}

// distinct makes n different words.
func distinct(n int) []string {
	ws := make([]string, n)
	for i := range ws {
		ws[i] = fmt.Sprintf("w%d", i)
	}
	return ws
}

// Ref is the reference reading of a corpus.
type Ref struct {
	All   []int // every occurrence
	Doc   []int // occurrences inside the count limits
	Words []string
	ID    map[string]int
	Freq  []int
}

func reference(text string, lower bool, minc, maxc int) *Ref {
	f := &Ref{ID: map[string]int{}}
	for _, w := range strings.Fields(text) {
		if lower {
			w = strings.ToLower(w)
		}
		id, ok := f.ID[w]
		if !ok {
			id = len(f.Words)
			f.ID[w] = id
			f.Words = append(f.Words, w)
			f.Freq = append(f.Freq, 0)
		}
		f.Freq[id]++
		f.All = append(f.All, id)
	}
	for _, id := range f.All {
		if f.inside(id, minc, maxc) {
			f.Doc = append(f.Doc, id)
		}
	}
	return f
}

func (f *Ref) inside(id, minc, maxc int) bool {
	return f.Freq[id] >= minc && (maxc <= 0 || f.Freq[id] <= maxc)
}

type pair struct{ a, b int }

func mkpair(a, b int) pair {
	if a > b {
		a, b = b, a
	}
	return pair{a, b}
}

// cooc is the reference co-occurrence table.
func cooc(doc []int, win int, prox bool) map[pair]float64 {
	m := map[pair]float64{}
	for i := range doc {
		for d := 1; d <= win && i+d < len(doc); d++ {
			v := 1.0
			if prox {
				v = 1 / float64(d)
			}
			m[mkpair(doc[i], doc[i+d])] += v
		}
	}
	return m
}

func near(a, b, rel, abs float64) bool {
	return a == b || a != a && b != b || math.Abs(a-b) <= abs+rel*math.Max(math.Abs(a), math.Abs(b))
}
