package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"simrt"
)

func usage() {
	fmt.Fprintln(os.Stderr, "usage: sim check PROP quick|thorough | replay FILE | case PROP IDX | selftest N | bench PROP N | list")
	os.Exit(2)
}

func main() {
	if len(os.Args) < 2 {
		usage()
	}
	switch os.Args[1] {
	case "worker":
		worker()
	case "serve":
		serve()
	case "check":
		if len(os.Args) < 4 {
			usage()
		}
		os.Exit(check(os.Args[2], os.Args[3]))
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "case":
		p := props[os.Args[2]]
		i, _ := strconv.Atoi(os.Args[3])
		limits()
		c := makeCase(p, envSeed(), i)
		b, _ := json.MarshalIndent(c, "", " ")
		fmt.Println(string(b))
		o := runCase(c)
		o.Trace = nil
		b, _ = json.MarshalIndent(o, "", " ")
		fmt.Println(string(b))
		fmt.Println(o.Msg)
	case "ranges":
		n, _ := strconv.Atoi(os.Args[3])
		ranges(props[os.Args[2]], n)
	case "bench":
		p := props[os.Args[2]]
		n, _ := strconv.Atoi(os.Args[3])
		limits()
		t0 := time.Now()
		bad, triv := map[string]int{}, 0
		first := map[string]string{}
		kinds, trivial := map[string]int{}, map[string]int{}
		for i := 0; i < n; i++ {
			c := makeCase(p, envSeed(), i)
			kinds[c.Kind]++
			o := runCase(c)
			if o.Class != "" {
				bad[o.Class]++
				if first[o.Class] == "" {
					first[o.Class] = fmt.Sprintf("#%d %s", i, o.Msg)
				}
			}
			if o.Triv {
				triv++
				trivial[c.Kind]++
			}
		}
		fmt.Println(p.ID, n, "cases", time.Since(t0), "trivial", triv, trivial, "of", kinds, "bad", bad)
		for k, v := range first {
			fmt.Printf("--- %s: %.1500s\n", k, v)
		}
	case "selftest":
		n, _ := strconv.Atoi(os.Args[2])
		os.Exit(selftest(n))
	case "list":
		for _, id := range propIDs() {
			fmt.Println(id, props[id].Quick)
		}
	default:
		usage()
	}
}

func envSeed() uint64 {
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseUint(s, 10, 64); err == nil {
			return v
		}
		return strHash(s)
	}
	return 1
}

func limits() {
	runtime.GOMAXPROCS(1)
	debug.SetMaxStack(48 << 20)
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(2 << 30)
	_ = os.Chdir(scratch())
}

var scratchDir string

func scratch() string {
	if scratchDir == "" {
		scratchDir = os.TempDir()
	}
	return scratchDir
}

// worker runs every stride-th case and reports on file descriptor 3.
func worker() {
	limits()
	a := os.Args[2:]
	p := props[a[0]]
	seed, _ := strconv.ParseUint(a[1], 10, 64)
	from, _ := strconv.Atoi(a[2])
	stride, _ := strconv.Atoi(a[3])
	n, _ := strconv.Atoi(a[4])
	secs, _ := strconv.Atoi(a[5])
	out := bufio.NewWriter(os.NewFile(3, "out"))
	known := loadKnown(a[6])
	t0 := time.Now()
	probes := map[string]int{}
	for i := from; i < n; i += stride {
		if time.Since(t0) > time.Duration(secs)*time.Second {
			break
		}
		fmt.Fprintf(out, "B %d\n", i)
		out.Flush()
		c := makeCase(p, seed, i)
		o := runCase(c)
		for k, v := range o.Probes {
			probes[k] += v
		}
		if o.Class != "" && !known.match(p.ID, o) {
			b, _ := json.Marshal(o)
			fmt.Fprintf(out, "V %d %s\n", i, b)
			out.Flush()
			break
		}
		tr := 0
		if o.Triv {
			tr = 1
		}
		fmt.Fprintf(out, "R %d %d %d %d %d %d %d %d %d\n", i, o.Hash, o.Steps, o.Points, o.Sw, o.Tasks, o.SimNS, o.Worlds, tr)
	}
	b, _ := json.Marshal(probes)
	fmt.Fprintf(out, "P %s\n", b)
	out.Flush()
}

// serve runs cases given on standard input.
func serve() {
	limits()
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.NewFile(3, "out"))
	for {
		l, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		c := &Case{}
		if err := json.Unmarshal(l, c); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		o := runCase(c)
		b, _ := json.Marshal(o)
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}

// server drives a serving process, restarted after a crash.
type server struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err *tail
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(b []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 1<<16 {
		t.b = append(t.b, b...)
	}
	return len(b), nil
}

func (t *tail) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }

func child(args ...string) (*exec.Cmd, *os.File, *tail) {
	cmd := exec.Command(selfExe(), args...)
	pr, pw, err := os.Pipe()
	if err != nil {
		die("%v", err)
	}
	cmd.ExtraFiles = []*os.File{pw}
	t := &tail{}
	cmd.Stderr = t
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single")
	go func() {}()
	return cmd, pr, t
}

func selfExe() string {
	e, err := os.Executable()
	if err != nil {
		die("%v", err)
	}
	return e
}

func die(f string, a ...any) {
	fmt.Printf("ERROR: "+f+"\n", a...)
	os.Exit(2)
}

func (s *server) start() {
	cmd, pr, t := child("serve")
	in, err := cmd.StdinPipe()
	if err != nil {
		die("%v", err)
	}
	if err := cmd.Start(); err != nil {
		die("%v", err)
	}
	cmd.ExtraFiles[0].Close()
	s.cmd, s.in, s.out, s.err = cmd, in, bufio.NewReaderSize(pr, 1<<20), t
}

func (s *server) stop() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// eval runs a case in the serving process; a crash is an outcome.
func (s *server) eval(c *Case) *Outcome {
	if s.cmd == nil {
		s.start()
	}
	b, _ := json.Marshal(c)
	s.in.Write(append(b, '\n'))
	type res struct {
		l   []byte
		err error
	}
	ch := make(chan res, 1)
	go func() {
		l, err := s.out.ReadBytes('\n')
		ch <- res{l, err}
	}()
	select {
	case r := <-ch:
		if r.err != nil {
			s.cmd.Wait()
			msg := s.err.String()
			s.cmd = nil
			return &Outcome{Class: "crash", Msg: "the process died: " + firstLines(msg, 30)}
		}
		o := &Outcome{}
		if err := json.Unmarshal(r.l, o); err != nil {
			die("%v", err)
		}
		return o
	case <-time.After(60 * time.Second):
		s.stop()
		return &Outcome{Class: "timeout", Msg: "the case does not end within a minute of real time, far beyond its step budget: it computes or allocates without end"}
	}
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

// ---- known findings ----

type knownFinding struct{ prop, class, match, text string }
type knownList []knownFinding

func loadKnown(path string) knownList {
	var k knownList
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=C01 class=deadlock match=<text to the end of the line>
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		var f knownFinding
		rest := strings.TrimPrefix(l, "known: ")
		f.text = rest
		if i := strings.Index(rest, "match="); i >= 0 {
			f.match = strings.TrimSpace(rest[i+6:])
			rest = rest[:i]
		}
		for _, t := range strings.Fields(rest) {
			if v, ok := strings.CutPrefix(t, "property="); ok {
				f.prop = v
			}
			if v, ok := strings.CutPrefix(t, "class="); ok {
				f.class = v
			}
		}
		if f.prop != "" && f.class != "" && f.match != "" {
			k = append(k, f)
		}
	}
	return k
}

func (k knownList) match(prop string, o *Outcome) bool {
	for _, f := range k {
		if f.prop == prop && f.class == o.Class && strings.Contains(o.Msg, f.match) {
			return true
		}
	}
	return false
}

// ---- the check ----

func check(id, tier string) int {
	p := props[id]
	if p == nil {
		die("no such property in this build: %s", id)
	}
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	seed := envSeed()
	n, secs := p.Quick, 150
	if tier == "thorough" {
		n, secs = p.Quick*60, 600
	}
	if v := os.Getenv("VERIF_RUNS"); v != "" {
		n, _ = strconv.Atoi(v)
	}
	if v := os.Getenv("VERIF_SECS"); v != "" {
		secs, _ = strconv.Atoi(v)
	}
	fmt.Printf("seed %d property %s tier %s runs %d\n", seed, id, tier, n)
	knownPath := filepath.Join(verif, "known_findings.txt")
	known := loadKnown(knownPath)
	for _, f := range known {
		if f.prop == id {
			fmt.Printf("KNOWN-FINDING: %s\n", f.text)
		}
	}
	t0 := time.Now()
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	if nw < 2 {
		nw = 2
	}
	st := newStats()
	viol := map[int]*Outcome{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	var cmds []*exec.Cmd
	stop := false
	trouble := ""
	for k := 0; k < nw; k++ {
		cmd, pr, tl := child("worker", id, fmt.Sprint(seed), fmt.Sprint(k), fmt.Sprint(nw), fmt.Sprint(n), fmt.Sprint(secs), knownPath)
		if err := cmd.Start(); err != nil {
			die("%v", err)
		}
		cmd.ExtraFiles[0].Close()
		cmds = append(cmds, cmd)
		wg.Add(1)
		go func() {
			defer wg.Done()
			cur, done := -1, false
			last := time.Now()
			var lmu sync.Mutex
			hung := false
			quit := make(chan bool)
			go func() {
				for {
					select {
					case <-quit:
						return
					case <-time.After(time.Second):
					}
					lmu.Lock()
					old := time.Since(last) > 60*time.Second
					lmu.Unlock()
					if old {
						hung = true
						cmd.Process.Kill()
						return
					}
				}
			}()
			sc := bufio.NewReaderSize(pr, 1<<20)
			for {
				l, err := sc.ReadString('\n')
				if err != nil {
					break
				}
				lmu.Lock()
				last = time.Now()
				lmu.Unlock()
				l = strings.TrimSuffix(l, "\n")
				switch l[0] {
				case 'B':
					cur, _ = strconv.Atoi(l[2:])
				case 'R':
					mu.Lock()
					st.add(l[2:])
					mu.Unlock()
					cur = -1
				case 'V':
					f := strings.SplitN(l, " ", 3)
					o := &Outcome{}
					if err := json.Unmarshal([]byte(f[2]), o); err != nil {
						die("%v", err)
					}
					mu.Lock()
					viol[cur] = o
					st.runs++
					mu.Unlock()
					cur = -1
				case 'P':
					m := map[string]int{}
					json.Unmarshal([]byte(l[2:]), &m)
					mu.Lock()
					for k, v := range m {
						st.probes[k] += v
					}
					mu.Unlock()
					done = true
				}
			}
			close(quit)
			err := cmd.Wait()
			mu.Lock()
			defer mu.Unlock()
			if !done && !stop {
				if hung && cur >= 0 {
					viol[cur] = &Outcome{Class: "timeout", Msg: "the case did not end within a minute of real time"}
				} else if hung {
					trouble = "a worker stopped reporting"
				} else if cur >= 0 {
					viol[cur] = &Outcome{Class: "crash", Msg: "the process died: " + firstLines(tl.String(), 30)}
				} else {
					trouble = fmt.Sprintf("worker ended early: %v %s", err, firstLines(tl.String(), 10))
				}
			}
			// the others need not go on once something was found
			if (len(viol) > 0 || trouble != "") && !stop {
				stop = true
				go func() {
					time.Sleep(1500 * time.Millisecond)
					for _, c := range cmds {
						c.Process.Kill()
					}
				}()
			}
		}()
	}
	wg.Wait()
	st.wall = time.Since(t0).Seconds()

	ev := func(v int) {
		writeEvidence(p, verif, tier, seed, st, v, time.Since(t0).Seconds())
	}
	var idx []int
	for i := range viol {
		idx = append(idx, i)
	}
	sort.Ints(idx)
	for _, i := range idx {
		c := makeCase(p, seed, i)
		var sv server
		o := sv.eval(c)
		if o.Class == "" || (o.Class == "timeout" && viol[i].Class != "timeout") {
			o = sv.eval(c)
		}
		if o.Class == "" && viol[i].Class == "timeout" {
			fmt.Printf("case %d took more than a minute once, and ended when it was repeated\n", i)
			sv.stop()
			continue
		}
		if o.Class == "" {
			trouble = fmt.Sprintf("case %d showed %s (%s) but did not repeat in a fresh process", i, viol[i].Class, viol[i].Msg)
			sv.stop()
			continue
		}
		if known.match(id, o) {
			sv.stop()
			continue
		}
		fmt.Printf("case %d: %s: %s\n", i, o.Class, o.Msg)
		if o.Class == "timeout" {
			// every run takes a minute: keep the case as it is
			sv.stop()
			path := saveReplay(verif, c, o, i, seed, tier)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
			ev(1)
			return 1
		}
		m, mo := minimise(p, c, o, &sv)
		sv.stop()
		path := saveReplay(verif, m, mo, i, seed, tier)
		// the file must reproduce the violation in a fresh process, exactly
		var f1 server
		a := f1.eval(readReplay(path))
		f1.stop()
		if a.Class != mo.Class {
			fmt.Printf("minimised case does not repeat (%q); keeping the original\n", a.Class)
			path = saveReplay(verif, c, o, i, seed, tier)
			mo = o
		}
		fmt.Printf("minimised: %s: %s\n", mo.Class, mo.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		ev(1)
		return 1
	}
	if trouble != "" {
		fmt.Println("ERROR:", trouble)
		return 2
	}
	st.determinism(p, seed, known)
	ev(0)
	fmt.Printf("property %s held on %d runs (%d distinct interleavings) in %.1f s\n", id, st.runs, len(st.hashes), time.Since(t0).Seconds())
	return 0
}

type stats struct {
	runs, triv               int
	hashes                   map[uint64]bool
	nontriv                  map[uint64]bool
	steps, points, sw, simns int64
	worlds                   int
	tasks                    int
	probes                   map[string]int
	byIdx                    map[int]uint64
	detRuns, detBad          int
	wall                     float64
}

func newStats() *stats {
	return &stats{hashes: map[uint64]bool{}, nontriv: map[uint64]bool{}, probes: map[string]int{}, byIdx: map[int]uint64{}}
}

func (s *stats) add(l string) {
	f := strings.Fields(l)
	num := func(i int) int64 { v, _ := strconv.ParseInt(f[i], 10, 64); return v }
	h, _ := strconv.ParseUint(f[1], 10, 64)
	s.runs++
	if s.runs < 5000000 { // enough to count, and memory is limited
		s.hashes[h] = true
		if num(8) == 0 {
			s.nontriv[h] = true
		}
	}
	if num(8) != 0 {
		s.triv++
	}
	s.steps += num(2)
	s.points += num(3)
	s.sw += num(4)
	if int(num(5)) > s.tasks {
		s.tasks = int(num(5))
	}
	s.simns += num(6)
	s.worlds += int(num(7))
	if i := int(num(0)); i < 64 {
		s.byIdx[i] = h
	}
}

// determinism repeats some cases in one fresh process and compares.
func (s *stats) determinism(p *Prop, seed uint64, known knownList) {
	var sv server
	for i := 0; i < 24; i++ {
		h, ok := s.byIdx[i]
		if !ok {
			continue
		}
		o := sv.eval(makeCase(p, seed, i))
		s.detRuns++
		if o.Hash != h || o.Class != "" && !known.match(p.ID, o) {
			s.detBad++
			fmt.Printf("ERROR: case %d did not repeat exactly\n", i)
		}
	}
	sv.stop()
}

func writeEvidence(p *Prop, verif, tier string, seed uint64, s *stats, viol int, wall float64) {
	faults, probes := map[string]int{}, map[string]int{}
	for k, v := range s.probes {
		if strings.HasPrefix(k, "fault:") {
			faults[k[6:]] = v
		} else {
			probes[k] = v
		}
	}
	var samples []any
	for i := 0; i < 3; i++ {
		samples = append(samples, makeCase(p, seed, i))
	}
	perh := 0.0
	if s.wall > 0 {
		perh = float64(s.runs) / s.wall * 3600
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations":            s.runs,
			"distinct_nontrivial":    len(s.nontriv),
			"rule":                   p.Rule + " Distinct: the hash over every scheduling decision (which task at which step), of all simulated worlds of the run; non-trivial: the run reached the oracle with something to check.",
			"samples":                samples,
			"simulated_worlds":       s.worlds,
			"seeds_per_hour":         int(perh),
			"simulated_time_s":       float64(s.simns) / 1e9,
			"scheduling_steps":       s.steps,
			"scheduling_decisions":   s.points,
			"task_switches":          s.sw,
			"most_tasks_at_once":     s.tasks,
			"distinct_interleavings": len(s.hashes),
			"faults_injected":        faults,
			"probes":                 probes,
			"trivial_runs":           s.triv,
			"repeat_check":           map[string]int{"runs_repeated_in_a_fresh_process": s.detRuns, "that_differed": s.detBad},
			"real_code":              "all of ynqa/wego and golang.org/x/sync/semaphore, instrumented from the working tree by sim/instr; " + p.Real,
			"stubs":                  "Go scheduler, channels, sync, atomic, time, math/rand, map iteration order, standard output, os file system, signals, terminal (liner): simrt",
		},
		"assumptions": []string{
			"single statements on float vector elements are not interrupted (updates of shared vectors are unsynchronised by design)",
			"a read of a shared variable between two preemption points sees the latest write (no weak memory effects)",
			"seeded sampling: a clean batch is evidence, not proof",
		},
		"wall_s": wall, "violations": viol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0755)
	if err := os.WriteFile(filepath.Join(dir, p.ID+".json"), append(b, '\n'), 0644); err != nil {
		die("%v", err)
	}
}

// Replay is a replay file.
type Replay struct {
	Property  string `json:"property"`
	Violation string `json:"violation"`
	Message   string `json:"message"`
	Hash      uint64 `json:"hash,string"`
	FromSeed  uint64 `json:"from_seed"`
	FromCase  int    `json:"from_case"`
	Case      *Case  `json:"case"`
}

func saveReplay(verif string, c *Case, o *Outcome, idx int, seed uint64, tier string) string {
	dir := filepath.Join(verif, "replays")
	os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", c.Prop, seed, idx))
	r := Replay{c.Prop, o.Class, o.Msg, o.Hash, seed, idx, c}
	b, _ := json.MarshalIndent(r, "", " ")
	if err := os.WriteFile(path, append(b, '\n'), 0644); err != nil {
		die("%v", err)
	}
	return path
}

func readReplay(path string) *Case {
	b, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		die("%v", err)
	}
	return r.Case
}

func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		die("%v", err)
	}
	var sv server
	o := sv.eval(r.Case)
	sv.stop()
	if o.Class == "" {
		fmt.Printf("replay: property %s held\n", r.Property)
		return 0
	}
	same := "same violation"
	if o.Class != r.Violation || (o.Hash != r.Hash && o.Class != "crash") {
		same = fmt.Sprintf("differs from the recorded violation (%s)", r.Violation)
	}
	fmt.Printf("%s: %s\n%s\nVIOLATION property=%s replay=%s\n", o.Class, o.Msg, same, r.Property, path)
	return 1
}

// ---- minimisation ----

func sameClass(a, b *Outcome) bool {
	if a.Class != b.Class {
		return false
	}
	if a.Class == "panic" {
		return firstLines(a.Msg, 1)[:min(12, len(firstLines(a.Msg, 1)))] == firstLines(b.Msg, 1)[:min(12, len(firstLines(b.Msg, 1)))]
	}
	return true
}

func minimise(p *Prop, c *Case, o *Outcome, sv *server) (*Case, *Outcome) {
	t0 := time.Now()
	evals := 0
	budget := 45 * time.Second
	spent := func() bool { return evals > 3000 || time.Since(t0) > budget }
	try := func(d *Case) *Outcome {
		evals++
		x := sv.eval(d)
		if sameClass(o, x) {
			return x
		}
		return nil
	}
	// smaller scenarios first, under the same kind of scheduler
	for round := 0; round < 6 && !spent(); round++ {
		changed := false
		for k := 0; !spent(); {
			cands := shrinks(p, c)
			if k >= len(cands) {
				break
			}
			d := cands[k]
			var x *Outcome
			for s := uint64(0); s < 4 && x == nil && !spent(); s++ {
				e := d
				if s > 0 {
					e = d.clone()
					e.Sched.Seed = d.Sched.Seed + s*7919
				}
				if x = try(e); x != nil {
					d = e
				}
			}
			if x != nil {
				c, o = d, x
				changed = true
				continue // same position again in the new list
			}
			k++
		}
		if !changed {
			break
		}
	}
	// then the schedule: only its deviations from running on
	if len(o.Trace) > 0 || c.Sched.Policy != "replay" {
		d := c.clone()
		d.Sched = simrt.Sched{Policy: "replay", Seed: c.Sched.Seed, Fine: c.Sched.Fine, Jump: c.Sched.Jump, Dev: o.Trace}
		if x := try(d); x != nil {
			c, o = d, x
			for size := (len(c.Sched.Dev) + 1) / 2; size >= 1 && !spent(); size /= 2 {
				for i := 0; i < len(c.Sched.Dev) && !spent(); {
					e := c.clone()
					j := min(i+size, len(c.Sched.Dev))
					e.Sched.Dev = append(append([]simrt.Deviation{}, c.Sched.Dev[:i]...), c.Sched.Dev[j:]...)
					if x := try(e); x != nil {
						c, o = e, x
					} else {
						i += size
					}
				}
			}
		}
	}
	fmt.Printf("minimised with %d runs in %.1f s\n", evals, time.Since(t0).Seconds())
	return c, o
}

// cuts proposes removals from a list of n: halves, quarters, ..., single ones
// unless there would be too many.
func cuts(n int, f func(i, j int)) {
	for size := (n + 1) / 2; size >= 1 && n/size*n <= 4000000; size /= 2 {
		for i := 0; i < n; i += size {
			f(i, min(i+size, n))
		}
		if size > 1 && size < 4 {
			size = 2
		}
	}
}

func without[T any](s []T, i, j int) []T {
	return append(append([]T{}, s[:i]...), s[j:]...)
}

// shrinks lists simpler cases. Each property adds its own.
func shrinks(p *Prop, c *Case) []*Case {
	var out []*Case
	add := func(f func(d *Case)) {
		d := c.clone()
		f(d)
		a, _ := json.Marshal(c)
		b, _ := json.Marshal(d)
		if !bytes.Equal(a, b) {
			out = append(out, d)
		}
	}
	if p.Shrink != nil {
		out = append(out, p.Shrink(c)...)
	}
	cuts(len(c.Rd.Faults), func(i, j int) { add(func(d *Case) { d.Rd.Faults = without(d.Rd.Faults, i, j) }) })
	cuts(len(c.Wr.Faults), func(i, j int) { add(func(d *Case) { d.Wr.Faults = without(d.Wr.Faults, i, j) }) })
	cuts(len(c.FSF), func(i, j int) { add(func(d *Case) { d.FSF = without(d.FSF, i, j) }) })
	add(func(d *Case) { d.Rd = Stream{Faults: d.Rd.Faults} })
	add(func(d *Case) { d.Rd.Empty = 0 })
	add(func(d *Case) { d.Rd.EOFD = false })
	add(func(d *Case) { d.Rd.Delay = 0 })
	add(func(d *Case) { d.Seps = "" })
	add(func(d *Case) { d.Sched.Stall = 0 })
	add(func(d *Case) { d.Sched.Jump = 0 })
	add(func(d *Case) { d.Sched.Starve = nil })
	add(func(d *Case) { d.Sched.Fine = false })
	return out
}

// shrinkList builds the removals of a list-valued field.
func shrinkWords(c *Case) (out []*Case) {
	cuts(len(c.Words), func(i, j int) {
		d := c.clone()
		d.Words = without(d.Words, i, j)
		out = append(out, d)
	})
	if n := c.I["ids"]; n > 2 {
		for _, k := range []int{n / 2, n * 3 / 4, n - 1} {
			d := c.clone()
			d.set("ids", k)
			out = append(out, d)
		}
	}
	return
}

// shrinkModel proposes simpler settings.
func shrinkModel(c *Case, fields string) (out []*Case) {
	add := func(name string, f func(m *MO) bool) {
		if !strings.Contains(" "+fields+" ", " "+name+" ") {
			return
		}
		d := c.clone()
		if f(&d.M) {
			out = append(out, d)
		}
	}
	to := func(p *int, v int) bool {
		if *p == v || (*p < v && v > 1) {
			return false
		}
		*p = v
		return true
	}
	off := func(p *bool) bool { x := *p; *p = false; return x }
	add("iter", func(m *MO) bool { return to(&m.Iter, 1) })
	add("iter", func(m *MO) bool { return to(&m.Iter, 2) })
	add("g", func(m *MO) bool { return to(&m.G, 1) })
	add("g", func(m *MO) bool { return to(&m.G, 2) })
	add("b", func(m *MO) bool { return to(&m.B, 1) })
	add("b", func(m *MO) bool { return to(&m.B, 2) })
	add("win", func(m *MO) bool { return to(&m.Win, 1) })
	add("win", func(m *MO) bool { return to(&m.Win, 2) })
	add("neg", func(m *MO) bool { return to(&m.Neg, 0) })
	add("neg", func(m *MO) bool { return to(&m.Neg, 1) })
	add("dim", func(m *MO) bool { return to(&m.Dim, 1) })
	add("verbose", func(m *MO) bool { return off(&m.Verbose) })
	add("lower", func(m *MO) bool { return off(&m.Lower) })
	add("depth", func(m *MO) bool { return to(&m.Depth, 0) })
	add("minc", func(m *MO) bool { return to(&m.MinC, 0) })
	add("maxc", func(m *MO) bool { return to(&m.MaxC, -1) })
	return
}

// selftest runs cases twice, in one process and spread over fresh ones.
func selftest(n int) int {
	bad := 0
	for _, id := range propIDs() {
		p := props[id]
		var a, b server
		ha := make([]string, n)
		key := func(o *Outcome) string {
			pb, _ := json.Marshal(o.Probes)
			return fmt.Sprint(o.Hash, o.Class, o.Steps, o.Sw, len(o.Trace), string(pb))
		}
		for i := 0; i < n; i++ {
			ha[i] = key(a.eval(makeCase(p, envSeed(), i)))
		}
		diff := 0
		for i := n - 1; i >= 0; i-- {
			if i%7 == 0 {
				b.stop()
			}
			if x := key(b.eval(makeCase(p, envSeed(), i))); x != ha[i] {
				diff++
				if diff < 3 {
					fmt.Printf("%s case %d differs:\n %s\n %s\n", id, i, ha[i], x)
				}
			}
		}
		a.stop()
		b.stop()
		fmt.Println(id, n, "cases repeated,", diff, "differ")
		bad += diff
	}
	if bad > 0 {
		return 1
	}
	return 0
}
