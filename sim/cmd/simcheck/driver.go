package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

func realNow() int64 {
	var tv syscall.Timeval
	syscall.Gettimeofday(&tv)
	return tv.Sec
}

// Config of the orchestrator.
type Config struct {
	prop         *Prop
	tier         string
	seed         uint64
	bin, raceBin string
	scratch      string
	evidence     string
	replays      string
	known        string
	meta         string
	workers      int
	runs         int
	wall         time.Duration
	points       []string
	pointBase    int
	seq          atomic.Int64
}

// child runs one job in a fresh process.
type childOut struct {
	res   *JobResult
	died  bool
	index int
	phase byte
	text  string // stderr and race reports
	hung  bool
}

func (c *Config) child(j Job, limit time.Duration) childOut {
	dir := filepath.Join(c.scratch, fmt.Sprintf("job%d", c.seq.Add(1)))
	must(os.MkdirAll(dir, 0o755))
	defer os.RemoveAll(dir)
	j.Scratch = dir
	j.RefBin = c.bin
	bin := c.bin
	if c.prop.race {
		bin = c.raceBin
	}
	cmd := exec.Command(bin, "worker")
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GOTRACEBACK=single",
		"GORACE=exitcode=0 atexit_sleep_ms=0 halt_on_error=0 log_path="+filepath.Join(dir, "race"))
	var in, out, errb bytes.Buffer
	must(writeMsg(&in, j))
	cmd.Stdin, cmd.Stdout, cmd.Stderr = &in, &out, &errb
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	must(cmd.Start())
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var o childOut
	var err error
	select {
	case err = <-done:
	case <-time.After(limit):
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		err = <-done
		o.hung = true
	}
	o.text = clip(errb.String(), 6000)
	if m, _ := filepath.Glob(filepath.Join(dir, "race.*")); len(m) > 0 {
		b, _ := os.ReadFile(m[0])
		o.text += clip(string(b), 8000)
	}
	var res JobResult
	if e := readMsg(bufio.NewReader(&out), &res); e == nil && err == nil {
		o.res = &res
		return o
	}
	if x, ok := err.(*exec.ExitError); ok && x.ExitCode() == 3 {
		fmt.Println("simcheck: harness error in a worker:", o.text)
		os.Exit(2)
	}
	o.died = true
	b, _ := os.ReadFile(filepath.Join(dir, progressFile))
	if len(b) >= 16 {
		fmt.Sscanf(string(b[:8]), "%d", &o.index)
		o.phase = b[15]
	}
	return o
}

// outcome of a candidate: the violation kind, "" if none
func (c *Config) judge(recs []RunRec, verbose bool) (kind string, o childOut) {
	o = c.child(Job{Prop: c.prop.id, Recs: recs, Verbose: verbose}, 120*time.Second)
	if o.hung {
		return "", o
	}
	if o.died {
		if o.phase == 'x' && o.index == len(recs)-1 {
			return "crash", o
		}
		return "", o
	}
	if o.res.Violation != nil && o.res.Index == len(recs)-1 {
		return o.res.Violation.Kind, o
	}
	return "", o
}

// Replay is the file written for a violation.
type Replay struct {
	Property  string    `json:"property"`
	VerifSeed uint64    `json:"verif_seed"`
	Run       int       `json:"run"`
	Seed      uint64    `json:"seed"`
	Violation Violation `json:"violation"`
	Runs      []RunRec  `json:"runs"`
	Trace     []string  `json:"trace"`
	Report    string    `json:"report,omitempty"`
	Minimised string    `json:"minimised"`
}

func orchestrate(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	c := &Config{}
	id := fs.String("prop", "", "")
	fs.StringVar(&c.tier, "tier", "quick", "")
	fs.StringVar(&c.bin, "bin", "", "")
	fs.StringVar(&c.raceBin, "racebin", "", "")
	fs.StringVar(&c.scratch, "scratch", "", "")
	fs.StringVar(&c.evidence, "evidence", "", "")
	fs.StringVar(&c.replays, "replays", "", "")
	fs.StringVar(&c.known, "known", "", "")
	fs.StringVar(&c.meta, "meta", "", "")
	fs.IntVar(&c.workers, "workers", 8, "")
	runs := fs.Int("runs", 0, "")
	wall := fs.Int("wall", 0, "seconds")
	must(fs.Parse(args))
	c.prop = props()[*id]
	if c.prop == nil {
		fmt.Fprintln(os.Stderr, "simcheck: unknown property", *id)
		os.Exit(2)
	}
	c.seed = uint64(envInt("VERIF_SEED", 1))
	c.runs = c.prop.quick
	c.wall = 75 * time.Second
	if c.tier == "thorough" {
		c.runs = c.prop.deep
		c.wall = 780 * time.Second
	}
	if *runs > 0 {
		c.runs = *runs
	}
	if *wall > 0 {
		c.wall = time.Duration(*wall) * time.Second
	}
	c.loadMeta()
	fmt.Printf("simcheck: property=%s tier=%s VERIF_SEED=%d runs=%d\n", c.prop.id, c.tier, c.seed, c.runs)
	start := time.Now()
	os.Exit(c.search(start))
}

func (c *Config) loadMeta() {
	b, err := os.ReadFile(c.meta)
	must(err)
	var m struct {
		Points []string
	}
	must(json.Unmarshal(b, &m))
	c.points, c.pointBase = m.Points, 64
}

type found struct {
	from  int // first run of the batch
	index int // violating run within the batch
	kind  string
	text  string
	v     Violation
	rec   *RunRec
}

func (c *Config) search(start time.Time) int {
	batches := (c.runs + c.prop.batch - 1) / c.prop.batch
	var next atomic.Int64
	var stop atomic.Bool
	var mu sync.Mutex
	total := newStats()
	seen := map[int]bool{}
	var finds []found
	var trouble []string
	deadline := start.Add(c.wall)
	doneBatches := 0
	knownHits := map[string]bool{}
	known := c.loadKnown()
	var wg sync.WaitGroup
	for w := 0; w < c.workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !stop.Load() {
				b := int(next.Add(1)) - 1
				if b >= batches || time.Now().After(deadline) {
					return
				}
				from := b * c.prop.batch
				to := from + c.prop.batch
				if to > c.runs {
					to = c.runs
				}
				begin := from
				for begin < to && !stop.Load() {
					o := c.child(Job{Prop: c.prop.id, Base: c.seed, From: begin, To: to, Points: len(c.points), Deadline: deadline.Unix() + 1}, 240*time.Second)
					mu.Lock()
					if o.hung {
						trouble = append(trouble, fmt.Sprintf("batch from run %d: no answer within the time limit (last run started: %d)", begin, begin+o.index))
						stop.Store(true)
						mu.Unlock()
						return
					}
					if o.died {
						i := begin + o.index
						if o.phase == 'x' {
							finds = append(finds, found{from: begin, index: o.index, kind: "crash", text: o.text,
								v: Violation{"crash", "the process died: " + firstLines(o.text, 2)}})
							stop.Store(true)
							mu.Unlock()
							return
						}
						if o.phase != 'r' {
							trouble = append(trouble, fmt.Sprintf("worker died before its first run: %s", firstLines(o.text, 4)))
							stop.Store(true)
							mu.Unlock()
							return
						}
						total.Skipped["reference crashed"]++
						begin = i + 1
						mu.Unlock()
						continue
					}
					total.merge(o.res)
					for _, s := range o.res.Seen {
						seen[s] = true
					}
					if v := o.res.Violation; v != nil {
						if k := known.match(c.prop.id, v); k != "" {
							knownHits[k] = true
							begin += o.res.Index + 1
							mu.Unlock()
							continue
						}
						finds = append(finds, found{from: begin, index: o.res.Index, kind: v.Kind, v: *v, rec: o.res.Rec, text: o.text})
						stop.Store(true)
					}
					begin = to
					doneBatches++
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	searchWall := time.Since(start)
	for k := range knownHits {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop.id, k)
	}
	code := 0
	violations := 0
	if len(trouble) > 0 {
		for _, t := range trouble {
			fmt.Println("simcheck: trouble:", t)
		}
		code = 2
	}
	sort.Slice(finds, func(i, j int) bool { return finds[i].from+finds[i].index < finds[j].from+finds[j].index })
	for _, f := range finds {
		path, ok := c.report(f)
		if !ok {
			fmt.Printf("simcheck: run %d failed (%s: %s) but does not fail again from the same seed\n", f.from+f.index, f.kind, clip(f.v.Detail, 400))
			if code == 0 {
				code = 2
			}
			continue
		}
		violations++
		code = 1
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop.id, path)
		break
	}
	c.writeEvidence(total, seen, searchWall, time.Since(start), violations)
	if code == 0 {
		fmt.Printf("simcheck: property=%s held on %d runs (%d distinct non-trivial) in %.1fs\n", c.prop.id, total.Runs, len(total.Hashes), time.Since(start).Seconds())
	}
	return code
}

func firstLines(s string, n int) string {
	l := strings.SplitN(strings.TrimSpace(s), "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " / ")
}

func (t *Stats) merge(r *JobResult) {
	s := r.Stats
	t.Runs += s.Runs
	t.Ops += s.Ops
	t.Switches += s.Switches
	t.SimTime += s.SimTime
	add := func(d, m map[string]int) {
		for k, v := range m {
			d[k] += v
		}
	}
	add(t.Skipped, s.Skipped)
	add(t.Faults, s.Faults)
	add(t.Probes, s.Probes)
	add(t.Kinds, s.Kinds)
	for _, h := range r.Hashes {
		t.Hashes[h] = true
	}
	for _, h := range r.Scheds {
		t.Scheds[h] = true
	}
	if len(t.Samples) < 3 {
		t.Samples = append(t.Samples, s.Samples...)
	}
}

// report reproduces, minimises and writes a violation.
func (c *Config) report(f found) (string, bool) {
	i := f.from + f.index
	seed := fnvSeed(c.seed, c.prop.id, i)
	var recs []RunRec
	try := func(rs []RunRec) (string, childOut) { return c.judge(rs, false) }
	// alone, from the seed
	kind, o := try([]RunRec{{Seed: seed}})
	if kind != "" {
		recs = []RunRec{{Seed: seed}}
	} else {
		// with the runs of its process before it
		for k := f.from; k <= i; k++ {
			recs = append(recs, RunRec{Seed: fnvSeed(c.seed, c.prop.id, k)})
		}
		kind, o = try(recs)
		if kind == "" {
			return "", false
		}
	}
	orig := len(recs)
	// turn the violating run into explicit choices (a crash leaves none: keep the seed)
	last := recs[len(recs)-1]
	if o.res != nil && o.res.Rec != nil {
		g := *o.res.Rec
		cand := append(append([]RunRec(nil), recs[:len(recs)-1]...), g)
		if k, _ := try(cand); k == kind {
			recs = cand
			last = g
		}
	}
	nChoices, nSegs := size(last)
	tried := 0
	end := time.Now().Add(25 * time.Second)
	if c.tier == "thorough" {
		end = time.Now().Add(60 * time.Second)
	}
	same := func(rs []RunRec) bool {
		if time.Now().After(end) {
			return false
		}
		k, _ := try(rs)
		return k == kind
	}
	par := func(cands [][]RunRec) int { // index of the first candidate that still fails, -1
		if time.Now().After(end) {
			return -1
		}
		oks := make([]bool, len(cands))
		var wg sync.WaitGroup
		for i := range cands {
			wg.Add(1)
			go func() { defer wg.Done(); oks[i] = same(cands[i]) }()
		}
		wg.Wait()
		tried += len(cands)
		for i, ok := range oks {
			if ok {
				return i
			}
		}
		return -1
	}
	recs = minimise(recs, par, end)
	kind2, o := c.judge(recs, true)
	if kind2 != kind { // cannot happen unless the code is not deterministic
		return "", false
	}
	rp := Replay{Property: c.prop.id, VerifSeed: c.seed, Run: i, Seed: seed, Runs: recs}
	if o.res != nil {
		rp.Violation = *o.res.Violation
		rp.Trace = o.res.Trace
	} else {
		rp.Violation = Violation{"crash", "the process died: " + firstLines(o.text, 2)}
	}
	rp.Report = clip(o.text, 8000)
	a, b := size(recs[len(recs)-1])
	rp.Minimised = fmt.Sprintf("from %d run(s), %d choices, %d schedule segments to %d run(s), %d choices, %d schedule segments in %d attempts", orig, nChoices, nSegs, len(recs), a, b, tried)
	must(os.MkdirAll(c.replays, 0o755))
	path := filepath.Join(c.replays, fmt.Sprintf("%s-%016x.json", c.prop.id, seed))
	out, _ := json.MarshalIndent(rp, "", " ")
	must(os.WriteFile(path, out, 0o644))
	fmt.Printf("simcheck: run %d (seed %#x) violates %s: %s: %s\n", i, seed, c.prop.id, rp.Violation.Kind, rp.Violation.Detail)
	for _, l := range rp.Trace {
		fmt.Println("  |", clip(l, 1200))
	}
	fmt.Println("simcheck: minimised", rp.Minimised)
	return path, true
}

func size(r RunRec) (choices, segs int) {
	for _, s := range r.Scheds {
		segs += len(s)
	}
	return len(r.Choices), segs
}

// minimise shrinks the list of runs, then the schedule and the choices of the
// last one.
func minimise(recs []RunRec, par func([][]RunRec) int, end time.Time) []RunRec {
	// runs before the failing one
	for chunk := (len(recs) - 1 + 1) / 2; chunk >= 1 && len(recs) > 1; {
		var cands [][]RunRec
		for at := 0; at < len(recs)-1; at += chunk {
			e := at + chunk
			if e > len(recs)-1 {
				e = len(recs) - 1
			}
			cands = append(cands, append(append([]RunRec(nil), recs[:at]...), recs[e:]...))
		}
		if k := firstOf(cands, par); k >= 0 {
			recs = cands[k]
			if chunk > len(recs)-1 {
				chunk = len(recs) - 1
			}
			continue
		}
		if chunk == 1 {
			break
		}
		chunk /= 2
	}
	last := recs[len(recs)-1]
	if !last.Given {
		return recs
	}
	with := func(r RunRec) []RunRec {
		return append(append([]RunRec(nil), recs[:len(recs)-1]...), r)
	}
	for round := 0; round < 4; round++ {
		before, beforeS := size(last)
		sum := sumChoices(last)
		for di := range last.Docs {
			last = shrinkDoc(last, di, with, par, end)
		}
		// schedules: cut tails, then remove pieces
		for si := range last.Scheds {
			last = shrinkList(len(last.Scheds[si]), last, func(r RunRec, at, e int) RunRec {
				n := r
				n.Scheds = append(n.Scheds[:0:0], r.Scheds...)
				s := r.Scheds[si]
				n.Scheds[si] = append(append(s[:0:0], s[:at]...), s[e:]...)
				return n
			}, func(r RunRec) int { return len(r.Scheds[si]) }, with, par)
		}
		// choices: remove pieces
		last = shrinkList(len(last.Choices), last, func(r RunRec, at, e int) RunRec {
			n := r
			n.Choices = append(append([]uint32(nil), r.Choices[:at]...), r.Choices[e:]...)
			return n
		}, func(r RunRec) int { return len(r.Choices) }, with, par)
		// zero pieces of the choices
		for chunk := len(last.Choices) / 2; chunk >= 1; chunk /= 2 {
			for at := 0; at < len(last.Choices); {
				var cands [][]RunRec
				for k := 0; k < 8 && at < len(last.Choices); k, at = k+1, at+chunk {
					n := last
					n.Choices = append([]uint32(nil), last.Choices...)
					ch := false
					for x := at; x < at+chunk && x < len(n.Choices); x++ {
						ch = ch || n.Choices[x] != 0
						n.Choices[x] = 0
					}
					if ch {
						cands = append(cands, with(n))
					}
				}
				if len(cands) > 0 {
					if k := par(cands); k >= 0 {
						last = cands[k][len(cands[k])-1]
					}
				}
				if time.Now().After(end) {
					break
				}
			}
		}
		a, s := size(last)
		if (a == before && s == beforeS && sumChoices(last) == sum) || time.Now().After(end) {
			break
		}
	}
	return with(last)
}

func sumChoices(r RunRec) (n uint64) {
	for _, c := range r.Choices {
		n += uint64(c)
	}
	for _, d := range r.Docs {
		n += uint64(len(d)) << 20
	}
	return
}

// shrinkDoc removes elements, attributes, then bytes of a document.
func shrinkDoc(r RunRec, di int, with func(RunRec) []RunRec, par func([][]RunRec) int, end time.Time) RunRec {
	set := func(b []byte) RunRec {
		n := r
		n.Docs = append([][]byte(nil), r.Docs...)
		n.Docs[di] = b
		return n
	}
	cut := func(b []byte, s, e int) []byte { return append(append([]byte(nil), b[:s]...), b[e:]...) }
	// everything at once
	if k := par([][]RunRec{with(set(nil)), with(set([]byte("<svg></svg>")))}); k >= 0 && len(r.Docs[di]) > 11 {
		r = []RunRec{set(nil), set([]byte("<svg></svg>"))}[k]
	}
	for pass := 0; pass < 6 && time.Now().Before(end); pass++ {
		before := len(r.Docs[di])
		for i := 0; ; i++ {
			sp := spans(r.Docs[di])
			var cands [][]RunRec
			var list []RunRec
			for j := i * 8; j < len(sp) && j < i*8+8; j++ {
				c := set(cut(r.Docs[di], sp[j][0], sp[j][1]))
				list = append(list, c)
				cands = append(cands, with(c))
			}
			if len(cands) == 0 || time.Now().After(end) {
				break
			}
			if k := par(cands); k >= 0 {
				r = list[k]
				i--
			}
		}
		if len(r.Docs[di]) == before {
			break
		}
	}
	if len(r.Docs[di]) <= 600 {
		r = shrinkList(16, r, func(r RunRec, at, e int) RunRec {
			n := r
			n.Docs = append([][]byte(nil), r.Docs...)
			n.Docs[di] = cut(r.Docs[di], at, e)
			return n
		}, func(r RunRec) int { return len(r.Docs[di]) }, with, par)
	}
	return r
}

// spans lists the removable parts of a document, largest first: elements,
// tags, attributes, text.
func spans(b []byte) (out [][2]int) {
	type open struct{ start int }
	var stack []open
	last := 0
	for i := 0; i < len(b); i++ {
		if b[i] != '<' {
			continue
		}
		if i > last {
			out = append(out, [2]int{last, i})
		}
		e := bytes.IndexByte(b[i:], '>')
		if e < 0 {
			break
		}
		e += i + 1
		out = append(out, [2]int{i, e})
		switch {
		case b[i+1] == '/':
			if len(stack) > 0 {
				out = append(out, [2]int{stack[len(stack)-1].start, e})
				stack = stack[:len(stack)-1]
			}
		case b[i+1] == '!' || b[i+1] == '?' || b[e-2] == '/':
		default:
			stack = append(stack, open{i})
		}
		for k := i; k < e; k++ { // attributes
			if b[k] == ' ' {
				q := bytes.IndexAny(b[k:e], "\"'")
				if q < 0 {
					continue
				}
				q += k
				z := bytes.IndexByte(b[q+1:e], b[q])
				if z < 0 {
					continue
				}
				out = append(out, [2]int{k, q + z + 2})
				if z > 8 {
					out = append(out, [2]int{q + 1 + z/2, q + 1 + z}, [2]int{q + 1, q + 1 + z/2})
				}
				k = q + z + 1
			}
		}
		last = e
		i = e - 1
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i][1]-out[i][0] > out[j][1]-out[j][0] })
	return
}

func firstOf(cands [][]RunRec, par func([][]RunRec) int) int {
	for i := 0; i < len(cands); i += 8 {
		e := i + 8
		if e > len(cands) {
			e = len(cands)
		}
		if k := par(cands[i:e]); k >= 0 {
			return i + k
		}
	}
	return -1
}

func shrinkList(n int, r RunRec, cut func(RunRec, int, int) RunRec, length func(RunRec) int, with func(RunRec) []RunRec, par func([][]RunRec) int) RunRec {
	for chunk := n; chunk >= 1; {
		ln := length(r)
		if ln == 0 {
			break
		}
		if chunk > ln {
			chunk = ln
		}
		var cands [][]RunRec
		for e := ln; e > 0; e -= chunk { // tails first
			at := e - chunk
			if at < 0 {
				at = 0
			}
			cands = append(cands, with(cut(r, at, e)))
		}
		if k := firstOf(cands, par); k >= 0 {
			r = cands[k][len(cands[k])-1]
			continue
		}
		if chunk == 1 {
			break
		}
		chunk /= 2
	}
	return r
}

// replayCmd reproduces a replay file in this very process tree.
func replayCmd(args []string) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	c := &Config{}
	fs.StringVar(&c.bin, "bin", "", "")
	fs.StringVar(&c.raceBin, "racebin", "", "")
	fs.StringVar(&c.scratch, "scratch", "", "")
	fs.StringVar(&c.meta, "meta", "", "")
	must(fs.Parse(args))
	b, err := os.ReadFile(fs.Arg(0))
	must(err)
	var rp Replay
	must(json.Unmarshal(b, &rp))
	c.prop = props()[rp.Property]
	c.loadMeta()
	kind, o := c.judge(rp.Runs, true)
	if o.res != nil {
		for _, l := range o.res.Trace {
			fmt.Println("  |", l)
		}
	}
	if o.text != "" {
		fmt.Println(o.text)
	}
	if kind == "" {
		fmt.Printf("replay: property=%s held (the file recorded %s)\n", rp.Property, rp.Violation.Kind)
		return
	}
	d := ""
	if o.res != nil {
		d = o.res.Violation.Detail
	}
	fmt.Printf("replay: %s: %s\nVIOLATION property=%s replay=%s\n", kind, d, rp.Property, fs.Arg(0))
	if kind != rp.Violation.Kind || (o.res != nil && d != rp.Violation.Detail) {
		fmt.Printf("replay: the file recorded %s: %s\n", rp.Violation.Kind, rp.Violation.Detail)
	}
	os.Exit(1)
}

// hashesCmd prints the event hash of each run.
func hashesCmd(args []string) {
	fs := flag.NewFlagSet("hashes", flag.ExitOnError)
	c := &Config{}
	id := fs.String("prop", "", "")
	fs.StringVar(&c.bin, "bin", "", "")
	fs.StringVar(&c.raceBin, "racebin", "", "")
	fs.StringVar(&c.scratch, "scratch", "", "")
	fs.StringVar(&c.meta, "meta", "", "")
	fs.IntVar(&c.workers, "workers", 8, "")
	batch := fs.Int("batch", 0, "")
	n := fs.Int("runs", 100, "")
	must(fs.Parse(args))
	c.prop = props()[*id]
	c.seed = uint64(envInt("VERIF_SEED", 1))
	c.loadMeta()
	if *batch == 0 {
		*batch = c.prop.batch
	}
	out := make([]string, *n)
	var next atomic.Int64
	var wg sync.WaitGroup
	for w := 0; w < c.workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				from := (int(next.Add(1)) - 1) * *batch
				if from >= *n {
					return
				}
				to := from + *batch
				if to > *n {
					to = *n
				}
				o := c.child(Job{Prop: c.prop.id, Base: c.seed, From: from, To: to, Hashes: true}, 240*time.Second)
				if o.res == nil {
					out[from] = "died " + o.text
					continue
				}
				for i, h := range o.res.RunHashes {
					out[from+i] = fmt.Sprintf("%d %016x", from+i, h)
				}
			}
		}()
	}
	wg.Wait()
	for _, l := range out {
		fmt.Println(l)
	}
}

// ---- known findings ----

type knownFindings []knownFinding

type knownFinding struct {
	Property string `json:"property"`
	Kind     string `json:"kind"`
	Contains string `json:"contains"`
	What     string `json:"what"`
}

func (c *Config) loadKnown() knownFindings {
	var out knownFindings
	b, err := os.ReadFile(c.known)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "{") {
			continue // "fixed:" entries and comments suppress nothing
		}
		var k knownFinding
		must(json.Unmarshal([]byte(l), &k))
		out = append(out, k)
	}
	return out
}

func (ks knownFindings) match(prop string, v *Violation) string {
	for _, k := range ks {
		if k.Property == prop && k.Kind == v.Kind && k.Contains != "" && strings.Contains(v.Detail, k.Contains) {
			return k.What
		}
	}
	return ""
}

// ---- evidence ----

func (c *Config) writeEvidence(t *Stats, seen map[int]bool, search, wall time.Duration, violations int) {
	reached := 0
	files := map[string][2]int{}
	for i, p := range c.points {
		f, _, _ := strings.Cut(p, ":")
		x := files[f]
		x[1]++
		if seen[c.pointBase+i] {
			reached++
			x[0]++
		}
		files[f] = x
	}
	cov := map[string]string{}
	for f, x := range files {
		cov[f] = fmt.Sprintf("%d/%d", x[0], x[1])
	}
	faults := 0
	for _, n := range t.Faults {
		faults += n
	}
	assume := append([]string{
		"the simulated build (yield points before every statement of the library; patched sync, os, time, runtime map seeding) behaves as the shipped build: no source line of the library is changed",
		"seeded search samples; a clean batch is evidence, not proof",
	}, c.prop.assume...)
	perHour := 0.0
	if search > 0 {
		perHour = float64(t.Runs) / search.Hours()
	}
	ev := map[string]any{
		"property": c.prop.id, "tier": c.tier, "seed": c.seed, "level": "exploration",
		"wall_s": wall.Seconds(), "violations": violations, "assumptions": assume,
		"coverage": map[string]any{
			"evaluations":             t.Runs,
			"distinct_nontrivial":     len(t.Hashes),
			"rule":                    c.prop.rule + " Distinct: by hash of document, deliveries, faults and interleaving.",
			"samples":                 t.Samples,
			"operations":              t.Ops,
			"runs_and_seeds_per_hour": int(perHour),
			"simulated_seconds":       float64(t.SimTime) / 1e9,
			"faults_injected":         t.Faults,
			"faults_injected_total":   faults,
			"rare_conditions_hit":     t.Probes,
			"runs_not_judged":         t.Skipped,
			"document_kinds":          t.Kinds,
			"distinct_interleavings":  len(t.Scheds),
			"task_switches":           t.Switches,
			"yield_points_reached":    fmt.Sprintf("%d of %d statements of the library", reached, len(c.points)),
			"yield_points_by_file":    cov,
			"real_components":         c.prop.real,
			"stub_components":         c.prop.stub,
			"workers":                 c.workers,
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	must(os.MkdirAll(filepath.Dir(c.evidence), 0o755))
	must(os.WriteFile(c.evidence, b, 0o644))
}
