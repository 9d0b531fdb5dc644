package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	svg "github.com/lafriks/go-svg"

	"verifsim/simhook"
)

// Stats of a batch of runs.
type Stats struct {
	Runs     int               `json:"runs"`
	Skipped  map[string]int    `json:"skipped"`
	Faults   map[string]int    `json:"faults"`
	Probes   map[string]int    `json:"probes"`
	Ops      int               `json:"ops"`
	Switches uint64            `json:"switches"`
	SimTime  int64             `json:"simtime"` // nanoseconds
	Hashes   map[uint64]bool   `json:"-"`
	Scheds   map[uint64]bool   `json:"-"`
	Kinds    map[string]int    `json:"kinds"`
	Samples  []string          `json:"samples"`
	Extra    map[string]string `json:"-"`
}

func newStats() *Stats {
	return &Stats{Skipped: map[string]int{}, Faults: map[string]int{}, Probes: map[string]int{}, Kinds: map[string]int{},
		Hashes: map[uint64]bool{}, Scheds: map[uint64]bool{}}
}

// Violation of a property.
type Violation struct {
	Kind   string `json:"kind"`
	Detail string `json:"detail"`
}

type violationPanic struct{ v Violation }
type skipPanic struct{ why string }

// RunRec is everything that decides one run.
type RunRec struct {
	Seed    uint64          `json:"seed"`
	Choices []uint32        `json:"choices,omitempty"`
	Docs    [][]byte        `json:"documents,omitempty"`
	Scheds  [][]simhook.Seg `json:"schedules,omitempty"`
	Given   bool            `json:"given"` // choices and schedules are given (else: drawn from the seed)
}

// Run is one simulated execution.
type Run struct {
	prop    *Prop
	c       *Ch
	rec     RunRec
	nSched  int
	out     [][]simhook.Seg
	docs    [][]byte
	st      *Stats
	verbose bool
	trace   []string
	h       uint64
	live    bool // non-trivial
	env     *Env
}

// Env is what the process provides to runs.
type Env struct {
	ref     *RefClient
	probe   func(req *RefReq) (*RefResp, error)
	scratch string
	phase   func(byte)
	race    func() int
}

func (r *Run) fail(kind, f string, a ...any) {
	panic(violationPanic{Violation{kind, fmt.Sprintf(f, a...)}})
}

func (r *Run) skip(why string) { panic(skipPanic{why}) }

// log adds a line to the human readable trace.
func (r *Run) log(f string, a ...any) {
	if r.verbose {
		r.trace = append(r.trace, fmt.Sprintf(f, a...))
	}
}

func (r *Run) fault(kind string) { r.st.Faults[kind]++; r.live = true }
func (r *Run) probe(kind string) { r.st.Probes[kind]++ }
func (r *Run) mixIn(b []byte)    { r.h = mix(r.h ^ hash64(b)) }
func (r *Run) mixStr(s string)   { r.mixIn([]byte(s)) }
func (r *Run) ref()              { r.env.phase('r') }
func (r *Run) under()            { r.env.phase('x') }
func (r *Run) logDoc(n string, b []byte) {
	if r.verbose {
		r.log("%s (%d bytes): %q", n, len(b), clip(string(b), 4000))
	}
}

// blob draws a document with choices of its own; the bytes are part of the
// replay file, so they can be minimised as bytes.
func (r *Run) blob(gen func(c *Ch) *Doc) *Doc {
	seed := mix(uint64(r.c.N(1<<30)) + 0xd0c)
	k := len(r.docs)
	if r.rec.Given && k < len(r.rec.Docs) {
		b := append([]byte(nil), r.rec.Docs[k]...)
		r.docs = append(r.docs, r.rec.Docs[k])
		return newDoc(b, "replayed")
	}
	d := gen(seeded(seed))
	r.docs = append(r.docs, append([]byte(nil), d.Bytes...))
	return d
}

// doc draws a document.
func (r *Run) doc(o DocOpts) *Doc {
	return r.blob(func(c *Ch) *Doc { return genDoc(c, o) })
}

// schedule runs the tasks under the simulated scheduler.
func (r *Run) schedule(tasks []func()) {
	seed := mix(uint64(r.c.N(1<<30)) ^ 0x5eed)
	mean := uint32(pick(r.c, []int{3, 8, 30, 100, 400}))
	var given []simhook.Seg
	if r.rec.Given && r.nSched < len(r.rec.Scheds) {
		given = r.rec.Scheds[r.nSched]
	}
	use := r.rec.Given
	r.nSched++
	res := simhook.Run(tasks, seed, mean, given, use)
	segs := res.Segs
	if use {
		segs = given
	}
	r.out = append(r.out, segs)
	r.st.Switches += res.Switches
	if res.Switches > 0 {
		r.live = true
		r.st.Scheds[res.Hash] = true
	}
	r.h = mix(r.h ^ res.Hash)
	r.log("schedule: %d tasks, %d switches between tasks, interleaving hash %016x", len(tasks), res.Switches, res.Hash)
}

// execute performs one run.
func execute(p *Prop, rec RunRec, st *Stats, env *Env, verbose bool) (v *Violation, full RunRec, trace []string, h uint64) {
	r := &Run{prop: p, rec: rec, st: st, verbose: verbose, env: env, h: 1}
	if rec.Given {
		r.c = replayed(rec.Choices)
	} else {
		r.c = seeded(rec.Seed)
	}
	simhook.ResetRun(mix(rec.Seed))
	clear(optPool)
	clear(optKept)
	sink.fail, sink.short = 0, false
	sink.reset()
	st.Runs++
	env.phase('x')
	races := env.race()
	func() {
		defer func() {
			switch e := recover().(type) {
			case nil:
			case violationPanic:
				v = &e.v
			case skipPanic:
				st.Skipped[e.why]++
				r.live = false
			default:
				fmt.Fprintf(os.Stderr, "simcheck: the harness panicked: %v\n%s", e, debug.Stack())
				os.Exit(3)
			}
		}()
		p.run(r)
	}()
	if v == nil {
		if n := env.race(); n != races {
			v = &Violation{"data-race", fmt.Sprintf("the race detector reported %d data race(s) between the simulated tasks", n-races)}
		}
	}
	st.SimTime += int64(simhook.Clock())
	if r.live {
		st.Hashes[r.h] = true
	}
	full = RunRec{Seed: rec.Seed, Choices: r.c.rec, Docs: r.docs, Scheds: r.out, Given: true}
	if rec.Given {
		full.Choices = rec.Choices
		if r.c.pos < len(full.Choices) {
			full.Choices = full.Choices[:r.c.pos]
		}
	}
	return v, full, r.trace, r.h
}

// Prop is one property and its simulated workload.
type Prop struct {
	id      string
	run     func(*Run)
	race    bool // under the race detector
	batch   int  // runs per process
	quick   int  // runs
	deep    int
	rule    string
	real    []string
	stub    []string
	assume  []string
	measure string
}

var modes = []svg.ErrorMode{svg.IgnoreErrorMode, svg.WarnErrorMode, svg.StrictErrorMode}

func modeName(m svg.ErrorMode) string {
	return [...]string{"ignore", "warn", "strict"}[m]
}

func props() map[string]*Prop {
	out := map[string]*Prop{}
	for _, p := range allProps {
		out[p.id] = p
	}
	return out
}

func propIDs() []string {
	var ids []string
	for _, p := range allProps {
		ids = append(ids, p.id)
	}
	sort.Strings(ids)
	return ids
}

func fnvSeed(base uint64, prop string, i int) uint64 {
	return mix(mix(base^hash64([]byte(prop))) + uint64(i)*0x9e3779b97f4a7c15)
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "simcheck:", err)
		os.Exit(2)
	}
}

var _ = strings.TrimSpace
var _ = time.Now
