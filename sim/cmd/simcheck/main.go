// simcheck drives the simulation: see /verif/DESIGN.md.
//
//	simcheck run -prop C01 ...      search for violations (the orchestrator)
//	simcheck worker                 a batch of runs (child process)
//	simcheck refserver              outcomes in a process without history
//	simcheck replay FILE            reproduce a violation
//	simcheck hashes -prop C01 ...   event hashes of runs (determinism test)
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"

	"verifsim/simhook"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: simcheck run|worker|refserver|replay|hashes")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		orchestrate(os.Args[2:])
	case "worker":
		worker()
	case "refserver":
		refServer()
	case "one": // one PROP BASESEED INDEX: one run in this process, for debugging
		base, _ := strconv.ParseUint(os.Args[3], 10, 64)
		idx, _ := strconv.Atoi(os.Args[4])
		dir, err := os.MkdirTemp("", "simone")
		must(err)
		defer os.RemoveAll(dir)
		exe, _ := os.Executable()
		res := runJob(&Job{Prop: os.Args[2], Base: base, From: idx, To: idx + 1, RefBin: exe, Scratch: dir, Verbose: true})
		for _, l := range res.Trace {
			fmt.Println(l)
		}
		fmt.Printf("%+v\n", res.Violation)
	case "replay":
		replayCmd(os.Args[2:])
	case "hashes":
		hashesCmd(os.Args[2:])
	default:
		fmt.Fprintln(os.Stderr, "simcheck: unknown command", os.Args[1])
		os.Exit(2)
	}
}

// Job is what a worker process is told on stdin.
type Job struct {
	Prop     string
	Base     uint64
	From, To int
	Recs     []RunRec // explicit runs instead of From..To
	Verbose  bool
	RefBin   string
	Scratch  string
	Hashes   bool
	Deadline int64 // wall clock, unix seconds; 0: none
	Points   int
}

// JobResult is what it answers.
type JobResult struct {
	Stats     *Stats
	Hashes    []uint64
	Scheds    []uint64
	Violation *Violation
	Rec       *RunRec
	Index     int // of the violating run
	Trace     []string
	Seen      []int
	RunHashes []uint64
}

const progressFile = "progress"

func worker() {
	var j Job
	must(readMsg(os.Stdin, &j))
	res := runJob(&j)
	must(writeMsg(os.Stdout, res))
}

func runJob(j *Job) *JobResult {
	p := props()[j.Prop]
	initLog()
	simhook.UseSimClock()
	simhook.Watch(20)
	prog, err := os.OpenFile(filepath.Join(j.Scratch, progressFile), os.O_RDWR|os.O_CREATE, 0o600)
	must(err)
	var cur [16]byte
	env := &Env{scratch: j.Scratch, race: raceErrors}
	env.ref = &RefClient{bin: j.RefBin, fresh: p.id == "C08"}
	defer env.ref.stop()
	idx := 0
	env.phase = func(b byte) {
		if cur[15] == b && string(cur[:8]) == fmt.Sprintf("%8d", idx) {
			return
		}
		copy(cur[:], fmt.Sprintf("%8d", idx))
		cur[15] = b
		prog.WriteAt(cur[:], 0)
	}
	res := &JobResult{Stats: newStats(), Index: -1}
	n := j.To - j.From
	if j.Recs != nil {
		n = len(j.Recs)
	}
	for i := 0; i < n; i++ {
		idx = i
		rec := RunRec{}
		if j.Recs != nil {
			rec = j.Recs[i]
		} else {
			rec.Seed = fnvSeed(j.Base, j.Prop, j.From+i)
		}
		if j.Deadline > 0 && i%16 == 0 && realNow() > j.Deadline {
			break
		}
		v, full, trace, h := execute(p, rec, res.Stats, env, j.Verbose)
		if j.Hashes {
			res.RunHashes = append(res.RunHashes, h)
		}
		if len(res.Stats.Samples) < 1 && v == nil && !j.Verbose && i == n/2 {
			_, _, tr, _ := execute(p, rec, newStats(), env, true)
			for k, l := range tr {
				tr[k] = clip(l, 500)
			}
			res.Stats.Samples = append(res.Stats.Samples, fmt.Sprintf("seed %#x: ", rec.Seed)+clip(join(tr), 1500))
		}
		if v != nil {
			res.Violation, res.Rec, res.Index, res.Trace = v, &full, i, trace
			break
		}
		if j.Verbose {
			res.Trace = trace
		}
	}
	res.Hashes = keys(res.Stats.Hashes)
	res.Scheds = keys(res.Stats.Scheds)
	if j.Points > 0 {
		for _, id := range simhook.SeenIDs() {
			res.Seen = append(res.Seen, id)
		}
	}
	return res
}

func keys(m map[uint64]bool) []uint64 {
	out := make([]uint64, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	return out
}

func join(l []string) string {
	s := ""
	for i, x := range l {
		if i > 0 {
			s += " | "
		}
		s += x
	}
	return s
}

func envInt(name string, def int64) int64 {
	if v, err := strconv.ParseInt(os.Getenv(name), 10, 64); err == nil {
		return v
	}
	return def
}
