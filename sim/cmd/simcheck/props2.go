package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"image"
	"io"
	"io/fs"
	"log"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"

	svg "github.com/lafriks/go-svg"

	"verifsim/simhook"
)

// relatedDocs draws a few documents that collide in ids, lengths and contents.
func relatedDocs(r *Run, n int, o DocOpts) [][]byte {
	var docs [][]byte
	for i := 0; i < n; i++ {
		if len(docs) > 0 && r.c.P(1, 3) {
			from := pick(r.c, docs)
			docs = append(docs, r.blob(func(c *Ch) *Doc { return newDoc(tweak(c, from), "tweaked") }).Bytes)
		} else {
			docs = append(docs, r.doc(o).Bytes)
		}
		r.mixIn(docs[i])
		r.logDoc(fmt.Sprintf("document#%08x", hash64(docs[i])&0xffffffff), docs[i])
	}
	return docs
}

// tweak changes digits or letters of values in a copy, keeping the length.
func tweak(c *Ch, b []byte) []byte {
	out := append([]byte(nil), b...)
	for k := 1 + c.N(3); k > 0; k-- {
		s, e, ok := value(c, out)
		if !ok || e == s {
			continue
		}
		i := s + c.N(e-s)
		for j := s; j < e; j++ {
			p := s + (i-s+j-s)%(e-s)
			if out[p] >= '1' && out[p] <= '9' {
				out[p] = '1' + (out[p]-'1'+1+byte(c.N(7)))%9
				break
			}
		}
	}
	return out
}

// ---- C07 ----

type taskOp struct {
	spec    *OpSpec
	nested  *taskOp // started from inside the stream
	at      int     // at this read
	smash   bool    // the caller overwrites its own result afterwards
	out     *Outcome
	want    *Outcome
	started bool
}

func (t *taskOp) exec() {
	t.started = true
	var hook func(int)
	if t.nested != nil {
		hook = func(n int) {
			if n == t.at && !t.nested.started {
				t.nested.exec()
			}
		}
	}
	t.out = t.spec.raw(hook)
	if t.smash && t.out.doc != nil {
		vandalise(t.out.doc)
	}
}

func (t *taskOp) walk(f func(*taskOp)) {
	f(t)
	if t.nested != nil {
		t.nested.walk(f)
	}
}

func runC07(r *Run) {
	nDocs := 1 + r.c.N(3)
	docs := relatedDocs(r, nDocs, DocOpts{Unsupported: true, Errors: true, Charsets: true, Corpus: r.c.P(1, 8), Small: r.c.P(3, 4)})
	nTasks := 2 + r.c.N(3)
	if r.c.P(1, 12) {
		nTasks = 1 // nesting alone
	}
	deep := r.c.P(1, 30)
	if deep && r.c.P(1, 2) {
		nTasks = 8 + r.c.N(20)
	}
	plans := make([][]*taskOp, nTasks)
	var all []*taskOp
	for i := range plans {
		for k := 1 + r.c.W(6, 2, 1); k > 0; k-- {
			op := &taskOp{spec: genOp(r.c, pick(r.c, docs), true), smash: r.c.P(1, 4)}
			depth := 0
			if r.c.P(1, 5) {
				depth = 1
			}
			if deep && i == 0 {
				depth = 1 + r.c.N(24)
			}
			for t := op; depth > 0; depth-- {
				t.nested = &taskOp{spec: genOp(r.c, pick(r.c, docs), true), smash: r.c.P(1, 4)}
				t.at = 1
				if !deep {
					t.at += r.c.N(6)
				}
				t = t.nested
			}
			plans[i] = append(plans[i], op)
			op.walk(func(t *taskOp) { all = append(all, t) })
		}
	}
	q := &RefReq{Seed: r.rec.Seed}
	files := map[string]bool{}
	for _, t := range all {
		if t.nested == nil && r.c.P(1, 8) {
			t.spec.intoFile(filepath.Join(r.env.scratch, fmt.Sprintf("c07-%08x.svg", hash64(t.spec.Doc)&0xffffffff)))
			if !files[t.spec.Path] {
				files[t.spec.Path] = true
				t.spec.writeFile()
				defer os.Remove(t.spec.Path)
			}
		}
		q.Ops = append(q.Ops, t.spec)
	}
	r.ref()
	a := r.env.ref.ask(q)
	if a == nil {
		r.skip("reference process died")
	}
	for i, t := range all {
		t.want = a.Out[i]
		if t.want.died() && !t.spec.crashed(t.want) {
			r.skip("reference did not return")
		}
	}
	r.under()
	tasks := make([]func(), nTasks)
	for i := range tasks {
		ops := plans[i]
		tasks[i] = func() {
			for _, op := range ops {
				simhook.Y(seamTask)
				op.exec()
			}
		}
	}
	sink.reset()
	r.schedule(tasks)
	lines := sink.take()
	var wantLines []string
	for i, ops := range plans {
		for j, op := range ops {
			op.walk(func(t *taskOp) {
				if !t.started {
					return
				}
				r.st.Ops++
				n := ""
				if t != op {
					n = " (nested)"
					r.fault("nested-parse")
				}
				if t.smash {
					r.fault("caller-overwrites-result")
				}
				if t.spec.Path != "" {
					r.fault("parse-file")
				} else if t.spec.crashed(t.out) {
					r.fault("reader-panic")
				} else if t.spec.Fail >= 0 {
					r.fault("read-error:" + failures()[t.spec.Fail].name)
				} else if t.spec.At < len(t.spec.Doc) {
					r.fault("truncated-stream")
				}
				r.log("task %d op %d%s: %s -> %s (alone: %s)", i, j, n, t.spec, t.out.brief(), t.want.brief())
				wantLines = append(wantLines, t.want.Log...)
			})
		}
	}
	check := func(when string) {
		for i, ops := range plans {
			for j, op := range ops {
				op.walk(func(t *taskOp) {
					if !t.started {
						return
					}
					got := *t.out
					got.Log = nil
					want := *t.want
					want.Log = nil
					if when != "" {
						if t.smash || got.died() {
							return
						}
						got.Doc = fingerprint(t.out.doc)
					}
					if got.key() != want.key() {
						r.fail("concurrent-outcome", "task %d op %d (%s)%s: %s", i, j, t.spec, when, diffOutcome(&want, &got))
					}
				})
			}
		}
	}
	check("")
	check(" after all calls had returned")
	sort.Strings(lines)
	sort.Strings(wantLines)
	if strings.Join(lines, "\n") != strings.Join(wantLines, "\n") {
		r.fail("concurrent-log", "warnings differ from those of the calls alone: %q versus %q", clip(strings.Join(wantLines, "|"), 300), clip(strings.Join(lines, "|"), 300))
	}
}

// ---- C08 ----

// pause lets time pass, or sets the clock.
func (r *Run) pause() {
	switch d := pick(r.c, []time.Duration{time.Second, time.Minute, time.Hour, 400 * 24 * time.Hour, -time.Hour}); {
	case d < 0:
		r.fault("clock-set-back")
		r.log("the clock is set back by %s", -d)
		simhook.Jump(d)
	default:
		r.fault("pause")
		r.log("nothing happens for %s", d)
		simhook.Advance(d)
	}
}

func runC08(r *Run) {
	render := r.c.P(1, 3)
	o := DocOpts{Unsupported: true, Errors: !render, Charsets: !render, Corpus: !render, Small: r.c.P(1, 2), Render: render, Plain: render && r.c.P(1, 2)}
	docs := relatedDocs(r, 2+r.c.N(3), o)
	if !render && r.c.P(1, 4) {
		from := pick(r.c, docs)
		b := r.blob(func(c *Ch) *Doc {
			b, kind := damage(c, append([]byte(nil), from...), nil)
			if kind != "none" {
				r.fault(kind)
			}
			return newDoc(b, "damaged")
		}).Bytes
		r.logDoc(fmt.Sprintf("document#%08x", hash64(b)&0xffffffff), b)
		docs = append(docs, b)
	}
	type kept struct {
		o  *Outcome
		fp string
		s  *OpSpec
	}
	var keep []kept
	file := filepath.Join(r.env.scratch, "c08.svg")
	defer os.Remove(file)
	history := r.c.N(9)
	var hist []*OpSpec
	// what the program has set up for itself
	log.SetFlags(pick(r.c, []int{0, log.Lmsgprefix, log.LUTC, log.Lmsgprefix | log.LUTC}))
	log.SetPrefix(pick(r.c, []string{"", "app: "}))
	defer initLog()
	proc := processState()
	stays := func(when string) {
		if now := processState(); now != proc {
			r.fail("process-changed", "%s changed what belongs to the program: %s", when, diffText(proc, now))
		}
	}
	for k := 0; k < history; k++ {
		if r.c.P(1, 8) {
			r.pause()
		}
		op := genOp(r.c, pick(r.c, docs), true)
		hist = append(hist, op)
		if r.c.P(1, 6) {
			op.intoFile(file)
			op.writeFile()
			r.fault("parse-file")
		}
		if r.c.P(1, 8) {
			sink.fail = 1
			r.fault("log-sink-fails")
		}
		out := op.run()
		sink.fail = 0
		r.st.Ops++
		if op.crashed(out) {
			r.fault("reader-panic")
		} else if op.Fail >= 0 {
			r.fault("read-error:" + failures()[op.Fail].name)
		} else if op.At < len(op.Doc) {
			r.fault("truncated-stream")
		}
		if out.Class == "panic" {
			r.fault("earlier-call-panicked")
		}
		r.log("history %d: %s -> %s", k, op, out.brief())
		if out.doc == nil {
			continue
		}
		switch r.c.W(4, 2, 2) {
		case 0:
			keep = append(keep, kept{out, out.Doc, op})
		case 1:
			r.log("history %d: result overwritten by the caller", k)
			r.fault("caller-overwrites-result")
			vandalise(out.doc)
		case 2:
			if render {
				s := genSpec(r.c)
				t := &tick{}
				if r.c.P(1, 4) {
					t.crash = 1 + r.c.N(30)
				}
				r.log("history %d: drawn on %s -> %s", k, s, drawOnce(out.doc, s, t))
				if t.fired {
					r.fault("painter-crash")
				}
			}
		}
	}
	if history > 0 {
		r.live = true
		if r.c.P(1, 8) {
			r.pause()
		}
	}
	stays("the calls")
	initLog()
	proc = processState()
	probe := genOp(r.c, pick(r.c, docs), r.c.P(1, 3))
	if r.c.P(1, 6) {
		probe.intoFile(file)
		probe.writeFile()
	}
	if render {
		for k := 1 + r.c.N(3); k > 0; k-- {
			s := genSpec(r.c)
			if len(probe.Draws) > 0 && r.c.P(1, 2) {
				s.Backend, s.Size = probe.Draws[0].Backend, probe.Draws[0].Size
			}
			probe.Draws = append(probe.Draws, s)
		}
	}
	r.ref()
	a := r.env.ref.ask(&RefReq{Seed: r.rec.Seed, Ops: []*OpSpec{probe}})
	if a == nil || a.Out[0].died() && !probe.crashed(a.Out[0]) {
		r.skip("reference did not return")
	}
	r.under()
	got := probe.run()
	r.st.Ops++
	want := a.Out[0]
	r.log("probe: %s -> %s (fresh process: %s)", probe, got.brief(), want.brief())
	if got.key() != want.key() {
		r.fail("history-changes-outcome", "after %d earlier calls, %s: fresh process versus this process: %s", history, probe, diffOutcome(want, got))
	}
	for i, s := range probe.Draws {
		if got.doc == nil || strings.HasPrefix(a.Draws[0][i], "panic") || strings.HasPrefix(a.Draws[0][i], "steps") {
			continue
		}
		res := drawOnce(got.doc, s, nil)
		r.st.Ops++
		r.log("probe drawn on %s: %s (fresh process: %s)", s, res, a.Draws[0][i])
		if res != a.Draws[0][i] {
			r.fail("history-changes-drawing", "after %d earlier calls, drawing on %s: %s in a fresh process, %s in this one", history, s, a.Draws[0][i], res)
		}
	}
	stays("the last call")
	if what := optsChanged(); what != "" {
		r.fail("options-changed", "%s", what)
	}
	for _, k := range keep {
		if fp := fingerprint(k.o.doc); fp != k.fp {
			r.fail("earlier-result-changed", "the result of an earlier call (%s) changed during later calls: %s", k.s, diffText(k.fp, fp))
		}
	}
}

// ---- C09 ----

func drawDead(s string) bool {
	return strings.HasPrefix(s, "panic") || strings.HasPrefix(s, "steps") || strings.HasPrefix(s, "deadlock")
}

func runC09(r *Run) {
	doc := r.doc(DocOpts{Render: true, Plain: r.c.P(1, 2), Small: r.c.P(1, 2), Corpus: r.c.P(1, 10)})
	r.note(doc)
	n := 2 + r.c.N(3)
	type job struct {
		specs []DrawSpec
		ticks []*tick
		got   []string
		read  bool
		parse bool
		fp    string
	}
	jobs := make([]*job, n)
	var specs []DrawSpec
	same := r.c.P(1, 2)
	base := genSpec(r.c)
	for i := range jobs {
		j := &job{}
		if i > 0 && r.c.P(1, 6) {
			j.read = true
			j.parse = r.c.P(1, 2)
		} else {
			for k := 1 + r.c.W(4, 1); k > 0; k-- {
				s := base
				if !same {
					s = genSpec(r.c)
				} else if r.c.P(1, 3) {
					s.Opacity = .5
					s = s.share()
				} else if r.c.P(1, 3) {
					s = genSpec(r.c)
					s.Backend, s.Size = base.Backend, base.Size
				}
				t := &tick{}
				if s.Backend != bGG && r.c.P(1, 8) {
					t.crash = 1 + r.c.N(40)
				}
				j.specs = append(j.specs, s)
				j.ticks = append(j.ticks, t)
				specs = append(specs, s)
			}
		}
		jobs[i] = j
	}
	r.ref()
	op := &OpSpec{Doc: doc.Bytes, At: len(doc.Bytes), Fail: -1, Draws: specs}
	a := r.env.ref.ask(&RefReq{Seed: r.rec.Seed, Ops: []*OpSpec{op}})
	if a == nil || a.Out[0].Class != "ok" {
		r.skip("reference did not return")
	}
	for _, w := range a.Draws[0] {
		if drawDead(w) {
			r.skip("reference drawing did not return")
		}
	}
	d, err := svg.Parse(onlyReader{strings.NewReader(string(doc.Bytes))}, svg.IgnoreErrorMode)
	if err != nil {
		r.skip("parse differs from the reference")
	}
	r.under()
	before := fingerprint(d)
	if before != a.Out[0].Doc {
		r.skip("parse differs from the reference")
	}
	tasks := make([]func(), n)
	for i := range tasks {
		j := jobs[i]
		tasks[i] = func() {
			if j.read {
				simhook.Y(seamTask)
				if j.parse { // the same document arrives again
					j.fp = parseRaw(onlyReader{strings.NewReader(string(doc.Bytes))}, svg.IgnoreErrorMode, len(doc.Bytes)).Doc
					return
				}
				j.fp = fingerprint(d)
				return
			}
			for k, s := range j.specs {
				simhook.Y(seamTask)
				j.got = append(j.got, drawOnce(d, s, j.ticks[k]))
			}
		}
	}
	r.schedule(tasks)
	k := 0
	for i, j := range jobs {
		if j.read {
			if j.parse {
				r.probe("parsed while drawn")
				if j.fp != before {
					r.fail("concurrent-parse", "the document parsed again while it was drawn differs: %s", diffText(before, j.fp))
				}
				continue
			}
			if j.fp != before {
				r.fail("document-changed", "a reader of the shared document saw it changed while it was drawn: %s", diffText(before, j.fp))
			}
			continue
		}
		for x, s := range j.specs {
			r.st.Ops++
			r.st.Probes["backend:"+backendNames[s.Backend]]++
			want := a.Draws[0][k]
			k++
			r.log("task %d draws on %s -> %s (alone: %s)", i, s, j.got[x], want)
			if j.ticks[x].fired {
				r.fault("painter-crash")
				continue
			}
			if j.got[x] != want {
				r.fail("concurrent-drawing", "task %d drawing on %s: %s, alone: %s", i, s, j.got[x], want)
			}
		}
	}
	if fp := fingerprint(d); fp != before {
		r.fail("document-changed", "drawing changed the document: %s", diffText(before, fp))
	}
	// the document is as usable as before
	again := drawOnce(d, specs[0], nil)
	if what := optsChanged(); what != "" {
		r.fail("options-changed", "%s", what)
	}
	if again != a.Draws[0][0] {
		r.fail("second-drawing", "drawing on %s after the others: %s, alone: %s", specs[0], again, a.Draws[0][0])
	}
	if fp := fingerprint(d); fp != before {
		r.fail("document-changed", "drawing changed the document: %s", diffText(before, fp))
	}
}

// ---- C10 ----

func runC10(r *Run) {
	type step struct {
		d *svg.Svg
		s DrawSpec

		own []ownStyle // what the caller draws before
	}
	var steps []step
	base := genSpec(r.c)
	if base.Backend == bRasterx && r.c.P(1, 2) {
		base.Backend = bRasterxFT
	}
	r.ref()
	paths := 0
	for k := 1 + r.c.W(4, 2, 1); k > 0; k-- {
		doc := r.doc(DocOpts{Render: true, Plain: r.c.P(1, 2), Small: r.c.P(1, 2)})
		r.note(doc)
		o := parseBytes(doc.Bytes, svg.IgnoreErrorMode)
		if o.Class != "ok" {
			r.skip("document does not parse")
		}
		s := genSpec(r.c)
		s.Backend, s.Size = base.Backend, base.Size
		if len(steps) > 0 && r.c.P(1, 3) {
			steps = append(steps, step{d: steps[0].d, s: s})
		} else {
			steps = append(steps, step{d: o.doc, s: s})
		}
		if r.c.P(1, 4) {
			steps[len(steps)-1].own = []ownStyle{genOwn(r.c)}
			r.fault("context-used-by-caller")
		}
		paths += len(steps[len(steps)-1].d.SvgPaths)
	}
	want := newImage(base.Size)
	fresh := func(f func(c *Canvas) error) {
		var err error
		class, msg, _ := guarded(drawBudget, func() { err = f(newCanvas(base.Backend, want, nil)) })
		if class != "ok" || err != nil {
			r.skip("reference drawing did not return: " + class + clip(msg, 40))
		}
	}
	var after []*image.RGBA // pixels after each path
	type mark struct{ step, path int }
	var marks []mark
	for i, st := range steps {
		for _, o := range st.own {
			fresh(func(c *Canvas) error { c.own(o); return nil })
		}
		for j := range st.d.SvgPaths {
			one := &svg.Svg{ViewBox: st.d.ViewBox, Transform: st.d.Transform, SvgMasks: st.d.SvgMasks, Width: st.d.Width, Height: st.d.Height, SvgPaths: st.d.SvgPaths[j : j+1]}
			fresh(func(c *Canvas) error { return c.draw(one, st.s.alone()) })
			if r.verbose {
				cp := image.NewRGBA(want.Bounds())
				copy(cp.Pix, want.Pix)
				after = append(after, cp)
				marks = append(marks, mark{i, j})
			}
		}
	}
	r.under()
	got := newImage(base.Size)
	var err error
	var class, msg string
	c := newCanvas(base.Backend, got, nil)
	for i, st := range steps {
		for _, o := range st.own {
			guarded(drawBudget, func() { c.own(o) })
			r.log("the caller draws: %+v", o)
		}
		class, msg, _ = guarded(uint64(len(st.d.SvgPaths)+1)*drawBudget, func() { err = c.draw(st.d, st.s) })
		r.st.Ops++
		r.log("drawing %d: %d paths on %s", i, len(st.d.SvgPaths), st.s)
		if class != "ok" || err != nil {
			r.fail("shared-context-fails", "drawing %d on a used %s context: %s %s %v; on fresh contexts it succeeds", i, backendNames[base.Backend], class, msg, err)
		}
	}
	r.st.Probes["backend:"+backendNames[base.Backend]]++
	r.mixStr(fmt.Sprint(base, len(steps)))
	if paths >= 2 {
		r.live = true
		r.fault("context-reused-by-path")
	}
	if len(steps) > 1 {
		r.fault("context-reused-by-drawing")
	}
	if string(got.Pix) != string(want.Pix) {
		n := 0
		first := -1
		for i := 0; i < len(got.Pix); i += 4 {
			if string(got.Pix[i:i+4]) != string(want.Pix[i:i+4]) {
				n++
				if first < 0 {
					first = i / 4
				}
			}
		}
		r.fail("context-state-leaks", "%d drawing(s), %d paths on one %s context: %d of %d pixels differ from fresh contexts, first at (%d,%d): %v, expected %v",
			len(steps), paths, backendNames[base.Backend], n, len(got.Pix)/4, first%base.Size, first/base.Size, got.Pix[4*first:4*first+4], want.Pix[4*first:4*first+4])
	}
	_, _ = after, marks
}

// ---- C11 ----

func runC11(r *Run) {
	m := r.mode()
	kind := r.c.W(12, 1, 1, 1, 1, 2, 2)
	name := pick(r.c, []string{"a.svg", "b c.svg", "é.svg", "x", "sub/d.svg", "-.svg", "n.svg.gz",
		"-", "A.SVG", "a.svgz", "$HOME.svg", "a%20b.svg", "a.svg#b", "a.svg?b=c", "*.svg", "[a].svg", "~", " a.svg", "a.svg ", ".svg", "a\\b.svg", "\xff.svg", "nul\t\n.svg", strings.Repeat("n", 200)})
	dir := filepath.Join(r.env.scratch, "c11")
	path := filepath.Join(dir, name)
	must(os.MkdirAll(filepath.Dir(path), 0o755))
	defer os.RemoveAll(dir)
	// the caller may name the file in other ways
	arg := path
	switch r.c.W(4, 1, 1, 1, 1) {
	case 1:
		arg = dir + "/.//" + name
	case 3: // .. behind a link is not the folder before it
		must(os.MkdirAll(dir+"/deep/er", 0o755))
		must(os.Symlink(dir+"/deep/er", dir+"/lnk"))
		path, arg = dir+"/deep/"+name, dir+"/lnk/../"+name
		must(os.MkdirAll(filepath.Dir(path), 0o755))
		r.fault("linked-folder")
	case 4:
		must(os.Symlink(dir, dir+"/lnk"))
		arg = dir + "/lnk/" + name
		r.fault("linked-folder")
	case 2:
		wd, err := os.Getwd()
		must(err)
		must(os.Chdir(dir))
		defer os.Chdir(wd)
		arg = name
	}
	// is tells whether a name that was opened is this file's
	is := func(n string) bool {
		if n == arg {
			return true
		}
		if !filepath.IsAbs(n) {
			n = filepath.Join(dir, n)
		}
		n = filepath.Clean(n)
		return n == path || n == path+".real"
	}
	var doc *Doc
	doc = r.doc(DocOpts{Unsupported: true, Errors: true, Charsets: true, Corpus: true, Big: true, Huge: true})
	r.note(doc)
	content := doc.Bytes
	var openErr error
	wantOpen := false // open must fail with wantErr
	hangUp := func() {}
	var wantErr error
	switch kind {
	case 0:
		must(os.WriteFile(path, content, 0o600))
	case 1:
		wantOpen, wantErr = true, fs.ErrNotExist
		r.fault("missing-file")
	case 2: // an empty file
		content = nil
		must(os.WriteFile(path, nil, 0o600))
		r.fault("empty-file")
	case 3: // a directory
		must(os.MkdirAll(path, 0o755))
		r.fault("directory")
	case 4: // a symbolic link
		must(os.WriteFile(path+".real", content, 0o600))
		must(os.Symlink(path+".real", path))
		r.fault("symbolic-link")
	case 5: // refused
		must(os.WriteFile(path, content, 0o600))
		openErr = pick(r.c, []error{syscall.EACCES, syscall.EMFILE, syscall.ENFILE, syscall.EIO, syscall.EPERM, syscall.ELOOP, syscall.ENOMEM})
		wantOpen, wantErr = true, openErr
		r.fault("open-error:" + openErr.Error())
	case 6: // a pipe: nothing tells its size beforehand
		if len(content) > 60000 {
			must(os.WriteFile(path, content, 0o600))
			break
		}
		must(syscall.Mkfifo(path, 0o600))
		fd, err := syscall.Open(path, syscall.O_RDWR|syscall.O_CLOEXEC|syscall.O_NONBLOCK, 0)
		must(err)
		for b := content; len(b) > 0; {
			n, err := syscall.Write(fd, b)
			must(err)
			b = b[n:]
		}
		hangUp = func() {
			if fd >= 0 {
				syscall.Close(fd)
				fd = -1
			}
		}
		defer hangUp()
		r.fault("named-pipe")
	}
	if r.c.P(1, 4) { // others with names that are nearly the same
		for _, n := range []string{path + ".svg", path + ".gz", path + "z", filepath.Join(dir, strings.TrimSpace(name)), filepath.Join(dir, strings.ToLower(name)), filepath.Join(dir, filepath.Base(name)), filepath.Join(dir, "index.svg"), filepath.Join(path, "index.svg"), filepath.Join(dir, name)} {
			if _, err := os.Lstat(n); err != nil && n != path {
				_ = os.WriteFile(n, []byte("<svg viewBox='0 0 7 7'><title>another</title></svg>"), 0o600)
			}
		}
		r.fault("similar-names")
	}
	// faults while reading
	maxRead := 0
	if r.c.P(1, 2) {
		maxRead = pick(r.c, []int{1, 3, 17, 100, 512, 4096})
	}
	readErr := error(nil)
	errAt := 0
	if r.c.P(1, 3) {
		readErr = pick(r.c, []error{syscall.EIO, syscall.ESTALE, syscall.ETIMEDOUT, syscall.EBADF, syscall.ENOLINK})
		errAt = genOffset(r.c, content)
	}
	truncAt, truncTo := -1, 0
	if readErr == nil && kind == 0 && r.c.P(1, 6) {
		truncAt = genOffset(r.c, content)
		truncTo = r.c.N(len(content) + 1)
	}
	type handle struct {
		name   string
		closed int
		pos    int
	}
	open := map[*os.File]*handle{}
	var order []*handle
	var delivered []byte
	reads, writes := 0, 0
	var bad string
	readFault, truncated := false, false
	install := func() {
		os.SimOpen = func(n string, flag int) error {
			simhook.Y(seamRead)
			if flag&(os.O_WRONLY|os.O_RDWR|os.O_CREATE|os.O_TRUNC|os.O_APPEND) != 0 {
				bad = fmt.Sprintf("opened %q with flags %#x", n, flag)
			}
			if is(n) {
				return openErr
			}
			return nil
		}
		os.SimOpened = func(f *os.File, n string, flag int) {
			h := &handle{name: n}
			if is(n) {
				hangUp()
			}
			open[f] = h
			order = append(order, h)
		}
		os.SimRead = func(f *os.File, n int) (int, error) {
			simhook.Y(seamRead)
			h := open[f]
			if h == nil || !is(h.name) {
				return -1, nil
			}
			reads++
			if truncAt >= 0 && h.pos >= truncAt && !truncated {
				truncated = true
				os.Truncate(path, int64(truncTo))
			}
			if readErr != nil {
				if h.pos >= errAt {
					readFault = true
					return 0, readErr
				}
				if n > errAt-h.pos {
					n = errAt - h.pos
				}
			}
			if maxRead > 0 && n > maxRead {
				n = maxRead
			}
			return n, nil
		}
		os.SimReadDone = func(f *os.File, b []byte, n int, err error) {
			if h := open[f]; h != nil && is(h.name) && n > 0 {
				h.pos += n
				delivered = append(delivered, b[:n]...)
			}
		}
		os.SimClose = func(f *os.File) error {
			if h := open[f]; h != nil {
				h.closed++
			}
			return nil
		}
		os.SimWrite = func(f *os.File) { writes++ }
	}
	remove := func() {
		os.SimOpen, os.SimOpened, os.SimRead, os.SimReadDone, os.SimClose, os.SimWrite = nil, nil, nil, nil, nil, nil
	}
	r.ref()
	want := parseBytes(content, m)
	if want.died() {
		r.skip("reference did not return")
	}
	r.under()
	got := &Outcome{}
	var gd *svg.Svg
	var ge error
	sink.reset()
	install()
	got.Class, got.Err, got.steps = guarded(stepBudget(len(content)), func() { gd, ge = svg.ParseFile(arg, m) })
	remove()
	got.fill(gd, ge)
	got.Log = sink.take()
	r.st.Ops++
	where := fmt.Sprintf("ParseFile(%q) of %d bytes, mode %s", strings.TrimPrefix(arg, r.env.scratch), len(content), modeName(m))
	if maxRead > 0 {
		where += fmt.Sprintf(", reads of at most %d", maxRead)
	}
	if readFault {
		r.fault("read-error:" + readErr.Error())
		where += fmt.Sprintf(", reads fail with %q at %d", readErr, errAt)
	}
	if truncated {
		r.fault("truncated-while-reading")
		where += fmt.Sprintf(", truncated to %d while being read", truncTo)
	}
	if maxRead > 0 && reads > 1 {
		r.fault("short-reads")
	}
	r.mixStr(where)
	r.log("%s -> %s; %d reads, %d files opened; the contents alone: %s", where, got.brief(), reads, len(order), want.brief())
	if got.died() {
		r.fail("file-did-not-return", "%s: %s, while Parse of the contents returns", where, got.brief())
	}
	for _, h := range order {
		if h.closed == 0 {
			r.fail("file-left-open", "%s: the file was still open when ParseFile returned (%s)", where, got.brief())
		}
		if h.closed > 1 {
			r.probe("file closed more than once")
		}
	}
	if bad != "" || writes > 0 {
		r.fail("file-written", "%s: %s, %d writes", where, bad, writes)
	}
	if wantOpen {
		if ge == nil || gd != nil {
			r.fail("open-failure-hidden", "%s: the file could not be opened (%v) and ParseFile returned %s", where, wantErr, got.brief())
		}
		if !errors.Is(ge, wantErr) {
			r.fail("open-failure-replaced", "%s: the file could not be opened (%v) and ParseFile returned the unrelated error %q", where, wantErr, got.Err)
		}
		return
	}
	if kind == 3 {
		if ge == nil {
			r.fail("directory-parsed", "%s: a directory was parsed without error", where)
		}
		return
	}
	if kind != 2 && kind != 3 && kind != 1 && kind != 6 {
		if b, err := os.ReadFile(path); !truncated && (err != nil || string(b) != string(content)) {
			r.fail("file-written", "%s: the file's contents changed", where)
		}
	}
	if readFault {
		if ge == nil {
			r.fail("read-failure-swallowed", "%s: success was reported", where)
		}
		if doc.Charset == "" && splitRune(content[:errAt]) {
			return // encoding/xml reports the incomplete character instead
		}
		if want.Class == "ok" && !errors.Is(ge, readErr) {
			r.fail("read-failure-replaced", "%s: unrelated error %q", where, got.Err)
		}
		return
	}
	if truncated {
		// what was delivered is what counts
		r.ref()
		want = parseBytes(delivered, m)
		if want.died() {
			r.skip("reference did not return")
		}
	}
	if got.key() != want.key() {
		r.fail("file-differs-from-contents", "%s: contents versus file: %s", where, diffOutcome(want, got))
	}
	if kind != 0 && kind != 4 || !r.c.P(1, 3) {
		return
	}
	// the file is replaced (nothing but its contents tells the versions
	// apart) or removed, and parsed again
	keepFP := got.Doc
	smash := r.c.P(1, 3)
	if smash && gd != nil {
		vandalise(gd)
		r.fault("caller-overwrites-result")
	}
	if r.c.P(1, 4) {
		must(os.Remove(path))
		r.fault("file-removed-between-calls")
		d2, e2 := svg.ParseFile(arg, m)
		r.st.Ops++
		if d2 != nil || !errors.Is(e2, fs.ErrNotExist) {
			r.fail("removed-file-parsed", "%s: parsed again after the file had been removed: document %v, error %v", where, d2 != nil, e2)
		}
		return
	}
	next := r.blob(func(c *Ch) *Doc {
		if c.P(1, 2) {
			return newDoc(tweak(c, content), "tweaked")
		}
		return genDoc(c, DocOpts{Small: true, Unsupported: true})
	})
	op := &OpSpec{Doc: next.Bytes, Mode: int(m)}
	op.intoFile(path)
	op.writeFile()
	op.Path = arg
	r.fault("file-replaced-between-calls")
	r.ref()
	want = parseBytes(next.Bytes, m)
	if want.died() {
		r.skip("reference did not return")
	}
	r.under()
	again := op.run()
	r.st.Ops++
	r.log("the file replaced by %q -> %s, its contents alone: %s", clip(string(next.Bytes), 500), again.brief(), want.brief())
	if again.key() != want.key() {
		r.fail("stale-file", "%s: the file was replaced and parsed again: contents versus file: %s", where, diffOutcome(want, again))
	}
	if gd != nil && !smash {
		if fp := fingerprint(gd); fp != keepFP {
			r.fail("earlier-result-changed", "%s: the first result changed when the file was parsed again: %s", where, diffText(keepFP, fp))
		}
	}
}

// ---- C13 ----

// owned is a stream with everything a connection or file offers; all of it
// but reading is the caller's business.
type owned struct {
	*Stream
	closed, written, deadlines, rewinds int
	returned                            bool
	late                                int
}

func (o *owned) Read(p []byte) (int, error) {
	if o.returned {
		o.late++
	}
	return o.Stream.Read(p)
}
func (o *owned) Close() error                      { o.closed++; return nil }
func (o *owned) CloseRead() error                  { o.closed++; return nil }
func (o *owned) CloseWithError(error) error        { o.closed++; return nil }
func (o *owned) Write(p []byte) (int, error)       { o.written++; return len(p), nil }
func (o *owned) WriteString(s string) (int, error) { o.written++; return len(s), nil }
func (o *owned) Truncate(int64) error              { o.written++; return nil }
func (o *owned) Reset(io.Reader)                   { o.rewinds++ }
func (o *owned) SetDeadline(time.Time) error       { o.deadlines++; return nil }
func (o *owned) SetReadDeadline(time.Time) error   { o.deadlines++; return nil }

type ownedSeeker struct{ *owned }

func (o ownedSeeker) Seek(off int64, whence int) (int64, error) {
	before := o.pos
	n, err := seekStream{o.Stream}.Seek(off, whence)
	if o.pos < before {
		o.rewinds++
	}
	return n, err
}

type ownedBytes struct{ *owned }

func (o ownedBytes) ReadByte() (byte, error) {
	if o.returned {
		o.late++
	}
	return o.readByte()
}

type ownedScanner struct{ ownedBytes }

func (o ownedScanner) UnreadByte() error {
	o.rewinds++
	return scanStream{o.Stream}.UnreadByte()
}

type ownedRunes struct{ ownedSeeker }

func (o ownedRunes) ReadRune() (rune, int, error) {
	if o.returned {
		o.late++
	}
	return runeStream{o.Stream}.ReadRune()
}
func (o ownedRunes) UnreadRune() error {
	o.rewinds++
	return runeStream{o.Stream}.UnreadRune()
}
func (o ownedRunes) ReadAt(p []byte, off int64) (int, error) {
	if o.returned {
		o.late++
	}
	if off < int64(o.pos) {
		o.rewinds++
	}
	return fileStream{seekStream{o.Stream}}.ReadAt(p, off)
}

func runC13(r *Run) {
	m := r.mode()
	d := r.doc(DocOpts{Unsupported: true, Errors: true, Charsets: true, Corpus: true, Huge: true, Small: r.c.P(1, 2)})
	r.note(d)
	content := d.Bytes
	if r.c.P(1, 6) {
		dd := r.blob(func(c *Ch) *Doc {
			b, kind := damage(c, append([]byte(nil), content...), nil)
			if kind != "none" {
				r.fault(kind)
			}
			return newDoc(b, "damaged")
		})
		content = dd.Bytes
		r.logDoc("damaged document", content)
	}
	if r.c.P(1, 5) {
		runC13File(r, content, m)
		return
	}
	if r.c.P(1, 6) {
		runC13Memory(r, content, m)
		return
	}
	op := genOp(r.c, content, true)
	op.Mode = int(m)
	if r.c.P(1, 3) {
		op.At = genOffset(r.c, content)
		if op.At > len(content) {
			op.At = len(content)
		}
	}
	s, _ := op.stream()
	o := &owned{Stream: s}
	var rd io.Reader = o
	switch r.c.N(5) {
	case 1:
		rd = ownedSeeker{o}
	case 2:
		rd = ownedBytes{o}
	case 3:
		rd = ownedScanner{ownedBytes{o}}
	case 4:
		rd = ownedRunes{ownedSeeker{o}}
	}
	r.log("%s as %T", op, rd)
	r.under()
	got := parse(rd, m, len(content))
	pos := s.pos
	o.returned = true
	r.st.Ops++
	r.log("-> %s; %d reads, %d of %d bytes read", got.brief(), s.reads, s.delivered(), len(content))
	simhook.Advance(time.Hour) // timers left behind fire
	for i := 0; i < 20; i++ {
		runtime.Gosched()
	}
	r.mixStr(op.String())
	r.countPlan(op.Plan, s)
	switch {
	case op.crashed(got):
		r.fault("reader-panic")
	case s.ended && op.Fail >= 0:
		r.fault("read-error:" + failures()[op.Fail].name)
	case s.ended && op.At < len(content):
		r.fault("truncated-stream")
	}
	if got.err != nil && !s.ended {
		r.probe("content refused before the end of the stream")
	}
	where := fmt.Sprintf("%s -> %s", op, got.brief())
	if o.closed > 0 {
		r.fail("stream-closed", "%s: the caller's stream was closed", where)
	}
	if o.written > 0 {
		r.fail("stream-written", "%s: the caller's stream was written to or truncated", where)
	}
	if o.deadlines > 0 {
		r.fail("stream-deadline", "%s: the deadlines of the caller's stream were changed", where)
	}
	if o.rewinds > 0 || s.pos < s.base {
		r.fail("stream-rewound", "%s: the caller's stream was moved backwards", where)
	}
	if o.late > 0 || s.pos != pos {
		r.fail("stream-read-after-return", "%s: the caller's stream was read after Parse had returned", where)
	}
}

// runC13Memory hands memory of the caller to Parse.
func runC13Memory(r *Run, content []byte, m svg.ErrorMode) {
	lead, room := r.c.N(3)*7, r.c.N(3)*50
	all := append(append(bytes.Repeat([]byte("?"), lead), content...), bytes.Repeat([]byte{0xa5}, room)...)
	mine := append([]byte(nil), all...)
	var rd io.Reader
	var left func() int
	under := bytes.NewReader(mine)
	limit := &io.LimitedReader{R: under, N: int64(len(content))}
	var buffered *bufio.Reader
	switch r.c.N(4) {
	case 3:
		_, err := under.Seek(int64(lead), io.SeekStart)
		must(err)
		buffered = bufio.NewReaderSize(under, pick(r.c, []int{16, 100, 4096, 1 << 16}))
		if r.c.P(1, 2) {
			buffered.Peek(1 + r.c.N(40))
		}
		rd, left = buffered, func() int { return under.Len() + buffered.Buffered() }
	case 0:
		b := bytes.NewBuffer(mine[: lead+len(content) : len(mine)])
		b.Next(lead)
		rd, left = b, b.Len
	case 1:
		b := bytes.NewReader(mine[:lead+len(content)])
		_, err := b.Seek(int64(lead), io.SeekStart)
		must(err)
		rd, left = b, b.Len
	case 2:
		_, err := under.Seek(int64(lead), io.SeekStart)
		must(err)
		rd, left = limit, func() int { return int(limit.N) }
	}
	before := left()
	r.under()
	got := parse(rd, m, len(content))
	r.st.Ops++
	r.fault(fmt.Sprintf("reader-type:%T", rd))
	where := fmt.Sprintf("a %T of %d bytes, mode %s -> %s", rd, before, modeName(m), got.brief())
	r.log("%s", where)
	if string(mine) != string(all) {
		r.fail("stream-written", "%s: the caller's memory was changed", where)
	}
	if n := left(); n > before || n < 0 {
		r.fail("stream-rewound", "%s: %d bytes left of %d", where, n, before)
	}
	if buffered != nil {
		n := left()
		rest, err := readRest(buffered)
		if err != nil || n > len(all) || string(rest) != string(all[len(all)-n:]) {
			r.fail("stream-reset", "%s: the caller's buffered reader has lost what Parse did not read: %d bytes and %v instead of %d bytes", where, len(rest), err, n)
		}
	}
	if rd == io.Reader(limit) && (limit.R != io.Reader(under) || under.Len() < room || under.Len() > before+room) {
		r.fail("stream-rewound", "%s: %d bytes left in the reader behind it, where %d are not the caller's to give", where, under.Len(), room)
	}
}

// readRest reads what the caller has left.
func readRest(rd io.Reader) (b []byte, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("panic: %v", e)
		}
	}()
	return io.ReadAll(rd)
}

// runC13File hands a real file to Parse.
func runC13File(r *Run, content []byte, m svg.ErrorMode) {
	path := filepath.Join(r.env.scratch, "c13.svg")
	lead := r.c.N(3) * 7
	all := append(bytes.Repeat([]byte("?"), lead), content...)
	must(os.WriteFile(path, all, 0o600))
	defer os.Remove(path)
	f, err := os.OpenFile(path, os.O_RDWR, 0)
	must(err)
	defer f.Close()
	_, err = f.Seek(int64(lead), io.SeekStart)
	must(err)
	failAt := -1
	if r.c.P(1, 2) {
		failAt = lead + genOffset(r.c, content)
	}
	pos, fired, writes, closes := lead, false, 0, 0
	os.SimRead = func(g *os.File, n int) (int, error) {
		simhook.Y(seamRead)
		if g != f || failAt < 0 {
			return -1, nil
		}
		if pos >= failAt {
			fired = true
			return 0, syscall.EIO
		}
		return failAt - pos, nil
	}
	os.SimReadDone = func(g *os.File, b []byte, n int, err error) {
		if g == f && n > 0 {
			pos += n
		}
	}
	os.SimWrite = func(g *os.File) { writes++ }
	os.SimClose = func(g *os.File) error {
		if g == f {
			closes++
		}
		return nil
	}
	r.under()
	var got *Outcome
	func() {
		defer func() { os.SimRead, os.SimReadDone, os.SimWrite, os.SimClose = nil, nil, nil, nil }()
		got = parse(f, m, len(content))
	}()
	r.st.Ops++
	r.fault("reader-type:*os.File")
	if fired {
		r.fault("read-error:EIO")
	}
	where := fmt.Sprintf("a file of %d bytes read from offset %d, mode %s, failing at %d -> %s", len(all), lead, modeName(m), failAt, got.brief())
	r.log("%s", where)
	if _, err := f.Stat(); closes > 0 || err != nil {
		r.fail("stream-closed", "%s: the caller's file was closed", where)
	}
	if writes > 0 {
		r.fail("stream-written", "%s: the caller's file was written to", where)
	}
	if p, err := f.Seek(0, io.SeekCurrent); err == nil && p != int64(pos) {
		r.fail("stream-rewound", "%s: the caller's file was moved to %d after reading up to %d", where, p, pos)
	}
	if b, err := os.ReadFile(path); err != nil || string(b) != string(all) {
		r.fail("stream-written", "%s: the caller's file was changed", where)
	}
}

// ---- C12 ----

func runC12(r *Run) {
	d := r.doc(DocOpts{Unsupported: true, Errors: r.c.P(1, 4), Charsets: true, Corpus: true, Huge: true, Small: r.c.P(1, 2)})
	r.note(d)
	p := genPlan(r.c, d.Bytes, true)
	parseM := func(m svg.ErrorMode) *Outcome {
		s := newStream(d.Bytes, p, len(d.Bytes), io.EOF)
		return parse(p.wrap(s), m, len(d.Bytes))
	}
	r.ref()
	ign := parseM(svg.IgnoreErrorMode)
	if ign.died() {
		r.skip("did not return")
	}
	r.under()
	warn := parseM(svg.WarnErrorMode)
	strict := parseM(svg.StrictErrorMode)
	sink.fail, sink.short = 1+r.c.N(3), r.c.P(1, 2)
	broken := parseM(svg.WarnErrorMode)
	if sink.fired > 0 {
		r.fault(map[bool]string{false: "log-sink-error", true: "log-sink-short-write"}[sink.short])
	}
	sink.fail = 0
	r.st.Ops += 4
	if d.Unsup > 0 || len(warn.Log) > 0 {
		r.live = true
		r.probe("unsupported content")
	}
	r.mixStr(p.String())
	r.log("delivery %s\nignore: %s\nwarn: %s\nstrict: %s\nwarn with a failing sink: %s", p, ign.brief(), warn.brief(), strict.brief(), broken.brief())
	if len(ign.Log) > 0 {
		r.fail("ignore-logs", "ignore mode logged %q", clip(strings.Join(ign.Log, "|"), 200))
	}
	if len(strict.Log) > 0 {
		r.fail("strict-logs", "strict mode logged %q", clip(strings.Join(strict.Log, "|"), 200))
	}
	noLog := func(o *Outcome) *Outcome { c := *o; c.Log = nil; return &c }
	if noLog(warn).key() != noLog(ign).key() {
		r.fail("warn-differs-from-ignore", "ignore versus warn: %s", diffOutcome(noLog(ign), noLog(warn)))
	}
	if noLog(broken).key() != noLog(ign).key() {
		r.fail("sink-changes-outcome", "ignore versus warn with a failing log sink: %s", diffOutcome(noLog(ign), noLog(broken)))
	}
	if strings.Join(broken.Log, "\n") != strings.Join(warn.Log, "\n") {
		r.fail("sink-changes-warnings", "a failing log sink was given other warnings: %q versus %q", clip(strings.Join(warn.Log, "|"), 200), clip(strings.Join(broken.Log, "|"), 200))
	}
	if warn.Class == "ok" && len(warn.Log) < d.Unsup {
		r.fail("warnings-missing", "%d unsupported elements, %d warnings", d.Unsup, len(warn.Log))
	}
	if len(warn.Log) == 0 {
		if strict.key() != ign.key() {
			r.fail("strict-differs", "nothing unsupported was reported, yet ignore versus strict: %s", diffOutcome(ign, strict))
		}
		return
	}
	if strict.died() {
		r.fail("strict-died", "strict: %s", strict.brief())
	}
	if strict.err == nil {
		r.fail("strict-accepts", "%d warnings (%q) and strict mode reported success", len(warn.Log), clip(warn.Log[0], 100))
	}
	if ign.doc != nil && strict.doc != nil {
		a, b := ign.doc, strict.doc
		if len(b.SvgPaths) > len(a.SvgPaths) {
			r.fail("strict-partial", "strict mode stopped with %d paths, ignore mode found %d", len(b.SvgPaths), len(a.SvgPaths))
		}
		n := len(b.SvgPaths)
		for i := 0; i < n-1; i++ {
			if x, y := dumpAny(a.SvgPaths[i]), dumpAny(b.SvgPaths[i]); x != y {
				r.fail("strict-partial", "path %d differs between ignore and strict mode: %s", i, diffText(x, y))
			}
		}
	}
}
