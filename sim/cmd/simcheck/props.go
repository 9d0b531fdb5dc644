package main

import (
	"bytes"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"regexp"
	"runtime"
	"runtime/debug"
	"strings"
	"time"
	"unicode/utf8"

	svg "github.com/lafriks/go-svg"
	"verifsim/simhook"
)

var parserReal = []string{"github.com/lafriks/go-svg (every statement, with a yield point before it)", "encoding/xml", "golang.org/x/net/html/charset and golang.org/x/text", "log"}

var allProps = []*Prop{
	{id: "C01", run: runC01, batch: 1500, quick: 200000, deep: 3600000,
		rule: "A run is a document (generated from a grammar of everything the parser handles, legacy encodings and erroneous content included, or one of the repository's real files), a mode and 1-4 seeded deliveries of the same bytes (reader type, read sizes, cuts at chosen offsets, empty reads, end with or after the last bytes, delays, scratch use of the buffer); the outcome of each is compared with that of a single whole read. Non-trivial: at least one delivery differs from the whole read in a way that fired.",
		real: parserReal, stub: []string{"the byte stream (simulated reader)", "the clock", "the log's output"}},
	{id: "C02", run: runC02, batch: 1500, quick: 420000, deep: 7560000,
		rule: "A run is a document that parses without error when intact, a mode, a delivery and one failure (30 kinds of error value, at a chosen offset, with or after data, sticky or transient). Non-trivial: the failure was delivered to the parser.",
		real: parserReal, stub: []string{"the byte stream (simulated reader)", "the clock", "the log's output"}},
	{id: "C03", run: runC03, batch: 1500, quick: 420000, deep: 7560000,
		rule: "A run is a well-formed document, a mode, a delivery and a cut before the end of the root element at which the stream reports a clean end of file. Non-trivial: the end was delivered to the parser.",
		real: parserReal, stub: []string{"the byte stream (simulated reader)", "the clock", "the log's output"}},
	{id: "C04", run: runC04, batch: 1200, quick: 420000, deep: 7560000,
		rule: "A run is a document, a mode, a delivery and a crash of the stream (clean end or failure) at a chosen offset; the document returned is compared with the result of the delivered prefix completed with end tags. Non-trivial: the crash came inside the root element.",
		real: parserReal, stub: []string{"the byte stream (simulated reader)", "the clock", "the log's output"}},
	{id: "C05", run: runC05, batch: 1200, quick: 450000, deep: 8100000,
		rule: "A run is a document, a mode and a delivery that is slow, dribbling, ends early or fails (sticky or transient); it is judged by the reads and statements executed after the end was reported and in total. Non-trivial: the stream ended or stalled inside the document.",
		real: parserReal, stub: []string{"the byte stream (simulated reader)", "the clock", "the log's output"}},
	{id: "C06", run: runC06, batch: 800, quick: 800000, deep: 14400000,
		rule: "A run is a document damaged by 1-6 seeded storage faults (flipped, lost, repeated, zeroed, swapped or spliced bytes, and damage inside attribute values) delivered with a seeded plan; Parse must return within the step budget. Non-trivial: the damage changed the bytes.",
		real: parserReal, stub: []string{"the byte stream (simulated reader)", "the clock", "the log's output"}},
	{id: "C07", run: runC07, race: true, batch: 12, quick: 18000, deep: 324000,
		rule: "A run is 2-4 simulated caller threads, each performing 1-3 parses (some started from inside another parse's stream, some followed by the caller overwriting its own result), interleaved statement by statement by the seeded scheduler under the race detector; each outcome is compared with the same parse alone in another process. Non-trivial: the schedule switched between tasks.",
		real: parserReal, stub: []string{"the byte streams (simulated readers)", "goroutine scheduling, sync.Mutex/RWMutex waiting and sync.Pool contents (simulated)", "the clock", "the log's output"}},
	{id: "C08", run: runC08, batch: 400, quick: 40000, deep: 720000,
		rule: "A run is a history of 1-10 operations in one process (parses of related documents in all modes, some cut, failing, damaged or nested, results overwritten or drawn) followed by probes, each compared with the same parse in a process that has just started. Non-trivial: the history has at least one operation before the probe.",
		real: append([]string{"github.com/lafriks/go-svg/renderer/{gg,draw2d,rasterx} and their backends"}, parserReal...), stub: []string{"the byte streams (simulated readers)", "map iteration order and sync.Pool contents (seeded)", "the clock", "the log's output"}},
	{id: "C09", run: runC09, race: true, batch: 12, quick: 18000, deep: 324000,
		rule: "A run is a document shared by 2-4 simulated threads that draw it with seeded backends, targets and opacities (some painters crash part-way), interleaved by the seeded scheduler under the race detector; pixels are compared with the same drawing alone in another process and the document's fingerprint must not change. Non-trivial: the schedule switched between tasks.",
		real: []string{"github.com/lafriks/go-svg/renderer/{gg,draw2d,rasterx}", "github.com/fogleman/gg", "github.com/llgcode/draw2d/draw2dimg", "github.com/srwiley/rasterx", "the parser"}, stub: []string{"goroutine scheduling (simulated)", "painter wrappers that yield and crash around the real draw2d context and rasterx scanner"}},
	{id: "C10", run: runC10, batch: 400, quick: 360000, deep: 6480000,
		rule: "A run is a history of 1-3 drawings of documents on one graphic context; the pixels are compared with those of a replay that uses a fresh graphic context over the same pixels for every single path. Non-trivial: at least two paths were drawn on the shared context.",
		real: []string{"github.com/lafriks/go-svg/renderer/{gg,draw2d,rasterx}", "github.com/fogleman/gg", "github.com/llgcode/draw2d/draw2dimg", "github.com/srwiley/rasterx", "the parser"}, stub: []string{"none beyond the instrumented painters"}},
	{id: "C11", run: runC11, batch: 800, quick: 110000, deep: 2500000,
		rule: "A run is a file with seeded contents (or none, or a directory), a mode and 0-2 disk faults (refused open, short reads, read error at an offset, truncation while reading); the outcome, the descriptors left open and the writes issued are checked. Non-trivial: a fault fired or more than one read was needed.",
		real: append([]string{"package os and the kernel's file system below the hooks"}, parserReal...), stub: []string{"open, read and close results of package os (simulated disk faults)"}},
	{id: "C12", run: runC12, batch: 1200, quick: 200000, deep: 3600000,
		rule: "A run is a document parsed in all three modes with seeded deliveries and a log sink that works, fails or writes short. Non-trivial: the document holds something unsupported or the sink failed.",
		real: parserReal, stub: []string{"the byte stream (simulated reader)", "the log's output (simulated sink)"}},
	{id: "C13", run: runC13, batch: 1200, quick: 600000, deep: 10800000,
		rule: "A run is a document (some erroneous or damaged), a mode and a stream with every method of a connection or file (or a real file opened read-write at an offset) that delivers it with a seeded plan and ends, fails or crashes at a seeded offset; the calls made on the stream during and after Parse are checked. Non-trivial: a fault or a delivery other than a single whole read fired.",
		real: append([]string{"package os and the kernel's file system below the hooks (real-file runs)"}, parserReal...), stub: []string{"the byte stream (simulated reader)", "the clock", "the log's output"}},
	{id: "C21", run: runC21, batch: 400, quick: 350000, deep: 6300000,
		rule: "A run is a document, intact or damaged by 1-3 seeded storage faults, delivered whole or cut short by a clean end or a failure, parsed in a seeded mode; whatever document Parse returned, also beside an error, is drawn on a fresh context of a seeded renderer. Non-trivial: there was a document to draw.",
		real: []string{"the parser", "github.com/lafriks/go-svg/renderer/{gg,draw2d,rasterx}", "github.com/fogleman/gg", "github.com/llgcode/draw2d/draw2dimg", "github.com/srwiley/rasterx"}, stub: []string{"the byte stream (simulated reader)", "none beyond the step counters in the painters"},
		assume: []string{"work inside the painting libraries is only judged when all coordinates lie within 10,000 pixels (1,000 for running time) and dashes are not microscopic: the painters' running time grows with the coordinates"}},
	{id: "C23", run: runC23, batch: 1200, quick: 400000, deep: 7200000,
		rule: "A run is a document and one fault in the sequence of its elements (one lost or repeated, or a comment, instruction, unsupported element or unknown attribute added), delivered with seeded plans and, in a quarter of the runs, cut short or failing at the same place behind the fault; the rest of the document must come out as without it. Non-trivial: the fault changed the bytes.",
		real: parserReal, stub: []string{"the byte stream (simulated reader)", "the clock", "the log's output"}},
}

func (r *Run) mode() svg.ErrorMode { return modes[r.c.N(3)] }

func (r *Run) note(d *Doc) {
	k := d.Kind
	if d.Charset != "" {
		k += ":" + d.Charset
	}
	r.st.Kinds[k]++
	r.mixIn(d.Bytes)
	r.logDoc("document", d.Bytes)
}

func (r *Run) countPlan(p Plan, s *Stream) {
	if p.Kind != kPlain {
		r.fault("reader-type:" + kindNames[p.Kind])
	}
	if s == nil {
		return
	}
	if p.Chunk > 0 || len(p.Cuts) > 0 {
		r.fault("short-reads")
	}
	if s.empties > 0 {
		r.fault("empty-reads")
	}
	if p.DataEnd && s.ended {
		r.fault("end-with-data")
	}
	if p.Delay > 0 {
		r.fault("slow-stream")
	}
	if p.Scribble {
		r.fault("buffer-scribbling")
	}
}

// ---- C01 ----

func runC01(r *Run) {
	d := r.doc(DocOpts{Unsupported: true, Errors: true, Charsets: true, Corpus: true, Big: true, Huge: true})
	m := r.mode()
	r.note(d)
	r.log("mode %s", modeName(m))
	r.ref()
	want := parseBytes(d.Bytes, m)
	if want.died() {
		r.skip("reference did not return")
	}
	r.log("whole read: %s", want.brief())
	r.under()
	for k := 1 + r.c.N(3); k > 0; k-- {
		p := genPlan(r.c, d.Bytes, false)
		rd, s := p.reader(d.Bytes)
		got := parse(rd, m, len(d.Bytes))
		r.st.Ops++
		r.countPlan(p, s)
		r.mixStr(p.String())
		r.log("delivery %s: %s", p, got.brief())
		if s != nil {
			// the source's buffers are its own again
			for i := range s.data {
				s.data[i] = '?'
			}
			if !got.died() {
				got.Doc = fingerprint(got.doc)
			}
		}
		if got.key() != want.key() {
			r.fail("delivery-changes-outcome", "mode %s, %s: %s", modeName(m), p, diffOutcome(want, got))
		}
	}
}

// ---- C02 ----

// intact draws a document that parses without error.
func (r *Run) intact(o DocOpts, m svg.ErrorMode) (*Doc, *Outcome) {
	if m == svg.StrictErrorMode {
		o.Unsupported = false
	}
	o.Errors = false
	d := r.doc(o)
	r.ref()
	want := parseBytes(d.Bytes, m)
	if want.Class != "ok" {
		r.skip("document does not parse: " + want.Class)
	}
	r.note(d)
	r.log("mode %s; intact: %s", modeName(m), want.brief())
	return d, want
}

func runC02(r *Run) {
	m := r.mode()
	d, _ := r.intact(DocOpts{Unsupported: true, Charsets: true, Corpus: true, Huge: true}, m)
	p := genPlan(r.c, d.Bytes, true)
	fs := failures()
	f := fs[r.c.N(len(fs))]
	at := genOffset(r.c, d.Bytes)
	if r.c.P(1, 6) {
		at = len(d.Bytes)
	}
	if at > len(d.Bytes) {
		at = len(d.Bytes)
	}
	s := newStream(d.Bytes, p, at, f.err)
	s.transient = r.c.P(1, 3)
	r.log("delivery %s; stream fails at %d of %d with %s (%v), transient %v", p, at, len(d.Bytes), f.name, f.err, s.transient)
	r.under()
	got := parse(p.wrap(s), m, len(d.Bytes))
	r.st.Ops++
	r.log("got %s", got.brief())
	if got.died() {
		r.fail("failure-kills", "mode %s, %s: the stream failed with %s at %d of %d and Parse did not return: %s", modeName(m), p, f.name, at, len(d.Bytes), got.brief())
	}
	if !s.ended {
		r.fail("failure-never-read", "mode %s, %s: Parse returned (%s) without reading the stream to its end: the failure %s at %d of %d was not seen", modeName(m), p, got.brief(), f.name, at, len(d.Bytes))
	}
	r.fault("read-error:" + f.name)
	r.countPlan(p, s)
	if s.transient {
		r.fault("transient-read-error")
	}
	if at > d.RootEnd && d.RootEnd >= 0 {
		r.probe("failure after the root element")
	}
	r.mixStr(fmt.Sprint(p, at, f.name, s.transient))
	if got.err == nil {
		r.fail("failure-swallowed", "mode %s, %s: the stream failed with %s (%q) at %d of %d and Parse reported success", modeName(m), p, f.name, f.err, at, len(d.Bytes))
	}
	if !errors.Is(got.err, f.err) {
		if d.Charset == "" && splitRune(d.Bytes[:at]) {
			// encoding/xml reports the incomplete character instead
			r.probe("failure inside a character")
			return
		}
		r.fail("failure-replaced", "mode %s, %s: the stream failed with %s (%q) at %d of %d and Parse returned the unrelated error %q", modeName(m), p, f.name, f.err, at, len(d.Bytes), got.Err)
	}
}

// splitRune reports whether b ends inside a multi-byte character.
func splitRune(b []byte) bool {
	for i := 1; i <= 4 && i <= len(b); i++ {
		c := b[len(b)-i]
		if c < 0x80 {
			return false
		}
		if utf8.RuneStart(c) {
			return !utf8.FullRune(b[len(b)-i:])
		}
	}
	return false
}

// ---- C03 ----

func runC03(r *Run) {
	m := r.mode()
	d, _ := r.intact(DocOpts{Unsupported: true, Charsets: true, Corpus: true, Huge: true}, m)
	if d.RootEnd <= 0 {
		r.skip("no root end")
	}
	p := genPlan(r.c, d.Bytes, false)
	at := genOffset(r.c, d.Bytes[:d.RootEnd-1])
	if r.c.P(1, 8) {
		at = d.RootEnd - 1 - r.c.N(9)
	}
	if at < 0 {
		at = 0
	}
	if at >= d.RootEnd {
		at = d.RootEnd - 1
	}
	cut := d.Bytes[:at]
	var kept []int
	for _, c := range p.Cuts {
		if c < at {
			kept = append(kept, c)
		}
	}
	p.Cuts = kept
	rd, s := p.reader(cut)
	r.under()
	got := parse(rd, m, at)
	r.st.Ops++
	r.fault("truncated-stream")
	r.countPlan(p, s)
	r.mixStr(fmt.Sprint(p, at))
	r.log("delivery %s; clean end after %d of %d bytes (root element ends at %d): %s", p, at, len(d.Bytes), d.RootEnd, got.brief())
	if got.died() {
		r.fail("truncation-kills", "mode %s, %s: the stream ended after %d of %d bytes and Parse did not return: %s", modeName(m), p, at, len(d.Bytes), got.brief())
	}
	seen := seenElement(cut)
	if got.err == nil {
		r.fail("truncation-accepted", "mode %s, %s: the stream ended after %d of %d bytes, inside the root element (which ends at %d), and Parse reported success", modeName(m), p, at, len(d.Bytes), d.RootEnd)
	}
	if !seen {
		r.probe("ended before the first element")
		if d.Charset == "" && cleanProlog(cut) && got.doc != nil {
			r.fail("document-from-nothing", "mode %s, %s: the stream ended after %d bytes before any element, and Parse returned a document", modeName(m), p, at)
		}
	}
}

// seenElement reports whether a start tag is complete in b.
func seenElement(b []byte) bool {
	d := xml.NewDecoder(bytes.NewReader(b))
	d.CharsetReader = func(_ string, in io.Reader) (io.Reader, error) { return in, nil }
	for {
		t, err := d.Token()
		if err != nil {
			return false
		}
		if _, ok := t.(xml.StartElement); ok {
			return true
		}
	}
}

// cleanProlog reports whether b ends between tokens before any element.
func cleanProlog(b []byte) bool {
	d := xml.NewDecoder(bytes.NewReader(b))
	for {
		t, err := d.Token()
		if err != nil {
			return err == io.EOF
		}
		if _, ok := t.(xml.StartElement); ok {
			return false
		}
	}
}

// ---- C04 ----

// complete returns the longest part of b that ends with a complete token,
// completed with end tags for the open elements, the ids of open masks, where
// the outermost open mask begins and whether more masks began inside it.
func complete(b []byte) (full []byte, open int, masks []string, maskAt int, nested bool) {
	d := xml.NewDecoder(bytes.NewReader(b))
	var stack []string
	off := 0
	tags := 0
	for {
		t, err := d.RawToken()
		if err != nil {
			break
		}
		end := int(d.InputOffset())
		switch t := t.(type) {
		case xml.StartElement:
			// a self-closing element yields its end at the same offset
			n := t.Name.Local
			if t.Name.Space != "" {
				n = t.Name.Space + ":" + n
			}
			stack = append(stack, n)
			tags++
			if t.Name.Local == "mask" {
				id := ""
				for _, a := range t.Attr {
					if a.Name.Local == "id" {
						id = a.Value
					}
				}
				if len(masks) == 0 {
					maskAt, nested = off, false
				} else {
					nested = true
				}
				masks = append(masks, id)
			}
		case xml.EndElement:
			if len(stack) == 0 {
				return nil, 0, nil, 0, false
			}
			stack = stack[:len(stack)-1]
			if t.Name.Local == "mask" && len(masks) > 0 {
				masks = masks[:len(masks)-1]
			}
		case xml.CharData:
			if end == len(b) {
				// text that may go on: not complete yet
				continue
			}
		}
		off = end
	}
	if tags == 0 {
		return nil, 0, nil, 0, false
	}
	var out bytes.Buffer
	out.Write(b[:off])
	for i := len(stack) - 1; i >= 0; i-- {
		out.WriteString("</" + stack[i] + ">")
	}
	return out.Bytes(), len(stack), masks, maskAt, nested
}

func runC04(r *Run) {
	m := r.mode()
	d := r.doc(DocOpts{Unsupported: true, Errors: true, Corpus: true, Huge: true})
	r.note(d)
	p := genPlan(r.c, d.Bytes, true)
	at := genOffset(r.c, d.Bytes)
	if at > len(d.Bytes) {
		at = len(d.Bytes)
	}
	err := io.EOF
	name := "clean end"
	if r.c.P(1, 2) {
		f := pick(r.c, failures())
		err, name = f.err, f.name
	}
	prefix := d.Bytes[:at]
	full, open, openMasks, maskAt, nested := complete(prefix)
	if full == nil || open == 0 {
		r.skip("crash outside the root element")
	}
	r.ref()
	want := parseBytes(full, m)
	if want.died() {
		r.skip("reference did not return")
	}
	s := newStream(d.Bytes, p, at, err)
	r.under()
	got := parse(p.wrap(s), m, len(d.Bytes))
	r.st.Ops++
	r.fault("crash-in-document:" + map[bool]string{true: "end", false: "error"}[name == "clean end"])
	r.countPlan(p, s)
	r.mixStr(fmt.Sprint(p, at, name))
	r.log("mode %s, delivery %s; %s after %d of %d bytes", modeName(m), p, name, at, len(d.Bytes))
	r.logDoc("delivered prefix, completed", full)
	r.log("completed prefix: %s", want.brief())
	r.log("crashed stream: %s", got.brief())
	if got.died() {
		r.fail("partial-lost", "mode %s, %s, %s after %d of %d bytes: Parse did not return: %s", modeName(m), p, name, at, len(d.Bytes), got.brief())
	}
	where := fmt.Sprintf("mode %s, %s, %s after %d of %d bytes", modeName(m), p, name, at, len(d.Bytes))
	if want.Class == "err" {
		// the content was refused before the crash mattered
		if got.Doc != want.Doc || got.Err != want.Err {
			r.fail("partial-differs-after-content-error", "%s: %s", where, diffOutcome(want, got))
		}
		return
	}
	if got.doc == nil {
		r.fail("partial-lost", "%s: no document was returned although %d element(s) were open", where, open)
	}
	w, g := want.doc, got.doc
	if mo := expect(full); mo != nil {
		r.probe("content counted independently")
		if t := mo.judge(w); t != "" {
			r.fail("content-missing-or-invented", "%s: the document that was delivered, completed, has %s", where, t)
		}
	}
	comparePartial(r, where, w, g, openMasks)
	if len(openMasks) > 0 && !nested {
		// a mask is there when it is complete, and not before
		r.ref()
		before, _, _, _, _ := complete(prefix[:maskAt])
		if o := parseBytes(before, m); o.Class == "ok" {
			r.under()
			r.probe("crash inside a mask")
			if a, b := dumpAny(o.doc.SvgMasks), dumpAny(g.SvgMasks); a != b {
				r.fail("partial-open-mask", "%s: the masks are not those delivered in full: %s", where, diffText(a, b))
			}
		}
	}
	// everything in the partial document is in the whole document too
	r.ref()
	whole := parseBytes(d.Bytes, m)
	if whole.Class != "ok" {
		return
	}
	r.under()
	if len(g.SvgPaths) > len(whole.doc.SvgPaths) {
		r.fail("partial-invents-paths", "%s: %d paths, the whole document has %d", where, len(g.SvgPaths), len(whole.doc.SvgPaths))
	}
	for i := range g.SvgPaths {
		a, b := dumpAny(g.SvgPaths[i]), dumpAny(whole.doc.SvgPaths[i])
		if a != b {
			r.fail("partial-path-changes", "%s: path %d differs from the whole document's: %s", where, i, diffText(b, a))
		}
	}
	for i, t := range g.Titles {
		if i >= len(whole.doc.Titles) || !strings.HasPrefix(whole.doc.Titles[i], t) {
			r.fail("partial-title", "%s: title %d %q is not a prefix of the whole document's", where, i, t)
		}
	}
	for i, t := range g.Descriptions {
		if i >= len(whole.doc.Descriptions) || !strings.HasPrefix(whole.doc.Descriptions[i], t) {
			r.fail("partial-description", "%s: description %d %q is not a prefix of the whole document's", where, i, t)
		}
	}
}

func comparePartial(r *Run, where string, w, g *svg.Svg, openMasks []string) {
	if a, b := dumpAny(w.SvgPaths), dumpAny(g.SvgPaths); a != b {
		r.fail("partial-paths", "%s: paths differ from those delivered in full (%d expected, %d found): %s", where, len(w.SvgPaths), len(g.SvgPaths), diffText(a, b))
	}
	for _, f := range []struct {
		n    string
		a, b any
	}{{"viewBox", w.ViewBox, g.ViewBox}, {"width", w.Width, g.Width}, {"height", w.Height, g.Height}, {"transform", w.Transform, g.Transform}} {
		if a, b := dumpAny(f.a), dumpAny(f.b); a != b {
			r.fail("partial-"+f.n, "%s: %s differs: %s", where, f.n, diffText(a, b))
		}
	}
	texts := func(n string, a, b []string) {
		if len(a) != len(b) {
			r.fail("partial-"+n, "%s: %d %s expected, %d found", where, len(a), n, len(b))
		}
		for i := range a {
			ok := a[i] == b[i]
			if i == len(a)-1 { // text still arriving
				ok = strings.HasPrefix(b[i], a[i])
			}
			if !ok {
				r.fail("partial-"+n, "%s: %s %d is %q, expected %q", where, n, i, clip(b[i], 80), clip(a[i], 80))
			}
		}
	}
	texts("titles", w.Titles, g.Titles)
	texts("descriptions", w.Descriptions, g.Descriptions)
	open := map[string]bool{}
	for _, id := range openMasks {
		open[id] = true
	}
	for id, mw := range w.SvgMasks {
		if open[id] {
			continue
		}
		mg, ok := g.SvgMasks[id]
		if !ok {
			r.fail("partial-masks", "%s: mask %q, delivered in full, is missing", where, id)
		}
		if a, b := dumpAny(mw), dumpAny(mg); a != b {
			r.fail("partial-masks", "%s: mask %q differs: %s", where, id, diffText(a, b))
		}
	}
	for id := range g.SvgMasks {
		if _, ok := w.SvgMasks[id]; !ok && !open[id] {
			r.fail("partial-masks", "%s: mask %q was never delivered in full", where, id)
		}
	}
}

// ---- C05 ----

func runC05(r *Run) {
	m := r.mode()
	d := r.doc(DocOpts{Unsupported: true, Errors: true, Charsets: true, Corpus: true, Big: true, Huge: true})
	r.note(d)
	p := genPlan(r.c, d.Bytes, true)
	at := len(d.Bytes)
	err := error(io.EOF)
	name := "clean end"
	transient := false
	switch r.c.W(2, 3, 3) {
	case 1:
		at = genOffset(r.c, d.Bytes)
	case 2:
		at = genOffset(r.c, d.Bytes)
		f := pick(r.c, failures())
		err, name = f.err, f.name
		transient = r.c.P(1, 3)
	}
	if at > len(d.Bytes) {
		at = len(d.Bytes)
	}
	s := newStream(d.Bytes, p, at, err)
	s.transient = transient
	if d.Charset == "" && r.c.P(1, 25) {
		if p.Kind == kByteReader || p.Kind == kByteScanner {
			p.Kind = kPlain // a byte reader has no way to return nothing
		}
		s.p, s.stall, name = p, true, "only empty reads"
	}
	routines := runtime.NumGoroutine()
	o := parse(p.wrap(s), m, len(d.Bytes))
	left := leftBehind(routines)
	pending := simhook.PendingFuncs()
	r.st.Ops++
	r.countPlan(p, s)
	if at < len(d.Bytes) || err != io.EOF || s.stall {
		r.fault("stream-end:" + name)
	}
	r.mixStr(fmt.Sprint(p, at, name, transient))
	where := fmt.Sprintf("mode %s, %s, %s after %d of %d bytes, transient %v", modeName(m), p, name, at, len(d.Bytes), transient)
	r.log("%s: %s after %d reads (%d of them after the end), %d statements", where, o.brief(), s.reads, s.after, o.steps)
	if o.Class == "steps" {
		r.fail("no-end", "%s: Parse had not returned after %d statements (%d reads, %d of them after the stream had ended)", where, stepBudget(len(d.Bytes)), s.reads, s.after)
	}
	if s.stalled > 10000 {
		r.fail("stalled-stream", "%s: Parse had made %d reads that returned nothing", where, s.stalled)
	}
	if s.stall && s.stalled > 0 && o.Class == "ok" && !s.ended {
		r.fail("stalled-stream-complete", "%s: the stream never ended and Parse reported success", where)
	}
	if o.Class == "deadlock" {
		r.fail("blocked", "%s: Parse blocked for ever", where)
	}
	if o.Class == "panic" {
		r.fail("panic", "%s: Parse panicked: %s", where, o.Err)
	}
	if left > 0 {
		r.fail("left-running", "%s: Parse returned and left %d goroutine(s) behind", where, left)
	}
	if pending > 0 {
		r.fail("left-running", "%s: Parse returned and left %d timer(s) that call it back", where, pending)
	}
	if s.after > 16 {
		r.fail("reads-after-end", "%s: Parse read %d more times after the stream had reported its end", where, s.after)
	}
	if transient && s.pos > s.end {
		r.fail("reads-past-failure", "%s: Parse consumed %d bytes after the stream had failed", where, s.pos-s.end)
	}
}

// leftBehind counts the goroutines more than there were, once those that are
// about to end have ended.
func leftBehind(were int) int {
	for i := 0; runtime.NumGoroutine() > were && i < 300; i++ {
		if i < 100 {
			runtime.Gosched()
		} else {
			time.Sleep(time.Millisecond)
		}
	}
	return runtime.NumGoroutine() - were
}

// ---- C06 ----

// damage applies one storage fault.
func damage(c *Ch, b []byte, other []byte) ([]byte, string) {
	n := len(b)
	if n == 0 {
		return b, "none"
	}
	at := genOffset(c, b)
	if at >= n {
		at = n - 1
	}
	ln := 1 + c.N(pick(c, []int{1, 4, 16, 64}))
	end := at + ln
	if end > n {
		end = n
	}
	switch c.W(4, 4, 2, 2, 2, 2, 4, 3, 4, 4, 2, 6) {
	case 0: // bit flip
		b[at] ^= 1 << c.N(8)
		return b, "bit-flip"
	case 1: // lost bytes
		return append(b[:at:at], b[end:]...), "lost-bytes"
	case 2: // repeated bytes
		seg := append([]byte(nil), b[at:end]...)
		return append(b[:end:end], append(seg, b[end:]...)...), "repeated-bytes"
	case 3: // zeroed block
		for i := at; i < end; i++ {
			b[i] = 0
		}
		return b, "zeroed-block"
	case 4: // swapped blocks
		o := c.N(n)
		for i := 0; i < ln && at+i < n && o+i < n; i++ {
			b[at+i], b[o+i] = b[o+i], b[at+i]
		}
		return b, "swapped-blocks"
	case 5: // splice of another document
		if len(other) == 0 {
			return b, "none"
		}
		f := c.N(len(other))
		t := f + 1 + c.N(80)
		if t > len(other) {
			t = len(other)
		}
		return append(b[:at:at], append(append([]byte(nil), other[f:t]...), b[end:]...)...), "spliced-document"
	case 6: // a byte replaced by one that means something
		b[at] = pick(c, []byte("<>/\"'=&;# ,.-+eE0123456789%()zZMLHVCSQTAmlhvcsqta\n\t!?[]x\xff\xc3\x80"))
		return b, "byte-replaced"
	case 7: // a whole tag lost or repeated
		s := bytes.IndexByte(b[at:], '<')
		if s < 0 {
			return b, "none"
		}
		s += at
		e := bytes.IndexByte(b[s:], '>')
		if e < 0 {
			return b, "none"
		}
		e += s + 1
		if c.P(1, 2) {
			return append(b[:s:s], b[e:]...), "lost-tag"
		}
		tag := append([]byte(nil), b[s:e]...)
		return append(b[:e:e], append(tag, b[e:]...)...), "repeated-tag"
	case 8: // inside an attribute value: truncated or emptied
		s, e, ok := value(c, b)
		if !ok {
			return b, "none"
		}
		from := s
		if e > s {
			from = s + c.N(e-s)
		}
		if c.P(1, 3) {
			from = s
		}
		return append(b[:from:from], b[e:]...), "value-truncated"
	case 9: // an attribute value replaced by another one's
		s, e, ok := value(c, b)
		s2, e2, ok2 := value(c, b)
		if !ok || !ok2 {
			return b, "none"
		}
		v := append([]byte(nil), b[s2:e2]...)
		if c.P(1, 3) {
			v = []byte(pick(c, []string{"", "#", "url(#", "rgb(", "rgb(,,)", "1e309", "NaN", "-", ".", "%", "e", "M", "Inf", "url()", ":", ";", "none", "#1", "0", "-1", "1e-320", "99999999999999999999", "url(#p)", "-1e300", "-Inf", "1e300", "2147483648", "-1e9"}))
		}
		return append(b[:s:s], append(v, b[e:]...)...), "value-replaced"
	case 10: // an attribute lost
		s, e, ok := value(c, b)
		if !ok {
			return b, "none"
		}
		k := s
		for k > 0 && b[k-1] != ' ' && b[k-1] != '<' {
			k--
		}
		if k > 0 && e < len(b) {
			return append(b[:k:k], b[e+1:]...), "lost-attribute"
		}
		return b, "none"
	case 11: // a number in a value runs away
		s, e, ok := value(c, b)
		if !ok {
			return b, "none"
		}
		from := s
		if e > s {
			from = s + c.N(e-s)
		}
		for from < e && !strings.ContainsRune("0123456789", rune(b[from])) {
			from++
		}
		to := from
		for to < e && strings.ContainsRune("0123456789.", rune(b[to])) {
			to++
		}
		if to == from {
			return b, "none"
		}
		v := pick(c, []string{"1e300", "-1e300", "1e18", "-1e18", "1e309", "-1e309", "1e-300", "4294967296", "-2147483649", "0", "-0", "1e7", "-1e7", "1e38", "1e9", "300000000", "1e10", "-1e9", "123456", "1e-9", "65536", "1e15"})
		if c.P(1, 3) { // all of them
			all := numbers.ReplaceAll(b[s:e], []byte(v))
			return append(b[:s:s], append(all, b[e:]...)...), "numbers-run-away"
		}
		return append(b[:from:from], append([]byte(v), b[to:]...)...), "number-runs-away"
	}
	return b, "none"
}

var numbers = regexp.MustCompile(`[0-9.]+(e-?[0-9]+)?`)

// value finds an attribute value.
func value(c *Ch, b []byte) (s, e int, ok bool) {
	from := c.N(len(b))
	for i := range b {
		j := (from + i) % len(b)
		if b[j] == '=' && j+1 < len(b) && (b[j+1] == '"' || b[j+1] == '\'') {
			k := bytes.IndexByte(b[j+2:], b[j+1])
			if k >= 0 {
				return j + 2, j + 2 + k, true
			}
		}
	}
	return 0, 0, false
}

// c06Chain parses one very long or deep document with a small stack.
func (r *Run) c06Chain(m svg.ErrorMode) {
	d := r.blob(func(c *Ch) *Doc { return &Doc{Bytes: chainDoc(c), Kind: "chain"} })
	r.fault("repeated-without-end")
	r.st.Kinds[d.Kind]++
	r.mixIn(d.Bytes)
	r.logDoc("document", d.Bytes)
	defer debug.SetMaxStack(debug.SetMaxStack(16 << 20))
	o := parse(bytes.NewReader(d.Bytes), m, 1<<20)
	r.st.Ops++
	r.log("outcome: %s, %d statements", o.brief(), o.steps)
	if o.alloc > memoryBudget(len(d.Bytes)) {
		r.fail("memory", "mode %s: Parse of a document of %d bytes took %d MB of memory", modeName(m), len(d.Bytes), o.alloc>>20)
	}
	switch o.Class {
	case "panic":
		r.fail("panic:"+o.Err, "mode %s: Parse of a very long document panicked: %s", modeName(m), o.Err)
	case "steps":
		r.skip("a long document takes more than the steps given") // not linear, but it may well end
	case "deadlock":
		r.fail("blocked", "mode %s: Parse of a very long document blocked for ever", modeName(m))
	}
}

func runC06(r *Run) {
	m := r.mode()
	small := r.c.P(1, 2)
	kinds := ""
	if r.c.P(1, 5000) {
		r.c06Chain(m)
		return
	}
	d := r.blob(func(c *Ch) *Doc {
		if c.P(1, 5000) {
			r.fault("references-that-multiply")
			return &Doc{Bytes: useBomb(c), Kind: "generated"}
		}
		d := genDoc(c, DocOpts{Unsupported: true, Errors: true, Charsets: true, Corpus: true, Small: small})
		var other []byte
		if c.P(1, 4) {
			other = genDoc(c, DocOpts{Small: true, Unsupported: true}).Bytes
		}
		b := append([]byte(nil), d.Bytes...)
		if c.P(1, 30) {
			r.fault("odd-styles")
			b = oddStyles(c)
			d.Kind, d.Charset = "generated", ""
		}
		for k := 1 + c.N(4); k > 0; k-- {
			var kind string
			b, kind = damage(c, b, other)
			if kind != "none" {
				r.fault(kind)
				kinds += " " + kind
			}
		}
		return &Doc{Bytes: b, Kind: d.Kind, Charset: d.Charset}
	})
	b := d.Bytes
	r.st.Kinds[d.Kind]++
	r.mixIn(b)
	p := genPlan(r.c, b, true)
	s := newStream(b, p, len(b), io.EOF)
	r.logDoc("damaged document", b)
	r.log("mode %s, damage:%s, delivery %s", modeName(m), kinds, p)
	o := parse(p.wrap(s), m, len(b))
	r.st.Ops++
	r.log("outcome: %s, %d statements", o.brief(), o.steps)
	if o.alloc > memoryBudget(len(b)) {
		r.fail("memory", "mode %s: Parse of a damaged document (%s ) of %d bytes took %d MB of memory", modeName(m), kinds, len(b), o.alloc>>20)
	}
	switch o.Class {
	case "panic":
		r.fail("panic:"+o.Err, "mode %s: Parse of a damaged document (%s ) panicked: %s", modeName(m), kinds, o.Err)
	case "steps":
		r.fail("no-end", "mode %s: Parse of a damaged document (%s ) of %d bytes had not returned after %d statements", modeName(m), kinds, len(b), stepBudget(len(b)))
	case "deadlock":
		r.fail("blocked", "mode %s: Parse of a damaged document blocked for ever", modeName(m))
	}
	if o.Class == "err" {
		r.probe("damage reported")
	} else {
		r.probe("damage survived")
	}
}
