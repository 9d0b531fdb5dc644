package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
	"time"

	svg "github.com/lafriks/go-svg"

	"verifsim/simhook"
)

func dumpAny(x any) string {
	var b strings.Builder
	dump(&b, reflect.ValueOf(x), 0)
	return b.String()
}

// OpSpec is one Parse with everything that decides its outcome.
type OpSpec struct {
	Doc       []byte
	Mode      int
	Plan      Plan
	At        int // the stream ends here
	Fail      int // index of the failure, -1: clean end
	Transient bool
	Draws     []DrawSpec
	Crash     bool   // the reader panics where it would fail
	Path      string // ParseFile of this file (with Doc as contents) instead
}

func (o *OpSpec) String() string {
	s := fmt.Sprintf("parse document#%08x (%d bytes) mode %s via %s", hash64(o.Doc)&0xffffffff, len(o.Doc), modeName(svg.ErrorMode(o.Mode)), o.Plan)
	if o.Path != "" {
		return fmt.Sprintf("parse file %s holding document#%08x (%d bytes) mode %s", filepath.Base(o.Path), hash64(o.Doc)&0xffffffff, len(o.Doc), modeName(svg.ErrorMode(o.Mode)))
	}
	if o.Crash {
		s += fmt.Sprintf(", reader panics at %d", o.At)
	} else if o.Fail >= 0 {
		s += fmt.Sprintf(", stream fails at %d with %s", o.At, failures()[o.Fail].name)
	} else if o.At < len(o.Doc) {
		s += fmt.Sprintf(", stream ends at %d", o.At)
	}
	return s
}

func (o *OpSpec) stream() (*Stream, io.Reader) {
	err := error(io.EOF)
	if o.Fail >= 0 {
		err = failures()[o.Fail].err
	}
	s := newStream(o.Doc, o.Plan, o.At, err)
	s.transient = o.Transient
	s.crash = o.Crash
	return s, o.Plan.wrap(s)
}

// genOp draws an operation on the document.
func genOp(c *Ch, doc []byte, faults bool) *OpSpec {
	o := &OpSpec{Doc: doc, Mode: c.N(3), Plan: genPlan(c, doc, true), At: len(doc), Fail: -1}
	if faults && c.P(1, 4) {
		o.At = genOffset(c, doc)
		if o.At > len(doc) {
			o.At = len(doc)
		}
		if c.P(1, 2) {
			o.Fail = c.N(len(failures()))
			o.Transient = c.P(1, 4)
			o.Crash = c.P(1, 5)
		}
	}
	return o
}

func (o *OpSpec) run() *Outcome {
	sink.reset()
	out := o.raw(nil)
	out.Log = sink.take()
	return out
}

// raw runs the operation without capturing the log.
func (o *OpSpec) raw(hook func(read int)) *Outcome {
	if o.Path != "" {
		out := &Outcome{}
		var doc *svg.Svg
		var err error
		out.Class, out.Err, out.steps = guarded(stepBudget(len(o.Doc)), func() { doc, err = svg.ParseFile(o.Path, svg.ErrorMode(o.Mode)) })
		out.fill(doc, err)
		return out
	}
	s, rd := o.stream()
	s.hook = hook
	return parseRaw(rd, svg.ErrorMode(o.Mode), len(o.Doc))
}

// crashed reports whether the operation ended with its reader's own panic.
func (o *OpSpec) crashed(out *Outcome) bool {
	return o.Crash && out.Class == "panic" && out.Err == crashText
}

// intoFile makes it an operation on a file.
func (o *OpSpec) intoFile(path string) {
	o.Path, o.At, o.Fail, o.Transient, o.Crash = path, len(o.Doc), -1, false, false
}

// writeFile puts the contents in place; nothing but them tells versions of
// the file apart.
func (o *OpSpec) writeFile() {
	must(os.WriteFile(o.Path, o.Doc, 0o600))
	t := time.Unix(1700000000, 0)
	must(os.Chtimes(o.Path, t, t))
}

// RefReq asks another process for outcomes.
type RefReq struct {
	Seed uint64
	Ops  []*OpSpec
}

// RefResp holds them.
type RefResp struct {
	Out   []*Outcome
	Draws [][]string
}

func answer(q *RefReq) *RefResp {
	a := &RefResp{}
	for _, o := range q.Ops {
		simhook.ResetRun(mix(q.Seed ^ 0xabcdef))
		out := o.run()
		a.Out = append(a.Out, out)
		// every drawing is of a document of its own, the last one first: the
		// other process draws one document in order
		ds := make([]string, len(o.Draws))
		for i := len(ds) - 1; i >= 0; i-- {
			ds[i] = "no document"
			if again := o.run(); again.doc != nil {
				ds[i] = drawOnce(again.doc, o.Draws[i], nil)
			}
		}
		a.Draws = append(a.Draws, ds)
	}
	return a
}

func writeMsg(w io.Writer, x any) error {
	b, err := json.Marshal(x)
	if err != nil {
		return err
	}
	var h [4]byte
	binary.LittleEndian.PutUint32(h[:], uint32(len(b)))
	_, err = w.Write(append(h[:], b...))
	return err
}

func readMsg(r io.Reader, x any) error {
	var h [4]byte
	if _, err := io.ReadFull(r, h[:]); err != nil {
		return err
	}
	b := make([]byte, binary.LittleEndian.Uint32(h[:]))
	if _, err := io.ReadFull(r, b); err != nil {
		return err
	}
	return json.Unmarshal(b, x)
}

// refServer answers requests on stdin until it is closed.
func refServer() {
	initLog()
	simhook.UseSimClock()
	simhook.Watch(20)
	in := bufio.NewReader(os.Stdin)
	for {
		var q RefReq
		if err := readMsg(in, &q); err != nil {
			return
		}
		if err := writeMsg(os.Stdout, answer(&q)); err != nil {
			return
		}
	}
}

// RefClient talks to a reference process.
type RefClient struct {
	bin   string
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	fresh bool // a new process for every request
}

func (c *RefClient) start() error {
	c.cmd = exec.Command(c.bin, "refserver")
	c.cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GORACE=")
	var err error
	if c.in, err = c.cmd.StdinPipe(); err != nil {
		return err
	}
	o, err := c.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	c.out = bufio.NewReader(o)
	return c.cmd.Start()
}

func (c *RefClient) stop() {
	if c.cmd != nil {
		c.in.Close()
		c.cmd.Wait()
		c.cmd = nil
	}
}

// ask returns nil if the reference process died on the request.
func (c *RefClient) ask(q *RefReq) *RefResp {
	if c.cmd == nil {
		must(c.start())
	}
	var a RefResp
	err := writeMsg(c.in, q)
	if err == nil {
		err = readMsg(c.out, &a)
	}
	if err != nil || c.fresh {
		c.stop()
	}
	if err != nil {
		return nil
	}
	return &a
}

var _ = bytes.NewReader
