// simprep prepares a simulated build of the code under test:
//
//   - it copies every non-test source file of the library packages of /repo
//     and inserts a yield point before each statement;
//   - it patches a few files of the Go standard library so that the
//     nondeterminism they hide (locks, pools, map order, files, the clock)
//     goes through hooks the simulator owns;
//   - it writes an overlay file for `go build -overlay` that substitutes
//     both. Nothing in /repo or in GOROOT is changed.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type pkgInfo struct {
	Dir        string
	ImportPath string
	Name       string
	GoFiles    []string
	Deps       []string
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "simprep: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	if len(os.Args) != 3 {
		die("usage: simprep REPO OUTDIR")
	}
	repo, out := os.Args[1], os.Args[2]
	overlay := map[string]string{}
	points := instrument(repo, out, overlay)
	budget(repo, out)
	patchStd(out, overlay)
	b, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644); err != nil {
		die("%v", err)
	}
	m, _ := json.Marshal(map[string]any{"points": points})
	if err := os.WriteFile(filepath.Join(out, "meta.json"), m, 0o644); err != nil {
		die("%v", err)
	}
}

// firstPoint is the first id of an inserted yield point; smaller ids are
// yields of the simulator's own seams.
const firstPoint = 64

func instrument(repo, out string, overlay map[string]string) (points []string) {
	cmd := exec.Command("go", "list", "-json=Dir,ImportPath,Name,GoFiles", "./...")
	cmd.Dir = repo
	cmd.Stderr = os.Stderr
	raw, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	dec := json.NewDecoder(bytes.NewReader(raw))
	var pkgs []pkgInfo
	for dec.More() {
		var p pkgInfo
		if err := dec.Decode(&p); err != nil {
			die("go list: %v", err)
		}
		if p.Name != "main" {
			pkgs = append(pkgs, p)
		}
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].ImportPath < pkgs[j].ImportPath })
	id := firstPoint
	for _, p := range pkgs {
		for _, name := range p.GoFiles {
			src := filepath.Join(p.Dir, name)
			data, err := os.ReadFile(src)
			if err != nil {
				die("%v", err)
			}
			rel, _ := filepath.Rel(repo, src)
			res, pts, err := instrumentFile(src, rel, data, &id)
			if err != nil {
				die("%v", err)
			}
			points = append(points, pts...)
			dst := filepath.Join(out, "repo", rel)
			if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
				die("%v", err)
			}
			if err := os.WriteFile(dst, res, 0o644); err != nil {
				die("%v", err)
			}
			overlay[src] = dst
		}
	}
	if id >= 1<<16 {
		die("too many statements: %d", id)
	}
	return points
}

func instrumentFile(path, rel string, src []byte, id *int) (res []byte, pts []string, err error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, nil, err
	}
	type ins struct {
		off  int
		text string
	}
	var inss []ins
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	const alias = "simhook__"
	add := func(o int, at token.Pos) {
		inss = append(inss, ins{o, fmt.Sprintf("%s.Y(%d);", alias, *id)})
		pts = append(pts, fmt.Sprintf("%s:%d", rel, fset.Position(at).Line))
		*id++
	}
	list := func(stmts []ast.Stmt, open int, at token.Pos) {
		if len(stmts) == 0 && open >= 0 {
			add(open, at)
			return
		}
		for _, s := range stmts {
			if e, ok := s.(*ast.EmptyStmt); ok && e.Implicit {
				continue
			}
			add(off(s.Pos()), s.Pos())
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			// the body is a block; an empty body is left alone
			_ = n
		case *ast.ForStmt:
			if len(n.Body.List) == 0 {
				add(off(n.Body.Lbrace)+1, n.Body.Pos())
			}
		case *ast.RangeStmt:
			if len(n.Body.List) == 0 {
				add(off(n.Body.Lbrace)+1, n.Body.Pos())
			}
		case *ast.BlockStmt:
			if isClauseBlock(n) {
				break
			}
			list(n.List, -1, n.Pos())
		case *ast.CaseClause:
			list(n.Body, -1, n.Pos())
		case *ast.CommClause:
			list(n.Body, -1, n.Pos())
		}
		return true
	})
	if len(inss) > 0 {
		inss = append(inss, ins{off(f.Name.End()), fmt.Sprintf("; import %s %q", alias, "verifsim/simhook")})
	}
	sort.SliceStable(inss, func(i, j int) bool { return inss[i].off < inss[j].off })
	var b bytes.Buffer
	last := 0
	for _, in := range inss {
		b.Write(src[last:in.off])
		b.WriteString(in.text)
		last = in.off
	}
	b.Write(src[last:])
	return b.Bytes(), pts, nil
}

// painters are the modules the library paints with.
var painters = []string{"github.com/fogleman/gg", "github.com/golang/freetype", "github.com/llgcode/draw2d", "github.com/srwiley/rasterx", "golang.org/x/image"}

// budget copies the painting libraries and puts step counters into their
// functions and loops, so that a drawing that never ends inside them is
// stopped at the same step in every execution. (The go command does not allow
// overlays in the module cache: the copies are substituted with replace
// directives.)
func budget(repo, out string) {
	cmd := exec.Command("go", append([]string{"list", "-m", "-json=Path,Dir,GoMod"}, painters...)...)
	cmd.Dir = repo
	cmd.Stderr = os.Stderr
	raw, err := cmd.Output()
	if err != nil {
		die("go list -m: %v", err)
	}
	var repl bytes.Buffer
	dec := json.NewDecoder(bytes.NewReader(raw))
	for dec.More() {
		var m struct{ Path, Dir, GoMod string }
		if err := dec.Decode(&m); err != nil {
			die("go list -m: %v", err)
		}
		to := filepath.Join(out, "dep", m.Path)
		mod, err := os.ReadFile(m.GoMod)
		if err != nil {
			die("%v", err)
		}
		write(filepath.Join(to, "go.mod"), mod)
		fmt.Fprintf(&repl, "replace %s => %s\n", m.Path, to)
		err = filepath.WalkDir(m.Dir, func(path string, d os.DirEntry, err error) error {
			if err != nil {
				return err
			}
			rel, _ := filepath.Rel(m.Dir, path)
			if d.IsDir() {
				if n := d.Name(); rel != "." && (n == "testdata" || n == "samples" || n == "examples" || n == "example" || n == "gofont" || strings.HasPrefix(n, ".")) {
					return filepath.SkipDir
				}
				return nil
			}
			if !strings.HasSuffix(path, ".go") && !strings.HasSuffix(path, ".s") || strings.HasSuffix(path, "_test.go") {
				return nil
			}
			data, err := os.ReadFile(path)
			if err != nil {
				return err
			}
			if strings.HasSuffix(path, ".go") && (m.Path != "golang.org/x/image" || strings.HasPrefix(rel, "vector/")) {
				data = count(path, data)
			}
			write(filepath.Join(to, rel), data)
			return nil
		})
		if err != nil {
			die("%v", err)
		}
	}
	write(filepath.Join(out, "replace.txt"), repl.Bytes())
}

func write(path string, data []byte) {
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(path, data, 0o644); err != nil {
		die("%v", err)
	}
}

func count(path string, data []byte) []byte {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, data, 0)
	if err != nil {
		die("%v", err)
	}
	var at []int
	body := func(b *ast.BlockStmt) {
		if b != nil {
			at = append(at, fset.Position(b.Lbrace).Offset+1)
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			body(n.Body)
		case *ast.ForStmt:
			body(n.Body)
		case *ast.RangeStmt:
			body(n.Body)
		}
		return true
	})
	if len(at) == 0 {
		return data
	}
	sort.Ints(at)
	var b bytes.Buffer
	last := fset.Position(f.Name.End()).Offset
	b.Write(data[:last])
	b.WriteString("; import simhook__ \"verifsim/simhook\"")
	for _, o := range at {
		b.Write(data[last:o])
		b.WriteString("simhook__.B();")
		last = o
	}
	b.Write(data[last:])
	return b.Bytes()
}

// the body of a switch or select holds only clauses
func isClauseBlock(b *ast.BlockStmt) bool {
	for _, s := range b.List {
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause:
			return true
		}
	}
	return false
}

// ---- standard library patches ----

type edit struct{ old, new string }

func patchStd(out string, overlay map[string]string) {
	rootB, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		die("go env GOROOT: %v", err)
	}
	std := filepath.Join(strings.TrimSpace(string(rootB)), "src")
	patch := func(file string, count int, edits ...edit) {
		src := filepath.Join(std, file)
		data, err := os.ReadFile(src)
		if err != nil {
			die("%v", err)
		}
		s := string(data)
		for _, e := range edits {
			if strings.Count(s, e.old) < 1 {
				die("%s: pattern not found: %q", file, e.old)
			}
			if count > 0 {
				s = strings.Replace(s, e.old, e.new, count)
			} else {
				s = strings.ReplaceAll(s, e.old, e.new)
			}
		}
		dst := filepath.Join(out, "std", file)
		if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
			die("%v", err)
		}
		if err := os.WriteFile(dst, []byte(s), 0o644); err != nil {
			die("%v", err)
		}
		overlay[src] = dst
	}
	add := func(file, text string) {
		dst := filepath.Join(out, "std", file)
		if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
			die("%v", err)
		}
		if err := os.WriteFile(dst, []byte(text), 0o644); err != nil {
			die("%v", err)
		}
		overlay[filepath.Join(std, file)] = dst
	}

	// map seeds, iteration order and hash keys
	add("internal/runtime/maps/simverif.go", `package maps

// SimSeed decides map seeds and iteration order when it is not zero.
var SimSeed uint64

func simrand() uint64 {
	if SimSeed == 0 {
		return rand()
	}
	return SimRand()
}

// SimRand replaces runtime.rand while SimSeed is not zero.
//
//go:nosplit
func SimRand() uint64 {
	SimSeed += 0x9e3779b97f4a7c15
	z := SimSeed
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func simkey(i int) uint64 { return 0x9e3779b97f4a7c15 * uint64(2*i+3) }
`)
	patch("internal/runtime/maps/map.go", 0, edit{"uintptr(rand())", "uintptr(simrand())"})
	patch("internal/runtime/maps/table.go", 0, edit{"= rand()", "= simrand()"})
	patch("internal/runtime/maps/runtime_alg.go", 0, edit{"bootstrapRand()", "simkey(i)"})

	// runtime.rand feeds map seeds made by compiled code and math/rand
	patch("runtime/rand.go", 0,
		edit{"mp.cheaprand = uint32(rand())", "mp.cheaprand = uint32(simRealRand())"},
		edit{"mp.cheaprand64 = rand()", "mp.cheaprand64 = simRealRand()"},
		edit{"func rand() uint64 {\n", "func rand() uint64 {\n	if maps.SimSeed != 0 {\n		return maps.SimRand()\n	}\n	return simRealRand()\n}\n\n//go:nosplit\nfunc simRealRand() uint64 {\n"},
		edit{"import (\n", "import (\n	\"internal/runtime/maps\"\n"})

	// identity and state of goroutines
	add("runtime/simverif.go", `package runtime

import "unsafe"

//go:linkname simG sync.SimG
func simG() uintptr { return uintptr(unsafe.Pointer(getg())) }

//go:linkname simWaiting sync.SimWaiting
func simWaiting(p uintptr) bool {
	gp := (*g)(unsafe.Pointer(p))
	if readgstatus(gp)&^_Gscan != _Gwaiting {
		return false
	}
	switch gp.waitreason {
	case waitReasonChanReceiveNilChan, waitReasonChanSendNilChan, waitReasonSelectNoCases, waitReasonSelect, waitReasonChanReceive, waitReasonChanSend,
		waitReasonSyncCondWait, waitReasonSyncMutexLock, waitReasonSyncRWMutexRLock, waitReasonSyncRWMutexLock, waitReasonSyncWaitGroupWait, waitReasonSemacquire:
		return true
	}
	return false
}
`)

	// locks and pools
	add("sync/simverif.go", `package sync

import (
	"internal/runtime/maps"
	_ "unsafe"
)

// SimG identifies the calling goroutine.
//
//go:linkname SimG
func SimG() uintptr

// SimWaiting tells whether the goroutine waits for another.
//
//go:linkname SimWaiting
func SimWaiting(g uintptr) bool

// SimLock is called by a goroutine that finds a lock taken; it returns false
// if the goroutine is not simulated (which then really blocks).
var SimLock func() bool

// SimMapSeed sets the seed of map seeds and iteration orders.
func SimMapSeed(s uint64) { maps.SimSeed = s }

var simPoolOn bool
var simPoolGen uint64

// SimPoolReset empties all pools, and makes them deterministic from now on.
func SimPoolReset() { simPoolOn = true; simPoolGen++ }

type simNode struct {
	next *simNode
	x    any
}

//go:norace
func simPut(p *Pool, x any) {
	if p.simGen != simPoolGen {
		p.simGen = simPoolGen
		p.simHead = nil
	}
	n := new(simNode)
	n.x = x
	n.next = p.simHead
	p.simHead = n
}

//go:norace
func simGet(p *Pool) any {
	if p.simGen != simPoolGen {
		p.simGen = simPoolGen
		p.simHead = nil
	}
	n := p.simHead
	if n == nil {
		return nil
	}
	p.simHead = n.next
	return n.x
}
`)
	patch("sync/mutex.go", 1, edit{"func (m *Mutex) Lock() {\n", `func (m *Mutex) Lock() {
	if SimLock != nil {
		for !m.mu.TryLock() {
			if !SimLock() {
				m.mu.Lock()
				break
			}
		}
		return
	}
`})
	patch("sync/rwmutex.go", 1, edit{"func (rw *RWMutex) RLock() {\n", `func (rw *RWMutex) RLock() {
	if SimLock != nil {
		for !rw.TryRLock() {
			if !SimLock() {
				rw.simRLock()
				break
			}
		}
		return
	}
	rw.simRLock()
}

func (rw *RWMutex) simRLock() {
`}, edit{"func (rw *RWMutex) Lock() {\n", `func (rw *RWMutex) Lock() {
	if SimLock != nil {
		for !rw.TryLock() {
			if !SimLock() {
				rw.simLock()
				break
			}
		}
		return
	}
	rw.simLock()
}

func (rw *RWMutex) simLock() {
`})
	patch("sync/pool.go", 1, edit{"	New func() any\n}", "	New func() any\n\n	simGen  uint64\n	simHead *simNode\n}"},
		edit{"	if race.Enabled {\n		if runtime_randn(4) == 0 {", `	if simPoolOn {
		if race.Enabled {
			race.ReleaseMerge(poolRaceAddr(x))
		}
		simPut(p, x)
		return
	}
	if race.Enabled {
		if runtime_randn(4) == 0 {`},
		edit{"func (p *Pool) Get() any {\n", `func (p *Pool) Get() any {
	if simPoolOn {
		x := simGet(p)
		if x != nil && race.Enabled {
			race.Acquire(poolRaceAddr(x))
		}
		if x == nil && p.New != nil {
			x = p.New()
		}
		return x
	}
`})

	// files
	add("os/simverif.go", `package os

// Hooks of the simulated disk.
var (
	// SimOpen may refuse to open the file.
	SimOpen func(name string, flag int) error
	// SimOpened is told about every file opened.
	SimOpened func(f *File, name string, flag int)
	// SimRead may cut the length of a read (max) or fail it.
	SimRead func(f *File, n int) (max int, err error)
	// SimReadDone is told what a read returned.
	SimReadDone func(f *File, b []byte, n int, err error)
	// SimClose is told about every close; the error it returns is reported.
	SimClose func(f *File) error
	// SimWrite is told about every write.
	SimWrite func(f *File)
)
`)
	patch("os/file.go", 1,
		edit{"	testlog.Open(name)\n	f, err := openFileNolog(name, flag, perm)\n	if err != nil {\n		return nil, err\n	}\n", `	testlog.Open(name)
	if SimOpen != nil {
		if e := SimOpen(name, flag); e != nil {
			return nil, &PathError{Op: "open", Path: name, Err: e}
		}
	}
	f, err := openFileNolog(name, flag, perm)
	if err != nil {
		return nil, err
	}
	if SimOpened != nil {
		SimOpened(f, name, flag)
	}
`},
		edit{"	n, e := f.read(b)\n	return n, f.wrapErr(\"read\", e)\n", `	if SimRead != nil && len(b) > 0 {
		max, e := SimRead(f, len(b))
		if e != nil {
			return 0, f.wrapErr("read", e)
		}
		if max >= 0 && max < len(b) {
			b = b[:max]
		}
		n, e = f.read(b)
		err = f.wrapErr("read", e)
		if SimReadDone != nil {
			SimReadDone(f, b, n, err)
		}
		return n, err
	}
	n, e := f.read(b)
	return n, f.wrapErr("read", e)
`},
		edit{"		m, e := f.pread(b, off)\n		if e != nil {", `		if SimRead != nil {
			if _, e := SimRead(f, len(b)); e != nil {
				err = f.wrapErr("read", e)
				break
			}
		}
		m, e := f.pread(b, off)
		if SimReadDone != nil {
			SimReadDone(f, b, m, e)
		}
		if e != nil {`},
		edit{"func (f *File) Write(b []byte) (n int, err error) {\n", `func (f *File) Write(b []byte) (n int, err error) {
	if SimWrite != nil {
		SimWrite(f)
	}
`})
	patch("os/file_posix.go", 1, edit{"	return f.file.close()\n", `	if SimClose != nil {
		if e := SimClose(f); e != nil {
			f.file.close()
			return &PathError{Op: "close", Path: f.name, Err: e}
		}
	}
	return f.file.close()
`})

	// clock
	add("time/simverif.go", `package time

// SimNow is the simulated clock.
var SimNow func() Time

// SimTimer is asked to take over a timer: what it does when it is due is done
// by fire. SimStop and SimReset are asked for timers that were taken over.
var (
	SimTimer func(t *Timer, d, period Duration, fire func(), isFunc bool)
	SimTakes func() bool
	SimStop  func(t *Timer) (was, ok bool)
	SimReset func(t *Timer, d Duration) (was, ok bool)
	SimSleep func(d Duration) bool
)

const simFar = 1<<63 - 1

func simNewTimer(d, period Duration) *Timer {
	c := make(chan Time, 1)
	t := newTimer(simFar, 0, sendTime, c, nil)
	t.C = c
	SimTimer(t, d, period, func() { sendTime(c, 0, 0) }, false)
	return t
}

func realSleep(d Duration)

// SimRealSleep is Sleep by the real clock.
func SimRealSleep(d Duration) { realSleep(d) }
`)
	patch("runtime/time.go", 1, edit{"//go:linkname timeSleep time.Sleep\n", "//go:linkname timeSleep time.realSleep\n"})
	patch("time/sleep.go", 1,
		edit{"func Sleep(d Duration)\n", `func Sleep(d Duration) {
	if SimSleep != nil && SimSleep(d) {
		return
	}
	realSleep(d)
}
`},
		edit{"	return stopTimer(t)\n", `	if SimStop != nil {
		if was, ok := SimStop(t); ok {
			return was
		}
	}
	return stopTimer(t)
`},
		edit{"	w := when(d)\n", `	if SimReset != nil {
		if was, ok := SimReset(t, d); ok {
			return was
		}
	}
	w := when(d)
`},
		edit{"func NewTimer(d Duration) *Timer {\n", `func NewTimer(d Duration) *Timer {
	if SimTakes != nil && SimTakes() {
		return simNewTimer(d, 0)
	}
`},
		edit{"func AfterFunc(d Duration, f func()) *Timer {\n", `func AfterFunc(d Duration, f func()) *Timer {
	if SimTakes != nil && SimTakes() {
		t := newTimer(simFar, 0, goFunc, f, nil)
		SimTimer(t, d, 0, f, true)
		return t
	}
`})
	patch("time/tick.go", 1,
		edit{"	// Give the channel a 1-element", `	if SimTakes != nil && SimTakes() {
		return (*Ticker)(unsafe.Pointer(simNewTimer(d, d)))
	}
	// Give the channel a 1-element`},
		edit{"	stopTimer((*Timer)(unsafe.Pointer(t)))\n", `	if SimStop != nil {
		if _, ok := SimStop((*Timer)(unsafe.Pointer(t))); ok {
			return
		}
	}
	stopTimer((*Timer)(unsafe.Pointer(t)))
`},
		edit{"	resetTimer((*Timer)(unsafe.Pointer(t)), when(d), int64(d))\n", `	if SimReset != nil {
		if _, ok := SimReset((*Timer)(unsafe.Pointer(t)), d); ok {
			return
		}
	}
	resetTimer((*Timer)(unsafe.Pointer(t)), when(d), int64(d))
`})
	patch("time/time.go", 1, edit{"func Now() Time {\n", `func Now() Time {
	if SimNow != nil {
		return SimNow()
	}
`})
}
