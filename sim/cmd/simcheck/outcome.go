package main

import (
	"bytes"
	"fmt"
	"io"
	"log"
	"os"
	"reflect"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	svg "github.com/lafriks/go-svg"

	"verifsim/simhook"
)

// Outcome is everything a caller can observe of one Parse.
type Outcome struct {
	Class string   `json:"class"` // ok, err, panic, steps, deadlock
	Doc   string   `json:"doc"`   // fingerprint of the document, "nil" if none
	Err   string   `json:"err"`
	Log   []string `json:"log"`
	steps uint64
	alloc uint64 // bytes
	err   error
	doc   *svg.Svg
}

func (o *Outcome) key() string {
	return o.Class + "\x00" + o.Doc + "\x00" + o.Err + "\x00" + strings.Join(o.Log, "\n")
}

// died reports outcomes that are no return at all.
func (o *Outcome) died() bool { return o.Class != "ok" && o.Class != "err" }

func (o *Outcome) brief() string {
	s := o.Class
	if o.Err != "" {
		s += " error=" + strconv.Quote(clip(o.Err, 160))
	}
	if o.Doc == "nil" {
		s += " no document"
	} else if o.Doc != "" {
		s += fmt.Sprintf(" document#%08x", hash64([]byte(o.Doc))&0xffffffff)
	}
	if len(o.Log) > 0 {
		s += fmt.Sprintf(" %d log lines", len(o.Log))
	}
	return s
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// diffOutcome describes the first difference.
func diffOutcome(a, b *Outcome) string {
	if a.Class != b.Class || a.Err != b.Err {
		return fmt.Sprintf("%s versus %s", a.brief(), b.brief())
	}
	if a.Doc != b.Doc {
		return "documents differ: " + diffText(a.Doc, b.Doc)
	}
	return fmt.Sprintf("log lines differ: %q versus %q", clip(strings.Join(a.Log, "|"), 300), clip(strings.Join(b.Log, "|"), 300))
}

func diffText(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	from := i - 60
	if from < 0 {
		from = 0
	}
	end := func(s string) string {
		e := i + 60
		if e > len(s) {
			e = len(s)
		}
		if from > len(s) {
			return ""
		}
		return s[from:e]
	}
	return fmt.Sprintf("at %d: ...%q versus ...%q", i, end(a), end(b))
}

// stepBudget is the number of statements an operation on n bytes may take.
func stepBudget(n int) uint64 { return 60_000_000 + 1000*uint64(n) }

// guarded runs f and turns a panic into an outcome class.
func guarded(budget uint64, f func()) (class, msg string, steps uint64) {
	class = "ok"
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch r := r.(type) {
				case simhook.StepLimit:
					class, msg = "steps", r.Error()
				case simhook.Deadlock:
					class, msg = "deadlock", r.Error()
				case error:
					class, msg = "panic", r.Error()
				default:
					class, msg = "panic", fmt.Sprint(r)
				}
			}
		}()
		steps = simhook.Steps(budget, f)
	}()
	return
}

// allocated tells how many bytes this process has allocated so far (small
// objects are counted late).
func allocated() uint64 {
	allocs := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(allocs)
	return allocs[0].Value.Uint64()
}

// memoryBudget is what a parse of n bytes may allocate.
func memoryBudget(n int) uint64 { return 512<<20 + 4000*uint64(n) }

// parseRaw runs Parse without capturing the log.
func parseRaw(r io.Reader, mode svg.ErrorMode, n int) *Outcome {
	o := &Outcome{}
	var doc *svg.Svg
	var err error
	before := allocated()
	o.Class, o.Err, o.steps = guarded(stepBudget(n), func() { doc, err = svg.Parse(r, mode) })
	o.alloc = allocated() - before
	o.fill(doc, err)
	return o
}

func (o *Outcome) fill(doc *svg.Svg, err error) {
	if o.Class != "ok" {
		o.Err = valid(o.Err)
		return
	}
	o.doc, o.err = doc, err
	o.Doc = fingerprint(doc)
	if err != nil {
		o.Class = "err"
		o.Err = valid(err.Error())
	}
}

// valid makes a string survive its way between processes as JSON.
func valid(s string) string {
	if utf8.ValidString(s) {
		return s
	}
	return strconv.Quote(s)
}

// parse runs Parse and collects the lines it logs.
func parse(r io.Reader, mode svg.ErrorMode, n int) *Outcome {
	sink.reset()
	o := parseRaw(r, mode, n)
	o.Log = sink.take()
	return o
}

// parseBytes is the reference delivery: all bytes at once, then EOF.
func parseBytes(b []byte, mode svg.ErrorMode) *Outcome {
	return parse(onlyReader{bytes.NewReader(b)}, mode, len(b))
}

// logSink receives the log package's output.
type logSink struct {
	buf   []byte
	fail  int // 0: never; otherwise every fail-th write fails
	short bool
	n     int
	fired int
}

var sink = &logSink{}

type sinkErr struct{}

func (sinkErr) Error() string { return "no space left on device" }

func (s *logSink) Write(p []byte) (int, error) {
	simhook.Y(seamLog)
	s.n++
	s.buf = append(s.buf, p...)
	if s.fail > 0 && s.n%s.fail == 0 {
		s.fired++
		if s.short {
			return len(p) / 2, io.ErrShortWrite
		}
		return 0, sinkErr{}
	}
	return len(p), nil
}

func (s *logSink) reset() { s.buf, s.n, s.fired = nil, 0, 0 }

func (s *logSink) take() []string {
	t := strings.TrimSuffix(string(s.buf), "\n")
	s.buf = nil
	if t == "" {
		return nil
	}
	lines := strings.Split(t, "\n")
	for i := range lines {
		lines[i] = valid(lines[i])
	}
	return lines
}

func initLog() {
	log.SetFlags(0)
	log.SetPrefix("")
	log.SetOutput(sink)
}

// processState describes what belongs to the whole process.
func processState() string {
	m := []metrics.Sample{{Name: "/gc/gogc:percent"}, {Name: "/gc/gomemlimit:bytes"}}
	metrics.Read(m)
	wd, _ := os.Getwd()
	return fmt.Sprintf("log flags %d, log prefix %q, log writer kept %v, directory %q, environment %x, GC %d%% of %d",
		log.Flags(), log.Prefix(), log.Writer() == io.Writer(sink), wd, hash64([]byte(strings.Join(os.Environ(), "\x00"))), m[0].Value.Uint64(), m[1].Value.Uint64())
}

// fingerprint dumps everything exported in a document.
func fingerprint(d *svg.Svg) string {
	if d == nil {
		return "nil"
	}
	var b strings.Builder
	dump(&b, reflect.ValueOf(d), 0)
	return b.String()
}

func dump(b *strings.Builder, v reflect.Value, depth int) {
	if depth > 24 {
		b.WriteString("...")
		return
	}
	switch v.Kind() {
	case reflect.Invalid:
		b.WriteString("nil")
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		e := v.Elem()
		b.WriteString(e.Type().String())
		dump(b, e, depth+1)
	case reflect.Pointer:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteByte('&')
		dump(b, v.Elem(), depth+1)
	case reflect.Struct:
		b.WriteByte('{')
		t := v.Type()
		for i := 0; i < v.NumField(); i++ {
			f := t.Field(i)
			if !f.IsExported() {
				continue
			}
			b.WriteString(f.Name)
			b.WriteByte(':')
			dump(b, v.Field(i), depth+1)
			b.WriteByte(' ')
		}
		b.WriteByte('}')
	case reflect.Slice, reflect.Array:
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			dump(b, v.Index(i), depth+1)
			b.WriteByte(' ')
		}
		b.WriteByte(']')
	case reflect.Map:
		type kv struct{ k, v string }
		var kvs []kv
		it := v.MapRange()
		for it.Next() {
			var kb, vb strings.Builder
			dump(&kb, it.Key(), depth+1)
			dump(&vb, it.Value(), depth+1)
			kvs = append(kvs, kv{kb.String(), vb.String()})
		}
		sort.Slice(kvs, func(i, j int) bool { return kvs[i].k < kvs[j].k })
		b.WriteString("map[")
		for _, e := range kvs {
			b.WriteString(e.k + "=" + e.v + " ")
		}
		b.WriteByte(']')
	case reflect.String:
		b.WriteString(strconv.Quote(v.String()))
	case reflect.Bool:
		b.WriteString(strconv.FormatBool(v.Bool()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		b.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		b.WriteString(strconv.FormatUint(v.Uint(), 10))
	case reflect.Float32, reflect.Float64:
		b.WriteString(strconv.FormatFloat(v.Float(), 'g', -1, 64))
	default:
		b.WriteString(v.Kind().String())
	}
}

// vandalise overwrites everything exported that is reachable from a document,
// the way a caller is free to do with its own result.
func vandalise(d *svg.Svg) {
	if d != nil {
		smash(reflect.ValueOf(d), 0)
	}
}

func smash(v reflect.Value, depth int) {
	if depth > 24 {
		return
	}
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() && v.CanSet() {
			e := v.Elem()
			if e.Kind() == reflect.Pointer {
				smash(e, depth+1)
				return
			}
			// what the copy shares with the original
			c := reflect.New(e.Type()).Elem()
			c.Set(e)
			smash(c, depth+1)
			v.Set(c)
		}
	case reflect.Pointer:
		if !v.IsNil() {
			smash(v.Elem(), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				smash(v.Field(i), depth+1)
			}
		}
	case reflect.Slice:
		// beyond len too: appending to one's own slice is allowed
		if v.Len() < v.Cap() {
			full := v.Slice(0, v.Cap())
			for i := v.Len(); i < v.Cap(); i++ {
				full.Index(i).Set(reflect.Zero(v.Type().Elem()))
			}
		}
		for i := 0; i < v.Len(); i++ {
			smash(v.Index(i), depth+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			smash(v.Index(i), depth+1)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			smash(v.MapIndex(k), depth+1)
			if k.Kind() == reflect.String {
				v.SetMapIndex(reflect.ValueOf(k.String()+"~"), v.MapIndex(k))
			}
			v.SetMapIndex(k, reflect.Value{})
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("vandalised")
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.CanSet() {
			v.SetInt(v.Int() ^ 0x55)
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.CanSet() {
			v.SetUint(v.Uint() ^ 0x55)
		}
	case reflect.Float32, reflect.Float64:
		if v.CanSet() {
			v.SetFloat(-12345.5)
		}
	}
}

func hash64(b []byte) uint64 {
	h := uint64(0xcbf29ce484222325)
	for _, c := range b {
		h = (h ^ uint64(c)) * 0x100000001b3
	}
	return h
}
