package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"net"
	"os"
	"strings"
	"syscall"
	"time"
	"unicode/utf8"

	"verifsim/simhook"
)

// seam ids (see simprep.firstPoint)
const (
	seamRead  = 8
	seamPaint = 9
	seamTask  = 10
	seamLog   = 11
)

const junk = "<junk attr='\xff'></svg>"

// Plan says how a simulated stream delivers its bytes.
type Plan struct {
	Kind     int    // the Go type handed to Parse
	Chunk    int    // most bytes per read (0: as many as asked for)
	Rand     uint64 // if not 0: random sizes up to Chunk
	Cuts     []int  // reads never span these offsets
	Empty    int    // every Empty-th read is preceded by
	Burst    int    // this many reads that return nothing
	DataEnd  bool   // the end (EOF or failure) comes with the last bytes
	Delay    int    // simulated milliseconds per read
	Scribble bool   // use the whole of p as scratch space
	Lead     int    // seekable kinds: bytes before the start position
	Short    bool   // kinds with a size: it tells only what is there now
	Trail    bool   // limited kinds: junk after the end
}

// reader kinds
const (
	kPlain = iota
	kByteReader
	kByteScanner
	kWriterTo
	kSeeker
	kBytesReader
	kStringsReader
	kBytesBuffer
	kBufio
	kLimited
	kSection
	kMulti
	kLen
	kFileLike
	kRunes
	nKinds
)

var kindNames = [...]string{"io.Reader", "io.ByteReader", "io.ByteScanner", "io.WriterTo", "io.Seeker", "*bytes.Reader",
	"*strings.Reader", "*bytes.Buffer", "*bufio.Reader", "io.LimitedReader", "*io.SectionReader", "io.MultiReader",
	"reader with Len", "file-like reader", "io.RuneScanner"}

// faultable kinds go through a Stream for every byte
func faultable(k int) bool { return k <= kSeeker || k == kBufio || k >= kLen }

func (p Plan) String() string {
	s := kindNames[p.Kind]
	if p.Chunk > 0 {
		if p.Rand != 0 {
			s += fmt.Sprintf(" random chunks of at most %d", p.Chunk)
		} else {
			s += fmt.Sprintf(" chunks of %d", p.Chunk)
		}
	}
	if len(p.Cuts) > 0 {
		s += fmt.Sprintf(" cuts %v", p.Cuts)
	}
	if p.Empty > 0 {
		s += fmt.Sprintf(" %d empty reads before every %d. read", p.Burst, p.Empty)
	}
	if p.DataEnd {
		s += " end delivered with the last bytes"
	}
	if p.Delay > 0 {
		s += fmt.Sprintf(" %dms per read", p.Delay)
	}
	if p.Scribble {
		s += " scribbles"
	}
	if p.Lead > 0 {
		s += fmt.Sprintf(" starts at offset %d", p.Lead)
	}
	if p.Short {
		s += " tells a smaller size"
	}
	if p.Trail {
		s += " junk behind the limit"
	}
	return s
}

// genPlan draws a delivery.
func genPlan(c *Ch, data []byte, onlyFaultable bool) Plan {
	var p Plan
	if onlyFaultable {
		p.Kind = []int{kPlain, kByteReader, kByteScanner, kWriterTo, kSeeker, kBufio, kLen, kFileLike, kRunes}[c.W(20, 4, 2, 2, 2, 2, 1, 1, 1)]
	} else {
		p.Kind = c.W(12, 3, 1, 1, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1)
	}
	switch c.W(3, 3, 2, 3) {
	case 1:
		p.Chunk = 1 + c.N(5)
	case 2:
		p.Chunk = pick(c, []int{16, 64, 256, 511, 512, 1000, 1024, 2048, 4095, 4096, 4097, 8192})
	case 3:
		p.Chunk = pick(c, []int{3, 9, 40, 300, 5000})
		p.Rand = uint64(1 + c.N(1<<20))
	}
	for k := c.W(4, 2, 1, 1); k > 0; k-- {
		p.Cuts = append(p.Cuts, genOffset(c, data))
	}
	if c.P(1, 3) {
		p.Empty = 1 + c.N(6)
		p.Burst = pick(c, []int{1, 1, 1, 2, 3, 20, 90})
	}
	p.DataEnd = c.P(1, 3)
	if c.P(1, 4) {
		p.Delay = 1 + c.N(5000)
	}
	p.Scribble = c.P(1, 3)
	if p.Kind == kSeeker || p.Kind == kFileLike || p.Kind == kBytesReader || p.Kind == kStringsReader || p.Kind == kBytesBuffer || p.Kind == kSection || p.Kind == kLimited {
		if c.P(1, 2) {
			p.Lead = 1 + c.N(40)
		}
	}
	if p.Kind == kLen || p.Kind == kFileLike {
		p.Short = c.P(1, 2)
	}
	if p.Kind == kLimited || p.Kind == kSection {
		p.Trail = c.P(1, 2)
	}
	if p.Kind == kMulti {
		p.Empty, p.Burst = 0, 0
	}
	return p
}

// genOffset draws an offset, often at a place where something can go wrong.
func genOffset(c *Ch, data []byte) int {
	n := len(data)
	if n == 0 {
		return 0
	}
	switch c.W(4, 4, 2, 1, 2) {
	case 1: // around markup
		set := pick(c, []string{"<", ">", "&;", "\"'", "/", "=?!-["})
		return near(c, data, c.N(n), func(b byte) bool { return strings.IndexByte(set, b) >= 0 }) + c.N(2)
	case 2: // inside a multi-byte sequence
		return near(c, data, c.N(n), func(b byte) bool { return b >= 0x80 })
	case 3: // around buffer sizes
		o := pick(c, []int{16, 512, 1024, 2048, 4096, 8192}) - 1 + c.N(3)
		if o <= n {
			return o
		}
	case 4: // near the end
		k := 1 + c.N(24)
		if k <= n {
			return n - k
		}
	}
	return c.N(n + 1)
}

func near(c *Ch, data []byte, from int, ok func(byte) bool) int {
	for i := range data {
		j := (from + i) % len(data)
		if ok(data[j]) {
			return j
		}
	}
	return from
}

// Stream is the simulated io.Reader.
type Stream struct {
	data []byte
	base int // first byte of the document
	pos  int
	end  int // where the stream ends or fails
	err  error
	// after a transient failure the stream goes on with the rest
	transient bool
	// error kinds whose last bytes come with the error
	p       Plan
	rng     uint64
	reads   int
	dataRds int
	pending int
	drained bool
	ended   bool
	after   int // reads after the end was reported
	empties int
	slow    time.Duration
	hook    func(read int)
	stall   bool // goes on returning nothing instead of ending
	stalled int  // reads that did
	crash   bool // the reader panics at the end instead of returning an error
}

// readerCrash is the panic value of a reader that crashes.
type readerCrash struct{}

func (readerCrash) Error() string { return crashText }

const crashText = "simulated reader crash"

func newStream(data []byte, p Plan, end int, err error) *Stream {
	s := &Stream{p: p, rng: p.Rand, err: err}
	s.data = make([]byte, p.Lead+len(data))
	for i := 0; i < p.Lead; i++ {
		s.data[i] = junk[i%len(junk)]
	}
	copy(s.data[p.Lead:], data)
	s.base, s.pos, s.end = p.Lead, p.Lead, p.Lead+end
	return s
}

func (s *Stream) enter() {
	s.reads++
	simhook.Y(seamRead)
	if s.p.Delay > 0 {
		d := time.Duration(s.p.Delay) * time.Millisecond
		simhook.Advance(d)
		s.slow += d
	}
	if s.hook != nil {
		s.hook(s.reads)
	}
}

func (s *Stream) finish() {
	s.ended = true
	if s.crash {
		panic(readerCrash{})
	}
}

func (s *Stream) Read(p []byte) (int, error) {
	s.enter()
	if len(p) == 0 {
		return 0, nil
	}
	if s.ended {
		s.after++
		if !s.transient {
			return 0, s.err
		}
		if s.pos >= len(s.data) {
			return 0, io.EOF
		}
		n := copy(p, s.data[s.pos:])
		s.pos += n
		return n, nil
	}
	if s.pending > 0 {
		s.pending--
		s.empties++
		s.scribble(p, 0)
		return 0, nil
	}
	if s.p.Empty > 0 && !s.drained {
		s.dataRds++
		if s.dataRds%s.p.Empty == 0 {
			s.drained = true // the call after the burst delivers
			s.pending = s.p.Burst - 1
			s.empties++
			s.scribble(p, 0)
			return 0, nil
		}
	}
	s.drained = false
	if s.pos >= s.end && s.stall {
		s.stalled++
		if s.stalled > 20000 {
			panic(simhook.StepLimit{})
		}
		return 0, nil
	}
	if s.pos >= s.end {
		s.finish()
		return 0, s.err
	}
	n := s.end - s.pos
	if n > len(p) {
		n = len(p)
	}
	if s.p.Chunk > 0 {
		m := s.p.Chunk
		if s.p.Rand != 0 {
			s.rng = mix(s.rng)
			m = 1 + int(s.rng%uint64(s.p.Chunk))
		}
		if n > m {
			n = m
		}
	}
	for _, c := range s.p.Cuts {
		c += s.base
		if c > s.pos && c < s.pos+n {
			n = c - s.pos
		}
	}
	copy(p, s.data[s.pos:s.pos+n])
	s.scribble(p, n)
	s.pos += n
	if s.pos >= s.end && s.p.DataEnd && !s.stall {
		s.finish()
		return n, s.err
	}
	return n, nil
}

func (s *Stream) scribble(p []byte, n int) {
	if s.p.Scribble {
		for i := n; i < len(p) && i < n+64; i++ {
			p[i] = junk[i%len(junk)]
		}
	}
}

func (s *Stream) delivered() int { return s.pos - s.base }

func (s *Stream) readByte() (byte, error) {
	s.enter()
	if s.ended {
		s.after++
		if !s.transient {
			return 0, s.err
		}
		if s.pos >= len(s.data) {
			return 0, io.EOF
		}
		s.pos++
		return s.data[s.pos-1], nil
	}
	if s.pos >= s.end {
		s.finish()
		return 0, s.err
	}
	s.pos++
	return s.data[s.pos-1], nil
}

type byteStream struct{ *Stream }

func (b byteStream) ReadByte() (byte, error) { return b.readByte() }

type scanStream struct{ *Stream }

func (b scanStream) ReadByte() (byte, error) { return b.readByte() }
func (b scanStream) UnreadByte() error {
	if b.pos <= b.base {
		return errors.New("nothing to unread")
	}
	b.pos--
	return nil
}

type writerToStream struct{ *Stream }

func (b writerToStream) WriteTo(w io.Writer) (int64, error) {
	var t int64
	buf := make([]byte, 512)
	for {
		n, err := b.Read(buf)
		if n > 0 {
			m, werr := w.Write(buf[:n])
			t += int64(m)
			if werr != nil {
				return t, werr
			}
		}
		if err == io.EOF {
			return t, nil
		}
		if err != nil {
			return t, err
		}
	}
}

type seekStream struct{ *Stream }

func (b seekStream) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += int64(b.pos)
	case io.SeekEnd:
		off += int64(len(b.data))
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	if off > int64(len(b.data)) {
		off = int64(len(b.data))
	}
	if int(off) != b.pos {
		b.ended = false
	}
	b.pos = int(off)
	return off, nil
}

// size is what streams that know their size tell: all of it, or what has
// arrived so far.
func (s *Stream) size() int {
	n := len(s.data) - s.pos
	if s.p.Short {
		return n / 3
	}
	return n
}

type lenStream struct{ *Stream }

func (b lenStream) Len() int    { return b.size() }
func (b lenStream) Size() int64 { return int64(b.size()) }

// fileStream has the methods of a file.
type fileStream struct{ seekStream }

func (b fileStream) Name() string { return "in.svg" }
func (b fileStream) Stat() (fs.FileInfo, error) {
	n := int64(len(b.data))
	if b.p.Short {
		n = 0
	}
	return fileInfo{n}, nil
}
func (b fileStream) Fd() uintptr { return ^uintptr(0) }
func (b fileStream) ReadAt(p []byte, off int64) (int, error) {
	b.enter()
	if off < 0 {
		return 0, errors.New("negative position")
	}
	if off >= int64(b.end) {
		return 0, b.err
	}
	n := copy(p, b.data[off:b.end])
	if n < len(p) {
		return n, b.err
	}
	return n, nil
}

type fileInfo struct{ n int64 }

func (f fileInfo) Name() string       { return "in.svg" }
func (f fileInfo) Size() int64        { return f.n }
func (f fileInfo) Mode() fs.FileMode  { return 0o644 }
func (f fileInfo) ModTime() time.Time { return time.Unix(1e9, 0) }
func (f fileInfo) IsDir() bool        { return false }
func (f fileInfo) Sys() any           { return nil }

type runeStream struct{ *Stream }

func (b runeStream) ReadRune() (rune, int, error) {
	var buf [utf8.UTFMax]byte
	n := 0
	for {
		c, err := b.readByte()
		if err != nil {
			if n == 0 {
				return 0, 0, err
			}
			b.pos, b.ended = b.pos-n+1, false
			return utf8.RuneError, 1, nil
		}
		buf[n] = c
		n++
		if utf8.FullRune(buf[:n]) {
			r, k := utf8.DecodeRune(buf[:n])
			b.pos -= n - k
			return r, k, nil
		}
	}
}
func (b runeStream) UnreadRune() error {
	if b.pos <= b.base {
		return errors.New("nothing to unread")
	}
	_, k := utf8.DecodeLastRune(b.data[b.base:b.pos])
	b.pos -= k
	return nil
}

// reader wraps the document as the plan says. The returned Stream (may be nil
// for the in-memory kinds) tells what happened.
func (p Plan) reader(data []byte) (io.Reader, *Stream) {
	lead := func() []byte {
		out := make([]byte, 0, p.Lead+len(data)+8)
		for i := 0; i < p.Lead; i++ {
			out = append(out, junk[i%len(junk)])
		}
		return append(out, data...)
	}
	switch p.Kind {
	case kBytesReader:
		r := bytes.NewReader(lead())
		io.CopyN(io.Discard, r, int64(p.Lead))
		return r, nil
	case kStringsReader:
		r := strings.NewReader(string(lead()))
		io.CopyN(io.Discard, r, int64(p.Lead))
		return r, nil
	case kBytesBuffer:
		b := bytes.NewBuffer(lead())
		b.Next(p.Lead)
		return b, nil
	case kLimited:
		all := append([]byte(nil), data...)
		if p.Trail {
			all = append(all, "<junk/></svg>"...)
		}
		q := p
		q.Lead = 0
		s := newStream(all, q, len(all), io.EOF)
		var under io.Reader = s
		switch p.Lead % 4 { // what the limited reader reads from
		case 1:
			under = byteStream{s}
		case 2:
			under = seekStream{s}
		case 3:
			under = scanStream{s}
		}
		return io.LimitReader(under, int64(len(data))), s
	case kSection:
		all := lead()
		if p.Trail {
			all = append(all, "<junk/></svg>"...)
		}
		return io.NewSectionReader(bytes.NewReader(all), int64(p.Lead), int64(len(data))), nil
	case kMulti:
		cut := len(data) / 2
		if len(p.Cuts) > 0 {
			cut = p.Cuts[0]
		}
		if cut > len(data) {
			cut = len(data)
		}
		q := p
		q.Cuts = nil
		a := newStream(data[:cut], q, cut, io.EOF)
		b := newStream(data[cut:], q, len(data)-cut, io.EOF)
		return io.MultiReader(a, strings.NewReader(""), b), b
	}
	s := newStream(data, p, len(data), io.EOF)
	return p.wrap(s), s
}

// wrap gives a Stream the Go type the plan asks for.
func (p Plan) wrap(s *Stream) io.Reader {
	switch p.Kind {
	case kByteReader:
		return byteStream{s}
	case kByteScanner:
		return scanStream{s}
	case kWriterTo:
		return writerToStream{s}
	case kSeeker:
		return seekStream{s}
	case kLen:
		return lenStream{s}
	case kFileLike:
		return fileStream{seekStream{s}}
	case kRunes:
		return runeStream{s}
	case kBufio:
		return bufio.NewReaderSize(s, 16)
	}
	return onlyReader{s}
}

// onlyReader hides every method but Read.
type onlyReader struct{ r io.Reader }

func (o onlyReader) Read(p []byte) (int, error) { return o.r.Read(p) }

// failure is one way a stream breaks.
type failure struct {
	name string
	err  error
}

type tempErr struct{ msg string }

func (t tempErr) Error() string   { return t.msg }
func (t tempErr) Timeout() bool   { return true }
func (t tempErr) Temporary() bool { return true }

type structErr struct {
	Op  string
	Err error
}

func (e *structErr) Error() string { return e.Op + ": " + e.Err.Error() }
func (e *structErr) Unwrap() error { return e.Err }

func failures() []failure {
	return []failure{
		{"custom", errors.New("stream broke")},
		{"unexpected-EOF", io.ErrUnexpectedEOF},
		{"closed-pipe", io.ErrClosedPipe},
		{"no-progress", io.ErrNoProgress},
		{"short-buffer", io.ErrShortBuffer},
		{"os-deadline", os.ErrDeadlineExceeded},
		{"fs-closed", fs.ErrClosed},
		{"net-closed", net.ErrClosed},
		{"context-canceled", context.Canceled},
		{"context-deadline", context.DeadlineExceeded},
		{"timeout-temporary", tempErr{"i/o timeout"}},
		{"EINTR", &fs.PathError{Op: "read", Path: "x", Err: syscall.EINTR}},
		{"EAGAIN", &fs.PathError{Op: "read", Path: "x", Err: syscall.EAGAIN}},
		{"EIO", &fs.PathError{Op: "read", Path: "x", Err: syscall.EIO}},
		{"ECONNRESET", &net.OpError{Op: "read", Net: "tcp", Err: os.NewSyscallError("read", syscall.ECONNRESET)}},
		{"EPIPE", syscall.EPIPE},
		{"bare-EINTR", syscall.EINTR},
		{"bare-EAGAIN", syscall.EAGAIN},
		{"syscall-EINTR", os.NewSyscallError("read", syscall.EINTR)},
		{"wrapped-EOF", fmt.Errorf("proxy: %w", io.EOF)},
		{"wrapped-unexpected-EOF", &structErr{"chunked", io.ErrUnexpectedEOF}},
		{"joined-EOF", errors.Join(errors.New("peer went away"), io.EOF)},
		{"text-EOF", errors.New("EOF")},
		{"text-unexpected-EOF", errors.New("unexpected EOF")},
		{"xml-syntax", &xml.SyntaxError{Msg: "unexpected EOF", Line: 1}},
		{"xml-syntax-other", &xml.SyntaxError{Msg: "from an outer document", Line: 7}},
		{"xml-unmarshal", xml.UnmarshalError("nested")},
		{"empty-text", errors.New("")},
		{"bad-gzip", errors.New("gzip: invalid checksum")},
		{"zip-text-svg", errors.New("invalid svg xml svg")},
		{"too-large", bytes.ErrTooLarge},
		{"bufio-full", bufio.ErrBufferFull},
		{"skip", fs.SkipAll},
	}
}
