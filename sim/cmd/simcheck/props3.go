package main

import (
	"errors"
	"fmt"
	"io"
	"runtime"
	"strings"

	"golang.org/x/image/math/fixed"

	svg "github.com/lafriks/go-svg"

	"verifsim/simhook"
)

// ---- C21 ----

// site describes where a panic came from: the painter's function (or the
// library's) that raised it, the library's function that called it and the
// number of frames on the stack.
func site() (top, lib string, depth int) {
	pc := make([]uintptr, 1<<16)
	pc = pc[:runtime.Callers(1, pc)]
	frames := runtime.CallersFrames(pc)
	raised := false
	for {
		f, more := frames.Next()
		if raised {
			depth++
		}
		switch n := f.Function; {
		case n == "runtime.gopanic":
			raised, top, lib, depth = true, "", "", 0 // the innermost panic is the last seen
		case strings.HasPrefix(n, "runtime."), strings.HasPrefix(n, "verifsim/simhook."), !raised:
		default:
			if top == "" {
				top = n
			}
			if lib == "" && strings.HasPrefix(n, "github.com/lafriks/go-svg") {
				lib = n
			}
		}
		if !more {
			return
		}
	}
}

func short(f string) string { return f[strings.LastIndexByte(f, '/')+1:] }

// scale of the drawing and sizes the painters have to cope with
func huge(d *svg.Svg, s DrawSpec, limit float64) bool {
	far := func(v float64) bool { return !(v > -limit && v < limit) }
	big := func(p svg.SvgPath) bool {
		m := p.Style.Transform
		if !s.NoTarget {
			m = m.Mult(svg.Identity.Translate(s.X-d.ViewBox.X, s.Y-d.ViewBox.Y).Scale(s.W/d.ViewBox.W, s.H/d.ViewBox.H))
		}
		for _, v := range []float64{m.A, m.B, m.C, m.D, m.E, m.F, p.Style.LineWidth, p.Style.LineWidth * m.LineWidthScale(), p.Style.Dash.DashOffset} {
			if far(v) {
				return true
			}
		}
		sum := 0.0
		for _, v := range p.Style.Dash.Dash {
			sum += v
		}
		if sum > 0 && sum < .01 {
			return true
		}
		for _, op := range p.Path {
			var pts []fixed.Point26_6
			switch op := op.(type) {
			case svg.OpMoveTo:
				pts = append(pts, fixed.Point26_6(op))
			case svg.OpLineTo:
				pts = append(pts, fixed.Point26_6(op))
			case svg.OpQuadTo:
				pts = append(pts, op[:]...)
			case svg.OpCubicTo:
				pts = append(pts, op[:]...)
			}
			for _, q := range pts {
				x, y := m.Transform(float64(q.X)/64, float64(q.Y)/64)
				if far(x) || far(y) {
					return true
				}
			}
		}
		return false
	}
	for _, p := range d.SvgPaths {
		if big(p) {
			return true
		}
	}
	for _, m := range d.SvgMasks {
		for _, p := range m.SvgPaths {
			if big(p) {
				return true
			}
		}
	}
	return false
}

// drawSize counts what a drawing has to do: the operations of all paths, and
// those of the masks once for every path that may use them.
func drawSize(d *svg.Svg) int {
	masks := 0
	for _, m := range d.SvgMasks {
		for _, p := range m.SvgPaths {
			masks += 10 + len(p.Path)
		}
	}
	n := 0
	for _, p := range d.SvgPaths {
		n += 10 + len(p.Path)
		if len(p.Style.Masks) > 0 {
			n += masks * (1 + len(d.SvgMasks))
		}
	}
	return n
}

// oddStyles makes a document with odd values in many places at once.
func oddStyles(c *Ch) []byte {
	num := func() string {
		if c.P(2, 3) {
			return pick(c, []string{"1", "2", "5", "0", ".5", "10%", "3.25"})
		}
		return pick(c, []string{"1e300", "-1e300", "1e18", "1e308", "1e-300", "-1", "1e9", "-1e9", "inf", "-inf", "nan", "1e-9", "65536", "100000000", "1e5", "300%", "-20%", "1e15", "0.0001", "2147483648"})
	}
	var b strings.Builder
	w := func(f string, a ...interface{}) { fmt.Fprintf(&b, f, a...) }
	attr := func(name string, p int) {
		if c.P(p, 4) {
			w(` %s="%s"`, name, num())
		}
	}
	list := func(name string, p, n int) {
		if !c.P(p, 4) {
			return
		}
		w(` %s="`, name)
		for k := 1 + c.N(n); k > 0; k-- {
			w("%s ", num())
		}
		w(`"`)
	}
	w(`<svg viewBox="0 0 %d %d">`, 5+c.N(20), 5+c.N(20))
	paint := func() string { return pick(c, []string{"red", "#12345678", "url(#g)", "none", "#fff"}) }
	if c.P(1, 2) {
		kind := pick(c, []string{"linearGradient", "radialGradient"})
		w(`<%s id="g"`, kind)
		for _, a := range []string{"x1", "y1", "x2", "y2", "cx", "cy", "r", "fx", "fy", "fr"} {
			attr(a, 1)
		}
		if c.P(1, 2) {
			w(` gradientUnits="userSpaceOnUse"`)
		}
		if c.P(1, 3) {
			w(` spreadMethod="%s"`, pick(c, []string{"repeat", "reflect", "pad"}))
		}
		if c.P(1, 3) {
			w(` gradientTransform="scale(%s)"`, num())
		}
		w(">")
		for k := c.N(4); k > 0; k-- {
			w(`<stop stop-color="%s"`, pick(c, []string{"red", "#000", "blue"}))
			attr("offset", 3)
			attr("stop-opacity", 2)
			w("/>")
		}
		w("</%s>", kind)
	}
	if c.P(1, 3) {
		w(`<mask id="m"`)
		for _, a := range []string{"x", "y", "width", "height"} {
			attr(a, 2)
		}
		w(`><rect width="9" height="9" fill="%s"/></mask>`, paint())
	}
	for k := 1 + c.N(3); k > 0; k-- {
		w(`<path d="%s" fill="%s" stroke="%s"`, pick(c, []string{"M1 1L9 2L3 9z", "M1 1", "M2 2L2 2", "M1 1L9 1", "M1 1Q9 9 1 1", "M1 1h3v3zM5 5h3v3z", "L1 1"}), paint(), paint())
		attr("stroke-width", 2)
		list("stroke-dasharray", 2, 4)
		attr("stroke-dashoffset", 2)
		attr("stroke-miterlimit", 1)
		attr("stroke-opacity", 1)
		attr("fill-opacity", 1)
		attr("opacity", 1)
		if c.P(1, 3) {
			w(` stroke-linejoin="%s" stroke-linecap="%s"`, pick(c, []string{"miter", "round", "arc", "arc-clip", "bevel", "miter-clip"}), pick(c, []string{"round", "butt", "square", "cubic", "quadratic"}))
		}
		if c.P(1, 4) {
			w(` transform="%s(%s)"`, pick(c, []string{"scale", "rotate", "translate", "skewX"}), num())
		}
		if c.P(1, 4) {
			w(` mask="url(#m)"`)
		}
		w("/>")
	}
	w("</svg>")
	return []byte(b.String())
}

func runC21(r *Run) {
	m := r.mode()
	kinds := ""
	d := r.blob(func(c *Ch) *Doc {
		d := genDoc(c, DocOpts{Render: c.P(2, 3), Unsupported: true, Errors: c.P(1, 3), Corpus: c.P(1, 10), Small: c.P(1, 2)})
		b := append([]byte(nil), d.Bytes...)
		if c.P(1, 300) {
			b = []byte(pick(c, []string{knownArc, knownDash}))
			return &Doc{Bytes: b, Kind: "known finding"}
		}
		if c.P(1, 700) {
			r.fault("references-that-multiply")
			return &Doc{Bytes: maskBomb(c), Kind: "generated"}
		}
		if c.P(1, 12) {
			r.fault("odd-styles")
			b = oddStyles(c)
			d.Kind, d.Charset = "generated", ""
			if c.P(1, 2) {
				return &Doc{Bytes: b, Kind: d.Kind}
			}
		}
		for k := c.W(2, 2, 1, 1); k > 0; k-- {
			var kind string
			b, kind = damage(c, b, nil)
			if kind != "none" {
				r.fault(kind)
				kinds += " " + kind
			}
		}
		return &Doc{Bytes: b, Kind: d.Kind, Charset: d.Charset}
	})
	b := d.Bytes
	r.st.Kinds[d.Kind]++
	at, end := len(b), error(io.EOF)
	if r.c.P(1, 3) {
		at = r.c.N(len(b) + 1)
		if r.c.P(1, 2) {
			end = errors.New("connection reset")
			r.fault("read-failure")
		} else {
			r.fault("truncation")
		}
	}
	s := genSpec(r.c)
	r.mixIn(b)
	r.mixStr(fmt.Sprint(at, end, m, s))
	r.ref()
	o := parse(onlyReader{newStream(b, Plan{}, at, end)}, m, len(b))
	if o.doc == nil {
		r.skip("no document")
	}
	r.under()
	r.live = true
	r.probe("backend:" + backendNames[s.Backend])
	if o.Class == "err" {
		r.probe("drawn beside an error")
	}
	r.logDoc("document", b)
	r.log("mode %s, damage:%s, delivered %d of %d bytes, then %v: %s", modeName(m), kinds, at, len(b), end, o.brief())
	r.log("drawing %d paths on %s", len(o.doc.SvgPaths), s)
	img := newImage(s.Size)
	var err error
	top, lib, depth := "", "", 0
	size := drawSize(o.doc)
	r.st.Ops++
	class, msg, _ := guarded(4*drawBudget+20_000*uint64(size), func() {
		simhook.LibSteps(1_000_000+500*uint64(size), func() {
			defer func() {
				if e := recover(); e != nil {
					top, lib, depth = site()
					panic(e)
				}
			}()
			err = newCanvas(s.Backend, img, nil).draw(o.doc, s)
		})
	})
	r.log("outcome: %s %s %v", class, msg, err)
	if class == "ok" {
		if err != nil {
			r.probe("drawing refused")
		}
		return
	}
	at2 := fmt.Sprintf("%s, called by %s", short(top), short(lib))
	inLib := strings.HasPrefix(top, "github.com/lafriks/go-svg")
	switch {
	case class == "panic" && !inLib && huge(o.doc, s, 1e4):
		r.skip("the painter panics: huge coordinates")
	case class == "panic":
		r.fail("panic in "+short(top), "%s: Draw panicked: %s (in %s)", backendNames[s.Backend], msg, at2)
	case class == "deadlock":
		r.fail("blocked", "%s: Draw blocked for ever (in %s)", backendNames[s.Backend], at2)
	case depth > 400:
		r.fail("endless recursion", "%s: Draw had not returned %d calls deep (in %s)", backendNames[s.Backend], depth, at2)
	case inLib:
		r.fail("no end", "%s: Draw of %d paths had not returned after %d statements of the library (in %s)", backendNames[s.Backend], len(o.doc.SvgPaths), 1_000_000+500*size, at2)
	case huge(o.doc, s, 1e3):
		r.skip("the painter takes long: huge coordinates")
	case s.Backend == bDraw2d && boundary(o.doc, s):
		r.fail("no end in the dasher", "draw2d: the painter does not return where a dash ends at a segment without length, but does with the dashes moved a little (in %s)", at2)
	case func() bool {
		class, _, _ := guarded(8*(4*drawBudget+20_000*uint64(size)), func() { newCanvas(s.Backend, newImage(s.Size), nil).draw(o.doc, s) })
		return class == "ok"
	}():
		r.probe("the painter takes very long")
	default:
		r.fail("no end in "+short(top), "%s: the painter had not returned after %d steps, called for coordinates near the picture (in %s)", backendNames[s.Backend], 8*(4*drawBudget+20_000*size), at2)
	}
}

// boundary tells whether the drawing ends once the dashes are moved a little: draw2d divides zero by zero when a segment without length begins
// exactly where a dash ends (see known_findings.txt).
func boundary(d *svg.Svg, s DrawSpec) bool {
	c := *d
	c.SvgPaths = append([]svg.SvgPath(nil), d.SvgPaths...)
	for i := range c.SvgPaths {
		if st := &c.SvgPaths[i].Style; len(st.Dash.Dash) > 0 {
			st.Dash.DashOffset += .0123
			st.Dash.Dash = append([]float64(nil), st.Dash.Dash...)
			for k := range st.Dash.Dash {
				st.Dash.Dash[k] += .0071
			}
		}
	}
	class, _, _ := guarded(4*drawBudget+20_000*uint64(drawSize(d)), func() { newCanvas(s.Backend, newImage(s.Size), nil).draw(&c, s) })
	return class == "ok"
}

// knownDash makes draw2d loop for ever (see known_findings.txt).
const knownDash = `<svg viewBox="0 2 5 3"><rect x="7" y="1" width="6" height="1" ry="10" transform="scale(2)" stroke="red" stroke-dasharray="4" stroke-dashoffset="4"/></svg>`

// knownArc makes rasterx divide by zero (see known_findings.txt).
const knownArc = `<svg viewBox="0 0 20 20"><path stroke="red" stroke-linejoin="arc" d="t4 7"/></svg>`
