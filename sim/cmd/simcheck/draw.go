package main

import (
	"fmt"
	"image"
	"image/color"
	"image/draw"
	"unsafe"

	"github.com/fogleman/gg"
	"github.com/llgcode/draw2d"
	"github.com/llgcode/draw2d/draw2dimg"
	"github.com/srwiley/rasterx"
	"golang.org/x/image/math/fixed"

	svg "github.com/lafriks/go-svg"
	"github.com/lafriks/go-svg/renderer"
	rdraw2d "github.com/lafriks/go-svg/renderer/draw2d"
	rgg "github.com/lafriks/go-svg/renderer/gg"
	rrasterx "github.com/lafriks/go-svg/renderer/rasterx"

	"verifsim/simhook"
)

const (
	bGG = iota
	bDraw2d
	bRasterx
	nBackends

	bRasterxFT = nBackends // rasterx with a scanner that knows fill rules
)

var backendNames = [...]string{"gg", "draw2d", "rasterx", "rasterx with fill rules"}

// DrawSpec says how a document is drawn.
type DrawSpec struct {
	Backend    int
	Size       int
	X, Y, W, H float64
	Opacity    float64
	NoTarget   bool // the caller gives no target

	shared []renderer.RenderOption // values that many drawings are given
}

// optPool holds option values that callers keep and use again for other
// documents and targets.
var optPool = map[[6]float64][]renderer.RenderOption{}

// optKept is a copy of the options in optPool, with what lies behind them.
var optKept = map[[6]float64][]renderer.RenderOption{}

// sameOption compares without looking inside: options may be of any type.
func sameOption(a, b renderer.RenderOption) bool {
	return *(*[2]uintptr)(unsafe.Pointer(&a)) == *(*[2]uintptr)(unsafe.Pointer(&b))
}

// optsChanged tells whether somebody changed the options kept.
func optsChanged() (what string) {
	for k, o := range optPool {
		for i, w := range optKept[k] {
			if got := o[:len(o)+1][i]; !sameOption(got, w) {
				if t := fmt.Sprintf("option %d of %d given to a drawing (%v) was changed", i, len(o), k); what == "" || t < what {
					what = t
				}
			}
		}
	}
	return what
}

// share makes a drawing use option values that others use too.
func (s DrawSpec) share() DrawSpec {
	k := [6]float64{s.X, s.Y, s.W, s.H, s.Opacity}
	if s.NoTarget {
		k[5] = 1
	}
	if optPool[k] == nil {
		s.shared = nil
		o := s.opts()
		all := append(o, renderer.Opacity(.37))
		optPool[k] = all[:len(o)]
		optKept[k] = append([]renderer.RenderOption(nil), all...)
	}
	s.shared = optPool[k]
	return s
}

func (s DrawSpec) alone() DrawSpec {
	s.shared = nil
	return s
}

func genSpec(c *Ch) DrawSpec {
	s := DrawSpec{Backend: c.N(nBackends), Size: pick(c, []int{20, 16, 28}), Opacity: 1}
	s.W, s.H = float64(s.Size), float64(s.Size)
	if c.P(1, 3) {
		s.X, s.Y = float64(c.N(5)), float64(c.N(5))
		s.W = float64(8 + c.N(16))
	}
	if c.P(1, 3) {
		s.Opacity = pick(c, []float64{.5, .25, .9})
	}
	s.NoTarget = c.P(1, 16)
	return s.share()
}

func (s DrawSpec) String() string {
	if s.NoTarget {
		return fmt.Sprintf("%s %dx%d without target, opacity %g", backendNames[s.Backend], s.Size, s.Size, s.Opacity)
	}
	return fmt.Sprintf("%s %dx%d target(%g,%g,%g,%g) opacity %g", backendNames[s.Backend], s.Size, s.Size, s.X, s.Y, s.W, s.H, s.Opacity)
}

func (s DrawSpec) opts() []renderer.RenderOption {
	if s.shared != nil {
		return s.shared
	}
	var o []renderer.RenderOption
	if s.Opacity != 1 {
		o = append(o, renderer.Opacity(s.Opacity))
	}
	if s.NoTarget {
		return o
	}
	return append(o, renderer.Target(s.X, s.Y, s.W, s.H))
}

// tick is called by the painters at every call of the code under test; it
// yields and may crash.
type tick struct {
	n     int
	crash int // panic at this call (0: never)
	fired bool
}

type painterCrash struct{}

func (painterCrash) Error() string { return "simulated painter crash" }

func (t *tick) tick() {
	if t == nil {
		return
	}
	t.n++
	simhook.Y(seamPaint)
	if t.crash > 0 && t.n == t.crash {
		t.fired = true
		panic(painterCrash{})
	}
}

// Canvas is a graphic context of one backend over an image.
type Canvas struct {
	img  *image.RGBA
	gg   *gg.Context
	d2d  draw2d.GraphicContext
	rx   *rasterx.Dasher
	spec int
}

func newImage(size int) *image.RGBA {
	img := image.NewRGBA(image.Rect(0, 0, size, size))
	draw.Draw(img, img.Bounds(), image.NewUniform(color.RGBA{250, 250, 240, 255}), image.Point{}, draw.Src)
	return img
}

// newCanvas makes a fresh graphic context over img.
func newCanvas(backend int, img *image.RGBA, t *tick) *Canvas {
	c := &Canvas{img: img, spec: backend}
	w, h := img.Bounds().Dx(), img.Bounds().Dy()
	switch backend {
	case bGG:
		c.gg = gg.NewContextForRGBA(img)
	case bDraw2d:
		c.d2d = &tickGC{GraphicContext: draw2dimg.NewGraphicContext(img), t: t}
	case bRasterx:
		c.rx = rasterx.NewDasher(w, h, &tickScanner{Scanner: rasterx.NewScannerGV(w, h, img, img.Bounds()), t: t})
	case bRasterxFT:
		c.rx = rasterx.NewDasher(w, h, &tickScanner{Scanner: newScannerFT(w, h, img), t: t})
	}
	return c
}

func (c *Canvas) draw(d *svg.Svg, s DrawSpec) error {
	switch c.spec {
	case bGG:
		return rgg.Draw(c.gg, d, s.opts()...)
	case bDraw2d:
		rdraw2d.Draw(c.d2d, d, s.opts()...)
	case bRasterx, bRasterxFT:
		rrasterx.Draw(c.rx, d, s.opts()...)
	}
	return nil
}

// ownStyle is how a caller draws by himself.
type ownStyle struct {
	width, offset  float64
	dash           []float64
	cap, join      int
	nonzero, fills bool
	colour         color.NRGBA
}

func genOwn(c *Ch) ownStyle {
	return ownStyle{
		width: pick(c, []float64{3, 1, .5, 7, 0}), offset: float64(c.N(3)), dash: pick(c, [][]float64{{2, 3}, nil, {1}, {4, 1, 2}}),
		cap: c.N(3), join: c.N(3), nonzero: c.P(1, 2), fills: c.P(1, 2), colour: color.NRGBA{uint8(c.N(256)), 90, 160, uint8(55 + c.N(201))},
	}
}

// own draws what the caller draws by himself, and leaves no unfinished path,
// clip or transformation behind.
func (c *Canvas) own(o ownStyle) {
	switch c.spec {
	case bGG:
		g := c.gg
		g.ResetClip()
		g.ClearPath()
		g.SetColor(o.colour)
		g.SetLineWidth(o.width)
		g.SetLineCap(gg.LineCap(o.cap))
		g.SetLineJoin([]gg.LineJoin{gg.LineJoinRound, gg.LineJoinBevel}[o.join%2])
		g.SetDash(o.dash...)
		g.SetDashOffset(o.offset)
		g.SetFillRule([]gg.FillRule{gg.FillRuleWinding, gg.FillRuleEvenOdd}[o.join%2])
		g.MoveTo(3, 3)
		g.LineTo(9, 5)
		g.LineTo(5, 12)
		if o.fills {
			g.Fill()
		} else {
			g.Stroke()
		}
	case bDraw2d:
		g := c.d2d
		g.BeginPath()
		g.SetFillColor(o.colour)
		g.SetStrokeColor(o.colour)
		g.SetLineWidth(o.width)
		g.SetLineCap([]draw2d.LineCap{draw2d.RoundCap, draw2d.ButtCap, draw2d.SquareCap}[o.cap])
		g.SetLineJoin([]draw2d.LineJoin{draw2d.BevelJoin, draw2d.RoundJoin, draw2d.MiterJoin}[o.join])
		g.SetLineDash(o.dash, o.offset)
		g.SetFillRule([]draw2d.FillRule{draw2d.FillRuleEvenOdd, draw2d.FillRuleWinding}[o.join%2])
		g.MoveTo(3, 3)
		g.LineTo(9, 5)
		g.LineTo(5, 12)
		if o.fills {
			g.Fill()
		} else {
			g.Stroke()
		}
	case bRasterx, bRasterxFT:
		g := c.rx
		g.Clear()
		g.SetWinding(o.nonzero)
		g.SetStroke(fixed.Int26_6(o.width*64), fixed.Int26_6(4<<6), []rasterx.CapFunc{rasterx.RoundCap, rasterx.ButtCap, rasterx.SquareCap}[o.cap], []rasterx.CapFunc{rasterx.ButtCap, rasterx.RoundCap, nil}[o.join], rasterx.RoundGap, []rasterx.JoinMode{rasterx.Round, rasterx.Bevel, rasterx.Miter}[o.join], o.dash, o.offset)
		var a rasterx.Adder = g
		if o.fills {
			a = &g.Filler
		}
		a.Start(rasterx.ToFixedP(3, 3))
		a.Line(rasterx.ToFixedP(9, 5))
		a.Line(rasterx.ToFixedP(5, 12))
		a.Stop(false)
		g.SetColor(o.colour)
		g.Draw()
		g.Clear()
	}
}

// drawOnce draws on a fresh canvas and describes the result.
func drawOnce(d *svg.Svg, s DrawSpec, t *tick) string {
	img := newImage(s.Size)
	var err error
	class, msg, _ := guarded(drawBudget, func() { err = newCanvas(s.Backend, img, t).draw(d, s) })
	return drawResult(img, class, msg, err)
}

const drawBudget = 4_000_000

func drawResult(img *image.RGBA, class, msg string, err error) string {
	if class != "ok" {
		return class + ": " + msg
	}
	if err != nil {
		return "error: " + err.Error()
	}
	return fmt.Sprintf("pixels %016x", hash64(img.Pix))
}

type tickGC struct {
	draw2d.GraphicContext
	t *tick
}

func (g *tickGC) BeginPath()          { g.t.tick(); g.GraphicContext.BeginPath() }
func (g *tickGC) MoveTo(x, y float64) { g.t.tick(); g.GraphicContext.MoveTo(x, y) }
func (g *tickGC) LineTo(x, y float64) { g.t.tick(); g.GraphicContext.LineTo(x, y) }
func (g *tickGC) Close()              { g.t.tick(); g.GraphicContext.Close() }
func (g *tickGC) QuadCurveTo(a, b, c, d float64) {
	g.t.tick()
	g.GraphicContext.QuadCurveTo(a, b, c, d)
}
func (g *tickGC) CubicCurveTo(a, b, c, d, e, f float64) {
	g.t.tick()
	g.GraphicContext.CubicCurveTo(a, b, c, d, e, f)
}
func (g *tickGC) SetStrokeColor(c color.Color)  { g.t.tick(); g.GraphicContext.SetStrokeColor(c) }
func (g *tickGC) SetFillColor(c color.Color)    { g.t.tick(); g.GraphicContext.SetFillColor(c) }
func (g *tickGC) SetLineWidth(w float64)        { g.t.tick(); g.GraphicContext.SetLineWidth(w) }
func (g *tickGC) SetFillRule(f draw2d.FillRule) { g.t.tick(); g.GraphicContext.SetFillRule(f) }
func (g *tickGC) Stroke(p ...*draw2d.Path)      { g.t.tick(); g.GraphicContext.Stroke(p...) }
func (g *tickGC) Fill(p ...*draw2d.Path)        { g.t.tick(); g.GraphicContext.Fill(p...) }
func (g *tickGC) FillStroke(p ...*draw2d.Path)  { g.t.tick(); g.GraphicContext.FillStroke(p...) }
func (g *tickGC) SetLineDash(d []float64, o float64) {
	g.t.tick()
	g.GraphicContext.SetLineDash(d, o)
}

type tickScanner struct {
	rasterx.Scanner
	t *tick
}

func (s *tickScanner) Start(a fixed.Point26_6) { s.t.tick(); s.Scanner.Start(a) }
func (s *tickScanner) Line(b fixed.Point26_6)  { s.t.tick(); s.Scanner.Line(b) }
func (s *tickScanner) Draw()                   { s.t.tick(); s.Scanner.Draw() }
func (s *tickScanner) SetColor(c interface{})  { s.t.tick(); s.Scanner.SetColor(c) }
func (s *tickScanner) SetWinding(n bool)       { s.t.tick(); s.Scanner.SetWinding(n) }
func (s *tickScanner) Clear()                  { s.t.tick(); s.Scanner.Clear() }
func (s *tickScanner) GetPathExtent() fixed.Rectangle26_6 {
	s.t.tick()
	return s.Scanner.GetPathExtent()
}
