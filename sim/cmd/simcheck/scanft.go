package main

import (
	"image"
	"image/color"
	"image/draw"

	"github.com/golang/freetype/raster"
	"github.com/srwiley/rasterx"
	"golang.org/x/image/math/fixed"
)

// scannerFT is a rasterx.Scanner that knows fill rules, over freetype's
// rasterizer, like the one of github.com/srwiley/scanFT (ScannerGV ignores
// SetWinding).
type scannerFT struct {
	r                      *raster.Rasterizer
	img                    draw.Image
	at                     func(x, y int) color.Color
	clip                   image.Rectangle
	minX, minY, maxX, maxY fixed.Int26_6
}

func newScannerFT(w, h int, img draw.Image) *scannerFT {
	s := &scannerFT{r: raster.NewRasterizer(w, h), img: img}
	s.SetColor(color.Black)
	s.SetWinding(true)
	s.Clear()
	return s
}

func (s *scannerFT) extend(a fixed.Point26_6) {
	s.minX, s.maxX = min(s.minX, a.X), max(s.maxX, a.X)
	s.minY, s.maxY = min(s.minY, a.Y), max(s.maxY, a.Y)
}

func (s *scannerFT) Start(a fixed.Point26_6) { s.extend(a); s.r.Start(a) }
func (s *scannerFT) Line(b fixed.Point26_6)  { s.extend(b); s.r.Add1(b) }
func (s *scannerFT) Draw()                   { s.r.Rasterize(s) }
func (s *scannerFT) SetBounds(w, h int)      { s.r.SetBounds(w, h) }
func (s *scannerFT) SetWinding(nonzero bool) { s.r.UseNonZeroWinding = nonzero }
func (s *scannerFT) SetClip(c image.Rectangle) {
	s.clip = c
}

func (s *scannerFT) Clear() {
	s.r.Clear()
	const far = 1<<31 - 1
	s.minX, s.minY, s.maxX, s.maxY = far, far, -far, -far
}

func (s *scannerFT) GetPathExtent() fixed.Rectangle26_6 {
	return fixed.Rectangle26_6{Min: fixed.Point26_6{X: s.minX, Y: s.minY}, Max: fixed.Point26_6{X: s.maxX, Y: s.maxY}}
}

func (s *scannerFT) SetColor(c interface{}) {
	switch c := c.(type) {
	case color.Color:
		s.at = func(int, int) color.Color { return c }
	case rasterx.ColorFunc:
		s.at = c
	}
}

// Paint implements raster.Painter.
func (s *scannerFT) Paint(spans []raster.Span, done bool) {
	b := s.img.Bounds()
	if s.clip != image.ZR {
		b = b.Intersect(s.clip)
	}
	for _, p := range spans {
		if p.Y < b.Min.Y || p.Y >= b.Max.Y {
			continue
		}
		for x := max(p.X0, b.Min.X); x < min(p.X1, b.Max.X); x++ {
			r, g, bl, a := s.at(x, p.Y).RGBA()
			dr, dg, db, da := s.img.At(x, p.Y).RGBA()
			mix := func(d, v uint32) uint16 {
				return uint16((uint64(d)*uint64(0xffff-a*p.Alpha/0xffff) + uint64(v)*uint64(p.Alpha)) / 0xffff)
			}
			s.img.Set(x, p.Y, color.RGBA64{mix(dr, r), mix(dg, g), mix(db, bl), mix(da, a)})
		}
	}
}
