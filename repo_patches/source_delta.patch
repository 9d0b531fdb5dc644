From 2373d7f509b7ac301b05de10dbb7f87471441243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:46 +0000
Subject: [PATCH 01/12] fix: report malformed colour values instead of
 panicking

---
 patterns.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/patterns.go b/patterns.go
index fe7f40f..c8ad0fe 100644
--- a/patterns.go
+++ b/patterns.go
@@ -90,7 +90,7 @@ func parseSVGColor(colorStr string) (optionnalColor, error) {
 		}
 		return toOptColor(NewPlainColor(cvals[0], cvals[1], cvals[2], 0xFF)), nil
 	}
-	if colorStr[0] == '#' {
+	if strings.HasPrefix(colorStr, "#") {
 		r, g, b, err := parseSVGColorNum(colorStr)
 		if err != nil {
 			return optionnalColor{}, err
@@ -101,7 +101,7 @@ func parseSVGColor(colorStr string) (optionnalColor, error) {
 }
 
 func parseColorValue(v string) (uint8, error) {
-	if v[len(v)-1] == '%' {
+	if strings.HasSuffix(v, "%") {
 		n, err := strconv.Atoi(strings.TrimSpace(v[:len(v)-1]))
 		if err != nil {
 			return 0, err
@@ -119,6 +119,9 @@ func parseColorValue(v string) (uint8, error) {
 func parseSVGColorNum(colorStr string) (r, g, b uint8, err error) {
 	colorStr = strings.TrimPrefix(colorStr, "#")
 	var t uint64
+	if len(colorStr) < 3 {
+		return 0, 0, 0, errParamMismatch
+	}
 	if len(colorStr) != 6 {
 		// SVG specs say duplicate characters in case of 3 digit hex number
 		colorStr = string([]byte{
-- 
2.43.0


From b4e77e192be5419dca8b6c8baba749e97acf4db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:46 +0000
Subject: [PATCH 02/12] fix: do not share the mask list of a style between
 sibling elements

---
 parse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index a45309f..f542997 100644
--- a/parse.go
+++ b/parse.go
@@ -294,7 +294,8 @@ func (c *svgCursor) readStyleAttr(curStyle *PathStyle, k, v string) error {
 		if err != nil {
 			return err
 		}
-		curStyle.Masks = append(curStyle.Masks, id)
+		// curStyle is a copy of its parent's style: do not share the backing array with siblings
+		curStyle.Masks = append(append([]string(nil), curStyle.Masks...), id)
 	}
 	return nil
 }
-- 
2.43.0


From 664eb2d6bdf9ef51f1f00a6b40d59555ea51e6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:46 +0000
Subject: [PATCH 03/12] fix: keep the style stack balanced and stop recursion
 when expanding use statements

---
 parse.go        |  1 +
 svg_elements.go | 18 ++++++++++++++++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index f542997..996d936 100644
--- a/parse.go
+++ b/parse.go
@@ -21,6 +21,7 @@ type (
 		inTitleText, inDescText, inGrad, inDefs, inMask bool
 		currentDef                                      []definition
 		mask                                            *SvgMask
+		useIDs                                          []string // ids of the use statements being expanded
 	}
 
 	// definition is used to store what's given in a def tag
diff --git a/svg_elements.go b/svg_elements.go
index 93ba5f9..5b34661 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -472,10 +472,24 @@ func useF(c *svgCursor, attrs []xml.Attr) error {
 	if !ok {
 		return errors.New("href ID in use statement was not found in saved defs")
 	}
+	for _, id := range c.useIDs {
+		if id == href[1:] {
+			return errors.New("use statement refers to itself")
+		}
+	}
+	c.useIDs = append(c.useIDs, href[1:])
+	depth := len(c.styleStack)
+	defer func() {
+		c.useIDs = c.useIDs[:len(c.useIDs)-1]
+		// saved defs do not always close every group they open
+		c.styleStack = c.styleStack[:depth]
+	}()
 	for _, def := range defs {
 		if def.Tag == "endg" {
-			// pop style
-			c.styleStack = c.styleStack[:len(c.styleStack)-1]
+			// pop style, unless the group was opened outside of these defs
+			if len(c.styleStack) > depth {
+				c.styleStack = c.styleStack[:len(c.styleStack)-1]
+			}
 			continue
 		}
 		if err = c.pushStyle(def.Attrs); err != nil {
-- 
2.43.0


From ea60ba4f7504967fa22d54163b765dcf221ba8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:57 +0000
Subject: [PATCH 04/12] fix: do not leave unpainted paths in the graphic
 context

---
 renderer/draw2d/draw.go | 5 +++++
 renderer/gg/draw.go     | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/renderer/draw2d/draw.go b/renderer/draw2d/draw.go
index 4c51a27..bcddc47 100644
--- a/renderer/draw2d/draw.go
+++ b/renderer/draw2d/draw.go
@@ -73,6 +73,11 @@ func toGradient(g svg.Gradient, opacity float64) color.Color {
 
 // drawTransformed draws the compiled SvgPath into the driver while applying transform t.
 func drawTransformed(gc draw2d.GraphicContext, svgp svg.SvgPath, opt *renderer.RenderOptions) {
+	if svgp.Style.FillerColor == nil && svgp.Style.LinerColor == nil {
+		// nothing to paint: do not leave the path in the context for the next one
+		return
+	}
+
 	m := svgp.Style.Transform.Mult(opt.Target)
 
 	if svgp.Style.FillerColor != nil {
diff --git a/renderer/gg/draw.go b/renderer/gg/draw.go
index c586d20..50c9f11 100644
--- a/renderer/gg/draw.go
+++ b/renderer/gg/draw.go
@@ -90,6 +90,11 @@ func toGradient(g svg.Gradient, opacity float64) gg.Gradient {
 
 // drawTransformed draws the compiled SvgPath into the driver while applying transform t.
 func drawTransformed(gc *gg.Context, s *svg.Svg, svgp svg.SvgPath, m svg.Matrix2D, opacity float64) error {
+	if svgp.Style.FillerColor == nil && svgp.Style.LinerColor == nil {
+		// nothing to paint: do not leave the path in the context for the next one
+		return nil
+	}
+
 	var mask *image.Alpha
 	if len(svgp.Style.Masks) > 0 {
 		m, err := getMask(s, svgp.Style.Masks, gc.Image().Bounds(), m)
-- 
2.43.0


From f46583eae05360d64080734edad60d1c1b7c7a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:48 +0000
Subject: [PATCH 05/12] fix: do not reuse the tangents of earlier strokes in
 rasterx

---
 renderer/rasterx/draw.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/renderer/rasterx/draw.go b/renderer/rasterx/draw.go
index b49b9cb..60862c7 100644
--- a/renderer/rasterx/draw.go
+++ b/renderer/rasterx/draw.go
@@ -152,6 +152,8 @@ func drawTransformed(gc *rasterx.Dasher, svgp svg.SvgPath, opt *renderer.RenderO
 		filler.Draw()
 	}
 	if svgp.Style.LinerColor != nil {
+		// forget the tangents of the last stroked path: degenerate segments would reuse them
+		gc.Stroker = rasterx.Stroker{Filler: gc.Filler}
 		stroker := &gc.Stroker
 		stroker.Clear()
 		stroker.SetStroke(
-- 
2.43.0


From aa0cf7c1edc68cf59ae6d7a92892687139543ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:32 +0000
Subject: [PATCH 06/12] fix: gg: a mask that refers to itself is skipped
 instead of recursing without end

---
 renderer/gg/draw.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/renderer/gg/draw.go b/renderer/gg/draw.go
index 50c9f11..8927d97 100644
--- a/renderer/gg/draw.go
+++ b/renderer/gg/draw.go
@@ -14,7 +14,7 @@ import (
 func Draw(gc *gg.Context, s *svg.Svg, opts ...renderer.RenderOption) error {
 	opt := renderer.Options(s, opts...)
 	for _, svgp := range s.SvgPaths {
-		if err := drawTransformed(gc, s, svgp, svgp.Style.Transform.Mult(opt.Target), opt.Opacity); err != nil {
+		if err := drawTransformed(gc, s, svgp, svgp.Style.Transform.Mult(opt.Target), opt.Opacity, nil); err != nil {
 			return err
 		}
 	}
@@ -89,7 +89,8 @@ func toGradient(g svg.Gradient, opacity float64) gg.Gradient {
 }
 
 // drawTransformed draws the compiled SvgPath into the driver while applying transform t.
-func drawTransformed(gc *gg.Context, s *svg.Svg, svgp svg.SvgPath, m svg.Matrix2D, opacity float64) error {
+// within lists the masks being drawn that the path is part of.
+func drawTransformed(gc *gg.Context, s *svg.Svg, svgp svg.SvgPath, m svg.Matrix2D, opacity float64, within []string) error {
 	if svgp.Style.FillerColor == nil && svgp.Style.LinerColor == nil {
 		// nothing to paint: do not leave the path in the context for the next one
 		return nil
@@ -97,7 +98,7 @@ func drawTransformed(gc *gg.Context, s *svg.Svg, svgp svg.SvgPath, m svg.Matrix2
 
 	var mask *image.Alpha
 	if len(svgp.Style.Masks) > 0 {
-		m, err := getMask(s, svgp.Style.Masks, gc.Image().Bounds(), m)
+		m, err := getMask(s, svgp.Style.Masks, gc.Image().Bounds(), m, within)
 		if err != nil {
 			return err
 		}
@@ -158,9 +159,17 @@ func drawTransformed(gc *gg.Context, s *svg.Svg, svgp svg.SvgPath, m svg.Matrix2
 	return nil
 }
 
-func getMask(s *svg.Svg, masks []string, rectangle image.Rectangle, m svg.Matrix2D) (*image.Alpha, error) {
+func getMask(s *svg.Svg, masks []string, rectangle image.Rectangle, m svg.Matrix2D, within []string) (*image.Alpha, error) {
 	gc := gg.NewContext(rectangle.Dx(), rectangle.Dy())
-	mask, ok := s.SvgMasks[masks[len(masks)-1]]
+	id := masks[len(masks)-1]
+	for _, w := range within {
+		if w == id {
+			// Mask refers to itself skip it.
+			return nil, nil
+		}
+	}
+	within = append(within[:len(within):len(within)], id)
+	mask, ok := s.SvgMasks[id]
 	if !ok {
 		// Mask was not found skip it.
 		return nil, nil
@@ -183,7 +192,7 @@ func getMask(s *svg.Svg, masks []string, rectangle image.Rectangle, m svg.Matrix
 	// }
 
 	for _, op := range mask.SvgPaths {
-		if err := drawTransformed(gc, s, op, m, 1); err != nil {
+		if err := drawTransformed(gc, s, op, m, 1, within); err != nil {
 			return nil, err
 		}
 	}
-- 
2.43.0


From a6d0252520412e3fe815623ced28bd6c5e343d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:08 +0000
Subject: [PATCH 07/12] fix: dash arrays with negative values or no length at
 all made gg and draw2d loop for ever

---
 parse.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/parse.go b/parse.go
index 996d936..dc7cc1b 100644
--- a/parse.go
+++ b/parse.go
@@ -263,12 +263,21 @@ func (c *svgCursor) readStyleAttr(curStyle *PathStyle, k, v string) error {
 		if v != "none" {
 			dashes := splitOnCommaOrSpace(v)
 			dList := make([]float64, len(dashes))
+			sum, invalid := 0.0, false
 			for i, dstr := range dashes {
 				d, err := c.parseUnit(strings.TrimSpace(dstr), diagPercentage)
 				if err != nil {
 					return err
 				}
 				dList[i] = d
+				sum += d
+				invalid = invalid || !(d >= 0)
+			}
+			if invalid {
+				break // negative values are an error, the attribute is ignored
+			}
+			if sum == 0 {
+				dList = nil // solid line
 			}
 			curStyle.Dash.Dash = dList
 			break
-- 
2.43.0


From bcc093ecec21889767c776d5f41a4512f9beeb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:17 +0000
Subject: [PATCH 08/12] fix: a use of definitions that hold title, desc, defs
 or mask no longer leaves them open

---
 svg_elements.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/svg_elements.go b/svg_elements.go
index 5b34661..90a3b15 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -479,10 +479,16 @@ func useF(c *svgCursor, attrs []xml.Attr) error {
 	}
 	c.useIDs = append(c.useIDs, href[1:])
 	depth := len(c.styleStack)
+	inTitleText, inDescText, inDefs, inMask, mask := c.inTitleText, c.inDescText, c.inDefs, c.inMask, c.mask
 	defer func() {
 		c.useIDs = c.useIDs[:len(c.useIDs)-1]
 		// saved defs do not always close every group they open
 		c.styleStack = c.styleStack[:depth]
+		// and never have the end tags that would reset these
+		if c.mask != mask {
+			c.path = c.path[:0] // the content of a mask is not drawn
+		}
+		c.inTitleText, c.inDescText, c.inDefs, c.inMask, c.mask = inTitleText, inDescText, inDefs, inMask, mask
 	}()
 	for _, def := range defs {
 		if def.Tag == "endg" {
-- 
2.43.0


From d990e01c85a117ac83b3842a72ec2217dbe9f9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:45 +0000
Subject: [PATCH 09/12] fix: a polyline or polygon without points is not drawn
 with the numbers read last

---
 svg_elements.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/svg_elements.go b/svg_elements.go
index 90a3b15..503cc08 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -206,6 +206,7 @@ func lineF(c *svgCursor, attrs []xml.Attr) error {
 
 func polylineF(c *svgCursor, attrs []xml.Attr) error {
 	var err error
+	c.points = c.points[:0] // without points there are none, not those read last
 	for _, attr := range attrs {
 		switch attr.Name.Local {
 		case "points":
-- 
2.43.0


From a86d5b2aa66a2c3bbfec47161edd5faffd7c43c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:25 +0000
Subject: [PATCH 10/12] fix: limit what use statements inside of definitions
 expand to

Definitions that use others multiply: a document of 2 kB with 30 of them
expands to 2^30 elements, and Parse does not return.
---
 parse.go        |  1 +
 svg_elements.go | 14 ++++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/parse.go b/parse.go
index dc7cc1b..345a030 100644
--- a/parse.go
+++ b/parse.go
@@ -22,6 +22,7 @@ type (
 		currentDef                                      []definition
 		mask                                            *SvgMask
 		useIDs                                          []string // ids of the use statements being expanded
+		nestedUse                                       int      // bytes of elements added by use statements inside of definitions
 	}
 
 	// definition is used to store what's given in a def tag
diff --git a/svg_elements.go b/svg_elements.go
index 503cc08..09e693f 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -14,6 +14,10 @@ func init() {
 	drawFuncs["use"] = useF
 }
 
+// maxNestedUse limits how many bytes of elements use statements inside of
+// definitions may add to a document
+const maxNestedUse = 1 << 20
+
 type svgFunc func(c *svgCursor, attrs []xml.Attr) error
 
 var drawFuncs = map[string]svgFunc{
@@ -492,6 +496,16 @@ func useF(c *svgCursor, attrs []xml.Attr) error {
 		c.inTitleText, c.inDescText, c.inDefs, c.inMask, c.mask = inTitleText, inDescText, inDefs, inMask, mask
 	}()
 	for _, def := range defs {
+		if len(c.useIDs) > 1 {
+			// definitions that use others multiply
+			c.nestedUse += len(def.Tag)
+			for _, attr := range def.Attrs {
+				c.nestedUse += len(attr.Name.Local) + len(attr.Value)
+			}
+			if c.nestedUse > maxNestedUse {
+				return errors.New("use statements expand to too many elements")
+			}
+		}
 		if def.Tag == "endg" {
 			// pop style, unless the group was opened outside of these defs
 			if len(c.styleStack) > depth {
-- 
2.43.0


From c2516f4e36dae40554e104e5b2524f4854a3ca11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:52 +0000
Subject: [PATCH 11/12] fix: gg: limit how many masks of masks are drawn

Masks whose paths have masks multiply: a document of 2 kB with 16 of them takes
10 s for a picture of 40 pixels, and each more of them doubles it.
---
 renderer/gg/draw.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/renderer/gg/draw.go b/renderer/gg/draw.go
index 8927d97..b85935c 100644
--- a/renderer/gg/draw.go
+++ b/renderer/gg/draw.go
@@ -1,6 +1,7 @@
 package gg
 
 import (
+	"errors"
 	"image"
 	"image/color"
 
@@ -10,11 +11,14 @@ import (
 	"github.com/fogleman/gg"
 )
 
+// maxNestedMasks limits how many masks inside of masks are drawn for a path
+const maxNestedMasks = 1000
+
 // Draw the parsed SVG into the graphic context with the specified options.
 func Draw(gc *gg.Context, s *svg.Svg, opts ...renderer.RenderOption) error {
 	opt := renderer.Options(s, opts...)
 	for _, svgp := range s.SvgPaths {
-		if err := drawTransformed(gc, s, svgp, svgp.Style.Transform.Mult(opt.Target), opt.Opacity, nil); err != nil {
+		if err := drawTransformed(gc, s, svgp, svgp.Style.Transform.Mult(opt.Target), opt.Opacity, nil, new(int)); err != nil {
 			return err
 		}
 	}
@@ -89,8 +93,8 @@ func toGradient(g svg.Gradient, opacity float64) gg.Gradient {
 }
 
 // drawTransformed draws the compiled SvgPath into the driver while applying transform t.
-// within lists the masks being drawn that the path is part of.
-func drawTransformed(gc *gg.Context, s *svg.Svg, svgp svg.SvgPath, m svg.Matrix2D, opacity float64, within []string) error {
+// within lists the masks being drawn that the path is part of, nested counts the masks drawn inside of masks.
+func drawTransformed(gc *gg.Context, s *svg.Svg, svgp svg.SvgPath, m svg.Matrix2D, opacity float64, within []string, nested *int) error {
 	if svgp.Style.FillerColor == nil && svgp.Style.LinerColor == nil {
 		// nothing to paint: do not leave the path in the context for the next one
 		return nil
@@ -98,7 +102,7 @@ func drawTransformed(gc *gg.Context, s *svg.Svg, svgp svg.SvgPath, m svg.Matrix2
 
 	var mask *image.Alpha
 	if len(svgp.Style.Masks) > 0 {
-		m, err := getMask(s, svgp.Style.Masks, gc.Image().Bounds(), m, within)
+		m, err := getMask(s, svgp.Style.Masks, gc.Image().Bounds(), m, within, nested)
 		if err != nil {
 			return err
 		}
@@ -159,7 +163,13 @@ func drawTransformed(gc *gg.Context, s *svg.Svg, svgp svg.SvgPath, m svg.Matrix2
 	return nil
 }
 
-func getMask(s *svg.Svg, masks []string, rectangle image.Rectangle, m svg.Matrix2D, within []string) (*image.Alpha, error) {
+func getMask(s *svg.Svg, masks []string, rectangle image.Rectangle, m svg.Matrix2D, within []string, nested *int) (*image.Alpha, error) {
+	if len(within) > 0 {
+		// masks that use others multiply
+		if *nested++; *nested > maxNestedMasks {
+			return nil, errors.New("masks of masks are too many")
+		}
+	}
 	gc := gg.NewContext(rectangle.Dx(), rectangle.Dy())
 	id := masks[len(masks)-1]
 	for _, w := range within {
@@ -192,7 +202,7 @@ func getMask(s *svg.Svg, masks []string, rectangle image.Rectangle, m svg.Matrix
 	// }
 
 	for _, op := range mask.SvgPaths {
-		if err := drawTransformed(gc, s, op, m, 1, within); err != nil {
+		if err := drawTransformed(gc, s, op, m, 1, within, nested); err != nil {
 			return nil, err
 		}
 	}
-- 
2.43.0


From bfc5c1108525adcbbd84bd2a18ccc056126c204e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:01 +0000
Subject: [PATCH 12/12] fix: rasterx: stroke with the non-zero rule whatever
 was filled before

The fill rule of an even-odd path stayed in the scanner and was applied to the
strokes that follow it, its own and those of later paths (with scanners that
know fill rules).
---
 renderer/rasterx/draw.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/renderer/rasterx/draw.go b/renderer/rasterx/draw.go
index 60862c7..28ebe79 100644
--- a/renderer/rasterx/draw.go
+++ b/renderer/rasterx/draw.go
@@ -156,6 +156,8 @@ func drawTransformed(gc *rasterx.Dasher, svgp svg.SvgPath, opt *renderer.RenderO
 		gc.Stroker = rasterx.Stroker{Filler: gc.Filler}
 		stroker := &gc.Stroker
 		stroker.Clear()
+		// outlines of strokes overlap, whatever the fill rule of the last path was
+		stroker.SetWinding(true)
 		stroker.SetStroke(
 			fixed.Int26_6(svgp.Style.LineWidth*64*m.LineWidthScale()),
 			svgp.Style.Join.MiterLimit,
-- 
2.43.0

