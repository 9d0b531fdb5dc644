package main

import (
	"bytes"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"

	svg "github.com/lafriks/go-svg"
)

// ---- C23 ----

// elem is an element of a document as bytes.
type elem struct {
	start, tagEnd, end int
	name, id           string   // local name
	up                 []string // local names of its ancestors
	masks              []string // ids of the masks around it
	holds              map[string]bool
}

// scan finds the elements of a well-formed document and the places between
// its tokens inside the root element.
func scan(b []byte) (els []*elem, gaps []int, gapUp [][]string, ok bool) {
	d := xml.NewDecoder(bytes.NewReader(b))
	var stack []*elem
	for {
		off := int(d.InputOffset())
		t, err := d.RawToken()
		if err == io.EOF {
			return els, gaps, gapUp, len(stack) == 0 && len(els) > 0
		}
		if err != nil {
			return nil, nil, nil, false
		}
		end := int(d.InputOffset())
		switch t := t.(type) {
		case xml.StartElement:
			e := &elem{start: off, tagEnd: end, name: t.Name.Local, holds: map[string]bool{}}
			for _, p := range stack {
				e.up = append(e.up, p.name)
				e.masks = p.masks
			}
			if n := len(stack); n > 0 && stack[n-1].name == "mask" {
				e.masks = append(append([]string(nil), e.masks...), stack[n-1].id)
			}
			for _, a := range t.Attr {
				if a.Name.Local == "id" {
					e.id = a.Value
				}
			}
			els = append(els, e)
			stack = append(stack, e)
			for _, p := range stack {
				p.holds[t.Name.Local] = true
			}
		case xml.EndElement:
			if len(stack) == 0 || stack[len(stack)-1].name != t.Name.Local {
				return nil, nil, nil, false
			}
			stack[len(stack)-1].end = end
			stack = stack[:len(stack)-1]
		}
		if len(stack) > 0 && (len(gaps) == 0 || gaps[len(gaps)-1] != end) {
			// not between <a> and </a> of <a/>
			if _, ok := t.(xml.StartElement); !ok || b[end-2] != '/' {
				gaps = append(gaps, end)
				var up []string
				for _, p := range stack {
					up = append(up, p.name)
				}
				gapUp = append(gapUp, up)
			}
		}
	}
}

func among(xs []string, names ...string) bool {
	for _, x := range xs {
		for _, n := range names {
			if x == n {
				return true
			}
		}
	}
	return false
}

func holds(m map[string]bool, names ...string) bool {
	for _, n := range names {
		if m[n] {
			return true
		}
	}
	return false
}

// seen is what a caller sees of a document: a list of dumps for each kind of
// content that elements add to, and the rest.
type seen struct {
	lists map[string][]string
	rest  string
}

func see(d *svg.Svg) seen {
	s := seen{lists: map[string][]string{"path": nil, "title": d.Titles, "description": d.Descriptions}}
	for _, p := range d.SvgPaths {
		s.lists["path"] = append(s.lists["path"], dumpAny(p))
	}
	rest := *d
	rest.SvgPaths, rest.SvgMasks, rest.Titles, rest.Descriptions = nil, nil, nil, nil
	s.rest = dumpAny([]any{rest.ViewBox, rest.Width, rest.Height, rest.Transform})
	for id, m := range d.SvgMasks {
		l := []string{}
		if m != nil {
			for _, p := range m.SvgPaths {
				l = append(l, dumpAny(p))
			}
			s.lists["value of mask "+id] = []string{dumpAny([]any{m.ID, m.X, m.Y, m.W, m.H, m.Transform})}
		}
		s.lists["mask "+id+" path"] = l
	}
	return s
}

// foreign is content that the parser skips.
func foreign(c *Ch, mode svg.ErrorMode) (text string, element bool) {
	if mode == svg.StrictErrorMode || c.P(1, 4) {
		return pick(c, []string{"<!-- a < b -->", "<!---->", "<?xml-stylesheet href='a.css'?>", "<?p?>", "<!-- <path d='M1 1L2 2'/> -->"}), false
	}
	name := pick(c, []string{"text", "metadata", "style", "image", "script", "animate", "foreignObject", "sodipodi:namedview", "x:path", "marker", "tspan", "view", "Path", "G",
		"Rect", "rects", "a", "switch", "pattern", "set", "textPath", "clipPath", "filter", "symbol", "stops", "mesh", "circles", "line-x", "p", "defsx", "groups", "xsvg", "polyLine", "LINE", "gradient", "meshGradient", "clippath"})
	if name == "x:path" { // a supported name must not be used: the parser looks at local names
		name = "x:paths"
	}
	var b strings.Builder
	b.WriteString("<" + name)
	for k := c.N(4); k > 0; k-- {
		b.WriteString(" " + pick(c, []string{"x='3'", "y='4%'", "points='1,2 3,4 5,6 7,8'", "d='M1 1L5 5V9'", "transform='scale(3)'", "transform='matrix(1 2 3 4 5 6)'", "fill='red'", "opacity='.5'",
			"id='g1'", "id='m1'", "id='d1'", "viewBox='0 0 3 3'", "width='7'", "style='fill:blue;stroke:red;stroke-width:4'", "stroke-dasharray='3 4'", "mask='url(#m1)'", "href='#d1'", "offset='1'", "stroke-linecap='round'"}))
	}
	switch c.N(4) {
	case 0:
		b.WriteString("/>")
	case 1:
		b.WriteString("></" + name + ">")
	case 2:
		b.WriteString(">" + pick(c, []string{"hello", "\n", "<![CDATA[ a > b ]]>", "&lt;"}) + "</" + name + ">")
	case 3:
		b.WriteString("><inner a='1'/>t<!-- c --><tspan transform='rotate(9)'>u</tspan></" + name + ">")
	}
	return b.String(), true
}

// unused is a definition that nothing refers to.
func unused(c *Ch) string {
	stops := pick(c, []string{"", "<stop offset='0'/>", "<stop offset='20%' stop-color='red'/><stop offset='1' stop-opacity='.5'/>"})
	units := pick(c, []string{"", " gradientUnits='userSpaceOnUse'", " spreadMethod='reflect'", " gradientTransform='rotate(30)'", " fill='blue' stroke='red'"})
	shape := pick(c, []string{"<rect width='4' height='3'/>", "<path d='M1 1q3 4 5 6'/>", "<polygon points='1,2 3,4 5,7'/>", "<circle r='3'/><line x1='3' y2='4'/>"})
	switch c.N(7) {
	case 6: // a stop of no gradient
		return "<stop" + pick(c, []string{"", " offset='30%'", " offset='1' id='zz9'"}) + pick(c, []string{"", " stop-color='red'", " style='stop-color:blue;stop-opacity:.3'", " stop-opacity='0'"}) + "/>"
	case 0:
		return "<linearGradient id='zz9'" + units + " x1='3'>" + stops + "</linearGradient>"
	case 1:
		return "<radialGradient id='zz9' cx='3%'" + units + " fy='2'>" + stops + "</radialGradient>"
	case 2:
		return "<defs><linearGradient id='zz9'" + units + ">" + stops + "</linearGradient></defs>"
	case 3:
		return "<mask id='zz9'" + pick(c, []string{"", " x='3' width='9'", " width='50%' height='20'", " x='-10%' y='2' height='7'"}) + ">" + pick(c, []string{"", shape, shape + shape, "<g transform='scale(2)' fill='red'>" + shape + "</g>"}) + "</mask>"
	case 4:
		return "<defs><g id='zz9' opacity='.4' transform='translate(3,4)'>" + shape + "</g></defs>"
	default:
		return "<defs>" + pick(c, []string{"", "<path id='zz9' d='M3 3L4 5h3'/>", "<desc id='zz9'>a</desc>", "<circle id='zz9' r='4' fill='red'/><rect id='zz8'/>", "<path d='M3 3L4 5h3'/>", "<g>" + shape + "</g>"}) + "</defs>"
	}
}

func runC23(r *Run) {
	m := r.mode()
	d := r.doc(DocOpts{Unsupported: m != svg.StrictErrorMode, Corpus: r.c.P(1, 4), Small: r.c.P(2, 3)})
	r.note(d)
	b := d.Bytes
	els, gaps, gapUp, ok := scan(b)
	if !ok {
		r.skip("not well-formed")
	}
	roots := 0
	masks, inner := map[string]int{}, false // how often an id is used; masks in masks
	for _, e := range els {
		if e.name == "mask" {
			masks[e.id]++
			if among(e.up, "mask") {
				inner = true
			}
		}
		if e.name == "svg" {
			roots++
		}
	}
	if roots != 1 || els[0].name != "svg" {
		r.skip("not one svg element") // a nested one changes the document's view box
	}
	r.ref()
	whole := parseBytes(b, m)
	if whole.Class != "ok" {
		r.skip("the document is refused")
	}
	// what happens to the document
	var changed []byte // the document after the fault
	var lost *elem
	at, was, is := 0, 0, 0 // bytes was at the place became bytes is
	what := ""
	switch r.c.W(4, 1, 3, 2) {
	case 0, 1: // an element is lost or arrives twice
		var can []*elem
		for _, e := range els[1:] {
			if among(e.up, "defs", "title", "desc", "linearGradient", "radialGradient") || holds(e.holds, "defs", "mask", "linearGradient", "radialGradient") {
				continue
			}
			can = append(can, e)
		}
		if len(can) == 0 {
			r.skip("no element of its own")
		}
		lost = pick(r.c, can)
		at, was = lost.start, lost.end-lost.start
		what = "lost"
		if r.c.P(1, 4) {
			is, what = 2*was, "repeated"
		}
		seg := b[lost.start:lost.end]
		changed = append(changed, b[:at]...)
		for k := 0; k < is; k += was {
			changed = append(changed, seg...)
		}
		changed = append(changed, b[lost.end:]...)
		r.fault("element-" + what)
		what = fmt.Sprintf("the element at %d (%s) was %s", at, lost.name, what)
	case 2: // foreign content
		text, element := foreign(r.c, m)
		def := r.c.P(1, 4)
		if def {
			text, element = unused(r.c), true
		}
		var can []int
		for i, g := range gaps {
			if def && among(gapUp[i], "title", "desc", "defs", "mask", "linearGradient", "radialGradient") {
				continue
			}
			if element && (among(gapUp[i], "title", "desc") || among(gapUp[i], "defs") && !among(gapUp[i], "linearGradient", "radialGradient")) {
				continue
			}
			can = append(can, g)
		}
		if len(can) == 0 {
			r.skip("no place for foreign content")
		}
		at, is = pick(r.c, can), len(text)
		changed = append(append(append(changed, b[:at]...), text...), b[at:]...)
		switch {
		case def:
			r.fault("unused-definition")
		case element:
			r.fault("foreign-element")
		default:
			r.fault("comment-or-instruction")
		}
		what = fmt.Sprintf("%s came at %d", text, at)
	case 3: // foreign attributes
		e := pick(r.c, els)
		at = e.start + 1
		for at < e.tagEnd && !strings.ContainsRune(" \t\r\n/>", rune(b[at])) {
			at++
		}
		if r.c.P(1, 2) { // behind the others
			at = e.tagEnd
			for at > e.start && (b[at-1] == '>' || b[at-1] == '/') {
				at--
			}
		}
		text := " " + pick(r.c, []string{"data-fill='red'", "data-transform='scale(3)'", "fill-color='red'", "strokewidth='9'", "stroke-color='red'", "xfill='red'", "fills='red'", "text-fill='red'", "mask-type='alpha'", "mask-image='url(#m1)'", "transform-origin='5 5'", "vector-effect='non-scaling-stroke'", "rotate='30'", "display='none'", "color='red'", "data-x='a:b;fill:red'", "data-style='fill:red'", "styles='fill:red'", "pathLength='7'", "data-id='g1'", "xid='m1'", "data-points='1,2 3,4'", "rxx='3'", "stroke-dash='1 2'", "stroke-miter='3'", "stop-colour='red'", "offsets='1'", "data-href='#d1'", "preserveAspectRatio='none'", "data-d='M1 1L2 2'", "class='a'", "xml:space='preserve'", "aria-label='fill:red;stroke:blue'", "onclick='x()'", "tabindex='3'", "visibility='hidden'", "inkscape:label='mask'", "clip-path='url(#m1)'", "filter='url(#g1)'", "font-size='12'"})
		is = len(text)
		changed = append(append(append(changed, b[:at]...), text...), b[at:]...)
		r.fault("foreign-attribute")
		what = fmt.Sprintf("the attribute%s came at %d", text, at)
	}
	r.mixIn(changed)
	r.logDoc("afterwards", changed)
	where := fmt.Sprintf("mode %s, %s", modeName(m), what)
	// both streams may break at the same place behind it
	endA, endB, end := len(b), len(changed), error(io.EOF)
	if r.c.P(1, 4) {
		endA = at + was + r.c.N(len(b)-at-was+1)
		endB = endA - was + is
		if r.c.P(1, 2) {
			end = errors.New("connection reset")
			r.fault("read-failure")
		} else {
			r.fault("truncation")
		}
		where += fmt.Sprintf(", streams end with %q after %d and %d bytes", end, endA, endB)
	}
	pa, pb := genPlan(r.c, b[:endA], false), genPlan(r.c, changed[:endB], false)
	a := parse(pa.wrap(newStream(b, pa, endA, end)), m, len(b))
	if a.died() || a.doc == nil {
		r.skip("reference did not return")
	}
	var before, after *Outcome
	if lost != nil {
		p0, _, _, _, _ := complete(b[:lost.start])
		p1, _, _, _, _ := complete(b[:lost.end])
		before, after = parseBytes(p0, m), parseBytes(p1, m)
		if before.Class != "ok" || after.Class != "ok" {
			r.skip("reference did not return")
		}
	}
	r.under()
	r.log("%s", where)
	g := parse(pb.wrap(newStream(changed, pb, endB, end)), m, len(changed))
	r.st.Ops++
	r.log("outcome: %s (without: %s)", g.brief(), a.brief())
	if g.Class != a.Class {
		r.fail("outcome-class", "%s: %s, before the change %s", where, g.brief(), a.brief())
	}
	if g.doc == nil {
		r.fail("no-document", "%s: no document", where)
	}
	sa, sg := see(a.doc), see(g.doc)
	delete(sg.lists, "mask zz9 path") // of a definition nobody refers to
	delete(sg.lists, "value of mask zz9")
	if sa.rest != sg.rest {
		r.fail("document-attributes", "%s: the document's own values changed: %s", where, diffText(sa.rest, sg.rest))
	}
	var s0, s1 seen
	if lost != nil {
		s0, s1 = see(before.doc), see(after.doc)
	}
	names := map[string]bool{}
	for n := range sa.lists {
		names[n] = true
	}
	for n := range sg.lists {
		names[n] = true
	}
	for _, n := range sortedKeys(names) {
		x, y := sa.lists[n], sg.lists[n]
		if lost == nil || strings.HasPrefix(n, "value of mask ") || strings.HasPrefix(n, "mask ") && !among(lost.masks, strings.TrimSuffix(strings.TrimPrefix(n, "mask "), " path")) {
			if strings.Join(x, "\x00") != strings.Join(y, "\x00") {
				r.fail("other-content-changed", "%s: the %ss changed (%d before, %d after): %s", where, n, len(x), len(y), diffText(strings.Join(x, "\n"), strings.Join(y, "\n")))
			}
			continue
		}
		if strings.HasPrefix(n, "mask ") {
			// the element belonged to it
			id := strings.TrimSuffix(strings.TrimPrefix(n, "mask "), " path")
			if len(lost.masks) != 1 || masks[id] != 1 || inner {
				continue
			}
			if x == nil || y == nil { // the stream ended inside
				if (x == nil) != (y == nil) {
					r.fail("other-content-changed", "%s: mask %q is there in only one of the documents", where, id)
				}
				continue
			}
		}
		n0, n1 := len(s0.lists[n]), len(s1.lists[n])
		own := s1.lists[n][min(n0, n1):]
		if n1 < n0 || len(x) < n1 {
			r.fail("own-content", "%s: %d %ss up to the element, %d with it, %d in all", where, n0, n, n1, len(x))
		}
		want := append([]string(nil), x[:n0]...)
		for k := 0; k < is; k += was {
			want = append(want, own...)
		}
		want = append(want, x[n1:]...)
		if strings.Join(want, "\x00") != strings.Join(y, "\x00") {
			r.fail("other-content-changed", "%s: it had %d %ss of its own, and others changed (%d expected, %d found): %s", where, len(own), n, len(want), len(y), diffText(strings.Join(want, "\n"), strings.Join(y, "\n")))
		}
	}
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
