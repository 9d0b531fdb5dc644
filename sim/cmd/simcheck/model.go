package main

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"io"
	"regexp"
	"strconv"
	"strings"

	svg "github.com/lafriks/go-svg"
)

// span is the least and the greatest number of paths that elements add.
type span [2]int

// model is what a document that is accepted must hold at least, read off its
// elements without the library: texts, sizes, the masks and how many paths.
type model struct {
	titles, descs []string
	texts         bool // whether titles and descs are known
	paths         span
	masks         map[string]span
	width, height string
	box           svg.Bounds
	sized, boxed  bool
}

var (
	plainNum  = regexp.MustCompile(`^-?[0-9]+(\.[0-9]+)?$`)
	plainLen  = regexp.MustCompile(`^([0-9]+(\.[0-9]+)?)(px|pt|mm|cm)?$`)
	plainNums = regexp.MustCompile(`^-?[0-9]+(\.[0-9]+)?([ ,]-?[0-9]+(\.[0-9]+)?)*$`)
	plainPath = regexp.MustCompile(`^[Mm] ?-?[0-9]+(\.[0-9]+)?[ ,]-?[0-9]+(\.[0-9]+)?([^0-9.e]|$)`)
)

// length reports whether a length is zero (0), not zero (1) or not known (-1).
func length(attr map[string]string, name string) int {
	v, ok := attr[name]
	if !ok {
		return 0
	}
	m := plainLen.FindStringSubmatch(v)
	if m == nil {
		return -1
	}
	if f, err := strconv.ParseFloat(m[1], 64); err != nil || f == 0 {
		return 0
	}
	return 1
}

// adds is how many paths an element adds.
func adds(name string, attr map[string]string, twice bool) span {
	all := func(xs ...int) span {
		s := span{1, 1}
		for _, x := range xs {
			if x == 0 {
				return span{}
			}
			if x < 0 {
				s[0] = 0
			}
		}
		return s
	}
	if twice {
		return span{0, 1}
	}
	switch name {
	case "line":
		return span{1, 1}
	case "rect":
		return all(length(attr, "width"), length(attr, "height"))
	case "circle", "ellipse":
		_, r := attr["r"]
		_, rx := attr["rx"]
		_, ry := attr["ry"]
		switch {
		case r && (rx || ry):
			return span{0, 1}
		case r:
			return all(length(attr, "r"))
		}
		return all(length(attr, "rx"), length(attr, "ry"))
	case "polygon", "polyline":
		v, ok := attr["points"]
		if !ok {
			return span{}
		}
		if !plainNums.MatchString(v) {
			return span{0, 1}
		}
		if len(strings.FieldsFunc(v, func(r rune) bool { return r == ' ' || r == ',' })) > 4 {
			return span{1, 1}
		}
		return span{}
	case "path":
		d, ok := attr["d"]
		if !ok {
			return span{}
		}
		if plainPath.MatchString(d) {
			return span{1, 1}
		}
		return span{0, 1}
	case "use":
		return span{0, 1}
	}
	return span{}
}

// expect reads the model off a well-formed document.
func expect(b []byte) *model {
	d := xml.NewDecoder(bytes.NewReader(b))
	m := &model{masks: map[string]span{}, texts: true}
	var stack []string
	in := map[string]int{}
	title, desc := false, false
	mask, id := span{}, ""
	for {
		t, err := d.Token()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil
		}
		switch t := t.(type) {
		case xml.StartElement:
			n := t.Name.Local
			attr, twice := map[string]string{}, false
			for _, a := range t.Attr {
				if _, ok := attr[a.Name.Local]; ok {
					twice = true
				}
				attr[a.Name.Local] = a.Value
			}
			defs := in["defs"] > 0
			grad := in["linearGradient"]+in["radialGradient"] > 0
			switch n {
			case "svg":
				if in["svg"] > 0 || len(stack) > 0 {
					return nil
				}
				m.width, m.height, m.sized = attr["width"], attr["height"], !twice
				if v, ok := attr["viewBox"]; ok && !twice && plainNums.MatchString(v) {
					f := strings.FieldsFunc(v, func(r rune) bool { return r == ' ' || r == ',' })
					if len(f) == 4 {
						m.boxed = true
						for i, p := range []*float64{&m.box.X, &m.box.Y, &m.box.W, &m.box.H} {
							*p, _ = strconv.ParseFloat(f[i], 64)
						}
						m.boxed = m.box.W != 0 && m.box.H != 0
					}
				} else if !ok && !twice && plainNum.MatchString(m.width) && plainNum.MatchString(m.height) {
					m.boxed = true
					m.box.W, _ = strconv.ParseFloat(m.width, 64)
					m.box.H, _ = strconv.ParseFloat(m.height, 64)
				}
			case "defs":
				if defs || grad || in["mask"] > 0 {
					return nil
				}
			case "mask":
				if in["mask"] > 0 || grad {
					return nil
				}
				mask, id = span{}, attr["id"]
				if twice {
					return nil
				}
			case "linearGradient", "radialGradient":
				if grad {
					return nil
				}
			case "title", "desc":
				if defs || grad || title || desc {
					m.texts = false
				}
				if n == "title" {
					m.titles, title = append(m.titles, ""), true
				} else {
					m.descs, desc = append(m.descs, ""), true
				}
			case "use":
				if strings.Contains(string(b), "<title") || strings.Contains(string(b), "<desc") {
					m.texts = false // definitions may hold texts
				}
			}
			s := adds(n, attr, twice)
			switch {
			case grad && s[1] > 0:
				return nil
			case defs:
			case in["mask"] > 0:
				mask[0] += s[0]
				mask[1] += s[1]
			default:
				m.paths[0] += s[0]
				m.paths[1] += s[1]
			}
			stack = append(stack, n)
			in[n]++
		case xml.EndElement:
			n := t.Name.Local
			if len(stack) == 0 || stack[len(stack)-1] != n {
				return nil
			}
			stack = stack[:len(stack)-1]
			in[n]--
			switch n {
			case "title":
				title = false
			case "desc":
				desc = false
			case "mask":
				if in["defs"] == 0 {
					m.masks[id] = mask
				}
			}
		case xml.CharData:
			if title {
				m.titles[len(m.titles)-1] += string(t)
			}
			if desc {
				m.descs[len(m.descs)-1] += string(t)
			}
		}
	}
	return m
}

// judge compares a document with its model.
func (m *model) judge(d *svg.Svg) string {
	if n := len(d.SvgPaths); n < m.paths[0] || n > m.paths[1] {
		return fmt.Sprintf("%d paths, but its elements have %d to %d", n, m.paths[0], m.paths[1])
	}
	if m.texts {
		if a, b := strings.Join(m.titles, "\x00"), strings.Join(d.Titles, "\x00"); a != b || len(m.titles) != len(d.Titles) {
			return fmt.Sprintf("titles %q, but its elements have %q", d.Titles, m.titles)
		}
		if a, b := strings.Join(m.descs, "\x00"), strings.Join(d.Descriptions, "\x00"); a != b || len(m.descs) != len(d.Descriptions) {
			return fmt.Sprintf("descriptions %q, but its elements have %q", d.Descriptions, m.descs)
		}
	}
	if m.sized && (d.Width != m.width || d.Height != m.height) {
		return fmt.Sprintf("width %q and height %q, but its element has %q and %q", d.Width, d.Height, m.width, m.height)
	}
	if m.boxed && d.ViewBox != m.box {
		return fmt.Sprintf("view box %v, but its element has %v", d.ViewBox, m.box)
	}
	for id, s := range m.masks {
		g := d.SvgMasks[id]
		if g == nil {
			return fmt.Sprintf("no mask %q", id)
		}
		if n := len(g.SvgPaths); n < s[0] || n > s[1] {
			return fmt.Sprintf("mask %q with %d paths, but its elements have %d to %d", id, n, s[0], s[1])
		}
	}
	for id := range d.SvgMasks {
		if _, ok := m.masks[id]; !ok {
			return fmt.Sprintf("a mask %q that was never defined", id)
		}
	}
	return ""
}
