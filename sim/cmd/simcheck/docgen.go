package main

import (
	"bytes"
	"embed"
	"encoding/xml"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/net/html/charset"
)

//go:embed corpus/*.svg
var corpusFS embed.FS

var corpus = func() (out []corpusDoc) {
	es, err := corpusFS.ReadDir("corpus")
	if err != nil {
		panic(err)
	}
	for _, e := range es {
		b, err := corpusFS.ReadFile("corpus/" + e.Name())
		if err != nil {
			panic(err)
		}
		out = append(out, corpusDoc{e.Name(), b})
	}
	sort.Slice(out, func(i, j int) bool { return len(out[i].data) < len(out[j].data) })
	return
}()

type corpusDoc struct {
	name string
	data []byte
}

// Doc is one generated document.
type Doc struct {
	Bytes   []byte
	Charset string // "" for UTF-8
	Kind    string
	RootEnd int // offset just after the root element's end tag; -1 if unknown
	Unsup   int // unsupported elements written outside definitions
}

// DocOpts restricts what the generator may produce.
type DocOpts struct {
	Unsupported bool // elements and values the parser does not handle
	Errors      bool // content that no error mode accepts
	Charsets    bool // documents in legacy encodings
	Corpus      bool // real documents
	Render      bool // only content that is safe and cheap to rasterise
	Big         bool // occasionally documents far larger than I/O buffers
	Huge        bool // rarely documents larger than any limit in sight
	Plain       bool // no prolog, comments or odd text
	Small       bool // few nodes
}

// ids and values come from small pools shared by all documents, so that state
// leaking from one document into another meets colliding keys
var (
	colorPool = []string{
		"black", "red", "none", "#0f0", "#00FF7f", "rgb(10,20,30)", "rgb(10%, 50%,100%)", "Blue", "orange", "#abc", "#123456",
		"white", "lime", "hotpink", "rgb(0,0,0)", "#FFF",
	}
	gradIDs  = []string{"g1", "g2", "gr-a", "p"}
	maskIDs  = []string{"m1", "m2", "mask-a", "mm"}
	defIDs   = []string{"d1", "d2", "shape", "icon"}
	pathPool = []string{
		"M1 1L9 1L9 9z", "M2,2h6v6h-6z", "M0 0 C 0 20, 20 20, 20 0", "M5 5q3 3 6 0t4 0", "M3 3a4 4 0 1 0 8 0z",
		"M1 8 S 4 2 9 8 S 14 14 18 8", "M4 4m2 2l3 3L1 9z", "M10 10H18V2z", "m1.5.5l3-2 4e0 5z",
	}
	// paths with hardly anything in them
	barePool = []string{
		"M3 3", "V9", "h5", "M1 1z", "z", "M5 5h0", "M2 2L2 2", "M1 1M4 4M9 9", "M4 4v6", "M3 3h5", "L4 4", "M1 1q0 0 0 0", "M1 1a0 0 0 0 0 5 5",
		"M2 2a3 3 0 0 0 0 0", "M1 1c0 0 0 0 0 0", "M5 5zl3 3z", "zV7", "M1 9zm3 3zm1 1", "C1 2 3 4 5 6", "T7 7", "Q1 2 9 9z", "A3 4 0 1 0 8 8", "M6 6l0 0l4 0",
	}
	transformPool = []string{
		"translate(3,4)", "rotate(45)", "scale(2)", "rotate(30 5 5)", "skewX(20)", "skewY(10)", "matrix(1 0 0 1 2 3)",
		"translate(2) scale(1.5,.5)", "scale(.5) rotate(-15), translate(1,1)",
	}
	textPool     = []string{"a", "hello world", "x &amp; y", "&#65;&#x42;", "tab\there", " \n ", "<![CDATA[raw < & text]]>", "é", "漢字", "\U0001F600", "long text that goes on and on for a while", "\r\n", "a\r\nb", "\r", "]]", "&lt;g&gt;", "&#13;&#10;"}
	unsupported  = []string{"text", "metadata", "style", "clipPath", "filter", "image", "namedview", "symbol", "pattern", "script", "switch", "rects", "paths", "meshgradient"}
	legacyLabels = []struct{ label, text string }{
		{"iso-8859-1", "café"}, {"windows-1252", "naïve “q” €"}, {"windows-1251", "Привет"}, {"koi8-r", "мир"},
		{"shift_jis", "日本語テキスト"}, {"euc-jp", "日本"}, {"gbk", "中文字"}, {"gb18030", "中文𠀀"}, {"big5", "繁體"}, {"euc-kr", "한국어"},
		{"US-ASCII", "plain"}, {"iso-8859-15", "€uro"}, {"macintosh", "é"},
	}
)

type gen struct {
	c     *Ch
	o     DocOpts
	b     strings.Builder
	grads []string
	masks []string
	defs  []string
	texts []string
	nodes int
	ns    string // element prefix
	depth int
	masky bool // prefers nested masks
}

func genDoc(c *Ch, o DocOpts) *Doc {
	if o.Corpus && c.P(3, 16) {
		d := pick(c, corpus)
		return newDoc(append([]byte(nil), d.data...), "corpus:"+d.name)
	}
	g := &gen{c: c, o: o, texts: textPool}
	cs := ""
	legacy := o.Charsets && c.P(1, 8)
	if legacy {
		l := pick(c, legacyLabels)
		cs = l.label
		g.texts = []string{"a", "x &amp; y", l.text, l.text + l.text, "<![CDATA[" + l.text + "]]>"}
	}
	g.prolog(cs)
	g.root()
	out := []byte(g.b.String())
	if !o.Plain && c.P(1, 10) {
		out = bytes.ReplaceAll(out, []byte("\n"), []byte("\r\n"))
	}
	if cs != "" {
		enc, _ := charset.Lookup(cs)
		e, err := enc.NewEncoder().Bytes(out)
		if err != nil {
			panic("docgen: " + cs + ": " + err.Error())
		}
		out = e
	}
	return newDoc(out, "generated")
}

// newDoc describes a document.
func newDoc(b []byte, kind string) *Doc {
	d := &Doc{Bytes: b, Kind: kind, RootEnd: -1}
	if i := bytes.Index(b, []byte("encoding=\"")); i >= 0 && i < 60 {
		rest := b[i+10:]
		if k := bytes.IndexByte(rest, '"'); k >= 0 && !strings.EqualFold(string(rest[:k]), "utf-8") {
			d.Charset = string(rest[:k])
		}
	}
	// the root's end tag is the last one
	if i := bytes.LastIndex(b, []byte("</")); i >= 0 {
		if k := bytes.IndexByte(b[i:], '>'); k >= 0 {
			d.RootEnd = i + k + 1
		}
	}
	if d.Charset == "" {
		d.Unsup = countUnsupported(b)
	}
	return d
}

// countUnsupported counts elements of the names in `unsupported` outside
// definitions.
func countUnsupported(b []byte) int {
	d := xml.NewDecoder(bytes.NewReader(b))
	n, defs := 0, 0
	for {
		t, err := d.Token()
		if err != nil {
			return n
		}
		switch t := t.(type) {
		case xml.StartElement:
			if t.Name.Local == "defs" {
				defs++
			}
			for _, u := range unsupported {
				if defs == 0 && t.Name.Local == u {
					n++
				}
			}
		case xml.EndElement:
			if t.Name.Local == "defs" {
				defs--
			}
		}
	}
}

func (g *gen) w(s string)           { g.b.WriteString(s) }
func (g *gen) f(s string, a ...any) { fmt.Fprintf(&g.b, s, a...) }
func (g *gen) num() string {
	switch g.c.W(6, 4, 2, 1, 1, 1) {
	case 1:
		return strconv.FormatFloat(float64(g.c.N(400))/16, 'f', -1, 64)
	case 2:
		return "-" + strconv.Itoa(g.c.N(12))
	case 3:
		return "." + strconv.Itoa(1+g.c.N(98))
	case 4:
		return strconv.Itoa(g.c.N(9)) + "e" + pick(g.c, []string{"0", "1", "-1"})
	case 5:
		return strconv.Itoa(g.c.N(5)) + "."
	}
	return strconv.Itoa(g.c.N(20))
}

func (g *gen) pos() string { // strictly positive
	if g.c.P(1, 4) {
		return strconv.FormatFloat(float64(1+g.c.N(160))/8, 'f', -1, 64)
	}
	return strconv.Itoa(1 + g.c.N(18))
}

func (g *gen) unit(s string) string {
	if g.c.P(1, 5) {
		return s + pick(g.c, []string{"px", "%", "pt", "mm", " px", "Q", "pc", "cm", "in"})
	}
	return s
}

func (g *gen) len() string {
	if g.o.Errors && g.c.P(1, 60) {
		return pick(g.c, []string{"abc", "", "1.2.3", "--4", "px"})
	}
	return g.unit(g.num())
}

func (g *gen) plen() string {
	if g.o.Errors && g.c.P(1, 60) {
		return pick(g.c, []string{"x", "", "3ex4"})
	}
	return g.unit(g.pos())
}

func (g *gen) color() string {
	if g.o.Errors && g.c.P(1, 60) {
		return pick(g.c, []string{"bogus", "#zzzzzz", "rgb(1,2)", "rgb(a,b,c)"})
	}
	if len(g.grads) > 0 && g.c.P(1, 4) {
		return "url(#" + pick(g.c, g.grads) + ")"
	}
	if g.c.P(1, 24) {
		return "url(#missing)"
	}
	return pick(g.c, colorPool)
}

// styles writes presentation attributes, some of them inside style="".
func (g *gen) styles() {
	n := g.c.W(5, 4, 3, 2, 1)
	var attrs, css []string
	put := func(k, v string) {
		if g.c.P(1, 3) {
			css = append(css, pick(g.c, []string{"", " "})+k+pick(g.c, []string{":", ": "})+v)
		} else {
			for _, a := range attrs {
				if strings.HasPrefix(a, k+"=") {
					return
				}
			}
			attrs = append(attrs, g.quote(k, v))
		}
	}
	for i := 0; i < n; i++ {
		switch g.c.N(15) {
		case 0:
			put("fill", g.color())
		case 1:
			put("stroke", g.color())
		case 2:
			v := g.unitNoIn(g.pos())
			if g.c.P(1, 8) {
				v = pick(g.c, []string{"0", "0", "0px", "-1", "0.01", "60", "0%"})
			}
			put("stroke-width", v)
		case 3:
			put("opacity", pick(g.c, []string{".5", "1", "0.25", "0", "1.5", "-1"}))
		case 4:
			put("fill-opacity", pick(g.c, []string{".5", "1", "0.75", "0", "2"}))
		case 5:
			put("stroke-opacity", pick(g.c, []string{".5", "1", "0.1", "0", "-.5"}))
		case 6:
			v := pick(g.c, []string{"evenodd", "nonzero"})
			if g.o.Unsupported && g.c.P(1, 6) {
				v = "inherit"
			}
			put("fill-rule", v)
		case 7:
			v := pick(g.c, []string{"butt", "round", "square", "cubic", "quadratic"})
			if g.o.Unsupported && g.c.P(1, 6) {
				v = "inherit"
			}
			put(pick(g.c, []string{"stroke-linecap", "stroke-leadlinecap"}), v)
		case 8:
			v := pick(g.c, []string{"miter", "miter-clip", "arc-clip", "round", "arc", "bevel"})
			if g.o.Unsupported && g.c.P(1, 6) {
				v = "fancy"
			}
			put("stroke-linejoin", v)
		case 9:
			put("stroke-miterlimit", pick(g.c, []string{"4", "1", "2", "3", "5", "6", "7", "8", "0", "-2", ".5", "500"}))
		case 10:
			var ds []string
			for k := 1 + g.c.N(3); k > 0; k-- {
				ds = append(ds, strconv.FormatFloat(float64(2+g.c.N(12))/2, 'f', -1, 64))
			}
			v := strings.Join(ds, pick(g.c, []string{",", " ", ", "}))
			if g.c.P(1, 8) {
				v = "none"
			}
			if g.c.P(1, 10) {
				v = pick(g.c, []string{"0", "0,0", "-1", "3 0", "0 3", "5,-2", "", "0%", "1 2 3 4 5", "nan", "50%", "1in"})
			}
			put("stroke-dasharray", v)
		case 11:
			v := strconv.Itoa(g.c.N(5))
			if g.c.P(1, 10) {
				v = pick(g.c, []string{"-3", "100", "2.5", "10%", "-.5"})
			}
			put("stroke-dashoffset", v)
		case 12:
			v := pick(g.c, transformPool)
			if g.o.Errors && g.c.P(1, 20) {
				v = pick(g.c, []string{"foo(1)", "scale(", "rotate(1,2)", "translate(1e)"})
			}
			put("transform", v)
		case 13:
			v := pick(g.c, []string{"flat", "round", "cubic", "quadratic"})
			if g.o.Unsupported && g.c.P(1, 6) {
				v = "odd"
			}
			put("stroke-linegap", v)
		case 14:
			g.mask(put)
		}
	}
	if g.masky && g.c.P(1, 2) {
		g.mask(put)
	}
	for _, a := range attrs {
		g.w(" " + a)
	}
	if len(css) > 0 {
		g.w(" " + g.quote("style", strings.Join(css, ";")+pick(g.c, []string{"", ";", "; "})))
	}
}

func (g *gen) mask(put func(k, v string)) {
	if g.o.Errors && g.c.P(1, 30) {
		put("mask", pick(g.c, []string{"foo", "url(x)"}))
		return
	}
	ids := g.masks
	if !g.o.Render {
		ids = append([]string{"missing", "m1", "m2"}, ids...)
	}
	if len(ids) == 0 || g.c.P(1, 12) {
		put("mask", "none")
		return
	}
	put("mask", "url(#"+pick(g.c, ids)+")")
}

func (g *gen) unitNoIn(s string) string {
	if g.c.P(1, 6) {
		return s + pick(g.c, []string{"px", "%", "pt"})
	}
	return s
}

func (g *gen) quote(k, v string) string {
	if g.c.P(1, 8) {
		return k + "='" + v + "'"
	}
	if g.c.P(1, 16) {
		return k + " = \"" + v + "\""
	}
	return k + "=\"" + v + "\""
}

func (g *gen) attr(k, v string) {
	g.w(" " + g.quote(k, v))
}

func (g *gen) prolog(cs string) {
	if cs != "" {
		g.f("<?xml version=\"1.0\" encoding=\"%s\"?>\n", cs)
	} else if g.o.Plain {
		return
	} else {
		switch g.c.W(5, 2, 1, 1, 1) {
		case 1:
			g.w("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n")
		case 2:
			g.w("<?xml version='1.0' standalone='no'?>")
		case 3:
			g.w("\ufeff")
		case 4:
			g.w("\n  ")
		}
	}
	if g.o.Plain {
		return
	}
	for g.c.P(1, 5) {
		g.misc()
	}
	if g.c.P(1, 8) {
		g.w("<!DOCTYPE svg PUBLIC \"-//W3C//DTD SVG 1.1//EN\" \"http://www.w3.org/Graphics/SVG/1.1/DTD/svg11.dtd\">\n")
	}
}

func (g *gen) misc() {
	switch g.c.N(4) {
	case 0:
		g.w("\n")
	case 1:
		g.w("<!-- a comment <rect/> -->")
	case 2:
		g.w("<?pi some data?>")
	case 3:
		g.w("<!---->")
	}
}

func (g *gen) root() {
	if g.c.P(1, 16) {
		g.ns = "svg:"
	}
	g.w("<" + g.ns + "svg")
	if g.ns != "" || g.c.P(1, 4) {
		g.w(" xmlns:svg=\"http://www.w3.org/2000/svg\"")
	}
	if g.c.P(1, 2) {
		g.w(" xmlns=\"http://www.w3.org/2000/svg\"")
	}
	if g.o.Errors && g.c.P(1, 60) {
		g.w(" viewBox=\"0 0 3\"")
	} else if g.o.Errors && g.c.P(1, 25) {
		odd := []string{"inf", "-inf", "nan", "1e308cm", "1e-320", "0", "-5", "1e9", "20", "1e-9", "0x1p9", "1_0"}
		if g.c.P(1, 2) {
			g.f(" viewBox=\"%s %s %s %s\"", pick(g.c, []string{"0", "1e308", "-7"}), pick(g.c, []string{"0", "1e308", "-7"}), pick(g.c, []string{"20", "1e308", "1e-320", "0", "-5", "1e9"}), pick(g.c, []string{"20", "1e308", "0", "-5"}))
		}
		g.attr("width", pick(g.c, odd))
		g.attr("height", pick(g.c, odd))
	} else if g.o.Render && g.c.P(29, 30) && g.c.P(1, 10) {
		// no view box: the target stands for it
		g.attr("width", pick(g.c, []string{"20", "30", "25.5", "20", "0"}))
		g.attr("height", pick(g.c, []string{"20", "25", "20.5", "40"}))
	} else if g.o.Render && g.c.P(29, 30) || !g.o.Render && g.c.P(3, 4) {
		if g.c.P(1, 4) {
			g.f(" viewBox=\"%d %d %d %d\"", g.c.N(5)-2, g.c.N(5)-2, 20+g.c.N(20), 20+g.c.N(20))
		} else {
			g.w(" viewBox=\"0 0 20 20\"")
		}
	}
	if g.c.P(1, 3) {
		g.attr("width", g.plen())
		g.attr("height", g.plen())
	}
	if g.c.P(1, 4) {
		g.styles()
	}
	g.w(">")
	max := 10
	if g.o.Small {
		max = 4
	}
	n := 1 + g.c.N(max)
	if g.o.Big && g.c.P(1, 40) {
		n = 40 + g.c.N(200)
	}
	if g.o.Huge && g.c.P(1, 1000) {
		g.pad()
	}
	g.masky = g.c.P(1, 6)
	// gradients and masks early, so that later elements can refer to them
	if g.c.P(1, 2) {
		g.gradient()
	}
	if g.c.P(1, 4) || g.masky {
		g.maskEl()
	}
	if g.c.P(1, 4) {
		g.defsEl()
	}
	for i := 0; i < n; i++ {
		g.node()
	}
	g.text()
	if g.o.Errors && g.c.P(1, 30) {
		g.w(pick(g.c, []string{"</wrong>", "<a b></a>", "&nope;", "<", "</", "\x01", "<g", "<!-- -- -->", "<![CDATA[", "<?xml version=\"2.0\"?>"}))
	}
	g.w("</" + g.ns + "svg" + pick(g.c, []string{"", "", " ", "\n"}) + ">")
	if !g.o.Plain {
		for g.c.P(1, 4) {
			g.misc()
		}
	}
	if g.o.Errors && g.c.P(1, 40) {
		g.w(pick(g.c, []string{"</svg>", "<", "&x;"}))
	}
}

func (g *gen) text() {
	if g.o.Plain {
		return
	}
	switch g.c.W(4, 2, 1, 1) {
	case 1:
		g.w("\n  ")
	case 2:
		g.misc()
	case 3:
		g.w(pick(g.c, g.texts))
	}
}

// pad writes much content of one kind.
func (g *gen) pad() {
	size := pick(g.c, []int{5 << 10, 20 << 10, 70 << 10, 70 << 10, 140 << 10, 270 << 10, 1100 << 10})
	rep := func(s string) { g.w(strings.Repeat(s, 1+size/len(s))) }
	switch g.c.N(6) {
	case 0:
		g.w("<!-- ")
		rep("a comment ")
		g.w("-->")
	case 1:
		rep("\n    ")
	case 2:
		g.w("<" + g.ns + "desc>")
		rep("text ")
		g.w("</" + g.ns + "desc>")
	case 3:
		g.w("<" + g.ns + "path d=\"M1 1")
		rep(" L2 3 h4")
		g.w("\"/>")
	case 4:
		size /= 8
		rep("<" + g.ns + "rect width=\"3\" height=\"4\"/>")
	case 5:
		if g.o.Unsupported {
			size /= 8
			rep("<" + g.ns + "text x=\"3\"/>")
		} else {
			rep("<?p data?>")
		}
	}
}

func (g *gen) node() {
	g.nodes++
	g.text()
	if g.depth < 6 && (g.c.P(1, 5) || (g.masky && g.c.P(1, 2))) {
		g.depth++
		g.w("<" + g.ns + "g")
		g.styles()
		g.w(">")
		for k := g.c.N(4); k > 0; k-- {
			g.node()
		}
		g.text()
		g.w("</" + g.ns + "g>")
		g.depth--
		return
	}
	switch g.c.W(24, 2, 1, 2, 2, 2, 2, 2) {
	case 7:
		g.exotic()
	case 0:
		g.shape("")
	case 1:
		g.gradient()
	case 2:
		g.maskEl()
	case 3:
		g.defsEl()
	case 4:
		g.useEl(false)
	case 5:
		tag := pick(g.c, []string{"title", "desc"})
		g.w("<" + g.ns + tag + ">")
		for k := 1 + g.c.N(3); k > 0; k-- {
			g.w(pick(g.c, g.texts))
			if !g.o.Plain && g.c.P(1, 6) {
				g.w("<!-- c -->")
			}
		}
		g.w("</" + g.ns + tag + ">")
	case 6:
		if !g.o.Unsupported {
			g.shape("")
			return
		}
		tag := g.unsup()
		g.w("<" + tag + " a='1'>")
		if g.c.P(1, 2) {
			g.w(pick(g.c, g.texts))
		}
		if g.c.P(1, 4) {
			g.shape("")
		}
		g.w("</" + tag + ">")
	}
}

// exotic writes unusual but legal content.
func (g *gen) exotic() {
	ns := g.ns
	el := func(tag string, attrs func(), body func()) {
		g.w("<" + ns + tag)
		if attrs != nil {
			attrs()
		}
		g.w(">")
		if body != nil {
			body()
		}
		g.w("</" + ns + tag + ">")
	}
	if g.o.Render {
		g.shape("")
		return
	}
	switch g.c.N(16) {
	case 0: // a document inside the document
		if g.depth >= 3 {
			return
		}
		g.depth++
		el("svg", func() {
			if g.c.P(1, 2) {
				g.attr("viewBox", "1 2 30 40")
			}
			if g.c.P(1, 2) {
				g.attr("width", g.plen())
			}
			g.styles()
		}, func() {
			for k := g.c.N(3); k > 0; k-- {
				g.node()
			}
		})
		g.depth--
	case 1: // a stop that belongs to nothing
		g.w("<" + ns + "stop offset='1' stop-color='red'/>")
	case 2: // text in definitions
		id := pick(g.c, defIDs)
		el("defs", nil, func() {
			el(pick(g.c, []string{"title", "desc"}), nil, func() { g.w(pick(g.c, g.texts)) })
			g.shapePlain(id)
			if g.c.P(1, 2) {
				el("desc", nil, func() { g.w(pick(g.c, g.texts)) })
			}
		})
		g.defs = append(g.defs, id)
	case 3: // a definition that uses another
		if len(g.defs) == 0 || len(g.defs) > 6 {
			g.shape("")
			return
		}
		id := pick(g.c, []string{"u1", "u2"})
		el("defs", nil, func() {
			el("g", func() { g.attr("id", id) }, func() {
				g.useEl(true)
				g.shapePlain("")
			})
		})
		g.defs = append(g.defs, id)
	case 4: // a mask in a definition
		el("defs", nil, func() {
			el("mask", func() { g.attr("id", pick(g.c, maskIDs)) }, func() { g.shapePlain("") })
		})
	case 5: // masks inside masks
		el("mask", func() { g.attr("id", pick(g.c, maskIDs)) }, func() {
			g.shape("")
			el("mask", func() {
				if g.c.P(1, 2) {
					g.attr("id", pick(g.c, maskIDs))
				}
			}, func() { g.shape("") })
			g.shape("")
		})
	case 6: // drawing inside a gradient
		el("linearGradient", func() { g.attr("id", pick(g.c, gradIDs)) }, func() {
			g.shape("")
			g.w("<" + ns + "stop offset='.5'/>")
		})
	case 7: // drawing inside a shape
		el("path", func() { g.attr("d", g.pathData()) }, func() {
			g.shape("")
			el("title", nil, func() { g.w(pick(g.c, g.texts)) })
		})
	case 8: // nothing to draw
		g.w("<" + ns + pick(g.c, []string{"path/>", "path d=''/>", "polygon/>", "polyline points=''/>", "circle/>", "rect/>", "line/>", "ellipse rx='1'/>", "path d='z'/>", "path d='M1 1'/>"}))
	case 9: // attributes that mean nothing here
		g.w("<" + ns + "g")
		for k := 1 + g.c.N(3); k > 0; k-- {
			g.w(" " + pick(g.c, []string{"inkscape:label='Layer 1'", "class='a b'", "data-x='&quot;'", "id='a'", "xml:space='preserve'", "Fill='red'", "FILL='blue'", "aria-label='x:y;z'", "style=''", "style=':;;a:b:c;fill'", "style='fill:red !important'", "style='FILL : green ; Stroke:BLACK'", "visibility='hidden'"}))
		}
		g.w(">")
		g.shape("")
		g.w("</" + ns + "g>")
	case 10: // an attribute twice
		g.w("<" + ns + "rect width='3' width='5' height='4' fill='red' fill='" + pick(g.c, colorPool) + "'/>")
	case 11: // text and elements mixed
		el(pick(g.c, []string{"title", "desc"}), nil, func() {
			g.w(pick(g.c, g.texts))
			if g.o.Unsupported && g.c.P(1, 2) {
				tag := g.unsup()
				g.w("<" + tag + ">" + pick(g.c, g.texts) + "</" + tag + ">")
			} else {
				el(pick(g.c, []string{"g", "title", "desc"}), nil, func() { g.w(pick(g.c, g.texts)) })
			}
			g.w(pick(g.c, g.texts))
		})
	case 12: // much text
		n := 20 + g.c.N(200)
		if g.o.Big && g.c.P(1, 8) {
			n = 2000 + g.c.N(3000)
		}
		el("desc", nil, func() {
			for ; n > 0; n-- {
				g.w(pick(g.c, g.texts))
			}
		})
	case 13: // definitions left open by their groups
		id := pick(g.c, defIDs)
		el("defs", nil, func() {
			el("g", func() { g.styles() }, func() {
				g.shapePlain(id)
				g.shapePlain("")
			})
		})
		g.defs = append(g.defs, id)
	case 14: // use inside masks
		el("mask", func() { g.attr("id", pick(g.c, maskIDs)) }, func() {
			g.useEl(false)
		})
	case 15: // numbers run together
		g.w("<" + ns + "path d='" + pick(g.c, []string{"M1-2-3 4.5.5L1e1.5", "m0 0-1-1-1 1z", "M1,1,2,2,3,3", "M.5.5.5.5", "M1 1e0L2E1 3", "M1 1\n\tL2 2"}) + "'/>")
	}
}

func (g *gen) shape(id string) {
	tag := pick(g.c, []string{"rect", "path", "circle", "ellipse", "line", "polyline", "polygon", "path", "path"})
	g.w("<" + g.ns + tag)
	if id != "" {
		g.attr("id", id)
	}
	switch tag {
	case "rect":
		if g.c.P(2, 3) {
			g.attr("x", g.len())
			g.attr("y", g.len())
		}
		g.attr("width", g.plen())
		g.attr("height", g.plen())
		if g.c.P(1, 4) {
			g.attr("rx", g.plen())
		}
		if g.c.P(1, 6) {
			g.attr("ry", g.plen())
		}
	case "circle":
		g.attr("cx", g.len())
		g.attr("cy", g.len())
		g.attr("r", g.plen())
	case "ellipse":
		g.attr("cx", g.len())
		g.attr("cy", g.len())
		g.attr("rx", g.plen())
		g.attr("ry", g.plen())
	case "line":
		g.attr("x1", g.len())
		g.attr("y1", g.len())
		g.attr("x2", g.len())
		g.attr("y2", g.len())
	case "polyline", "polygon":
		if !g.c.P(1, 12) {
			g.attr("points", g.points())
		}
	case "path":
		if !g.c.P(1, 20) {
			g.attr("d", g.pathData())
		}
	}
	g.styles()
	switch g.c.W(6, 2, 1) {
	case 0:
		g.w("/>")
	case 1:
		g.w("></" + g.ns + tag + ">")
	case 2:
		if g.o.Plain {
			g.w("/>")
		} else {
			g.w("><" + g.ns + "title>" + pick(g.c, g.texts) + "</" + g.ns + "title></" + g.ns + tag + ">")
		}
	}
}

func (g *gen) points() string {
	var b strings.Builder
	n := 3 + g.c.N(4)
	if g.o.Big && g.c.P(1, 60) {
		n = 2000 + g.c.N(4000)
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString(pick(g.c, []string{" ", "  ", ", ", "\n"}))
		}
		b.WriteString(g.num() + "," + g.num())
	}
	if g.o.Errors && g.c.P(1, 30) {
		b.WriteString(" 7")
	}
	return b.String()
}

func (g *gen) pathData() string {
	if g.c.P(1, 4) {
		return pick(g.c, pathPool)
	}
	if g.c.P(1, 16) {
		return pick(g.c, barePool)
	}
	var b strings.Builder
	sep := func() { b.WriteString(pick(g.c, []string{" ", ",", " , ", "  "})) }
	nums := func(k int) {
		for i := 0; i < k; i++ {
			if i > 0 {
				sep()
			}
			b.WriteString(g.num())
		}
	}
	switch g.c.W(12, 1, 1) { // a path may start with any command
	case 0:
		b.WriteString(pick(g.c, []string{"M", "m"}))
		nums(2)
	case 1:
		if g.c.P(1, 2) {
			b.WriteString(pick(g.c, []string{"T", "t"}))
			nums(2)
		} else {
			b.WriteString(pick(g.c, []string{"S", "s"}))
			nums(4)
		}
	}
	n := 1 + g.c.N(5)
	if g.o.Big && g.c.P(1, 60) {
		n = 1000 + g.c.N(2000)
	}
	for i := 0; i < n; i++ {
		if g.c.P(1, 4) {
			b.WriteByte(' ')
		}
		switch g.c.N(11) {
		case 0:
			b.WriteString(pick(g.c, []string{"L", "l"}))
			nums(2 * (1 + g.c.N(2)))
		case 1:
			b.WriteString(pick(g.c, []string{"H", "h", "V", "v"}))
			nums(1 + g.c.N(2))
		case 2:
			b.WriteString(pick(g.c, []string{"C", "c"}))
			nums(6)
		case 3:
			b.WriteString(pick(g.c, []string{"S", "s"}))
			nums(4)
		case 4:
			b.WriteString(pick(g.c, []string{"Q", "q"}))
			nums(4)
		case 5:
			b.WriteString(pick(g.c, []string{"T", "t"}))
			nums(2)
		case 6:
			b.WriteString(pick(g.c, []string{"A", "a"}))
			b.WriteString(g.pos() + " " + g.pos() + " " + pick(g.c, []string{"0", "30"}) + " " + pick(g.c, []string{"0", "1"}) + " " + pick(g.c, []string{"0", "1"}) + " ")
			nums(2)
		case 7:
			b.WriteString(pick(g.c, []string{"M", "m"}))
			nums(2)
		case 8:
			b.WriteString(pick(g.c, []string{"z", "Z"}))
			b.WriteString("m")
			nums(2)
		case 9:
			if g.o.Unsupported && g.c.P(1, 8) {
				b.WriteString(pick(g.c, []string{"R", "b", "é"}))
				nums(2)
			} else {
				b.WriteString("L")
				nums(2)
			}
		case 10:
			if g.o.Errors && g.c.P(1, 10) {
				b.WriteString(pick(g.c, []string{"L1", "C1 2 3", "z5", "M", "A1 1", "h"}))
			} else {
				b.WriteString("l")
				nums(2)
			}
		}
	}
	if g.c.P(1, 2) {
		b.WriteString("z")
	}
	return b.String()
}

func (g *gen) gradient() {
	id := pick(g.c, gradIDs)
	inDefs := g.c.P(1, 2)
	if inDefs {
		g.w("<" + g.ns + "defs>")
	}
	lin := g.c.P(1, 2)
	tag := "radialGradient"
	if lin {
		tag = "linearGradient"
	}
	g.w("<" + g.ns + tag)
	g.attr("id", id)
	units := g.c.N(3)
	if units == 1 {
		g.attr("gradientUnits", "userSpaceOnUse")
	} else if units == 2 {
		g.attr("gradientUnits", "objectBoundingBox")
	}
	v := func() string {
		if units == 1 {
			return strconv.Itoa(g.c.N(20))
		}
		return pick(g.c, []string{"0%", "50%", "100%", "0.25", "25%"})
	}
	if lin {
		for _, k := range []string{"x1", "y1", "x2", "y2"} {
			if g.c.P(1, 2) {
				g.attr(k, v())
			}
		}
	} else {
		for _, k := range []string{"cx", "cy", "fx", "fy"} {
			if g.c.P(1, 3) {
				g.attr(k, v())
			}
		}
		if g.c.P(1, 2) {
			if units == 1 {
				g.attr("r", strconv.Itoa(3+g.c.N(15)))
			} else {
				g.attr("r", pick(g.c, []string{"50%", "75%", "0.4"}))
			}
		}
	}
	if g.c.P(1, 4) {
		g.attr("gradientTransform", pick(g.c, transformPool))
	}
	if g.c.P(1, 3) {
		g.attr("spreadMethod", pick(g.c, []string{"pad", "reflect", "repeat"}))
	}
	g.w(">")
	n := g.c.N(4)
	if g.o.Render {
		n = 1 + g.c.N(4)
	}
	for i := 0; i < n; i++ {
		g.w("<" + g.ns + "stop")
		g.attr("offset", pick(g.c, []string{"0", "50%", "1", ".25", "100%", "0.75", "1.5", "130%", "-.5"}))
		switch g.c.N(4) {
		case 0:
			g.attr("stop-color", pick(g.c, colorPool))
		case 1:
			g.attr("style", "stop-color:"+pick(g.c, colorPool)+pick(g.c, []string{"", ";stop-opacity:.5"}))
		case 2: // inherits the current colour
		case 3:
			g.attr("stop-color", pick(g.c, colorPool))
			g.attr("stop-opacity", pick(g.c, []string{"1", ".5", "0"}))
		}
		g.w("/>")
	}
	g.w("</" + g.ns + tag + ">")
	if inDefs {
		g.w("</" + g.ns + "defs>")
	}
	g.grads = append(g.grads, id)
}

// unsup is the name of an unsupported element, often one of a few.
func (g *gen) unsup() string {
	if g.c.P(1, 2) {
		return unsupported[g.c.N(3)]
	}
	return pick(g.c, unsupported)
}

func (g *gen) maskEl() {
	id := pick(g.c, maskIDs)
	g.w("<" + g.ns + "mask")
	g.attr("id", id)
	if g.c.P(1, 4) {
		g.attr("x", g.len())
		g.attr("width", g.plen())
	}
	g.w(">")
	saved := g.masks
	if g.o.Render {
		g.masks = nil // masks of masks could refer to each other without end
	}
	for k := 1 + g.c.N(2); k > 0; k-- {
		g.shape("")
		if g.o.Unsupported && g.c.P(1, 6) {
			g.w("<" + g.unsup() + pick(g.c, []string{" x='1'", ""}) + "/>")
		}
	}
	g.masks = saved
	g.w("</" + g.ns + "mask>")
	if g.o.Render {
		if g.depth == 0 {
			g.masks = append(g.masks, id)
		}
		return
	}
	g.masks = append(g.masks, id)
}

func (g *gen) defsEl() {
	g.w("<" + g.ns + "defs>")
	var ids []string
	for k := 1 + g.c.N(2); k > 0; k-- {
		id := pick(g.c, defIDs)
		if g.c.P(1, 2) {
			g.shapePlain(id)
		} else {
			g.w("<" + g.ns + "g")
			g.attr("id", id)
			g.styles()
			g.w(">")
			for j := 1 + g.c.N(3); j > 0; j-- {
				if g.c.P(1, 8) && g.depth < 2 {
					g.w("<" + g.ns + "g>")
					g.shapePlain("")
					g.w("</" + g.ns + "g>")
				} else if g.o.Unsupported && g.c.P(1, 10) {
					g.w("<" + g.ns + g.unsup() + "/>")
				} else {
					g.shapePlain("")
				}
			}
			g.w("</" + g.ns + "g>")
		}
		ids = append(ids, id)
	}
	g.w("</" + g.ns + "defs>")
	g.defs = append(g.defs, ids...)
}

// shapePlain is a shape without child elements (those of a definition are
// part of the definition).
func (g *gen) shapePlain(id string) {
	p := g.o.Plain
	g.o.Plain = true
	g.shape(id)
	g.o.Plain = p
}

func (g *gen) useEl(inDef bool) {
	if len(g.defs) == 0 {
		if g.o.Errors && g.c.P(1, 10) {
			g.w(pick(g.c, []string{"<use href='#nope'/>", "<use/>", "<use href='other.svg#a'/>"}))
			return
		}
		g.shape("")
		return
	}
	g.w("<" + g.ns + "use")
	g.attr(pick(g.c, []string{"href", "xlink:href"}), "#"+pick(g.c, g.defs))
	if g.c.P(1, 2) {
		g.attr("x", strconv.Itoa(g.c.N(10)))
		g.attr("y", strconv.Itoa(g.c.N(10)))
	}
	g.styles()
	g.w("/>")
}

// chainDoc repeats or nests one thing very many times: what is done by
// recursion runs out of stack.
func chainDoc(c *Ch) []byte {
	n := pick(c, []int{500_000, 500_000, 500_000, 20_000})
	rep := func(s string) string { return strings.Repeat(s, n) }
	b := "<svg viewBox='0 0 20 20'>"
	switch c.N(12) {
	case 0, 1:
		open := pick(c, []string{"<g>", "<a>", "<text>", "<g fill='red'>", "<rect width='3' height='4'>", "<desc>", "<title>x", "<mask id='m'>", "<defs>", "<stop>", "<use href='#a'>"})
		b += rep(open)
		if c.P(1, 2) {
			b += rep("</" + open[1:1+strings.IndexAny(open[1:], " >")] + ">")
		}
	case 2:
		b += "<defs><g id='a'>" + rep(pick(c, []string{"<g>", "<rect width='3' height='4'>", "<a>"}))
	case 3:
		b += "<path d='M1 1" + rep(pick(c, []string{"h1", "L2 3", "m1 1", "q1 2 3 4", "z", "t1 1", "V3"})) + "'/>"
	case 4:
		b += "<path d='M1 1l" + rep(pick(c, []string{" 1 2", ".1.2", "-1-1", ",3,4"})) + "'/>"
	case 5:
		b += "<g transform='" + rep(pick(c, []string{"scale(1)", "rotate(1) ", "translate(1,1),", "("})) + "'/>"
	case 6:
		b += "<g style='" + rep(pick(c, []string{"a:b;", ";", "fill:red;", "stroke-width:1;", ":"})) + "'/>"
	case 7:
		b += "<polygon points='" + rep(pick(c, []string{"1,2 ", "1 2,", ","})) + "'/>"
	case 8:
		b += "<path stroke-dasharray='" + rep(pick(c, []string{"1 ", "1,", ",", "3%,"})) + "' d='M1 1h3'/>"
	case 9:
		b += "<linearGradient id='g'>" + rep("<stop offset='1'/>") + "</linearGradient><rect width='3' height='3' fill='url(#g)'/>"
	case 10:
		b += "<g fill='" + pick(c, []string{"#", "rgb(", "url(#", ""}) + rep(pick(c, []string{"f", "1,", "(", " "})) + "'/>"
	case 11:
		b += rep(pick(c, []string{"<!---->", "<?p?>", "<a/>", "<g/>", "&lt;", "<rect/>", "<title/>"}))
	}
	if c.P(3, 4) {
		b += "</svg>"
	}
	return []byte(b)
}

// useBomb is a document whose definitions use each other many times.
func useBomb(c *Ch) []byte {
	var b strings.Builder
	n, k := 2+c.N(30), 1+c.N(3)
	leaf := pick(c, []string{"<rect id='a0' width='3' height='4'/>", "<path id='a0' d='M1 1L2 2q3 4 5 6z'/>", "<g id='a0' fill='red'><circle r='3'/><line x1='3'/></g>", "<title id='a0'/>", "<g id='a0'/>",
		"<path id='a0' d='M1 1" + strings.Repeat("L2 3h4c1 2 3 4 5 6", 1+c.N(100)) + "'/>", "<text id='a0'/>"})
	b.WriteString("<svg viewBox='0 0 20 20'>")
	level := func(i int) {
		if i == 0 {
			b.WriteString(leaf)
			return
		}
		fmt.Fprintf(&b, "<g id='a%d'%s>", i, pick(c, []string{"", " fill='red'", " transform='scale(1)'"}))
		for j := k; j > 0; j-- {
			at := i - 1
			if c.P(1, 6) {
				at = c.N(i)
			}
			fmt.Fprintf(&b, "<use href='#a%d'%s/>", at, pick(c, []string{"", "", " x='1'"}))
		}
		b.WriteString("</g>")
	}
	up := c.P(1, 2)
	b.WriteString("<defs>")
	for i := 0; i < n; i++ {
		if up {
			level(i)
		} else {
			level(n - 1 - i)
		}
	}
	b.WriteString("</defs>")
	for j := 1 + c.N(3); j > 0; j-- {
		fmt.Fprintf(&b, "<use href='#a%d'/>", n-1)
	}
	b.WriteString("</svg>")
	return []byte(b.String())
}

// maskBomb is a document whose masks are masked by each other many times.
func maskBomb(c *Ch) []byte {
	var b strings.Builder
	n, k := 2+c.N(20), 1+c.N(3)
	round := c.P(1, 3) // masks refer to any other
	b.WriteString("<svg viewBox='0 0 20 20'>")
	for i := 0; i < n; i++ {
		fmt.Fprintf(&b, "<mask id='a%d'>", i)
		for j := k; j > 0; j-- {
			at := i - 1
			if round || c.P(1, 6) {
				at = c.N(n)
			}
			fmt.Fprintf(&b, "<rect width='9' height='9' mask='url(#a%d)'/>", at)
		}
		b.WriteString("</mask>")
	}
	for j := 1 + c.N(3); j > 0; j-- {
		fmt.Fprintf(&b, "<rect width='9' height='9' mask='url(#a%d)'/>", n-1)
	}
	b.WriteString("</svg>")
	return []byte(b.String())
}
