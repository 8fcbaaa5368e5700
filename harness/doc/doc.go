// Package doc is the harness' own document model: generators build these trees,
// the XML writer spells them for the code under test, and the reference renderer
// draws them.
package doc

import (
	"fmt"
	"strconv"
	"strings"
)

type KV struct{ K, V string }

type Node struct {
	Kind    string // text box p br lf setx sety font image newpage table tr td grid gr part #text raw
	Style   []KV
	Classes []string
	Text    string // #text, p, image, raw; the areas of a gr
	Area    string // of a part
	Num     float64
	NumStr  string // overrides Num when set
	Repeat  int
	HasRep  bool
	ColSpan int
	RowSpan int
	Kids    []*Node
}

type Class struct {
	Name, Sel string
	Style     []KV
}

type Doc struct {
	Orientation, Format      string
	Left, Top, Right, Bottom float64
	Author, Creator, Subject string
	Tight                    bool // no white space between elements
	Classes                  []Class
	Header, Footer, Body     []*Node
}

func F(f float64) string { return strconv.FormatFloat(f, 'f', -1, 64) }

func T(s string) *Node                   { return &Node{Kind: "#text", Text: s} }
func P(s string, st ...KV) *Node         { return &Node{Kind: "p", Text: s, Style: st} }
func Br() *Node                          { return &Node{Kind: "br"} }
func NewPage() *Node                     { return &Node{Kind: "newpage"} }
func LF(n float64) *Node                 { return &Node{Kind: "lf", Num: n} }
func SetX(n float64) *Node               { return &Node{Kind: "setx", Num: n} }
func SetY(n float64) *Node               { return &Node{Kind: "sety", Num: n} }
func Font(st ...KV) *Node                { return &Node{Kind: "font", Style: st} }
func Image(src string, st ...KV) *Node   { return &Node{Kind: "image", Text: src, Style: st} }
func Text(st []KV, kids ...*Node) *Node  { return &Node{Kind: "text", Style: st, Kids: kids} }
func Box(st []KV, kids ...*Node) *Node   { return &Node{Kind: "box", Style: st, Kids: kids} }
func Table(st []KV, rows ...*Node) *Node { return &Node{Kind: "table", Style: st, Kids: rows} }
func Tr(st []KV, cells ...*Node) *Node   { return &Node{Kind: "tr", Style: st, Kids: cells} }
func Td(st []KV, kids ...*Node) *Node    { return &Node{Kind: "td", Style: st, Kids: kids} }
func S(kv ...string) []KV {
	var r []KV
	for i := 0; i+1 < len(kv); i += 2 {
		r = append(r, KV{kv[i], kv[i+1]})
	}
	return r
}

func Walk(ns []*Node, f func(*Node)) {
	for _, n := range ns {
		f(n)
		Walk(n.Kids, f)
	}
}

func (d *Doc) Walk(f func(*Node)) {
	Walk(d.Header, f)
	Walk(d.Footer, f)
	Walk(d.Body, f)
}

func Clone(ns []*Node) []*Node {
	var r []*Node
	for _, n := range ns {
		c := *n
		c.Style = append([]KV(nil), n.Style...)
		c.Classes = append([]string(nil), n.Classes...)
		c.Kids = Clone(n.Kids)
		r = append(r, &c)
	}
	return r
}

func (d *Doc) Clone() *Doc {
	c := *d
	c.Classes = append([]Class(nil), d.Classes...)
	c.Header, c.Footer, c.Body = Clone(d.Header), Clone(d.Footer), Clone(d.Body)
	return &c
}

func Esc(s string) string {
	var b strings.Builder
	for _, r := range s {
		switch r {
		case '<':
			b.WriteString("&lt;")
		case '>':
			b.WriteString("&gt;")
		case '&':
			b.WriteString("&amp;")
		case '"':
			b.WriteString("&quot;")
		case '\r':
			b.WriteString("&#xD;")
		default:
			b.WriteRune(r)
		}
	}
	return b.String()
}

func StyleString(st []KV) string {
	var p []string
	for _, kv := range st {
		p = append(p, kv.K+": "+kv.V)
	}
	return strings.Join(p, "; ")
}

// Speller decides between equivalent spellings of the same document.
type Speller interface{ Intn(n int) int }

type plain struct{}

func (plain) Intn(n int) int { return 0 }

// XML writes the document in one plain spelling.
func (d *Doc) XML() string { return d.Spell(plain{}) }

// Spell writes the document; sp picks among equivalent spellings (0 is always
// the plain one).
func (d *Doc) Spell(sp Speller) string {
	w := &writer{sp: sp, tight: d.Tight}
	if sp.Intn(3) == 1 {
		w.s(`<?xml version="1.0" encoding="UTF-8"?>` + "\n")
	}
	w.s("<document>\n")
	meta := []string{"<author>" + Esc(d.Author) + "</author>", "<creator>" + Esc(d.Creator) + "</creator>", "<subject>" + Esc(d.Subject) + "</subject>"}
	parts := []string{
		"<orientation>" + Esc(d.Orientation) + "</orientation>",
		"<format>" + Esc(d.Format) + "</format>",
		"<margins><left>" + F(d.Left) + "</left><top>" + F(d.Top) + "</top><right>" + F(d.Right) + "</right><bottom>" + F(d.Bottom) + "</bottom></margins>",
	}
	if sp.Intn(2) == 1 {
		parts[0], parts[2] = parts[2], parts[0]
		meta[1], meta[2] = meta[2], meta[1]
	}
	nl := ""
	if sp.Intn(3) == 1 {
		nl = "\n  "
	}
	secs := []func(){
		func() { w.s("<meta>" + nl + strings.Join(meta, nl) + nl + "</meta>\n") },
		func() { w.s("<page>" + nl + strings.Join(parts, nl) + nl + "</page>\n") },
		func() { w.sheet(d.Classes) },
		func() { w.section("header", d.Header) },
		func() { w.section("footer", d.Footer) },
		func() { w.section("body", d.Body) },
	}
	if sp.Intn(2) == 1 {
		for i := len(secs) - 1; i > 0; i-- {
			j := sp.Intn(i + 1)
			secs[i], secs[j] = secs[j], secs[i]
		}
	}
	for _, s := range secs {
		s()
		if sp.Intn(10) == 1 {
			w.s("<!-- between -->\n")
		}
	}
	w.s("</document>\n")
	return w.b.String()
}

func (w *writer) sheet(cs []Class) {
	var t strings.Builder
	for _, c := range cs {
		n := c.Name
		if c.Sel != "" {
			n += ":" + c.Sel
		}
		open, sep, end := "{\n", ";\n", ";\n}\n"
		switch w.sp.Intn(3) {
		case 1:
			open, sep, end = " {", "; ", "}"
		case 2:
			open, sep, end = "{\r\n\t", ";\n\n;", "; ;}\n\n"
		}
		var p []string
		for _, kv := range w.order(c.Style) {
			p = append(p, w.kv(kv))
		}
		if len(p) == 0 {
			end = strings.TrimLeft(end, ";")
		}
		t.WriteString(n + open + strings.Join(p, sep) + end)
	}
	if w.sp.Intn(4) == 1 {
		w.s("<style><![CDATA[" + t.String() + "]]></style>\n")
		return
	}
	w.s("<style>\n" + Esc(t.String()) + "</style>\n")
}

// order permutes declarations of different attributes.
func (w *writer) order(st []KV) []KV {
	if w.sp.Intn(2) == 0 {
		return st
	}
	seen := map[string]bool{}
	for _, kv := range st {
		if seen[kv.K] {
			return st
		}
		seen[kv.K] = true
	}
	out := append([]KV(nil), st...)
	for i := len(out) - 1; i > 0; i-- {
		j := w.sp.Intn(i + 1)
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// indent is white space that means nothing.
func (w *writer) indent() {
	switch w.sp.Intn(6) {
	case 1:
		w.s("\n")
	case 2:
		w.s("\n\t\t")
	case 3:
		w.s("   ")
	}
}

type writer struct {
	b  strings.Builder
	sp Speller

	tight bool
}

func (w *writer) s(s string) { w.b.WriteString(s) }

func (w *writer) kv(kv KV) string {
	switch w.sp.Intn(4) {
	case 1:
		return kv.K + ":" + kv.V
	case 2:
		return "  " + kv.K + "\t:  " + kv.V + " "
	case 3:
		return "\n" + kv.K + ":\t" + kv.V
	}
	return kv.K + ": " + kv.V
}

func (w *writer) section(name string, ns []*Node) {
	if len(ns) == 0 && w.sp.Intn(2) == 1 {
		w.s("<" + name + "/>\n")
		return
	}
	w.s("<" + name + ">")
	if !w.tight {
		w.s("\n")
	}
	for _, n := range ns {
		w.node(n)
		if (w.sp.Intn(3) == 1) == w.tight {
			w.s("\n")
		}
		if w.sp.Intn(12) == 1 {
			w.s("<!-- c: <box> & -->")
		}
	}
	w.s("</" + name + ">\n")
}

func (w *writer) chars(s string) {
	switch w.sp.Intn(6) {
	case 1:
		if !strings.Contains(s, "]]>") && !strings.Contains(s, "\r") && s != "" {
			w.s("<![CDATA[" + s + "]]>")
			return
		}
	case 2:
		// character references for some characters
		for _, r := range s {
			if r != ' ' && r > 0x20 && w.sp.Intn(5) == 1 {
				w.s(fmt.Sprintf("&#%d;", r))
			} else {
				w.s(Esc(string(r)))
			}
		}
		return
	}
	w.s(Esc(s))
}

func (w *writer) attr(k, v string) {
	if w.sp.Intn(3) == 1 && !strings.ContainsAny(v, "'") {
		w.s(" " + k + " = '" + Esc(v) + "'")
		return
	}
	if w.sp.Intn(5) == 1 {
		w.s("\n ")
		var b strings.Builder
		for _, r := range v {
			if r > ' ' && w.sp.Intn(4) == 1 {
				fmt.Fprintf(&b, "&#x%x;", r)
			} else {
				b.WriteString(Esc(string(r)))
			}
		}
		v = b.String()
	} else {
		v = Esc(v)
	}
	w.s(" " + k + `="` + v + `"`)
}

func (w *writer) node(n *Node) {
	switch n.Kind {
	case "#text":
		w.chars(n.Text)
		return
	case "raw":
		w.s(n.Text)
		return
	}
	w.s("<" + n.Kind)
	var attrs []func()
	if len(n.Style) > 0 {
		attrs = append(attrs, func() {
			var p []string
			for _, kv := range w.order(n.Style) {
				p = append(p, w.kv(kv))
			}
			v := strings.Join(p, ";")
			if w.sp.Intn(2) == 1 {
				v += ";"
			}
			w.attr("style", v)
		})
	}
	if len(n.Classes) > 0 {
		attrs = append(attrs, func() {
			sep := " "
			if w.sp.Intn(3) == 1 {
				sep = []string{"\t  ", "\t", "\n", "\r\n", " \n\t"}[w.sp.Intn(5)]
			}
			w.attr("class", strings.Join(n.Classes, sep))
		})
	}
	num := func() string {
		if n.NumStr != "" {
			return n.NumStr
		}
		return F(n.Num)
	}
	switch n.Kind {
	case "lf":
		attrs = append(attrs, func() { w.attr("lines", num()) })
	case "setx":
		attrs = append(attrs, func() { w.attr("x", num()) })
	case "sety":
		attrs = append(attrs, func() { w.attr("y", num()) })
	case "table":
		if n.Repeat != 0 || n.HasRep {
			attrs = append(attrs, func() { w.attr("repeatheader", strconv.Itoa(n.Repeat)) })
		}
	case "part":
		attrs = append(attrs, func() { w.attr("area", n.Area) })
	case "td":
		if n.ColSpan != 0 {
			attrs = append(attrs, func() { w.attr("colspan", strconv.Itoa(n.ColSpan)) })
		}
		if n.RowSpan != 0 {
			attrs = append(attrs, func() { w.attr("rowspan", strconv.Itoa(n.RowSpan)) })
		}
	}
	if len(attrs) > 1 && w.sp.Intn(2) == 1 {
		attrs[0], attrs[len(attrs)-1] = attrs[len(attrs)-1], attrs[0]
	}
	for _, a := range attrs {
		a()
	}
	if len(n.Kids) == 0 && n.Text == "" && w.sp.Intn(3) != 1 {
		w.s("/>")
		return
	}
	w.s(">")
	if n.Kind == "gr" {
		w.s(Esc(n.Text))
	} else if n.Text != "" {
		w.chars(n.Text)
	}
	if n.Kind == "grid" {
		for _, part := range []struct{ wrap, kind string }{{"rows", "gr"}, {"parts", "part"}} {
			w.s("<" + part.wrap + ">\n")
			for _, k := range n.Kids {
				if k.Kind == part.kind {
					w.node(k)
					w.s("\n")
				}
			}
			w.s("</" + part.wrap + ">\n")
		}
		w.s("</grid>")
		return
	}
	mixed := n.Kind == "text" || n.Kind == "box" || n.Kind == "td" || n.Kind == "part"
	for i, k := range n.Kids {
		if mixed && i == 0 {
			w.indent()
		}
		w.node(k)
		if mixed {
			w.indent()
		}
		if n.Kind == "table" || n.Kind == "tr" {
			if (w.sp.Intn(2) == 1) == w.tight {
				w.s("\n")
			}
			if w.sp.Intn(15) == 1 {
				w.s("<!-- row -->")
			}
		}
	}
	w.s("</" + n.Kind)
	if w.sp.Intn(10) == 1 {
		w.s(" ")
	}
	w.s(">")
}
