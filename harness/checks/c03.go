package checks

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"

	"github.com/mazzegi/xpdf/style"
	"github.com/mazzegi/xpdf/xdoc"

	"verif/harness/doc"
	"verif/harness/ref"
	"verif/harness/run"
	"verif/harness/sut"
)

func runC03(e *run.Env, c *run.Case) {
	if c.Idx%2 == 0 {
		cascadeAPI(c)
	} else {
		cascadeDrawn(e, c)
	}
}

var selectors = []string{"first-row", "last-row", "first-cell", "last-cell"}

// anyDecl is one declaration of any attribute, drawable when draw is set.
func (g *gen) anyDecl(draw bool) doc.KV {
	for {
		k := g.of("font-family", "font-style", "font-weight", "font-decoration", "text-color", "text-color", "color", "background-color", "line-width", "border", "padding", "h-align", "v-align", "line-spacing", "offset-x", "offset-y", "width", "height", "font-point-size", "margin", "column-width", "bogus-key", "Font-Family")
		switch k {
		case "font-family":
			return kv(k, g.family())
		case "font-style":
			return kv(k, g.of("normal", "italic"))
		case "font-weight":
			return kv(k, g.of("normal", "bold"))
		case "font-decoration":
			return kv(k, g.of("normal", "underline"))
		case "text-color", "color", "background-color":
			return kv(k, g.color())
		case "line-width":
			return kv(k, g.num(0.1, 0.8, 2))
		case "border":
			return kv(k, g.border())
		case "padding":
			return kv(k, g.pad(3))
		case "margin":
			return kv(k, g.pad(3))
		case "h-align":
			return kv(k, g.of("left", "center", "right", "block"))
		case "v-align":
			return kv(k, g.of("top", "middle", "bottom"))
		case "line-spacing":
			return kv(k, g.of("1", "1.25", "1.5", "2"))
		case "bogus-key", "Font-Family":
			return kv(k, "whatever 1")
		}
		if draw {
			continue
		}
		switch k {
		case "font-point-size":
			return kv(k, g.num(5, 30, 1))
		default:
			return kv(k, g.num(-20, 100, 2))
		}
	}
}

func (g *gen) sheet(draw bool, n int) (cs []doc.Class, names []string) {
	pool := []string{"a", "b", "cc", "row_x", "d-1", "E", "a.b", "foot"}
	for i := 0; i < n; i++ {
		name := g.of(pool...)
		mk := func() []doc.KV {
			var st []doc.KV
			seen := map[string]bool{}
			for k := g.rng(0, 4); k > 0; k-- {
				d := g.anyDecl(draw)
				if seen[d.K] && !g.p(15) {
					continue
				}
				seen[d.K] = true
				st = append(st, d)
			}
			return st
		}
		cs = append(cs, doc.Class{Name: name, Style: mk()})
		names = append(names, name)
		for _, s := range selectors {
			if g.p(30) {
				cs = append(cs, doc.Class{Name: name, Sel: s, Style: mk()})
			}
		}
		if g.p(10) {
			cs = append(cs, doc.Class{Name: name, Sel: g.of("unused", "first", "last", "hover", "odd", "even", "row", "cell"), Style: mk()})
		}
	}
	return
}

func (g *gen) useClasses(names []string) []string {
	var out []string
	k := g.r.Intn(4)
	if g.p(10) {
		k = g.rng(4, 9)
	}
	for ; k > 0; k-- {
		if g.p(8) {
			out = append(out, "undefined")
			continue
		}
		out = append(out, names[g.r.Intn(len(names))])
	}
	return out
}

func toSUT(s ref.Styles) style.Styles {
	var o style.Styles
	o.Font = style.Font{Family: s.Family, PointSize: s.Size, Style: style.FontStyle(s.FStyle), Weight: style.FontWeight(s.Weight), Decoration: style.FontDecoration(s.Decoration)}
	o.Box.Border = style.Border{Left: s.BL, Top: s.BT, Right: s.BR, Bottom: s.BB}
	o.Box.Padding = style.Padding{Left: s.PL, Top: s.PT, Right: s.PR, Bottom: s.PB}
	o.Box.Margin = style.Margin{Left: s.ML, Top: s.MT, Right: s.MR, Bottom: s.MB}
	o.Dimension = style.Dimension{Width: s.Width, Height: s.Height, LineSpacing: s.LineSpacing, OffsetX: s.OffX, OffsetY: s.OffY}
	o.Table.ColumnWidth = s.ColumnWidth
	o.Align = style.Align{HAlign: style.HAlign(s.HAlign), VAlign: style.VAlign(s.VAlign)}
	rgb := func(c ref.RGB) style.RGB { return style.RGB{R: c.R, G: c.G, B: c.B} }
	o.Color = style.Color{Foreground: rgb(s.Color), Text: rgb(s.Text), Background: rgb(s.Bkg)}
	o.Draw.LineWidth = s.LineWidth
	return o
}

func diffStyles(a, b style.Styles) []string {
	var out []string
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	for i := 0; i < va.NumField(); i++ {
		x, y := va.Field(i), vb.Field(i)
		for j := 0; j < x.NumField(); j++ {
			if !reflect.DeepEqual(x.Field(j).Interface(), y.Field(j).Interface()) {
				out = append(out, fmt.Sprintf("%s.%s got %v, expected %v", x.Type(), x.Type().Field(j).Name, x.Field(j).Interface(), y.Field(j).Interface()))
			}
		}
	}
	return out
}

func (g *gen) startStyles() ref.Styles {
	s := ref.Default()
	for k := g.r.Intn(8); k > 0; k-- {
		s.Apply(g.anyDecl(false))
	}
	return s
}

func sheetText(g *gen, cs []doc.Class) string {
	d := &doc.Doc{Classes: cs}
	x := d.Spell(g.r)
	i, j := strings.Index(x, "<style>"), strings.Index(x, "</style>")
	t := x[i+7 : j]
	if strings.HasPrefix(t, "<![CDATA[") {
		return strings.TrimSuffix(strings.TrimPrefix(t, "<![CDATA["), "]]>")
	}
	return strings.NewReplacer("&lt;", "<", "&gt;", ">", "&quot;", `"`, "&#xD;", "\r", "&amp;", "&").Replace(t)
}

func cascadeAPI(c *run.Case) {
	g := newGen(c.R)
	cs, names := g.sheet(false, g.rng(1, 6))
	txt := sheetText(g, cs)
	c.Smp = compact(txt)
	c.Signature(txt)
	fail := func(f string, a ...interface{}) {
		c.Attach("style sheet", txt)
		c.Fail(f, a...)
	}
	p := sut.Protect(func() {
		got, err := style.DecodeClasses(bytes.NewBufferString(txt))
		if err != nil {
			fail("a valid style sheet was rejected: %v", err)
			return
		}
		for k := 0; k < 6; k++ {
			use := g.useClasses(names)
			sel := g.of("", "first-row", "last-row", "first-cell", "last-cell", "other")
			in := g.startStyles()
			want := toSUT(ref.Cascade(in, cs, sel, &doc.Node{Classes: use}))
			have := toSUT(in)
			if sel == "" && g.p(70) {
				got.Mutate(&have, use...)
			} else {
				got.MutateWithSelector(sel, &have, use...)
			}
			for _, d := range diffStyles(have, want) {
				fail("classes %v selector %q: %s", use, sel, d)
			}
			c.Count("class uses", len(use))
			if sel != "" {
				c.Count("selector uses", 1)
			}
			c.Count("attribute comparisons", 30)
		}
		// through the document: Styled elements
		var st []doc.KV
		for k := g.rng(0, 4); k > 0; k-- {
			st = append(st, g.anyDecl(false))
		}
		n := doc.Text(st, doc.T("x"))
		n.Classes = g.useClasses(names)
		d := &doc.Doc{Orientation: "portrait", Format: "a4", Classes: cs, Body: []*doc.Node{n}}
		x := d.Spell(g.r)
		dd, err := xdoc.Load(strings.NewReader(x))
		if err != nil {
			fail("a valid document was rejected: %v\n%s", err, x)
			return
		}
		for _, is := range dd.Body.ISS {
			if t, ok := is.(*xdoc.Text); ok {
				for k := 0; k < 3; k++ {
					in := g.startStyles()
					sel := g.of("", "first-row", "last-cell")
					want := toSUT(ref.Cascade(in, cs, sel, n))
					have := toSUT(in)
					var out style.Styles
					if sel == "" {
						out = t.MutatedStyles(dd.StyleClasses(), have)
					} else {
						out = t.MutatedStylesWithSelector(sel, dd.StyleClasses(), have)
					}
					for _, df := range diffStyles(out, want) {
						fail("element classes %v style %v selector %q: %s\n%s", n.Classes, n.Style, sel, df, x)
					}
					for _, df := range diffStyles(have, toSUT(in)) {
						fail("the inherited styles were changed: %s", df)
					}
					c.Count("attribute comparisons", 30)
				}
			}
		}
	})
	if p != "" {
		fail("panic: %s", p)
	}
}

func cascadeDrawn(e *run.Env, c *run.Case) {
	g := newGen(c.R)
	d := g.newDoc("a4", "a3")
	cs, names := g.sheet(true, g.rng(2, 6))
	// classes and declarations of sizes, where they leave room for the content
	dimDecl := func() doc.KV {
		switch g.r.Intn(6) {
		case 0:
			return kv("height", g.of("-1", "0", "60", "75.5"))
		case 1:
			return kv("font-point-size", g.of("6", "8.5", "10", "12", "13"))
		case 2:
			return kv("width", g.of("-1", "150", "160.5", "1000"))
		}
		return kv("column-width", g.of("-1", "0", "25", "31.5", "36"))
	}
	dims := g.p(50)
	if dims {
		for _, name := range []string{"dim1", "dim2"} {
			for _, sel := range append([]string{""}, selectors...) {
				if sel == "" || g.p(40) {
					cl := doc.Class{Name: name, Sel: sel}
					for k := g.rng(0, 2); k > 0; k-- {
						cl.Style = append(cl.Style, dimDecl())
					}
					cs = append(cs, cl)
				}
			}
		}
	}
	sized := func(n *doc.Node) {
		if !dims {
			return
		}
		if g.p(30) {
			n.Classes = append(n.Classes, g.of("dim1", "dim2"))
		}
		for k := g.r.Intn(3); k > 0; k-- {
			n.Style = append(n.Style, dimDecl())
		}
	}
	d.Classes = cs
	uses := 0
	sty := func(n *doc.Node) {
		if g.p(60) {
			n.Classes = g.useClasses(names)
			uses += len(n.Classes)
		}
		for k := g.r.Intn(4); k > 0; k-- {
			if g.p(60) {
				continue
			}
			n.Style = append(n.Style, g.anyDecl(true))
		}
	}
	inl := func(n *doc.Node, w int) {
		n.Kids = g.inline(w, true, true)
		for _, k := range n.Kids {
			if k.Kind == "p" {
				k.Style = nil
				sty(k)
			}
		}
	}
	for i := g.rng(2, 5); i > 0; i-- {
		var n *doc.Node
		switch g.r.Intn(6) {
		case 0:
			n = doc.Font()
			sty(n)
			sized(n)
			// no blocks in the font itself
		case 1:
			n = doc.Box(nil)
			sty(n)
			sized(n)
			inl(n, g.rng(1, 15))
		case 2, 3:
			n = doc.Table(nil)
			sty(n)
			sized(n)
			rows, cols := g.rng(1, 4), g.rng(1, 4)
			for r := 0; r < rows; r++ {
				tr := doc.Tr(nil)
				sty(tr)
				sized(tr)
				for k := 0; k < cols; k++ {
					td := doc.Td(nil)
					sty(td)
					sized(td)
					inl(td, g.rng(1, 3))
					tr.Kids = append(tr.Kids, td)
				}
				n.Kids = append(n.Kids, tr)
			}
			c.Count("selector uses", rows+cols)
		default:
			n = doc.Text(nil)
			sty(n)
			sized(n)
			inl(n, g.rng(1, 20))
		}
		d.Body = append(d.Body, n, doc.LF(1))
	}
	s := renderSpelled(e, c, d, d.Spell(g.r), "")
	if s == nil {
		return
	}
	c.Count("class uses", uses)
	c.Triv = uses < 3
	compareAll(c, s)
	s.done(c)
}
