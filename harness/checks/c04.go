package checks

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"
	"testing/iotest"

	"github.com/mazzegi/xpdf/style"
	"github.com/mazzegi/xpdf/xdoc"

	"verif/harness/doc"
	"verif/harness/ref"
	"verif/harness/run"
	"verif/harness/sut"
)

func init() {
	register(&run.Prop{
		ID: "C04", Quick: 500000, Thorough: 6000000, Run: runC04,
		Rule:      "Each case decodes a random list of declarations (every attribute; valid, malformed, unknown, repeated; random white space) directly, as a class and as inline style of a document, applies it to random starting styles and compares all 30 attributes with the model; malformed lists and sheets must be rejected by all three routes. Non-trivial: at least one declaration.",
		Technique: "Runtime oracle: attribute-wise comparison of decoded mutations with a model of the declaration language, plus rejection monitor for injected malformations.",
		Min:       map[string]int{"accepted lists": 8000, "rejected lists": 5000, "attribute comparisons": 200000, "rejected sheets": 1000, "appended": 6000},
	})
}

type attrType int

const (
	aStr attrType = iota
	aNum
	aInt4
	aNum4
	aRGB
)

var attrs = []struct {
	k string
	t attrType
}{
	{"font-family", aStr}, {"font-point-size", aNum}, {"font-style", aStr}, {"font-weight", aStr}, {"font-decoration", aStr},
	{"border", aInt4}, {"padding", aNum4}, {"margin", aNum4}, {"width", aNum}, {"height", aNum}, {"line-spacing", aNum},
	{"offset-x", aNum}, {"offset-y", aNum}, {"column-width", aNum}, {"h-align", aStr}, {"v-align", aStr},
	{"color", aRGB}, {"text-color", aRGB}, {"background-color", aRGB}, {"line-width", aNum},
}

func (g *gen) numText() string {
	switch g.r.Intn(8) {
	case 0:
		return fmt.Sprint(g.r.Intn(400))
	case 1:
		return "-" + g.num(0, 50, 3)
	case 2:
		return fmt.Sprintf(".%d", g.r.Intn(100))
	case 3:
		return fmt.Sprintf("%d.", g.r.Intn(100))
	case 4:
		return fmt.Sprintf("%de%d", g.r.Intn(9)+1, g.r.Intn(4)-1)
	case 5:
		return "0" + fmt.Sprint(g.r.Intn(40))
	case 6:
		return "+" + g.num(0, 5, 1)
	}
	return g.num(0, 300, g.r.Intn(5))
}

func (g *gen) valid(t attrType) string {
	switch t {
	case aNum:
		return g.numText()
	case aInt4, aNum4:
		var p []string
		for i := 0; i < 4; i++ {
			if t == aInt4 {
				n := g.r.Intn(4)
				if g.p(15) {
					n = g.r.Intn(1000)
				}
				p = append(p, fmt.Sprint(n))
			} else {
				p = append(p, g.num(0, 20, g.r.Intn(3)))
			}
			if g.p(8) {
				p[i] = "-" + p[i]
			}
		}
		return strings.Join(p, ",")
	case aRGB:
		s := fmt.Sprintf("%06x", g.r.Intn(1<<24))
		if g.p(30) {
			s = strings.ToUpper(s)
		}
		if g.p(60) {
			s = "#" + s
		}
		return s
	}
	return g.of("Arial", "bold", "italic", "left", "block", "Some Font", "dejavu-mono", "größe", "normal", "top", "a,b")
}

func (g *gen) invalid(t attrType) string {
	switch t {
	case aNum:
		return g.of("abc", "1,5", "12px", "1 2", "--1", "1.2.3", "", "4%", "#12", "one", "1..2", "e5", "5mm", "5 mm", "5pt", "5em", "5cm", "5%", "1.5in", "5f", "5m", "5.0.", "+-1", "- 1", "1e", "0b1", "0o7", "\"5\"", "5d", "1/2", "(5)")
	case aInt4:
		return g.of("1,2,3", "a,b,c,d", "", "1 2 3 4", ",,,", "1,,1,1", "x1,1,1,1", "1.5,1,1,1", "1,1,1,", "1,1,1,x", "true", "1,1", "1", "1,1,1,1,1,1", "1mm,1,1,1", "1,1,1,1px")
	case aNum4:
		return g.of("1,2,3", "a,b,c,d", "", "1 2 3 4", ",,,", "1,,1,1", "x1,1,1,1", "1,1,1,", "1,1,1,x", "2", "1.5,2.5", "1mm,1,1,1", "1,1,1,1px", "1,1,1,5%")
	case aRGB:
		return g.of("", "#", "#12345", "12345", "#1234567", "1234567", "#12345g", "zzzzzz", "##12345", "##112233", "###445566", "#112233#", "# 112233", "11 22 33", "112233h", "\"112233\"", "red", "#fff", "fff", "-12345", "#-12345", "+12345", "rgb(1,2,3)", "0x1234", "12 456", "#12345é")
	}
	return ""
}

type decl struct {
	kv   doc.KV
	bad  bool
	text string
}

func (g *gen) declText(k, v string) string {
	ws := func() string { return g.of("", "", " ", "  ", "\t", "\n", "\r\n ") }
	return ws() + k + ws() + ":" + ws() + v + ws()
}

func runC04(e *run.Env, c *run.Case) {
	g := newGen(c.R)
	if c.Idx%5 == 4 {
		badSheets(c, g)
		return
	}
	wantBad := g.p(40)
	var ds []decl
	k := g.rng(1, 7)
	if g.p(5) {
		k = g.rng(20, 90)
		c.Count("long lists", 1)
	}
	for ; k > 0; k-- {
		if g.p(12) {
			key := g.of("bogus", "Color", "text_color", "font", "paddings", "font-size", "x", "COLOR", "border-left", "Font", "Family", "PointSize")
			ds = append(ds, decl{kv: kv(key, "zz"), text: g.declText(key, "zz 1,2")})
			continue
		}
		a := attrs[g.r.Intn(len(attrs))]
		v := g.valid(a.t)
		ds = append(ds, decl{kv: kv(a.k, v), text: g.declText(a.k, v)})
	}
	if wantBad {
		i := g.r.Intn(len(ds) + 1)
		var b decl
		switch g.r.Intn(4) {
		case 0:
			t := g.of("w", "5", "#", "é", "width", "color #112233", "bold", "width=3", "x:y:z", "width:3:4", "a::b", "text-color:#112233:1")
			b = decl{bad: true, text: t}
		default:
			a := attrs[g.r.Intn(len(attrs))]
			for a.t == aStr {
				a = attrs[g.r.Intn(len(attrs))]
			}
			// the last declaration of an attribute decides; keep only the bad one
			var keep []decl
			for _, d := range ds {
				if d.kv.K != a.k {
					keep = append(keep, d)
				}
			}
			ds = keep
			i = g.r.Intn(len(ds) + 1)
			b = decl{bad: true, text: g.declText(a.k, g.invalid(a.t))}
		}
		ds = append(ds[:i:i], append([]decl{b}, ds[i:]...)...)
	}
	var parts []string
	for _, d := range ds {
		parts = append(parts, d.text)
		if g.p(10) {
			parts = append(parts, g.of("", " ", "\n"))
		}
	}
	txt := strings.Join(parts, ";")
	if g.p(50) {
		txt += ";"
	}
	c.Smp = txt
	c.Signature(txt)
	c.Triv = strings.TrimSpace(txt) == ""
	fail := func(f string, a ...interface{}) {
		c.Attach("declarations", txt)
		c.Fail(f, a...)
	}
	p := sut.Protect(func() {
		rd := bytes.NewReader([]byte(txt))
		m, err := style.DecodeMutator(rd)
		if g.p(20) {
			m, err = style.DecodeMutator(iotest.OneByteReader(strings.NewReader(txt)))
		}
		cls, cerr := style.DecodeClasses(strings.NewReader("k {" + txt + "}"))
		x := `<document><page><orientation>portrait</orientation><format>a4</format></page><body><text style="` + doc.Esc(txt) + `">t</text></body></document>`
		x = strings.NewReplacer("\n", "&#10;", "\t", "&#9;").Replace(x)
		xd, xerr := xdoc.Load(strings.NewReader(x))
		if wantBad {
			c.Count("rejected lists", 1)
			if err == nil {
				fail("a malformed declaration list was accepted: %q", txt)
			}
			if cerr == nil {
				fail("a class with a malformed declaration list was accepted: %q", txt)
			}
			if xerr == nil {
				fail("a document with a malformed inline style was accepted: %q", txt)
			}
			return
		}
		if err != nil || cerr != nil || xerr != nil {
			fail("a valid declaration list was rejected: %v / %v / %v: %q", err, cerr, xerr, txt)
			return
		}
		c.Count("accepted lists", 1)
		for k := 0; k < 2; k++ {
			in := randomStyles(g)
			want := in
			for _, d := range ds {
				applySUT(&want, d.kv)
			}
			a, b := in, in
			m.Mutate(&a)
			if cut := g.r.Intn(len(ds) + 1); k == 0 && len(ds) > 0 {
				// the same in two parts, one appended to the other
				var texts [2][]string
				for i, d := range ds {
					if i < cut {
						texts[0] = append(texts[0], d.text)
					} else {
						texts[1] = append(texts[1], d.text)
					}
				}
				both, err1 := style.DecodeMutator(strings.NewReader(strings.Join(texts[0], ";")))
				rest, err2 := style.DecodeMutator(strings.NewReader(strings.Join(texts[1], ";")))
				if err1 != nil || err2 != nil {
					fail("a part of a valid declaration list was rejected: %v / %v", err1, err2)
					return
				}
				both.Append(rest)
				x, y := in, in
				both.Mutate(&x)
				for _, d := range diffStyles(x, want) {
					fail("appended lists: %s", d)
				}
				empty := &style.Mutator{}
				empty.Append(rest)
				empty.Mutate(&y)
				want2 := in
				for _, d := range ds[cut:] {
					applySUT(&want2, d.kv)
				}
				for _, d := range diffStyles(y, want2) {
					fail("list appended to nothing: %s", d)
				}
				c.Count("appended", 1)
			}
			cls.Mutate(&b, "k")
			for _, d := range diffStyles(a, want) {
				fail("decoded list: %s", d)
			}
			for _, d := range diffStyles(b, want) {
				fail("class: %s", d)
			}
			for _, is := range xd.Body.ISS {
				for _, d := range diffStyles(is.MutatedStyles(xd.StyleClasses(), in), want) {
					fail("inline: %s", d)
				}
			}
			c.Count("attribute comparisons", 90)
		}
	})
	if p != "" {
		fail("panic: %s", p)
	}
}

// randomStyles fills every attribute.
func randomStyles(g *gen) style.Styles {
	var s style.Styles
	var fill func(v reflect.Value)
	fill = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				fill(v.Field(i))
			}
		case reflect.String:
			v.SetString(fmt.Sprintf("s%d", g.r.Intn(1000)))
		case reflect.Float64:
			v.SetFloat(float64(g.r.Intn(10000)) / 16)
		case reflect.Int:
			v.SetInt(int64(g.r.Intn(256)))
		}
	}
	fill(reflect.ValueOf(&s).Elem())
	return s
}

// applySUT applies one valid declaration with the model.
func applySUT(s *style.Styles, d doc.KV) {
	var a, b ref.Styles
	b = ref.Styles{Family: "\x01", Size: 1e300, FStyle: "\x01", Weight: "\x01", Decoration: "\x01", BL: 1 << 40, PL: 1e300, ML: 1e300, Width: 1e300, Height: 1e300, LineSpacing: 1e300, OffX: 1e300, OffY: 1e300, ColumnWidth: 1e300, HAlign: "\x01", VAlign: "\x01", Color: ref.RGB{R: 1 << 40}, Text: ref.RGB{R: 1 << 40}, Bkg: ref.RGB{R: 1 << 40}, LineWidth: 1e300}
	a = b
	a.Apply(d)
	n := toSUT(a)
	switch d.K {
	case "font-family":
		s.Font.Family = n.Font.Family
	case "font-point-size":
		s.PointSize = n.PointSize
	case "font-style":
		s.Font.Style = n.Font.Style
	case "font-weight":
		s.Weight = n.Weight
	case "font-decoration":
		s.Decoration = n.Decoration
	case "border":
		s.Border = n.Border
	case "padding":
		s.Padding = n.Padding
	case "margin":
		s.Margin = n.Margin
	case "width":
		s.Dimension.Width = n.Dimension.Width
	case "height":
		s.Dimension.Height = n.Dimension.Height
	case "line-spacing":
		s.LineSpacing = n.LineSpacing
	case "offset-x":
		s.OffsetX = n.OffsetX
	case "offset-y":
		s.OffsetY = n.OffsetY
	case "column-width":
		s.ColumnWidth = n.ColumnWidth
	case "h-align":
		s.HAlign = n.HAlign
	case "v-align":
		s.VAlign = n.VAlign
	case "color":
		s.Foreground = n.Foreground
	case "text-color":
		s.Text = n.Text
	case "background-color":
		s.Background = n.Background
	case "line-width":
		s.LineWidth = n.LineWidth
	}
}

func badSheets(c *run.Case, g *gen) {
	cs, _ := g.sheet(false, g.rng(0, 4))
	txt := sheetText(g, cs)
	bad := ""
	switch g.r.Intn(6) {
	case 0:
		bad = txt + g.of("last { width: 3", "last { width: 3;\n", "x{", "k {color:#112233; ")
	case 1:
		bad = g.of("{ width: 3 }", " \n{}", "\t{color:#112233}") + txt
	case 2:
		bad = txt + g.of("{ width: 3 }", "\n{}")
	case 3:
		bad = g.of("nobase:first-row { width: 3 }", "nobase:last-cell{}\n") + txt
	case 4:
		bad = txt + g.of("nobase:first-row { width: 3 }", "nobase:x{}")
	case 5:
		a := attrs[g.r.Intn(len(attrs))]
		for a.t == aStr {
			a = attrs[g.r.Intn(len(attrs))]
		}
		cl := "zz {" + a.k + ": " + g.invalid(a.t) + ";}\n"
		if g.p(30) {
			cl = "zz {}\nzz:first-row {" + a.k + ": " + g.invalid(a.t) + "}"
		}
		bad = txt + cl
		if g.p(50) {
			bad = cl + txt
		}
	}
	c.Smp = compact(bad)
	c.Signature(bad)
	c.Count("rejected sheets", 1)
	p := sut.Protect(func() {
		if _, err := style.DecodeClasses(strings.NewReader(txt)); err != nil {
			c.Fail("a valid style sheet was rejected: %v", err)
		}
		if _, err := style.DecodeClasses(strings.NewReader(bad)); err == nil {
			c.Fail("a malformed style sheet was accepted: %q", bad)
		}
		x := `<document><page><orientation>portrait</orientation><format>a4</format></page><style>` + doc.Esc(bad) + `</style><body><text>t</text></body></document>`
		if _, err := xdoc.Load(strings.NewReader(x)); err == nil {
			c.Fail("a document with a malformed style sheet was accepted: %q", bad)
		}
	})
	if p != "" {
		c.Fail("panic: %s", p)
	}
	if c.Failed() {
		c.Attach("sheet", bad)
	}
}
