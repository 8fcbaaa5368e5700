package checks

import (
	"encoding/json"
	"encoding/xml"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/mazzegi/xpdf/xdoc"

	"verif/harness/doc"
	"verif/harness/ref"
	"verif/harness/run"
	"verif/harness/sut"
)

func init() {
	register(&run.Prop{
		ID: "C21", Quick: 9000, Thorough: 150000, Run: runC21,
		Rule:      "Each case describes a random document: either a drawable one of all kinds of elements or an arbitrarily nested one (instructions of any kind within texts, boxes, cells and grid parts, unusual numbers, repeated, zero and unknown declarations, classes with selectors). The JSON and XML dumps are parsed and compared, item by item, with the description derived from the generated tree and a cascade model (texts, numbers, sources, spans, and exactly the non-zero style attributes). Describing again, loading again and other spellings of chunking must give the same bytes. Non-trivial: at least 5 instructions.",
		Technique: "Runtime oracle: structural comparison of the dumped description with one derived from the generator's tree; byte comparison of repeated descriptions.",
		Min:       map[string]int{"items": 110000, "style attributes": 160000, "dumps": 24000, "nested documents": 1500},
	})
}

// ditem is one item of a description.
type ditem struct {
	Name  string
	Value string
	Diffs map[string]string
	Items []ditem
}

func fnum(f float64) string { return strconv.FormatFloat(f, 'g', -1, 64) }

// diffsOf are the attributes an element sets to something other than zero.
func diffsOf(d *doc.Doc, n *doc.Node) map[string]string {
	s := ref.Cascade(ref.Styles{}, d.Classes, "", n)
	m := map[string]string{}
	str := func(k, v string) {
		if v != "" {
			m["styles:"+k] = v
		}
	}
	num := func(k string, v float64) {
		if v != 0 {
			m["styles:"+k] = fnum(v)
		}
	}
	rgb := func(k string, c ref.RGB) {
		num(k+":R", float64(c.R))
		num(k+":G", float64(c.G))
		num(k+":B", float64(c.B))
	}
	str("Family", s.Family)
	num("PointSize", s.Size)
	str("Style", s.FStyle)
	str("Weight", s.Weight)
	str("Decoration", s.Decoration)
	num("Border:Left", float64(s.BL))
	num("Border:Top", float64(s.BT))
	num("Border:Right", float64(s.BR))
	num("Border:Bottom", float64(s.BB))
	num("Padding:Left", s.PL)
	num("Padding:Top", s.PT)
	num("Padding:Right", s.PR)
	num("Padding:Bottom", s.PB)
	num("Margin:Left", s.ML)
	num("Margin:Top", s.MT)
	num("Margin:Right", s.MR)
	num("Margin:Bottom", s.MB)
	num("Width", s.Width)
	num("Height", s.Height)
	num("LineSpacing", s.LineSpacing)
	num("OffsetX", s.OffX)
	num("OffsetY", s.OffY)
	num("ColumnWidth", s.ColumnWidth)
	str("HAlign", s.HAlign)
	str("VAlign", s.VAlign)
	rgb("Foreground", s.Color)
	rgb("Text", s.Text)
	rgb("Background", s.Bkg)
	num("LineWidth", s.LineWidth)
	return m
}

func describeNodes(d *doc.Doc, ns []*doc.Node) []ditem {
	var out []ditem
	fields := func(s string) string { return strings.Join(strings.Fields(s), " ") }
	for _, n := range ns {
		it := ditem{Diffs: diffsOf(d, n)}
		switch n.Kind {
		case "#text":
			it = ditem{Name: "text-block", Value: fields(n.Text)}
			if it.Value == "" {
				continue
			}
		case "p":
			it.Name, it.Value = "paragraph", fields(n.Text)
		case "br":
			it.Name = "line-break"
		case "newpage":
			it.Name = "page-break"
		case "font":
			it.Name = "font"
		case "lf":
			it.Name, it.Value = "line-feed", fnum(n.Num)
		case "setx", "sety":
			it.Name, it.Value = n.Kind, fnum(n.Num)
		case "image":
			it.Name, it.Value = "image", n.Text
		case "text", "box", "table", "grid":
			it.Name = n.Kind
		case "tr":
			it.Name = "table-row"
		case "td":
			it.Name = fmt.Sprintf("table-cell colspan=%d rowspan=%d", n.ColSpan, n.RowSpan)
		case "gr":
			it.Name, it.Value = "grid-row", n.Text
		case "part":
			it.Name, it.Value = "grid-part", n.Area
		}
		it.Items = describeNodes(d, n.Kids)
		out = append(out, it)
	}
	return out
}

// description is what a description of d should list.
func description(d *doc.Doc) []ditem {
	leaf := func(n, v string) ditem { return ditem{Name: n, Value: v} }
	return []ditem{
		{Name: "meta", Items: []ditem{leaf("author", d.Author), leaf("creator", d.Creator), leaf("subject", d.Subject)}},
		{Name: "page", Items: []ditem{leaf("orientation", d.Orientation), leaf("format", d.Format), {Name: "margins", Items: []ditem{
			leaf("left", fnum(d.Left)), leaf("top", fnum(d.Top)), leaf("right", fnum(d.Right)), leaf("bottom", fnum(d.Bottom))}}}},
		{Name: "header", Items: describeNodes(d, d.Header)},
		{Name: "footer", Items: describeNodes(d, d.Footer)},
		{Name: "body", Items: describeNodes(d, d.Body)},
	}
}

type jsonItem struct {
	Name       string
	Value      interface{}
	StyleDiffs []struct {
		Path     string
		Org, Mod interface{}
	}
	Items []jsonItem
}

func jsonValue(v interface{}) string {
	switch v := v.(type) {
	case nil:
		return ""
	case float64:
		return fnum(v)
	}
	return fmt.Sprint(v)
}

func (j jsonItem) item() (ditem, string) {
	it := ditem{Name: j.Name, Value: jsonValue(j.Value), Diffs: map[string]string{}}
	for _, d := range j.StyleDiffs {
		if _, twice := it.Diffs[d.Path]; twice {
			return it, j.Name + " lists " + d.Path + " twice"
		}
		if o := jsonValue(d.Org); o != "" && o != "0" {
			return it, fmt.Sprintf("%s lists %s as changed from %s", j.Name, d.Path, o)
		}
		it.Diffs[d.Path] = jsonValue(d.Mod)
	}
	for _, k := range j.Items {
		ki, bad := k.item()
		if bad != "" {
			return it, bad
		}
		it.Items = append(it.Items, ki)
	}
	return it, ""
}

type xmlItem struct {
	Name       string
	Value      string
	StyleDiffs []struct{ Path, Org, Mod string }
	Items      []xmlItem
}

func (x xmlItem) item() ditem {
	norm := func(s string) string {
		if f, err := strconv.ParseFloat(s, 64); err == nil {
			return fnum(f)
		}
		return s
	}
	it := ditem{Name: x.Name, Value: x.Value, Diffs: map[string]string{}}
	for _, d := range x.StyleDiffs {
		it.Diffs[d.Path] = norm(d.Mod)
	}
	for _, k := range x.Items {
		it.Items = append(it.Items, k.item())
	}
	return it
}

// tidyItems drops blank texts between instructions.
func tidyItems(is []ditem) []ditem {
	var out []ditem
	for _, i := range is {
		if i.Name == "text-block" && i.Value == "" && len(i.Items) == 0 {
			continue
		}
		i.Items = tidyItems(i.Items)
		out = append(out, i)
	}
	return out
}

func parseJSONDump(s string) ([]ditem, error) {
	var top struct{ Items []jsonItem }
	if err := json.Unmarshal([]byte(s), &top); err != nil {
		return nil, err
	}
	j := jsonItem{Name: "description", Items: top.Items}
	it, bad := j.item()
	if bad != "" {
		return nil, fmt.Errorf("%s", bad)
	}
	return tidyItems(it.Items), nil
}

func parseXMLDump(s string) ([]ditem, error) {
	var top xmlItem
	dec := xml.NewDecoder(strings.NewReader(s))
	if err := dec.Decode(&top); err != nil {
		return nil, err
	}
	return tidyItems(top.item().Items), nil
}

func compareItems(path string, exp, act []ditem, sameValue func(a, b string) bool) string {
	for i := 0; i < len(exp) || i < len(act); i++ {
		switch {
		case i >= len(act):
			return fmt.Sprintf("%s: item %d (%s %q) is missing", path, i, exp[i].Name, exp[i].Value)
		case i >= len(exp):
			return fmt.Sprintf("%s: unexpected item %d (%s %q)", path, i, act[i].Name, act[i].Value)
		}
		e, a := exp[i], act[i]
		if e.Name != a.Name {
			return fmt.Sprintf("%s: item %d is %q (%q), expected %q (%q)", path, i, a.Name, a.Value, e.Name, e.Value)
		}
		p := fmt.Sprintf("%s/%s[%d]", path, e.Name, i)
		if !sameValue(e.Value, a.Value) {
			return fmt.Sprintf("%s: value %q, expected %q", p, a.Value, e.Value)
		}
		var ks []string
		for k := range e.Diffs {
			ks = append(ks, k)
		}
		for k := range a.Diffs {
			if _, ok := e.Diffs[k]; !ok {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		for _, k := range ks {
			if e.Diffs[k] != a.Diffs[k] {
				return fmt.Sprintf("%s: %s is listed as %q, expected %q", p, k, a.Diffs[k], e.Diffs[k])
			}
		}
		if d := compareItems(p, e.Items, a.Items, sameValue); d != "" {
			return d
		}
	}
	return ""
}

func exactly(a, b string) bool { return a == b }

// numerically treats numbers spelled differently as equal.
func numerically(a, b string) bool {
	if a == b {
		return true
	}
	x, e1 := strconv.ParseFloat(a, 64)
	y, e2 := strconv.ParseFloat(b, 64)
	return e1 == nil && e2 == nil && x == y
}

func countItems(c *run.Case, is []ditem) {
	for _, i := range is {
		c.Count("items", 1)
		c.Count("style attributes", len(i.Diffs))
		countItems(c, i.Items)
	}
}

// nested makes instructions nested in each other in any way a document may.
func (g *gen) nested(d *doc.Doc, names []string, depth, n int) []*doc.Node {
	style := func(k *doc.Node) *doc.Node {
		for i := g.r.Intn(4); i > 0; i-- {
			x := g.anyDecl(false)
			if g.p(10) && (x.K == "width" || x.K == "line-spacing" || x.K == "offset-x") {
				x.V = g.of("0", "-1", "0.0", "1e3", "+2", "12345678", "-9876543.5", "1e-9", "2e-13", "1e12", "1e21", "-4e-7", "0.1000000001")
			}
			k.Style = append(k.Style, x)
		}
		if g.p(40) {
			k.Classes = g.useClasses(names)
		}
		return k
	}
	num := func() float64 { return float64(g.rng(-4000, 40000)) / 100 }
	var out []*doc.Node
	for ; n > 0; n-- {
		kids := func() []*doc.Node {
			if depth <= 0 {
				return nil
			}
			return g.nested(d, names, depth-1, g.r.Intn(4))
		}
		var k *doc.Node
		switch g.r.Intn(14) {
		case 0:
			k = style(doc.Text(nil, kids()...))
		case 1:
			k = style(doc.Box(nil, kids()...))
		case 2:
			k = style(doc.Table(nil))
			k.HasRep, k.Repeat = g.p(50), g.r.Intn(11)
			for r := g.r.Intn(3); r > 0; r-- {
				tr := style(doc.Tr(nil))
				for t := g.r.Intn(3); t > 0; t-- {
					td := style(doc.Td(nil, kids()...))
					if g.p(40) {
						td.ColSpan = g.rng(-2, 12)
					}
					if g.p(40) {
						td.RowSpan = g.rng(-2, 12)
					}
					tr.Kids = append(tr.Kids, td)
				}
				k.Kids = append(k.Kids, tr)
			}
		case 3:
			k = style(&doc.Node{Kind: "grid"})
			as := []string{"a", "b1", "c"}
			for r := g.rng(1, 3); r > 0; r-- {
				k.Kids = append(k.Kids, style(&doc.Node{Kind: "gr", Text: strings.Join(as, " ")}))
			}
			for r := g.r.Intn(3); r > 0; r-- {
				var in []*doc.Node
				for _, x := range kids() {
					if x.Kind != "#text" {
						in = append(in, x)
					}
				}
				k.Kids = append(k.Kids, style(&doc.Node{Kind: "part", Area: g.of(as...), Kids: in}))
			}
		case 4:
			k = style(doc.Font())
		case 5:
			k = doc.LF(num())
		case 6:
			k = doc.SetX(num())
		case 7:
			k = doc.SetY(num())
		case 8:
			k = doc.NewPage()
		case 9:
			k = doc.Br()
		case 10:
			k = style(doc.Image(g.of("a.png", " b.jpg", "dir/c d.gif ", "/abs/x.png", "ü.png", "a&b")))
		case 11:
			k = style(doc.P(g.blanks(g.r.Intn(6))))
		default:
			if len(out) > 0 && out[len(out)-1].Kind == "#text" {
				continue
			}
			k = doc.T(g.blanks(g.rng(1, 5)))
		}
		out = append(out, k)
	}
	return out
}

func runC21(e *run.Env, c *run.Case) {
	g := newGen(c.R)
	g.punct = true
	g.unicode, g.slash = g.p(30), g.p(20)
	d := g.newDoc()
	d.Author, d.Creator, d.Subject = g.of("", "someone", " A & B ", "Zoë <z@x.org>"), g.of("", "c", "\"q\""), g.of("", "x & y", "12", "1.50", "true")
	if c.Idx%2 == 0 {
		c.Count("nested documents", 1)
		d.Body = nil
		var names []string
		d.Classes, names = g.sheet(false, g.rng(1, 4))
		if g.p(20) {
			d.Orientation, d.Format = g.of("upside-down", ""), g.of("b5", "A4", "")
			d.Left, d.Bottom = -3.25, 0
		}
		d.Body = g.nested(d, names, 3, g.rng(1, 8))
		d.Header = g.nested(d, names, 1, g.r.Intn(3))
		d.Footer = g.nested(d, names, 1, g.r.Intn(3))
	} else {
		g.mixed(d, g.rng(1, 8))
	}
	if g.p(20) {
		// values close to those they replace
		d.Walk(func(n *doc.Node) {
			switch n.Kind {
			case "text", "box", "p", "td", "table":
				if g.p(30) {
					n.Style = append(n.Style, kv("line-spacing", g.of("1.0003", "0.9999", "1.00001")))
				}
				if g.p(30) {
					n.Style = append(n.Style, kv("padding", "0.0004,0,-0.0002,0.00001"), kv("offset-x", "0.0002"))
				}
				if g.p(20) {
					n.Style = append(n.Style, kv("font-point-size", g.of("12.0004", "11.9999")), kv("width", "-1.0002"))
				}
			}
		})
		c.Count("documents with close values", 1)
	}
	xmlText := d.XML()
	c.Smp = compact(xmlText)
	c.Signature(xmlText)
	k := 0
	d.Walk(func(*doc.Node) { k++ })
	c.Triv = k < 5
	exp := description(d)
	countItems(c, exp)
	var js, xs string
	pn := sut.Protect(func() {
		xd, err := xdoc.Load(strings.NewReader(xmlText))
		if err != nil {
			c.Fail("a valid document is rejected: %v", err)
			return
		}
		js = xdoc.Describe(xd).Dump(xdoc.DescribeJSON)
		desc := xdoc.Describe(xd)
		xs = desc.Dump(xdoc.DescribeXML)
		for i := 0; i < 2; i++ {
			if xdoc.Describe(xd).Dump(xdoc.DescribeJSON) != js || xdoc.Describe(xd).Dump(xdoc.DescribeXML) != xs || desc.Dump(xdoc.DescribeXML) != xs {
				c.Fail("describing the document again gives another description")
			}
			xd2, err := xdoc.Load(g.flaky([]byte(xmlText), -1))
			if err != nil || xdoc.Describe(xd2).Dump(xdoc.DescribeJSON) != js {
				c.Fail("loading and describing the document again gives another description (%v)", err)
			}
			c.Count("dumps", 4)
		}
	})
	if pn != "" {
		c.Fail("panic: %s", pn)
	}
	if !c.Failed() {
		act, err := parseJSONDump(js)
		if err != nil {
			c.Fail("JSON dump: %v", err)
		} else if diff := compareItems("json", exp, act, exactly); diff != "" {
			c.Fail("%s", diff)
		}
		act, err = parseXMLDump(xs)
		if err != nil {
			c.Fail("XML dump: %v", err)
		} else if diff := compareItems("xml", exp, act, numerically); diff != "" {
			c.Fail("%s", diff)
		}
	}
	if c.Failed() {
		c.Attach("xml", xmlText)
		c.Attach("json dump", js)
		c.Attach("xml dump", xs)
	}
}
