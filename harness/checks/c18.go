package checks

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"github.com/mazzegi/xpdf/xdoc"

	"verif/harness/doc"
	"verif/harness/run"
	"verif/harness/sut"
)

func init() {
	register(&run.Prop{
		ID: "C18", Quick: 3600, Thorough: 60000, Run: runC18,
		Rule:      "Each case makes a valid document with every kind of element (styles, classes, tables, grids, header, footer), requires that it loads, equally through readers that chunk the data in odd ways and from a file, and then injects one kind of fault many times: truncation at random and at all late offsets, read errors before the end, unknown instructions in sections, texts, boxes, tables and rows and with registries of the harness' own, invalid declarations on any styled element, malformed style sheets, invalid numbers, header repetitions outside 0 to 10, uneven grids and undefined areas, ill-formed XML, wrong roots, missing files. Each faulty document must be rejected. Non-trivial: at least one fault was injected.",
		Technique: "Fault injection into documents and readers with a runtime monitor over the returned error; differential loading through differently chunking readers.",
		Min:       map[string]int{"valid documents": 2000, "chunkings": 4000, "truncations": 17000, "read faults": 7000, "unknown instructions": 1500, "own registries": 1000, "invalid declarations": 1400, "invalid sheets": 450, "invalid numbers": 1500, "invalid grids": 1200, "ill-formed": 1500, "files": 700},
	})
}

// load loads a document; a panic counts as failure of the case.
func load(c *run.Case, what, xml string) (*xdoc.Document, error, bool) {
	var d *xdoc.Document
	var err error
	if pn := sut.Protect(func() { d, err = xdoc.Load(strings.NewReader(xml)) }); pn != "" {
		c.Fail("%s: loading panics: %s", what, pn)
		c.Attach("faulty", xml)
		return nil, nil, false
	}
	return d, err, true
}

func mustReject(c *run.Case, what, xml string) {
	if c.Failed() {
		return
	}
	_, err, ok := load(c, what, xml)
	if ok && err == nil {
		c.Fail("%s: no error", what)
		c.Attach("faulty", xml)
	}
}

// all nodes of the given kinds, in all sections.
func nodesOf(d *doc.Doc, kinds ...string) []*doc.Node {
	var out []*doc.Node
	d.Walk(func(n *doc.Node) {
		for _, k := range kinds {
			if n.Kind == k {
				out = append(out, n)
			}
		}
	})
	return out
}

func insert(ns []*doc.Node, at int, n *doc.Node) []*doc.Node {
	return append(ns[:at:at], append([]*doc.Node{n}, ns[at:]...)...)
}

func runC18(e *run.Env, c *run.Case) {
	g := newGen(c.R)
	d := g.newDoc()
	n := g.rng(1, 5)
	if c.Idx%8 == 1 {
		n = g.rng(4, 25)
	}
	g.mixed(d, n)
	if c.Idx%2 == 0 {
		c18grid(g, d)
	}
	xml := d.XML()
	if g.p(50) {
		xml = d.Spell(g.r)
	}
	c.Smp = compact(xml)
	c.Signature(fmt.Sprint(c.Idx%8), xml)
	c.Attach("xml", xml)
	xd, err, ok := load(c, "a valid document", xml)
	if !ok {
		return
	}
	if err != nil {
		c.Fail("a valid document is rejected: %v", err)
		return
	}
	c.Count("valid documents", 1)
	want := xdoc.Describe(xd).Dump(xdoc.DescribeJSON)
	end := strings.LastIndex(xml, ">")
	same := func(what string, d2 *xdoc.Document, err error) {
		if err != nil {
			c.Fail("%s: a valid document is rejected: %v", what, err)
		} else if got := xdoc.Describe(d2).Dump(xdoc.DescribeJSON); got != want {
			c.Fail("%s: another document is loaded", what)
		}
	}
	for k := 0; k < 2; k++ {
		f := g.flaky([]byte(xml), -1)
		var d2 *xdoc.Document
		var err error
		if pn := sut.Protect(func() { d2, err = xdoc.Load(f) }); pn != "" {
			c.Fail("%s: panic: %s", f, pn)
			return
		}
		same(f.String(), d2, err)
		c.Count("chunkings", 1)
	}
	switch c.Idx % 8 {
	case 0, 1:
		c18cuts(c, g, xml, end)
	case 2:
		c18unknown(c, g, d)
		c18registry(c, g)
	case 3:
		c18styles(c, g, d)
	case 4:
		c18numbers(c, g, d)
	case 5:
		c18grids(c, g, d)
	case 6:
		c18ill(c, g, d)
	case 7:
		c18files(e, c, g, xml, same)
	}
}

func c18grid(g *gen, d *doc.Doc) {
	gn := &doc.Node{Kind: "grid", Kids: []*doc.Node{{Kind: "gr", Text: "a b"}, {Kind: "gr", Text: "a c"}, {Kind: "part", Area: "b", Kids: []*doc.Node{doc.Text(nil, doc.T(g.word()))}}}}
	d.Body = insert(d.Body, g.rng(0, len(d.Body)), gn)
}

func c18cuts(c *run.Case, g *gen, xml string, end int) {
	cut := map[int]bool{0: true, end: true, end - 1: true}
	for k := 0; k < 20; k++ {
		cut[g.r.Intn(end+1)] = true
	}
	for k := end - 25; k <= end; k++ {
		if k > 0 {
			cut[k] = true
		}
	}
	// right behind elements, where what is there looks complete
	for i, b := range []byte(xml[:end]) {
		if b == '>' && g.p(8) {
			cut[i+1] = true
		}
	}
	for k := range cut {
		mustReject(c, fmt.Sprintf("document cut off after %d of %d bytes", k, end+1), xml[:k])
		c.Count("truncations", 1)
	}
	for k := 0; k < 25; k++ {
		at := g.r.Intn(end + 1)
		if g.p(20) {
			at = end - g.r.Intn(30)
		}
		f := g.flaky([]byte(xml), at)
		var err error
		if pn := sut.Protect(func() { _, err = xdoc.Load(f) }); pn != "" {
			c.Fail("%s: panic: %s", f, pn)
			return
		}
		c.Count("read faults", 1)
		if err == nil {
			c.Fail("%s: no error", f)
		}
	}
}

func c18unknown(c *run.Case, g *gen, d *doc.Doc) {
	for k := 0; k < 10; k++ {
		d2 := d.Clone()
		name := g.of("foo", "Text", "TEXT", "boxes", "tbody", "th", "b", "span", "rows", "table2", "document", "style", "body", "pagebreak", "ul", "x", "textblock", "linefeed", "meta", "img", "BR", "Table", "lines")
		inner := g.of("", "word", "<text>word</text>", "<p>word</p>", "<td>x</td>")
		raw := &doc.Node{Kind: "raw", Text: "<" + name + g.of("", ` style="width: 1"`, ` class="a"`) + ">" + inner + "</" + name + ">"}
		if inner == "" {
			raw.Text = "<" + name + "/>"
		}
		where := ""
		if cont := nodesOf(d2, "text", "box", "table", "tr"); len(cont) > 0 && g.p(75) {
			n := cont[g.r.Intn(len(cont))]
			// a kind at random, as texts would dominate
			kind := g.of("text", "box", "table", "tr")
			var some []*doc.Node
			for _, x := range cont {
				if x.Kind == kind {
					some = append(some, x)
				}
			}
			if len(some) > 0 {
				n = some[g.r.Intn(len(some))]
			}
			n.Kids = insert(n.Kids, g.rng(0, len(n.Kids)), raw)
			where = n.Kind
		} else {
			switch where = g.of("header", "footer", "body"); where {
			case "header":
				d2.Header = insert(d2.Header, g.rng(0, len(d2.Header)), raw)
			case "footer":
				d2.Footer = insert(d2.Footer, g.rng(0, len(d2.Footer)), raw)
			default:
				d2.Body = insert(d2.Body, g.rng(0, len(d2.Body)), raw)
			}
		}
		mustReject(c, fmt.Sprintf("unknown instruction %s in a %s", raw.Text, where), d2.XML())
		c.Count("unknown instructions", 1)
	}
}

func c18styles(c *run.Case, g *gen, d *doc.Doc) {
	styled := []string{"text", "box", "p", "font", "image", "table", "tr", "td", "grid", "gr", "part"}
	for k := 0; k < 13; k++ {
		a := attrs[g.r.Intn(len(attrs))]
		bad := ""
		if a.t == aStr || g.p(20) {
			bad = g.of("width", "color #112233", "bold", "width=3", "x:y:z", "width:3:4", "a::b")
		} else {
			bad = g.declText(a.k, g.invalid(a.t))
		}
		if k < 10 {
			d2 := d.Clone()
			var ns []*doc.Node
			for try := 0; len(ns) == 0 && try < 50; try++ {
				ns = nodesOf(d2, g.of(styled...))
			}
			if len(ns) == 0 {
				continue
			}
			n := ns[g.r.Intn(len(ns))]
			// through placeholders, as the list is not of key: value form
			n.Style = append(n.Style[:0:0], kv("width", "4321.125"))
			x := d2.XML()
			mark := `style="width: 4321.125"`
			if !strings.Contains(x, mark) {
				c.HarnessError("no mark in %s", x)
			}
			val := strings.NewReplacer("\n", "&#10;", "\t", "&#9;", "\r", "&#13;").Replace(doc.Esc(g.of("", "height: 3;", "h-align: left; ") + bad + g.of("", ";", "; h-align: left")))
			x = strings.Replace(x, mark, `style="`+val+`"`, 1)
			mark = `style="` + val + `"`
			if i := strings.Index(x, "4321.125"); i >= 0 {
				c.HarnessError("the declarations were not replaced")
			}
			if len(n.Classes) == 0 && g.p(50) {
				// with classes, before or after
				if i := strings.Index(x, mark); i >= 0 {
					cl := g.of(`class="good" `, `class='a b' `, `class="" `)
					x = x[:i] + cl + x[i:]
				}
			}
			mustReject(c, fmt.Sprintf("invalid declarations %q on a %s", bad, n.Kind), x)
			c.Count("invalid declarations", 1)
			continue
		}
		sheet := ""
		switch g.r.Intn(6) {
		case 0:
			sheet = "good { width: 1 } bad {" + bad + "}"
		case 1:
			sheet = "bad { width: 1; "
		case 2:
			sheet = "{ width: 1 }"
		case 3:
			sheet = "x:first-row { width: 1 } x { width: 2 }"
		case 4:
			sheet = "x { width: 1 } x:last-cell {" + bad + "}"
		case 5:
			sheet = "x { width: 1 } y:first-cell { width: 2 }"
		}
		x := d.XML()
		at := strings.Index(x, "</style>")
		if g.p(50) && !strings.HasPrefix(sheet, "bad { width: 1; ") {
			at = strings.Index(x, "<style>") + len("<style>")
		}
		mustReject(c, fmt.Sprintf("invalid style sheet %q", sheet), x[:at]+doc.Esc(sheet)+x[at:])
		c.Count("invalid sheets", 1)
	}
}

func c18numbers(c *run.Case, g *gen, d *doc.Doc) {
	badF := func() string {
		return g.of("abc", "1,5", "1 2", "--1", "12mm", "1..2", "1.2.3", "one", "0x", "#1", "5%", "-", ".")
	}
	badI := func() string {
		return g.of("abc", "", "1.5", "1e2", "two", "99999999999999999999", "1 2", "--2", "0x2", "-", "1,000")
	}
	where := func(d2 *doc.Doc, n string) string {
		// header, body, or within a table or grid
		raw := &doc.Node{Kind: "raw", Text: n}
		switch g.r.Intn(4) {
		case 0:
			d2.Header = insert(d2.Header, g.rng(0, len(d2.Header)), raw)
		case 1:
			if tds := nodesOf(d2, "td"); len(tds) > 0 {
				td := tds[g.r.Intn(len(tds))]
				td.Kids = append(td.Kids, raw)
				break
			}
			fallthrough
		case 2:
			if ps := nodesOf(d2, "part"); len(ps) > 0 {
				p := ps[g.r.Intn(len(ps))]
				p.Kids = append(p.Kids, raw)
				break
			}
			fallthrough
		default:
			d2.Body = insert(d2.Body, g.rng(0, len(d2.Body)), raw)
		}
		return d2.XML()
	}
	for k := 0; k < 12; k++ {
		d2 := d.Clone()
		x, what := "", ""
		switch g.r.Intn(7) {
		case 0:
			what = fmt.Sprintf(`<lf lines="%s"/>`, badF())
		case 1:
			what = fmt.Sprintf(`<setx x="%s"/>`, badF())
		case 2:
			what = fmt.Sprintf(`<sety y="%s"/>`, badF())
		case 3:
			what = fmt.Sprintf(`<table><tr><td>x</td><td %s="%s">%s</td></tr></table>`, g.of("colspan", "rowspan"), badI(), g.of("y", "y", ""))
		case 4:
			what = fmt.Sprintf(`<table repeatheader="%s">%s</table>`, g.of(badI(), "-1", "11", "100", "-7", "12", "2147483648"), g.of("<tr><td>x</td></tr>", "<tr><td>x</td></tr>", "<tr></tr>", "", "<tr><td>x</td><td>y</td></tr><tr/>"))
		case 5:
			what = g.of("left", "top", "right", "bottom")
			x = d2.XML()
			x = regexp.MustCompile("<"+what+">[^<]*<").ReplaceAllString(x, "<"+what+">"+badF()+"<")
			what = "margin " + what
		case 6:
			// the whole allowed range loads
			x = where(d2, fmt.Sprintf(`<table repeatheader="%d"><tr><td rowspan="%d">x</td></tr></table>`, g.rng(0, 10), g.rng(0, 3)))
			if _, err, ok := load(c, "valid numbers", x); ok && err != nil {
				c.Fail("a valid document is rejected: %v", err)
				c.Attach("faulty", x)
			}
			c.Count("valid documents", 1)
			continue
		}
		if x == "" {
			x = where(d2, what)
		}
		mustReject(c, "invalid number: "+what, x)
		c.Count("invalid numbers", 1)
	}
}

func c18grids(c *run.Case, g *gen, d *doc.Doc) {
	for k := 0; k < 8; k++ {
		d2 := d.Clone()
		rows, parts, what := "", "", ""
		gr := func(n int) string {
			var as []string
			for i := 0; i < n; i++ {
				as = append(as, g.of("a", "b", "c", "left", "m1"))
			}
			return "<gr>" + strings.Join(as, " ") + "</gr>"
		}
		n := g.rng(1, 4)
		good := "<gr>" + strings.TrimSpace(strings.Repeat("a ", n)) + "</gr>"
		part := func(a string) string { return `<part area="` + a + `"><text>x</text></part>` }
		switch g.r.Intn(4) {
		case 0:
			what = "no rows"
			if g.p(50) {
				parts = part("a")
			}
		case 1:
			what = "uneven rows"
			m := n
			for m == n {
				m = g.rng(1, 5)
			}
			rs := []string{good}
			for i := g.r.Intn(3); i > 0; i-- {
				rs = append(rs, gr(n))
			}
			at := g.rng(0, len(rs))
			rs = append(rs[:at:at], append([]string{gr(m)}, rs[at:]...)...)
			if g.p(50) {
				rs = append(rs, gr(n))
			}
			rows = strings.Join(rs, "\n")
		case 2:
			what = "undefined area"
			rows = good + gr(n)
			bad := g.of("z", "A", "aa", "a b", "undefined", " a")
			ps := []string{part("a"), part(bad), part("a")}[g.r.Intn(2):]
			if g.p(50) {
				ps = ps[:len(ps)-1]
			}
			parts = strings.Join(ps, "")
		case 3:
			what = "part without area"
			rows = good
			parts = "<part><text>x</text></part>"
		}
		raw := &doc.Node{Kind: "raw", Text: "<grid><rows>" + rows + "</rows><parts>" + parts + "</parts></grid>"}
		if tds := nodesOf(d2, "td", "part"); len(tds) > 0 && g.p(30) {
			td := tds[g.r.Intn(len(tds))]
			td.Kids = append(td.Kids, raw)
		} else if g.p(30) {
			d2.Footer = append(d2.Footer, raw)
		} else {
			d2.Body = insert(d2.Body, g.rng(0, len(d2.Body)), raw)
		}
		mustReject(c, "grid with "+what+" "+raw.Text, d2.XML())
		c.Count("invalid grids", 1)
	}
}

var tagRE = regexp.MustCompile(`<(/?)([a-z]+)([^>]*?)(/?)>`)

func c18ill(c *run.Case, g *gen, d *doc.Doc) {
	x := d.XML()
	end := strings.LastIndex(x, "</document>")
	tags := tagRE.FindAllStringSubmatchIndex(x, -1)
	// positions of text between tags
	var gaps []int
	for _, t := range tags[:len(tags)-1] {
		gaps = append(gaps, t[1])
	}
	pick := func(f func(open, selfClosed bool, name string) bool) []int {
		var some [][]int
		for _, t := range tags {
			if f(t[2] == t[3], t[8] != t[9], x[t[4]:t[5]]) {
				some = append(some, t)
			}
		}
		if len(some) == 0 {
			return nil
		}
		return some[g.r.Intn(len(some))]
	}
	for k := 0; k < 10; k++ {
		gap := gaps[g.r.Intn(len(gaps))]
		y, what := "", ""
		switch g.r.Intn(15) {
		case 0:
			what = "end tag of another element"
			t := pick(func(o, s bool, n string) bool { return !o })
			y = x[:t[4]] + g.of("text2", "other", "Text", "b") + x[t[5]:]
		case 1:
			what = "end tag missing"
			t := pick(func(o, s bool, n string) bool { return !o })
			y = x[:t[0]] + x[t[1]:]
		case 2:
			what = "start tag missing"
			t := pick(func(o, s bool, n string) bool { return o && !s })
			y = x[:t[0]] + x[t[1]:]
		case 3:
			s := g.of("& ", "&nosuch;", "&#xZZ;", "&;", "&amp ", "&#0;", "< ", "<1>", "]]>", "\x01", "\x00", "\xff", "\xc3(", "\xed\xa0\x80", "</>", "<>", "\x0b", "\ufffe")
			what = fmt.Sprintf("%q in the text", s)
			y = x[:gap] + s + x[gap:]
		case 4:
			what = "missing quote"
			var qs []int
			for i, b := range []byte(x) {
				if b == '"' {
					qs = append(qs, i)
				}
			}
			if len(qs) == 0 {
				continue
			}
			q := qs[g.r.Intn(len(qs))]
			y = x[:q] + x[q+1:]
		case 5:
			what = "comment without end"
			y = x[:gap] + "<!-- " + x[gap:]
		case 6:
			what = "character data without end"
			y = x[:gap] + "<![CDATA[ " + x[gap:]
		case 7:
			what = "another root"
			r := g.of("Document", "doc", "documents", "xpdf", "body", "html")
			y = strings.Replace(x[:end], "<document>", "<"+r+">", 1) + "</" + r + ">"
		case 8:
			what = "no document"
			y = g.of("", " \n", "text", "<?xml version=\"1.0\"?>", "<!-- only -->", "\x00", "{}", "<document", "<document>", "</document>", "%PDF-1.4")
		case 9:
			what = "attribute without value"
			t := pick(func(o, s bool, n string) bool { return o })
			y = x[:t[5]] + g.of(" foo", " style=", " class=a", " =\"x\"", " x'y'", " a=b", " 1=\"x\"") + x[t[5]:]
		case 10:
			what = "two dashes in a comment"
			y = x[:gap] + "<!-- a -- b -->" + x[gap:]
		case 11:
			what = "crossing elements"
			y = x[:gap] + "<lf><br></lf></br>" + x[gap:]
		case 12:
			what = "other encoding"
			y = `<?xml version="1.0" encoding="` + g.of("ISO-8859-1", "utf-16", "windows-1252") + `"?>` + x
		case 13:
			what = "unsupported version"
			y = `<?xml version="` + g.of("1.1", "2.0", "0.9") + `"?>` + x
		case 14:
			what = "less-than sign in an attribute"
			t := pick(func(o, s bool, n string) bool { return o })
			y = x[:t[5]] + ` class="a<b"` + x[t[5]:]
		}
		mustReject(c, "ill-formed: "+what, y)
		c.Count("ill-formed", 1)
	}
}

func c18files(e *run.Env, c *run.Case, g *gen, xml string, same func(string, *xdoc.Document, error)) {
	dir := filepath.Join(e.Scratch, fmt.Sprintf("c18-%d", c.Idx))
	os.MkdirAll(dir, 0o755)
	defer os.RemoveAll(dir)
	p := filepath.Join(dir, g.of("doc.xml", "a b.xml", "übung", "doc"))
	if err := os.WriteFile(p, []byte(xml), 0o644); err != nil {
		c.HarnessError("%v", err)
		return
	}
	try := func(f string) (d *xdoc.Document, err error) {
		if pn := sut.Protect(func() { d, err = xdoc.LoadFromFile(f) }); pn != "" {
			c.Fail("loading %s panics: %s", f, pn)
		}
		return
	}
	d, err := try(p)
	same("from a file", d, err)
	for _, bad := range []string{filepath.Join(dir, "nosuch.xml"), dir, "", filepath.Join(p, "x")} {
		if _, err := try(bad); err == nil {
			c.Fail("no error for the file %q", bad)
		}
		c.Count("files", 1)
	}
	os.WriteFile(p, []byte(xml)[:g.r.Intn(strings.LastIndex(xml, ">"))], 0o644)
	if _, err := try(p); err == nil {
		c.Fail("no error for a cut off file")
	}
	c.Count("files", 1)
	os.WriteFile(p, bytes.Repeat([]byte(" "), g.r.Intn(10000)), 0o644)
	if _, err := try(p); err == nil {
		c.Fail("no error for a blank file")
	}
}
