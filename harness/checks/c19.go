package checks

import (
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"image"
	"image/color"
	"image/gif"
	"image/jpeg"
	"image/png"
	"os"
	"path/filepath"
	"strings"

	"github.com/mazzegi/xpdf/xdoc"

	"verif/harness/doc"
	"verif/harness/run"
	"verif/harness/sut"
)

func init() {
	register(&run.Prop{
		ID: "C19", Quick: 9600, Thorough: 200000, Run: runC19,
		Rule:      "Four families of hostile documents: arbitrarily nested instructions; ordinary documents with contradictory styles (zero, negative, tiny and large sizes, paddings wider than their element, unknown alignments, spans of -2 to 40, more repeated headers than rows, margins wider than the page, page breaks and overfull content in headers and footers); byte and element level mutations of valid documents; damaged images. Texts hold unusual characters (control, combining, right to left, outside the BMP, replacement, soft hyphen, very long words). Whatever loads is described and processed under a guard that counts engine calls and pages: no panic, no runaway, and an error or one complete PDF. Non-trivial: the document loaded.",
		Technique: "Fuzzing with runtime monitors: panic and runaway guard around the engine, structural PDF checker on the output, well-formedness of the dumps.",
		Min:       map[string]int{"processed": 2000, "complete outputs": 1600, "errors": 200, "damaged images": 400, "rejected": 100, "engine calls": 300000},
	})
}

var oddText = []string{
	"\u00ad", "soft\u00adhyphen", "e\u0301\u0301", "\u200b", "\u200e\u200f", "שלום", "مرحبا", "\U0001F600", "\U0001F468\u200d\U0001F469", "\uFFFD", "\u00a0", "a\u00a0b", "\u2028", "\u0085", "\\", "\\n", "( )", "(", ")", "\\(", "%", "%%EOF", "endstream", "{cp}", "{np}", "{cp}{np}", "{", "{cp", "-", "--", "-a-", "'", "\"", "1", "1.5", "\t", "&#9;", "日本語", "ＡＢ", "\u0300", "ß", "ẞ", "ŉ", "ﬃ", "\U000E0001", "\uE000", "…", "—", "a-b-c", "x/y/z", "$^`~",
}

func (g *gen) oddWords(n int) string {
	var p []string
	for ; n > 0; n-- {
		switch g.r.Intn(6) {
		case 0, 1:
			p = append(p, g.of(oddText...))
		case 2:
			p = append(p, g.word()+g.of(oddText...)+g.word())
		case 3:
			if g.p(10) {
				p = append(p, strings.Repeat(g.of("m", "ab", "tion", "ä", "-", "W"), g.rng(50, 400)))
			}
		default:
			p = append(p, g.word())
		}
	}
	return strings.Join(p, g.of(" ", " ", "  ", "\n", ""))
}

func (g *gen) hostileDecl() doc.KV {
	n := func() string {
		return g.of("0", "-1", "1", "0.01", "0.0001", "-0.5", "3", "10", "50", "-50", "190", "500", "-500", "2000", "1e3", "1e-9", "25.4")
	}
	four := func() string { return n() + "," + n() + "," + n() + "," + n() }
	k := g.of("font-family", "font-point-size", "font-style", "font-weight", "font-decoration", "border", "padding", "padding", "margin", "width", "width", "height", "height", "line-spacing", "offset-x", "offset-y", "column-width", "h-align", "h-align", "v-align", "color", "line-width")
	switch k {
	case "font-family":
		return kv(k, g.of("Arial", "Times", "Courier", "Symbol", "ZapfDingbats", "helvetica"))
	case "font-point-size":
		return kv(k, g.of("0", "-1", "0.1", "1", "4", "12", "40", "100", "300", "1000"))
	case "font-style":
		return kv(k, g.of("normal", "italic", "oblique", "bold", ""))
	case "font-weight":
		return kv(k, g.of("normal", "bold", "900", "x"))
	case "font-decoration":
		return kv(k, g.of("normal", "underline", "strike", "blink"))
	case "border":
		return kv(k, g.of("1,1,1,1", "0,0,0,0", "-1,2,0,7", "9,9,9,9"))
	case "padding", "margin":
		return kv(k, four())
	case "h-align":
		return kv(k, g.of("left", "right", "center", "block", "justify", "block"))
	case "v-align":
		return kv(k, g.of("top", "middle", "bottom", "baseline"))
	case "color":
		return kv(g.of("color", "text-color", "background-color"), g.color())
	}
	return kv(k, n())
}

func (g *gen) sprinkle(d *doc.Doc, pct int) {
	d.Walk(func(n *doc.Node) {
		switch n.Kind {
		case "text", "box", "p", "font", "image", "table", "tr", "td", "grid", "part":
			for g.p(pct) {
				n.Style = append(n.Style, g.hostileDecl())
			}
		case "#text":
			if g.p(40) {
				n.Text += g.oddWords(g.rng(1, 4))
			}
		case "lf", "setx", "sety":
			if g.p(30) {
				n.NumStr = g.of("0", "-1", "1000", "-1000", "0.001", "40", "290", "1e4", "1e12", "-1e15")
			}
		}
		if n.Kind == "td" && g.p(20) {
			n.ColSpan = g.rng(-2, 8)
			n.RowSpan = g.rng(-2, 6)
			if g.p(10) {
				n.ColSpan, n.RowSpan = g.rng(0, 40), g.rng(0, 40)
			}
		}
		if n.Kind == "table" && g.p(20) {
			n.HasRep, n.Repeat = true, g.rng(0, 10)
		}
		if (n.Kind == "table" || n.Kind == "tr" || n.Kind == "text" || n.Kind == "box" || n.Kind == "td") && g.p(4) {
			n.Kids = nil
		}
		if (n.Kind == "text" || n.Kind == "box" || n.Kind == "td") && g.p(6) {
			n.Kids = append(n.Kids, doc.T(g.oddWords(g.rng(1, 30))))
		}
	})
	for i := range d.Classes {
		if g.p(30) {
			d.Classes[i].Style = append(d.Classes[i].Style, g.hostileDecl())
		}
	}
}

// mutate damages a document, often so that it still loads.
func (g *gen) mutate(x string) string {
	tags := tagRE.FindAllStringSubmatchIndex(x, -1)
	cutElem := func() (a, b int) { // a whole element
		for try := 0; try < 20; try++ {
			i := g.r.Intn(len(tags))
			t := tags[i]
			if t[2] != t[3] || x[t[4]:t[5]] == "document" {
				continue
			}
			if t[8] != t[9] {
				return t[0], t[1]
			}
			depth := 0
			for _, u := range tags[i:] {
				switch {
				case u[8] != u[9]:
				case u[2] == u[3]:
					depth++
				default:
					depth--
				}
				if depth == 0 {
					return t[0], u[1]
				}
			}
		}
		return 0, 0
	}
	if len(tags) == 0 {
		return x
	}
	switch g.r.Intn(8) {
	case 0: // drop an element
		a, b := cutElem()
		return x[:a] + x[b:]
	case 1: // double it
		a, b := cutElem()
		return x[:b] + x[a:b] + x[b:]
	case 2: // move it
		a, b := cutElem()
		el := x[a:b]
		y := x[:a] + x[b:]
		t := tagRE.FindAllStringIndex(y, -1)
		if len(t) == 0 {
			return y
		}
		at := t[g.r.Intn(len(t))][1]
		return y[:at] + el + y[at:]
	case 3: // put it inside another
		a, b := cutElem()
		t := tags[g.r.Intn(len(tags))]
		return x[:t[1]] + x[a:b] + x[t[1]:]
	case 4: // rename an element
		t := tags[g.r.Intn(len(tags))]
		name := x[t[4]:t[5]]
		to := g.of("text", "box", "td", "tr", "table", "p", "grid", "part", "gr", "image", "font", "br", "newpage", "lf")
		a, b := "<"+name, "</"+name+">"
		y := strings.Replace(x, a, "<"+to, 1)
		return strings.Replace(y, b, "</"+to+">", 1)
	case 5: // another digit
		bs := []byte(x)
		for try := 0; try < 200; try++ {
			i := g.r.Intn(len(bs))
			if bs[i] >= '0' && bs[i] <= '9' {
				bs[i] = byte('0' + g.r.Intn(10))
				break
			}
		}
		return string(bs)
	case 6: // any byte
		bs := []byte(x)
		bs[g.r.Intn(len(bs))] = byte(g.r.Intn(256))
		return string(bs)
	}
	// drop an attribute
	t := tags[g.r.Intn(len(tags))]
	at := x[t[6]:t[7]]
	if i := strings.Index(at, `="`); i > 0 {
		if j := strings.Index(at[i+2:], `"`); j >= 0 {
			k := strings.LastIndexAny(at[:i], " \n")
			if k >= 0 {
				return x[:t[6]+k] + x[t[6]+i+3+j:]
			}
		}
	}
	return x
}

func (g *gen) damagedImage(path string) {
	w, h := g.rng(1, 40), g.rng(1, 40)
	f, err := os.Create(path)
	if err != nil {
		return
	}
	var im image.Image
	switch g.r.Intn(4) {
	case 0:
		p := image.NewPaletted(image.Rect(0, 0, w, h), color.Palette{color.White, color.Black, color.RGBA{200, 10, 30, 255}, color.Transparent})
		for i := range p.Pix {
			p.Pix[i] = byte(g.r.Intn(4))
		}
		im = p
	case 1:
		p := image.NewGray16(image.Rect(0, 0, w, h))
		g.r.Read(p.Pix)
		im = p
	case 2:
		p := image.NewNRGBA(image.Rect(0, 0, w, h))
		g.r.Read(p.Pix)
		im = p
	default:
		p := image.NewRGBA64(image.Rect(0, 0, w, h))
		for i := range p.Pix {
			p.Pix[i] = 255
		}
		im = p
	}
	switch filepath.Ext(path) {
	case ".jpg":
		jpeg.Encode(f, im, nil)
	case ".gif":
		gif.Encode(f, im, nil)
	default:
		png.Encode(f, im)
	}
	f.Close()
	b, _ := os.ReadFile(path)
	if len(b) == 0 {
		return
	}
	switch g.r.Intn(6) {
	case 5: // a header promising other data, otherwise intact
		if len(b) > 40 && filepath.Ext(path) == ".png" {
			b[19+4*g.r.Intn(2)] += byte(g.rng(1, 30))
			if g.p(20) {
				b[24], b[25] = byte(g.r.Intn(17)), byte(g.r.Intn(7))
			}
			binary.BigEndian.PutUint32(b[29:], crc32.ChecksumIEEE(b[12:29]))
		}
	case 0:
		b = b[:g.r.Intn(len(b))]
	case 1:
		for k := g.rng(1, 4); k > 0; k-- {
			b[g.r.Intn(len(b))] ^= 1 << uint(g.r.Intn(8))
		}
	case 2: // beyond the header
		for k := g.rng(1, 6); k > 0; k-- {
			i := g.rng(len(b)/3, len(b)-1)
			b[i] = byte(g.r.Intn(256))
		}
	case 3:
		i := g.r.Intn(len(b))
		j := g.rng(i, len(b))
		b = append(b[:i:i], b[j:]...)
	case 4:
		// unharmed, of an unusual kind
	}
	os.WriteFile(path, b, 0o644)
}

func runC19(e *run.Env, c *run.Case) {
	g := newGen(c.R)
	g.punct = true
	le := env(e)
	wd := le.imageDir(e)
	d := g.newDoc()
	xml := ""
	switch c.Idx % 4 {
	case 0:
		var names []string
		d.Classes, names = g.sheet(true, 3)
		d.Body = g.nested(d, names, 3, g.rng(1, 8))
		d.Header = g.nested(d, names, 1, g.r.Intn(3))
		d.Footer = g.nested(d, names, 1, g.r.Intn(3))
		if g.p(50) {
			g.sprinkle(d, 30)
		}
		// large font sizes and the like
		xml = d.XML()
	case 1:
		g.mixed(d, g.rng(1, 6))
		odd := g.p(30)
		if odd {
			d.Left, d.Right = g.ofF(0, -5, 100, 150, 300), g.ofF(0, -5, 100, 150, 300)
		}
		if g.p(30) {
			odd = true
			d.Top, d.Bottom = g.ofF(0, -5, 100, 200, 400), g.ofF(0, -5, 100, 200, 400)
		}
		if g.p(20) {
			d.Format, d.Orientation = g.of("a4", "", "b5", "A3"), g.of("portrait", "", "sideways")
		}
		g.sprinkle(d, 35)
		// furniture is drawn once per page: the work is the product of both
		most := 1500
		if odd {
			most = 100
		}
		if g.p(15) {
			d.Header = append(d.Header, doc.Text(nil, doc.T(g.words(g.rng(most/3, most)))))
		}
		if g.p(15) {
			d.Footer = append(d.Footer, doc.NewPage(), doc.Text(nil, doc.T(g.words(g.rng(most/30, most/3)))))
		}
		xml = d.XML()
	case 2:
		g.mixed(d, g.rng(1, 5))
		xml = d.XML()
		for k := g.rng(1, 5); k > 0; k-- {
			xml = g.mutate(xml)
		}
	case 3:
		dir := filepath.Join(e.Scratch, fmt.Sprintf("c19-%d", c.Idx))
		os.MkdirAll(dir, 0o755)
		defer os.RemoveAll(dir)
		wd = dir
		for k := g.rng(1, 3); k > 0; k-- {
			name := g.of("a.png", "b.jpg", "c.gif", "d.png")
			g.damagedImage(filepath.Join(dir, name))
			im := doc.Image(name, g.tidy(2)...)
			d.Body = append(d.Body, im, doc.Text(nil, doc.T(g.word())))
			if g.p(30) {
				d.Body = append(d.Body, doc.Table(nil, doc.Tr(nil, doc.Td(doc.S("height", "20"), doc.Image(name)))))
			}
		}
		if g.p(30) {
			g.sprinkle(d, 20)
		}
		xml = d.XML()
		c.Count("damaged images", 1)
	}
	c.Smp = compact(xml)
	c.Signature(fmt.Sprint(c.Idx%4), xml)
	c.Attach("xml", xml)
	var xd *xdoc.Document
	var err error
	if pn := sut.Protect(func() { xd, err = xdoc.Load(strings.NewReader(xml)) }); pn != "" {
		c.Fail("loading panics: %s", pn)
		return
	}
	if err != nil {
		c.Triv = true
		c.Count("rejected", 1)
		return
	}
	if pn := sut.Protect(func() {
		desc := xdoc.Describe(xd)
		if _, err := parseJSONDump(desc.Dump(xdoc.DescribeJSON)); err != nil {
			c.Fail("the JSON dump is invalid: %v", err)
		}
		if _, err := parseXMLDump(desc.Dump(xdoc.DescribeXML)); err != nil {
			c.Fail("the XML dump is invalid: %v", err)
		}
	}); pn != "" {
		c.Fail("describing panics: %s", pn)
	}
	if strings.Count(xml, "NaN")+strings.Count(xml, "Inf") > 0 {
		return
	}
	o := sut.Opts{Hyph: le.hyph, WD: wd}
	res := sut.Process(xd, o)
	c.Count("processed", 1)
	if res.Panic != "" {
		c.Fail("processing panics: %s", res.Panic)
		return
	}
	if res.Guard != nil {
		c.Count("engine calls", res.Guard.Calls)
		per := float64(res.Guard.Calls) / float64(len(xml)+1000)
		if per > 20 {
			c.Count("more than 20 calls per byte", 1)
		}
		if per > 200 {
			c.Count("more than 200 calls per byte", 1)
		}
		if p := float64(res.Guard.Pages) / float64(len(xml)); p > 0.05 {
			c.Count("more than a page per 20 bytes", 1)
		}
	}
	if res.EngErr != nil || res.Err != nil {
		c.Count("errors", 1)
		return
	}
	if _, bad := completePDF(res.PDF); bad != "" {
		c.Fail("no error, but no complete PDF: %s", bad)
		return
	}
	c.Count("complete outputs", 1)
}
