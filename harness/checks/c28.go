package checks

import (
	"fmt"
	"strings"

	"verif/harness/doc"
	"verif/harness/pdfx"
	"verif/harness/run"
)

func init() {
	register(&run.Prop{
		ID: "C28", Quick: 2200, Thorough: 30000, Run: runC28,
		Rule:      "Each case draws a document of all kinds of elements with header and footer, then up to three prefixes of its body: what a prefix draws on its pages must be part of the whole drawing, and whatever comes on top lies on the last page of the prefix or later. Then another body is put behind a newpage: the drawing must be that of the first body followed by that of the second on its own (after the font instructions of the first). Non-trivial: more than 10 things drawn.",
		Technique: "Metamorphic runtime monitor: drawings of prefixes and of parts compared with the drawing of the whole.",
		Min:       map[string]int{"prefixes": 1700, "compositions": 950, "things compared": 300000, "pages": 1500, "page shifts": 350, "things at the bottom": 600},
	})
}

// things spells out what is drawn on each page, by kind in drawing order.
func things(in *pdfx.Ink) map[int][]string {
	out := map[int][]string{}
	for i := range in.W {
		out[i+1] = []string{fmt.Sprintf("page %.2f x %.2f", in.W[i], in.H[i])}
	}
	put := func(p int, f string, a ...interface{}) { out[p] = append(out[p], fmt.Sprintf(f, a...)) }
	for _, r := range in.Runs {
		put(r.Page, "text %q (%.2f, %.2f) %s %.1f %v underlined=%v", r.Text, r.X, r.Y, r.Font, r.Size, r.Color, r.Underline)
	}
	for _, r := range in.Rects {
		put(r.Page, "area (%.2f, %.2f) %.2f x %.2f %v", r.X, r.Y, r.W, r.H, r.Color)
	}
	for _, s := range in.Segs {
		put(s.Page, "line (%.2f, %.2f) (%.2f, %.2f) %.2f %v", s.X0, s.Y0, s.X1, s.Y1, s.Width, s.Color)
	}
	for _, i := range in.Images {
		put(i.Page, "image (%.2f, %.2f) %.2f x %.2f of %d x %d", i.X, i.Y, i.W, i.H, i.PxW, i.PxH)
	}
	return out
}

// within is what is in a but not in b, as multisets.
func within(a, b []string) []string {
	n := map[string]int{}
	for _, s := range b {
		n[s]++
	}
	var out []string
	for _, s := range a {
		if n[s] == 0 {
			out = append(out, s)
			continue
		}
		n[s]--
	}
	return out
}

// noPlaceholders removes placeholders whose value depends on what else there is.
func noPlaceholders(ns []*doc.Node, which ...string) {
	doc.Walk(ns, func(n *doc.Node) {
		for _, w := range which {
			n.Text = strings.ReplaceAll(n.Text, w, "x")
		}
	})
}

func runC28(e *run.Env, c *run.Case) {
	g := newGen(c.R)
	g.unicode, g.slash = c.Idx%5 == 0, c.Idx%9 == 0
	le := env(e)
	wd := le.imageDir(e)
	d := g.newDoc()
	body := func() []*doc.Node {
		x := *d
		x.Body, x.Header, x.Footer = nil, nil, nil
		if g.p(60) {
			cls := x.Classes
			g.mixed(&x, g.rng(2, 9))
			if x.Classes = cls; len(cls) == 0 {
				doc.Walk(x.Body, func(n *doc.Node) { n.Classes = nil })
			}
		} else {
			g.flow(&x, g.rng(3, 8))
		}
		return x.Body
	}
	first := append([]*doc.Node(nil), d.Body...)
	d.Body = nil
	g.mixed(d, 0) // classes, header and footer
	a := append(first, body()...)
	var cuts []int
	for try := 0; len(a) < 2 && try < 5; try++ {
		a = append(a, body()...)
	}
	// something that ends just above the bottom, and something else behind it
	for k := g.r.Intn(3); k > 0; k-- {
		at := g.r.Intn(len(a) + 1)
		var low []*doc.Node
		if g.p(30) {
			low = append(low, doc.NewPage())
		}
		low = append(low, doc.SetX(d.Left), doc.SetY(-d.Bottom-g.r.Float64()*20))
		switch g.r.Intn(4) {
		case 0:
			low = append(low, doc.Text(g.looks(), doc.T(g.words(g.rng(1, 12)))))
		case 1:
			low = append(low, doc.Text(nil, doc.T(g.words(g.rng(1, 3)))), doc.LF(1))
		case 2:
			low = append(low, doc.Box(g.looks(), doc.T(g.word())))
		default:
			low = append(low, doc.Text(nil, doc.T(g.word())))
		}
		next := body()
		if g.p(40) {
			next = append([]*doc.Node{doc.Table(nil, doc.Tr(nil, doc.Td(nil, doc.T(g.word())), doc.Td(nil, doc.T(g.word()))), doc.Tr(nil, doc.Td(nil, doc.T(g.word())), doc.Td(nil, doc.T(g.word()))))}, next...)
		}
		for i := range cuts {
			if cuts[i] > at {
				cuts[i] += len(low) + len(next)
			}
		}
		cuts = append(cuts, at+len(low))
		a = append(a[:at:at], append(append(low, next...), a[at:]...)...)
		c.Count("things at the bottom", 1)
	}
	d.Body = a
	noPlaceholders(d.Header, "{np}")
	noPlaceholders(d.Footer, "{np}")
	noPlaceholders(d.Body, "{np}")
	ug := g.unicode || usesGo(d)
	xml := d.XML()
	c.Smp = compact(xml)
	c.Signature(xml)
	c.Attach("xml", xml)
	_, in, _ := actual(c, le, xml, ug, wd)
	if in == nil {
		return
	}
	c.Count("pages", len(in.W))
	c.Triv = len(in.Runs)+len(in.Rects) < 10
	all := things(in)
	for k := g.rng(1, 3); k > 0 && len(d.Body) > 0; k-- {
		p := *d
		cut := g.r.Intn(len(d.Body))
		if len(cuts) > 0 && g.p(50) {
			cut = cuts[g.r.Intn(len(cuts))]
		}
		p.Body = d.Body[:cut]
		c.Attach("prefix", p.XML())
		_, pin, _ := actual(c, le, p.XML(), ug, wd)
		if pin == nil {
			return
		}
		c.Count("prefixes", 1)
		pages := len(pin.W)
		if pages > len(in.W) {
			c.Fail("the first %d of %d instructions need %d pages, all of them %d", cut, len(d.Body), pages, len(in.W))
			return
		}
		part := things(pin)
		for i := 1; i <= pages; i++ {
			c.Count("things compared", len(part[i]))
			if lost := within(part[i], all[i]); len(lost) > 0 {
				c.Fail("page %d: the first %d of %d instructions draw %s; with the others behind them that is not there (%d such)", i, cut, len(d.Body), lost[0], len(lost))
				return
			}
			if more := within(all[i], part[i]); i < pages && len(more) > 0 {
				c.Fail("page %d of %d of the first %d of %d instructions: with the others behind them there is also %s", i, pages, cut, len(d.Body), more[0])
				return
			}
		}
	}
	// composition
	noPlaceholders(d.Header, "{cp}")
	noPlaceholders(d.Footer, "{cp}")
	noPlaceholders(d.Body, "{cp}")
	b := body()
	noPlaceholders(b, "{np}", "{cp}")
	var fonts []*doc.Node
	for _, n := range d.Body {
		if n.Kind == "font" {
			fonts = append(fonts, n)
		}
	}
	da, db, dab := *d, *d, *d
	db.Body = append(append([]*doc.Node(nil), fonts...), b...)
	dab.Body = append(append(append([]*doc.Node(nil), d.Body...), doc.NewPage()), b...)
	ug = ug || usesGo(&dab)
	var pages []int
	var drawn []map[int][]string
	for i, x := range []*doc.Doc{&da, &db, &dab} {
		c.Attach(fmt.Sprintf("%s body", []string{"first", "second", "whole"}[i]), x.XML())
		_, in, _ := actual(c, le, x.XML(), ug, wd)
		if in == nil {
			return
		}
		pages = append(pages, len(in.W))
		drawn = append(drawn, things(in))
	}
	c.Count("compositions", 1)
	if pages[0] > 1 {
		c.Count("page shifts", 1)
	}
	if pages[0]+pages[1] != pages[2] {
		c.Fail("the bodies have %d and %d pages, one behind the other after a newpage %d", pages[0], pages[1], pages[2])
		return
	}
	for i := 1; i <= pages[2]; i++ {
		want, name := drawn[0][i], "first"
		if i > pages[0] {
			want, name = drawn[1][i-pages[0]], "second"
		}
		c.Count("things compared", len(want))
		if diff := firstDiff(want, drawn[2][i]); diff != "" {
			c.Fail("page %d is not that of the %s body on its own: %s", i, name, diff)
			return
		}
	}
}
