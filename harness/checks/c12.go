package checks

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"verif/harness/doc"
	"verif/harness/ink"
	"verif/harness/pdfx"
	"verif/harness/run"
)

func init() {
	register(&run.Prop{
		ID: "C12", Quick: 2700, Thorough: 45000, Run: runC12,
		Rule:      "Each case draws a body whose pages are started by flowing text, boxes, tables, repeated table headers and newpage, with a header and footer of several texts, boxes, tables, images and (ineffective) page breaks, with and without fonts of their own. A model-free monitor checks that every page shows every header and footer item exactly once, at the same place and in the same look, with the right {cp} and {np}; the same body with no and with another header and footer must be drawn identically. Non-trivial: at least 2 pages.",
		Technique: "Runtime trace monitor per page event (exactly-once, identity) over the emitted PDF plus metamorphic non-interference runs.",
		Min:       map[string]int{"pages": 2300, "header and footer words": 14000, "{cp} checked": 2500, "{np} checked": 2500, "multi page documents": 600, "body words compared": 300000, "non-interference pairs": 1800},
	})
	register(&run.Prop{
		ID: "C13", Quick: 7500, Thorough: 90000, Run: runC13,
		Rule:      "Each case draws one or more pages of texts, boxes and tables (no explicit positions) in one of the five formats and two orientations with random margins (also zero and fractional). Monitors: size of every page; everything on a page starts exactly at the top and left margins; all words, areas and lines stay within the four margins. Non-trivial: at least 2 pages or 20 words.",
		Technique: "Model-free runtime monitor over page boxes and all recorded ink against the declared geometry.",
		Min:       map[string]int{"pages": 2700, "words": 400000, "frames": 20000, "landscape pages": 900, "page starts": 2400},
	})
}

// flow fills the body with elements that start pages in all possible ways and
// use no explicit positions.
func (g *gen) flow(d *doc.Doc, n int) {
	aligns := []string{"left", "left", "center", "right", "block"}
	small := func() []doc.KV {
		st := g.looks()
		if g.p(30) {
			st = append(st, kv("line-spacing", g.of("1", "1.2", "2")))
		}
		return st
	}
	for ; n > 0; n-- {
		if g.p(25) {
			d.Body = append(d.Body, doc.Font(g.looksFontOnly()...))
		}
		switch g.r.Intn(8) {
		case 0, 1:
			d.Body = append(d.Body, doc.Text(append(small(), kv("h-align", g.of(aligns...))), g.inline(g.rng(5, 60), true, true)...))
		case 2:
			d.Body = append(d.Body, doc.Text(append(small(), kv("h-align", g.of(aligns...))), g.inline(g.rng(150, 700), true, true)...))
		case 3, 4:
			st := append(small(), kv("h-align", g.of(aligns...)), kv("padding", g.pad(5)), kv("line-width", "0.3"), kv("border", g.border()), kv("color", g.color()), kv("background-color", g.color()))
			if g.p(30) {
				st = append(st, kv("width", g.num(50, 90, 1)))
			}
			d.Body = append(d.Body, doc.Box(st, g.inline(g.rng(1, 60), true, true)...))
		case 5:
			t, _ := g.grouped(g.rng(1, 30), g.rng(1, 3), tableOpt{wordsPerCell: g.rng(1, 4), heights: g.p(30)})
			if g.p(60) {
				t.Repeat = g.rng(1, 2)
			}
			t.Style = append(t.Style, kv("border", "1,1,1,1"), kv("color", g.color()))
			d.Body = append(d.Body, t)
		case 6:
			if g.p(60) {
				d.Body = append(d.Body, doc.NewPage())
			}
		case 7:
			d.Body = append(d.Body, doc.Text(small(), doc.T(g.words(3))))
		}
	}
}

// margins of a header or footer that keep clear of nothing: they are drawn where
// they say.
func (g *gen) furniture(d *doc.Doc, y float64, colors map[pdfx.RGB]bool) []*doc.Node {
	var ns []*doc.Node
	col := func(n *doc.Node) *doc.Node {
		for _, k := range []string{"color", "background-color"} {
			n.Style = append(n.Style, kv(k, g.color()))
			colors[rgbOf(n, k)] = true
		}
		return n
	}
	part := func(s string) *doc.Node {
		if g.p(40) {
			return doc.P(s, g.looks()...)
		}
		return doc.T(s)
	}
	if g.unicode || g.p(40) {
		ns = append(ns, doc.Font(g.fullFont()...))
	}
	ns = append(ns, doc.SetY(y))
	for k := g.rng(1, 4); k > 0; k-- {
		switch g.r.Intn(9) {
		case 0, 1:
			ns = append(ns, doc.Text(append(g.looks(), kv("h-align", g.of("left", "right", "center", "block"))), doc.T(g.hfWords(g.rng(1, 3))), doc.P(g.hfWords(1), g.looks()...)))
		case 2:
			ns = append(ns, doc.Text(append(g.looks(), kv("h-align", g.of("left", "block"))), part(g.hfWords(1)+g.of(" P{cp}", " P{cp}", " P{cp};", " P{cp}/{np}", " P{cp}{cp}", " P{cp}-P{cp}", " P{cp} P{cp}", " P{cp} N{np} P{cp} N{np}"))))
		case 3:
			ns = append(ns, doc.Text(append(g.looks(), kv("h-align", g.of("left", "right", "block"))), part(g.hfWords(1)+g.of(" N{np}", " N{np}", " N{np}/N", " N{np}{np}"))))
		case 4:
			ns = append(ns, col(doc.Box(append(g.looks(), kv("border", g.border()), kv("line-width", "0.2"), kv("padding", g.pad(2))), doc.T("P{cp} "), doc.Br(), doc.T(" N{np}"))))
		case 5:
			t := doc.Table(doc.S("line-width", "0.1", "border", "1,1,1,1"), doc.Tr(nil, col(doc.Td(g.looks(), doc.T(g.hfWords(1)))), col(doc.Td(g.looks(), doc.T("N{np}")))), doc.Tr(nil, col(doc.Td(nil, doc.T("P{cp}")))))
			ns = append(ns, t)
		case 6:
			ns = append(ns, doc.Image("a.png", kv("width", "4")))
		case 7:
			ns = append(ns, doc.NewPage(), doc.SetX(d.Left+float64(g.rng(0, 20))))
		case 8:
			ns = append(ns, doc.Font(g.looksFontOnly()...))
		}
		if g.unicode && ns[len(ns)-1].Kind == "font" {
			ns[len(ns)-1].Style = append(ns[len(ns)-1].Style, kv("font-family", "gosans"))
		}
	}
	return ns
}

func isHF(t string) bool { return hasDigit(t) }

// bodyInk spells out everything drawn that is not header or footer.
func bodyInk(in *pdfx.Ink, ws []ink.Word, hf map[pdfx.RGB]bool) []string {
	var out []string
	for _, w := range ws {
		if isHF(w.Text) {
			continue
		}
		out = append(out, fmt.Sprintf("word %s w=%.2f", w, w.W))
	}
	for _, r := range in.Rects {
		if !hf[r.Color] {
			out = append(out, "area "+rectS(r))
		}
	}
	for _, l := range ink.Segs(in) {
		if !hf[l.Color] {
			out = append(out, "line "+segS(l))
		}
	}
	for _, i := range in.Images {
		if i.PxW != 40 {
			out = append(out, fmt.Sprintf("image p%d %.2f %.2f %.2f %.2f", i.Page, i.X, i.Y, i.W, i.H))
		}
	}
	out = append(out, fmt.Sprintf("%d pages", len(in.W)))
	return out
}

func runC12(e *run.Env, c *run.Case) {
	g := newGen(c.R)
	g.unicode = c.Idx%4 == 0
	d := g.newDoc("a4", "a5", "a5", "letter")
	wd := env(e).imageDir(e)
	le := env(e)
	hf := map[pdfx.RGB]bool{}
	g.flow(d, g.rng(2, 7))
	if c.Idx%60 == 59 { // page numbers of three digits
		for k := g.rng(90, 125); k > 0; k-- {
			d.Body = append(d.Body, doc.NewPage())
		}
		d.Body = append(d.Body, doc.Text(nil, doc.T(g.words(2))))
		c.Count("long documents", 1)
	}
	if g.p(20) {
		// the body leaves off far to the left
		d.Body = append(d.Body, doc.SetX(0), doc.NewPage(), doc.Text(nil, doc.T(g.words(1))))
	}
	where := g.r.Intn(4)
	if where != 0 {
		d.Header = g.furniture(d, 2+float64(g.rng(0, 4)), hf)
	}
	if where != 1 {
		d.Footer = g.furniture(d, -float64(g.rng(4, 16)), hf)
	}
	xml := d.XML()
	c.Smp = compact(xml)
	c.Signature(xml)
	ug := usesGo(d)
	_, in, ws := actual(c, le, xml, ug, wd)
	if in == nil {
		return
	}
	total := len(in.W)
	c.Triv = total < 2
	c.Count("pages", total)
	if total > 1 {
		c.Count("multi page documents", 1)
	}
	furnitureMonitor(c, d, in, ws, hf)
	// non-interference
	mine := bodyInk(in, ws, hf)
	c.Count("body words compared", len(ws))
	for v := 0; v < 2; v++ {
		d2 := d.Clone()
		d2.Header, d2.Footer = nil, nil
		hf2 := map[pdfx.RGB]bool{}
		if v == 1 {
			d2.Header = g.furniture(d, 1+float64(g.rng(0, 9)), hf2)
			d2.Footer = g.furniture(d, -float64(g.rng(3, 30)), hf2)
		}
		xml2 := d2.XML()
		_, in2, ws2 := actual(c, le, xml2, ug, wd)
		if in2 == nil {
			return
		}
		other := bodyInk(in2, ws2, hf2)
		c.Count("non-interference pairs", 1)
		for i := 0; i < len(mine) || i < len(other); i++ {
			a, b := "nothing", "nothing"
			if i < len(mine) {
				a = mine[i]
			}
			if i < len(other) {
				b = other[i]
			}
			if a != b {
				c.Fail("with another header and footer the body changes: %s becomes %s", a, b)
				c.Attach("xml2", xml2)
				break
			}
		}
	}
	if c.Failed() {
		c.Attach("xml", xml)
	}
}

// furnitureMonitor checks header and footer of every page.
func furnitureMonitor(c *run.Case, d *doc.Doc, in *pdfx.Ink, ws []ink.Word, hf map[pdfx.RGB]bool) {
	total := len(in.W)
	// what every page must show, according to the document
	expect := map[string]int{}
	each := func(ns []*doc.Node) {
		doc.Walk(ns, func(n *doc.Node) {
			if n.Kind == "#text" || n.Kind == "p" {
				for _, w := range wordsOf(n.Text) {
					expect[w]++
				}
			}
			if n.Kind == "image" {
				expect["image"]++
			}
		})
	}
	each(d.Header)
	each(d.Footer)
	var placeholders []string
	for t := range expect {
		if strings.ContainsAny(t, "{") {
			placeholders = append(placeholders, t)
		}
	}
	sort.Strings(placeholders)
	shown := func(t string, page, total int) string {
		return strings.ReplaceAll(strings.ReplaceAll(t, "{cp}", fmt.Sprint(page)), "{np}", fmt.Sprint(total))
	}
	pages := make([][]string, total+1)
	for i := range pages {
		seen := map[string]int{}
		if i == 0 {
			continue
		}
		for _, w := range ws {
			if w.Page != i || !isHF(w.Text) {
				continue
			}
			t := w.Text
			if strings.HasPrefix(t, "P") || strings.HasPrefix(t, "N") {
				found := false
				for _, e := range placeholders {
					if t == shown(e, i, total) {
						t, found = e, true
						break
					}
				}
				if !found {
					c.Fail("a text with placeholders is shown as %q on page %d of %d, the texts are %q", t, i, total, placeholders)
				}
				if strings.Contains(t, "{cp}") {
					c.Count("{cp} checked", 1)
				}
				if strings.Contains(t, "{np}") {
					c.Count("{np} checked", 1)
				}
			}
			seen[t]++
			c.Count("header and footer words", 1)
			x := w.X
			if total >= 10 && t != w.Text {
				x = 0 // behind another, longer page number
			}
			pages[i] = append(pages[i], fmt.Sprintf("%s x=%.2f y=%.2f %s %.2f %s %v", t, x, w.Y, w.Font, w.Size, w.Color, w.Underline))
		}
		for _, r := range in.Rects {
			if r.Page == i && hf[r.Color] {
				r.Page = 0
				pages[i] = append(pages[i], "area "+rectS(r))
			}
		}
		for _, l := range ink.Segs(in) {
			if l.Page == i && hf[l.Color] {
				l.Page = 0
				pages[i] = append(pages[i], "line "+segS(l))
			}
		}
		for _, m := range in.Images {
			if m.Page == i && m.PxW == 40 {
				seen["image"]++
				pages[i] = append(pages[i], fmt.Sprintf("image %.2f %.2f %.2f %.2f", m.X, m.Y, m.W, m.H))
			}
		}
		for t, n := range expect {
			if seen[t] != n {
				c.Fail("%s of header and footer appears %d times on page %d, expected %d", t, seen[t], i, n)
			}
		}
		for t := range seen {
			if expect[t] == 0 {
				c.Fail("%s on page %d belongs to neither header nor footer", t, i)
			}
		}
		sort.Strings(pages[i])
		if i > 1 {
			a, b := strings.Join(pages[1], "\n"), strings.Join(pages[i], "\n")
			if a != b {
				la, lb := pages[1], pages[i]
				for k := 0; k < len(la) && k < len(lb); k++ {
					if la[k] != lb[k] {
						c.Fail("header and footer of page %d differ from page 1: %q instead of %q", i, lb[k], la[k])
						break
					}
				}
				if len(la) != len(lb) {
					c.Fail("header and footer of page %d have %d items, page 1 has %d", i, len(lb), len(la))
				}
			}
		}
	}
}

// isoMM are the paper sizes in millimetres.
var isoMM = map[string][2]float64{"a3": {297, 420}, "a4": {210, 297}, "a5": {148, 210}, "letter": {215.9, 279.4}, "legal": {215.9, 355.6}}

func runC13(e *run.Env, c *run.Case) {
	g := newGen(c.R)
	g.unicode = c.Idx%5 == 0
	d := g.newDoc("a3", "a4", "a5", "letter", "legal")
	switch g.r.Intn(4) {
	case 0:
		d.Left, d.Top, d.Right, d.Bottom = float64(g.rng(0, 45)), float64(g.rng(0, 60)), float64(g.rng(0, 40)), float64(g.rng(0, 60))
	case 1:
		d.Left, d.Top, d.Right, d.Bottom = 12.7, 25.4, 10.16, 19.05
	case 2:
		if g.p(50) {
			d.Left, d.Top, d.Right, d.Bottom = 0, 0, 0, 0
		}
	}
	if g.unicode {
		d.Body = d.Body[:1]
	}
	pw, ph := pageSize(d)
	g.pageW, g.pageH = pw-d.Left-d.Right-2, ph-d.Top-d.Bottom
	g.flow(d, g.rng(1, 6))
	if g.p(40) {
		d.Header = []*doc.Node{doc.SetY(1), doc.Text(nil, doc.T(g.hfWords(1)))}
		if g.unicode {
			d.Header = nil
		}
	}
	s := renderBoth(e, c, d, "")
	if s == nil {
		return
	}
	if s.ren.Over {
		c.Triv = true
		return
	}
	c.Triv = len(s.act.W) < 2 && len(s.aw) < 20
	iso := isoMM[d.Format]
	if d.Orientation == "landscape" {
		iso[0], iso[1] = iso[1], iso[0]
		c.Count("landscape pages", len(s.act.W))
	}
	for i := range s.act.W {
		if math.Abs(s.act.W[i]-iso[0]) > 0.6 || math.Abs(s.act.H[i]-iso[1]) > 0.6 {
			c.Fail("page %d measures %.1f x %.1f mm, %s %s is %.1f x %.1f", i+1, s.act.W[i], s.act.H[i], d.Format, d.Orientation, iso[0], iso[1])
		}
	}
	const tol = 0.06
	top := make([]float64, len(s.act.W)+1)
	left := make([]float64, len(s.act.W)+1)
	for i := range top {
		top[i], left[i] = 1e9, 1e9
	}
	for _, w := range s.aw {
		if isHF(w.Text) {
			continue
		}
		y := w.Y - 0.8*w.Size/pdfx.PtPerMM
		if w.X < d.Left-tol || w.X+w.W > pw-d.Right+tol || y < d.Top-tol || w.Y > ph-d.Bottom+tol {
			c.Fail("%s leaves the margins x %.2f to %.2f, y %.2f to %.2f", w, d.Left, pw-d.Right, d.Top, ph-d.Bottom)
		}
		if y < top[w.Page] {
			top[w.Page] = y
		}
		left[w.Page] = math.Min(left[w.Page], w.X-1)
	}
	frames := func(p int, x0, y0, x1, y1 float64, what string) {
		c.Count("frames", 1)
		if x0 < d.Left-tol || x1 > pw-d.Right+tol || y0 < d.Top-tol || y1 > ph-d.Bottom+tol {
			c.Fail("%s leaves the margins x %.2f to %.2f, y %.2f to %.2f", what, d.Left, pw-d.Right, d.Top, ph-d.Bottom)
		}
		top[p] = math.Min(top[p], y0)
		left[p] = math.Min(left[p], x0)
	}
	for _, r := range s.act.Rects {
		if r.W > 0 && r.H > 0 {
			frames(r.Page, r.X, r.Y, r.X+r.W, r.Y+r.H, "area "+rectS(r))
		}
	}
	for p := 1; p < len(top); p++ {
		if top[p] > 1e8 {
			continue
		}
		c.Count("page starts", 1)
		if !ink.Near(top[p], d.Top, 0.3) {
			c.Fail("page %d starts at y=%.2f, the top margin is %.2f", p, top[p], d.Top)
		}
	}
	compareWords(c, s.ew, s.aw, aspects{page: true, x: true, y: true})
	compareRects(c, s.exp.Rects, s.act.Rects)
	s.done(c)
}
