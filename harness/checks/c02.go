package checks

import (
	"fmt"
	"sort"

	"verif/harness/doc"
	"verif/harness/pdfx"
	"verif/harness/run"
)

func init() {
	register(&run.Prop{
		ID: "C02", Quick: 4800, Thorough: 57600, Run: runC02,
		Rule:      "Each case is a sequence of font instructions and styled texts, boxes, paragraphs and tables in body, header and footer with page breaks in between. For every word the font, style, size, underlining and color, and for every frame its colors and line width, are compared with an independently computed scope model (in a quarter of the cases positions as well, with line feeds after the elements, whose height is the one of the font in force); the same document with all local styles of one element removed must draw every other element alike. Non-trivial: at least 2 font instructions or local styles and 12 words.",
		Technique: "Scope monitor over recorded text-showing operations: reference model of styles in force plus a metamorphic removal of local styles.",
		Min:       map[string]int{"words": 100000, "font instructions": 2000, "styled elements": 5000, "multi page documents": 500, "metamorphic pairs": 300, "line feeds after elements": 800},
	})
	register(&run.Prop{
		ID: "C03", Quick: 36000, Thorough: 432000, Run: runC03,
		Rule:      "Odd cases: random style sheets (base blocks, first/last row/cell blocks, redefinitions, undefined classes, unknown attributes) used on texts, paragraphs, boxes, tables, rows, cells and fonts; everything drawn is compared with the reference cascade. Even cases: the same kind of style sheets applied through the style and xdoc packages to arbitrary starting styles, compared attribute by attribute with the model. Non-trivial: at least 3 class uses.",
		Technique: "Runtime comparison of drawn styles and of style values with an executable cascade model.",
		Min:       map[string]int{"words": 10000, "class uses": 10000, "selector uses": 2000, "attribute comparisons": 50000},
	})
}

// frames counts the frames by appearance.
func frames(in *pdfx.Ink) map[string]int {
	m := map[string]int{}
	for _, s := range in.Segs {
		m[fmt.Sprintf("line %s width %.2f", s.Color, s.Width)]++
	}
	for _, r := range in.Rects {
		m[fmt.Sprintf("area %s", r.Color)]++
	}
	return m
}

func compareFrames(c *run.Case, exp, act *pdfx.Ink) {
	e, a := frames(exp), frames(act)
	var ks []string
	for k := range e {
		ks = append(ks, k)
	}
	for k := range a {
		if _, ok := e[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		if e[k] != a[k] {
			c.Fail("%s drawn %d times, expected %d", k, a[k], e[k])
		}
	}
}

// hf fills header and footer.
func (g *gen) hf(d *doc.Doc, rich bool) {
	mk := func(y float64) []*doc.Node {
		ns := []*doc.Node{doc.SetY(y)}
		switch {
		case g.unicode || g.p(50):
			ns = append(ns, doc.Font(g.fullFont()...))
		case g.p(50):
			ns = append(ns, doc.Font(g.looksFontOnly()...))
		}
		switch k := g.r.Intn(4); {
		case k == 0 && rich:
			t := doc.Table(doc.S("line-width", "0.1"), doc.Tr(nil, doc.Td(g.looks(), doc.T(g.hfWords(1))), doc.Td(g.looks(), doc.T("{cp}"))))
			ns = append(ns, t)
		case k == 1 && rich:
			ns = append(ns, doc.Box(append(g.looks(), kv("line-width", "0.2")), doc.T(g.hfWords(2)), doc.P("{cp}/{np}", g.looks()...)))
		default:
			ns = append(ns, doc.Text(g.looks(), doc.T(g.hfWords(2)+" {cp}"), doc.P(g.hfWords(1), g.looks()...)))
			if rich && g.p(50) {
				ns = append(ns, doc.Font(kv("font-weight", "bold")), doc.Text(nil, doc.T(g.hfWords(1))))
			}
		}
		return ns
	}
	if g.p(60) {
		d.Header = mk(3)
	}
	if g.p(60) {
		d.Footer = mk(-9)
	}
}

func runC02(e *run.Env, c *run.Case) {
	g := newGen(c.R)
	g.unicode = c.Idx%4 == 0
	d := g.newDoc()
	if g.p(60) {
		g.hf(d, true)
	}
	aligns := []string{"left", "center", "right", "block"}
	if c.Idx%4 == 1 {
		aligns = aligns[:3] // pieces of divided words are not unique
	}
	n := g.rng(3, 9)
	fonts, lfs := 0, 0
	placed := c.Idx%4 == 2 // one size in a block: positions are compared, too
	var styled []*doc.Node
	local := func(size bool) []doc.KV {
		st := g.looks()
		if size && g.p(40) {
			st = append(st, kv("font-point-size", g.of(sizes...)))
		}
		return st
	}
	for i := 0; i < n; i++ {
		if g.p(35) {
			d.Body = append(d.Body, doc.Font(g.looksFontOnly()...))
			fonts++
		}
		st := local(true)
		if g.p(60) {
			st = append(st, kv("h-align", g.of(aligns...)))
		}
		var nd *doc.Node
		nw := g.rng(1, 25)
		if g.p(10) {
			nw = g.rng(200, 500)
		}
		switch k := g.r.Intn(10); {
		case k < 5:
			nd = doc.Text(st, g.inline(nw, true, true)...)
		case k < 7:
			if nw > 90 {
				nw = 90
			}
			st = append(st, kv("padding", g.pad(5)))
			if g.p(60) {
				st = append(st, kv("border", "1,1,1,1"), kv("color", g.color()), kv("line-width", g.of("0.2", "0.4", "0.7")))
			}
			if g.p(50) {
				st = append(st, kv("background-color", g.color()))
			}
			nd = doc.Box(st, g.inline(nw, true, true)...)
			if g.p(10) {
				nd.Kids = nil
			}
		default:
			nd = g.table(tableOpt{rows: g.rng(1, 6), cols: g.rng(1, 3), spans: g.p(40), maxRS: 2, wordsPerCell: 4, looks: true, brs: true, ps: true, halign: aligns, emptyCells: true, borders: g.p(50), valign: g.p(50)})
			nd.Style = append(nd.Style, local(true)...)
			if g.p(25) {
				// sizes within the table
				tr := nd.Kids[0]
				if len(tr.Kids) > 0 {
					tr.Kids[0].Style = append(tr.Kids[0].Style, kv("font-point-size", g.of(sizes...)))
				}
			}
			if g.p(20) && len(nd.Kids[0].Kids) > 0 && !placed {
				td := nd.Kids[0].Kids[0]
				td.Style = append(td.Style, kv("height", "40"))
				td.Kids = []*doc.Node{doc.Box(append(local(true), kv("line-width", "0.1")), doc.T(g.words(2)))}
			}
		}
		if g.p(15) && len(nd.Kids) > 0 && nd.Kind != "table" && !placed {
			// another size within the line
			for _, k := range nd.Kids {
				if k.Kind == "p" {
					k.Style = append(k.Style, kv("font-point-size", g.of(sizes...)))
					break
				}
			}
		}
		styled = append(styled, nd)
		d.Body = append(d.Body, nd)
		if placed && g.p(60) {
			// the height of the lines is the one of the font in force
			d.Body = append(d.Body, doc.LF(float64(g.rng(1, 3))))
			lfs++
		}
		switch g.r.Intn(10) {
		case 0:
			d.Body = append(d.Body, doc.NewPage())
		case 1:
			d.Body = append(d.Body, doc.LF(1))
		}
	}
	s := renderBoth(e, c, d, "")
	if s == nil {
		return
	}
	c.Count("font instructions", fonts)
	c.Count("styled elements", len(styled))
	if len(s.act.W) > 1 {
		c.Count("multi page documents", 1)
	}
	c.Triv = fonts+len(styled) < 2 || len(s.aw) < 12
	c.Count("line feeds after elements", lfs)
	if placed && !s.ren.Over {
		compareWords(c, s.ew, s.aw, aspAll)
	} else {
		compareWords(c, s.ew, s.aw, aspLooks)
	}
	compareFrames(c, s.exp, s.act)
	// metamorphic: without the local looks of one element, all others look alike
	if c.Idx%4 == 1 && !c.Failed() {
		d2 := d.Clone()
		k := g.r.Intn(len(styled))
		mine := map[string]bool{}
		j := -1
		for _, n := range d2.Body {
			if n.Kind != "text" && n.Kind != "box" && n.Kind != "table" {
				continue
			}
			j++
			if j != k {
				continue
			}
			doc.Walk([]*doc.Node{n}, func(x *doc.Node) {
				var keep []doc.KV
				for _, kv := range x.Style {
					switch kv.K {
					case "font-family", "font-style", "font-weight", "font-decoration", "text-color", "font-point-size":
					default:
						keep = append(keep, kv)
					}
				}
				x.Style = keep
				if x.Kind == "#text" || x.Kind == "p" {
					for _, w := range wordsOf(x.Text) {
						mine[w] = true
					}
				}
			})
		}
		_, in2, aw2 := actual(c, env(e), d2.XML(), s.usesGo, "")
		if in2 == nil {
			return
		}
		look := map[string]string{}
		for _, w := range s.aw {
			look[w.Text] = fmt.Sprint(w.Font, w.Size, w.Color, w.Underline)
		}
		for _, w := range aw2 {
			if l, ok := look[w.Text]; ok && !mine[w.Text] && !hasDigit(w.Text) {
				if now := fmt.Sprint(w.Font, w.Size, w.Color, w.Underline); now != l {
					c.Fail("removing the styles of element %d changes %q elsewhere from %s to %s", k, w.Text, l, now)
					c.Attach("xml2", d2.XML())
				}
			}
		}
		c.Count("metamorphic pairs", 1)
	}
	s.done(c)
}
