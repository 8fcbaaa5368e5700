package checks

import (
	"fmt"
	"strings"

	"verif/harness/doc"
	"verif/harness/ink"
	"verif/harness/ref"
	"verif/harness/run"
)

func init() {
	register(&run.Prop{
		ID: "C01", Quick: 9000, Thorough: 108000, Run: runC01,
		Rule:        "Each case is a generated document (texts, boxes, tables with spans, paragraphs, line breaks, block alignment with hyphenation, page breaks, header and footer, random XML spelling). The monitor reads all text back from the PDF in drawing order and requires the body's unique words exactly once each, in document order, on non-decreasing pages and inside the page; a word may only be divided at a line end, in block aligned text, with a hyphen. Non-trivial: at least 20 body words were observed; distinct by document text.",
		Technique:   "Conservation monitor (exactly-once, in order) over the text recorded from the emitted PDF, words made unique per document.",
		Min:         map[string]int{"body words": 20000, "divided words": 200, "page crossings": 150, "table cells": 2000},
		Assumptions: []string{"words are shorter than the page is wide; tables' rows fit on a page; the text of header and footer is told apart by its digits"},
	})
}

type expWord struct {
	text  string
	block bool
}

// bodyWords lists the words of the body in document order.
func bodyWords(d *doc.Doc) []expWord {
	var out []expWord
	var inline func(ns []*doc.Node, block bool)
	inline = func(ns []*doc.Node, block bool) {
		for _, n := range ns {
			if n.Kind == "#text" || n.Kind == "p" {
				t := ref.Rectify(n.Text)
				if t == "" {
					continue
				}
				for _, w := range strings.Split(t, " ") {
					out = append(out, expWord{w, block})
				}
			}
		}
	}
	isBlock := func(ns ...*doc.Node) bool {
		al := "left"
		for _, n := range ns {
			for _, kv := range n.Style {
				if kv.K == "h-align" {
					al = kv.V
				}
			}
		}
		return al == "block"
	}
	for _, n := range d.Body {
		switch n.Kind {
		case "text", "box":
			inline(n.Kids, isBlock(n))
		case "table":
			for _, tr := range n.Kids {
				for _, td := range tr.Kids {
					b := isBlock(n, tr, td)
					inline(td.Kids, b)
					for _, k := range td.Kids {
						if k.Kind == "box" {
							inline(k.Kids, isBlock(k))
						}
					}
				}
			}
		}
	}
	return out
}

func (g *gen) hfWords(n int) string {
	var p []string
	for i := 0; i < n; i++ {
		g.n++
		p = append(p, fmt.Sprint(70000+g.n))
	}
	return strings.Join(p, " ")
}

func runC01(e *run.Env, c *run.Case) {
	g := newGen(c.R)
	if c.R.Intn(5) == 0 {
		g.dup = g.rng(5, 60)
		c.Count("documents with repetitions", 1)
	}
	g.unicode, g.slash = c.Idx%3 == 0, c.Idx%5 == 0
	g.punct = true
	d := g.newDoc("a4", "a4", "letter", "legal", "a3")
	if g.p(60) {
		d.Header = append(d.Header, doc.Font(g.fullFont()...), doc.SetY(3), doc.Text(nil, doc.T(g.hfWords(3)+" {cp}")))
	}
	if g.p(60) {
		d.Footer = append(d.Footer, doc.Font(g.fullFont()...), doc.SetY(-8), doc.Box(doc.S("line-width", "0.2", "h-align", "right"), doc.T(g.hfWords(2)+" {np}")))
	}
	aligns := []string{"left", "left", "center", "right", "block", "block"}
	n := g.rng(2, 7)
	for i := 0; i < n; i++ {
		st := []doc.KV{kv("h-align", g.of(aligns...))}
		if g.p(50) {
			st = append(st, kv("line-spacing", g.of("1", "1.2", "1.5", "2")))
		}
		if g.p(50) {
			st = append(st, kv("width", g.num(70, 110, 1)))
		}
		st = append(st, g.looks()...)
		nw := g.rng(1, 60)
		if g.p(12) {
			nw = g.rng(200, 900)
		}
		switch k := g.r.Intn(10); {
		case k < 4:
			d.Body = append(d.Body, doc.Text(st, g.inline(nw, true, true)...))
		case k < 7:
			if nw > 120 {
				nw = 120
			}
			st = append(st, kv("padding", g.pad(6)), kv("line-width", "0.3"))
			d.Body = append(d.Body, doc.Box(st, g.inline(nw, true, true)...))
		case k < 9:
			t := g.table(tableOpt{rows: g.rng(1, 9), cols: g.rng(1, 4), spans: g.p(60), maxRS: 2, wordsPerCell: 5, looks: true, brs: true, ps: true, padding: true, halign: aligns, emptyCells: true, ragged: g.p(30)})
			if g.p(20) {
				td := t.Kids[0].Kids[0]
				if len(t.Kids[0].Kids) > 0 {
					// a row is not made higher by the boxes of its cells
					td.Style = append(td.Style, kv("height", "45"))
					g.fewBreaks = true
					td.Kids = []*doc.Node{doc.T("\n"), doc.Box(doc.S("line-width", "0.1"), g.inline(3, true, true)...), doc.T("\n")}
					g.fewBreaks = false
				}
			}
			if n := len(t.Kids); g.dup > 0 && n > 0 {
				rows := t.Kids[n-1:]
				for _, td := range rows[0].Kids {
					td.RowSpan = 0
				}
				t.Kids = append(t.Kids, doc.Clone(rows)...)
			}
			d.Body = append(d.Body, t)
			g.again(&d.Body)
		default:
			// a word wider than its column
			g.maxLen = 12
			w := g.word() + g.word() + g.word()
			if g.used[w] {
				continue
			}
			g.used[strings.ToLower(w)] = true
			d.Body = append(d.Body, doc.Text(doc.S("width", "12", "h-align", g.of("left", "center", "block")), doc.T(g.word()+" "+w+" "+g.word())))
		}
		switch g.r.Intn(12) {
		case 0:
			d.Body = append(d.Body, doc.NewPage())
		case 1, 2:
			d.Body = append(d.Body, doc.LF(float64(g.rng(1, 3))))
		case 3:
			d.Body = append(d.Body, doc.Font(g.looksFontOnly()...))
		}
	}
	xml := d.Spell(g.r)
	c.Smp = compact(xml)
	c.Signature(xml)
	want := bodyWords(d)
	c.Triv = len(want) < 20
	d.Walk(func(n *doc.Node) {
		if n.Kind == "td" {
			c.Count("table cells", 1)
		}
	})
	_, in, words := actual(c, env(e), xml, usesGo(d), "")
	if in == nil {
		return
	}
	var body []ink.Word
	for _, w := range words {
		if !strings.ContainsAny(w.Text, "0123456789") {
			body = append(body, w)
		}
	}
	conserve(c, want, body)
	for _, w := range body {
		if w.X < 0 || w.Y < 0 || w.X+w.W > in.W[w.Page-1]+0.5 || w.Y > in.H[w.Page-1]+0.5 {
			c.Fail("text outside the page: %s", w)
		}
	}
	for _, w := range body {
		if r, ok := hidden(in, w); ok {
			c.Fail("text is painted over by a later area %s: %s", rectS(r), w)
		}
	}
	c.Count("body words", len(body))
	if c.Failed() {
		c.Attach("xml", xml)
	}
}

// looksFontOnly is a partial font declaration.
func (g *gen) looksFontOnly() []doc.KV {
	st := []doc.KV{kv("font-point-size", g.of(sizes...))}
	if g.p(40) {
		st = append(st, kv("font-family", g.family()))
	}
	if g.p(40) {
		st = append(st, kv("font-weight", g.of("bold", "normal")))
	}
	if g.p(40) {
		st = append(st, kv("font-style", g.of("italic", "normal")))
	}
	if g.p(30) {
		st = append(st, kv("font-decoration", g.of("underline", "normal")))
	}
	return st
}

// conserve matches the drawn pieces with the expected words.
func conserve(c *run.Case, want []expWord, got []ink.Word) {
	i := 0
	lastPage := 0
	for _, w := range got {
		if w.Page < lastPage {
			c.Fail("text goes back from page %d to %d at %s", lastPage, w.Page, w)
			return
		}
		if lastPage != 0 && w.Page > lastPage {
			c.Count("page crossings", 1)
		}
		lastPage = w.Page
	}
	for _, x := range want {
		if i >= len(got) {
			c.Fail("text ends early: %q and what follows is missing", x.text)
			return
		}
		rest := x.text
		first := true
		for {
			if i >= len(got) {
				c.Fail("text ends within %q", x.text)
				return
			}
			w := got[i]
			if w.Text == rest {
				i++
				break
			}
			piece := strings.TrimSuffix(w.Text, "-")
			if !x.block || piece == w.Text || piece == "" || !strings.HasPrefix(rest, piece) {
				if first {
					c.Fail("expected %q next, found %s", x.text, w)
				} else {
					c.Fail("expected %q (rest of %q) next, found %s", rest, x.text, w)
				}
				return
			}
			if i+1 < len(got) && got[i+1].Page == w.Page && got[i+1].Y < w.Y+0.5 {
				c.Fail("word %q is divided within a line: %s", x.text, w)
				return
			}
			c.Count("divided words", 1)
			rest = rest[len(piece):]
			first = false
			i++
		}
	}
	if i < len(got) {
		c.Fail("extra text: %s", got[i])
	}
}
