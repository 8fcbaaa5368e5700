package checks

import (
	"fmt"
	"math"
	"strings"

	"verif/harness/doc"
	"verif/harness/ink"
	"verif/harness/run"
)

func init() {
	register(&run.Prop{
		ID: "C05", Quick: 7200, Thorough: 86400, Run: runC05,
		Rule:        "Each case lays out several texts, boxes and table cells with left, center or right alignment, random widths, line spacings, fonts (core and UTF-8), line breaks and words wider than the line. Every word's page, x and y is compared with a reference layout; a model-free monitor checks for every text of the case that lines keep within the width and that no line could have taken the next word. Non-trivial: at least 4 lines were laid out.",
		Technique:   "Runtime comparison of recorded word positions with a reference line breaker, plus model-free fit and greediness monitors.",
		Min:         map[string]int{"words": 60000, "lines": 12000, "centered or right lines": 6000, "wide words": 300, "greedy decisions": 1500},
		Assumptions: []string{"one font size per text (the line height of mixed sizes is not specified)"},
	})
	register(&run.Prop{
		ID: "C06", Quick: 6000, Thorough: 72000, Run: runC06,
		Rule:      "Each case lays out block aligned texts, boxes and cells of random widths and fonts with paragraphs and line breaks. Every word (and piece of a word) is compared in page, x and y with a reference layout; a model-free monitor checks the edges and the equality of gaps of every justified line. Non-trivial: at least one justified line.",
		Technique: "Runtime comparison of recorded word positions with a reference justifier, plus model-free edge, gap and hyphenation monitors.",
		Min:       map[string]int{"words": 60000, "justified lines": 7000, "divided words": 2500, "last lines": 4000, "measured gaps": 5000},
	})
}

// container wraps inline content into a text, a box or a single cell and
// returns the node and its inner width.
func (g *gen) container(al string, kids []*doc.Node) *doc.Node {
	st := []doc.KV{kv("h-align", al)}
	if al == "left" && g.p(30) {
		st = nil
	}
	if g.p(70) {
		hi := math.Min(g.pageW, 160)
		st = append(st, kv("width", g.num(25, hi, 1)))
	}
	if g.p(10) {
		st = append(st, kv("width", "900"))
	}
	if g.p(60) {
		st = append(st, kv("line-spacing", g.of("0.75", "0.9", "1", "1.1", "1.5", "2", "2.5")))
	}
	st = append(st, g.looks()...)
	if g.p(30) {
		st = append(st, kv("font-point-size", g.of(sizes...)))
	}
	switch g.r.Intn(5) {
	case 0:
		st = append(st, kv("padding", g.pad(4)), kv("line-width", "0.2"))
		return doc.Box(st, kids...)
	case 1:
		st = append(st, kv("padding", g.pad(3)), kv("line-width", "0.2"))
		return doc.Table(st, doc.Tr(nil, doc.Td(nil, kids...)))
	}
	return doc.Text(st, kids...)
}

func runC05(e *run.Env, c *run.Case) {
	g := newGen(c.R)
	if c.R.Intn(5) == 0 {
		g.dup = g.rng(5, 60)
		c.Count("documents with repetitions", 1)
	}
	g.unicode = c.Idx%3 == 0
	g.punct, g.slash = true, g.p(20)
	d := g.newDoc()
	if g.p(40) {
		d.Body = append(d.Body, doc.Font(g.fullFont()...))
	}
	for k := g.rng(2, 6); k > 0; k-- {
		nw := g.rng(1, 35)
		kids := g.inline(nw, true, true)
		if g.p(25) {
			// a word that no line can hold
			var w string
			for j := 0; j < 5; j++ {
				w += g.word()
			}
			g.used[strings.ToLower(w)] = true
			for _, n := range kids {
				if n.Kind == "#text" {
					n.Text += " " + w + " " + g.word()
					c.Count("wide words", 1)
					break
				}
			}
		}
		if g.p(15) {
			kids = append([]*doc.Node{doc.Br()}, kids...)
		}
		if g.p(15) {
			kids = append(kids, doc.Br())
		}
		if g.p(10) {
			d.Body = append(d.Body, doc.SetX(d.Left+float64(g.rng(0, 10))))
		}
		g.again(&kids)
		d.Body = append(d.Body, g.container(g.of("left", "center", "right"), kids))
		g.again(&d.Body)
		if g.p(30) {
			d.Body = append(d.Body, doc.LF(1))
		}
	}
	if g.p(25) {
		t := g.table(tableOpt{rows: g.rng(1, 4), cols: g.rng(1, 4), spans: g.p(40), maxRS: 2, wordsPerCell: 7, looks: true, brs: true, ps: true, padding: true, halign: []string{"left", "center", "right"}, valign: g.p(50)})
		d.Body = append(d.Body, t)
	}
	s := renderBoth(e, c, d, "")
	if s == nil {
		return
	}
	c.Count("lines", len(s.lines))
	for _, l := range s.lines {
		if l.HAlign != "left" {
			c.Count("centered or right lines", 1)
		}
	}
	c.Triv = len(s.lines) < 4
	comparePages(c, s)
	compareWords(c, s.ew, s.aw, aspPos)
	if !c.Failed() {
		if g.dup == 0 {
			fits(e, c, d, s)
		}
	}
	s.done(c)
}

// fits checks plain texts without looking at the reference layout.
func fits(e *run.Env, c *run.Case, d *doc.Doc, s *seen) {
	at := map[string]ink.Word{}
	for _, w := range s.aw {
		at[w.Text] = w
	}
	le := env(e).metrics(s.usesGo)
texts:
	for _, n := range d.Body {
		if n.Kind == "setx" {
			return // lines may start off the left margin from here on
		}
		if n.Kind != "text" {
			continue
		}
		for _, k := range n.Kids {
			for _, t := range wordsOf(k.Text) {
				if _, ok := at[t]; !ok {
					continue texts // a word wider than the page
				}
			}
		}
		width := pageMM[d.Format][0]
		if d.Orientation == "landscape" {
			width = pageMM[d.Format][1]
		}
		width -= d.Left + d.Right + 2
		want := width
		for _, kv := range n.Style {
			if kv.K == "width" {
				fmt.Sscan(kv.V, &want)
			}
		}
		width = math.Min(width, want)
		var line []ink.Word
		brk := false
		flush := func(next *ink.Word) {
			if len(line) == 0 {
				return
			}
			last := line[len(line)-1]
			got := last.X + last.W - line[0].X
			if len(line) > 1 && got > width+0.05 {
				c.Fail("line from %s to %s is %.2f wide, more than %.2f", line[0], last, got, width)
			}
			if next != nil && !brk {
				need := 0.0
				for _, w := range append(append([]ink.Word(nil), line...), *next) {
					need += w.W + le.Width(w.Font, w.Size, " ")
				}
				if need < width-0.05 {
					c.Fail("line from %s to %s ends although %s fits: %.2f of %.2f", line[0], last, *next, need, width)
				}
				c.Count("greedy decisions", 1)
			}
			line = nil
		}
		for _, k := range n.Kids {
			if k.Kind == "br" {
				brk = true
				continue
			}
			for _, t := range wordsOf(k.Text) {
				w := at[t]
				if len(line) > 0 && (line[0].Page != w.Page || math.Abs(line[0].Y-w.Y) > 0.3) {
					flush(&w)
				} else if brk && len(line) > 0 {
					c.Fail("%s stands behind a line break in the same line as %s", w, line[0])
				}
				brk = false
				line = append(line, w)
			}
		}
		flush(nil)
	}
}

func runC06(e *run.Env, c *run.Case) {
	g := newGen(c.R)
	if c.R.Intn(5) == 0 {
		g.dup = g.rng(5, 60)
		c.Count("documents with repetitions", 1)
	}
	g.unicode = c.Idx%4 == 0
	g.punct = g.p(50)
	g.mix = true
	g.maxLen = g.rng(6, 16)
	d := g.newDoc()
	if g.p(40) {
		d.Body = append(d.Body, doc.Font(g.fullFont()...))
	}
	for k := g.rng(2, 6); k > 0; k-- {
		kids := g.inline(g.rng(1, 45), true, true)
		if g.p(15) {
			kids = append([]*doc.Node{doc.Br()}, kids...)
		}
		if g.p(15) {
			kids = append(kids, doc.Br(), doc.T("\n  "))
		}
		g.again(&kids)
		d.Body = append(d.Body, g.container("block", kids))
		g.again(&d.Body)
	}
	if g.p(25) {
		t := g.table(tableOpt{rows: g.rng(1, 4), cols: g.rng(1, 4), spans: g.p(40), maxRS: 2, wordsPerCell: 9, looks: true, brs: true, ps: true, padding: true, halign: []string{"block"}, valign: g.p(50)})
		d.Body = append(d.Body, t)
	}
	s := renderBoth(e, c, d, "")
	if s == nil {
		return
	}
	just := 0
	for _, l := range s.lines {
		if l.Last {
			c.Count("last lines", 1)
		} else if l.Items > 1 {
			just++
		}
		if l.Hyphen {
			c.Count("divided words", 1)
		}
	}
	c.Count("justified lines", just)
	c.Triv = just == 0
	comparePages(c, s)
	compareWords(c, s.ew, s.aw, aspPos)
	if !c.Failed() {
		if g.dup == 0 {
			gaps(c, d, s)
		}
	}
	s.done(c)
}

// gaps checks lines of plain texts without looking at the reference layout: in
// each line all gaps are equal (when its words share one font), and every line
// but the last of a paragraph ends at the right edge.
func gaps(c *run.Case, d *doc.Doc, s *seen) {
	type key struct {
		page int
		y    int
	}
	lines := map[key][]ink.Word{}
	var order []key
	for _, w := range s.aw {
		k := key{w.Page, int(math.Round(w.Y * 10))}
		if _, ok := lines[k]; !ok {
			order = append(order, k)
		}
		lines[k] = append(lines[k], w)
	}
	_ = order
	for _, n := range d.Body {
		if n.Kind != "text" {
			continue
		}
		mine := map[string]bool{}
		for _, k := range n.Kids {
			for _, w := range wordsOf(k.Text) {
				mine[w] = true
			}
		}
		for _, l := range lines {
			if !mine[l[0].Text] || len(l) < 3 {
				continue
			}
			same := true
			for _, w := range l[1:] {
				same = same && w.Font == l[0].Font && w.Size == l[0].Size && mine[w.Text] == mine[l[0].Text]
			}
			if !same {
				continue
			}
			lo, hi := 1e9, -1e9
			for i := 1; i < len(l); i++ {
				gap := l[i].X - l[i-1].X - l[i-1].W
				lo, hi = math.Min(lo, gap), math.Max(hi, gap)
			}
			c.Count("measured gaps", len(l)-1)
			if hi-lo > 0.05 {
				c.Fail("gaps between %.2f and %.2f in the line of %s", lo, hi, l[0])
			}
			if lo <= 0 {
				c.Fail("words touch (gap %.2f) in the line of %s", lo, l[0])
			}
		}
	}
}
