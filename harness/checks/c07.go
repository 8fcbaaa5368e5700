package checks

import (
	"fmt"
	"math"
	"strconv"

	"verif/harness/doc"
	"verif/harness/ink"
	"verif/harness/pdfx"
	"verif/harness/run"
)

func init() {
	register(&run.Prop{
		ID: "C07", Quick: 12000, Thorough: 144000, Run: runC07,
		Rule:      "Each case is a sequence of boxes (declared and automatic widths and heights, paddings, borders on any side, offsets, line widths, unique colors, empty or with text in any alignment) with texts, setx/sety, line feeds and page breaks between. All words, areas and lines are compared with the reference; a model-free monitor takes every box's frame from its unique colors and checks its extent, its borders, that its words stand inside, that the next element continues directly below at the left margin, and that a box moved to a new page did not fit. Non-trivial: at least 3 boxes.",
		Technique: "Runtime comparison of recorded areas, lines and words with a reference box layout plus model-free geometric monitors.",
		Min:       map[string]int{"boxes": 15000, "borders": 20000, "boxes moved to a new page": 500, "boxes with offset": 2000, "empty boxes": 500, "continuations": 4000},
	})
}

// pageSize is width and height of the document's pages in mm.
func pageSize(d *doc.Doc) (w, h float64) {
	sz := pageMM[d.Format]
	if d.Orientation == "landscape" {
		sz[0], sz[1] = sz[1], sz[0]
	}
	return sz[0], sz[1]
}

func styleF(n *doc.Node, k string, def float64) float64 {
	for _, kv := range n.Style {
		if kv.K == k {
			def, _ = strconv.ParseFloat(kv.V, 64)
		}
	}
	return def
}

func styleS(n *doc.Node, k, def string) string {
	for _, kv := range n.Style {
		if kv.K == k {
			def = kv.V
		}
	}
	return def
}

func style4(n *doc.Node, k string) (r [4]float64) {
	for _, kv := range n.Style {
		if kv.K == k {
			fmt.Sscanf(kv.V, "%f,%f,%f,%f", &r[0], &r[1], &r[2], &r[3])
		}
	}
	return
}

func rgbOf(n *doc.Node, k string) pdfx.RGB {
	v := styleS(n, k, "")
	if len(v) > 6 {
		v = v[1:]
	}
	x, _ := strconv.ParseUint(v, 16, 32)
	return pdfx.RGB{R: int(x >> 16), G: int(x >> 8 & 255), B: int(x & 255)}
}

// framed makes a box with unique colors.
func (g *gen) framed(avail float64, aligns []string) *doc.Node {
	lw := g.of("0.1", "0.2", "0.3", "0.5", "0.8", "1.2")
	st := []doc.KV{kv("line-width", lw), kv("color", g.color()), kv("background-color", g.color()), kv("border", g.border())}
	if g.p(70) {
		st = append(st, kv("padding", g.pad(6)))
	}
	width := avail
	switch g.r.Intn(6) {
	case 0:
		st = append(st, kv("width", "1000"))
	case 1:
		st = append(st, kv("width", "-1"))
	case 2:
	default:
		if hi := math.Min(avail, 150); hi > 40 {
			w := g.num(40, hi, 1)
			st = append(st, kv("width", w))
			width, _ = strconv.ParseFloat(w, 64)
		}
	}
	if g.p(35) {
		lo, hi := -3.0, math.Min(8, avail-width)
		if hi > lo {
			st = append(st, kv("offset-x", g.num(lo, hi, 1)))
		}
	}
	if g.p(35) {
		st = append(st, kv("offset-y", g.num(-4, 5, 1)))
	}
	st = append(st, kv("h-align", g.of(aligns...)))
	if g.p(40) {
		st = append(st, kv("line-spacing", g.of("0.8", "1", "1.2", "2")))
	}
	st = append(st, g.looks()...)
	if g.p(25) {
		st = append(st, kv("font-point-size", g.of(sizes...)))
	}
	var kids []*doc.Node
	switch g.r.Intn(10) {
	case 0: // nothing
	case 1:
		kids = []*doc.Node{doc.T(g.of(" ", "\n  \n", "\t"))}
	case 2:
		kids = []*doc.Node{doc.Br(), doc.T(g.words(1)), doc.Br(), doc.Br(), doc.T(g.words(1))}
	case 3, 4:
		old := g.maxLen
		g.maxLen = 5
		kids = []*doc.Node{doc.T(g.words(g.rng(1, 2)))}
		g.maxLen = old
		st = append(st, kv("height", g.num(14, 45, 1)))
	default:
		kids = g.inline(g.rng(1, 40), true, true)
	}
	if len(kids) == 0 && g.p(30) {
		// an area alone may be moved anywhere
		st = append(st, kv("offset-x", g.num(-20, 60, 1)))
	}
	if len(kids) == 0 && g.p(50) {
		st = append(st, kv("height", g.num(0.5, 40, 1)))
	}
	return doc.Box(st, kids...)
}

func runC07(e *run.Env, c *run.Case) {
	g := newGen(c.R)
	if c.R.Intn(5) == 0 {
		g.dup = g.rng(5, 60)
		c.Count("documents with repetitions", 1)
	}
	g.unicode = c.Idx%5 == 0
	g.punct = true
	d := g.newDoc()
	if g.p(40) {
		d.Body = append(d.Body, doc.Font(g.fullFont()...))
	}
	if g.p(25) {
		// small classes for line width and padding
		d.Body = append(d.Body, doc.Text(nil, doc.T(g.words(3))))
	}
	aligns := []string{"left", "center", "right", "block"}
	if c.Idx%2 == 0 {
		aligns = aligns[:3]
	}
	var boxes []*doc.Node
	for k := g.rng(2, 9); k > 0; k-- {
		avail := g.pageW
		switch g.r.Intn(9) {
		case 0:
			x := g.rng(0, 25)
			if g.p(20) {
				x = g.rng(26, 110)
			}
			d.Body = append(d.Body, doc.SetX(d.Left+float64(x)))
			avail -= float64(x)
			if avail < 41 {
				d.Body = d.Body[:len(d.Body)-1]
				avail = g.pageW
			}
		case 1:
			_, h := pageSize(d)
			d.Body = append(d.Body, doc.SetY(float64(g.rng(int(d.Top), int(h-d.Bottom)-1))))
		case 2:
			d.Body = append(d.Body, doc.LF(float64(g.rng(1, 9))/2))
		case 3:
			d.Body = append(d.Body, doc.Text(g.looks(), g.inline(g.rng(1, 20), true, true)...))
		case 4:
			if g.p(30) {
				d.Body = append(d.Body, doc.NewPage())
			}
		}
		b := g.framed(avail, aligns)
		if avail != g.pageW && styleF(b, "width", -1) < 0 || styleF(b, "width", -1) > avail {
			b.Style = append(b.Style, kv("width", doc.F(math.Floor(avail))))
			for i := range b.Style {
				if b.Style[i].K == "offset-x" {
					b.Style[i].V = "-1.5"
				}
			}
		}
		boxes = append(boxes, b)
		d.Body = append(d.Body, b)
		if g.dup > 0 && avail == g.pageW {
			g.again(&d.Body)
			if n := d.Body[len(d.Body)-1]; n != b { // the same but for its colors
				for i := range n.Style {
					if n.Style[i].K == "color" || n.Style[i].K == "background-color" {
						n.Style[i].V = g.color()
					}
				}
				boxes = append(boxes, n)
			}
		}
	}
	if g.p(60) {
		d.Body = append(d.Body, doc.Text(nil, doc.T(g.words(2))))
	}
	s := renderBoth(e, c, d, "")
	if s == nil {
		return
	}
	if s.ren.Over {
		c.Triv = true // a box higher than a page: unspecified
		return
	}
	c.Triv = len(boxes) < 3
	c.Count("boxes", len(boxes))
	compareAll(c, s)
	if !c.Failed() {
		boxMonitor(c, d, s, g.dup > 0)
	}
	s.done(c)
}

// boxMonitor judges the frames without the reference layout.
func boxMonitor(c *run.Case, d *doc.Doc, s *seen, repeated bool) {
	pw, ph := pageSize(d)
	avail := pw - d.Left - d.Right - 2
	areas := map[pdfx.RGB][]pdfx.Rect{}
	for _, r := range s.act.Rects {
		areas[r.Color] = append(areas[r.Color], r)
	}
	lines := map[pdfx.RGB][]pdfx.Seg{}
	for _, l := range ink.Segs(s.act) {
		lines[l.Color] = append(lines[l.Color], l)
	}
	word := map[string]ink.Word{}
	for _, w := range s.aw {
		word[w.Text] = w
	}
	divided := repeated // pieces of divided words may look like other words
	for _, n := range d.Body {
		divided = divided || styleS(n, "h-align", "") == "block"
	}
	type frame struct {
		page       int
		x, y, w, h float64
		offX, offY float64
	}
	var prev *frame
	for _, n := range d.Body {
		if n.Kind == "text" && prev != nil {
			// directly below, at the left margin
			if al := styleS(n, "h-align", "left"); al == "left" && len(n.Kids) > 0 && n.Kids[0].Kind == "#text" {
				ws := wordsOf(n.Kids[0].Text)
				if w, ok := word[first(ws)]; ok && !divided && w.Page == prev.page {
					if !ink.Near(w.X, d.Left+1, 0.06) {
						c.Fail("%s after a box does not start at the left margin", w)
					}
					if w.Y < prev.y+prev.h-0.01 || w.Y > prev.y+prev.h+w.Size/pdfx.PtPerMM+0.1 {
						c.Fail("%s does not stand directly below the box ending at y=%.2f", w, prev.y+prev.h)
					}
					c.Count("continuations", 1)
				}
			}
		}
		if n.Kind != "box" {
			prev = nil
			continue
		}
		lw := styleF(n, "line-width", 1)
		bg := areas[rgbOf(n, "background-color")]
		if len(bg) != 1 {
			c.Fail("the background of a box is drawn %d times", len(bg))
			return
		}
		r := bg[0]
		pad := style4(n, "padding")
		f := frame{r.Page, r.X - lw/2, r.Y - lw/2, r.W + lw, r.H + lw, styleF(n, "offset-x", 0), styleF(n, "offset-y", 0)}
		want := styleF(n, "width", -1)
		if want < 0 || want > avail {
			want = avail
		}
		if !ink.Near(f.w, want, 0.05) {
			c.Fail("box %s is %.2f wide, expected %.2f", rectS(r), f.w, want)
		}
		if h := styleF(n, "height", -1); h > 0 && !ink.Near(f.h, h+pad[1]+pad[3], 0.05) {
			c.Fail("box %s is %.2f high, declared %.2f and padding %.2f", rectS(r), f.h, h, pad[1]+pad[3])
		}
		b := style4(n, "border")
		sides := 0
		for _, v := range b {
			if v > 0 {
				sides++
			}
		}
		c.Count("borders", sides)
		ls := lines[rgbOf(n, "color")]
		if sides == 0 && len(ls) > 0 {
			c.Fail("a box without border has the line %s", segS(ls[0]))
		}
		length := 0.0
		for _, l := range ls {
			length += math.Hypot(l.X1-l.X0, l.Y1-l.Y0)
			if !ink.Near(l.Width, lw, 0.02) {
				c.Fail("border %s is not %.2f wide", segS(l), lw)
			}
			on := func(a, b, v float64) bool { return ink.Near(a, v, 0.05) && ink.Near(b, v, 0.05) }
			if !(on(l.X0, l.X1, f.x) && b[0] > 0 || on(l.Y0, l.Y1, f.y) && b[1] > 0 || on(l.X0, l.X1, f.x+f.w) && b[2] > 0 || on(l.Y0, l.Y1, f.y+f.h) && b[3] > 0) {
				c.Fail("line %s is not on an asked-for border (%v) of box %s", segS(l), b, rectS(r))
			}
		}
		wantLen := f.h*(sgn(b[0])+sgn(b[2])) + f.w*(sgn(b[1])+sgn(b[3]))
		if math.Abs(length-wantLen) > lw*2+0.2 {
			c.Fail("borders %v of box %s are %.2f long, expected %.2f", b, rectS(r), length, wantLen)
		}
		if f.offX != 0 || f.offY != 0 {
			c.Count("boxes with offset", 1)
		}
		empty := true
		for _, k := range n.Kids {
			for _, t := range wordsOf(k.Text) {
				empty = false
				w, ok := word[t]
				if !ok || divided || w.W > f.w-pad[0]-pad[2]-3 {
					continue
				}
				c.Count("words inside", 1)
				size := w.Size / pdfx.PtPerMM
				if w.Page != f.page || w.X < f.x+pad[0]-0.05 || w.X+w.W > f.x+f.w-pad[2]+2.05 || w.Y < f.y+pad[1]-0.05 || w.Y > f.y+f.h-pad[3]+0.05 && styleF(n, "height", -1) < 0 || w.Y-size > f.y+f.h {
					c.Fail("%s is not inside its box p%d x=%.2f y=%.2f w=%.2f h=%.2f padding %v", w, f.page, f.x, f.y, f.w, f.h, pad)
				}
			}
		}
		if empty {
			c.Count("empty boxes", 1)
		}
		if prev != nil {
			if f.page == prev.page {
				if !ink.Near(f.y-f.offY, prev.y+prev.h, 0.05) || !ink.Near(f.x-f.offX, d.Left, 0.05) {
					c.Fail("box %s does not continue at the left margin directly below %.2f", rectS(r), prev.y+prev.h)
				}
				c.Count("continuations", 1)
			} else {
				c.Count("boxes moved to a new page", 1)
				if !ink.Near(f.y-f.offY, d.Top, 0.05) || !ink.Near(f.x-f.offX, d.Left, 0.05) {
					c.Fail("box %s moved to a new page is not at its top left", rectS(r))
				}
				if prev.y+prev.h+f.offY+f.h < ph-d.Bottom-0.05 {
					c.Fail("box %s was moved to a new page although it fits: %.2f+%.2f, limit %.2f", rectS(r), prev.y+prev.h, f.h, ph-d.Bottom)
				}
			}
		}
		if f.y+f.h > ph-d.Bottom+0.05 {
			c.Fail("box %s reaches into the bottom margin (limit %.2f)", rectS(r), ph-d.Bottom)
		}
		prev = &f
	}
}

func first(s []string) string {
	if len(s) == 0 {
		return ""
	}
	return s[0]
}

func sgn(f float64) float64 {
	if f > 0 {
		return 1
	}
	return 0
}
