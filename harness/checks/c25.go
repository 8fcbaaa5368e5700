package checks

import (
	"fmt"

	"verif/harness/doc"
	"verif/harness/ink"
	"verif/harness/run"
)

func init() {
	register(&run.Prop{
		ID: "C25", Quick: 15000, Thorough: 180000, Run: runC25,
		Rule:      "Each case is a sequence of setx, sety (positive, negative, fractional, zero), lf (zero, fractional, many), newpage and font instructions with single words, images, boxes and longer texts in between, in body, header and footer. A simulator of the cursor predicts, independently of the layout model, the page and position of every word and image placed in the body; in addition all ink is compared with the reference. Non-trivial: at least 4 positioning instructions.",
		Technique: "Model-free runtime monitor simulating the cursor over the instruction sequence, plus comparison with the reference model.",
		Min:       map[string]int{"words placed": 8000, "images placed": 3500, "setx": 10000, "sety": 10000, "negative": 7500, "lf": 7000, "newpage": 1800, "after setx only": 1500, "after sety only": 1400},
	})
}

func runC25(e *run.Env, c *run.Case) {
	g := newGen(c.R)
	le := env(e)
	g.unicode = c.Idx%6 == 0
	g.maxLen = 6
	d := g.newDoc()
	pw, ph := pageSize(d)
	wd := le.imageDir(e)
	type spot struct {
		page int
		x, y float64
		size float64
		what string
	}
	words := map[string]spot{}
	imgs := map[[2]int][]spot{}
	page, x, y := 1, d.Left, d.Top
	fs := 12.0 * 25.4 / 72
	for _, n := range d.Body {
		if n.Kind == "font" {
			fs = styleF(n, "font-point-size", 12) * 25.4 / 72
		}
	}
	last := ""
	room := func() bool { // for a short word or picture
		return x >= 0 && x < pw-d.Right-45 && y >= 0 && y < ph-d.Bottom-16
	}
	pos := func(max float64) float64 {
		v := g.r.Float64() * max
		switch g.r.Intn(4) {
		case 0:
			v = float64(int(v))
		case 1:
			v = float64(int(v*4)) / 4
		default:
			v = float64(int(v*1000)) / 1000
		}
		return v
	}
	npos := 0
	for k := g.rng(4, 30); k > 0; k-- {
		switch g.r.Intn(14) {
		case 0, 1, 2:
			v := pos(pw - d.Right - 46)
			n := doc.SetX(v)
			x = v
			if g.p(35) && v > 0 {
				n.Num = float64(int((v-pw)*1000)) / 1000
				x = pw + n.Num
				c.Count("negative", 1)
			} else if g.p(5) {
				n.Num, x = 0, 0
			}
			d.Body = append(d.Body, n)
			c.Count("setx", 1)
			npos++
			if last == "sety" {
				last = "both"
			} else {
				last = "setx"
			}
		case 3, 4, 5:
			v := pos(ph - d.Bottom - 17)
			n := doc.SetY(v)
			y = v
			if g.p(35) && v > 0 {
				n.Num = float64(int((v-ph)*1000)) / 1000
				y = ph + n.Num
				c.Count("negative", 1)
			} else if g.p(5) {
				n.Num, y = 0, 0
			}
			d.Body = append(d.Body, n)
			c.Count("sety", 1)
			npos++
			if last == "setx" {
				last = "both"
			} else {
				last = "sety"
			}
		case 6, 7:
			n := doc.LF(float64(g.rng(0, 12)) / float64(g.rng(1, 4)))
			if g.p(10) {
				n.Num = 0
			} else if g.p(8) {
				n.Num = float64(g.rng(12, 60)) / 2
			}
			y += n.Num * fs
			x = d.Left
			d.Body = append(d.Body, n)
			c.Count("lf", 1)
			npos++
			last = "lf"
		case 8:
			if g.p(50) {
				d.Body = append(d.Body, doc.NewPage())
				page++
				x, y = d.Left, d.Top
				c.Count("newpage", 1)
				npos++
				last = "newpage"
			}
		case 9:
			sz := g.of(sizes...)
			d.Body = append(d.Body, doc.Font(kv("font-point-size", sz)))
			var f float64
			fmt.Sscan(sz, &f)
			fs = f * 25.4 / 72
		case 10:
			if !room() {
				continue
			}
			f := g.of("a.png", "b.jpg", "c.gif")
			px := map[string][2]int{"a.png": {40, 30}, "b.jpg": {30, 45}, "c.gif": {64, 16}}[f]
			n := doc.Image(f)
			ox, oy := 0.0, 0.0
			if g.p(30) {
				ox = float64(g.rng(0, 40)) / 4
				n.Style = append(n.Style, kv("offset-x", doc.F(ox)))
			}
			if g.p(30) {
				oy = float64(g.rng(0, 40)) / 4
				n.Style = append(n.Style, kv("offset-y", doc.F(oy)))
			}
			d.Body = append(d.Body, n)
			imgs[px] = append(imgs[px], spot{page: page, x: x + ox, y: y + oy, what: f})
		case 11:
			// something that leaves the cursor at the left margin below it
			if x != d.Left || x < 0 || y < 0 {
				continue
			}
			h := float64(g.rng(4, 12))
			if y+h > ph-d.Bottom-1 {
				continue
			}
			if g.p(40) {
				// a table of one row begins where the cursor stands
				w := g.word()
				td := doc.Td(doc.S("padding", "0,0,0,0", "v-align", "top", "h-align", "left", "line-spacing", "1"), doc.T(w))
				d.Body = append(d.Body, doc.Table(doc.S("width", "60", "line-width", "0.2"), doc.Tr(nil, td)))
				words[w] = spot{page: page, x: x + 1, y: y + 0.8*fs, size: fs * 72 / 25.4, what: last}
				y += fs
				last = "table"
				c.Count("tables placed", 1)
				continue
			}
			d.Body = append(d.Body, doc.Box(doc.S("line-width", "0.2", "width", "30", "border", "1,1,1,1", "height", doc.F(h))))
			y += h
			last = "box"
		default:
			if !room() {
				continue
			}
			w := g.word()
			sp := g.of("1", "1.5", "2")
			d.Body = append(d.Body, doc.Text(doc.S("line-spacing", sp, "h-align", g.of("left", "block")), doc.T(w)))
			words[w] = spot{page: page, x: x + 1, y: y + 0.8*fs, size: fs * 72 / 25.4, what: last}
			if last == "setx" || last == "sety" {
				c.Count("after "+last+" only", 1)
			}
			var f float64
			fmt.Sscan(sp, &f)
			y += fs * f
			x = d.Left
			last = "text"
		}
	}
	c.Triv = npos < 4
	hf := func(n int) []*doc.Node {
		var ns []*doc.Node
		for ; n > 0; n-- {
			switch g.r.Intn(5) {
			case 0:
				ns = append(ns, doc.SetX(float64(g.rng(0, 60))))
			case 1:
				ns = append(ns, doc.SetY(g.ofF(float64(g.rng(0, 20)), -float64(g.rng(6, 30)))))
			case 2:
				ns = append(ns, doc.LF(g.ofF(0, 0.5, 1)))
			default:
				ns = append(ns, doc.Text(nil, doc.T(g.hfWords(1))))
			}
			if g.unicode {
				ns[len(ns)-1].Style = append(ns[len(ns)-1].Style, kv("font-family", "gosans"))
			}
		}
		return ns
	}
	if g.p(40) {
		d.Header = hf(g.rng(1, 5))
	}
	if g.p(40) {
		// whatever the body's position, a footer states its own
		d.Footer = append([]*doc.Node{doc.SetY(-20)}, hf(g.rng(1, 5))...)
	}
	s := renderBoth(e, c, d, wd)
	if s == nil {
		return
	}
	if len(s.act.W) != page {
		c.Fail("%d pages, expected %d", len(s.act.W), page)
	}
	compareAll(c, s)
	for _, w := range s.aw {
		if hasDigit(w.Text) {
			continue
		}
		sp, ok := words[w.Text]
		if !ok {
			continue
		}
		delete(words, w.Text)
		c.Count("words placed", 1)
		if w.Page != sp.page || !ink.Near(w.X, sp.x, 0.02) || !ink.Near(w.Y, sp.y, 0.02) || !ink.Near(w.Size, sp.size, 0.01) {
			c.Fail("the word after %q is at %s, expected page %d, x=%.2f y=%.2f, %.2f pt", sp.what, w, sp.page, sp.x, sp.y, sp.size)
		}
	}
	for w := range words {
		c.Fail("the word %q is not drawn", w)
	}
	for px, ss := range imgs {
		k := 0
		for _, im := range s.act.Images {
			if [2]int{im.PxW, im.PxH} != px {
				continue
			}
			if k < len(ss) {
				sp := ss[k]
				c.Count("images placed", 1)
				if im.Page != sp.page || !ink.Near(im.X, sp.x, 0.02) || !ink.Near(im.Y, sp.y, 0.02) {
					c.Fail("image %s is at page %d, x=%.2f y=%.2f, expected page %d, x=%.2f y=%.2f", sp.what, im.Page, im.X, im.Y, sp.page, sp.x, sp.y)
				}
			}
			k++
		}
		if k != len(ss) {
			c.Fail("image of %v pixels drawn %d times, expected %d", px, k, len(ss))
		}
	}
	s.done(c)
}
