package checks

import (
	"fmt"
	"math"

	"verif/harness/doc"
	"verif/harness/ink"
	"verif/harness/pdfx"
	"verif/harness/run"
)

func init() {
	register(&run.Prop{
		ID: "C29", Quick: 7200, Thorough: 86400, Run: runC29,
		Rule:      "Each case draws a document of all kinds of elements (texts, boxes, tables with spans, images, positions from both edges, header and footer) and the same with the margins moved by (dx, dy) - left and top grown, right and bottom shrunk - and all positions moved alike. Everything must be drawn on the same page, in the same look and size, moved by exactly (dx, dy). Drawings that also change when the room grows or shrinks by a millionth of a millimetre are inconclusive. Non-trivial: more than 10 things drawn.",
		Technique: "Metamorphic runtime monitor: drawing of a moved document compared with the moved drawing.",
		Min:       map[string]int{"things compared": 450000, "pages": 4500, "images": 4500, "positions": 17000},
	})
}

type mark struct {
	page   int
	x, y   float64
	x2, y2 float64 // second point, also moved
	look   string
}

func marks(in *pdfx.Ink) []mark {
	var out []mark
	for _, r := range in.Runs {
		out = append(out, mark{r.Page, r.X, r.Y, r.X, r.Y, fmt.Sprintf("text %q %s %.1f %v underlined=%v", r.Text, r.Font, r.Size, r.Color, r.Underline)})
	}
	for _, r := range in.Rects {
		out = append(out, mark{r.Page, r.X, r.Y, r.X + r.W, r.Y + r.H, fmt.Sprintf("area %v", r.Color)})
	}
	for _, s := range in.Segs {
		out = append(out, mark{s.Page, s.X0, s.Y0, s.X1, s.Y1, fmt.Sprintf("line %.2f %v", s.Width, s.Color)})
	}
	for _, i := range in.Images {
		out = append(out, mark{i.Page, i.X, i.Y, i.X + i.W, i.Y + i.H, fmt.Sprintf("image %d x %d", i.PxW, i.PxH)})
	}
	return out
}

// moved compares b with a moved by (dx, dy).
func moved(a, b *pdfx.Ink, dx, dy float64) string {
	if len(a.W) != len(b.W) {
		return fmt.Sprintf("%d pages instead of %d", len(b.W), len(a.W))
	}
	x, y := marks(a), marks(b)
	for i := 0; i < len(x) && i < len(y); i++ {
		p, q := x[i], y[i]
		if p.page != q.page || p.look != q.look || !ink.Near(p.x+dx, q.x, 0.02) || !ink.Near(p.y+dy, q.y, 0.02) || !ink.Near(p.x2+dx, q.x2, 0.02) || !ink.Near(p.y2+dy, q.y2, 0.02) {
			return fmt.Sprintf("%s on page %d at (%.2f, %.2f) (%.2f, %.2f) becomes %s on page %d at (%.2f, %.2f) (%.2f, %.2f)", p.look, p.page, p.x, p.y, p.x2, p.y2, q.look, q.page, q.x, q.y, q.x2, q.y2)
		}
	}
	if len(x) != len(y) {
		return fmt.Sprintf("%d things drawn instead of %d", len(y), len(x))
	}
	return ""
}

func runC29(e *run.Env, c *run.Case) {
	g := newGen(c.R)
	g.unicode = c.Idx%5 == 0
	le := env(e)
	wd := le.imageDir(e)
	d := g.newDoc()
	// room to move in all directions
	for i, side := range []*float64{&d.Left, &d.Top, &d.Right, &d.Bottom} {
		switch {
		case g.p(60):
			*side += 12
		case i > 1 && g.p(30):
			*side = float64(g.rng(1, 8))
		}
	}
	w, h := pageSize(d)
	g.pageW, g.pageH = w-d.Left-d.Right-2, h-d.Top-d.Bottom
	if g.p(60) {
		g.mixed(d, g.rng(2, 9))
	} else {
		g.flow(d, g.rng(2, 6))
		cols := map[pdfx.RGB]bool{}
		if g.p(40) {
			d.Header = g.furniture(d, 14, cols)
		}
		if g.p(40) {
			d.Footer = g.furniture(d, -24, cols)
		}
	}
	// the last room of a page
	for k := g.r.Intn(5); k > 0; k-- {
		n := doc.Box(g.looks(), doc.T(g.word()))
		if g.p(50) {
			n = doc.Table(nil)
			for r := g.rng(1, 5); r > 0; r-- {
				n.Kids = append(n.Kids, doc.Tr(nil, doc.Td(nil, doc.T(g.word())), doc.Td(nil, doc.T(g.word()))))
			}
			n.Repeat = g.rng(0, 3)
			if n.Repeat >= len(n.Kids) {
				n.Repeat = 0
			}
		} else if g.p(30) {
			n.Style = append(n.Style, kv("height", g.num(7, 30, 1)))
		} else if g.p(30) {
			n = doc.Text(g.looks(), doc.T(g.words(g.rng(1, 12))))
		}
		d.Body = append(d.Body, doc.SetX(d.Left), doc.SetY(-d.Bottom-float64(g.rng(1, 120))/2), n)
	}
	for k := g.r.Intn(4); k > 0; k-- {
		d.Body = append(d.Body, doc.SetX(d.Left+float64(g.rng(0, 20))), doc.SetY(d.Top+float64(g.rng(0, 60))), doc.Image(g.of("a.png", "b.jpg", "c.gif"), g.tidy(2)...))
		if g.p(50) {
			d.Body = append(d.Body, doc.SetX(-d.Right-float64(g.rng(30, 60))), doc.SetY(-d.Bottom-float64(g.rng(20, 60))))
		}
		d.Body = append(d.Body, doc.Text(g.looks(), doc.T(g.word())))
	}
	// boxes and images higher than their cell would reach over the page's top
	d.Walk(func(n *doc.Node) {
		if n.Kind != "td" {
			return
		}
		for _, k := range n.Kids {
			if k.Kind == "box" || k.Kind == "image" {
				k.Classes = nil
				k.Style = append(k.Style, kv("height", g.num(8, 15, 1)))
				n.Style = append(n.Style, kv("height", "30"))
			}
		}
	})
	within := func(v, lo, hi float64) float64 { return math.Max(math.Min(0, 8-lo), math.Min(hi-0.5, v)) }
	dx, dy := within(float64(g.rng(-20, 20))/2, d.Left, d.Right), within(float64(g.rng(-20, 20))/2, d.Top, d.Bottom)
	m := d.Clone()
	m.Left, m.Right, m.Top, m.Bottom = d.Left+dx, d.Right-dx, d.Top+dy, d.Bottom-dy
	ok := true
	m.Walk(func(n *doc.Node) {
		if n.Kind != "setx" && n.Kind != "sety" {
			return
		}
		by := dx
		if n.Kind == "sety" {
			by = dy
		}
		was := n.Num
		n.Num += by
		if math.Signbit(was) != math.Signbit(n.Num) || n.Num == 0 {
			ok = false
		}
		c.Count("positions", 1)
	})
	if !ok {
		// a position would leave the page
		dx, dy = 0, 0
		m = d
	}
	xml := d.XML()
	c.Smp = compact(xml)
	c.Signature(xml, fmt.Sprint(dx, dy))
	ug := usesGo(d)
	_, in, _ := actual(c, le, xml, ug, wd)
	if in == nil {
		return
	}
	_, min, _ := actual(c, le, m.XML(), ug, wd)
	if min == nil {
		return
	}
	n := len(marks(in))
	c.Count("things compared", n)
	c.Count("images", len(in.Images))
	c.Count("pages", len(in.W))
	c.Triv = n < 10 || !ok
	diff := moved(in, min, dx, dy)
	if diff == "" {
		return
	}
	for k := 0; k < 8; k++ {
		base, ref := d, in
		if k > 3 {
			base, ref = m, min
		}
		t := base.Clone()
		t.Right += []float64{2e-6, -2e-6}[k%2]
		t.Bottom += []float64{2e-6, -2e-6}[k/2%2]
		_, tin, _ := actual(c, le, t.XML(), ug, wd)
		if tin == nil {
			return
		}
		if moved(ref, tin, 0, 0) != "" {
			c.Inconclusive("a break decision is closer than 2e-6 mm")
			return
		}
	}
	c.Attach("xml", xml)
	c.Attach("moved", m.XML())
	c.Fail("moved by (%.1f, %.1f): %s", dx, dy, diff)
}
