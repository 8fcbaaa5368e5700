package checks

import (
	"fmt"
	"strings"

	"verif/harness/doc"
)

// tidyDecl is any declaration, with numbers that any element can bear.
func (g *gen) tidyDecl() doc.KV {
	for {
		d := g.anyDecl(false)
		switch d.K {
		case "width":
			d.V = g.num(40, 100, 1)
		case "height":
			d.V = g.num(10, 40, 1)
		case "offset-x", "offset-y":
			d.V = g.num(0, 5, 1)
		case "column-width":
			d.V = g.num(12, 20, 1)
		case "font-point-size":
			d.V = g.of(sizes...)
		}
		return d
	}
}

func (g *gen) tidy(max int) []doc.KV {
	var st []doc.KV
	seen := map[string]bool{}
	for k := g.r.Intn(max + 1); k > 0; k-- {
		d := g.tidyDecl()
		if seen[d.K] {
			continue
		}
		seen[d.K] = true
		st = append(st, d)
	}
	return st
}

// mixed fills all sections with n elements of every kind, styled inline and by
// classes. The result loads and can be processed; how it looks is not modelled.
func (g *gen) mixed(d *doc.Doc, n int) {
	var names []string
	if g.p(80) {
		d.Classes, names = g.sheet(true, g.rng(1, 4))
		for i := range d.Classes {
			d.Classes[i].Style = g.tidy(4)
		}
	}
	cls := func(n *doc.Node) *doc.Node {
		if len(names) > 0 && g.p(50) {
			n.Classes = g.useClasses(names)
		}
		return n
	}
	words := func() []*doc.Node {
		ks := g.inline(g.rng(1, 12), true, true)
		for _, k := range ks {
			if k.Kind == "p" {
				cls(k)
			}
		}
		return ks
	}
	image := func() *doc.Node { return cls(doc.Image(g.of("a.png", "b.jpg", "c.gif", "missing.png"), g.tidy(2)...)) }
	var items func(n int) []*doc.Node
	table := func() *doc.Node {
		t := g.table(tableOpt{rows: g.rng(1, 4), cols: g.rng(1, 4), spans: g.p(50), maxRS: 2, wordsPerCell: 3, looks: true, brs: true, ps: true, padding: g.p(50), borders: g.p(50), emptyCells: true, ragged: g.p(30), valign: g.p(50)})
		cls(t)
		if g.p(40) {
			t.Repeat = g.rng(0, 3)
			t.HasRep = true
		}
		for _, tr := range t.Kids {
			cls(tr)
			for _, td := range tr.Kids {
				cls(td)
				if g.p(10) {
					td.Kids = append(td.Kids, doc.Box(g.tidy(2), words()...))
				}
				if g.p(5) {
					td.Kids = append(td.Kids, image())
				}
			}
		}
		return t
	}
	grid := func() *doc.Node {
		gn := cls(&doc.Node{Kind: "grid", Style: g.tidy(2)})
		cols := g.rng(1, 3)
		areas := []string{}
		for r := g.rng(1, 3); r > 0; r-- {
			var as []string
			for k := 0; k < cols; k++ {
				as = append(as, g.of("a", "b", "cc", "d1"))
			}
			areas = append(areas, as...)
			gn.Kids = append(gn.Kids, cls(&doc.Node{Kind: "gr", Text: strings.Join(as, " "), Style: g.tidy(1)}))
		}
		for k := g.r.Intn(3); k > 0; k-- {
			gn.Kids = append(gn.Kids, cls(&doc.Node{Kind: "part", Area: g.of(areas...), Style: g.tidy(2), Kids: items(g.rng(0, 2))}))
		}
		return gn
	}
	items = func(n int) []*doc.Node {
		var out []*doc.Node
		for ; n > 0; n-- {
			var k *doc.Node
			switch g.r.Intn(13) {
			case 0, 1, 2:
				k = cls(doc.Text(g.tidy(3), words()...))
			case 3, 4:
				k = cls(doc.Box(g.tidy(4), words()...))
				if g.p(10) {
					k.Kids = nil
				}
			case 5, 6:
				k = table()
			case 7:
				k = image()
			case 8:
				k = cls(doc.Font(g.looksFontOnly()...))
			case 9:
				k = doc.LF(float64(g.r.Intn(5)) / 2)
			case 10:
				k = doc.SetX(d.Left + float64(g.r.Intn(30)))
				if g.p(50) {
					k = doc.SetY(d.Top + float64(g.r.Intn(100)))
				}
			case 11:
				k = doc.NewPage()
			case 12:
				k = grid()
			}
			out = append(out, k)
		}
		return out
	}
	d.Body = append(d.Body, items(n)...)
	if g.p(50) {
		d.Header = append(d.Header, doc.SetY(2), doc.Text(g.tidy(2), doc.T(fmt.Sprintf("h%s {cp}", g.hfWords(1)))))
		d.Header = append(d.Header, items(g.r.Intn(2))...)
	}
	if g.p(50) {
		d.Footer = append(d.Footer, doc.SetY(-12), cls(doc.Text(g.tidy(2), doc.T(fmt.Sprintf("%s {np}", g.hfWords(1))))))
		d.Footer = append(d.Footer, items(g.r.Intn(2))...)
	}
}
