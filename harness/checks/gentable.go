package checks

import (
	"fmt"

	"verif/harness/doc"
)

type tableOpt struct {
	rows, cols       int
	spans            bool
	maxRS            int
	wordsPerCell     int
	looks            bool // fonts and colors in styles
	brs              bool
	ps               bool
	colWidths        bool
	heights          bool
	valign           bool
	halign           []string
	borders          bool
	short            bool // cells hold one short word so that nothing wraps
	padding          bool
	ragged           bool
	emptyCells       bool
	noRowSpanInFirst int // rows without row spans
}

// tiling makes a random tiling of rows x cols.
func (g *gen) tiling(o tableOpt) [][]*doc.Node {
	taken := map[[2]int]bool{}
	var out [][]*doc.Node
	maxRS := o.maxRS
	if maxRS == 0 {
		maxRS = 3
	}
	for r := 0; r < o.rows; r++ {
		var row []*doc.Node
		for c := 0; c < o.cols; c++ {
			if taken[[2]int{r, c}] {
				continue
			}
			cs, rs := 1, 1
			if o.spans {
				if g.p(25) {
					rs = g.rng(1, maxRS)
				}
				if g.p(25) {
					cs = g.rng(1, 3)
					if g.p(15) {
						cs = g.rng(4, 7)
					}
				}
			}
			if r < o.noRowSpanInFirst {
				rs = 1
			}
			if r+rs > o.rows {
				rs = o.rows - r
			}
			k := 1
			for k < cs && c+k < o.cols && !taken[[2]int{r, c + k}] {
				k++
			}
			cs = k
			for a := 0; a < rs; a++ {
				for b := 0; b < cs; b++ {
					taken[[2]int{r + a, c + b}] = true
				}
			}
			n := doc.Td(nil)
			if cs > 1 || g.p(10) {
				n.ColSpan = cs
			}
			if rs > 1 || g.p(10) {
				n.RowSpan = rs
			}
			row = append(row, n)
		}
		if o.ragged && len(row) > 1 && g.p(25) {
			last := row[len(row)-1]
			if last.RowSpan <= 1 {
				row = row[:len(row)-1]
			}
		}
		out = append(out, row)
	}
	return out
}

func (g *gen) border() string {
	b := func() string {
		if g.p(6) {
			return fmt.Sprint(g.rng(2, 12))
		}
		return g.of("0", "1", "1")
	}
	return b() + "," + b() + "," + b() + "," + b()
}

func (g *gen) pad(max float64) string {
	if g.p(30) {
		v := g.num(0, max, 1)
		return v + "," + v + "," + v + "," + v
	}
	return g.num(0, max, 1) + "," + g.num(0, max, 1) + "," + g.num(0, max, 1) + "," + g.num(0, max, 1)
}

// table makes a table; the table's own style gets every cell a background and
// border color only when asked.
func (g *gen) table(o tableOpt) *doc.Node {
	t := doc.Table(nil)
	if o.looks {
		t.Style = append(t.Style, g.looks()...)
	}
	if o.padding {
		t.Style = append(t.Style, kv("padding", g.pad(2.5)))
	}
	t.Style = append(t.Style, kv("line-width", g.of("0.1", "0.2", "0.3", "0.5")))
	if o.borders && g.p(70) {
		t.Style = append(t.Style, kv("border", "1,1,1,1"))
	}
	if g.p(30) {
		t.Style = append(t.Style, kv("line-spacing", g.of("1", "1.2", "1.5")))
	}
	for _, row := range g.tiling(o) {
		tr := doc.Tr(nil)
		if o.looks && g.p(40) {
			tr.Style = append(tr.Style, g.looks()...)
		}
		if o.heights && g.p(20) {
			tr.Style = append(tr.Style, kv("height", g.num(12, 30, 1)))
		}
		for _, td := range row {
			if o.looks && g.p(50) {
				td.Style = append(td.Style, g.looks()...)
			}
			if o.valign {
				td.Style = append(td.Style, kv("v-align", g.of("top", "middle", "bottom")))
			}
			if len(o.halign) > 0 {
				td.Style = append(td.Style, kv("h-align", g.of(o.halign...)))
			}
			if o.borders {
				td.Style = append(td.Style, kv("color", g.color()), kv("background-color", g.color()))
				if g.p(60) {
					td.Style = append(td.Style, kv("border", g.border()))
				}
			}
			if o.padding && g.p(40) {
				td.Style = append(td.Style, kv("padding", g.pad(3)))
			}
			if o.heights && g.p(20) {
				td.Style = append(td.Style, kv("height", g.num(15, 40, 1)))
			}
			switch {
			case o.emptyCells && g.p(15):
				if g.p(50) {
					td.Kids = append(td.Kids, doc.T("  \n "))
				}
			case o.short:
				old := g.maxLen
				g.maxLen = 4
				td.Kids = append(td.Kids, doc.T(g.word()))
				g.maxLen = old
				if o.brs {
					for g.p(35) {
						g.maxLen = 4
						td.Kids = append(td.Kids, doc.Br(), doc.T(g.word()))
						g.maxLen = old
					}
				}
			default:
				old := g.maxLen
				g.maxLen = 6
				n := g.rng(1, o.wordsPerCell)
				g.fewBreaks = o.heights // declared heights must suffice for the text
				td.Kids = append(td.Kids, g.inline(n, o.ps, o.brs)...)
				g.maxLen, g.fewBreaks = old, false
			}
			tr.Kids = append(tr.Kids, td)
		}
		t.Kids = append(t.Kids, tr)
	}
	return t
}
