package ref

import (
	"math"

	"verif/harness/doc"
)

type cell struct {
	n          *doc.Node
	s          Styles
	row, col   int
	rows, cols int
}

// Place assigns each cell of a table its grid slot: row by row, each cell takes
// the first columns not covered by a row span from above.
func Place(rows [][]*doc.Node) (cells []struct {
	N                    *doc.Node
	Row, Col, Rows, Cols int
}, nrows, ncols int) {
	type slot struct{ r, c int }
	taken := map[slot]bool{}
	nrows = len(rows)
	for ri, row := range rows {
		c := 0
		for _, n := range row {
			for taken[slot{ri, c}] {
				c++
			}
			cs, rs := n.ColSpan, n.RowSpan
			if cs < 1 {
				cs = 1
			}
			if rs < 1 {
				rs = 1
			}
			for a := 0; a < rs; a++ {
				for b := 0; b < cs; b++ {
					taken[slot{ri + a, c + b}] = true
				}
			}
			cells = append(cells, struct {
				N                    *doc.Node
				Row, Col, Rows, Cols int
			}{n, ri, c, rs, cs})
			if ri+rs > nrows {
				nrows = ri + rs
			}
			if c+cs > ncols {
				ncols = c + cs
			}
			c += cs
		}
	}
	return
}

func (r *Renderer) table(t *doc.Node) {
	ts := Cascade(r.font, r.d.Classes, "", t)
	sel := func(i, n int, what string) string {
		if i == 0 {
			return "first-" + what
		}
		if i == n-1 {
			return "last-" + what
		}
		return ""
	}
	var grid [][]*doc.Node
	sty := map[*doc.Node]Styles{}
	for ri, tr := range t.Kids {
		rs := Cascade(ts, r.d.Classes, sel(ri, len(t.Kids), "row"), tr)
		for ci, td := range tr.Kids {
			sty[td] = Cascade(rs, r.d.Classes, sel(ci, len(tr.Kids), "cell"), td)
		}
		grid = append(grid, tr.Kids)
	}
	placed, nr, nc := Place(grid)
	if nc == 0 {
		r.reset()
		return
	}
	var cells []cell
	for _, p := range placed {
		cells = append(cells, cell{n: p.N, s: sty[p.N], row: p.Row, col: p.Col, rows: p.Rows, cols: p.Cols})
	}
	// column widths
	x0a, y0a, x1a, y1a := r.area()
	total := eff(x1a-x0a, ts.Width)
	cw := make([]float64, nc)
	for _, c := range cells {
		if c.s.ColumnWidth > cw[c.col] {
			cw[c.col] = c.s.ColumnWidth
		}
	}
	used, auto := 0.0, 0
	for _, w := range cw {
		used += w
		if w == 0 {
			auto++
		}
	}
	for i := range cw {
		if cw[i] == 0 {
			cw[i] = (total - used) / float64(auto)
		}
	}
	span := func(a []float64, i, n int) (s float64) {
		for ; n > 0; n-- {
			s += a[i]
			i++
		}
		return
	}
	// row heights
	rh := make([]float64, nr)
	up := func(i int, h float64) {
		if h > rh[i] {
			rh[i] = h
		}
	}
	for _, c := range cells {
		if c.s.Height > 0 {
			up(c.row, c.s.Height)
			continue
		}
		h := r.textHeight(c.n.Kids, span(cw, c.col, c.cols)-c.s.PL-c.s.PR, c.s) + c.s.PT + c.s.PB
		for i := 0; i < c.rows; i++ {
			up(c.row+i, h/float64(c.rows))
		}
	}
	// the height a row needs so that the spans starting in it are not torn
	need := append([]float64(nil), rh...)
	for _, c := range cells {
		if h := span(rh, c.row, c.rows); h > need[c.row] {
			need[c.row] = h
		}
	}
	info := TableInfo{Node: t}
	x0, y := r.pdf.GetXY()
	draw := func(i int, rep bool) {
		for _, c := range cells {
			if c.row != i {
				continue
			}
			x := x0 + span(cw, 0, c.col)
			w, h := span(cw, c.col, c.cols), span(rh, c.row, c.rows)
			info.Cells = append(info.Cells, CellInfo{Node: c.n, Row: c.row, Col: c.col, Cols: c.cols, Rows: c.rows, X: x, Y: y, W: w, H: h, Page: r.pdf.PageNo(), RepeatedHeader: rep})
			r.cell(c, x, y, w, h)
		}
		y += rh[i]
		r.pdf.SetX(x0)
	}
	fits := func(h float64) bool {
		r.near(y+h, y1a)
		return r.inHF || y+h <= y1a
	}
	head, above := 0.0, 0.0
	for i := 0; i <= t.Repeat && i < nr; i++ {
		head = math.Max(head, above+need[i])
		above += rh[i]
	}
	for i := range need {
		h := need[i]
		if i > 0 {
			for k := 0; k < t.Repeat && k < nr; k++ {
				h += rh[k]
			}
		}
		if y0a+h > y1a {
			r.Over = true
		}
	}
	if y0a+head > y1a {
		r.Over = true
	}
	if !fits(head) {
		r.addPage("table")
		y = r.pdf.GetY()
	}
	for i := 0; i < nr; i++ {
		if !fits(need[i]) {
			r.addPage("row")
			y = r.pdf.GetY()
			if i > 0 {
				for k := 0; k < t.Repeat && k < nr; k++ {
					draw(k, true)
				}
			}
		}
		draw(i, false)
	}
	r.pdf.SetXY(r.pdf.GetX(), y)
	r.reset()
	if r.THook != nil {
		r.THook(info)
	}
}

func (r *Renderer) cell(c cell, x, y, w, h float64) {
	s := c.s
	r.frame(x, y, w, h, s)
	px, py, pw, ph := x+s.PL, y+s.PT, w-s.PL-s.PR, h-s.PT-s.PB
	place := func(inner float64) float64 {
		switch s.VAlign {
		case "middle":
			return py + (ph-inner)/2
		case "bottom":
			return py + ph - inner
		}
		return py
	}
	if len(c.n.Kids) > 0 {
		th := r.textHeight(c.n.Kids, pw, s)
		r.pdf.SetXY(px, place(th))
		r.writeText(c.n.Kids, pw, s)
	}
	for _, k := range c.n.Kids {
		switch k.Kind {
		case "box":
			bs := Cascade(r.font, r.d.Classes, "", k)
			bh := r.boxHeight(k, bs, eff(pw, bs.Width)-bs.PL-bs.PR)
			r.reset()
			r.pdf.SetXY(px, place(bh))
			r.box(k, pw)
		case "image":
			r.pdf.SetXY(px, py)
			r.image(k, pw, ph)
		}
	}
}
