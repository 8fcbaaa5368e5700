package checks

import (
	"fmt"
	"math"
	"sort"
	"strconv"

	"verif/harness/doc"
	"verif/harness/ink"
	"verif/harness/pdfx"
	"verif/harness/ref"
	"verif/harness/run"
)

func init() {
	register(&run.Prop{
		ID: "C08", Quick: 30000, Thorough: 360000, Run: runC08,
		Rule:      "Each case draws tables of up to 9 rows and 8 columns with random (also interlocking) column and row spans, short rows, rows covered entirely by spans from above and spans beyond the last row; every cell has a unique background. A model-free monitor checks that no two cells overlap, that cells starting or ending at the same grid line share it, and that tiling tables fill a rectangle without gaps; all ink is compared with the reference. Non-trivial: at least one span over several rows or columns.",
		Technique: "Runtime monitor over the areas recorded from the emitted PDF: overlap, cover and grid line consistency, plus comparison with a reference placement.",
		Min:       map[string]int{"cells": 60000, "column spans": 8000, "row spans": 8000, "cell pairs": 500000, "complete tilings": 3000, "added rows": 300, "short rows": 800},
	})
	register(&run.Prop{
		ID: "C09", Quick: 12500, Thorough: 150000, Run: runC09,
		Rule:      "Each case draws tables with declared and automatic column widths (declared in some cells, by inline style or class, in any row, also several times per column), spans, declared table widths, header repetition and several pages. The width of every cell is checked against the widths computed from the declarations, in every row and on every page, and all ink is compared with the reference. Non-trivial: explicit and automatic columns are mixed.",
		Technique: "Runtime monitor over the cell areas recorded from the emitted PDF against widths computed from the declarations.",
		Min:       map[string]int{"cells": 60000, "explicit columns": 4000, "automatic columns": 4000, "cells on later pages": 3000, "mixed tables": 2000},
	})
	register(&run.Prop{
		ID: "C10", Quick: 9000, Thorough: 108000, Run: runC10,
		Rule:      "Each case draws a table of 3 to 60 rows in groups joined by row spans, starting anywhere on the page, with 0 to 10 repeated header rows, on small and large pages, often followed by more text. A model-free monitor follows every cell's area: data rows once and in order, groups whole and inside the margins, headers complete and identical on top of every continued page, breaks only where the next group does not fit; all ink is compared with the reference. Non-trivial: the table crosses a page or starts on a new one.",
		Technique: "Runtime trace monitor over the cell areas recorded from the emitted PDF (exactly-once, order, repetition, tightness) plus comparison with a reference paginator.",
		Min:       map[string]int{"rows": 25000, "table page crossings": 1500, "repeated header rows": 1500, "tables started on a new page": 100, "spanning groups": 3000, "crossings with header": 500},
	})
	register(&run.Prop{
		ID: "C11", Quick: 6000, Thorough: 80000, Run: runC11,
		Rule:      "Each case draws tables whose cells hold texts of any length, alignment, padding, line spacing and font size, boxes and images, with declared heights, vertical alignments and spans. All ink is compared with the reference; for tables without row spans a model-free monitor recomputes every row's height from the words measured in the PDF and checks each cell's vertical placement. Non-trivial: at least 4 cells with text.",
		Technique: "Runtime comparison of recorded cell areas and words with a reference layout, plus model-free height and alignment monitors.",
		Min:       map[string]int{"cells": 20000, "row heights": 4000, "placements": 12000, "boxes in cells": 500, "images in cells": 300},
	})
}

// cellAreas finds the frames of cells by their unique background colors.
type area struct {
	page, z    int
	x, y, w, h float64
}

func areasByColor(in *pdfx.Ink, lw func(pdfx.RGB) float64) map[pdfx.RGB][]area {
	m := map[pdfx.RGB][]area{}
	for _, r := range in.Rects {
		l := lw(r.Color)
		m[r.Color] = append(m[r.Color], area{r.Page, r.Z, r.X - l/2, r.Y - l/2, r.W + l, r.H + l})
	}
	return m
}

type gridCell struct {
	n                    *doc.Node
	row, col, rows, cols int
	at                   []area
}

// gridCells pairs the cells of a table with their drawn areas.
func gridCells(t *doc.Node, in *pdfx.Ink) (cs []gridCell, nr, nc int) {
	l := styleF(t, "line-width", 1)
	m := areasByColor(in, func(pdfx.RGB) float64 { return l })
	var rows [][]*doc.Node
	for _, tr := range t.Kids {
		rows = append(rows, tr.Kids)
	}
	placed, nr, nc := ref.Place(rows)
	for _, p := range placed {
		cs = append(cs, gridCell{p.N, p.Row, p.Col, p.Rows, p.Cols, m[rgbOf(p.N, "background-color")]})
	}
	return cs, nr, nc
}

func (g *gen) maxRowSpan() int {
	if g.p(15) {
		return g.rng(6, 9)
	}
	return g.rng(2, 5)
}

func (g *gen) paint(t *doc.Node) {
	for _, tr := range t.Kids {
		for _, td := range tr.Kids {
			td.Style = append(td.Style, kv("background-color", g.color()))
			if g.p(60) {
				td.Style = append(td.Style, kv("color", g.color()))
			}
		}
	}
}

func runC08(e *run.Env, c *run.Case) {
	g := newGen(c.R)
	d := g.newDoc("a3", "a4", "letter")
	d.Orientation = "portrait"
	if g.p(50) {
		d.Body = append(d.Body, doc.Font(kv("font-point-size", "8")))
	}
	var tables []*doc.Node
	complete := map[*doc.Node]bool{}
	for k := g.rng(1, 2); k > 0; k-- {
		o := tableOpt{rows: g.rng(1, 9), cols: g.rng(1, 8), spans: true, maxRS: g.maxRowSpan(), short: true, borders: false, ragged: g.p(30), emptyCells: g.p(50), valign: g.p(30)}
		if g.p(30) {
			o.short, o.wordsPerCell, o.rows = false, 3, g.rng(1, 5)
		}
		t := g.table(o)
		g.paint(t)
		if g.p(60) {
			t.Style = append(t.Style, kv("border", "1,1,1,1"))
		}
		if g.p(30) {
			t.Style = append(t.Style, kv("width", g.num(80, 150, 1)))
		}
		full := 0
		for _, tr := range t.Kids {
			for _, td := range tr.Kids {
				a, b := td.ColSpan, td.RowSpan
				if a < 1 {
					a = 1
				}
				if b < 1 {
					b = 1
				}
				full += a * b
			}
		}
		complete[t] = full == o.rows*o.cols
		if !complete[t] {
			c.Count("short rows", 1)
		}
		if last := t.Kids[len(t.Kids)-1]; len(last.Kids) > 0 && g.p(25) {
			last.Kids[g.r.Intn(len(last.Kids))].RowSpan = g.rng(2, 4)
			complete[t] = false
			c.Count("added rows", 1)
		}
		if g.p(20) {
			// absurd but harmless spans
			for _, tr := range t.Kids {
				for _, td := range tr.Kids {
					if td.ColSpan == 0 && g.p(20) {
						td.ColSpan = -g.rng(1, 3)
					}
				}
			}
		}
		tables = append(tables, t)
		d.Body = append(d.Body, t, doc.LF(1))
	}
	s := renderBoth(e, c, d, "")
	if s == nil {
		return
	}
	if len(s.exp.W) > 1 {
		c.Triv = true // a tall table: interlocking spans may be torn
		return
	}
	spans := 0
	for _, t := range tables {
		cs, nr, nc := gridCells(t, s.act)
		left, top := map[int]float64{}, map[int]float64{}
		check := func(m map[int]float64, k int, v float64, what string, cell gridCell) {
			if old, ok := m[k]; ok && !ink.Near(old, v, 0.06) {
				c.Fail("grid line %d of the %s is at %.2f and, at the cell in row %d column %d, at %.2f", k, what, old, cell.row, cell.col, v)
			} else if !ok {
				m[k] = v
			}
		}
		sum := 0.0
		x0, y0, x1, y1 := 1e9, 1e9, -1e9, -1e9
		for _, cell := range cs {
			if len(cell.at) != 1 {
				c.Fail("the cell in row %d column %d is drawn %d times", cell.row, cell.col, len(cell.at))
				continue
			}
			a := cell.at[0]
			check(left, cell.col, a.x, "columns", cell)
			check(left, cell.col+cell.cols, a.x+a.w, "columns", cell)
			check(top, cell.row, a.y, "rows", cell)
			check(top, cell.row+cell.rows, a.y+a.h, "rows", cell)
			sum += a.w * a.h
			x0, y0 = math.Min(x0, a.x), math.Min(y0, a.y)
			x1, y1 = math.Max(x1, a.x+a.w), math.Max(y1, a.y+a.h)
			if cell.cols > 1 {
				c.Count("column spans", 1)
				spans++
			}
			if cell.rows > 1 {
				c.Count("row spans", 1)
				spans++
			}
		}
		c.Count("cells", len(cs))
		for i := range cs {
			for j := i + 1; j < len(cs); j++ {
				if len(cs[i].at) != 1 || len(cs[j].at) != 1 {
					continue
				}
				c.Count("cell pairs", 1)
				a, b := cs[i].at[0], cs[j].at[0]
				w := math.Min(a.x+a.w, b.x+b.w) - math.Max(a.x, b.x)
				h := math.Min(a.y+a.h, b.y+b.h) - math.Max(a.y, b.y)
				if w > 0.06 && h > 0.06 {
					c.Fail("the cells in row %d column %d and row %d column %d overlap by %.2f x %.2f", cs[i].row, cs[i].col, cs[j].row, cs[j].col, w, h)
				}
			}
		}
		ordered(c, left, "columns")
		ordered(c, top, "rows")
		if complete[t] {
			c.Count("complete tilings", 1)
			if box := (x1 - x0) * (y1 - y0); math.Abs(sum-box) > 0.06*(x1-x0+y1-y0)*float64(nr+nc) {
				c.Fail("cells that tile the table cover %.1f of %.1f mm²", sum, box)
			}
		}
	}
	c.Triv = spans == 0
	compareAll(c, s)
	s.done(c)
}

func ordered(c *run.Case, m map[int]float64, what string) {
	var ks []int
	for k := range m {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	for i := 1; i < len(ks); i++ {
		if m[ks[i]] < m[ks[i-1]]-0.06 {
			c.Fail("grid lines of the %s out of order: %d at %.2f, %d at %.2f", what, ks[i-1], m[ks[i-1]], ks[i], m[ks[i]])
		}
	}
}

func runC09(e *run.Env, c *run.Case) {
	g := newGen(c.R)
	d := g.newDoc("a4", "a4", "a5", "letter", "a3")
	if g.p(60) {
		d.Body = append(d.Body, doc.Font(kv("font-point-size", g.of("6", "7", "8"))))
	}
	type want struct {
		explicit map[int]float64
		total    float64
	}
	wants := map[*doc.Node]want{}
	var tables []*doc.Node
	mixed := false
	for k := g.rng(1, 2); k > 0; k-- {
		cols := g.rng(1, 7)
		o := tableOpt{rows: g.rng(1, 7), cols: cols, spans: g.p(50), maxRS: g.rng(2, 5), short: true, emptyCells: true, padding: g.p(40)}
		if g.p(30) {
			o.rows, o.spans = g.rng(20, 60), false
		}
		t := g.table(o)
		g.paint(t)
		total := g.pageW
		switch g.r.Intn(6) {
		case 0, 1:
			w := g.num(60, math.Min(150, g.pageW), 1)
			t.Style = append(t.Style, kv("width", w))
			total, _ = strconv.ParseFloat(w, 64)
		case 2:
			t.Style = append(t.Style, kv("width", "5000"))
		case 3:
			t.Style = append(t.Style, kv("width", "-1"))
		}
		if o.rows > 7 && g.p(70) {
			t.Repeat = g.rng(1, 2)
		}
		w := want{map[int]float64{}, total}
		var rows [][]*doc.Node
		for _, tr := range t.Kids {
			rows = append(rows, tr.Kids)
		}
		placed, _, _ := ref.Place(rows)
		share := total / float64(cols)
		all := g.p(8) // every column explicit
		hi := 1.0
		if all && !o.spans && total < g.pageW*0.75 {
			hi = 1.3 // the columns may even exceed the table's width
			c.Count("wide columns", 1)
		}
		for i, p := range placed {
			last := i == len(placed)-1
			if !(g.p(25) || last && g.p(40) || all && p.Row == 0) {
				continue
			}
			if !all && p.Col == cols-1 && cols > 1 {
				continue // leave an automatic column
			}
			v := g.num(math.Min(6, share*0.5), share*hi, 2)
			f, _ := strconv.ParseFloat(v, 64)
			if f <= 0 {
				continue
			}
			if g.p(15) {
				name := fmt.Sprintf("w%d-%d", len(tables), i)
				d.Classes = append(d.Classes, doc.Class{Name: name, Style: doc.S("column-width", v)})
				p.N.Classes = append(p.N.Classes, name)
			} else {
				p.N.Style = append(p.N.Style, kv("column-width", v))
			}
			if f > w.explicit[p.Col] {
				w.explicit[p.Col] = f
			}
		}
		wants[t] = w
		tables = append(tables, t)
		if n := len(w.explicit); n > 0 && n < cols {
			mixed = true
			c.Count("mixed tables", 1)
		}
		d.Body = append(d.Body, t, doc.LF(1))
	}
	s := renderBoth(e, c, d, "")
	if s == nil {
		return
	}
	if s.ren.Over {
		c.Triv = true
		return
	}
	c.Triv = !mixed
	for _, t := range tables {
		w := wants[t]
		cs, _, nc := gridCells(t, s.act)
		sum, auto := 0.0, 0
		for i := 0; i < nc; i++ {
			if v := w.explicit[i]; v > 0 {
				sum += v
			} else {
				auto++
			}
		}
		c.Count("explicit columns", nc-auto)
		c.Count("automatic columns", auto)
		cw := make([]float64, nc)
		for i := range cw {
			if v := w.explicit[i]; v > 0 {
				cw[i] = v
			} else {
				cw[i] = (w.total - sum) / float64(auto)
			}
		}
		page0 := 0
		for _, cell := range cs {
			x, width := d.Left, 0.0
			for i := 0; i < cell.col; i++ {
				x += cw[i]
			}
			for i := 0; i < cell.cols; i++ {
				width += cw[cell.col+i]
			}
			if len(cell.at) == 0 {
				c.Fail("the cell in row %d column %d is not drawn", cell.row, cell.col)
			}
			for _, a := range cell.at {
				c.Count("cells", 1)
				if page0 == 0 {
					page0 = a.page
				}
				if a.page > page0 {
					c.Count("cells on later pages", 1)
				}
				if !ink.Near(a.w, width, 0.06) || !ink.Near(a.x, x, 0.06) {
					c.Fail("the cell in row %d column %d on page %d has x=%.2f width %.2f, expected x=%.2f width %.2f (columns %.2f)", cell.row, cell.col, a.page, a.x, a.w, x, width, cw)
				}
			}
		}
	}
	compareAll(c, s)
	s.done(c)
}

// grouped makes a table of groups of rows joined by row spans that start in the
// first row of the group and end within it. It returns the group sizes.
func (g *gen) grouped(groups, cols int, o tableOpt) (*doc.Node, []int) {
	t := doc.Table(doc.S("line-width", g.of("0.1", "0.2", "0.4")))
	if g.p(50) {
		t.Style = append(t.Style, kv("border", g.border()))
	}
	var sz []int
	for i := 0; i < groups; i++ {
		k := 1
		if o.spans && g.p(30) {
			k = g.rng(2, 3)
		}
		spanned := map[int]int{} // column -> rows
		for r := 0; r < k; r++ {
			tr := doc.Tr(nil)
			n := 0
			for col := 0; col < cols; col++ {
				if r > 0 && spanned[col] > r {
					continue
				}
				td := doc.Td(nil)
				if r == 0 && k > 1 && g.p(50) {
					td.RowSpan = g.rng(2, k)
					spanned[col] = td.RowSpan
				} else if o.spans && g.p(15) && col+1 < cols && !(r > 0 && spanned[col+1] > r) {
					td.ColSpan = 2
					col++
				}
				td.Style = append(td.Style, kv("background-color", g.color()))
				if g.p(30) {
					td.Style = append(td.Style, kv("v-align", g.of("middle", "bottom")))
				}
				old := g.maxLen
				g.maxLen = 6
				m := g.rng(1, o.wordsPerCell)
				if g.p(20) {
					m *= 3
				}
				if o.heights && g.p(15) { // always enough for the text
					td.Style = append(td.Style, kv("height", g.num(8, 30, 1)))
					td.Kids = []*doc.Node{doc.T(g.word())}
				} else {
					td.Kids = g.inline(m, false, true)
				}
				g.maxLen = old
				tr.Kids = append(tr.Kids, td)
				n++
			}
			t.Kids = append(t.Kids, tr)
		}
		joined := 1
		for _, v := range spanned {
			if v > joined {
				joined = v
			}
		}
		sz = append(sz, joined)
		for ; joined < k; joined++ {
			sz = append(sz, 1)
		}
	}
	return t, sz
}

func runC10(e *run.Env, c *run.Case) {
	g := newGen(c.R)
	d := g.newDoc("a4", "a5", "a5", "letter")
	_, ph := pageSize(d)
	if g.p(50) {
		d.Body = append(d.Body, doc.Font(kv("font-point-size", g.of("7", "8", "9", "10"))))
	}
	groups := g.rng(3, 18)
	if g.p(30) {
		groups = g.rng(15, 55)
	}
	t, sz := g.grouped(groups, g.rng(1, 4), tableOpt{spans: g.p(50), wordsPerCell: g.rng(1, 5), heights: g.p(40)})
	// the header is a number of whole groups
	hg := 0
	if g.p(65) {
		hg = g.rng(1, 3)
		if g.p(15) {
			hg = g.rng(3, 8)
		}
		for {
			t.Repeat = 0
			for i := 0; i < hg && i < len(sz); i++ {
				t.Repeat += sz[i]
			}
			if t.Repeat <= 10 {
				break
			}
			hg--
		}
		if hg > len(sz) {
			hg = len(sz)
		}
	} else if g.p(30) {
		t.HasRep = true
	}
	if g.p(40) {
		t.Style = append(t.Style, kv("width", g.num(90, 120, 1)))
	}
	switch g.r.Intn(7) {
	case 4:
		d.Body = append(d.Body, doc.SetY(ph-d.Bottom-float64(g.rng(3, 60))))
	case 0:
		d.Body = append(d.Body, doc.SetY(float64(g.rng(int(d.Top)+1, int(ph-d.Bottom)-4))))
	case 1:
		d.Body = append(d.Body, doc.Text(nil, g.inline(g.rng(20, 200), true, true)...))
	case 2, 3:
		d.Body = append(d.Body, doc.LF(float64(g.rng(1, int((ph-d.Top-d.Bottom)/5)))))
	}
	if g.p(25) {
		d.Header = []*doc.Node{doc.Font(kv("font-point-size", "7"), kv("font-weight", "bold"), kv("font-family", "Arial"), kv("font-style", "normal"), kv("font-decoration", "normal")), doc.SetY(2), doc.Text(nil, doc.T(g.hfWords(1)))}
	}
	d.Body = append(d.Body, t)
	if g.p(60) {
		d.Body = append(d.Body, doc.Text(nil, doc.T(g.words(3))))
	}
	s := renderBoth(e, c, d, "")
	if s == nil {
		return
	}
	if s.ren.Over {
		c.Triv = true
		return
	}
	compareAll(c, s)
	if !c.Failed() || true {
		paging(c, d, t, sz, s)
	}
	s.done(c)
}

// paging follows the cells of t over the pages.
func paging(c *run.Case, d *doc.Doc, t *doc.Node, sz []int, s *seen) {
	_, ph := pageSize(d)
	limit := ph - d.Bottom
	cs, nr, _ := gridCells(t, s.act)
	c.Count("rows", nr)
	if len(cs) == 0 || len(cs[0].at) == 0 {
		c.Fail("the first cell is not drawn")
		return
	}
	rep := t.Repeat
	if rep > nr {
		rep = nr
	}
	first := cs[0].at[0].page
	group := make([]int, nr)
	row := 0
	for i, k := range sz {
		if k > 1 {
			c.Count("spanning groups", 1)
		}
		for ; k > 0; k-- {
			group[row] = i
			row++
		}
	}
	// the drawing of each row proper: top, bottom and page
	type rowAt struct {
		page     int
		top, end float64
	}
	rows := make([]rowAt, nr)
	var body []area // areas in drawing order
	pages := map[int]bool{}
	for _, cell := range cs {
		own := cell.at
		if cell.row < rep {
			// first drawing is the row itself, the others are repetitions
			if len(own) == 0 {
				c.Fail("header cell in row %d column %d is not drawn", cell.row, cell.col)
				return
			}
			own = own[:1]
		}
		if len(own) != 1 {
			c.Fail("the cell in row %d column %d is drawn %d times", cell.row, cell.col, len(own))
			return
		}
		a := own[0]
		body = append(body, a)
		pages[a.page] = true
		r := &rows[cell.row]
		if r.page == 0 {
			*r = rowAt{a.page, a.y, 0}
		} else if r.page != a.page || !ink.Near(r.top, a.y, 0.06) {
			c.Fail("row %d is torn: cells at p%d y=%.2f and p%d y=%.2f", cell.row, r.page, r.top, a.page, a.y)
			return
		}
		last := &rows[cell.row+cell.rows-1]
		if a.y+a.h > last.end {
			last.end = a.y + a.h
		}
		if a.y < d.Top-0.06 || a.y+a.h > limit+0.06 {
			c.Fail("the cell in row %d column %d (p%d y=%.2f to %.2f) leaves the margins %.2f to %.2f", cell.row, cell.col, a.page, a.y, a.y+a.h, d.Top, limit)
		}
	}
	for i := range rows {
		if rows[i].page == 0 { // covered by spans
			rows[i].page = rows[i-1].page
			rows[i].top = rows[i-1].end
		}
	}
	for i := 1; i < len(body); i++ {
		if body[i].z < body[i-1].z {
			c.Fail("cells are drawn out of order")
			return
		}
	}
	// header repetitions
	reps := map[int]bool{}
	for _, cell := range cs {
		if cell.row >= rep {
			continue
		}
		for _, a := range cell.at[1:] {
			if reps[a.page] && cell.n == cs[0].n {
				c.Fail("the header is repeated twice on page %d", a.page)
			}
			reps[a.page] = true
			f := cell.at[0]
			wantY := d.Top + f.y - rows[0].top
			if !ink.Near(a.y, wantY, 0.06) || !ink.Near(a.x, f.x, 0.06) || !ink.Near(a.w, f.w, 0.06) || !ink.Near(a.h, f.h, 0.06) {
				c.Fail("the header cell in row %d column %d is repeated on page %d as x=%.2f y=%.2f w=%.2f h=%.2f, expected x=%.2f y=%.2f w=%.2f h=%.2f", cell.row, cell.col, a.page, a.x, a.y, a.w, a.h, f.x, wantY, f.w, f.h)
			}
			c.Count("repeated header rows", 1)
		}
	}
	for _, cell := range cs {
		if cell.row >= rep {
			continue
		}
		on := map[int]int{}
		for _, a := range cell.at[1:] {
			on[a.page]++
		}
		for p := range pages {
			want := 0
			if p > first {
				want = 1
			}
			if on[p] != want {
				c.Fail("the header cell in row %d column %d is repeated %d times on page %d", cell.row, cell.col, on[p], p)
			}
		}
		for p := range on {
			if !pages[p] {
				c.Fail("the header is repeated on page %d, which has no other rows", p)
			}
		}
	}
	// positions
	headH := 0.0
	if rep > 0 {
		for _, cell := range cs {
			if cell.row < rep {
				headH = math.Max(headH, cell.at[0].y+cell.at[0].h-rows[0].top)
			}
		}
	}
	groupEnd := func(i int) float64 { // bottom of the group starting in row i
		b := 0.0
		for _, cell := range cs {
			if group[cell.row] == group[i] {
				b = math.Max(b, cell.at[0].y+cell.at[0].h)
			}
		}
		return b
	}
	crossed := false
	for i := 1; i < nr; i++ {
		switch {
		case rows[i].page == rows[i-1].page:
			prev := groupEnd(i - 1)
			if group[i] != group[i-1] && !ink.Near(rows[i].top, prev, 0.06) {
				c.Fail("row %d starts at %.2f, the row before ends at %.2f", i, rows[i].top, prev)
			}
		case group[i] == group[i-1]:
			c.Fail("rows %d and %d are joined by spans but on pages %d and %d", i-1, i, rows[i-1].page, rows[i].page)
		case i <= rep:
			c.Fail("the page breaks between header rows or behind the header (row %d)", i)
		default:
			crossed = true
			c.Count("table page crossings", 1)
			if rep > 0 {
				c.Count("crossings with header", 1)
			}
			if rows[i].page != rows[i-1].page+1 {
				c.Fail("row %d is on page %d, the row before on page %d", i, rows[i].page, rows[i-1].page)
			}
			if !ink.Near(rows[i].top, d.Top+headH, 0.06) {
				c.Fail("row %d starts page %d at %.2f, expected %.2f", i, rows[i].page, rows[i].top, d.Top+headH)
			}
			if h := groupEnd(i) - rows[i].top; groupEnd(i-1)+h < limit-0.06 {
				c.Fail("row %d was moved to page %d although it fits: %.2f+%.2f, limit %.2f", i, rows[i].page, groupEnd(i-1), h, limit)
			}
		}
	}
	if s.ren.Breaks["table"] > 0 {
		c.Count("tables started on a new page", 1)
		crossed = true
	}
	c.Triv = !crossed
}

func runC11(e *run.Env, c *run.Case) {
	g := newGen(c.R)
	g.unicode = c.Idx%4 == 0
	g.punct = true
	d := g.newDoc("a4", "a3", "letter")
	wd := env(e).imageDir(e)
	mono := c.Idx%2 == 0 // one font size per cell, no row spans: model-free monitor
	var tables []*doc.Node
	for k := g.rng(1, 3); k > 0; k-- {
		o := tableOpt{rows: g.rng(1, 5), cols: g.rng(1, 4), spans: true, maxRS: 3, wordsPerCell: 12, looks: true, brs: true, ps: true, heights: g.p(60), valign: true, halign: []string{"left", "center", "right", "block"}, padding: true, emptyCells: true}
		if mono {
			o.maxRS = 1
			o.halign = o.halign[:3]
		} else if c.Idx%8 == 3 {
			o.rows, o.cols, o.maxRS, o.wordsPerCell, k = g.rng(5, 9), g.rng(2, 4), 8, 25, 1
			c.Count("long spans", 1)
		}
		t := g.table(o)
		g.paint(t)
		for _, tr := range t.Kids {
			for _, td := range tr.Kids {
				if g.p(25) {
					td.Style = append(td.Style, kv("font-point-size", g.of(sizes...)))
				}
				if g.p(25) {
					td.Style = append(td.Style, kv("line-spacing", g.of("0.8", "1", "1.3", "2")))
				}
				switch g.r.Intn(14) {
				case 0:
					td.Style = append(td.Style, kv("height", g.num(45, 60, 1)))
					td.Kids = nil
					for j := g.rng(1, 2); j > 0; j-- {
						st := append(g.looks(), kv("line-width", "0.1"), kv("background-color", g.color()), kv("padding", g.pad(2)))
						if g.p(50) {
							st = append(st, kv("width", g.num(20, 30, 1)))
						}
						if g.p(30) {
							st = append(st, kv("height", g.num(5, 12, 1)))
						}
						old := g.maxLen
						g.maxLen = 4
						td.Kids = append(td.Kids, doc.Box(st, doc.T(g.words(g.rng(1, 2)))))
						g.maxLen = old
						c.Count("boxes in cells", 1)
					}
				case 1:
					td.Style = append(td.Style, kv("height", g.num(40, 55, 1)))
					td.Kids = append(td.Kids, doc.Image(g.of("a.png", "b.jpg", "c.gif"), kv("width", g.num(5, 15, 1))))
					c.Count("images in cells", 1)
				}
			}
		}
		tables = append(tables, t)
		d.Body = append(d.Body, t, doc.LF(1))
	}
	s := renderBoth(e, c, d, wd)
	if s == nil {
		return
	}
	if s.ren.Over || s.ren.Breaks["row"]+s.ren.Breaks["table"]+s.ren.Breaks["box"] > 0 && !mono {
		// spans that interlock may be torn at the end of a page
		c.Triv = true
		return
	}
	n := 0
	for _, t := range tables {
		for _, tr := range t.Kids {
			n += len(tr.Kids)
		}
	}
	c.Count("cells", n)
	c.Triv = n < 4
	compareAll(c, s)
	if mono {
		for _, t := range tables {
			heights(c, t, s)
		}
	}
	s.done(c)
}

// heights recomputes row heights of a table without row spans from the words
// in the PDF.
func heights(c *run.Case, t *doc.Node, s *seen) {
	cs, nr, _ := gridCells(t, s.act)
	words := map[string][]ink.Word{}
	for _, w := range s.aw {
		words[w.Text] = append(words[w.Text], w)
	}
	need := make([]float64, nr)
	got := make([]float64, nr)
	exact := make([]bool, nr)
	for i := range exact {
		exact[i] = true
	}
	for _, cell := range cs {
		if len(cell.at) != 1 {
			c.Fail("the cell in row %d column %d is drawn %d times", cell.row, cell.col, len(cell.at))
			return
		}
		a := cell.at[0]
		got[cell.row] = a.h
		tr := t.Kids[cell.row]
		val := func(k string) (string, *doc.Node) {
			for _, n := range []*doc.Node{cell.n, tr, t} {
				if v := styleS(n, k, ""); v != "" {
					return v, n
				}
			}
			return "", nil
		}
		var pad [4]float64
		if _, n := val("padding"); n != nil {
			pad = style4(n, "padding")
		}
		var ws []ink.Word
		ok := true
		trailing := false // line breaks at the ends are not visible
		for i, k := range cell.n.Kids {
			if k.Kind == "br" && (i == 0 || i == len(cell.n.Kids)-1) {
				trailing = true
			}
			if k.Kind == "box" || k.Kind == "image" {
				ok = false
			}
			for _, w := range wordsOf(k.Text) {
				if k.Kind != "#text" && k.Kind != "p" {
					continue
				}
				if len(words[w]) != 1 {
					ok = false
					continue
				}
				ws = append(ws, words[w][0])
			}
		}
		inner := 0.0
		if len(ws) > 0 {
			fh := ws[0].Size / pdfx.PtPerMM
			if ws[0].Page != ws[len(ws)-1].Page {
				// more text than the declared height has room for
				exact[cell.row] = false
				continue
			}
			inner = ws[len(ws)-1].Y - ws[0].Y + fh
			if ok && !trailing && inner <= a.h-pad[1]-pad[3]+0.01 {
				py, phh := a.y+pad[1], a.h-pad[1]-pad[3]
				top := ws[0].Y - 0.8*fh
				want := py
				switch v, _ := val("v-align"); v {
				case "middle":
					want = py + (phh-inner)/2
				case "bottom":
					want = py + phh - inner
				}
				c.Count("placements", 1)
				if !ink.Near(top, want, 0.06) {
					c.Fail("the text of the cell in row %d column %d starts at y=%.2f, expected %.2f", cell.row, cell.col, top, want)
				}
			}
		}
		h := inner + pad[1] + pad[3]
		if v, _ := val("height"); v != "" {
			f, _ := strconv.ParseFloat(v, 64)
			if f > 0 {
				h, ok, trailing = f, true, false
			}
		}
		if !ok || trailing {
			exact[cell.row] = false
			if !ok {
				continue
			}
		}
		need[cell.row] = math.Max(need[cell.row], h)
	}
	for i := range need {
		if got[i] < need[i]-0.06 || exact[i] && got[i] > need[i]+0.06 {
			c.Fail("row %d is %.2f high, its cells need %.2f", i, got[i], need[i])
		}
		if exact[i] {
			c.Count("row heights", 1)
		}
	}
}
