package checks

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/mazzegi/xpdf/engine"
	"github.com/mazzegi/xpdf/font"
	"github.com/mazzegi/xpdf/style"
	"github.com/mazzegi/xpdf/xdoc"

	"verif/harness/ink"
	"verif/harness/pdfx"
	"verif/harness/run"
	"verif/harness/sut"
)

func init() {
	register(&run.Prop{
		ID: "C31", Quick: 12000, Thorough: 150000, Run: runC31,
		Rule:      "Each case drives the PDF engine directly with 20 to 150 random calls and compares, call by call, what it reports (cursor, page, font height, text width, margins, printable area, page size) with a simulation of its state, and in the end the drawing it writes (texts, areas, lines, images, page sizes, header and footer of every page, page count alias) with what was asked for. A sixth of the cases run into an error (unknown font, missing or damaged image, failing writer): it must be reported from then on, and by writing. Non-trivial: at least 10 things drawn, or an error.",
		Technique: "Model-based runtime monitor of the engine: simulated state compared after every call, and the written drawing at the end.",
		Min:       map[string]int{"calls": 250000, "texts": 40000, "pages": 9000, "areas": 15000, "lines": 15000, "images": 10000, "headers": 4000, "colours shared with headers": 1200, "automatic pages": 700, "errors": 900, "widths": 20000},
	})
}

var fewColors = []pdfx.RGB{{}, {R: 200, G: 10, B: 10}, {R: 255, G: 255, B: 255}}

// pointSize is the size of a font, mostly a small whole number.
func (g *gen) pointSize() float64 {
	switch g.r.Intn(20) {
	case 0:
		return float64(g.rng(21, 60))
	case 1, 2, 3:
		return float64(g.rng(20, 100)) / 4
	}
	return float64(g.rng(6, 20))
}

func runC31(e *run.Env, c *run.Case) {
	g := newGen(c.R)
	g.unicode = c.Idx%4 == 0
	g.maxLen = 6
	le := env(e)
	wd := le.imageDir(e)
	d := g.newDoc("a3", "a4", "a5", "letter", "legal")
	if g.p(30) {
		max := 30.0
		if g.p(15) {
			max = 60
		}
		d.Left, d.Top, d.Right, d.Bottom = g.r.Float64()*max, g.r.Float64()*max*1.3, g.r.Float64()*max/2, g.r.Float64()*max*0.8
	}
	pw, ph := pageSize(d)
	x := &xdoc.Document{}
	x.Page.Orientation, x.Page.Format = xdoc.Orientation(d.Orientation), xdoc.PaperFormat(d.Format)
	x.Page.Margins.Left, x.Page.Margins.Top, x.Page.Margins.Right, x.Page.Margins.Bottom = d.Left, d.Top, d.Right, d.Bottom
	reg := font.NewRegistry()
	if g.unicode {
		reg = sut.Registry(le.fontDir)
	}
	var log []string
	say := func(f string, a ...interface{}) { log = append(log, fmt.Sprintf(f, a...)) }
	bad := func(f string, a ...interface{}) { c.Fail("call %d: %s", len(log), fmt.Sprintf(f, a...)) }
	defer func() {
		if c.Failed() {
			c.Attach("calls", strings.Join(log, "\n"))
		}
	}()
	var eng *engine.FPDF
	var err error
	if pn := sut.Protect(func() { eng, err = engine.NewFPDF(reg, x) }); pn != "" || err != nil {
		c.Fail("no engine: %v %s", err, pn)
		return
	}
	// within a hundredth of a millimetre; the exact size decides page breaks
	if w, h := eng.PageWidth(), eng.PageHeight(); !ink.Near(w, pw, 0.02) || !ink.Near(h, ph, 0.02) {
		bad("page of %.2f x %.2f, expected %.2f x %.2f", w, h, pw, ph)
		return
	} else {
		pw, ph = w, h
	}
	wantErr := ""
	if c.Idx%6 == 5 {
		wantErr = g.of("font", "image", "damaged", "writer")
	}
	alias := g.of("{np}", "{total}", "@@")
	type state struct {
		x, y             float64
		page             int
		fam              string
		st               style.Font
		text, draw, fill pdfx.RGB
	}
	s := state{x: d.Left, y: d.Top}
	few := g.p(40)
	exp := &pdfx.Ink{}
	m := le.metrics(g.unicode)
	hf := 0
	fontH := func() float64 { return float64(s.st.PointSize) * 25.4 / 72 }
	base := func() string {
		sfx := ""
		if s.st.Weight == style.FontWeightBold {
			sfx += "B"
		}
		if s.st.Style == style.FontStyleItalic {
			sfx += "I"
		}
		return baseFont(string(s.st.Family), sfx)
	}
	width := func(t string) float64 { return m.Width(base(), float64(s.st.PointSize), t) }
	text := func(t string) {
		exp.Runs = append(exp.Runs, pdfx.Run{Page: s.page, X: s.x + 1, Y: s.y + 0.5*fontH() + 0.3*fontH(), Font: base(), Size: float64(s.st.PointSize), Color: s.text, Text: t, Underline: s.st.Decoration == style.FontDecorationUnderline})
		s.x += width(t)
	}
	setFont := func() {
		f := style.Font{Family: g.of("Arial", "Times", "Courier", "Helvetica"), PointSize: g.pointSize(), Style: style.FontStyle(g.of("normal", "italic")), Weight: style.FontWeight(g.of("normal", "bold")), Decoration: style.FontDecoration(g.of("normal", "normal", "underline"))}
		if g.unicode {
			f.Family = "gosans"
		}
		say("ChangeFont(%v)", f)
		eng.ChangeFont(f)
		s.st = f
	}
	cursor := func(what string) {
		ax, ay := eng.GetXY()
		if !ink.Near(ax, s.x, 1e-6) || !ink.Near(ay, s.y, 1e-6) {
			bad("after %s the cursor is at (%.4f, %.4f), expected (%.4f, %.4f)", what, ax, ay, s.x, s.y)
		}
	}
	frame := func(name, what string, y float64) func() {
		return func() {
			hf++
			if cp := eng.CurrentPage(); cp != s.page {
				bad("the %s is drawn on page %d, expected %d", name, cp, s.page)
			}
			kept := s
			bx, by := eng.GetXY()
			eng.SetY(y)
			s.y = y
			if y < 0 {
				s.y = ph + y
			}
			eng.SetX(d.Left + 2)
			s.x = d.Left + 2
			f := style.Font{Family: s.st.Family, PointSize: 7}
			eng.ChangeFont(f)
			s.st = f
			eng.SetTextColor(200, 10, 10)
			s.text = pdfx.RGB{R: 200, G: 10, B: 10}
			if few {
				s.text, s.fill, s.draw = fewColors[g.r.Intn(len(fewColors))], fewColors[g.r.Intn(len(fewColors))], fewColors[g.r.Intn(len(fewColors))]
				eng.SetTextColor(s.text.R, s.text.G, s.text.B)
				eng.SetFillColor(s.fill.R, s.fill.G, s.fill.B)
				eng.SetDrawColor(s.draw.R, s.draw.G, s.draw.B)
				lw := 0.1 + float64(g.rng(0, 20))/10
				eng.SetLineWidth(lw)
				x0, y0 := g.r.Float64()*100, g.r.Float64()*100
				eng.FillRect(x0, y0, 3, 4)
				exp.Rects = append(exp.Rects, pdfx.Rect{Page: s.page, X: x0, Y: y0, W: 3, H: 4, Color: s.fill})
				c.Count("colours shared with headers", 1)
			}
			text(what)
			eng.WriteText(what)
			cursor(name)
			eng.SetX(bx)
			eng.SetY(by)
			s = kept
			c.Count("headers", 1)
		}
	}
	hasH, hasF := g.p(50), g.p(50)
	eng.SetPageCountAlias(alias)
	hText, fText := "Head "+g.word(), "Foot "+g.word()
	// the callbacks are driven by the engine; the simulation turns pages there
	turning := false
	head, foot := func() {}, func() {}
	if hasH {
		head = frame("header", hText, 1.5)
	}
	if hasF {
		foot = frame("footer", fText, -4)
	}
	eng.OnHeader(func() {
		if !turning {
			bad("a header is drawn without a new page")
		}
		s.page++
		s.x, s.y = d.Left, d.Top
		c.Count("pages", 1)
		head()
	})
	eng.OnFooter(func() { foot() })
	addPage := func() {
		say("AddPage()")
		was := s.page
		turning = true
		eng.AddPage()
		turning = false
		if s.page != was+1 {
			bad("AddPage draws %d headers", s.page-was)
		}
		cursor("AddPage")
	}
	setFont()
	addPage()
	failed := false
	n := g.rng(20, 150)
	failAt := g.rng(5, n)
	var pth []pdfx.Seg
	for i := 0; i < n && !c.Failed(); i++ {
		c.Count("calls", 1)
		if i == failAt && wantErr != "" && wantErr != "writer" {
			failed = true
			switch wantErr {
			case "font":
				say("ChangeFont(nosuchfont)")
				eng.ChangeFont(style.Font{Family: "nosuchfont", PointSize: 10})
			case "image":
				say("PutImage(missing)")
				eng.PutImage(filepath.Join(wd, "missing.png"), 10, 10, 5, 5)
			case "damaged":
				say("PutImage(damaged)")
				f := filepath.Join(e.Scratch, "damaged.png")
				os.WriteFile(f, []byte("\x89PNG\r\n\x1a\n"+g.words(4)), 0o644)
				eng.PutImage(f, 10, 10, 5, 5)
			}
			if eng.Error() == nil {
				bad("no error reported")
			}
		}
		if failed {
			// must stay reported whatever follows
			switch g.r.Intn(4) {
			case 0:
				eng.SetX(10)
			case 1:
				eng.WriteText("x")
			case 2:
				eng.ChangeFont(style.Font{Family: "Arial", PointSize: 10})
			case 3:
				eng.FillRect(1, 1, 2, 2)
			}
			if eng.Error() == nil {
				bad("the error is forgotten")
			}
			continue
		}
		switch g.r.Intn(20) {
		case 0, 1:
			v := g.r.Float64() * pw * 0.6
			s.x = v
			if g.p(30) {
				s.x, v = pw-v-40, -v-40
			}
			if g.p(8) {
				v = pw * (1 + g.r.Float64())
				s.x = v
			}
			say("SetX(%v)", v)
			eng.SetX(v)
			cursor("SetX")
		case 2, 3:
			v := g.r.Float64() * ph * 0.8
			s.y = v
			if g.p(30) {
				s.y, v = ph-v-1, -v-1
			}
			say("SetY(%v)", v)
			eng.SetY(v)
			cursor("SetY")
		case 4:
			v := float64(g.rng(0, 12)) / 4
			say("LineFeed(%v)", v)
			eng.LineFeed(v)
			s.x = d.Left
			s.y += v * fontH()
			cursor("LineFeed")
		case 5, 6:
			setFont()
			cursor("ChangeFont")
		case 7:
			r, gr, b := g.r.Intn(256), g.r.Intn(256), g.r.Intn(256)
			if few {
				c := fewColors[g.r.Intn(len(fewColors))]
				r, gr, b = c.R, c.G, c.B
			}
			say("colours %d %d %d", r, gr, b)
			col := pdfx.RGB{R: r, G: gr, B: b}
			switch g.r.Intn(3) {
			case 0:
				eng.SetTextColor(r, gr, b)
				s.text = col
			case 1:
				eng.SetDrawColor(r, gr, b)
				s.draw = col
			case 2:
				eng.SetFillColor(r, gr, b)
				s.fill = col
			}
		case 8, 9, 10, 11, 12:
			t := g.word()
			if g.p(30) {
				t = " " + t
			}
			if g.p(10) {
				t += " " + g.word()
			}
			if hasDigit(t) || s.x+width(t)+3 > pw-d.Right {
				continue
			}
			h := fontH()
			if ink.Near(s.y+h, ph-d.Bottom, 1e-6) {
				continue
			}
			say("WriteText(%q)", t)
			if s.y+h > ph-d.Bottom {
				c.Count("automatic pages", 1)
				sx, was := s.x, s.page
				turning = true
				before := s
				eng.WriteText(t)
				turning = false
				if s.page != was+1 {
					bad("no page is started for a text below the bottom margin (%.2f + %.2f > %.2f)", before.y, h, ph-d.Bottom)
					break
				}
				s.x = sx
				text(t)
			} else {
				eng.WriteText(t)
				text(t)
			}
			c.Count("texts", 1)
			cursor("WriteText")
		case 13:
			t := g.word() + g.of("", " ", " "+g.word())
			c.Count("widths", 1)
			if w := eng.TextWidth(t); !ink.Near(w, width(t), 1e-6) {
				bad("%q is %.4f wide, expected %.4f", t, w, width(t))
			}
			cursor("TextWidth")
		case 14:
			x0, y0, w, h := g.r.Float64()*100, g.r.Float64()*100, 1+g.r.Float64()*50, 1+g.r.Float64()*50
			say("FillRect(%v, %v, %v, %v)", x0, y0, w, h)
			eng.FillRect(x0, y0, w, h)
			exp.Rects = append(exp.Rects, pdfx.Rect{Page: s.page, X: x0, Y: y0, W: w, H: h, Color: s.fill})
			c.Count("areas", 1)
			cursor("FillRect")
		case 15:
			lw := 0.1 + float64(g.rng(0, 20))/10
			say("SetLineWidth(%v)", lw)
			eng.SetLineWidth(lw)
			px, py := g.r.Float64()*100, g.r.Float64()*100
			say("MoveTo(%v, %v)", px, py)
			eng.MoveTo(px, py)
			pth = nil
			for k := g.rng(1, 4); k > 0; k-- {
				qx, qy := g.r.Float64()*100, g.r.Float64()*100
				if g.p(20) {
					say("MoveTo(%v, %v)", qx, qy)
					eng.MoveTo(qx, qy)
				} else {
					say("LineTo(%v, %v)", qx, qy)
					eng.LineTo(qx, qy)
					pth = append(pth, pdfx.Seg{Page: s.page, X0: px, Y0: py, X1: qx, Y1: qy, Width: lw, Color: s.draw})
				}
				px, py = qx, qy
			}
			say("DrawPath()")
			eng.DrawPath()
			exp.Segs = append(exp.Segs, pth...)
			c.Count("lines", len(pth))
			// drawing a path may leave the cursor anywhere
			s.x, s.y = d.Left, d.Top+3
			eng.SetX(s.x)
			eng.SetY(s.y)
		case 16:
			f := g.of("a.png", "b.jpg", "c.gif")
			px := map[string][2]int{"a.png": {40, 30}, "b.jpg": {30, 45}, "c.gif": {64, 16}}[f]
			x0, y0, w, h := g.r.Float64()*100, g.r.Float64()*100, 1+g.r.Float64()*50, 1+g.r.Float64()*50
			say("PutImage(%s, %v, %v, %v, %v)", f, x0, y0, w, h)
			eng.PutImage(filepath.Join(wd, f), x0, y0, w, h)
			exp.Images = append(exp.Images, pdfx.Image{Page: s.page, X: x0, Y: y0, W: w, H: h, PxW: px[0], PxH: px[1]})
			c.Count("images", 1)
			cursor("PutImage")
		case 17:
			if g.p(30) {
				addPage()
			}
		default:
			if cp := eng.CurrentPage(); cp != s.page {
				bad("the current page is %d, expected %d", cp, s.page)
			}
			if h := eng.FontHeight(); !ink.Near(h, fontH(), 1e-6) {
				bad("the font is %.4f high, expected %.4f", h, fontH())
			}
			if l, t, r, b := eng.Margins(); !ink.Near(l, d.Left, 1e-9) || !ink.Near(t, d.Top, 1e-9) || !ink.Near(r, d.Right, 1e-9) || !ink.Near(b, d.Bottom, 1e-9) {
				bad("margins %v %v %v %v, expected %v %v %v %v", l, t, r, b, d.Left, d.Top, d.Right, d.Bottom)
			}
			if w, h := eng.PageWidth(), eng.PageHeight(); !ink.Near(w, pw, 0.02) || !ink.Near(h, ph, 0.02) {
				bad("page of %.2f x %.2f, expected %.2f x %.2f", w, h, pw, ph)
			}
			x0, y0, x1, y1 := eng.PrintableArea()
			if w, h := eng.PageWidth(), eng.PageHeight(); !ink.Near(x0, d.Left, 1e-6) || !ink.Near(y0, d.Top, 1e-6) || !ink.Near(x1, w-d.Right-2, 1e-6) || !ink.Near(y1, h-d.Bottom, 1e-6) {
				bad("printable area (%.2f, %.2f) to (%.2f, %.2f) on %.2f x %.2f with margins %v %v %v %v", x0, y0, x1, y1, w, h, d.Left, d.Top, d.Right, d.Bottom)
			}
			if mf := eng.MonoFont(); mf != "Courier" && !g.unicode {
				bad("mono font %q", mf)
			}
			cursor("reading the state")
		}
	}
	c.Smp = compact(strings.Join(log, "; "))
	c.Signature(log...)
	c.Triv = len(exp.Runs)+len(exp.Rects)+len(exp.Images) < 10 && !failed && wantErr == ""
	if c.Failed() {
		return
	}
	var buf bytes.Buffer
	if failed {
		c.Count("errors", 1)
		var werr error
		if pn := sut.Protect(func() { werr = eng.WritePDF(&buf) }); pn != "" {
			bad("writing panics: %s", pn)
		}
		if werr == nil {
			bad("the engine has an error, writing reports none")
		}
		return
	}
	if err := eng.Error(); err != nil {
		bad("unexpected error %v", err)
		return
	}
	// the alias is replaced wherever it was written, its width is that of the alias
	eng.SetX(d.Left)
	eng.SetY(d.Top + 1)
	s.x, s.y = d.Left, d.Top+1
	f := style.Font{Family: "Arial", PointSize: 10}
	if g.unicode {
		f.Family = "gosans"
	}
	eng.ChangeFont(f)
	s.st = f
	eng.WriteText("of " + alias)
	text("of " + alias)
	exp.Runs[len(exp.Runs)-1].Text = fmt.Sprintf("of %d", s.page)
	cursor("writing the alias")
	if wantErr == "writer" {
		c.Count("errors", 1)
		w := &faultyWriter{limit: g.r.Intn(900), err: errInjected}
		var werr error
		if pn := sut.Protect(func() { werr = eng.WritePDF(w) }); pn != "" {
			bad("writing panics: %s", pn)
		}
		if werr == nil || !(errors.Is(werr, errInjected) || strings.Contains(werr.Error(), errInjected.Error())) {
			bad("the writer failed with %v, writing reports %v", errInjected, werr)
		}
		return
	}
	var werr error
	if pn := sut.Protect(func() { werr = eng.WritePDF(&buf) }); pn != "" || werr != nil {
		bad("writing fails: %v %s", werr, pn)
		return
	}
	pf, err := pdfx.Parse(buf.Bytes())
	if err != nil {
		bad("no valid PDF: %v", err)
		return
	}
	act, err := pf.Ink()
	if err != nil {
		bad("no valid PDF: %v", err)
		return
	}
	if len(act.W) != s.page {
		bad("%d pages, expected %d", len(act.W), s.page)
	}
	for i := range act.W {
		if !ink.Near(act.W[i], pw, 0.02) || !ink.Near(act.H[i], ph, 0.02) {
			bad("page %d of %.2f x %.2f, expected %.2f x %.2f", i+1, act.W[i], act.H[i], pw, ph)
		}
	}
	perPage := 0
	if hasH {
		perPage++
	}
	if hasF {
		perPage++
	}
	if hf != perPage*s.page {
		bad("%d headers and footers on %d pages", hf, s.page)
	}
	compareWords(c, ink.Words(exp, m), ink.Words(act, m), aspAll)
	compareRects(c, exp.Rects, act.Rects)
	compareSegs(c, exp, act)
	compareImages(c, exp.Images, act.Images)
}

// baseFont is the name a font goes by in the PDF.
func baseFont(fam, st string) string {
	switch fam {
	case "gosans":
		return "utf8gosans" + st
	case "Arial", "Helvetica":
		return "Helvetica" + map[string]string{"": "", "B": "-Bold", "I": "-Oblique", "BI": "-BoldOblique"}[st]
	case "Courier":
		return "Courier" + map[string]string{"": "", "B": "-Bold", "I": "-Oblique", "BI": "-BoldOblique"}[st]
	}
	return "Times" + map[string]string{"": "-Roman", "B": "-Bold", "I": "-Italic", "BI": "-BoldItalic"}[st]
}
