// Package sim is a drawing engine with page geometry, fonts and metrics of its
// own. It records what is drawn and watches how it is driven. The code under test
// drives it through the engine interface, the reference through ref.Canvas.
package sim

import (
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"math"
	"strings"

	"github.com/jung-kurt/gofpdf/v2"

	"github.com/mazzegi/xpdf/engine"
	"github.com/mazzegi/xpdf/style"

	"verif/harness/pdfx"
)

type Spec struct {
	W, H       float64
	L, T, R, B float64
	Inset      float64 // of the printable area from the right margin
	Scale      float64 // mm per point
	Wide       float64 // relative width of the letters
	Salt       uint32
	Mono       string
	NoFlow     bool // WriteText starts no pages
}

var ErrEngine = errors.New("engine failed on purpose")

type Canvas struct {
	Spec
	Ink      *pdfx.Ink
	page     int
	x, y     float64
	fam, st  string
	size     float64
	text     pdfx.RGB
	draw     pdfx.RGB
	fill     pdfx.RGB
	lw       float64
	header   func()
	footer   func()
	inHF     bool
	z        int
	alias    string
	finished bool
	widths   map[string]float64
}

func New(s Spec) *Canvas {
	return &Canvas{Spec: s, Ink: &pdfx.Ink{}, widths: map[string]float64{}, lw: 0.2, x: s.L, y: s.T}
}

func (c *Canvas) runeWidth(key string, r rune) float64 {
	k := key + string(r)
	if w, ok := c.widths[k]; ok {
		return w
	}
	h := fnv.New32a()
	fmt.Fprintf(h, "%d/%s/%d", c.Salt, key, r)
	w := c.Wide * (0.25 + 0.5*float64(h.Sum32()%10007)/10007)
	c.widths[k] = w
	return w
}

// Width is additive over the letters.
func (c *Canvas) Width(font string, size float64, s string) float64 {
	w := 0.0
	for _, r := range s {
		w += c.runeWidth(font, r)
	}
	return w * size * c.Scale
}

func (c *Canvas) font() string { return c.fam + "-" + strings.ReplaceAll(c.st, "U", "") }

func (c *Canvas) nextZ() int { c.z++; return c.z }

func (c *Canvas) AliasNbPages(a string)            { c.alias = a }
func (c *Canvas) SetHeaderFunc(f func())           { c.header = f }
func (c *Canvas) SetFooterFunc(f func())           { c.footer = f }
func (c *Canvas) PageNo() int                      { return c.page }
func (c *Canvas) GetXY() (float64, float64)        { return c.x, c.y }
func (c *Canvas) GetX() float64                    { return c.x }
func (c *Canvas) GetY() float64                    { return c.y }
func (c *Canvas) GetMargins() (l, t, r, b float64) { return c.L, c.T, c.R, c.B }
func (c *Canvas) GetPageSize() (w, h float64)      { return c.W, c.H }
func (c *Canvas) Area() (x0, y0, x1, y1 float64) {
	return c.L, c.T, c.W - c.R - c.Inset, c.H - c.B
}

func (c *Canvas) call(f func()) {
	if f == nil {
		return
	}
	was := c.inHF
	c.inHF = true
	f()
	c.inHF = was
}

func (c *Canvas) endPage() {
	if c.page > 0 {
		c.call(c.footer)
	}
}

func (c *Canvas) AddPage() {
	fam, st, size, text, draw, fill, lw := c.fam, c.st, c.size, c.text, c.draw, c.fill, c.lw
	restore := func() {
		c.fam, c.st, c.size, c.text, c.draw, c.fill, c.lw = fam, st, size, text, draw, fill, lw
	}
	c.endPage()
	restore()
	c.page++
	c.Ink.W = append(c.Ink.W, c.W)
	c.Ink.H = append(c.Ink.H, c.H)
	c.x, c.y = c.L, c.T
	c.call(c.header)
	restore()
}

func (c *Canvas) SetX(x float64) {
	c.x = x
	if x < 0 {
		c.x = c.W + x
	}
}
func (c *Canvas) setY(y float64) {
	c.y = y
	if y < 0 {
		c.y = c.H + y
	}
}
func (c *Canvas) SetXY(x, y float64) { c.setY(y); c.SetX(x) }
func (c *Canvas) Ln(h float64) {
	c.x = c.L
	c.y += h
}
func (c *Canvas) SetFont(fam, st string, size float64) { c.fam, c.st, c.size = fam, st, size }
func (c *Canvas) GetFontSize() (pt, unit float64)      { return c.size, c.size * c.Scale }
func (c *Canvas) GetStringWidth(s string) float64      { return c.Width(c.font(), c.size, s) }
func (c *Canvas) Write(h float64, s string) {
	if s == "" {
		return
	}
	if !c.NoFlow && !c.inHF && c.y+h > c.H-c.B && c.y > c.T {
		x := c.x
		c.AddPage()
		c.x = x
	}
	w := c.GetStringWidth(s)
	c.Ink.Runs = append(c.Ink.Runs, pdfx.Run{Page: c.page, X: c.x, Y: c.y, Font: c.font(), Size: c.size, Color: c.text, Text: s, Underline: strings.Contains(c.st, "U"), Z: c.nextZ()})
	c.x += w
}
func (c *Canvas) SetTextColor(r, g, b int) { c.text = pdfx.RGB{R: r, G: g, B: b} }
func (c *Canvas) SetDrawColor(r, g, b int) { c.draw = pdfx.RGB{R: r, G: g, B: b} }
func (c *Canvas) SetFillColor(r, g, b int) { c.fill = pdfx.RGB{R: r, G: g, B: b} }
func (c *Canvas) SetLineWidth(w float64)   { c.lw = w }
func (c *Canvas) Rect(x, y, w, h float64, _ string) {
	c.Ink.Rects = append(c.Ink.Rects, pdfx.Rect{Page: c.page, X: x, Y: y, W: w, H: h, Color: c.fill, Z: c.nextZ()})
}
func (c *Canvas) Line(x0, y0, x1, y1 float64) {
	c.Ink.Segs = append(c.Ink.Segs, pdfx.Seg{Page: c.page, X0: x0, Y0: y0, X1: x1, Y1: y1, Width: c.lw, Color: c.draw})
}
func (c *Canvas) ImageOptions(src string, x, y, w, h float64, _ bool, _ gofpdf.ImageOptions, _ int, _ string) {
	f := fnv.New32a()
	f.Write([]byte(src))
	c.Ink.Images = append(c.Ink.Images, pdfx.Image{Page: c.page, X: x, Y: y, W: w, H: h, Name: src, PxW: int(f.Sum32() % 1000003), Z: c.nextZ()})
}
func (c *Canvas) Output(w io.Writer) error {
	c.endPage()
	_, err := io.WriteString(w, Output)
	return err
}

// Output is all the engine ever writes.
const Output = "%SIM the drawing\n"

// Engine makes a Canvas an engine.Engine and watches the protocol.
type Engine struct {
	engine.Engine // nil: methods this engine does not know are not to be called
	C             *Canvas
	Bad           []string // breaches of the protocol
	Calls         map[string]int
	n             int
	FailAt        int // the call from which Error reports ErrEngine
	err           error
	WErr          error // returned by WritePDF
	Quiet         bool  // a failed engine writes nothing, but reports that by Error only
	writes        int
	px, py        float64
	path          bool
	pending       [][4]float64
	depth         int
	hset          bool
	fset          bool
	aset          bool
}

func NewEngine(s Spec) *Engine { return &Engine{C: New(s), Calls: map[string]int{}} }

func (e *Engine) bad(f string, a ...interface{}) {
	if len(e.Bad) < 20 {
		e.Bad = append(e.Bad, fmt.Sprintf(f, a...))
	}
}

func (e *Engine) call(name string, draws bool, fs ...float64) {
	e.Calls[name]++
	e.n++
	if e.FailAt > 0 && e.n >= e.FailAt {
		e.err = ErrEngine
	}
	for _, f := range fs {
		if math.IsNaN(f) || math.IsInf(f, 0) {
			e.bad("%s is called with %v", name, fs)
		}
	}
	if draws && e.C.page == 0 {
		e.bad("%s before the first page", name)
	}
	if e.writes > 0 && e.depth == 0 && name != "Error" && name != "WritePDF" {
		e.bad("%s after the document was written", name)
	}
	if e.path && len(e.pending) > 0 {
		switch name {
		case "MoveTo", "LineTo", "DrawPath":
		case "AddPage", "WritePDF", "WriteText", "FillRect", "PutImage", "SetDrawColor", "SetLineWidth":
			e.bad("%s while a path is not drawn yet", name)
		}
	}
}

func rgb(r, g, b int) bool { return r >= 0 && r < 256 && g >= 0 && g < 256 && b >= 0 && b < 256 }

func (e *Engine) Error() error { e.call("Error", false); return e.err }
func (e *Engine) WritePDF(w io.Writer) error {
	if e.err != nil && e.Quiet {
		e.call("WritePDF", false)
		return nil
	}
	e.call("WritePDF", false)
	e.writes++
	if e.writes > 1 {
		e.bad("the document is written %d times", e.writes)
	}
	if e.depth > 0 {
		e.bad("the document is written within a header or footer")
	}
	if e.err != nil {
		return e.err
	}
	e.C.endPage()
	if e.WErr != nil {
		return e.WErr
	}
	if e.err != nil {
		return e.err
	}
	_, err := io.WriteString(w, Output)
	return err
}
func (e *Engine) SetPageCountAlias(a string) {
	e.call("SetPageCountAlias", false)
	if e.C.page > 0 {
		e.bad("page count alias set after the first page")
	}
	e.aset = true
	e.C.alias = a
}
func (e *Engine) Alias() string    { return e.C.alias }
func (e *Engine) CurrentPage() int { e.call("CurrentPage", false); return e.C.page }
func (e *Engine) framed(name string, f func()) func() {
	return func() {
		e.depth++
		x, y := e.C.GetXY()
		f()
		if x1, y1 := e.C.GetXY(); math.Abs(x-x1) > 1e-9 || math.Abs(y-y1) > 1e-9 {
			e.bad("the %s of page %d moves the cursor from (%.2f, %.2f) to (%.2f, %.2f)", name, e.C.page, x, y, x1, y1)
		}
		e.depth--
	}
}
func (e *Engine) OnHeader(f func()) {
	e.call("OnHeader", false)
	if e.C.page > 0 {
		e.bad("header set after the first page")
	}
	e.hset = true
	e.C.header = e.framed("header", f)
}
func (e *Engine) OnFooter(f func()) {
	e.call("OnFooter", false)
	if e.C.page > 0 {
		e.bad("footer set after the first page")
	}
	e.fset = true
	e.C.footer = e.framed("footer", f)
}
func (e *Engine) AddPage() {
	e.call("AddPage", false)
	if e.depth > 0 {
		e.bad("a page is added by a header or footer")
		return
	}
	if !e.hset || !e.fset || !e.aset {
		e.bad("first page added before header, footer and page count alias are set")
	}
	e.C.AddPage()
}
func (e *Engine) SetX(x float64) { e.call("SetX", false, x); e.C.SetX(x) }
func (e *Engine) SetY(y float64) { e.call("SetY", false, y); e.C.setY(y) }
func (e *Engine) GetXY() (float64, float64) {
	e.call("GetXY", false)
	return e.C.GetXY()
}
func (e *Engine) LineFeed(n float64) {
	e.call("LineFeed", false, n)
	e.C.Ln(n * e.C.size * e.C.Scale)
}
func (e *Engine) ChangeFont(f style.Font) {
	e.call("ChangeFont", false, float64(f.PointSize))
	st := ""
	if f.Style == style.FontStyleItalic {
		st += "I"
	}
	if f.Weight == style.FontWeightBold {
		st += "B"
	}
	if f.Decoration == style.FontDecorationUnderline {
		st += "U"
	}
	e.C.SetFont(string(f.Family), st, float64(f.PointSize))
}
func (e *Engine) PrintableArea() (x0, y0, x1, y1 float64) {
	e.call("PrintableArea", false)
	return e.C.Area()
}
func (e *Engine) PageWidth() float64  { e.call("PageWidth", false); return e.C.W }
func (e *Engine) PageHeight() float64 { e.call("PageHeight", false); return e.C.H }
func (e *Engine) PutImage(src string, x, y, w, h float64) {
	e.call("PutImage", true, x, y, w, h)
	e.C.ImageOptions(src, x, y, w, h, false, gofpdf.ImageOptions{}, 0, "")
}
func (e *Engine) SetTextColor(r, g, b int) {
	e.call("SetTextColor", false)
	if !rgb(r, g, b) {
		e.bad("text colour %d %d %d", r, g, b)
	}
	e.C.SetTextColor(r, g, b)
}
func (e *Engine) FontHeight() float64 { e.call("FontHeight", false); return e.C.size * e.C.Scale }
func (e *Engine) MonoFont() string    { e.call("MonoFont", false); return e.C.Mono }
func (e *Engine) TextWidth(s string) float64 {
	e.call("TextWidth", false)
	return e.C.GetStringWidth(s)
}
func (e *Engine) WriteText(s string) {
	e.call("WriteText", true)
	e.C.Write(e.C.size*e.C.Scale, s)
}
func (e *Engine) Margins() (l, t, r, b float64) {
	e.call("Margins", false)
	return e.C.GetMargins()
}
func (e *Engine) SetLineWidth(w float64) { e.call("SetLineWidth", false, w); e.C.SetLineWidth(w) }
func (e *Engine) SetDrawColor(r, g, b int) {
	e.call("SetDrawColor", false)
	if !rgb(r, g, b) {
		e.bad("line colour %d %d %d", r, g, b)
	}
	e.C.SetDrawColor(r, g, b)
}
func (e *Engine) SetFillColor(r, g, b int) {
	e.call("SetFillColor", false)
	if !rgb(r, g, b) {
		e.bad("area colour %d %d %d", r, g, b)
	}
	e.C.SetFillColor(r, g, b)
}
func (e *Engine) FillRect(x, y, w, h float64) {
	e.call("FillRect", true, x, y, w, h)
	e.C.Rect(x, y, w, h, "F")
}
func (e *Engine) MoveTo(x, y float64) {
	e.call("MoveTo", true, x, y)
	e.path = true
	e.px, e.py = x, y
}
func (e *Engine) LineTo(x, y float64) {
	e.call("LineTo", true, x, y)
	if !e.path {
		e.bad("LineTo without MoveTo")
	}
	e.pending = append(e.pending, [4]float64{e.px, e.py, x, y})
	e.px, e.py = x, y
}
func (e *Engine) DrawPath() {
	e.call("DrawPath", true)
	for _, s := range e.pending {
		e.C.Line(s[0], s[1], s[2], s[3])
	}
	e.pending, e.path = nil, false
}

// End reports what is left over when processing is done.
func (e *Engine) End() {
	if len(e.pending) > 0 {
		e.bad("a path was never drawn")
	}
	if e.err == nil && e.writes != 1 {
		e.bad("the document is written %d times", e.writes)
	}
}
