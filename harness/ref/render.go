package ref

import (
	"bytes"
	"image"
	_ "image/gif"
	_ "image/jpeg"
	_ "image/png"
	"io"
	"os"
	"path/filepath"

	"github.com/jung-kurt/gofpdf/v2"

	"verif/harness/doc"
	"verif/harness/pdfx"
)

type FontFile struct {
	Name, Style string // Style: "" B I BI
	Bytes       []byte
}

type Renderer struct {
	d     *doc.Doc
	pdf   Canvas
	hyph  func(string) []string
	wd    string
	font  Styles // only the font part is ever changed
	inHF  bool
	Hook  func(LineInfo)
	THook func(TableInfo)
	// Nearest is the smallest margin by which any break decision was taken.
	Nearest float64
	Breaks  map[string]int // why pages were added
	Calls   int
	File    *pdfx.File // the file written
	// Over: a box, or a table row with its spans, is higher than the page.
	Over bool
}

// Canvas is the part of gofpdf the reference draws with.
type Canvas interface {
	AliasNbPages(string)
	SetHeaderFunc(func())
	SetFooterFunc(func())
	Output(io.Writer) error
	AddPage()
	PageNo() int
	GetX() float64
	GetY() float64
	GetXY() (float64, float64)
	SetX(float64)
	SetXY(x, y float64)
	Ln(float64)
	GetMargins() (l, t, r, b float64)
	GetPageSize() (w, h float64)
	SetFont(family, style string, size float64)
	GetFontSize() (pt, unit float64)
	GetStringWidth(string) float64
	Write(h float64, s string)
	SetTextColor(r, g, b int)
	SetDrawColor(r, g, b int)
	SetFillColor(r, g, b int)
	SetLineWidth(float64)
	Rect(x, y, w, h float64, style string)
	Line(x0, y0, x1, y1 float64)
	ImageOptions(src string, x, y, w, h float64, flow bool, o gofpdf.ImageOptions, link int, linkStr string)
}

type LineInfo struct {
	Page, Items  int
	Last, Hyphen bool
	HAlign       string
	Width, Avail float64
}

type CellInfo struct {
	Node           *doc.Node
	Row, Col       int
	Cols, Rows     int
	X, Y, W, H     float64
	Page           int
	RepeatedHeader bool
}

type TableInfo struct {
	Node  *doc.Node
	Cells []CellInfo
}

type Options struct {
	Fonts []FontFile
	Hyph  func(string) []string
	WD    string
	// Canvas to draw on instead of a PDF; see Draw.
	Canvas Canvas
}

func New(d *doc.Doc, o Options) *Renderer {
	ori := map[string]string{"portrait": "P", "landscape": "L"}[d.Orientation]
	fm, ok := map[string]string{"a3": "A3", "a4": "A4", "a5": "A5", "letter": "Letter", "legal": "Legal"}[d.Format]
	if !ok {
		fm = "A4"
	}
	r := &Renderer{d: d, hyph: o.Hyph, wd: o.WD, font: Default(), Nearest: 1e9, Breaks: map[string]int{}}
	if o.Canvas != nil {
		r.pdf = o.Canvas
		return r
	}
	pdf := gofpdf.New(ori, "mm", fm, "")
	for _, f := range o.Fonts {
		pdf.AddUTF8FontFromBytes(f.Name, f.Style, f.Bytes)
	}
	pdf.SetAutoPageBreak(true, d.Bottom)
	pdf.SetMargins(d.Left, d.Top, d.Right)
	r.pdf = pdf
	return r
}

// Render draws the document and returns its ink.
func (r *Renderer) Render() (*pdfx.Ink, error) {
	var b bytes.Buffer
	if err := r.Draw(&b); err != nil {
		return nil, err
	}
	f, err := pdfx.Parse(b.Bytes())
	if err != nil {
		return nil, err
	}
	r.File = f
	return f.Ink()
}

// Draw draws the document on the canvas.
func (r *Renderer) Draw(w io.Writer) error {
	r.pdf.AliasNbPages("{np}")
	hf := func(ns []*doc.Node) func() {
		return func() {
			x, y := r.pdf.GetXY()
			saved, inHF := r.font, r.inHF
			r.inHF = true
			r.font = Default()
			r.reset()
			l, _, _, _ := r.pdf.GetMargins()
			r.pdf.SetX(l)
			r.section(ns)
			r.font, r.inHF = saved, inHF
			r.pdf.SetXY(x, y)
		}
	}
	r.pdf.SetHeaderFunc(hf(r.d.Header))
	r.pdf.SetFooterFunc(hf(r.d.Footer))
	r.setFont(r.font)
	r.addPage("first")
	r.section(r.d.Body)
	return r.pdf.Output(w)
}

func (r *Renderer) addPage(why string) {
	r.Breaks[why]++
	r.pdf.AddPage()
}

func (r *Renderer) reset() {
	r.setFont(r.font)
	r.textColor(r.font)
}

func (r *Renderer) area() (x0, y0, x1, y1 float64) {
	if a, ok := r.pdf.(interface {
		Area() (x0, y0, x1, y1 float64)
	}); ok {
		return a.Area()
	}
	l, t, rt, b := r.pdf.GetMargins()
	w, h := r.pdf.GetPageSize()
	return l, t, w - rt - 2, h - b
}

func eff(avail, want float64) float64 {
	if want < 0 || want > avail {
		return avail
	}
	return want
}

func (r *Renderer) section(ns []*doc.Node) {
	for _, n := range ns {
		x0, y0, x1, y1 := r.area()
		switch n.Kind {
		case "font":
			s := Cascade(r.font, r.d.Classes, "", n)
			r.font.Family, r.font.Size, r.font.FStyle, r.font.Weight, r.font.Decoration = s.Family, s.Size, s.FStyle, s.Weight, s.Decoration
			r.setFont(r.font)
		case "lf":
			r.pdf.Ln(r.fontH() * n.Num)
		case "setx":
			r.pdf.SetX(n.Num)
		case "sety":
			r.pdf.SetXY(r.pdf.GetX(), n.Num)
		case "newpage":
			if !r.inHF {
				r.addPage("newpage")
			}
		case "text":
			if len(n.Kids) == 0 {
				break
			}
			s := Cascade(r.font, r.d.Classes, "", n)
			r.writeText(n.Kids, eff(x1-x0, s.Width), s)
			r.reset()
		case "box":
			r.box(n, x1-x0)
		case "table":
			r.table(n)
		case "image":
			r.image(n, x1-x0, y1-y0)
		}
	}
}

// boxHeight is the outer height.
func (r *Renderer) boxHeight(n *doc.Node, s Styles, inner float64) float64 {
	h := s.Height
	if h <= 0 {
		h = r.fontH()
		if len(n.Kids) > 0 {
			h = r.textHeight(n.Kids, inner, s)
		}
	}
	return h + s.PT + s.PB
}

func (r *Renderer) box(n *doc.Node, avail float64) {
	s := Cascade(r.font, r.d.Classes, "", n)
	outer := eff(avail, s.Width)
	inner := outer - s.PL - s.PR
	h := r.boxHeight(n, s, inner)
	_, ph := r.pdf.GetPageSize()
	_, _, _, bm := r.pdf.GetMargins()
	x, y := r.pdf.GetXY()
	r.near(y+s.OffY+h, ph-bm)
	if _, tm, _, _ := r.pdf.GetMargins(); tm+s.OffY+h >= ph-bm {
		r.Over = true
	}
	if !r.inHF && y+s.OffY+h >= ph-bm {
		r.addPage("box")
		x, y = r.pdf.GetXY()
	}
	x += s.OffX
	y += s.OffY
	r.frame(x, y, outer, h, s)
	r.pdf.SetXY(x+s.PL, y+s.PT)
	r.writeText(n.Kids, inner, s)
	l, _, _, _ := r.pdf.GetMargins()
	r.pdf.SetXY(l, y+h)
	r.reset()
}

func (r *Renderer) frame(x, y, w, h float64, s Styles) {
	r.pdf.SetLineWidth(s.LineWidth)
	r.pdf.SetDrawColor(s.Color.R, s.Color.G, s.Color.B)
	r.pdf.SetFillColor(s.Bkg.R, s.Bkg.G, s.Bkg.B)
	lw := s.LineWidth
	r.pdf.Rect(x+lw/2, y+lw/2, w-lw, h-lw, "F")
	if s.BT > 0 {
		r.pdf.Line(x-lw/2, y, x+w, y)
	}
	if s.BR > 0 {
		r.pdf.Line(x+w, y, x+w, y+h)
	}
	if s.BB > 0 {
		r.pdf.Line(x+w, y+h, x, y+h)
	}
	if s.BL > 0 {
		r.pdf.Line(x, y+h, x, y)
	}
}

func (r *Renderer) image(n *doc.Node, aw, ah float64) {
	src := n.Text
	if !filepath.IsAbs(src) {
		src = filepath.Join(r.wd, src)
	}
	f, err := os.Open(src)
	if err != nil {
		return
	}
	cfg, _, err := image.DecodeConfig(f)
	f.Close()
	if err != nil {
		return
	}
	s := Cascade(r.font, r.d.Classes, "", n)
	x, y := r.pdf.GetXY()
	aw -= s.OffX
	ah -= s.OffY
	nw, nh := float64(cfg.Width)*25.4/96, float64(cfg.Height)*25.4/96
	w, h := nw, nh
	if s.Width > 0 && s.Height > 0 {
		w, h = s.Width, s.Height
	} else if s.Width > 0 {
		w, h = s.Width, s.Width*nh/nw
	} else if s.Height > 0 {
		w, h = s.Height*nw/nh, s.Height
	}
	if w > aw {
		w, h = aw, h*aw/w
	}
	if h > ah {
		w, h = w*ah/h, ah
	}
	r.pdf.ImageOptions(src, x+s.OffX, y+s.OffY, w, h, false, gofpdf.ImageOptions{}, 0, "")
}
