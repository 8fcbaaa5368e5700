// Package ink canonicalises drawn primitives so that two renderings can be
// compared by what they show and not by how the content stream is chopped up.
package ink

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"sync"

	"github.com/jung-kurt/gofpdf/v2"

	"verif/harness/assets"
	"verif/harness/pdfx"
)

type Word struct {
	Text      string
	Page      int
	X, Y, W   float64 // baseline left, width
	Font      string
	Size      float64
	Color     pdfx.RGB
	Underline bool
	Seq       int
	Z         int
}

func (w Word) String() string {
	u := ""
	if w.Underline {
		u = " underlined"
	}
	return fmt.Sprintf("%q p%d x=%.2f y=%.2f %s %.1fpt %s%s", w.Text, w.Page, w.X, w.Y, w.Font, w.Size, w.Color, u)
}

type Metrics struct {
	mu  sync.Mutex
	pdf *gofpdf.Fpdf
	cur string
	// utf8 tells whether the Go fonts are loaded under the family gosans
}

func NewMetrics(withGo bool) *Metrics {
	m := &Metrics{pdf: gofpdf.New("P", "mm", "A4", "")}
	if withGo {
		for _, f := range assets.Fonts {
			m.pdf.AddUTF8FontFromBytes("gosans", f.Style, f.Bytes)
		}
	}
	return m
}

// Family and style of a BaseFont name.
func Family(base string) (fam, style string) {
	if strings.HasPrefix(base, "utf8") {
		s := strings.TrimPrefix(base, "utf8")
		fam = strings.TrimRight(s, "BI")
		return fam, s[len(fam):]
	}
	fam = base
	if i := strings.IndexByte(base, '-'); i >= 0 {
		fam = base[:i]
		t := base[i+1:]
		if strings.Contains(t, "Bold") {
			style += "B"
		}
		if strings.Contains(t, "Italic") || strings.Contains(t, "Oblique") {
			style += "I"
		}
	}
	return
}

func (m *Metrics) Width(base string, size float64, s string) float64 {
	fam, st := Family(base)
	if fam == "Helvetica" {
		fam = "Arial"
	}
	m.pdf.SetFont(fam, st, size)
	return m.pdf.GetStringWidth(s)
}

// Words splits all runs at blanks.
func Words(in *pdfx.Ink, m *Metrics) []Word { return WordsBy(in, m.Width) }

// WordsBy is Words with another measure.
func WordsBy(in *pdfx.Ink, width func(font string, size float64, s string) float64) []Word {
	var out []Word
	for _, r := range in.Runs {
		i := 0
		for i < len(r.Text) {
			if r.Text[i] == ' ' {
				i++
				continue
			}
			j := i
			for j < len(r.Text) && r.Text[j] != ' ' {
				j++
			}
			t := r.Text[i:j]
			x := r.X
			if i > 0 {
				x += width(r.Font, r.Size, r.Text[:i])
			}
			out = append(out, Word{Text: t, Page: r.Page, X: x, Y: r.Y, W: width(r.Font, r.Size, t), Font: r.Font, Size: r.Size, Color: r.Color, Underline: r.Underline, Seq: len(out), Z: r.Z})
			i = j
		}
	}
	return out
}

func key(f float64) float64 { return math.Round(f*100) / 100 }

// SegKey orients a segment.
func orient(s pdfx.Seg) pdfx.Seg {
	if s.X0 > s.X1+0.01 || (math.Abs(s.X0-s.X1) <= 0.01 && s.Y0 > s.Y1) {
		s.X0, s.Y0, s.X1, s.Y1 = s.X1, s.Y1, s.X0, s.Y0
	}
	return s
}

// Segs returns oriented, visible segments in a stable order.
func Segs(in *pdfx.Ink) []pdfx.Seg {
	var out []pdfx.Seg
	for _, s := range in.Segs {
		out = append(out, orient(s))
	}
	sort.SliceStable(out, func(i, j int) bool {
		a, b := out[i], out[j]
		if a.Page != b.Page {
			return a.Page < b.Page
		}
		for _, d := range [][2]float64{{a.Y0, b.Y0}, {a.X0, b.X0}, {a.Y1, b.Y1}, {a.X1, b.X1}} {
			if math.Abs(d[0]-d[1]) > 0.02 {
				return d[0] < d[1]
			}
		}
		return a.Color.String() < b.Color.String()
	})
	return out
}

func Near(a, b, tol float64) bool { return math.Abs(a-b) <= tol }

// Tol is the position tolerance in mm: PDF numbers carry two decimals of a point.
const Tol = 0.03

func SameSeg(a, b pdfx.Seg, tol float64) bool {
	ends := Near(a.X0, b.X0, tol) && Near(a.X1, b.X1, tol) && Near(a.Y0, b.Y0, tol) && Near(a.Y1, b.Y1, tol) ||
		Near(a.X0, b.X1, tol) && Near(a.X1, b.X0, tol) && Near(a.Y0, b.Y1, tol) && Near(a.Y1, b.Y0, tol)
	return a.Page == b.Page && ends && Near(a.Width, b.Width, 0.02) && a.Color == b.Color
}

func SameRect(a, b pdfx.Rect, tol float64) bool {
	return a.Page == b.Page && Near(a.X, b.X, tol) && Near(a.Y, b.Y, tol) && Near(a.W, b.W, tol) && Near(a.H, b.H, tol) && a.Color == b.Color
}
