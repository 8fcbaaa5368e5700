// Package ref is an independent, executable statement of what a document should
// look like: style cascade, text layout, boxes, tables and pagination, drawn with
// gofpdf alone (no code of the system under test apart from the hyphenator that
// the caller injects).
package ref

import (
	"strconv"
	"strings"

	"verif/harness/doc"
)

type RGB struct{ R, G, B int }

type Styles struct {
	Family           string
	Size             float64
	FStyle           string
	Weight           string
	Decoration       string
	BL, BT, BR, BB   int
	PL, PT, PR, PB   float64
	ML, MT, MR, MB   float64
	Width, Height    float64
	LineSpacing      float64
	OffX, OffY       float64
	ColumnWidth      float64
	HAlign, VAlign   string
	Color, Text, Bkg RGB
	LineWidth        float64
}

func Default() Styles {
	return Styles{
		Family: "Arial", Size: 12, FStyle: "normal", Weight: "normal", Decoration: "normal",
		Width: -1, Height: -1, LineSpacing: 1.5, ColumnWidth: -1,
		HAlign: "left", VAlign: "top", Bkg: RGB{255, 255, 255}, LineWidth: 1,
	}
}

func flt(s string) float64 { f, _ := strconv.ParseFloat(strings.TrimSpace(s), 64); return f }

func four(s string) (r [4]float64) {
	for i, p := range strings.SplitN(s, ",", 4) {
		r[i] = flt(p)
	}
	return
}

func hexc(s string) RGB {
	s = strings.TrimPrefix(s, "#")
	n, _ := strconv.ParseUint(s, 16, 32)
	return RGB{int(n >> 16 & 255), int(n >> 8 & 255), int(n & 255)}
}

// Apply sets one well formed declaration. Unknown keys change nothing.
func (s *Styles) Apply(kv doc.KV) {
	v := strings.TrimSpace(kv.V)
	switch kv.K {
	case "font-family":
		s.Family = v
	case "font-point-size":
		s.Size = flt(v)
	case "font-style":
		s.FStyle = v
	case "font-weight":
		s.Weight = v
	case "font-decoration":
		s.Decoration = v
	case "border":
		r := four(v)
		s.BL, s.BT, s.BR, s.BB = int(r[0]), int(r[1]), int(r[2]), int(r[3])
	case "padding":
		r := four(v)
		s.PL, s.PT, s.PR, s.PB = r[0], r[1], r[2], r[3]
	case "margin":
		r := four(v)
		s.ML, s.MT, s.MR, s.MB = r[0], r[1], r[2], r[3]
	case "width":
		s.Width = flt(v)
	case "height":
		s.Height = flt(v)
	case "line-spacing":
		s.LineSpacing = flt(v)
	case "offset-x":
		s.OffX = flt(v)
	case "offset-y":
		s.OffY = flt(v)
	case "column-width":
		s.ColumnWidth = flt(v)
	case "h-align":
		s.HAlign = v
	case "v-align":
		s.VAlign = v
	case "color":
		s.Color = hexc(v)
	case "text-color":
		s.Text = hexc(v)
	case "background-color":
		s.Bkg = hexc(v)
	case "line-width":
		s.LineWidth = flt(v)
	}
}

// Cascade: inherited values, then each class in the order it is named (its block
// for the selector if it has one, its base block otherwise), then inline style.
func Cascade(in Styles, classes []doc.Class, sel string, n *doc.Node) Styles {
	out := in
	for _, cn := range n.Classes {
		var base, with *doc.Class
		for i := range classes {
			c := &classes[i]
			if c.Name != cn {
				continue
			}
			if c.Sel == "" {
				// a repeated base definition replaces the class, selectors included
				base, with = c, nil
			} else if c.Sel == sel {
				with = c
			}
		}
		use := base
		if with != nil && sel != "" {
			use = with
		}
		if use == nil {
			continue
		}
		for _, kv := range use.Style {
			out.Apply(kv)
		}
	}
	for _, kv := range n.Style {
		out.Apply(kv)
	}
	return out
}
