package ref

import (
	"fmt"
	"strings"

	"verif/harness/doc"
)

// Rectify is the white space rule for text: CR, LF and TAB are blanks, runs of
// blanks collapse, the ends are trimmed and a backslash glues its neighbours.
func Rectify(s string) string {
	var out []rune
	for _, r := range s {
		if r == '\r' || r == '\n' || r == '\t' {
			r = ' '
		}
		if r == ' ' && (len(out) == 0 || out[len(out)-1] == ' ' || out[len(out)-1] == '\\') {
			continue
		}
		if r == '\\' && len(out) > 0 && out[len(out)-1] == ' ' {
			out = out[:len(out)-1]
		}
		out = append(out, r)
	}
	for len(out) > 0 && out[len(out)-1] == ' ' {
		out = out[:len(out)-1]
	}
	return string(out)
}

type item struct {
	sty  Styles
	text string // with leading blank when not first in line
}

type line struct {
	items []item
	width float64
	pure  float64
	last  bool // ends a paragraph
}

func (r *Renderer) tr(s string) string {
	return strings.ReplaceAll(s, "{cp}", fmt.Sprint(r.pdf.PageNo()))
}

func (r *Renderer) setFont(s Styles) {
	st := ""
	if s.FStyle == "italic" {
		st += "I"
	}
	if s.Weight == "bold" {
		st += "B"
	}
	if s.Decoration == "underline" {
		st += "U"
	}
	r.pdf.SetFont(s.Family, st, s.Size)
}

func bmp(s string) string {
	return strings.Map(func(c rune) rune {
		if c > 0xFFFF {
			return 0xFFFD
		}
		return c
	}, s)
}

func (r *Renderer) tw(s string) float64 { return r.pdf.GetStringWidth(bmp(s)) }

func (r *Renderer) fontH() float64 { _, h := r.pdf.GetFontSize(); return h }

// near notes how close a break decision was to going the other way.
func (r *Renderer) near(a, b float64) {
	d := a - b
	if d < 0 {
		d = -d
	}
	if d < r.Nearest {
		r.Nearest = d
	}
}

func (r *Renderer) lines(kids []*doc.Node, width float64, sty Styles) []line {
	var out []line
	cur := line{}
	block := sty.HAlign == "block"
	flush := func(last bool) {
		cur.last = last
		out = append(out, cur)
		cur = line{}
	}
	add := func(s Styles, word string, w, pure float64) {
		if len(cur.items) > 0 {
			word = " " + word
		}
		cur.items = append(cur.items, item{s, word})
		cur.width += w
		cur.pure += pure
	}
	for _, k := range kids {
		s := sty
		switch k.Kind {
		case "br":
			flush(true)
			continue
		case "#text":
		case "p":
			s = Cascade(sty, r.d.Classes, "", k)
		default:
			continue
		}
		t := Rectify(r.tr(k.Text))
		if t == "" {
			continue
		}
		r.setFont(s)
		for _, word := range strings.Split(t, " ") {
			w, pure := r.tw(" "+word), r.tw(word)
			r.near(cur.width+w, width)
			if cur.width+w >= width {
				if a, b, ok := r.split(block, word, width-cur.width); ok {
					add(s, a+"-", r.tw(" "+a+"-"), r.tw(a+"-"))
					flush(false)
					word = b
					w, pure = r.tw(b), r.tw(b)
				} else if len(cur.items) > 0 {
					flush(false)
				}
			}
			add(s, word, w, pure)
		}
	}
	if len(cur.items) > 0 {
		flush(true)
	}
	return out
}

func (r *Renderer) split(block bool, word string, avail float64) (a, b string, ok bool) {
	if !block || r.hyph == nil {
		return
	}
	parts := r.hyph(word)
	for i := len(parts) - 1; i >= 1; i-- {
		a = strings.Join(parts[:i], "")
		w := r.tw(" " + a + "-")
		r.near(w, avail)
		if w <= avail {
			return a, strings.Join(parts[i:], ""), true
		}
	}
	return "", "", false
}

func (r *Renderer) textHeight(kids []*doc.Node, width float64, sty Styles) float64 {
	r.setFont(sty)
	n := len(r.lines(kids, width, sty))
	if n == 0 {
		return 0
	}
	return float64(n-1)*r.fontH()*sty.LineSpacing + r.fontH()
}

func (r *Renderer) textColor(s Styles) { r.pdf.SetTextColor(s.Text.R, s.Text.G, s.Text.B) }

func (r *Renderer) writeText(kids []*doc.Node, width float64, sty Styles) {
	r.setFont(sty)
	r.textColor(sty)
	ls := r.lines(kids, width, sty)
	x0 := r.pdf.GetX()
	for _, l := range ls {
		x := x0
		switch sty.HAlign {
		case "center":
			x = x0 + (width-l.width)/2
		case "right":
			x = x0 + width - l.width
		}
		if r.Hook != nil {
			r.Hook(LineInfo{Page: r.pdf.PageNo(), Items: len(l.items), Last: l.last, HAlign: sty.HAlign, Width: l.width, Avail: width, Hyphen: len(l.items) > 0 && strings.HasSuffix(l.items[len(l.items)-1].text, "-")})
		}
		r.pdf.SetX(x)
		just := sty.HAlign == "block" && !l.last && len(l.items) > 1
		gap := 0.0
		if just {
			gap = (width - 0.1 - l.pure) / float64(len(l.items)-1)
		}
		for _, it := range l.items {
			r.setFont(it.sty)
			r.textColor(it.sty)
			t := it.text
			if just {
				t = strings.Trim(t, " ")
			}
			r.write(t)
			if just {
				r.pdf.SetX(r.pdf.GetX() + gap)
			}
		}
		r.pdf.Ln(r.fontH() * sty.LineSpacing)
	}
}

func (r *Renderer) write(t string) {
	if !r.inHF {
		_, ph := r.pdf.GetPageSize()
		_, _, _, bm := r.pdf.GetMargins()
		_, y := r.pdf.GetXY()
		r.near(y+r.fontH(), ph-bm)
	}
	r.pdf.Write(r.fontH(), bmp(t))
}
