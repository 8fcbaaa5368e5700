package pdfx

import (
	"fmt"
	"math"
	"strconv"
	"unicode/utf16"
)

const PtPerMM = 72.0 / 25.4

type RGB struct{ R, G, B int }

func (c RGB) String() string { return fmt.Sprintf("#%02x%02x%02x", c.R, c.G, c.B) }

// Run is one shown string. Positions are mm from the top left page corner; Y is
// the baseline.
type Run struct {
	Page      int // 1-based
	X, Y      float64
	Font      string // BaseFont
	Size      float64
	Color     RGB
	Text      string
	Underline bool
	ULX, ULW  float64
	Z         int // drawing order over all primitives
}

type Rect struct {
	Page       int
	X, Y, W, H float64 // top left, mm
	Color      RGB
	Z          int
}

type Seg struct {
	Page           int
	X0, Y0, X1, Y1 float64
	Width          float64
	Color          RGB
}

type Image struct {
	Page       int
	X, Y, W, H float64
	Name       string
	PxW, PxH   int
	Z          int
}

type Ink struct {
	W, H   []float64 // page sizes in mm
	Runs   []Run
	Rects  []Rect
	Segs   []Seg
	Images []Image

	z int
}

func (k *Ink) nextZ() int { k.z++; return k.z }

type gstate struct {
	fill, stroke RGB
	lw           float64
	font         string
	size         float64
	tx, ty       float64 // translation only
	sx, sy       float64
}

type token struct {
	kind byte // 'n' number 'o' operator '/' name 's' string '[' ']'
	num  float64
	str  string
	nl   int // line number
}

func lex(b []byte) ([]token, error) {
	var out []token
	line := 0
	i := 0
	for i < len(b) {
		c := b[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\r' || c == '\t':
			i++
		case c == '(':
			i++
			var s []byte
			depth := 1
			done := false
			for i < len(b) {
				d := b[i]
				if d == '\\' {
					if i+1 >= len(b) {
						return nil, fmt.Errorf("dangling escape")
					}
					e := b[i+1]
					switch e {
					case 'r':
						s = append(s, '\r')
					case 'n':
						s = append(s, '\n')
					case 't':
						s = append(s, '\t')
					default:
						s = append(s, e)
					}
					i += 2
					continue
				}
				if d == '(' {
					depth++
				}
				if d == ')' {
					depth--
					if depth == 0 {
						done = true
						i++
						break
					}
				}
				s = append(s, d)
				i++
			}
			if !done {
				return nil, fmt.Errorf("unterminated string")
			}
			out = append(out, token{kind: 's', str: string(s), nl: line})
		case c == '[' || c == ']':
			out = append(out, token{kind: c, nl: line})
			i++
		default:
			j := i
			for j < len(b) && b[j] != ' ' && b[j] != '\n' && b[j] != '\r' && b[j] != '\t' && b[j] != '(' && b[j] != '[' && b[j] != ']' {
				if j > i && b[j] == '/' {
					break
				}
				j++
			}
			w := string(b[i:j])
			i = j
			if w[0] == '/' {
				out = append(out, token{kind: '/', str: w[1:], nl: line})
				break
			}
			if f, err := strconv.ParseFloat(w, 64); err == nil && (w[0] == '-' || w[0] == '+' || w[0] == '.' || (w[0] >= '0' && w[0] <= '9')) {
				if math.IsNaN(f) || math.IsInf(f, 0) {
					return nil, fmt.Errorf("non finite number %q", w)
				}
				out = append(out, token{kind: 'n', num: f, nl: line})
				break
			}
			out = append(out, token{kind: 'o', str: w, nl: line})
		}
	}
	return out, nil
}

func to255(f float64) int { return int(math.Round(f * 255)) }

// Ink replays all pages.
func (f *File) Ink() (*Ink, error) {
	ink := &Ink{}
	for pi, p := range f.Pages {
		ink.W = append(ink.W, p.W/PtPerMM)
		ink.H = append(ink.H, p.H/PtPerMM)
		if err := f.replay(ink, pi+1, p); err != nil {
			return nil, fmt.Errorf("page %d: %v", pi+1, err)
		}
	}
	return ink, nil
}

func (f *File) replay(ink *Ink, page int, p PageObj) error {
	toks, err := lex(p.Content)
	if err != nil {
		return err
	}
	H := p.H
	mm := func(v float64) float64 { return v / PtPerMM }
	gs := gstate{sx: 1, sy: 1}
	var stack []gstate
	var ops []token
	inText := false
	var tlx, tly float64
	var cx, cy float64 // current path point
	type pseg struct{ x0, y0, x1, y1 float64 }
	var path []pseg
	type prect struct{ x, y, w, h float64 }
	var rects []prect
	havePoint := false
	lastText := -1 // index of the run just shown, for underline detection
	lastTextLine := -1
	num := func(i int) (float64, error) {
		if i < 0 || i >= len(ops) || ops[i].kind != 'n' {
			return 0, fmt.Errorf("operand %d missing", i)
		}
		return ops[i].num, nil
	}
	nums := func(n int) ([]float64, error) {
		if len(ops) != n {
			return nil, fmt.Errorf("want %d operands, have %d", n, len(ops))
		}
		r := make([]float64, n)
		for i := range r {
			v, err := num(i)
			if err != nil {
				return nil, err
			}
			r[i] = v
		}
		return r, nil
	}
	for _, t := range toks {
		if t.kind != 'o' {
			ops = append(ops, t)
			continue
		}
		fail := func(err error) error { return fmt.Errorf("operator %q: %v", t.str, err) }
		switch t.str {
		case "q":
			stack = append(stack, gs)
		case "Q":
			if len(stack) == 0 {
				return fail(fmt.Errorf("empty graphics stack"))
			}
			gs = stack[len(stack)-1]
			stack = stack[:len(stack)-1]
		case "cm":
			v, err := nums(6)
			if err != nil {
				return fail(err)
			}
			gs.sx, gs.sy, gs.tx, gs.ty = v[0], v[3], v[4], v[5]
		case "Do":
			if len(ops) != 1 || ops[0].kind != '/' {
				return fail(fmt.Errorf("no name"))
			}
			io := f.Images[ops[0].str]
			if io == nil {
				return fail(fmt.Errorf("unknown image %q", ops[0].str))
			}
			im := Image{Page: page, X: mm(gs.tx), Y: mm(H - gs.ty - gs.sy), W: mm(gs.sx), H: mm(gs.sy), Name: ops[0].str, Z: ink.nextZ()}
			if s, ok := key(io.Dict, "/Width "); ok {
				fmt.Sscanf(s, "%d", &im.PxW)
			}
			if s, ok := key(io.Dict, "/Height "); ok {
				fmt.Sscanf(s, "%d", &im.PxH)
			}
			ink.Images = append(ink.Images, im)
		case "BT":
			if inText {
				return fail(fmt.Errorf("nested BT"))
			}
			inText = true
			tlx, tly = 0, 0
		case "ET":
			if !inText {
				return fail(fmt.Errorf("ET without BT"))
			}
			inText = false
		case "Td":
			v, err := nums(2)
			if err != nil {
				return fail(err)
			}
			tlx += v[0]
			tly += v[1]
		case "Tf":
			if len(ops) != 2 || ops[0].kind != '/' || ops[1].kind != 'n' {
				return fail(fmt.Errorf("bad operands"))
			}
			bf, ok := f.Fonts[ops[0].str]
			if !ok {
				return fail(fmt.Errorf("unknown font %q", ops[0].str))
			}
			gs.font = bf
			gs.size = ops[1].num
		case "Tw":
		case "Tj", "TJ":
			if !inText {
				return fail(fmt.Errorf("text outside BT"))
			}
			if gs.font == "" {
				return fail(fmt.Errorf("no font set"))
			}
			raw := ""
			for _, o := range ops {
				if o.kind == 's' {
					raw += o.str
				}
			}
			ink.Runs = append(ink.Runs, Run{Page: page, X: mm(tlx), Y: mm(H - tly), Font: gs.font, Size: gs.size, Color: gs.fill, Text: f.decode(gs.font, raw), Z: ink.nextZ()})
			lastText = len(ink.Runs) - 1
			lastTextLine = t.nl
			ops = ops[:0]
			continue
		case "g", "G":
			v, err := nums(1)
			if err != nil {
				return fail(err)
			}
			c := RGB{to255(v[0]), to255(v[0]), to255(v[0])}
			if t.str == "g" {
				gs.fill = c
			} else {
				gs.stroke = c
			}
		case "rg", "RG":
			v, err := nums(3)
			if err != nil {
				return fail(err)
			}
			c := RGB{to255(v[0]), to255(v[1]), to255(v[2])}
			if t.str == "rg" {
				gs.fill = c
			} else {
				gs.stroke = c
			}
		case "w":
			v, err := nums(1)
			if err != nil {
				return fail(err)
			}
			gs.lw = v[0]
		case "J", "j", "d":
		case "m":
			v, err := nums(2)
			if err != nil {
				return fail(err)
			}
			cx, cy = v[0], v[1]
			havePoint = true
		case "l":
			v, err := nums(2)
			if err != nil {
				return fail(err)
			}
			if !havePoint {
				return fail(fmt.Errorf("no current point"))
			}
			path = append(path, pseg{cx, cy, v[0], v[1]})
			cx, cy = v[0], v[1]
		case "re":
			v, err := nums(4)
			if err != nil {
				return fail(err)
			}
			rects = append(rects, prect{v[0], v[1], v[2], v[3]})
		case "f", "F", "f*", "S", "B", "n":
			if len(ops) != 0 {
				return fail(fmt.Errorf("unexpected operands"))
			}
			for _, r := range rects {
				x, y, w, h := r.x, r.y, r.w, r.h
				if t.str == "f" && lastText >= 0 && lastTextLine == t.nl {
					ink.Runs[lastText].Underline = true
					ink.Runs[lastText].ULX = mm(x)
					ink.Runs[lastText].ULW = mm(w)
					continue
				}
				if t.str == "f" || t.str == "B" || t.str == "F" {
					ink.Rects = append(ink.Rects, Rect{Page: page, X: mm(x), Y: mm(H - y), W: mm(w), H: mm(-h), Color: gs.fill, Z: ink.nextZ()})
				}
				if t.str == "S" || t.str == "B" {
					return fail(fmt.Errorf("stroked rectangle is not expected"))
				}
			}
			if t.str == "S" {
				for _, s := range path {
					ink.Segs = append(ink.Segs, Seg{Page: page, X0: mm(s.x0), Y0: mm(H - s.y0), X1: mm(s.x1), Y1: mm(H - s.y1), Width: mm(gs.lw), Color: gs.stroke})
				}
			}
			path, rects = nil, nil
			havePoint = false
		default:
			return fmt.Errorf("unknown operator %q", t.str)
		}
		ops = ops[:0]
	}
	if len(ops) != 0 {
		return fmt.Errorf("trailing operands")
	}
	if len(stack) != 0 || inText {
		return fmt.Errorf("unbalanced graphics or text state at page end")
	}
	return nil
}

func (f *File) decode(font, raw string) string {
	if len(font) > 4 && font[:4] == "utf8" {
		b := []byte(raw)
		u := make([]uint16, 0, len(b)/2)
		for i := 0; i+1 < len(b); i += 2 {
			u = append(u, uint16(b[i])<<8|uint16(b[i+1]))
		}
		return string(utf16.Decode(u))
	}
	return raw
}
