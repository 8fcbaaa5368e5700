package checks

import (
	"fmt"
	"math/rand"
	"strings"

	"verif/harness/doc"
)

// gen makes documents out of one PRNG stream. Words and colors are unique
// within a document, so that every drawn word and line identifies its origin.
type gen struct {
	r       *rand.Rand
	used    map[string]bool
	colors  map[string]bool
	pageW   float64 // usable width in mm
	pageH   float64
	unicode bool // words may use letters outside ASCII (needs gosans)
	punct   bool
	maxLen  int
	n       int
	slash   bool // backslashes between words
	mix     bool // mixed case words
	dup     int  // percentage of words that repeat an earlier one
	past    []string
	// no more than two line breaks in a row
	fewBreaks bool
}

func newGen(r *rand.Rand) *gen {
	return &gen{r: r, used: map[string]bool{}, colors: map[string]bool{}, maxLen: 12}
}

func (g *gen) p(pct int) bool        { return g.r.Intn(100) < pct }
func (g *gen) rng(a, b int) int      { return a + g.r.Intn(b-a+1) }
func (g *gen) of(s ...string) string { return s[g.r.Intn(len(s))] }

// num is a number in [a,b] with the given decimals.
func (g *gen) num(a, b float64, dec int) string {
	return fmt.Sprintf("%.*f", dec, a+g.r.Float64()*(b-a))
}

var syll = strings.Fields("a ab ac ad al am an ap ar as at be ber bi bo ca ce cer ci co com con cu da de den di do e el em en er es ex fa fe fi fo for ga ge gen gi go gra ha he hi ho hy i il im in ing is it ja jo ka ke ki la le li lo lu ma me men mi mo mu na ne ni no nu o ob of on op or pa pe per phen pi po pre pro qua ra re ri ro ru sa se ser si so sta sti su ta te ter ti tion to tra tri tu u ul un ur us va ve ver vi vo wa we wi ya yo za ze")

var uniSyll = strings.Fields("ä ö ü é è ñ ça ß å ø Ж мир да не ра ко αβ γι λο ω ş ğ č ž ł ‘x’ – „q“ €")

// word makes a word, a new unique one unless repetitions are asked for.
func (g *gen) word() string {
	if g.dup > 0 {
		if n := len(g.past); n > 0 && g.p(g.dup) {
			if g.p(50) {
				return g.past[n-1]
			}
			return g.past[g.r.Intn(n)]
		}
		w := g.newWord()
		g.past = append(g.past, w)
		return w
	}
	return g.newWord()
}

func (g *gen) newWord() string {
	for try := 0; ; try++ {
		var w string
		target := 1 + g.r.Intn(g.maxLen)
		if g.p(50) {
			target = 2 + g.r.Intn(5)
		}
		for len([]rune(w)) < target {
			if g.unicode && g.p(25) {
				w += uniSyll[g.r.Intn(len(uniSyll))]
			} else {
				w += syll[g.r.Intn(len(syll))]
			}
		}
		rs := []rune(w)
		if len(rs) > g.maxLen {
			rs = rs[:g.maxLen]
		}
		w = string(rs)
		if g.unicode && len(rs) > 2 && g.p(8) {
			// a blank that does not divide words
			i := 1 + g.r.Intn(len(rs)-2)
			w = string(rs[:i]) + "\u00a0" + string(rs[i:])
		}
		if try > 20 {
			g.n++
			w = fmt.Sprintf("q%s", b26(g.n))
		}
		if g.mix && g.p(20) {
			w = strings.ToUpper(w[:1]) + w[1:]
		}
		if g.punct && g.p(20) {
			switch g.r.Intn(14) {
			case 9:
				w += g.of("-", "--", "---", "%", "/", "_", "=")
			case 10:
				w = g.of("-", "--", "+", "*", "#", "'") + w
			case 11, 12:
				w += g.of("-", "-", "--", "/", "_", ".") + syll[g.r.Intn(len(syll))] + syll[g.r.Intn(len(syll))]
			case 13:
				if g.unicode {
					// a soft hyphen
					w += "\u00ad" + syll[g.r.Intn(len(syll))]
				}
			case 0:
				w += ","
			case 1:
				w += "."
			case 2:
				w = "(" + w + ")"
			case 3:
				w = "\"" + w + "\""
			case 4:
				w = "<" + w + ">"
			case 5:
				w += "&" + b26(g.r.Intn(600))
			case 6:
				w = "[" + w
			case 7:
				w = w + "'s"
			case 8:
				w = "{" + w + "}"
			}
		}
		k := strings.ToLower(w)
		if g.used[k] || strings.Contains(w, "{cp}") || strings.Contains(w, "{np}") {
			continue
		}
		g.used[k] = true
		return w
	}
}

// again repeats the last node, in documents with repetitions.
func (g *gen) again(ns *[]*doc.Node) {
	if n := len(*ns); g.dup > 0 && n > 0 && g.p(25) && (*ns)[n-1].Kind != "#text" {
		*ns = append(*ns, doc.Clone((*ns)[n-1:])...)
	}
}

func b26(n int) string {
	s := ""
	for {
		s = string(rune('a'+n%26)) + s
		n = n/26 - 1
		if n < 0 {
			return s
		}
	}
}

func (g *gen) words(n int) string {
	var p []string
	for i := 0; i < n; i++ {
		p = append(p, g.word())
	}
	return strings.Join(p, " ")
}

// blanks joins words with random white space.
func (g *gen) blanks(n int) string {
	var b strings.Builder
	ws := func() {
		if g.slash && g.p(6) {
			// blanks beside backslashes are dropped
			b.WriteString(g.of(" \\ ", "\\ ", " \\", "\n\\\t", "\\", " \\ \\ "))
			return
		}
		switch g.r.Intn(8) {
		case 0:
			b.WriteString("\n   ")
		case 1:
			b.WriteString("  ")
		case 2:
			b.WriteString("\t")
		case 3:
			b.WriteString(" \n\n\t ")
		default:
			b.WriteString(" ")
		}
	}
	if g.p(30) {
		ws()
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			ws()
		}
		b.WriteString(g.word())
	}
	if g.p(30) {
		ws()
	}
	return b.String()
}

// color makes a new unique, visible color.
func (g *gen) color() string {
	for {
		s := fmt.Sprintf("%02x%02x%02x", g.r.Intn(250)+2, g.r.Intn(250)+2, g.r.Intn(250)+2)
		if g.colors[s] {
			continue
		}
		g.colors[s] = true
		switch g.r.Intn(4) {
		case 0:
			return s
		case 1:
			return "#" + strings.ToUpper(s)
		}
		return "#" + s
	}
}

func kv(k, v string) doc.KV { return doc.KV{K: k, V: v} }

var coreFamilies = []string{"Arial", "Times", "Courier", "Helvetica", "arial", "times"}

func (g *gen) family() string {
	if g.unicode {
		return "gosans"
	}
	return g.of(coreFamilies...)
}

var sizes = []string{"8", "9", "10", "11", "12", "13.5", "14"}

// fullFont declares every font attribute.
func (g *gen) fullFont() []doc.KV {
	return []doc.KV{kv("font-family", g.family()), kv("font-point-size", g.of(sizes...)), kv("font-style", g.of("normal", "italic")), kv("font-weight", g.of("normal", "bold")), kv("font-decoration", g.of("normal", "underline"))}
}

// looks declares some font attributes (never size) and colors.
func (g *gen) looks() []doc.KV {
	var st []doc.KV
	if g.p(35) {
		st = append(st, kv("font-family", g.family()))
	}
	if g.p(35) {
		st = append(st, kv("font-style", g.of("normal", "italic")))
	}
	if g.p(35) {
		st = append(st, kv("font-weight", g.of("normal", "bold")))
	}
	if g.p(35) {
		st = append(st, kv("font-decoration", g.of("normal", "underline")))
	}
	if g.p(50) {
		st = append(st, kv("text-color", g.color()))
	}
	return st
}

// page sizes in mm by format.
var pageMM = map[string][2]float64{"a3": {297, 420}, "a4": {210, 297}, "a5": {148.5, 210}, "letter": {215.9, 279.4}, "legal": {215.9, 355.6}}

// newDoc makes an empty document with a page.
func (g *gen) newDoc(formats ...string) *doc.Doc {
	if len(formats) == 0 {
		formats = []string{"a4", "a4", "a5", "letter", "legal"}
	}
	d := &doc.Doc{
		Orientation: g.of("portrait", "portrait", "landscape"), Format: g.of(formats...),
		Left: float64(g.rng(8, 30)), Top: float64(g.rng(8, 35)), Right: float64(g.rng(5, 25)), Bottom: float64(g.rng(10, 30)),
		Author: g.of("", "someone"), Subject: g.of("", "x & y"), Creator: g.of("", "c"),
	}
	d.Tight = g.p(40)
	if g.p(20) {
		d.Left += 0.5
		d.Top += 0.25
	}
	sz := pageMM[d.Format]
	if d.Orientation == "landscape" {
		sz[0], sz[1] = sz[1], sz[0]
	}
	g.pageW = sz[0] - d.Left - d.Right - 2
	g.pageH = sz[1] - d.Top - d.Bottom
	if g.unicode {
		// a first font for everything
		d.Body = append(d.Body, doc.Font(g.fullFont()...))
	}
	return d
}

// runs makes the inline content of a text, box or cell: n words in text blocks,
// paragraphs and line breaks.
func (g *gen) inline(n int, withP, withBr bool) []*doc.Node {
	var ks []*doc.Node
	lastText := false
	for n > 0 {
		k := 1 + g.r.Intn(n)
		if g.p(50) && k > 6 {
			k = 1 + k/3
		}
		switch {
		case withP && g.p(40):
			ks = append(ks, doc.P(g.blanks(k), g.looks()...))
			lastText = false
		case lastText:
			// two adjacent text nodes would be one
			if withBr && g.p(50) {
				ks = append(ks, doc.Br())
				for !g.fewBreaks && g.p(15+5*len(ks)) && len(ks) < 14 {
					ks = append(ks, doc.Br())
				}
				lastText = false
				continue
			}
			ks[len(ks)-1].Text += " " + g.blanks(k)
		default:
			ks = append(ks, doc.T(g.blanks(k)))
			lastText = true
		}
		n -= k
		if withBr && n > 0 && g.p(30) {
			ks = append(ks, doc.Br())
			lastText = false
		}
	}
	if g.p(80) {
		return ks
	}
	// white space between the parts, which draws nothing
	var out []*doc.Node
	for i, k := range ks {
		if k.Kind != "#text" && (i == 0 || ks[i-1].Kind != "#text") {
			out = append(out, doc.T(g.of(" ", "\n", "\n\t ")))
		}
		out = append(out, k)
	}
	return out
}
