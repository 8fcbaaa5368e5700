// Package checks holds one monitor per property.
package checks

import (
	"fmt"
	"math"
	"path/filepath"
	"strings"

	"github.com/mazzegi/xpdf/hyphenation"

	"verif/harness/assets"
	"verif/harness/doc"
	"verif/harness/ink"
	"verif/harness/pdfx"
	"verif/harness/ref"
	"verif/harness/run"
	"verif/harness/sut"
)

var All = map[string]*run.Prop{}

func register(p *run.Prop) {
	if p.Init == nil {
		p.Init = initLayout
	}
	All[p.ID] = p
}

type layoutEnv struct {
	fontDir string
	mCore   *ink.Metrics
	mGo     *ink.Metrics
	hyph    *hyphenation.Hyphenator
	fonts   []ref.FontFile
}

func initLayout(e *run.Env) error {
	le := &layoutEnv{fontDir: filepath.Join(e.Scratch, "fonts")}
	if err := assets.WriteFonts(le.fontDir); err != nil {
		return err
	}
	le.mCore = ink.NewMetrics(false)
	le.mGo = ink.NewMetrics(true)
	le.hyph = hyphenation.NewEnUs()
	for _, f := range assets.Fonts {
		le.fonts = append(le.fonts, ref.FontFile{Name: "gosans", Style: f.Style, Bytes: f.Bytes})
	}
	e.Vars["layout"] = le
	return nil
}

func env(e *run.Env) *layoutEnv { return e.Vars["layout"].(*layoutEnv) }

// seen is one rendering of a document: what the code under test drew and what
// the reference drew.
type seen struct {
	d            *doc.Doc
	xml          string
	act, exp     *pdfx.Ink
	aw, ew       []ink.Word
	ren          *ref.Renderer
	lines        []ref.LineInfo
	tables       []ref.TableInfo
	res          *sut.Result
	usesGo       bool
	wd           string
	inconclusive bool
}

func usesGo(d *doc.Doc) bool {
	found := false
	has := func(st []doc.KV) {
		for _, kv := range st {
			if kv.K == "font-family" && kv.V == "gosans" {
				found = true
			}
		}
	}
	for _, c := range d.Classes {
		has(c.Style)
	}
	d.Walk(func(n *doc.Node) { has(n.Style) })
	return found
}

func (le *layoutEnv) metrics(g bool) *ink.Metrics {
	if g {
		return le.mGo
	}
	return le.mCore
}

// reference renders d with the reference only.
func reference(le *layoutEnv, d *doc.Doc, wd string) (*seen, error) {
	s := &seen{d: d, usesGo: usesGo(d), wd: wd}
	o := ref.Options{Hyph: le.hyph.Hyphenate, WD: wd}
	if s.usesGo {
		o.Fonts = le.fonts
	}
	r := ref.New(d, o)
	r.Hook = func(l ref.LineInfo) { s.lines = append(s.lines, l) }
	r.THook = func(t ref.TableInfo) { s.tables = append(s.tables, t) }
	s.ren = r
	exp, err := r.Render()
	if err != nil {
		return nil, err
	}
	s.exp = exp
	s.ew = ink.Words(exp, le.metrics(s.usesGo))
	if r.Nearest < 1e-6 {
		s.inconclusive = true
	}
	return s, nil
}

// actual renders the given spelling with the code under test. It reports
// failures to render as violations and returns nil then.
func actual(c *run.Case, le *layoutEnv, xml string, g bool, wd string) (*sut.Result, *pdfx.Ink, []ink.Word) {
	o := sut.Opts{Hyph: le.hyph, WD: wd}
	if g {
		o.FontDir = le.fontDir
	}
	res := sut.Render(xml, o)
	if f := res.Failed(); f != "" {
		c.Attach("xml", xml)
		c.Fail("a document that must render failed: %s", f)
		return res, nil, nil
	}
	in, err := res.Ink()
	if err != nil {
		c.Attach("xml", xml)
		c.Fail("output is no valid PDF: %v", err)
		return res, nil, nil
	}
	return res, in, ink.Words(in, le.metrics(g))
}

// renderBoth returns nil when there is nothing (more) to compare.
func renderBoth(e *run.Env, c *run.Case, d *doc.Doc, wd string) *seen {
	return renderSpelled(e, c, d, d.XML(), wd)
}

func renderSpelled(e *run.Env, c *run.Case, d *doc.Doc, xml, wd string) *seen {
	le := env(e)
	c.Smp = compact(xml)
	c.Signature(xml)
	s, err := reference(le, d, wd)
	if err != nil {
		c.HarnessError("reference: %v", err)
		c.Attach("xml", xml)
		return nil
	}
	if s.inconclusive {
		c.Inconclusive("a break decision is closer than 1e-6 mm")
		return nil
	}
	s.xml = xml
	s.res, s.act, s.aw = actual(c, le, xml, s.usesGo, wd)
	if s.act == nil {
		return nil
	}
	c.Count("pages", len(s.act.W))
	c.Count("words", len(s.aw))
	return s
}

func compact(s string) string {
	return strings.Join(strings.Fields(s), " ")
}

type aspects struct {
	page, x, y, font, color, ul bool
	tol                         float64
}

var (
	aspAll   = aspects{page: true, x: true, y: true, font: true, color: true, ul: true}
	aspPos   = aspects{page: true, x: true, y: true}
	aspLooks = aspects{font: true, color: true, ul: true}
)

// compareWords matches words by text (k-th with k-th) and compares aspects.
func compareWords(c *run.Case, exp, act []ink.Word, a aspects) {
	tol := a.tol
	if tol == 0 {
		tol = 0.06
	}
	em, am := map[string][]ink.Word{}, map[string][]ink.Word{}
	var order []string
	for _, w := range exp {
		if _, ok := em[w.Text]; !ok {
			order = append(order, w.Text)
		}
		em[w.Text] = append(em[w.Text], w)
	}
	for _, w := range act {
		if _, ok := em[w.Text]; !ok && am[w.Text] == nil {
			c.Fail("unexpected text %s", w)
		}
		am[w.Text] = append(am[w.Text], w)
	}
	for _, t := range order {
		es, as := em[t], am[t]
		if len(es) != len(as) {
			c.Fail("%q drawn %d times, expected %d times (first expected %s)", t, len(as), len(es), es[0])
			continue
		}
		if len(es) > 1 {
			as = paired(es, as, a)
		}
		for i := range es {
			compareWord(c, es[i], as[i], a, tol)
		}
	}
}

// paired reorders the drawn words so that each stands at the index of the
// expected one it resembles most.
func paired(es, as []ink.Word, a aspects) []ink.Word {
	rest := append([]ink.Word(nil), as...)
	var out []ink.Word
	for _, e := range es {
		best, cost := 0, math.Inf(1)
		for i, w := range rest {
			k := float64(i) * 1e-6 // else in the order drawn
			if a.page {
				k += 1e4 * math.Abs(float64(e.Page-w.Page))
			}
			if a.x {
				k += math.Abs(e.X - w.X)
			}
			if a.y {
				k += math.Abs(e.Y - w.Y)
			}
			if a.font && (e.Font != w.Font || !ink.Near(e.Size, w.Size, 0.006)) {
				k++
			}
			if a.color && e.Color != w.Color {
				k++
			}
			if a.ul && e.Underline != w.Underline {
				k++
			}
			if k < cost {
				best, cost = i, k
			}
		}
		out = append(out, rest[best])
		rest = append(rest[:best], rest[best+1:]...)
	}
	return out
}

func compareWord(c *run.Case, e, w ink.Word, a aspects, tol float64) {
	bad := ""
	if a.page && e.Page != w.Page {
		bad += " page"
	}
	if a.x && !ink.Near(e.X, w.X, tol) {
		bad += " x"
	}
	if a.y && !ink.Near(e.Y, w.Y, tol) {
		bad += " y"
	}
	if a.font && (e.Font != w.Font || !ink.Near(e.Size, w.Size, 0.006)) {
		bad += " font"
	}
	if a.color && e.Color != w.Color {
		bad += " color"
	}
	if a.ul && e.Underline != w.Underline {
		bad += " underline"
	}
	if bad != "" {
		c.Fail("word drawn with wrong%s: got %s, expected %s", bad, w, e)
	}
}

func rectS(r pdfx.Rect) string {
	return fmt.Sprintf("p%d x=%.2f y=%.2f w=%.2f h=%.2f %s", r.Page, r.X, r.Y, r.W, r.H, r.Color)
}
func segS(s pdfx.Seg) string {
	return fmt.Sprintf("p%d (%.2f,%.2f)-(%.2f,%.2f) w=%.2f %s", s.Page, s.X0, s.Y0, s.X1, s.Y1, s.Width, s.Color)
}

func compareRects(c *run.Case, exp, act []pdfx.Rect) {
	left := append([]pdfx.Rect(nil), act...)
	for _, e := range exp {
		found := false
		for i, a := range left {
			if ink.SameRect(e, a, 0.05) {
				left = append(left[:i], left[i+1:]...)
				found = true
				break
			}
		}
		if !found {
			near := ""
			for _, a := range left {
				if a.Color == e.Color {
					near = "; same color: " + rectS(a)
					break
				}
			}
			c.Fail("no filled area %s%s", rectS(e), near)
		}
	}
	for _, a := range left {
		if a.Color == (pdfx.RGB{R: 255, G: 255, B: 255}) {
			continue
		}
		c.Fail("unexpected filled area %s", rectS(a))
	}
}

func compareSegs(c *run.Case, exp, act *pdfx.Ink) {
	es, left := ink.Segs(exp), ink.Segs(act)
	for _, e := range es {
		found := false
		for i, a := range left {
			if ink.SameSeg(e, a, 0.05) {
				left = append(left[:i], left[i+1:]...)
				found = true
				break
			}
		}
		if !found {
			near := ""
			for _, a := range left {
				if a.Color == e.Color {
					near = "; same color: " + segS(a)
					break
				}
			}
			c.Fail("no border line %s%s", segS(e), near)
		}
	}
	for _, a := range left {
		c.Fail("unexpected line %s", segS(a))
	}
}

func compareImages(c *run.Case, exp, act []pdfx.Image) {
	left := append([]pdfx.Image(nil), act...)
	for _, e := range exp {
		found := false
		for i, a := range left {
			if a.Page == e.Page && a.PxW == e.PxW && a.PxH == e.PxH && ink.Near(a.X, e.X, 0.05) && ink.Near(a.Y, e.Y, 0.05) && ink.Near(a.W, e.W, 0.05) && ink.Near(a.H, e.H, 0.05) {
				left = append(left[:i], left[i+1:]...)
				found = true
				break
			}
		}
		if !found {
			c.Fail("no image %+v (have %+v)", e, left)
		}
	}
	for _, a := range left {
		c.Fail("unexpected image %+v", a)
	}
}

func comparePages(c *run.Case, s *seen) bool {
	if len(s.act.W) != len(s.exp.W) {
		c.Fail("%d pages, expected %d", len(s.act.W), len(s.exp.W))
		return false
	}
	return true
}

// compareAll compares everything visible.
func compareAll(c *run.Case, s *seen) {
	comparePages(c, s)
	compareWords(c, s.ew, s.aw, aspAll)
	compareRects(c, s.exp.Rects, s.act.Rects)
	compareSegs(c, s.exp, s.act)
	compareImages(c, s.exp.Images, s.act.Images)
}

// done attaches the case's material when it failed.
func (s *seen) done(c *run.Case) {
	if c.Failed() {
		c.Attach("xml", s.xml)
	}
}

func abs(f float64) float64 { return math.Abs(f) }

// hidden tells whether a later filled area covers the middle of a word.
func hidden(in *pdfx.Ink, w ink.Word) (pdfx.Rect, bool) {
	mx, my := w.X+w.W/2, w.Y-w.Size/pdfx.PtPerMM*0.3
	for _, r := range in.Rects {
		if r.Page == w.Page && r.Z > w.Z && mx > r.X && mx < r.X+r.W && my > r.Y && my < r.Y+r.H {
			return r, true
		}
	}
	return pdfx.Rect{}, false
}

func wordsOf(s string) []string {
	t := ref.Rectify(s)
	if t == "" {
		return nil
	}
	return strings.Split(t, " ")
}

func hasDigit(s string) bool { return strings.ContainsAny(s, "0123456789") }
