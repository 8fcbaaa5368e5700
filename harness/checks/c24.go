package checks

import (
	"fmt"
	"path/filepath"
	"strings"

	"github.com/mazzegi/xpdf/font"
	"github.com/mazzegi/xpdf/hyphenation"
	"github.com/mazzegi/xpdf/xdoc"

	"verif/harness/doc"
	"verif/harness/ink"
	"verif/harness/pdfx"
	"verif/harness/run"
	"verif/harness/sut"
)

func init() {
	register(&run.Prop{
		ID: "C24", Quick: 1200, Thorough: 25000, Run: runC24,
		Rule:      "Each case loads 2 to 4 documents (of all kinds of elements; siblings that differ only in fonts, widths or class definitions share words and class names) and runs a random history of 8 to 16 operations on them with one hyphenator and one registry: process, describe, load again, process into a failing writer, process a document that fails, hyphenate. Every drawing and description must equal the one of a run on its own (fresh document, hyphenator and registry); documents within the layout model's domain must also look like the reference. Non-trivial: a document was processed at least twice.",
		Technique: "Runtime history monitor: drawings and descriptions along random operation histories compared with isolated runs and the reference.",
		Min:       map[string]int{"operations": 5500, "processed again": 1200, "described again": 1100, "aborted": 1100, "reference": 750, "siblings": 500},
	})
}

// sibling is a document with the same words in another style.
func (g *gen) sibling(d *doc.Doc) *doc.Doc {
	d2 := d.Clone()
	d2.Walk(func(n *doc.Node) {
		for i, s := range n.Style {
			switch s.K {
			case "font-weight":
				n.Style[i].V = map[string]string{"bold": "normal", "normal": "bold"}[s.V]
			case "font-family":
				if s.V != "gosans" {
					n.Style[i].V = g.of("Courier", "Times", "Arial")
				}
			case "h-align":
				n.Style[i].V = g.of("left", "right", "block")
			case "text-color":
				n.Style[i].V = g.color()
			}
		}
		if n.Kind == "text" && g.p(30) {
			n.Style = append(n.Style, kv("font-family", g.family()))
		}
	})
	for i := range d2.Classes {
		if g.p(60) {
			d2.Classes[i].Style = g.tidy(4)
		}
	}
	if g.p(30) {
		d2.Left += 4
	}
	return d2
}

func runC24(e *run.Env, c *run.Case) {
	g := newGen(c.R)
	g.unicode, g.slash = c.Idx%4 == 0, c.Idx%3 == 0
	le := env(e)
	wd := le.imageDir(e)
	type one struct {
		d       *doc.Doc
		xml     string
		modeled *seen
		x       *xdoc.Document
		want    []string
		desc    string
		again   int
	}
	var docs []*one
	add := func(d *doc.Doc, modeled bool) bool {
		o := &one{d: d, xml: d.XML()}
		c.Attach(fmt.Sprintf("document %d", len(docs)), o.xml)
		if modeled {
			s, err := reference(le, d, wd)
			if err != nil {
				c.HarnessError("reference: %v", err)
				return false
			}
			if !s.inconclusive && !s.ren.Over {
				o.modeled = s
			}
		}
		docs = append(docs, o)
		return true
	}
	for k := g.rng(1, 2); k > 0; k-- {
		d := g.newDoc()
		modeled := g.p(60)
		if modeled {
			g.flow(d, g.rng(1, 4))
		} else {
			g.mixed(d, g.rng(1, 5))
		}
		if !add(d, modeled) {
			return
		}
		if g.p(80) {
			c.Count("siblings", 1)
			if !add(g.sibling(d), false) {
				return
			}
		}
	}
	var sig []string
	fonts := c.Idx%4 == 0 // g.unicode
	newReg := func() *font.Registry {
		if fonts {
			return sut.Registry(le.fontDir)
		}
		return font.NewRegistry()
	}
	draw := func(what string, res *sut.Result) []string {
		if f := res.Failed(); f != "" {
			c.Fail("%s: a document that must render failed: %s", what, f)
			return nil
		}
		in, err := res.Ink()
		if err != nil {
			c.Fail("%s: output is no valid PDF: %v", what, err)
			return nil
		}
		return everything(in, ink.Words(in, le.metrics(fonts)))
	}
	for i, o := range docs {
		sig = append(sig, o.xml)
		var err error
		if pn := sut.Protect(func() {
			o.x, err = xdoc.Load(strings.NewReader(o.xml))
			if err != nil {
				return
			}
			o.desc = xdoc.Describe(o.x).Dump(xdoc.DescribeJSON)
		}); pn != "" || err != nil {
			c.Fail("document %d does not load: %v %s", i, err, pn)
			return
		}
		o.want = draw(fmt.Sprintf("document %d on its own", i), sut.Render(o.xml, sut.Opts{Hyph: hyphenation.NewEnUs(), WD: wd, Registry: newReg()}))
		if o.want == nil {
			return
		}
	}
	c.Smp = compact(strings.Join(sig, "\n"))
	c.Signature(sig...)
	hyph, reg := hyphenation.NewEnUs(), newReg()
	parts := map[string]string{}
	var asked []string
	check := func(i int, op string, o *one, res *sut.Result) *pdfx.Ink {
		got := draw(fmt.Sprintf("operation %d (%s)", i, op), res)
		if got == nil {
			return nil
		}
		if diff := firstDiff(o.want, got); diff != "" {
			c.Fail("operation %d (%s) draws something else than a run on its own: %s", i, op, diff)
		}
		in, _ := res.Ink()
		return in
	}
	n := g.rng(8, 16)
	var hist []string
	for i := 0; i < n && !c.Failed(); i++ {
		k := g.r.Intn(len(docs))
		o := docs[k]
		op := g.of("process", "process", "process", "process", "describe", "describe", "load", "fail", "bad", "hyphenate")
		hist = append(hist, fmt.Sprintf("%s %d", op, k))
		c.Count("operations", 1)
		switch op {
		case "process":
			in := check(i, strings.Join(hist, ", "), o, sut.Process(o.x, sut.Opts{Hyph: hyph, WD: wd, Registry: reg}))
			if o.again > 0 {
				c.Count("processed again", 1)
			}
			o.again++
			if o.modeled != nil && in != nil {
				c.Count("reference", 1)
				s := *o.modeled
				s.act = in
				s.aw = ink.Words(in, le.metrics(s.usesGo))
				compareAll(c, &s)
			}
		case "describe":
			c.Count("described again", 1)
			got := ""
			if pn := sut.Protect(func() { got = xdoc.Describe(o.x).Dump(xdoc.DescribeJSON) }); pn != "" {
				c.Fail("describing panics: %s", pn)
			} else if got != o.desc {
				c.Fail("after %s the document is described differently", strings.Join(hist, ", "))
			}
		case "load":
			x, err := xdoc.Load(strings.NewReader(o.xml))
			if err != nil {
				c.Fail("after %s the document does not load: %v", strings.Join(hist, ", "), err)
				break
			}
			if xdoc.Describe(x).Dump(xdoc.DescribeJSON) != o.desc {
				c.Fail("after %s the document is loaded differently", strings.Join(hist, ", "))
			}
			if g.p(50) {
				o.x = x
			}
		case "fail":
			c.Count("aborted", 1)
			sut.Process(o.x, sut.Opts{Hyph: hyph, WD: wd, Registry: reg, Writer: &faultyWriter{limit: g.r.Intn(3000), err: errInjected}})
		case "bad":
			c.Count("aborted", 1)
			bad := reg
			if g.p(50) {
				bad = font.NewRegistry()
				bad.Register(font.Descriptor{Name: "gosans", Style: "regular", FilePath: filepath.Join(e.Scratch, "nosuch.ttf")})
			}
			d2 := o.d.Clone()
			d2.Body = append(d2.Body, doc.Text(doc.S("font-family", "nosuchfont", "h-align", "block"), doc.T(g.words(3))))
			if res := sut.Render(d2.XML(), sut.Opts{Hyph: hyph, WD: wd, Registry: bad}); res.EngErr == nil && res.Err == nil {
				c.Fail("no error for an unknown font")
			}
		case "hyphenate":
			for j := 0; j < 20; j++ {
				w := g.word()
				if g.p(50) && len(asked) > 0 {
					w = g.of(asked...)
				}
				got := strings.Join(hyph.Hyphenate(w), "|")
				if was, ok := parts[w]; ok && was != got {
					c.Fail("%q is hyphenated %s, before %s", w, got, was)
				}
				if own := strings.Join(le.hyph.Hyphenate(w), "|"); own != got {
					c.Fail("%q is hyphenated %s, by another hyphenator %s", w, got, own)
				}
				parts[w] = got
				asked = append(asked, w)
			}
		}
	}
	for i, o := range docs {
		if xdoc.Describe(o.x).Dump(xdoc.DescribeJSON) != o.desc {
			c.Fail("after %s document %d is described differently", strings.Join(hist, ", "), i)
		}
	}
	triv := true
	for _, o := range docs {
		if o.again > 1 {
			triv = false
		}
	}
	c.Triv = triv
	c.Attach("history", strings.Join(hist, "\n"))
}
