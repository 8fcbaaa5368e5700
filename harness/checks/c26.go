package checks

import (
	"strings"

	"github.com/mazzegi/xpdf/xdoc"

	"verif/harness/run"
	"verif/harness/sut"
)

func init() {
	register(&run.Prop{
		ID: "C26", Quick: 4800, Thorough: 60000, Run: runC26,
		Rule:      "Each case spells one random document of all kinds of elements (classes, tables, grids, header, footer) plainly and in several equivalent ways: attribute order and quoting, CDATA, decimal and hexadecimal character references, comments between elements, empty-element tags, permuted sections, indentation, permuted declarations and white space in styles. Every spelling must be drawn identically (all words, areas, lines and images) and have the same description. Non-trivial: at least 10 words drawn.",
		Technique: "Metamorphic runtime monitor: ink and description of equivalent spellings compared.",
		Min:       map[string]int{"spellings": 4000, "words": 32000, "drawn alike": 4000},
	})
}

func runC26(e *run.Env, c *run.Case) {
	g := newGen(c.R)
	le := env(e)
	g.unicode = c.Idx%5 == 0
	g.punct = true
	d := g.newDoc()
	wd := le.imageDir(e)
	g.mixed(d, g.rng(1, 9))
	plain := d.XML()
	c.Smp = compact(plain)
	c.Signature(plain)
	ug := usesGo(d)
	items := func(x *xdoc.Document) []ditem {
		is, err := parseJSONDump(xdoc.Describe(x).Dump(xdoc.DescribeJSON))
		if err != nil {
			c.Fail("JSON dump: %v", err)
		}
		return is
	}
	res, in, ws := actual(c, le, plain, ug, wd)
	if in == nil {
		return
	}
	c.Triv = len(ws) < 10
	want := everything(in, ws)
	wantItems := items(res.Doc)
	c.Count("words", len(ws))
	for k := 0; k < 4 && !c.Failed(); k++ {
		xml := d.Spell(g.r)
		c.Count("spellings", 1)
		c.Attach("spelling", xml)
		if k == 3 {
			// description only
			var x *xdoc.Document
			var err error
			if pn := sut.Protect(func() { x, err = xdoc.Load(strings.NewReader(xml)) }); pn != "" || err != nil {
				c.Fail("an equivalent spelling is rejected: %v %s", err, pn)
				break
			}
			if diff := compareItems("description", wantItems, items(x), exactly); diff != "" {
				c.Fail("an equivalent spelling is described differently: %s", diff)
			}
			break
		}
		r2, in2, ws2 := actual(c, le, xml, ug, wd)
		if in2 == nil {
			break
		}
		if diff := compareItems("description", wantItems, items(r2.Doc), exactly); diff != "" {
			c.Fail("an equivalent spelling is described differently: %s", diff)
		}
		if diff := firstDiff(want, everything(in2, ws2)); diff != "" {
			c.Fail("an equivalent spelling is drawn differently: %s", diff)
		}
		c.Count("drawn alike", 1)
	}
	if c.Failed() {
		c.Attach("xml", plain)
	}
}
