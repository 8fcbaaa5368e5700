package checks

import (
	"bytes"
	"errors"
	"fmt"
	"strings"

	"github.com/mazzegi/xpdf"
	"github.com/mazzegi/xpdf/xdoc"

	"verif/harness/doc"
	"verif/harness/ink"
	"verif/harness/pdfx"
	"verif/harness/ref"
	"verif/harness/run"
	"verif/harness/sim"
	"verif/harness/sut"
)

func init() {
	register(&run.Prop{
		ID: "C30", Quick: 19200, Thorough: 230400, Run: runC30,
		Rule:      "Each case processes a document with an engine of the harness' own: another page size, other margins, another inset of the printable area, another font height per point and other letter widths than those of the PDF engine. What it is told to draw must be what the reference draws with the same metrics. A protocol monitor watches every call: header, footer and page count alias are set before the first page; nothing is drawn before it; headers and footers add no page and give the cursor back; lines are begun and drawn; numbers are finite and colours valid; the document is written once, at the end, and nothing else is written. In a quarter of the cases the engine fails at a random call or on writing: processing must return that error. Non-trivial: at least 20 words and 2 pages, or a failure.",
		Technique: "Runtime protocol monitor on a recording engine with its own metrics, compared with the reference model on the same metrics.",
		Min:       map[string]int{"engine calls": 3000000, "pages": 3500, "words": 200000, "compared": 1300, "failures": 350, "write failures": 100, "headers and footers": 3500},
	})
}

func (g *gen) simSpec(d *doc.Doc) sim.Spec {
	s := sim.Spec{
		L: float64(g.rng(5, 45)), T: float64(g.rng(5, 45)), R: float64(g.rng(5, 40)), B: float64(g.rng(8, 40)),
		Inset: float64(g.rng(2, 12)), Scale: 0.28 + 0.1*g.r.Float64(), Wide: 0.8 + 0.3*g.r.Float64(), Salt: uint32(g.r.Intn(1 << 30)),
		Mono: "Courier", NoFlow: g.p(20),
	}
	s.W = s.L + s.R + s.Inset + g.pageW + g.r.Float64()*40
	s.H = s.T + s.B + g.pageH*(0.9+0.3*g.r.Float64())
	return s
}

func runC30(e *run.Env, c *run.Case) {
	g := newGen(c.R)
	g.unicode, g.slash = c.Idx%5 == 0, c.Idx%7 == 0
	le := env(e)
	wd := le.imageDir(e)
	d := g.newDoc()
	mixed := c.Idx%6 == 5
	if mixed {
		g.mixed(d, g.rng(2, 8))
	} else {
		g.flow(d, g.rng(2, 6))
		for k := g.r.Intn(3); k > 0; k-- {
			d.Body = append(d.Body, doc.SetX(float64(g.rng(5, 60))), doc.SetY(g.ofF(float64(g.rng(10, 90)), -float64(g.rng(60, 120)))), doc.Image(g.of("a.png", "b.jpg", "c.gif"), kv("width", g.num(5, 30, 1))), doc.LF(g.ofF(1, 2.5)), doc.Text(g.looks(), doc.T(g.words(2))))
		}
		cols := map[pdfx.RGB]bool{}
		if g.p(60) {
			d.Header = g.furniture(d, 2+float64(g.rng(0, 4)), cols)
		}
		if g.p(60) {
			d.Footer = g.furniture(d, -float64(g.rng(4, 16)), cols)
		}
	}
	spec := g.simSpec(d)
	xml := d.XML()
	c.Smp = compact(xml)
	c.Signature(xml, fmt.Sprint(spec))
	c.Attach("xml", xml)
	c.Attach("engine", fmt.Sprintf("%+v", spec))
	x, err := xdoc.Load(strings.NewReader(xml))
	if err != nil {
		c.Fail("a document that must load does not: %v", err)
		return
	}
	process := func(en *sim.Engine) (string, error) {
		var buf bytes.Buffer
		var err error
		if pn := sut.Protect(func() {
			err = xpdf.NewProcessor(&sut.Guard{Engine: en, MaxCalls: 3000000, MaxPages: 3000}, le.hyph, x, wd).Process(&buf)
		}); pn != "" {
			c.Fail("processing panics: %s", pn)
		}
		for _, b := range en.Bad {
			c.Fail("engine protocol: %s", b)
		}
		n := 0
		for _, k := range en.Calls {
			n += k
		}
		c.Count("engine calls", n)
		return buf.String(), err
	}
	en := sim.NewEngine(spec)
	out, err := process(en)
	if c.Failed() {
		return
	}
	en.End()
	for _, b := range en.Bad {
		c.Fail("engine protocol: %s", b)
	}
	if err != nil {
		c.Fail("processing fails: %v", err)
		return
	}
	if out != sim.Output {
		c.Fail("%d bytes are written, the engine wrote %d", len(out), len(sim.Output))
	}
	if en.Alias() != "{np}" {
		c.Fail("the page count alias is %q", en.Alias())
	}
	in := en.C.Ink
	words := ink.WordsBy(in, en.C.Width)
	c.Count("pages", len(in.W))
	c.Count("words", len(words))
	if len(d.Header) > 0 {
		c.Count("headers and footers", len(in.W))
	}
	if len(d.Footer) > 0 {
		c.Count("headers and footers", len(in.W))
	}
	c.Triv = len(words) < 20 && len(in.W) < 2
	// an engine that fails
	if g.p(25) {
		c.Triv = false
		f := sim.NewEngine(spec)
		total := 0
		for _, k := range en.Calls {
			total += k
		}
		if g.p(30) {
			f.WErr = errors.New("cannot write on purpose")
			c.Count("write failures", 1)
		} else {
			f.FailAt, f.Quiet = 1+g.r.Intn(total-1), g.p(50)
			c.Count("failures", 1)
		}
		_, err := process(f)
		switch {
		case err == nil:
			c.Fail("the engine failed (at call %d of %d), processing reports nothing", f.FailAt, total)
		case f.WErr != nil && !strings.Contains(err.Error(), f.WErr.Error()):
			c.Fail("writing failed with %q, processing reports %q", f.WErr, err)
		case f.WErr == nil && !strings.Contains(err.Error(), sim.ErrEngine.Error()):
			c.Fail("the engine failed with %q, processing reports %q", sim.ErrEngine, err)
		}
	}
	// the same input, the same calls
	if mixed {
		again := sim.NewEngine(spec)
		if _, err := process(again); err != nil {
			c.Fail("processing again fails: %v", err)
			return
		}
		if diff := firstDiff(runsOf(in), runsOf(again.C.Ink)); diff != "" {
			c.Fail("processing again draws something else: %s", diff)
		}
		return
	}
	canvas := sim.New(spec)
	r := ref.New(d, ref.Options{Hyph: le.hyph.Hyphenate, WD: wd, Canvas: canvas})
	if err := r.Draw(&bytes.Buffer{}); err != nil {
		c.HarnessError("reference: %v", err)
		return
	}
	if r.Nearest < 1e-6 {
		c.Inconclusive("a break decision is closer than 1e-6 mm")
		return
	}
	if r.Over {
		return
	}
	c.Count("compared", 1)
	compareAll(c, &seen{d: d, act: in, exp: canvas.Ink, aw: words, ew: ink.WordsBy(canvas.Ink, canvas.Width)})
}
