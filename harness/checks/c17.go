package checks

import (
	"bytes"
	"fmt"
	"image"
	"io"
	"os"
	"path/filepath"
	"strings"

	"github.com/mazzegi/xpdf"
	"github.com/mazzegi/xpdf/engine"
	"github.com/mazzegi/xpdf/font"
	"github.com/mazzegi/xpdf/xdoc"

	"verif/harness/assets"
	"verif/harness/doc"
	"verif/harness/ink"
	"verif/harness/pdfx"
	"verif/harness/run"
	"verif/harness/sut"
)

func init() {
	register(&run.Prop{
		ID: "C17", Quick: 3000, Thorough: 50000, Run: runC17,
		Rule:      "Four families. Writers: a random document (1 to 8 pages, core and embedded fonts, images) is processed once into a good writer, then into writers that fail after k bytes (k = 0, 1, the end, the end minus 1, and random offsets; refusing, cutting or accepting the failing write; several errors): an error must come back; writers that do not fail must have received one complete PDF with the same drawing. Unknown fonts: an undefined family or an unregistered style is used in one text, box, paragraph, cell, class, header or footer. Bad files: the file of a used font is missing, empty, a directory, garbage or cut off. Images: files with changed, missing or added bytes, whose header can still be read, must be drawn or reported. Non-trivial: the fault was reached.",
		Technique: "Fault injection at the writer and at font files with runtime monitors over the returned error and the bytes received.",
		Min:       map[string]int{"short writes": 900, "write faults": 6000, "complete outputs": 1900, "faults at the last byte": 500, "unknown fonts": 450, "unregistered styles": 300, "bad font files": 650, "damaged image files": 300, "reported images": 60, "drawn images": 50},
	})
}

// process runs the whole chain into w; stage tells how far it came.
func processInto(xml string, reg *font.Registry, le *layoutEnv, wd string, w io.Writer) (stage string, err error, pn string) {
	pn = sut.Protect(func() {
		var xd *xdoc.Document
		stage = "load"
		if xd, err = xdoc.Load(strings.NewReader(xml)); err != nil {
			return
		}
		stage = "engine"
		var eng *engine.FPDF
		if eng, err = engine.NewFPDF(reg, xd); err != nil {
			return
		}
		stage = "process"
		err = xpdf.NewProcessor(&sut.Guard{Engine: eng, MaxCalls: 3000000, MaxPages: 3000}, le.hyph, xd, wd).Process(w)
	})
	return
}

// completePDF says what is wrong with b as one complete PDF file.
func completePDF(b []byte) (*pdfx.Ink, string) {
	if n := bytes.Count(b, []byte("%PDF-1.")); n != 1 {
		return nil, fmt.Sprintf("%d PDF headers", n)
	}
	if n := bytes.Count(b, []byte("%%EOF")); n != 1 {
		return nil, fmt.Sprintf("%d end of file marks", n)
	}
	f, err := pdfx.Parse(b)
	if err != nil {
		return nil, err.Error()
	}
	in, err := f.Ink()
	if err != nil {
		return nil, err.Error()
	}
	return in, ""
}

func runC17(e *run.Env, c *run.Case) {
	g := newGen(c.R)
	le := env(e)
	g.unicode = c.Idx%10 == 0
	d := g.newDoc()
	if c.Idx%10 == 4 {
		c17images(e, c, g, le, d)
		return
	}
	switch c.Idx % 5 {
	case 0:
		c17writers(e, c, g, le, d)
	case 1, 2:
		c17unknown(e, c, g, le, d)
	default:
		c17files(e, c, g, le, d)
	}
}

func c17writers(e *run.Env, c *run.Case, g *gen, le *layoutEnv, d *doc.Doc) {
	wd := le.imageDir(e)
	if g.unicode {
		g.flow(d, g.rng(1, 3))
	} else {
		g.flow(d, g.rng(1, 6))
		if g.p(30) {
			d.Header = []*doc.Node{doc.SetY(2), doc.Text(nil, doc.T(g.hfWords(1)))}
		}
	}
	if g.p(30) {
		d.Body = append(d.Body, doc.Image(g.of("a.png", "b.jpg", "c.gif")))
	}
	xml := d.XML()
	c.Attach("xml", xml)
	c.Smp = compact(xml)
	c.Signature(xml)
	reg := font.NewRegistry()
	if usesGo(d) {
		reg = sut.Registry(le.fontDir)
	}
	run1 := func(w io.Writer) (error, bool) {
		stage, err, pn := processInto(xml, reg, le, wd, w)
		if pn != "" {
			c.Fail("panic: %s", pn)
			return nil, false
		}
		if err != nil && stage != "process" {
			c.Fail("%s failed: %v", stage, err)
			return nil, false
		}
		return err, true
	}
	good := &faultyWriter{limit: -1}
	err, ok := run1(good)
	if !ok {
		return
	}
	if err != nil {
		c.Fail("a document that must render failed: %v", err)
		return
	}
	in, bad := completePDF(good.got)
	if bad != "" {
		c.Fail("Process returned no error, but the writer received no complete PDF: %s", bad)
		return
	}
	ref, err2 := reference(le, d, wd)
	if err2 != nil {
		c.HarnessError("reference: %v", err2)
		return
	}
	if len(in.W) != len(ref.exp.W) && !ref.inconclusive {
		c.Fail("%d pages written, expected %d", len(in.W), len(ref.exp.W))
	}
	c.Count("complete outputs", 1)
	want := everything(in, ink.Words(in, le.metrics(usesGo(d))))
	n := len(good.got)
	offs := []int{0, 1, n - 1, n}
	for k := 0; k < 12; k++ {
		offs = append(offs, g.r.Intn(n))
	}
	offs = append(offs, n+g.rng(1, 50))
	errs := []error{errInjected, io.ErrShortWrite, io.ErrClosedPipe, io.EOF, os.ErrClosed}
	for _, o := range offs {
		w := &faultyWriter{limit: o, mode: g.r.Intn(4), err: errs[g.r.Intn(len(errs))]}
		err, ok := run1(w)
		if !ok {
			return
		}
		if w.failed {
			c.Count("write faults", 1)
			if w.mode == 3 {
				c.Count("short writes", 1)
			}
			if o >= n-1 {
				c.Count("faults at the last byte", 1)
			}
			if err == nil {
				c.Fail("the writer failed after %d of %d bytes (mode %d, %v), but Process returned no error", o, n, w.mode, w.err)
			}
			continue
		}
		if err != nil {
			c.Fail("the writer took everything (limit %d of %d bytes), but Process failed: %v", o, n, err)
			continue
		}
		in2, bad := completePDF(w.got)
		if bad != "" {
			c.Fail("Process returned no error, but the writer received no complete PDF: %s", bad)
			continue
		}
		c.Count("complete outputs", 1)
		if diff := firstDiff(want, everything(in2, ink.Words(in2, le.metrics(usesGo(d))))); diff != "" {
			c.Fail("the output differs from an earlier run: %s", diff)
		}
	}
}

// c17place puts st on one element of the document.
func c17place(g *gen, d *doc.Doc, st []doc.KV) string {
	w := func() *doc.Node { return doc.T(g.words(g.rng(1, 3))) }
	where := g.of("body font", "text", "box", "paragraph", "cell", "row", "table", "class", "header", "footer", "last text", "box in cell")
	var n *doc.Node
	switch where {
	case "body font":
		d.Body = append(d.Body, doc.Font(st...), doc.Text(nil, w()))
		return where
	case "text", "last text":
		n = doc.Text(st, w())
	case "box":
		n = doc.Box(st, w())
	case "paragraph":
		n = doc.Text(nil, w(), doc.P(g.words(2), st...))
	case "cell":
		n = doc.Table(nil, doc.Tr(nil, doc.Td(nil, w()), doc.Td(st, w())))
	case "row":
		n = doc.Table(nil, doc.Tr(st, doc.Td(nil, w())))
	case "table":
		n = doc.Table(st, doc.Tr(nil, doc.Td(nil, w())))
	case "box in cell":
		n = doc.Table(nil, doc.Tr(nil, doc.Td(doc.S("height", "20"), doc.Box(st, w()))))
	case "class":
		d.Classes = append(d.Classes, doc.Class{Name: "broken", Style: st})
		n = doc.Text(nil, w())
		n.Classes = []string{"broken"}
	case "header":
		d.Header = []*doc.Node{doc.SetY(2), doc.Text(st, w())}
		return where
	case "footer":
		d.Footer = []*doc.Node{doc.SetY(-9), doc.Text(st, w())}
		return where
	}
	if where == "last text" || len(d.Body) == 0 {
		d.Body = append(d.Body, n)
	} else {
		at := g.rng(0, len(d.Body))
		d.Body = append(d.Body[:at], append([]*doc.Node{n}, d.Body[at:]...)...)
	}
	return where
}

func c17unknown(e *run.Env, c *run.Case, g *gen, le *layoutEnv, d *doc.Doc) {
	g.unicode = false
	d.Body = nil
	for k := g.r.Intn(4); k > 0; k-- {
		d.Body = append(d.Body, doc.Text(g.looks(), g.inline(g.rng(1, 20), true, true)...))
		if g.p(20) {
			d.Body = append(d.Body, doc.NewPage())
		}
	}
	reg := font.NewRegistry()
	var st []doc.KV
	what := ""
	if g.p(60) {
		what = "unknown family"
		st = doc.S("font-family", g.of("nosuchfont", "Ariel", "gosans2", "x y", "ärial", "0"))
		c.Count("unknown fonts", 1)
		if g.p(50) {
			reg = sut.Registry(le.fontDir)
		}
	} else {
		what = "unregistered style"
		c.Count("unregistered styles", 1)
		// three of four styles
		miss := g.r.Intn(4)
		for i, f := range assets.Fonts {
			if i != miss {
				reg.Register(font.Descriptor{Name: "part", Style: font.Style(f.Reg), FilePath: filepath.Join(le.fontDir, f.Name)})
			}
		}
		st = doc.S("font-family", "part")
		if strings.Contains(assets.Fonts[miss].Style, "B") {
			st = append(st, kv("font-weight", "bold"))
		} else {
			st = append(st, kv("font-weight", "normal"))
		}
		if strings.Contains(assets.Fonts[miss].Style, "I") {
			st = append(st, kv("font-style", "italic"))
		} else {
			st = append(st, kv("font-style", "normal"))
		}
	}
	good := d.Clone()
	where := c17place(g, d, st)
	xml := d.XML()
	c.Attach("xml", xml)
	c.Smp = compact(xml)
	c.Signature(xml)
	var buf bytes.Buffer
	stage, err, pn := processInto(xml, reg, le, "", &buf)
	if pn != "" {
		c.Fail("%s in %s: panic: %s", what, where, pn)
	} else if err == nil {
		c.Fail("%s in %s: no error", what, where)
	} else if stage == "load" {
		c.HarnessError("%v", err)
	}
	// the same document without it is fine
	buf.Reset()
	stage, err, pn = processInto(good.XML(), reg, le, "", &buf)
	if pn != "" || err != nil {
		c.Fail("a document using known fonts only failed: %s %v %s", stage, err, pn)
	} else if _, bad := completePDF(buf.Bytes()); bad != "" {
		c.Fail("Process returned no error, but the writer received no complete PDF: %s", bad)
	} else {
		c.Count("complete outputs", 1)
	}
}

// c17images draws images whose files are damaged: those with a readable
// header are drawn or reported.
func c17images(e *run.Env, c *run.Case, g *gen, le *layoutEnv, d *doc.Doc) {
	dir := filepath.Join(e.Scratch, fmt.Sprintf("c17-%d", c.Idx))
	os.MkdirAll(dir, 0o755)
	defer os.RemoveAll(dir)
	d.Body = nil
	valid := 0
	var kinds []string
	for k := g.rng(1, 3); k > 0; k-- {
		name := fmt.Sprintf("i%d%s", k, g.of(".png", ".jpg", ".gif"))
		p := filepath.Join(dir, name)
		g.damagedImage(p)
		f, err := os.Open(p)
		if err != nil {
			continue
		}
		cfg, format, err := image.DecodeConfig(f)
		f.Close()
		if err == nil && (cfg.Width < 1 || cfg.Height < 1 || cfg.Width > 4000 || cfg.Height > 4000) {
			continue
		}
		if err == nil {
			valid++
		}
		kinds = append(kinds, fmt.Sprintf("%s %s %v", name, format, err == nil))
		im := doc.Image(name, kv("width", "10"), kv("height", "8"))
		switch g.r.Intn(4) {
		case 0:
			im = doc.Table(nil, doc.Tr(doc.S("height", "20"), doc.Td(nil, im)))
		case 1:
			d.Body = append(d.Body, doc.Text(nil, doc.T(g.words(3))))
		}
		d.Body = append(d.Body, im, doc.LF(3))
	}
	xml := d.XML()
	c.Attach("xml", xml)
	c.Smp = strings.Join(kinds, "; ")
	c.Signature(xml, c.Smp)
	c.Count("damaged image files", len(kinds))
	var buf bytes.Buffer
	stage, err, pn := processInto(xml, sut.Registry(le.fontDir), le, dir, &buf)
	switch {
	case pn != "":
		c.Fail("images %s: panic: %s", c.Smp, pn)
	case err != nil:
		if stage != "process" {
			c.Fail("images %s: %s: %v", c.Smp, stage, err)
		}
		if valid == 0 {
			c.Count("reported images without a header", 1)
		}
		c.Count("reported images", 1)
	default:
		in, bad := completePDF(buf.Bytes())
		if bad != "" {
			c.Fail("images %s: no error, but no complete PDF: %s", c.Smp, bad)
		} else if len(in.Images) < valid {
			c.Fail("images %s: no error, but %d images are drawn, expected %d", c.Smp, len(in.Images), valid)
		}
		c.Count("drawn images", valid)
	}
}

func c17files(e *run.Env, c *run.Case, g *gen, le *layoutEnv, d *doc.Doc) {
	g.unicode = false
	d.Body = nil
	dir := filepath.Join(e.Scratch, fmt.Sprintf("c17-%d", c.Idx))
	os.MkdirAll(dir, 0o755)
	defer os.RemoveAll(dir)
	kind := g.of("missing", "empty", "directory", "garbage", "cut off", "cut off", "cut off", "text")
	p := filepath.Join(dir, "f.ttf")
	full := assets.Fonts[g.r.Intn(4)].Bytes
	strict := true
	switch kind {
	case "empty":
		os.WriteFile(p, nil, 0o644)
	case "directory":
		os.MkdirAll(p, 0o755)
	case "garbage":
		b := make([]byte, g.rng(1, 5000))
		g.r.Read(b)
		os.WriteFile(p, b, 0o644)
	case "text":
		os.WriteFile(p, []byte(strings.Repeat("this is not a font\n", g.rng(1, 200))), 0o644)
	case "cut off":
		n := g.r.Intn(len(full))
		if g.p(30) {
			n = g.r.Intn(400)
		}
		strict = n < len(full)*8/10
		os.WriteFile(p, full[:n], 0o644)
	}
	reg := font.NewRegistry()
	if g.p(50) {
		reg = sut.Registry(le.fontDir)
	}
	reg.Register(font.Descriptor{Name: "damaged", Style: "regular", FilePath: p})
	for k := g.r.Intn(3); k > 0; k-- {
		d.Body = append(d.Body, doc.Text(g.looks(), g.inline(g.rng(1, 20), true, true)...))
	}
	where := c17place(g, d, doc.S("font-family", "damaged", "font-style", "normal", "font-weight", "normal"))
	xml := d.XML()
	c.Attach("xml", xml)
	c.Smp = kind + ": " + compact(xml)
	c.Signature(kind, xml)
	c.Count("bad font files", 1)
	var buf bytes.Buffer
	_, err, pn := processInto(xml, reg, le, "", &buf)
	if pn != "" {
		c.Fail("%s font file used in %s: panic: %s", kind, where, pn)
	} else if err == nil {
		if strict {
			c.Fail("%s font file used in %s: no error", kind, where)
		} else if _, bad := completePDF(buf.Bytes()); bad != "" {
			c.Fail("%s font file used in %s: no error, but no complete PDF: %s", kind, where, bad)
		}
	}
}
