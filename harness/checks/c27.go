package checks

import (
	"bytes"
	"errors"
	"fmt"
	"image"
	"image/color"
	"image/gif"
	"image/jpeg"
	"image/png"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/mazzegi/xpdf/font"
	"github.com/mazzegi/xpdf/xdoc"

	"verif/harness/assets"
	"verif/harness/doc"
	"verif/harness/pdfx"
	"verif/harness/run"
	"verif/harness/sut"
)

func init() {
	register(&run.Prop{
		ID: "C27", Quick: 2560, Thorough: 30720, Run: runC27,
		Rule:      "The built commands are run in a scratch working directory. xpdf gets random documents (images relative to the working directory, core fonts and fonts of a random fonts/fontdef.toml with relative and absolute paths) under many input names and directories, with and without an output argument, over existing longer files; its PDF must be complete and drawn like the library's, and no other file may appear. describe must print exactly the library's XML dump. image must print source, format and size of random images. Injected failures: input missing, a directory, cut off or invalid; font definitions missing, malformed or a directory; font files missing or garbage; unknown fonts; output in a missing directory, a directory, or a full device. Each must give a message and a status other than 0. Non-trivial: every case.",
		Technique: "Black-box runtime monitor over exit status, standard output and files of the real commands, with the library as oracle and injected file faults.",
		Min:       map[string]int{"drawn like the library": 300, "default output names": 60, "descriptions": 40, "images": 40, "reported failures": 300, "replaced files": 40, "font definitions": 40},
	})
}

type cmdRes struct {
	code     int
	out, err string
}

func command(dir, name string, args ...string) (cmdRes, error) {
	base := os.Getenv("VERIF_CMDS")
	if base == "" {
		return cmdRes{}, errors.New("VERIF_CMDS is not set: run check.sh")
	}
	cmd := exec.Command(filepath.Join(base, "cmd-"+name), args...)
	cmd.Dir = dir
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	r := cmdRes{out: so.String(), err: se.String()}
	var xe *exec.ExitError
	switch {
	case err == nil:
	case errors.As(err, &xe):
		r.code = xe.ExitCode()
	default:
		return r, err
	}
	return r, nil
}

func tree(dir string) []string {
	var out []string
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil {
			out = append(out, strings.TrimPrefix(p, dir))
		}
		return nil
	})
	sort.Strings(out)
	return out
}

func runC27(e *run.Env, c *run.Case) {
	g := newGen(c.R)
	le := env(e)
	dir := filepath.Join(e.Scratch, fmt.Sprintf("c27-%d", c.Idx))
	if err := os.MkdirAll(filepath.Join(dir, "fonts"), 0o755); err != nil {
		c.HarnessError("%v", err)
		return
	}
	defer os.RemoveAll(dir)
	c.Signature(fmt.Sprint(c.Idx))
	switch c.Idx % 8 {
	case 6:
		c27describe(c, g, dir)
	case 7:
		c27image(c, g, dir)
	default:
		c27xpdf(e, c, g, le, dir)
	}
}

// call runs a command and reports harness errors and crashes.
func c27call(c *run.Case, dir, name string, args ...string) (cmdRes, bool) {
	r, err := command(dir, name, args...)
	if err != nil {
		c.HarnessError("%s: %v", name, err)
		return r, false
	}
	if strings.Contains(r.err, "goroutine ") && strings.Contains(r.err, "panic") {
		c.Fail("%s %q panics: %.300s", name, args, r.err)
		return r, false
	}
	return r, true
}

func c27fails(c *run.Case, dir, why, name string, args ...string) {
	r, ok := c27call(c, dir, name, args...)
	if !ok {
		return
	}
	if r.code == 0 {
		c.Fail("%s %q exits 0 although %s", name, args, why)
	} else if strings.TrimSpace(r.out+r.err) == "" {
		c.Fail("%s %q fails silently (status %d) when %s", name, args, r.code, why)
	} else {
		c.Count("reported failures", 1)
	}
}

// invalid makes a document that cannot be loaded.
func (g *gen) unloadable(xml string) (string, string) {
	switch g.r.Intn(4) {
	case 0:
		return xml[:g.r.Intn(len(xml)-12)], "the input is cut off"
	case 1:
		return "", "the input is empty"
	case 2:
		return strings.Replace(xml, "<body>", "<body><nonsense/>", 1), "the input holds an unknown instruction"
	}
	return strings.Replace(xml, "<body>", `<body><text style="width: wide">a</text>`, 1), "the input holds an invalid style"
}

// fontDef writes fonts/fontdef.toml and returns the registry it means.
func (g *gen) fontDef(dir string, le *layoutEnv) (*font.Registry, []string) {
	reg := font.NewRegistry()
	var files []string
	var b strings.Builder
	if g.p(50) {
		b.WriteString("MonoFont = \"gosans\"\n\n")
	}
	type def struct{ name string }
	defs := []def{{"gosans"}}
	if g.p(40) {
		defs = append(defs, def{"other"})
	}
	if g.p(50) && len(defs) > 1 {
		defs[0], defs[1] = defs[1], defs[0]
	}
	for i, df := range defs {
		fmt.Fprintf(&b, "[[Fonts]]\nName = %q\n", df.name)
		for _, k := range g.r.Perm(len(assets.Fonts)) {
			f := assets.Fonts[k]
			rel := filepath.Join(g.of("", "ttf", "x/y"), fmt.Sprintf("%d%s", i, f.Name))
			abs := filepath.Join(dir, "fonts", rel)
			src := f.Bytes
			if df.name == "other" {
				// another face, so that a mix-up shows
				src = assets.Fonts[(k+1)%len(assets.Fonts)].Bytes
			}
			os.MkdirAll(filepath.Dir(abs), 0o755)
			os.WriteFile(abs, src, 0o644)
			p := rel
			if g.p(30) {
				p = abs
			} else if g.p(10) {
				p = "./" + rel
			}
			fmt.Fprintf(&b, "  [[Fonts.StyleDefinitions]]\n  Style = %q\n  FilePath = %q\n", f.Reg, p)
			reg.Register(font.Descriptor{Name: df.name, Style: font.Style(f.Reg), FilePath: abs})
			files = append(files, abs)
		}
	}
	os.WriteFile(filepath.Join(dir, "fonts", "fontdef.toml"), []byte(b.String()), 0o644)
	return reg, files
}

func c27xpdf(e *run.Env, c *run.Case, g *gen, le *layoutEnv, dir string) {
	img := le.imageDir(e)
	for _, n := range []string{"a.png", "b.jpg", "c.gif"} {
		b, _ := os.ReadFile(filepath.Join(img, n))
		os.WriteFile(filepath.Join(dir, n), b, 0o644)
	}
	d := g.newDoc()
	g.unicode = g.p(30)
	// a missing image is no error: the harness' documents use existing ones here
	g.flow(d, g.rng(1, 4))
	if g.p(40) {
		d.Body = append(d.Body, doc.Image(g.of("a.png", "b.jpg", "c.gif")))
	}
	if g.p(40) {
		d.Header = []*doc.Node{doc.SetY(2), doc.Text(nil, doc.T(g.hfWords(1)+" {cp} {np}"))}
	}
	if g.p(30) {
		d.Body = append(d.Body, doc.Text(doc.S("width", "50", "h-align", "block"), doc.T(g.words(40))))
	}
	ug := usesGo(d)
	xml := d.XML()
	c.Attach("xml", xml)
	c.Smp = compact(xml)
	reg := font.NewRegistry()
	var files []string
	if ug || g.p(30) {
		reg, files = g.fontDef(dir, le)
		if g.p(40) && len(files) > 4 {
			d.Body = append(d.Body, doc.Text(doc.S("font-family", "other"), doc.T(g.words(3))))
			xml = d.XML()
			c.Attach("xml", xml)
		}
		c.Count("font definitions", 1)
	} else {
		os.WriteFile(filepath.Join(dir, "fonts", "fontdef.toml"), []byte(g.of("", "MonoFont = \"Courier\"\n", "# nothing\n\n")), 0o644)
	}

	base := g.of("doc", "a.b", "with space", "überblick", "x-1", "noext", "README", "UPPER", "doc.pdf.v2", "a.xml.old", "b.txt.xml.txt", ".hidden", "x.")
	name := base + g.of(".xml", ".xml", ".xml", ".XML", ".xpdf", ".txt")
	if base == "noext" || base == "README" {
		name = base
	}
	in := name
	if g.p(50) {
		sub := g.of("in", "in/deep", "./in", "in.d")
		os.MkdirAll(filepath.Join(dir, sub), 0o755)
		in = sub + "/" + name
		if g.p(30) {
			in = filepath.Join(dir, sub, name)
		}
	}
	inAbs := in
	if !filepath.IsAbs(in) {
		inAbs = filepath.Join(dir, in)
	}
	if err := os.WriteFile(inAbs, []byte(xml), 0o644); err != nil {
		c.HarnessError("%v", err)
		return
	}
	args := []string{in}
	out := base + ".pdf"
	if g.p(60) {
		out = g.of("out.pdf", "x", "o/p.pdf", "ö.PDF", "a.xml.pdf", "doc.txt")
		if g.p(20) {
			out = filepath.Join(dir, out)
		}
		args = append(args, out)
	} else {
		c.Count("default output names", 1)
	}
	outAbs := out
	if !filepath.IsAbs(out) {
		outAbs = filepath.Join(dir, out)
	}
	os.MkdirAll(filepath.Dir(outAbs), 0o755)
	if outAbs == inAbs {
		c.Triv = true
		return
	}
	switch c.Idx % 8 {
	case 0, 1, 2, 3:
		if g.p(30) {
			os.WriteFile(outAbs, bytes.Repeat([]byte("old contents "), 40000), 0o644)
			c.Count("replaced files", 1)
		} else {
			os.WriteFile(outAbs, nil, 0o644)
			os.Remove(outAbs)
		}
		before := tree(dir)
		r, ok := c27call(c, dir, "xpdf", args...)
		if !ok {
			return
		}
		if r.code != 0 {
			c.Fail("xpdf %q exits %d: %s%s", args, r.code, r.out, r.err)
			return
		}
		b, err := os.ReadFile(outAbs)
		if err != nil {
			c.Fail("xpdf %q exits 0 but wrote no %s", args, out)
			return
		}
		got, bad := completePDF(b)
		if bad != "" {
			c.Fail("xpdf %q wrote no complete PDF: %s", args, bad)
			return
		}
		lib := sut.Render(xml, sut.Opts{Hyph: le.hyph, WD: dir, Registry: reg})
		if f := lib.Failed(); f != "" {
			c.Fail("xpdf succeeds but the library fails: %s", f)
			return
		}
		want, bad := completePDF(lib.PDF)
		if bad != "" {
			c.Fail("library: %s", bad)
			return
		}
		if diff := firstDiff(runsOf(want), runsOf(got)); diff != "" {
			c.Fail("xpdf %q draws differently from the library: %s", args, diff)
		}
		c.Count("drawn like the library", 1)
		after := tree(dir)
		old := map[string]bool{strings.TrimPrefix(outAbs, dir): true}
		for _, p := range before {
			old[p] = true
		}
		for _, p := range after {
			if !old[p] {
				c.Fail("xpdf %q also wrote %s", args, p)
			}
		}
		if b, _ := os.ReadFile(inAbs); string(b) != xml {
			c.Fail("xpdf %q changed its input", args)
		}
	case 4: // inputs and outputs
		bad, why := g.unloadable(xml)
		os.WriteFile(inAbs, []byte(bad), 0o644)
		c27fails(c, dir, why, "xpdf", args...)
		os.Remove(inAbs)
		c27fails(c, dir, "the input is missing", "xpdf", args...)
		os.Mkdir(inAbs, 0o755)
		c27fails(c, dir, "the input is a directory", "xpdf", args...)
		os.Remove(inAbs)
		os.WriteFile(inAbs, []byte(xml), 0o644)
		os.Remove(outAbs)
		os.Mkdir(outAbs, 0o755)
		c27fails(c, dir, "the output is a directory", "xpdf", args...)
		c27fails(c, dir, "the output's directory is missing", "xpdf", in, "nowhere/"+g.of("a.pdf", "b/c.pdf"))
		c27fails(c, dir, "the output's directory is a file", "xpdf", in, in+"/a.pdf")
		if fi, err := os.Stat("/dev/full"); err == nil && fi.Mode()&os.ModeCharDevice != 0 {
			c27fails(c, dir, "the output device is full", "xpdf", in, "/dev/full")
		}
	case 5: // fonts
		def := filepath.Join(dir, "fonts", "fontdef.toml")
		text, _ := os.ReadFile(def)
		if len(files) > 0 {
			f := files[g.r.Intn(len(files))]
			fb, _ := os.ReadFile(f)
			os.Remove(f)
			c27fails(c, dir, "a font file is missing", "xpdf", args...)
			os.Mkdir(f, 0o755)
			c27fails(c, dir, "a font file is a directory", "xpdf", args...)
			os.Remove(f)
			os.WriteFile(f, fb, 0o644)
			if ug {
				// a damaged file only matters when its font is used
				keep := map[string][]byte{}
				for _, f := range files {
					keep[f], _ = os.ReadFile(f)
					os.WriteFile(f, []byte(g.words(30)), 0o644)
				}
				c27fails(c, dir, "all font files are garbage", "xpdf", args...)
				for f, b := range keep {
					os.WriteFile(f, b, 0o644)
				}
			}
		}
		os.WriteFile(def, []byte(g.of("[[Fonts", "Name = ", "= 3", "MonoFont = 3", "Fonts = \"x\"", "a = b = c")+"\n"+string(text)), 0o644)
		c27fails(c, dir, "the font definitions are malformed", "xpdf", args...)
		os.Remove(def)
		c27fails(c, dir, "the font definitions are missing", "xpdf", args...)
		os.Mkdir(def, 0o755)
		c27fails(c, dir, "the font definitions are a directory", "xpdf", args...)
		os.Remove(def)
		os.WriteFile(def, text, 0o644)
		d.Body = append(d.Body, doc.Text(doc.S("font-family", "unknownfont"), doc.T("w")))
		os.WriteFile(inAbs, []byte(d.XML()), 0o644)
		c27fails(c, dir, "a font is unknown", "xpdf", args...)
	}
}

// runsOf is everything drawn, with text run by run.
func runsOf(in *pdfx.Ink) []string {
	out := everything(in, nil)
	for _, r := range in.Runs {
		out = append(out, fmt.Sprintf("text %q p%d (%.2f, %.2f) %s %.1f %v underlined=%v", r.Text, r.Page, r.X, r.Y, r.Font, r.Size, r.Color, r.Underline))
	}
	return out
}

func c27describe(c *run.Case, g *gen, dir string) {
	d := g.newDoc()
	var names []string
	d.Classes, names = g.sheet(true, 3)
	g.unicode, g.punct = true, true
	d.Body = g.nested(d, names, 3, g.rng(1, 8))
	if g.p(50) {
		d.Body = append(d.Body, doc.Text(nil, doc.T(g.words(2)+g.of(" 50%", " %d %s", " 100% ", " %!", " %%", " %")+" "+g.word())))
	}
	xml := d.XML()
	c.Attach("xml", xml)
	c.Smp = compact(xml)
	in := g.of("d.xml", "sub/d.xml", "with space.xml", "noext")
	os.MkdirAll(filepath.Join(dir, filepath.Dir(in)), 0o755)
	path := filepath.Join(dir, in)
	os.WriteFile(path, []byte(xml), 0o644)
	var want string
	if pn := sut.Protect(func() {
		xd, err := xdoc.Load(strings.NewReader(xml))
		if err != nil {
			c.Fail("load: %v", err)
			return
		}
		want = xdoc.Describe(xd).Dump(xdoc.DescribeXML)
	}); pn != "" {
		c.Fail("describing panics: %s", pn)
	}
	if c.Failed() {
		return
	}
	before := tree(dir)
	r, ok := c27call(c, dir, "describe", in)
	if !ok {
		return
	}
	if r.code != 0 {
		c.Fail("describe exits %d: %s%s", r.code, r.out, r.err)
	} else if strings.TrimSpace(r.out) != strings.TrimSpace(want) {
		c.Fail("describe prints something else than the library's dump: %q, expected %q", clip(r.out), clip(want))
	}
	c.Count("descriptions", 1)
	if a := tree(dir); strings.Join(a, "\n") != strings.Join(before, "\n") {
		c.Fail("describe changed files")
	}
	bad, why := g.unloadable(xml)
	os.WriteFile(path, []byte(bad), 0o644)
	c27fails(c, dir, why, "describe", in)
	os.Remove(path)
	c27fails(c, dir, "the input is missing", "describe", in)
	os.Mkdir(path, 0o755)
	c27fails(c, dir, "the input is a directory", "describe", in)
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "…"
	}
	return s
}

func c27image(c *run.Case, g *gen, dir string) {
	w, h := g.rng(1, 300), g.rng(1, 300)
	im := image.NewPaletted(image.Rect(0, 0, w, h), color.Palette{color.White, color.Black})
	format := g.of("png", "jpeg", "gif")
	// the format is that of the contents, whatever the name
	name := g.of("i.png", "i.jpg", "i.gif", "i", "with space.png", "sub/i.jpeg")
	os.MkdirAll(filepath.Join(dir, filepath.Dir(name)), 0o755)
	path := filepath.Join(dir, name)
	var b bytes.Buffer
	switch format {
	case "png":
		png.Encode(&b, im)
	case "jpeg":
		jpeg.Encode(&b, im, nil)
	default:
		gif.Encode(&b, im, nil)
	}
	os.WriteFile(path, b.Bytes(), 0o644)
	c.Smp = fmt.Sprintf("%s: %s of %d x %d", name, format, w, h)
	r, ok := c27call(c, dir, "image", name)
	if !ok {
		return
	}
	if r.code != 0 {
		c.Fail("image exits %d: %s%s", r.code, r.out, r.err)
		return
	}
	rest := r.out
	next := func(what, pat string) {
		m := regexp.MustCompile(pat).FindStringIndex(rest)
		if m == nil {
			c.Fail("image %q prints no %s (%s): %q", name, what, pat, r.out)
			return
		}
		rest = rest[m[1]:]
	}
	next("source", `Source\s*:\s*"?`+regexp.QuoteMeta(name)+`"?\n`)
	next("format", `Format\s*:\s*"?`+format+`"?\n`)
	next("dimensions", fmt.Sprintf(`Dim\s*:\s*w=%d, h=%d\n`, w, h))
	c.Count("images", 1)
	c27fails(c, dir, "there is no argument", "image")
	os.WriteFile(path, b.Bytes()[:g.rng(0, 9)], 0o644)
	c27fails(c, dir, "the image is cut off", "image", name)
	os.WriteFile(path, []byte(g.words(20)), 0o644)
	c27fails(c, dir, "the image is garbage", "image", name)
	os.Remove(path)
	c27fails(c, dir, "the image is missing", "image", name)
	os.Mkdir(path, 0o755)
	c27fails(c, dir, "the image is a directory", "image", name)
}
