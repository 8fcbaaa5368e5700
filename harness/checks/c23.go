package checks

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/mazzegi/xpdf"
	"github.com/mazzegi/xpdf/engine"
	"github.com/mazzegi/xpdf/font"
	"github.com/mazzegi/xpdf/xdoc"

	"verif/harness/assets"
	"verif/harness/doc"
	"verif/harness/pdfx"
	"verif/harness/ref"
	"verif/harness/run"
	"verif/harness/sut"
)

func init() {
	register(&run.Prop{
		ID: "C23", Quick: 2250, Thorough: 27000, Run: runC23,
		Rule:      "Each case writes a font definition file (1 to 6 families with 1 to 4 styles in any order and assignment of files, names with blanks, upper case, digits and umlauts, relative, nested, parent and absolute paths, files shared by several styles, with or without mono font, as TOML in several spellings) and decoy font files in the process' current directory, loads it by absolute or relative path, changes the current directory afterwards and checks the list Each visits, the mono font, early stop with the very error returned and registrations appended by hand. A document using every style is processed with it; the font of each word and a digest of each embedded font program are compared with those made from the declared files. Missing and malformed definition files must fail. Non-trivial: at least two font styles.",
		Technique: "Runtime comparison of registry contents with the declarations; tracing of each declared file into the emitted PDF (font program digests).",
		Min:       map[string]int{"registries": 900, "font styles": 5000, "font programs compared": 5000, "early stops": 3000, "bad definitions": 2700, "relative loads": 300, "absolute paths": 1000, "shared files": 300},
	})
}

type c23style struct {
	name, style, file, written string
	asset                      int
}

func tomlString(g *gen, s string) string {
	if g.p(30) && !strings.Contains(s, "'") {
		return "'" + s + "'"
	}
	return `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(s) + `"`
}

func runC23(e *run.Env, c *run.Case) {
	g := newGen(c.R)
	root := filepath.Join(e.Scratch, fmt.Sprintf("c23-%d", c.Idx))
	defs := filepath.Join(root, "the defs")
	cwd := filepath.Join(root, "cwd")
	for _, d := range []string{defs, filepath.Join(cwd, "sub")} {
		if err := os.MkdirAll(d, 0o755); err != nil {
			c.HarnessError("%v", err)
			return
		}
	}
	defer os.RemoveAll(root)
	if err := os.Chdir(cwd); err != nil {
		c.HarnessError("%v", err)
		return
	}
	defer os.Chdir(e.Scratch)
	styles := []string{"regular", "bold", "italic", "bold+italic"}
	nf := g.rng(1, 6)
	var decl []c23style
	var t strings.Builder
	mono := g.of("", "", "mono x", "Courier", "fam1")
	if mono != "" || g.p(50) {
		t.WriteString(g.of("MonoFont = ", "MonoFont=") + tomlString(g, mono) + "\n")
	}
	names := map[string]bool{}
	for f := 0; f < nf; f++ {
		name := g.of("Fam", "my font", "übung", "x-y_z", "noto") + fmt.Sprint(g.rng(1, 99))
		if names[strings.ToLower(name)] {
			continue
		}
		names[strings.ToLower(name)] = true
		t.WriteString("\n[[Fonts]]\n" + g.of("", "  ") + "Name = " + tomlString(g, name) + "\n")
		if g.p(15) {
			t.WriteString("# a comment\n")
		}
		perm := g.r.Perm(4)[:g.rng(1, 4)]
		for _, k := range perm {
			if len(decl) > 0 && g.p(20) {
				// one file for several styles
				old := decl[g.r.Intn(len(decl))]
				old.name, old.style = name, styles[k]
				decl = append(decl, old)
				c.Count("font styles", 1)
				c.Count("shared files", 1)
				t.WriteString("  [[Fonts.StyleDefinitions]]\n  Style = " + tomlString(g, styles[k]) + "\n  FilePath = " + tomlString(g, old.written) + "\n")
				continue
			}
			a := g.r.Intn(4)
			fn := fmt.Sprintf("%s %d.ttf", g.of("f", "font", "A.b", "~f", "$HOME", "%41", "C:f", "é", "-x", "http:f", "*"), len(decl))
			rel := g.of("", "", "sub/", "./", "../", "sub/../sub/", "~/", ".../", "file:/") + fn
			full := filepath.Join(defs, rel)
			os.MkdirAll(filepath.Join(defs, "sub"), 0o755)
			os.MkdirAll(filepath.Dir(full), 0o755)
			if err := os.WriteFile(full, assets.Fonts[a].Bytes, 0o644); err != nil {
				c.HarnessError("%v", err)
				return
			}
			// decoy with another font in the current directory
			if p := filepath.Join(cwd, rel); !strings.HasPrefix(rel, "..") {
				os.WriteFile(p, assets.Fonts[(a+1)%4].Bytes, 0o644)
			}
			written := rel
			if g.p(30) {
				written = full
				c.Count("absolute paths", 1)
			}
			decl = append(decl, c23style{name, styles[k], full, written, a})
			c.Count("font styles", 1)
			t.WriteString("  [[Fonts.StyleDefinitions]]\n")
			l := []string{"  Style = " + tomlString(g, styles[k]), "  FilePath    = " + tomlString(g, written)}
			if g.p(40) {
				l[0], l[1] = l[1], l[0]
			}
			t.WriteString(strings.Join(l, "\n") + "\n")
		}
	}
	toml := t.String()
	c.Signature(toml)
	c.Smp = compact(toml)
	c.Triv = len(decl) < 2
	file := filepath.Join(defs, g.of("fontdef.toml", "a b.toml", "x"))
	if err := os.WriteFile(file, []byte(toml), 0o644); err != nil {
		c.HarnessError("%v", err)
		return
	}
	path := file
	if g.p(50) {
		path = filepath.Join("..", "the defs", filepath.Base(file))
		c.Count("relative loads", 1)
	}
	var reg *font.Registry
	var err error
	if p := sut.Protect(func() { reg, err = font.LoadRegistryFromFile(path) }); p != "" {
		c.Fail("panic: %s", p)
		return
	}
	c.Attach("definitions", toml)
	if err != nil {
		c.Fail("loading the definitions failed: %v", err)
		return
	}
	c.Count("registries", 1)
	os.Chdir(root) // paths must have been resolved
	check := func(reg *font.Registry, want []font.Descriptor) {
		var got []font.Descriptor
		if err := reg.Each(func(d font.Descriptor) error { got = append(got, d); return nil }); err != nil {
			c.Fail("Each returned %v", err)
		}
		if len(got) != len(want) {
			c.Fail("the registry lists %d font styles, %d are declared", len(got), len(want))
			return
		}
		for i := range want {
			g := got[i]
			if g.Name != want[i].Name || g.Style != want[i].Style || filepath.Clean(g.FilePath) != filepath.Clean(want[i].FilePath) || !filepath.IsAbs(g.FilePath) {
				c.Fail("font style %d is listed as %+v, declared as %+v", i+1, got[i], want[i])
			}
		}
		// early stop
		for k := 0; k < 2 && len(want) > 0; k++ {
			at := g.r.Intn(len(want))
			stop := errors.New("stop")
			n := 0
			err := reg.Each(func(font.Descriptor) error {
				n++
				if n == at+1 {
					return stop
				}
				if n > at+1 {
					return errors.New("later")
				}
				return nil
			})
			c.Count("early stops", 1)
			if !errors.Is(err, stop) {
				c.Fail("Each returned %v instead of the callback's error", err)
			}
			if n != at+1 {
				c.Fail("Each made %d calls, the callback failed at call %d", n, at+1)
			}
		}
	}
	var want []font.Descriptor
	for _, d := range decl {
		want = append(want, font.Descriptor{Name: d.name, Style: font.Style(d.style), FilePath: d.file})
	}
	if reg.MonoFont() != mono {
		c.Fail("mono font %q is listed as %q", mono, reg.MonoFont())
	}
	check(reg, want)
	// a document that uses every style
	d := g.newDoc("a4")
	words := map[string]int{}
	order := g.r.Perm(len(decl))
	for _, i := range order {
		s := decl[i]
		st := doc.S("font-family", s.name, "font-point-size", g.of(sizes...))
		if s.style == "bold" || s.style == "bold+italic" {
			st = append(st, kv("font-weight", "bold"))
		}
		if s.style == "italic" || s.style == "bold+italic" {
			st = append(st, kv("font-style", "italic"))
		}
		w := g.word() + "q"
		words[w] = i
		d.Body = append(d.Body, doc.Text(st, doc.T(w)), doc.LF(1))
	}
	xml := d.XML()
	c.Attach("xml", xml)
	code := map[string]string{"regular": "", "bold": "B", "italic": "I", "bold+italic": "BI"}
	var ff []ref.FontFile
	for _, s := range decl {
		ff = append(ff, ref.FontFile{Name: s.name, Style: code[s.style], Bytes: assets.Fonts[s.asset].Bytes})
	}
	rr := ref.New(d, ref.Options{Fonts: ff})
	if _, err := rr.Render(); err != nil {
		c.HarnessError("reference: %v", err)
		return
	}
	var buf bytes.Buffer
	if p := sut.Protect(func() {
		var xd *xdoc.Document
		if xd, err = xdoc.Load(strings.NewReader(xml)); err != nil {
			return
		}
		var eng *engine.FPDF
		if eng, err = engine.NewFPDF(reg, xd); err != nil {
			return
		}
		err = xpdf.NewProcessor(eng, nil, xd, "").Process(&buf)
	}); p != "" {
		c.Fail("panic: %s", p)
		return
	}
	if err != nil {
		c.Fail("a document using the declared fonts failed: %v", err)
		return
	}
	f, err := pdfx.Parse(buf.Bytes())
	if err != nil {
		c.Fail("output is no valid PDF: %v", err)
		return
	}
	in, err := f.Ink()
	if err != nil {
		c.Fail("output is no valid PDF: %v", err)
		return
	}
	exp, got := rr.File.FontPrograms(), f.FontPrograms()
	seen := map[string]bool{}
	for _, r := range in.Runs {
		w := strings.TrimSpace(r.Text)
		i, ok := words[w]
		if !ok {
			continue
		}
		seen[w] = true
		s := decl[i]
		name := "utf8" + strings.ToLower(strings.ReplaceAll(s.name, " ", "#20")) + code[s.style]
		if r.Font != name {
			c.Fail("text in font %s %s is drawn in %s", s.name, s.style, r.Font)
		}
		c.Count("font programs compared", 1)
		if exp[name] == "" {
			c.HarnessError("no program %s in the reference (%v)", name, exp)
			return
		}
		if got[name] != exp[name] {
			c.Fail("the embedded font for %s %s is not made from the declared file %s", s.name, s.style, s.written)
		}
	}
	for w, i := range words {
		if !seen[w] {
			c.Fail("the text in font %s %s is missing", decl[i].name, decl[i].style)
		}
	}
	// more registrations by hand
	for k := g.r.Intn(3); k > 0; k-- {
		fd := font.Descriptor{Name: "hand" + fmt.Sprint(k), Style: font.Style(g.of(styles...)), FilePath: filepath.Join(root, "h.ttf")}
		reg.Register(fd)
		want = append(want, fd)
		if g.p(30) {
			fd.FilePath = g.of(fd.FilePath, filepath.Join(root, "again.ttf"))
			reg.Register(fd)
			want = append(want, fd)
		}
	}
	check(reg, want)
	// what must fail
	bad := filepath.Join(root, "bad.toml")
	text := g.of("MonoFont = \"x", "[[Fonts]\nName = \"x\"", "Fonts = 3", "[[Fonts]]\nName = 7", "[[Fonts]]\nName = \"a\"\nName = \"b\"", "[[Fonts]]\nName = \"a\"\nStyleDefinitions = \"x\"", "<xml/>", "\x00\x01")
	if g.p(40) && text != "Fonts = 3" {
		text = toml + "\n" + text
	}
	os.WriteFile(bad, []byte(text), 0o644)
	for _, p := range []string{bad, filepath.Join(root, "missing.toml"), root} {
		var r2 *font.Registry
		var err error
		if pn := sut.Protect(func() { r2, err = font.LoadRegistryFromFile(p) }); pn != "" {
			c.Fail("panic: %s", pn)
		}
		c.Count("bad definitions", 1)
		if err == nil {
			c.Fail("loading %s (%.60q) gave no error", filepath.Base(p), text)
		} else if r2 != nil {
			c.Fail("loading %s gave an error and a registry", filepath.Base(p))
		}
	}
}
