package checks

import (
	"fmt"
	"image"
	"image/color"
	"image/gif"
	"image/jpeg"
	"image/png"
	"os"
	"path/filepath"

	"verif/harness/doc"
	"verif/harness/ink"
	"verif/harness/pdfx"
	"verif/harness/run"
)

func init() {
	register(&run.Prop{
		ID: "C14", Quick: 12000, Thorough: 144000, Run: runC14, Init: initC14,
		Rule:      "Each case writes image files of random sizes (1x1 up to 2500 pixels long, tiny, square, extremely flat and tall) and kinds (PNG, JPEG and GIF; paletted, gray, colored, transparent; upper case, spaced and non-ASCII names; equal names in different directories) into its own working directory, with decoys of the same relative names in the process' current directory. Documents place them among texts, boxes, table cells, header and footer with and without declared sizes and offsets, and also name files that are missing, empty, directories, no images or cut off within the header. All ink is compared with the reference; a model-free monitor checks each image's size, ratio and room; leaving out the broken images must not change the drawing. Non-trivial: at least one image.",
		Technique: "Runtime comparison of the recorded image placements with a reference layout and with arithmetic monitors; metamorphic removal of unreadable images.",
		Min:       map[string]int{"images": 5000, "natural size": 600, "scaled down": 600, "broken images": 1600, "removal pairs": 900, "absolute sources": 1200, "decoys": 2100, "in cells": 1800},
	})
}

func initC14(e *run.Env) error {
	if err := initLayout(e); err != nil {
		return err
	}
	cwd := filepath.Join(e.Scratch, "cwd")
	os.MkdirAll(cwd, 0o755)
	return os.Chdir(cwd)
}

// writePicture makes an image file of a random kind.
func (g *gen) writePicture(path, format string, w, h int) error {
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		return err
	}
	f, err := os.Create(path)
	if err != nil {
		return err
	}
	defer f.Close()
	r := image.Rect(0, 0, w, h)
	var im image.Image
	k := g.r.Intn(4)
	if format == "gif" {
		k = 0
	}
	switch k {
	case 0:
		p := image.NewPaletted(r, color.Palette{color.White, color.Black, color.RGBA{200, 10, 30, 255}})
		for i := range p.Pix {
			p.Pix[i] = byte(i % 3)
		}
		im = p
	case 1:
		p := image.NewGray(r)
		for i := range p.Pix {
			p.Pix[i] = byte(i)
		}
		im = p
	case 2:
		p := image.NewRGBA(r)
		for i := range p.Pix {
			p.Pix[i] = byte(i * 7)
			if i%4 == 3 {
				p.Pix[i] = 255
			}
		}
		im = p
	default:
		p := image.NewNRGBA(r)
		for i := range p.Pix {
			p.Pix[i] = byte(i * 11)
		}
		im = p
	}
	switch format {
	case "jpg":
		return jpeg.Encode(f, im, nil)
	case "gif":
		return gif.Encode(f, im, nil)
	}
	return png.Encode(f, im)
}

type picture struct {
	src    string // as written in the document
	w, h   int
	broken bool
}

// dims picks pixel dimensions no other image of the document has.
func (g *gen) dims(used map[[2]int]bool) (int, int) {
	for {
		w, h := g.rng(1, 120), g.rng(1, 120)
		switch g.r.Intn(8) {
		case 0:
			w, h = g.rng(800, 2500), g.rng(1, 12)
		case 1:
			w, h = g.rng(1, 12), g.rng(1100, 2500)
		case 2:
			w, h = g.rng(700, 900), g.rng(300, 500)
			if g.p(70) {
				continue
			}
		case 3:
			w = g.rng(1, 60)
			h = w
		case 4:
			w, h = g.rng(1, 5), g.rng(1, 5)
		}
		if used[[2]int{w, h}] {
			continue
		}
		used[[2]int{w, h}] = true
		return w, h
	}
}

func runC14(e *run.Env, c *run.Case) {
	g := newGen(c.R)
	le := env(e)
	cwd := filepath.Join(e.Scratch, "cwd")
	root := filepath.Join(e.Scratch, fmt.Sprintf("case-%d", c.Idx))
	wd := filepath.Join(root, "work dir")
	for _, d := range []string{cwd, wd} {
		if err := os.MkdirAll(d, 0o755); err != nil {
			c.HarnessError("%v", err)
			return
		}
	}
	defer func() {
		os.RemoveAll(root)
		ents, _ := os.ReadDir(cwd)
		for _, en := range ents {
			os.RemoveAll(filepath.Join(cwd, en.Name()))
		}
	}()
	// the files
	used := map[[2]int]bool{}
	var pics []picture
	base := func(ext string) string {
		b := g.of("pic", "a", "my.pic", "x y", "übung", "p%20q", "#1")
		if g.p(50) {
			b += fmt.Sprint(g.rng(1, 99))
		}
		return b + ext
	}
	seenName := map[string]bool{}
	for k := g.rng(1, 4); k > 0; k-- {
		format := g.of("png", "png", "jpg", "gif")
		ext := "." + format
		switch {
		case format == "jpg" && g.p(40):
			ext = ".jpeg"
		case g.p(15):
			ext = map[string]string{"png": ".PNG", "jpg": ".JPG", "gif": ".GIF"}[format]
		}
		name := base(ext)
		rel := g.of("", "", "sub/", "sub/deep/", "../", "./", "sub/../") + name
		if seenName[filepath.Clean(rel)] {
			continue
		}
		seenName[filepath.Clean(rel)] = true
		w, h := g.dims(used)
		full := filepath.Join(wd, rel)
		if err := g.writePicture(full, format, w, h); err != nil {
			c.HarnessError("%v", err)
			return
		}
		src := rel
		if g.p(25) {
			src = full
			c.Count("absolute sources", 1)
		} else if rel[0] != '.' {
			// a decoy where a wrong resolution would look
			dw, dh := g.dims(used)
			if g.p(80) {
				g.writePicture(filepath.Join(cwd, rel), format, dw, dh)
				c.Count("decoys", 1)
			}
			if d := filepath.Join(wd, filepath.Base(rel)); filepath.Dir(rel) != "." {
				if _, err := os.Stat(d); err != nil && !seenName[filepath.Base(rel)] {
					g.writePicture(d, format, dw, dh)
				}
			}
		}
		pics = append(pics, picture{src: src, w: w, h: h})
	}
	for k := g.r.Intn(3); k > 0; k-- {
		name := base(".png")
		full := filepath.Join(wd, "broken", name)
		os.MkdirAll(filepath.Dir(full), 0o755)
		switch g.r.Intn(6) {
		case 0: // missing
			os.Remove(full)
		case 1:
			os.WriteFile(full, nil, 0o644)
		case 2:
			os.WriteFile(full, []byte("this is no image at all, only text"), 0o644)
		case 3:
			os.MkdirAll(full, 0o755)
		case 4: // cut within the header
			g.writePicture(full, "png", 9, 9)
			b, _ := os.ReadFile(full)
			os.WriteFile(full, b[:g.r.Intn(29)], 0o644)
		case 5: // a missing one that exists in the current directory
			g.writePicture(filepath.Join(cwd, "broken", name), "png", 31, 17)
		}
		pics = append(pics, picture{src: "broken/" + name, broken: true})
	}

	d := g.newDoc()
	style := func(maxW, maxH float64) []doc.KV {
		var st []doc.KV
		offMax := 20.0
		if maxH < 60 { // leave some room in cells
			offMax = 5
		}
		if g.p(45) {
			st = append(st, kv("width", g.num(1, maxW*g.ofF(0.3, 1, 1.5), 1)))
		}
		if g.p(40) {
			st = append(st, kv("height", g.num(1, maxH*g.ofF(0.1, 0.5, 1.4), 1)))
		}
		if g.p(6) { // the same as none
			st = append(st, kv(g.of("width", "height"), g.of("0", "-1", "0.0")))
		}
		if g.p(25) {
			st = append(st, kv("offset-x", g.num(-5, offMax, 1)))
		}
		if g.p(25) {
			st = append(st, kv("offset-y", g.num(-5, offMax, 1)))
		}
		if g.p(10) {
			st = append(st, kv("padding", g.pad(9)), kv("border", "1,1,1,1"), kv("h-align", "center"))
		}
		return st
	}
	broken := map[*doc.Node]bool{}
	pic := func(maxW, maxH float64) *doc.Node {
		p := pics[g.r.Intn(len(pics))]
		n := doc.Image(p.src, style(maxW, maxH)...)
		if g.p(15) {
			cl := fmt.Sprintf("im%d", len(d.Classes))
			d.Classes = append(d.Classes, doc.Class{Name: cl, Style: style(maxW, maxH)})
			n.Classes = []string{cl}
		}
		c.Count("images", 1)
		if p.broken {
			c.Count("broken images", 1)
			broken[n] = true
		}
		return n
	}
	for k := g.rng(1, 7); k > 0; k-- {
		switch g.r.Intn(9) {
		case 0, 1, 2:
			d.Body = append(d.Body, pic(g.pageW, g.pageH))
		case 3:
			d.Body = append(d.Body, doc.SetX(d.Left+float64(g.rng(0, 60))), doc.SetY(d.Top+float64(g.rng(0, 90))), pic(g.pageW, g.pageH))
		case 4:
			d.Body = append(d.Body, doc.Text(g.looks(), g.inline(g.rng(1, 12), true, true)...))
		case 5:
			d.Body = append(d.Body, doc.Box(append(g.looks(), kv("border", "1,1,1,1"), kv("background-color", g.color()), kv("line-width", "0.2")), g.inline(g.rng(1, 8), true, false)...))
		case 6:
			h := g.rng(15, 40)
			cell := func(im *doc.Node) *doc.Node {
				return doc.Td([]doc.KV{kv("height", fmt.Sprint(h)), kv("padding", g.pad(4)), kv("v-align", g.of("top", "middle", "bottom"))}, im)
			}
			d.Body = append(d.Body, doc.Table(doc.S("border", "1,1,1,1", "line-width", "0.2"), doc.Tr(nil, cell(pic(60, 30)), doc.Td(nil, doc.T(g.word()))), doc.Tr(nil, doc.Td(nil, doc.T(g.word())), cell(pic(60, 30)))))
			c.Count("in cells", 2)
		case 7:
			d.Body = append(d.Body, doc.LF(float64(g.rng(1, 4))))
		case 8:
			if g.p(40) {
				d.Body = append(d.Body, doc.NewPage())
			}
		}
	}
	if g.p(30) {
		d.Header = []*doc.Node{doc.SetX(d.Left), doc.SetY(2), pic(30, 10)}
	}
	if g.p(20) {
		d.Footer = []*doc.Node{doc.SetX(d.Left), doc.SetY(-12), pic(30, 10), doc.Text(nil, doc.T(g.hfWords(1)))}
	}
	n := 0
	d.Walk(func(x *doc.Node) {
		if x.Kind == "image" {
			n++
		}
	})
	c.Triv = n == 0
	s := renderBoth(e, c, d, wd)
	if s == nil {
		return
	}
	compareAll(c, s)
	sizeMonitor(c, d, pics, s.act)
	// leaving out what cannot be read changes nothing
	if len(broken) > 0 {
		strip := func(ns []*doc.Node) []*doc.Node { return nil }
		strip = func(ns []*doc.Node) []*doc.Node {
			var out []*doc.Node
			for _, x := range ns {
				if broken[x] {
					continue
				}
				y := *x
				y.Kids = strip(x.Kids)
				out = append(out, &y)
			}
			return out
		}
		d2 := *d
		d2.Header, d2.Footer, d2.Body = strip(d.Header), strip(d.Footer), strip(d.Body)
		_, in2, ws2 := actual(c, le, d2.XML(), s.usesGo, wd)
		if in2 != nil {
			c.Count("removal pairs", 1)
			a, b := everything(s.act, s.aw), everything(in2, ws2)
			if diff := firstDiff(a, b); diff != "" {
				c.Fail("without its unreadable images the document is drawn differently: %s", diff)
				c.Attach("xml2", d2.XML())
			}
		}
	}
	s.done(c)
}

func (g *gen) ofF(f ...float64) float64 { return f[g.r.Intn(len(f))] }

// everything spells out all ink.
func everything(in *pdfx.Ink, ws []ink.Word) []string {
	var out []string
	for i := range in.W {
		out = append(out, fmt.Sprintf("page %.2f x %.2f", in.W[i], in.H[i]))
	}
	for _, w := range ws {
		out = append(out, fmt.Sprintf("word %s w=%.2f u=%v", w, w.W, w.Underline))
	}
	for _, r := range in.Rects {
		out = append(out, "area "+rectS(r))
	}
	for _, l := range ink.Segs(in) {
		out = append(out, "line "+segS(l))
	}
	for _, i := range in.Images {
		out = append(out, fmt.Sprintf("image p%d %.2f %.2f %.2f %.2f px %dx%d", i.Page, i.X, i.Y, i.W, i.H, i.PxW, i.PxH))
	}
	return out
}

func firstDiff(a, b []string) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "nothing", "nothing"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return x + " / " + y
		}
	}
	return ""
}

// sizeMonitor checks each body image against the declared and natural sizes.
func sizeMonitor(c *run.Case, d *doc.Doc, pics []picture, in *pdfx.Ink) {
	bySrc := map[string]picture{}
	for _, p := range pics {
		bySrc[p.src] = p
	}
	pw, ph := pageSize(d)
	aw, ah := pw-d.Left-d.Right-2, ph-d.Top-d.Bottom
	drawn := map[[2]int][]pdfx.Image{}
	for _, i := range in.Images {
		drawn[[2]int{i.PxW, i.PxH}] = append(drawn[[2]int{i.PxW, i.PxH}], i)
	}
	nodes := map[[2]int][]*doc.Node{}
	mixed := map[[2]int]bool{}
	doc.Walk(d.Body, func(n *doc.Node) {
		if n.Kind != "image" || bySrc[n.Text].broken {
			return
		}
		p := bySrc[n.Text]
		k := [2]int{p.w, p.h}
		nodes[k] = append(nodes[k], n)
	})
	doc.Walk(append(append([]*doc.Node{}, d.Header...), d.Footer...), func(n *doc.Node) {
		if n.Kind == "image" {
			p := bySrc[n.Text]
			mixed[[2]int{p.w, p.h}] = true
		}
	})
	inCell := map[*doc.Node]bool{}
	doc.Walk(d.Body, func(n *doc.Node) {
		if n.Kind == "td" {
			for _, k := range n.Kids {
				inCell[k] = true
			}
		}
	})
	for k, ns := range nodes {
		if mixed[k] {
			continue
		}
		if len(drawn[k]) != len(ns) {
			c.Fail("the image of %dx%d pixels appears %d times, the document has it %d times", k[0], k[1], len(drawn[k]), len(ns))
			continue
		}
		for i, n := range ns {
			if inCell[n] {
				continue
			}
			im := drawn[k][i]
			st := flat(d, n)
			natW, natH := float64(k[0])*25.4/96, float64(k[1])*25.4/96
			w, h := natW, natH
			switch {
			case st["width"] > 0 && st["height"] > 0:
				w, h = st["width"], st["height"]
			case st["width"] > 0:
				w, h = st["width"], st["width"]*natH/natW
			case st["height"] > 0:
				w, h = st["height"]*natW/natH, st["height"]
			default:
				c.Count("natural size", 1)
			}
			rw, rh := aw-st["offset-x"], ah-st["offset-y"]
			if im.W > rw+0.02 || im.H > rh+0.02 {
				c.Fail("image %+v exceeds the room of %.2f x %.2f mm", im, rw, rh)
			}
			// the ratio, unless a side is too small to tell
			if im.W > 0.5 && im.H > 0.5 && abs(im.W/im.H*h/w-1) > 0.03 {
				c.Fail("image %+v has ratio %.3f, expected %.3f", im, im.W/im.H, w/h)
			}
			if w <= rw && h <= rh {
				if abs(im.W-w) > 0.02 || abs(im.H-h) > 0.02 {
					c.Fail("image %+v should measure %.2f x %.2f mm", im, w, h)
				}
			} else {
				c.Count("scaled down", 1)
				if abs(im.W-rw) > 0.02 && abs(im.H-rh) > 0.02 {
					c.Fail("image %+v is smaller than needed for the room of %.2f x %.2f mm", im, rw, rh)
				}
			}
		}
	}
}

// flat is the numeric style of an element with its (plain) classes.
func flat(d *doc.Doc, n *doc.Node) map[string]float64 {
	m := map[string]float64{}
	set := func(st []doc.KV) {
		for _, kv := range st {
			var f float64
			fmt.Sscan(kv.V, &f)
			m[kv.K] = f
		}
	}
	for _, cl := range n.Classes {
		for _, k := range d.Classes {
			if k.Name == cl && k.Sel == "" {
				set(k.Style)
			}
		}
	}
	set(n.Style)
	return m
}
