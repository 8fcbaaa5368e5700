// Package sut drives the code under test through its public API only.
package sut

import (
	"bytes"
	"fmt"
	"io"
	"path/filepath"
	"runtime/debug"
	"strings"

	"github.com/mazzegi/xpdf"
	"github.com/mazzegi/xpdf/engine"
	"github.com/mazzegi/xpdf/font"
	"github.com/mazzegi/xpdf/hyphenation"
	"github.com/mazzegi/xpdf/xdoc"

	"verif/harness/assets"
	"verif/harness/pdfx"
)

// Runaway is what the guard panics with when a document makes the code under
// test do absurdly much work.
type Runaway struct{ What string }

// Guard wraps the engine and counts calls.
type Guard struct {
	engine.Engine
	Calls, Pages       int
	MaxCalls, MaxPages int
}

func (g *Guard) tick() {
	g.Calls++
	if g.Calls > g.MaxCalls {
		panic(Runaway{fmt.Sprintf("more than %d engine calls", g.MaxCalls)})
	}
}
func (g *Guard) AddPage() {
	g.Pages++
	if g.Pages > g.MaxPages {
		panic(Runaway{fmt.Sprintf("more than %d pages", g.MaxPages)})
	}
	g.tick()
	g.Engine.AddPage()
}
func (g *Guard) WriteText(s string) { g.tick(); g.Engine.WriteText(s) }
func (g *Guard) TextWidth(s string) float64 {
	g.tick()
	return g.Engine.TextWidth(s)
}
func (g *Guard) SetX(x float64)      { g.tick(); g.Engine.SetX(x) }
func (g *Guard) MoveTo(x, y float64) { g.tick(); g.Engine.MoveTo(x, y) }

type Opts struct {
	FontDir  string // with the Go fonts; registers family "gosans" when set
	Hyph     *hyphenation.Hyphenator
	WD       string
	Engine   func(engine.Engine) engine.Engine
	Writer   io.Writer
	Registry *font.Registry
	Reader   io.Reader
}

type Result struct {
	LoadErr, EngErr, Err error
	Panic                string
	PDF                  []byte
	Doc                  *xdoc.Document
	Guard                *Guard
}

func (r *Result) Failed() string {
	switch {
	case r.Panic != "":
		return "panic: " + r.Panic
	case r.LoadErr != nil:
		return "load: " + r.LoadErr.Error()
	case r.EngErr != nil:
		return "engine: " + r.EngErr.Error()
	case r.Err != nil:
		return "process: " + r.Err.Error()
	}
	return ""
}

func Registry(dir string) *font.Registry {
	reg := font.NewRegistry()
	for _, f := range assets.Fonts {
		reg.Register(font.Descriptor{Name: "gosans", Style: font.Style(f.Reg), FilePath: filepath.Join(dir, f.Name)})
	}
	return reg
}

func Protect(f func()) (p string) {
	defer func() {
		if v := recover(); v != nil {
			if r, ok := v.(Runaway); ok {
				p = "runaway: " + r.What
				return
			}
			p = fmt.Sprintf("%v\n%s", v, trimStack(string(debug.Stack())))
		}
	}()
	f()
	return ""
}

func trimStack(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "xpdf") || strings.Contains(l, "gofpdf") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 12 {
			break
		}
	}
	return strings.Join(out, " | ")
}

// Render loads and processes one document.
func Render(xml string, o Opts) *Result {
	res := &Result{}
	res.Panic = Protect(func() {
		var rd io.Reader = strings.NewReader(xml)
		if o.Reader != nil {
			rd = o.Reader
		}
		doc, err := xdoc.Load(rd)
		if err != nil {
			res.LoadErr = err
			return
		}
		res.Doc = doc
		process(res, doc, o)
	})
	return res
}

// Process processes an already loaded document.
func Process(doc *xdoc.Document, o Opts) *Result {
	res := &Result{Doc: doc}
	res.Panic = Protect(func() { process(res, doc, o) })
	return res
}

func process(res *Result, doc *xdoc.Document, o Opts) {
	reg := o.Registry
	if reg == nil {
		reg = font.NewRegistry()
		if o.FontDir != "" {
			reg = Registry(o.FontDir)
		}
	}
	e, err := engine.NewFPDF(reg, doc)
	if err != nil {
		res.EngErr = err
		return
	}
	g := &Guard{Engine: e, MaxCalls: 3000000, MaxPages: 3000}
	res.Guard = g
	var eng engine.Engine = g
	if o.Engine != nil {
		eng = o.Engine(g)
	}
	p := xpdf.NewProcessor(eng, o.Hyph, doc, o.WD)
	var buf bytes.Buffer
	var w io.Writer = &buf
	if o.Writer != nil {
		w = io.MultiWriter(&buf, o.Writer)
	}
	res.Err = p.Process(w)
	res.PDF = buf.Bytes()
}

// Ink parses the output.
func (r *Result) Ink() (*pdfx.Ink, error) {
	f, err := pdfx.Parse(r.PDF)
	if err != nil {
		return nil, err
	}
	return f.Ink()
}
