package main

import (
	"bytes"
	"fmt"
	"os"
	"runtime/debug"

	"github.com/mazzegi/xpdf"
	"github.com/mazzegi/xpdf/engine"
	"github.com/mazzegi/xpdf/font"
	"github.com/mazzegi/xpdf/hyphenation"
	"github.com/mazzegi/xpdf/xdoc"
	"verif/harness/pdfx"
)

func main() {
	debug.SetMaxStack(64 << 20)
	doc, err := xdoc.LoadFromFile(os.Args[1])
	if err != nil {
		fmt.Println("LOAD", err)
		os.Exit(1)
	}
	fr := font.NewRegistry()
	fr.Register(font.Descriptor{Name: "go", Style: "regular", FilePath: "/root/go/pkg/mod/golang.org/x/image@v0.0.0-20190802002840-cff245a6509b/font/gofont/ttfs/Go-Regular.ttf"})
	e, err := engine.NewFPDF(fr, doc)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	var b bytes.Buffer
	err = xpdf.NewProcessor(e, hyphenation.NewEnUs(), doc, ".").Process(&b)
	fmt.Println("process:", err, b.Len())
	f, err := pdfx.Parse(b.Bytes())
	if err != nil {
		fmt.Println("PARSE", err)
		return
	}
	if len(os.Args) > 2 {
		for _, p := range f.Pages {
			fmt.Println(string(p.Content))
		}
	}
	ink, err := f.Ink()
	if err != nil {
		fmt.Println("INK", err)
		return
	}
	fmt.Println("pages", len(ink.W), ink.W[0], ink.H[0])
	for _, r := range ink.Runs {
		fmt.Printf("p%d x=%.2f y=%.2f %s %.1f %s %q ul=%v\n", r.Page, r.X, r.Y, r.Font, r.Size, r.Color, r.Text, r.Underline)
	}
	for _, r := range ink.Rects {
		fmt.Printf("RECT %+v\n", r)
	}
	for _, r := range ink.Segs {
		fmt.Printf("SEG %+v\n", r)
	}
	for _, r := range ink.Images {
		fmt.Printf("IMG %+v\n", r)
	}
}
