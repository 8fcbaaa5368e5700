// Package assets carries the fonts and the reference hyphenation patterns.
package assets

import (
	_ "embed"
	"os"
	"path/filepath"
)

//go:embed fonts/Go-Regular.ttf
var goR []byte

//go:embed fonts/Go-Bold.ttf
var goB []byte

//go:embed fonts/Go-Italic.ttf
var goI []byte

//go:embed fonts/Go-Bold-Italic.ttf
var goBI []byte

//go:embed enus.pat
var EnUs string

//go:embed latin.pat
var Latin string

type FontFile struct {
	Style string // "", B, I, BI
	Reg   string // regular bold italic bold+italic
	Name  string
	Bytes []byte
}

var Fonts = []FontFile{
	{"", "regular", "Go-Regular.ttf", goR},
	{"B", "bold", "Go-Bold.ttf", goB},
	{"I", "italic", "Go-Italic.ttf", goI},
	{"BI", "bold+italic", "Go-Bold-Italic.ttf", goBI},
}

// WriteFonts puts the font files into dir.
func WriteFonts(dir string) error {
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	for _, f := range Fonts {
		if err := os.WriteFile(filepath.Join(dir, f.Name), f.Bytes, 0o644); err != nil {
			return err
		}
	}
	return nil
}
