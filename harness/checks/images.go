package checks

import (
	"image"
	"image/color"
	"image/gif"
	"image/jpeg"
	"image/png"
	"os"
	"path/filepath"

	"verif/harness/run"
)

// writeImage makes an image file of the given size; the format follows the name.
func writeImage(path string, w, h int) error {
	os.MkdirAll(filepath.Dir(path), 0o755)
	f, err := os.Create(path)
	if err != nil {
		return err
	}
	defer f.Close()
	pal := color.Palette{color.White, color.Black, color.RGBA{200, 10, 30, 255}}
	im := image.NewPaletted(image.Rect(0, 0, w, h), pal)
	for i := range im.Pix {
		im.Pix[i] = byte(i % 3)
	}
	switch filepath.Ext(path) {
	case ".jpg", ".jpeg":
		return jpeg.Encode(f, im, nil)
	case ".gif":
		return gif.Encode(f, im, nil)
	}
	return png.Encode(f, im)
}

// imageDir holds a few images of different shapes.
func (le *layoutEnv) imageDir(e *run.Env) string {
	dir := filepath.Join(e.Scratch, "images")
	if _, err := os.Stat(dir); err == nil {
		return dir
	}
	for n, s := range map[string][2]int{"a.png": {40, 30}, "b.jpg": {30, 45}, "c.gif": {64, 16}} {
		if err := writeImage(filepath.Join(dir, n), s[0], s[1]); err != nil {
			panic(err)
		}
	}
	return dir
}
