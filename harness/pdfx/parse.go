// Package pdfx is a small, strict reader for the PDF files the code under test
// emits. It validates the file structure (header, cross reference table,
// object numbering, stream lengths, page tree) and replays every page's
// content stream into drawn primitives ("ink"). It is the observation boundary
// of the harness: everything a reader of the document sees goes through here.
package pdfx

import (
	"bytes"
	"compress/zlib"
	"crypto/sha1"
	"encoding/hex"
	"fmt"
	"io"
	"regexp"
	"strconv"
	"strings"
)

type Object struct {
	Num    int
	Dict   string // text between "obj" and "stream"/"endobj"
	Stream []byte
}

type File struct {
	Objects map[int]*Object
	Trailer string
	Root    int
	Info    int
	Pages   []PageObj
	Fonts   map[string]string // resource name (without /) -> BaseFont
	Images  map[string]*Object
}

type PageObj struct {
	W, H    float64 // points
	Content []byte
}

var (
	reObjHead = regexp.MustCompile(`^(\d+) 0 obj\s`)
	reLength  = regexp.MustCompile(`/Length (\d+)`)
	reRef     = regexp.MustCompile(`(\d+) 0 R`)
	reBox     = regexp.MustCompile(`/MediaBox \[\s*([-\d.]+) ([-\d.]+) ([-\d.]+) ([-\d.]+)\s*\]`)
	reFont    = regexp.MustCompile(`/(F[0-9A-Za-z]+) (\d+) 0 R`)
	reImage   = regexp.MustCompile(`/(I[0-9A-Za-z]+) (\d+) 0 R`)
	reBase    = regexp.MustCompile(`/BaseFont /(\S+)`)
	reFFFile  = regexp.MustCompile(`/FontFile2 (\d+) 0 R`)
)

func key(dict, k string) (string, bool) {
	i := strings.Index(dict, k)
	if i < 0 {
		return "", false
	}
	return strings.TrimLeft(dict[i+len(k):], " \r\n"), true
}

func refOf(dict, k string) (int, error) {
	s, ok := key(dict, k)
	if !ok {
		return 0, fmt.Errorf("missing %s in %.80q", k, dict)
	}
	m := reRef.FindStringSubmatchIndex(s)
	if m == nil || m[0] != 0 {
		return 0, fmt.Errorf("%s is not a reference: %.40q", k, s)
	}
	return strconv.Atoi(s[m[2]:m[3]])
}

// Parse reads and validates the whole file.
func Parse(b []byte) (*File, error) {
	if !bytes.HasPrefix(b, []byte("%PDF-1.")) {
		return nil, fmt.Errorf("no PDF header")
	}
	tail := strings.TrimRight(string(b[max0(len(b)-64):]), "\r\n")
	if !strings.HasSuffix(tail, "%%EOF") {
		return nil, fmt.Errorf("no %%%%EOF at end")
	}
	i := strings.LastIndex(tail, "startxref")
	if i < 0 {
		return nil, fmt.Errorf("no startxref")
	}
	f := strings.Fields(tail[i:])
	if len(f) != 3 {
		return nil, fmt.Errorf("bad startxref section")
	}
	off, err := strconv.Atoi(f[1])
	if err != nil || off <= 0 || off >= len(b) {
		return nil, fmt.Errorf("bad startxref offset %q", f[1])
	}
	x := string(b[off:])
	if !strings.HasPrefix(x, "xref\n") {
		return nil, fmt.Errorf("startxref does not point to xref")
	}
	lines := strings.Split(x, "\n")
	hd := strings.Fields(lines[1])
	if len(hd) != 2 || hd[0] != "0" {
		return nil, fmt.Errorf("bad xref header %q", lines[1])
	}
	n, err := strconv.Atoi(hd[1])
	if err != nil || n < 2 || len(lines) < n+3 {
		return nil, fmt.Errorf("bad xref size")
	}
	file := &File{Objects: map[int]*Object{}, Fonts: map[string]string{}, Images: map[string]*Object{}}
	for k := 1; k < n; k++ {
		ln := strings.Fields(lines[2+k])
		if len(ln) != 3 || ln[2] != "n" {
			return nil, fmt.Errorf("bad xref entry %q", lines[2+k])
		}
		o, err := strconv.Atoi(ln[0])
		if err != nil || o <= 0 || o >= off {
			return nil, fmt.Errorf("bad xref offset %q", ln[0])
		}
		obj, err := parseObject(b[o:off], k)
		if err != nil {
			return nil, fmt.Errorf("object %d: %v", k, err)
		}
		file.Objects[k] = obj
	}
	file.Trailer = strings.Join(lines[2+n:], "\n")
	if file.Root, err = refOf(file.Trailer, "/Root"); err != nil {
		return nil, err
	}
	if r, err := refOf(file.Trailer, "/Info"); err == nil {
		file.Info = r
	}
	root := file.Objects[file.Root]
	if root == nil || !strings.Contains(root.Dict, "/Type /Catalog") {
		return nil, fmt.Errorf("root is no catalog")
	}
	pr, err := refOf(root.Dict, "/Pages")
	if err != nil {
		return nil, err
	}
	pages := file.Objects[pr]
	if pages == nil {
		return nil, fmt.Errorf("no page tree")
	}
	kidsStr, ok := key(pages.Dict, "/Kids [")
	if !ok {
		return nil, fmt.Errorf("no /Kids")
	}
	e := strings.IndexByte(kidsStr, ']')
	if e < 0 {
		return nil, fmt.Errorf("unterminated /Kids")
	}
	defBox := reBox.FindStringSubmatch(pages.Dict)
	cnt := -1
	if s, ok := key(pages.Dict, "/Count "); ok {
		fmt.Sscanf(s, "%d", &cnt)
	}
	var resNum int
	for _, m := range reRef.FindAllStringSubmatch(kidsStr[:e], -1) {
		num, _ := strconv.Atoi(m[1])
		po := file.Objects[num]
		if po == nil || !strings.Contains(po.Dict, "/Type /Page") {
			return nil, fmt.Errorf("kid %d is no page", num)
		}
		box := reBox.FindStringSubmatch(po.Dict)
		if box == nil {
			box = defBox
		}
		if box == nil {
			return nil, fmt.Errorf("page %d without media box", num)
		}
		w, _ := strconv.ParseFloat(box[3], 64)
		h, _ := strconv.ParseFloat(box[4], 64)
		cr, err := refOf(po.Dict, "/Contents")
		if err != nil {
			return nil, err
		}
		co := file.Objects[cr]
		if co == nil || co.Stream == nil {
			return nil, fmt.Errorf("page %d has no content", num)
		}
		data := co.Stream
		if strings.Contains(co.Dict, "/FlateDecode") {
			if data, err = inflate(data); err != nil {
				return nil, fmt.Errorf("page %d content: %v", num, err)
			}
		}
		if rn, err := refOf(po.Dict, "/Resources"); err == nil {
			resNum = rn
		}
		file.Pages = append(file.Pages, PageObj{W: w, H: h, Content: data})
	}
	if cnt != len(file.Pages) {
		return nil, fmt.Errorf("/Count %d but %d kids", cnt, len(file.Pages))
	}
	if resNum != 0 {
		res := file.Objects[resNum]
		if res == nil {
			return nil, fmt.Errorf("no resource object")
		}
		for _, m := range reFont.FindAllStringSubmatch(res.Dict, -1) {
			num, _ := strconv.Atoi(m[2])
			fo := file.Objects[num]
			if fo == nil {
				return nil, fmt.Errorf("font %s: no object %d", m[1], num)
			}
			bf := reBase.FindStringSubmatch(fo.Dict)
			if bf == nil {
				return nil, fmt.Errorf("font %s without BaseFont: %.200q", m[1], fo.Dict)
			}
			file.Fonts[m[1]] = strings.TrimSuffix(bf[1], ">>")
		}
		for _, m := range reImage.FindAllStringSubmatch(res.Dict, -1) {
			num, _ := strconv.Atoi(m[2])
			io := file.Objects[num]
			if io == nil || !strings.Contains(io.Dict, "/Subtype /Image") {
				return nil, fmt.Errorf("image %s: no object %d", m[1], num)
			}
			file.Images[m[1]] = io
		}
	}
	return file, nil
}

func max0(n int) int {
	if n < 0 {
		return 0
	}
	return n
}

func inflate(b []byte) ([]byte, error) {
	r, err := zlib.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, err
	}
	return io.ReadAll(r)
}

func parseObject(b []byte, want int) (*Object, error) {
	head := b
	if len(head) > 64 {
		head = head[:64]
	}
	m := reObjHead.FindSubmatch(head)
	if m == nil {
		return nil, fmt.Errorf("no object header at %.20q", b)
	}
	num, _ := strconv.Atoi(string(m[1]))
	if num != want {
		return nil, fmt.Errorf("xref points to object %d", num)
	}
	rest := b[len(m[0]):]
	ei := bytes.Index(rest, []byte("endobj"))
	si := bytes.Index(rest, []byte("stream\n"))
	if ei < 0 {
		return nil, fmt.Errorf("no endobj")
	}
	o := &Object{Num: num}
	if si >= 0 && si < ei {
		o.Dict = string(rest[:si])
		lm := reLength.FindStringSubmatch(o.Dict)
		if lm == nil {
			return nil, fmt.Errorf("stream without length")
		}
		l, _ := strconv.Atoi(lm[1])
		body := rest[si+len("stream\n"):]
		if l > len(body) {
			return nil, fmt.Errorf("stream length beyond file")
		}
		o.Stream = body[:l]
		if !bytes.HasPrefix(bytes.TrimLeft(body[l:], "\r\n"), []byte("endstream")) {
			return nil, fmt.Errorf("stream length %d does not end at endstream", l)
		}
		return o, nil
	}
	o.Dict = string(rest[:ei])
	return o, nil
}

// FontPrograms maps each embedded font's name to a digest of its program.
func (f *File) FontPrograms() map[string]string {
	out := map[string]string{}
	for _, o := range f.Objects {
		if !strings.Contains(o.Dict, "/FontDescriptor /FontName") {
			continue
		}
		name, _ := key(o.Dict, "/FontName /")
		if i := strings.IndexAny(name, " \r\n/>"); i >= 0 {
			name = name[:i]
		}
		m := reFFFile.FindStringSubmatch(o.Dict)
		if m == nil {
			continue
		}
		n, _ := strconv.Atoi(m[1])
		if prog := f.Objects[n]; prog != nil {
			h := sha1.Sum(prog.Stream)
			out[name] = hex.EncodeToString(h[:])
		}
	}
	return out
}
