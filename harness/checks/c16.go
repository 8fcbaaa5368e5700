package checks

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/mazzegi/xpdf/hyphenation"

	"verif/harness/run"
	"verif/harness/sut"
)

func init() {
	register(&run.Prop{
		ID: "C16", Quick: 45000, Thorough: 540000, Run: runC16,
		Rule:      "Each case writes a list of 1 to 400 patterns with blank lines, indentation, CR LF and a present or missing final newline (up to several buffers long), such that each pattern alone decides one probe word. Fault-free runs deliver it in whole, in single bytes, in random pieces, with empty reads and with data and EOF together, from readers and files: every pattern must be in force. Faulty runs inject a read error of several kinds at a chosen or every offset, overlong lines (around 64 KiB and far beyond) and malformed patterns at the start, middle and end, directories and missing files: an error and no hyphenator must come back. Non-trivial: at least 3 patterns.",
		Technique: "Fault injection into the reader with runtime monitors over result, error and the behaviour of what was loaded.",
		Min:       map[string]int{"fault-free loads": 4000, "probe words": 600000, "read faults": 15000, "faults at the end": 1100, "overlong lines": 1000, "malformed patterns": 3000, "unreadable files": 2000, "file loads": 1000},
	})
}

// c16list makes lines of which each decides its own probe word.
func (g *gen) c16list(n int) (lines, words []string, at []int) {
	used := map[string]bool{}
	for len(lines) < n {
		k := g.rng(3, 6)
		var b []rune
		for i := 0; i < k; i++ {
			if g.p(3) {
				b = append(b, []rune("%#;/*-'&!\\\"’")[g.r.Intn(12)])
				continue
			}
			b = append(b, []rune("abcdefghijklmnopäöüж")[g.r.Intn(20)])
		}
		core := string(b)
		if used[core] {
			continue
		}
		used[core] = true
		// x + core + y: no pattern contains x or y, so longer and shorter
		// patterns only meet inside the core
		pos := g.rng(0, k)
		p := string(b[:pos]) + g.of("1", "3", "7", "9") + string(b[pos:])
		lines = append(lines, p)
		words = append(words, "xx"+core+"yy")
		at = append(at, 2+pos)
	}
	return
}

func (g *gen) c16text(lines []string) string {
	var b strings.Builder
	sep := g.of("\n", "\n", "\r\n")
	for i, l := range lines {
		if g.p(10) {
			b.WriteString(g.of("", " ", "\t", "   \t ") + sep)
		}
		if g.p(10) {
			l = g.of(" ", "\t", "    ") + l + g.of("", " ", "\t ")
		}
		b.WriteString(l)
		if i < len(lines)-1 || g.p(60) {
			b.WriteString(sep)
		}
	}
	return b.String()
}

func runC16(e *run.Env, c *run.Case) {
	g := newGen(c.R)
	n := g.rng(1, 60)
	if g.p(15) {
		n = g.rng(300, 1500)
	}
	lines, words, _ := g.c16list(n)
	data := g.c16text(lines)
	c.Triv = n < 3
	c.Signature(data, fmt.Sprint(c.Idx%6))
	c.Smp = fmt.Sprintf("%d patterns: %.80q", n, data)
	spec := newLiang(lines)
	load := func(what string, f func() (*hyphenation.Hyphenator, error)) (*hyphenation.Hyphenator, error) {
		var h *hyphenation.Hyphenator
		var err error
		if p := sut.Protect(func() { h, err = f() }); p != "" {
			c.Fail("%s: panic: %s", what, p)
			return nil, errInjected
		}
		return h, err
	}
	// complete: everything in force
	good := func(what string, h *hyphenation.Hyphenator, err error, spec *liang, words []string) {
		if err != nil {
			c.Fail("%s: loading %d good patterns failed: %v", what, n, err)
			return
		}
		c.Count("fault-free loads", 1)
		for i, w := range words {
			c.Count("probe words", 1)
			got, want := h.Hyphenate(w), spec.hyphenate(w)
			if strings.Join(got, "-") != strings.Join(want, "-") {
				c.Fail("%s: pattern %d of %d (%s) is not in force: %q is divided as %q, expected %q", what, i+1, n, lines[i], w, got, want)
				break
			}
		}
	}
	bad := func(what string, h *hyphenation.Hyphenator, err error) {
		if err == nil {
			c.Fail("%s: no error", what)
		} else if h != nil {
			c.Fail("%s: an error together with a hyphenator", what)
		}
	}
	switch c.Idx % 6 {
	case 0, 1: // whole, in pieces
		for k := 0; k < 2; k++ {
			rd := g.flaky([]byte(data), -1)
			h, err := load(rd.String(), func() (*hyphenation.Hyphenator, error) { return hyphenation.Load(rd) })
			good(rd.String(), h, err, spec, words)
		}
	case 2: // from a file
		p := filepath.Join(e.Scratch, fmt.Sprintf("pat-%d.txt", c.Idx))
		if err := os.WriteFile(p, []byte(data), 0o644); err != nil {
			c.HarnessError("%v", err)
			return
		}
		defer os.Remove(p)
		h, err := load("file", func() (*hyphenation.Hyphenator, error) { return hyphenation.LoadFromFile(p) })
		c.Count("file loads", 1)
		good("file", h, err, spec, words)
		h, err = load("missing file", func() (*hyphenation.Hyphenator, error) { return hyphenation.LoadFromFile(p + "x") })
		bad("missing file", h, err)
		h, err = load("directory", func() (*hyphenation.Hyphenator, error) { return hyphenation.LoadFromFile(e.Scratch) })
		bad("directory", h, err)
		c.Count("unreadable files", 2)
	case 3: // read faults
		var offs []int
		if len(data) < 80 {
			for k := 0; k <= len(data); k++ {
				offs = append(offs, k)
			}
		} else {
			offs = []int{0, 1, len(data) - 1, len(data), strings.LastIndex(data, "\n"), strings.LastIndex(data, "\n") + 1}
			for k := 0; k < 12; k++ {
				offs = append(offs, g.r.Intn(len(data)))
			}
		}
		for _, o := range offs {
			if o < 0 {
				continue
			}
			rd := g.flaky([]byte(data), o)
			h, err := load(rd.String(), func() (*hyphenation.Hyphenator, error) { return hyphenation.Load(rd) })
			c.Count("read faults", 1)
			if o == len(data) {
				c.Count("faults at the end", 1)
			}
			bad(rd.String(), h, err)
		}
	case 4: // overlong line
		l := []int{65535, 65536, 65537, 70000, 131072, 300000}[g.r.Intn(6)]
		long := strings.Repeat("v1w", l/3+1)[:l]
		if g.p(30) {
			long = strings.Repeat(" ", l) + "v1w"
		}
		at := []int{0, len(lines) / 2, len(lines)}[g.r.Intn(3)]
		all := append(append(append([]string{}, lines[:at]...), long), lines[at:]...)
		d := strings.Join(all, "\n")
		if g.p(50) {
			d += "\n"
		}
		rd := g.flaky([]byte(d), -1)
		if rd.mode == 1 {
			rd.mode = 0
		}
		h, err := load("overlong line", func() (*hyphenation.Hyphenator, error) { return hyphenation.Load(rd) })
		c.Count("overlong lines", 1)
		if err == nil {
			// then it must be complete
			good(fmt.Sprintf("line of %d bytes at %d accepted", l, at), h, err, newLiang(all), words)
		} else if h != nil {
			c.Fail("overlong line: an error together with a hyphenator")
		}
	case 5: // malformed pattern
		for k := 0; k < 3; k++ {
			m := g.of("a٣b", "٣", "ab٤", "a१b", "１ab", "x1y２z")
			at := []int{0, len(lines) / 2, len(lines)}[k]
			all := append(append(append([]string{}, lines[:at]...), m), lines[at:]...)
			d := strings.Join(all, "\n")
			if g.p(50) {
				d += "\n"
			}
			var h *hyphenation.Hyphenator
			var err error
			if g.p(70) {
				rd := g.flaky([]byte(d), -1)
				h, err = load("malformed", func() (*hyphenation.Hyphenator, error) { return hyphenation.Load(rd) })
			} else {
				h, err = load("malformed", func() (*hyphenation.Hyphenator, error) { return hyphenation.Load(bytes.NewBufferString(d)) })
			}
			c.Count("malformed patterns", 1)
			bad(fmt.Sprintf("malformed pattern %q as line %d of %d", m, at+1, len(all)), h, err)
		}
	}
	if c.Failed() {
		c.Attach("patterns", data)
	}
}
