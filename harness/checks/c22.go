package checks

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/mazzegi/xpdf/text"

	"verif/harness/run"
	"verif/harness/sut"
)

func init() {
	register(&run.Prop{
		ID: "C22", Quick: 160000, Thorough: 1920000, Run: runC22, Init: func(*run.Env) error { return nil },
		Rule:      "Each case draws a string over blanks, tabs, line feeds, carriage returns, backslashes, letters, no-break and other Unicode spaces, control characters, multi-byte and astral characters (0 to 60 characters; every 400th case up to 300000 characters with very long runs) and normalises it; a second family collapses repetitions of 1 to 4 character strings. Results are compared with a character by character model and checked for idempotence, order preservation and the absence of adjacent repetitions. Non-trivial: the string contains white space next to white space, an end or a backslash (or an adjacent repetition).",
		Technique: "Runtime comparison of every result with an executable character level model, plus model-free idempotence and conservation monitors.",
		Min:       map[string]int{"normalised": 20000, "collapsed": 15000, "with backslash": 8000, "long strings": 80, "repetitions removed": 8000, "idempotence": 20000, "self-overlapping": 2000},
	})
}

// normModel works on one pass over the characters.
func normModel(s string) string {
	var out []rune
	blank := false
	for _, r := range s {
		switch r {
		case ' ', '\t', '\n', '\r':
			blank = true
			continue
		}
		if blank && len(out) > 0 && r != '\\' && out[len(out)-1] != '\\' {
			out = append(out, ' ')
		}
		blank = false
		out = append(out, r)
	}
	return string(out)
}

func solid(s string) string {
	return strings.Map(func(r rune) rune {
		if r == ' ' || r == '\t' || r == '\n' || r == '\r' {
			return -1
		}
		return r
	}, s)
}

var c22chars = []string{" ", " ", " ", "\t", "\n", "\r", "\r\n", "\\", "\\", "a", "b", "Z", "0", ".", "'", "/", "\u00a0", "\u2003", "\u200b", "\u3000", "\v", "\f", "\x00", "\u0085", "é", "ж", "語", "\U0001f600", "\ufeff", "e\u0301", "-", "n", "t"}

func runC22(e *run.Env, c *run.Case) {
	g := newGen(c.R)
	guard := func(what string, f func()) bool {
		if p := sut.Protect(f); p != "" {
			c.Fail("%s: panic: %s", what, p)
			return false
		}
		return true
	}
	if c.Idx%2 == 0 {
		var b strings.Builder
		n := g.rng(0, 60)
		if c.Idx%400 == 0 {
			n = g.rng(1000, 100000)
			c.Count("long strings", 1)
		}
		for ; n > 0; n-- {
			k := 1
			if g.p(10) {
				k = g.rng(2, 9)
			}
			ch := c22chars[g.r.Intn(len(c22chars))]
			if c.Idx%400 == 0 && g.r.Intn(3000) == 0 {
				k = g.rng(1000, 70000)
			}
			for ; k > 0; k-- {
				b.WriteString(ch)
			}
		}
		s := b.String()
		if !utf8.ValidString(s) {
			c.HarnessError("invalid string")
			return
		}
		c.Signature(s)
		c.Smp = fmt.Sprintf("%.80q", s)
		var got, again string
		if !guard("WhitespaceRectified", func() { got = text.WhitespaceRectified(s); again = text.WhitespaceRectified(got) }) {
			c.Attach("text", s)
			return
		}
		want := normModel(s)
		c.Triv = want == s
		c.Count("normalised", 1)
		if strings.Contains(s, "\\") {
			c.Count("with backslash", 1)
		}
		if got != want {
			c.Fail("normalising %.200q gives %.200q, expected %.200q", s, got, want)
		}
		if solid(got) != solid(s) {
			c.Fail("normalising %.200q changes other characters: %.200q", s, got)
		}
		c.Count("idempotence", 1)
		if again != got {
			c.Fail("normalising %.200q twice gives %.200q after %.200q", s, again, got)
		}
		if c.Failed() {
			c.Attach("text", s)
		}
		return
	}
	// repetitions
	twin := g.of(" ", "a", "-", "é", "語", "\U0001f600", "ab", "aab", "aa", "aba", "a ", "\\", "\n", "xyxy", "éa")
	overlap := false
	for k := 1; k < len(twin); k++ {
		if strings.HasPrefix(twin, twin[k:]) {
			overlap = true
		}
	}
	var b strings.Builder
	n := g.rng(0, 25)
	if c.Idx%400 == 1 {
		n = g.rng(1000, 20000)
		c.Count("long strings", 1)
	}
	for ; n > 0; n-- {
		if g.p(45) {
			k := g.rng(1, 6)
			if c.Idx%400 == 1 && g.r.Intn(2000) == 0 {
				k = g.rng(1000, 60000)
			}
			for ; k > 0; k-- {
				b.WriteString(twin)
			}
		} else {
			b.WriteString(g.of("a", "b", "é", " ", "x", "y", "-", "語", "\\", "z"))
		}
	}
	s := b.String()
	c.Signature(twin, s)
	c.Smp = fmt.Sprintf("%q in %.80q", twin, s)
	var got, again string
	if !guard("RemoveTwins", func() { got = text.RemoveTwins(s, twin); again = text.RemoveTwins(got, twin) }) {
		c.Attach("text", s)
		return
	}
	c.Count("collapsed", 1)
	if strings.Contains(got, twin+twin) {
		c.Fail("after collapsing %q in %.200q two of them are still adjacent: %.200q", twin, s, got)
	}
	if again != got {
		c.Fail("collapsing %q in %.200q twice gives %.200q after %.200q", twin, s, again, got)
	}
	if overlap {
		c.Count("self-overlapping", 1)
		c.Triv = s == got
	} else {
		// runs of the string become one
		var w strings.Builder
		rest := s
		for rest != "" {
			if strings.HasPrefix(rest, twin) {
				w.WriteString(twin)
				for strings.HasPrefix(rest, twin) {
					rest = rest[len(twin):]
				}
				continue
			}
			_, k := utf8.DecodeRuneInString(rest)
			w.WriteString(rest[:k])
			rest = rest[k:]
		}
		want := w.String()
		c.Triv = want == s
		if want != s {
			c.Count("repetitions removed", 1)
		}
		if got != want {
			c.Fail("collapsing %q in %.200q gives %.200q, expected %.200q", twin, s, got, want)
		}
	}
	if c.Failed() {
		c.Attach("text", s)
		c.Attach("twin", twin)
	}
}
