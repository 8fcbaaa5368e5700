package checks

import (
	"fmt"
	"strings"
	"unicode"

	"github.com/mazzegi/xpdf/hyphenation"

	"verif/harness/assets"
	"verif/harness/run"
	"verif/harness/sut"
)

func init() {
	register(&run.Prop{
		ID: "C15", Quick: 45000, Thorough: 540000, Run: runC15, Init: initC15,
		Rule:      "Two thirds of the cases hyphenate words with the two built-in sets: every built-in pattern is put into words of its own (all patterns are visited in every run), besides random words, upper and mixed case, apostrophes, digits, dots, other scripts, and lengths around 2, 3, 99, 100 and 101. The others load random pattern sets (weights 0-9 in all places, dots, multi-byte letters, patterns longer than words) and hyphenate words over the same letters. Every result is compared with an independent implementation of Liang's algorithm over the same patterns, checked for losslessness and non-empty parts, and repeated after other words and with a second hyphenator. Non-trivial: at least one word divided.",
		Technique: "Runtime comparison of every result with an executable specification (Liang's algorithm), plus model-free losslessness and repeatability monitors.",
		Min:       map[string]int{"words": 150000, "divided words": 90000, "breaks": 150000, "built-in patterns exercised": 40000, "words at a length limit": 9000, "random pattern sets": 2500, "non-ASCII words": 20000, "repetitions": 40000},
	})
}

// liang is the specification: pattern letters with the weights between them.
type liang struct {
	pats   map[string][]int
	maxLen int
}

func newLiang(lines []string) *liang {
	l := &liang{pats: map[string][]int{}}
	for _, s := range lines {
		s = strings.TrimSpace(s)
		if s == "" {
			continue
		}
		var letters []rune
		ws := []int{0}
		for _, r := range s {
			if r >= '0' && r <= '9' {
				ws[len(ws)-1] = int(r - '0')
				continue
			}
			letters = append(letters, r)
			ws = append(ws, 0)
		}
		l.pats[string(letters)] = ws
		if len(letters) > l.maxLen {
			l.maxLen = len(letters)
		}
	}
	return l
}

func (l *liang) hyphenate(word string) []string {
	rs := []rune(word)
	n := len(rs)
	if n < 3 || n > 100 || strings.ContainsRune(word, ' ') {
		return []string{word}
	}
	dotted := make([]rune, 0, n+2)
	dotted = append(dotted, '.')
	for _, r := range rs {
		dotted = append(dotted, unicode.ToLower(r))
	}
	dotted = append(dotted, '.')
	best := make([]int, len(dotted)+1) // weight before dotted[i]
	for i := range dotted {
		for k := i + 1; k <= len(dotted) && k-i <= l.maxLen; k++ {
			for o, w := range l.pats[string(dotted[i:k])] {
				if best[i+o] < w {
					best[i+o] = w
				}
			}
		}
	}
	var parts []string
	start := 0
	for pos := 2; pos <= n-2; pos++ { // break before rs[pos]
		if best[pos+1]%2 == 1 && pos-start >= 2 {
			parts = append(parts, string(rs[start:pos]))
			start = pos
		}
	}
	return append(parts, string(rs[start:]))
}

type hyphEnv struct {
	lines [2][]string
	spec  [2]*liang
	sut   [2]*hyphenation.Hyphenator
}

func initC15(e *run.Env) error {
	h := &hyphEnv{}
	for i, s := range []string{assets.EnUs, assets.Latin} {
		for _, l := range strings.Split(s, "\n") {
			if l = strings.TrimSpace(l); l != "" {
				h.lines[i] = append(h.lines[i], l)
			}
		}
		h.spec[i] = newLiang(h.lines[i])
	}
	h.sut[0], h.sut[1] = hyphenation.NewEnUs(), hyphenation.NewLatin()
	e.Vars["hyph"] = h
	return nil
}

func letters(p string) string {
	return strings.Map(func(r rune) rune {
		if r >= '0' && r <= '9' || r == '.' {
			return -1
		}
		return r
	}, p)
}

// foldings are the runes that become a rune in lower case (there may be several).
var foldings = func() map[rune][]rune {
	m := map[rune][]rune{}
	for r := rune(1); r < 0x20000; r++ {
		if l := unicode.ToLower(r); l != r {
			m[l] = append(m[l], r)
		}
	}
	return m
}()

func (g *gen) anyWord() string {
	switch g.r.Intn(12) {
	case 0:
		return g.of("", "a", "ab", "abc", "ä", "äb", "Äbc", "日本", "日本語", "-", "--", "...", ".a.", "1", "a1b2c3")
	case 1: // around the limit
		n := g.of("98", "99", "100", "101", "102")
		var k int
		fmt.Sscan(n, &k)
		var b strings.Builder
		for b.Len() < k {
			b.WriteString(syll[g.r.Intn(len(syll))])
		}
		return b.String()[:k]
	case 2: // around the limit, multi byte
		k := g.rng(97, 103)
		rs := []rune{}
		for len(rs) < k {
			rs = append(rs, []rune(g.of(syll...)+g.of(uniSyll...))...)
		}
		return string(rs[:k])
	case 3:
		return g.of(syll...) + g.of("'", "’", "-", "_", "\u00ad", "/", ".", "\U0001f600", "́") + g.of(syll...) + g.of(syll...) + g.of(uniSyll...)
	case 4:
		return g.of(syll...) + g.of(syll...) + " " + g.of(syll...) + g.of(syll...)
	case 5:
		w := ""
		for k := g.rng(2, 8); k > 0; k-- {
			w += g.of(uniSyll...) + g.of(syll...)
		}
		return w
	}
	w := ""
	for k := g.rng(1, 8); k > 0; k-- {
		w += g.of(syll...)
	}
	switch g.r.Intn(6) {
	case 0:
		w = strings.ToUpper(w)
	case 1:
		w = strings.ToUpper(w[:1]) + w[1:]
	case 2:
		b := []byte(w)
		for i := range b {
			if g.p(40) {
				b[i] = strings.ToUpper(string(b[i]))[0]
			}
		}
		w = string(b)
	}
	return w
}

func judgeWord(c *run.Case, what string, h *hyphenation.Hyphenator, spec *liang, w string) []string {
	var got []string
	if p := sut.Protect(func() { got = h.Hyphenate(w) }); p != "" {
		c.Fail("%s: hyphenating %q: panic: %s", what, w, p)
		return nil
	}
	c.Count("words", 1)
	if strings.Join(got, "") != w {
		c.Fail("%s: the parts %q do not make %q", what, got, w)
	}
	for _, p := range got {
		if p == "" && w != "" {
			c.Fail("%s: %q has an empty part: %q", what, w, got)
		}
	}
	want := spec.hyphenate(w)
	if strings.Join(got, "\x00") != strings.Join(want, "\x00") {
		c.Fail("%s: %q is divided as %q, the patterns say %q", what, w, got, want)
	}
	n := len([]rune(w))
	switch n {
	case 2, 3, 100, 101:
		c.Count("words at a length limit", 1)
	}
	if n != len(w) {
		c.Count("non-ASCII words", 1)
	}
	if len(want) > 1 {
		c.Count("divided words", 1)
		c.Count("breaks", len(want)-1)
		c.Triv = false
	}
	return got
}

func runC15(e *run.Env, c *run.Case) {
	g := newGen(c.R)
	h := e.Vars["hyph"].(*hyphEnv)
	c.Triv = true
	var hy *hyphenation.Hyphenator
	var spec *liang
	var words []string
	var what, patterns string
	switch c.Idx % 3 {
	case 0, 1:
		// built-in
		set := 0
		if c.Idx%12 == 1 {
			set = 1
		}
		what = []string{"en-us", "latin"}[set]
		hy, spec = h.sut[set], h.spec[set]
		var ps []string
		if n := len(h.lines[set]); set == 0 {
			for k := 0; k < 6; k++ { // 2/3 * 4000 cases * 6 patterns visit all
				ps = append(ps, h.lines[set][((c.Idx/3*2+c.Idx%3)*6+k)%n], h.lines[set][g.r.Intn(n)])
			}
		} else {
			for k := 0; k < 12; k++ {
				ps = append(ps, h.lines[set][(c.Idx/12*12+k)%n])
			}
		}
		for _, p := range ps {
			l := letters(p)
			c.Count("built-in patterns exercised", 1)
			start, end := strings.HasPrefix(p, "."), strings.HasSuffix(p, ".")
			for v := 0; v < 2; v++ {
				w := l
				if !start {
					w = g.of(syll...) + w
				}
				if !end {
					w += g.of(syll...)
				}
				words = append(words, w)
			}
		}
		for k := 0; k < 8; k++ {
			words = append(words, g.anyWord())
		}
		patterns = fmt.Sprint(ps)
	default:
		what = "random set"
		c.Count("random pattern sets", 1)
		alpha := []rune(g.of("ab", "abc", "aäb", "xyzé", "ßkiå", "дажb", "語ab", "語言字", "\U0001f600語é", "aeiou-", "a.b"))
		var lines, long []string
		seen := map[string]bool{}
		for k := g.rng(1, 25); k > 0; k-- {
			var letters, p []rune
			n := g.rng(1, 5)
			if g.p(5) {
				n = g.rng(6, 30)
			}
			dig := func() {
				if g.p(45) {
					p = append(p, rune('0'+g.r.Intn(10)))
				}
			}
			if g.p(20) {
				dig()
				p = append(p, '.')
				letters = append(letters, '.')
			}
			for ; n > 0; n-- {
				dig()
				r := alpha[g.r.Intn(len(alpha))]
				p = append(p, r)
				letters = append(letters, r)
			}
			dig()
			if g.p(15) {
				p = append(p, '.')
				letters = append(letters, '.')
			}
			if len(letters) > 12 {
				long = append(long, strings.ReplaceAll(string(letters), ".", ""))
			}
			if seen[string(letters)] {
				continue
			}
			seen[string(letters)] = true
			lines = append(lines, string(p))
		}
		patterns = strings.Join(lines, g.of("\n", "\n\n", "\r\n", " \n\t"))
		if g.p(70) {
			patterns += "\n"
		}
		var err error
		if p := sut.Protect(func() { hy, err = hyphenation.Load(strings.NewReader(patterns)) }); p != "" || err != nil {
			c.Fail("loading patterns %q: %s%v", patterns, p, err)
			return
		}
		spec = newLiang(lines)
		for k := 0; k < 24; k++ {
			var w []rune
			n := g.rng(2, 12)
			if g.p(8) {
				n = g.rng(96, 104)
			}
			if len(long) > 0 && g.p(30) {
				// long patterns only count in words that hold them
				w = []rune(long[g.r.Intn(len(long))])
				if n = g.r.Intn(8); n > 0 && g.p(50) {
					w = append([]rune{alpha[g.r.Intn(len(alpha))]}, w...)
				}
				c.Count("words for long patterns", 1)
			}
			for ; n > 0; n-- {
				r := alpha[g.r.Intn(len(alpha))]
				if g.p(15) {
					r = unicode.ToUpper(r)
				} else if v := foldings[r]; len(v) > 0 && g.p(15) {
					r = v[g.r.Intn(len(v))]
				}
				w = append(w, r)
			}
			words = append(words, string(w))
		}
	}
	c.Signature(patterns, strings.Join(words, " "))
	c.Smp = fmt.Sprintf("%s: %s", what, strings.Join(words, " "))
	var first [][]string
	for _, w := range words {
		first = append(first, judgeWord(c, what, hy, spec, w))
	}
	// again, after other words, in another order
	for _, i := range g.r.Perm(len(words))[:len(words)/3] {
		again := hy.Hyphenate(words[i])
		c.Count("repetitions", 1)
		if strings.Join(again, "\x00") != strings.Join(first[i], "\x00") {
			c.Fail("%s: %q is divided as %q first and as %q later", what, words[i], first[i], again)
		}
	}
	if c.Failed() {
		c.Attach("patterns", patterns)
		c.Attach("words", strings.Join(words, "\n"))
	}
}
