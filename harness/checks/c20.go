package checks

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/mazzegi/xpdf/engine"
	"github.com/mazzegi/xpdf/font"
	"github.com/mazzegi/xpdf/hyphenation"
	"github.com/mazzegi/xpdf/style"
	"github.com/mazzegi/xpdf/xdoc"

	"verif/harness/assets"
	"verif/harness/doc"
	"verif/harness/ink"
	"verif/harness/run"
	"verif/harness/sut"
)

func init() {
	register(&run.Prop{
		ID: "C20", Quick: 420, Thorough: 9000, Run: runC20, Race: true, Shards: 6,
		Rule:        "Each case starts 3 to 8 goroutines at once that load, process and describe documents of all kinds of elements, apply style classes, hyphenate and walk font registries, sharing one hyphenator (fresh, so that its first use is concurrent), one registry, and up to two loaded documents; the engine is wrapped to yield at random calls. The binary is built with the race detector; a report ends the worker and fails the case. Every drawing, description and hyphenation must equal the one of a run on its own, made before or after. Engine calls are time-stamped per goroutine (without synchronisation, so as not to hide races) and merged afterwards to count how often goroutines took turns. Distinct: the merged order of engine calls.",
		Technique:   "Go race detector over randomised schedules plus comparison of every concurrent result with an isolated run.",
		Assumptions: []string{"the race detector sees only races of accesses that actually happen in the observed schedules"},
		Min:         map[string]int{"goroutines": 1100, "results compared": 3500, "turns": 15000, "shared documents processed": 400},
	})
}

// jitter yields at random and records when it was called.
type jitter struct {
	engine.Engine
	r  *rand.Rand
	at []time.Time
}

func (j *jitter) tick() {
	if len(j.at) < 4000 {
		j.at = append(j.at, time.Now())
	}
	switch j.r.Intn(12) {
	case 0:
		runtime.Gosched()
	case 1:
		if j.r.Intn(20) == 0 {
			time.Sleep(time.Duration(j.r.Intn(200)) * time.Microsecond)
		}
	}
}
func (j *jitter) WriteText(s string) { j.tick(); j.Engine.WriteText(s) }
func (j *jitter) ChangeFont(f style.Font) {
	j.tick()
	j.Engine.ChangeFont(f)
}
func (j *jitter) SetX(x float64) { j.tick(); j.Engine.SetX(x) }
func (j *jitter) AddPage()       { j.tick(); j.Engine.AddPage() }

func runC20(e *run.Env, c *run.Case) {
	g := newGen(c.R)
	le := env(e)
	wd := le.imageDir(e)
	fonts := c.Idx%5 == 0
	g.unicode = fonts
	type shared struct {
		d    *doc.Doc
		xml  string
		want []string
		desc string
		x    *xdoc.Document
	}
	var docs []*shared
	for k := g.rng(1, 3); k > 0; k-- {
		d := g.newDoc()
		if g.p(40) {
			g.flow(d, g.rng(1, 2))
		} else {
			g.mixed(d, g.rng(1, 4))
		}
		d.Body = append(d.Body, doc.Text(doc.S("h-align", "block", "width", "60"), doc.T(g.words(20))))
		docs = append(docs, &shared{d: d, xml: d.XML()})
	}
	// a table with spans and an image in every other case
	newHyph := hyphenation.NewEnUs
	pats := "a1b\nb1c\n.ti2\nti3on\ne1re\n1ma\n1na\n2st\n1co\n"
	if c.Idx%3 != 0 {
		newHyph = func() *hyphenation.Hyphenator {
			h, err := hyphenation.Load(strings.NewReader(pats))
			if err != nil {
				panic(err)
			}
			return h
		}
	}
	defFile := filepath.Join(le.fontDir, "fontdef.toml")
	if _, err := os.Stat(defFile); err != nil {
		t := "MonoFont = \"gosans\"\n[[Fonts]]\nName = \"gosans\"\n"
		for _, f := range assets.Fonts {
			t += fmt.Sprintf("[[Fonts.StyleDefinitions]]\nStyle = %q\nFilePath = %q\n", f.Reg, f.Name)
		}
		os.WriteFile(defFile, []byte(t), 0o644)
	}
	newReg := func() *font.Registry {
		if fonts {
			return sut.Registry(le.fontDir)
		}
		return font.NewRegistry()
	}
	var all []string
	for _, s := range docs {
		all = append(all, s.xml)
	}
	c.Smp = compact(strings.Join(all, "\n"))
	for i, x := range all {
		c.Attach(fmt.Sprintf("document %d", i), x)
	}
	draw := func(res *sut.Result) ([]string, string) {
		if f := res.Failed(); f != "" {
			return nil, f
		}
		in, err := res.Ink()
		if err != nil {
			return nil, err.Error()
		}
		return everything(in, ink.Words(in, le.metrics(fonts))), ""
	}
	words := strings.Split(g.words(40), " ")
	var wantHyph []string
	solo := func() bool {
		h := newHyph()
		for _, w := range words {
			wantHyph = append(wantHyph, strings.Join(h.Hyphenate(w), "|"))
		}
		for i, s := range docs {
			res := sut.Render(s.xml, sut.Opts{Hyph: newHyph(), WD: wd, Registry: newReg()})
			var bad string
			if s.want, bad = draw(res); bad != "" {
				c.Fail("document %d on its own: %s", i, bad)
				return false
			}
			s.desc = xdoc.Describe(res.Doc).Dump(xdoc.DescribeJSON)
		}
		return true
	}
	first := g.p(50)
	if first && !solo() {
		return
	}
	hyph, reg := newHyph(), newReg()
	for _, s := range docs {
		if g.p(70) {
			x, err := xdoc.Load(strings.NewReader(s.xml))
			if err != nil {
				c.Fail("a valid document is rejected: %v", err)
				return
			}
			s.x = x
		}
	}
	type result struct {
		doc  int
		pdf  *sut.Result
		desc string
		hyph []string
		bad  string
		op   string
	}
	type worker struct {
		ops []string
		on  []int
		r   *rand.Rand
		res []result
		at  []time.Time
	}
	var ws []*worker
	for k := g.rng(3, 8); k > 0; k-- {
		w := &worker{r: rand.New(rand.NewSource(c.R.Int63()))}
		for i := g.rng(1, 4); i > 0; i-- {
			w.ops = append(w.ops, g.of("process", "process", "process", "describe", "hyphenate", "registry", "load"))
			w.on = append(w.on, g.r.Intn(len(docs)))
		}
		ws = append(ws, w)
	}
	start := make(chan struct{})
	var wg sync.WaitGroup
	for _, w := range ws {
		wg.Add(1)
		go func(w *worker) {
			defer wg.Done()
			<-start
			for i, op := range w.ops {
				s := docs[w.on[i]]
				r := result{doc: w.on[i], op: op}
				switch op {
				case "process":
					j := &jitter{r: w.r}
					o := sut.Opts{Hyph: hyph, WD: wd, Registry: reg, Engine: func(e engine.Engine) engine.Engine { j.Engine = e; return j }}
					var res *sut.Result
					if s.x != nil {
						r.op = "process shared"
						res = sut.Process(s.x, o)
					} else {
						res = sut.Render(s.xml, o)
					}
					r.pdf = res
					w.at = append(w.at, j.at...)
				case "describe", "load":
					r.bad = sut.Protect(func() {
						x := s.x
						if x == nil || op == "load" {
							var err error
							if x, err = xdoc.Load(strings.NewReader(s.xml)); err != nil {
								r.bad = err.Error()
								return
							}
						}
						desc := xdoc.Describe(x)
						r.desc = desc.Dump(xdoc.DescribeJSON)
						desc.Dump(xdoc.DescribeXML)
					})
				case "hyphenate":
					r.bad = sut.Protect(func() {
						for _, x := range words {
							r.hyph = append(r.hyph, strings.Join(hyph.Hyphenate(x), "|"))
						}
					})
				case "registry":
					r.bad = sut.Protect(func() {
						n := 0
						reg.Each(func(font.Descriptor) error { n++; return nil })
						reg.MonoFont()
						if fonts && n != len(assets.Fonts) {
							r.bad = fmt.Sprintf("%d fonts in the registry", n)
						}
						r2, err := font.LoadRegistryFromFile(defFile)
						if err != nil {
							r.bad = err.Error()
							return
						}
						n = 0
						r2.Each(func(font.Descriptor) error { n++; return nil })
						if n != len(assets.Fonts) {
							r.bad = fmt.Sprintf("%d fonts loaded", n)
						}
						if _, err := style.DecodeClasses(bytes.NewReader([]byte("a {width: 1} a:first-row {height: 2}"))); err != nil {
							r.bad = err.Error()
						}
					})
				}
				w.res = append(w.res, r)
			}
		}(w)
	}
	close(start)
	wg.Wait()
	if !first && !solo() {
		return
	}
	type ev struct {
		t time.Time
		w int
	}
	var evs []ev
	for i, w := range ws {
		c.Count("goroutines", 1)
		for _, t := range w.at {
			evs = append(evs, ev{t, i})
		}
		for _, r := range w.res {
			c.Count("results compared", 1)
			s := docs[r.doc]
			if r.op == "process shared" {
				c.Count("shared documents processed", 1)
			}
			if r.bad != "" {
				c.Fail("%s document %d among others: %s", r.op, r.doc, r.bad)
				continue
			}
			if r.pdf != nil {
				drawn, bad := draw(r.pdf)
				if bad != "" {
					c.Fail("%s document %d among others: %s", r.op, r.doc, bad)
				} else if d := firstDiff(s.want, drawn); d != "" {
					c.Fail("%s: document %d is drawn differently among others: %s", r.op, r.doc, d)
				}
			}
			if r.desc != "" && r.desc != s.desc {
				c.Fail("%s: document %d is described differently among others", r.op, r.doc)
			}
			if r.hyph != nil {
				if d := firstDiff(wantHyph, r.hyph); d != "" {
					c.Fail("a word is hyphenated differently among others: %s", d)
				}
			}
		}
	}
	sort.SliceStable(evs, func(i, j int) bool { return evs[i].t.Before(evs[j].t) })
	var order strings.Builder
	turns := 0
	for i, v := range evs {
		if i > 0 && evs[i-1].w != v.w {
			turns++
			fmt.Fprintf(&order, "%d,", v.w)
		}
	}
	c.Count("turns", turns)
	c.Count("engine events", len(evs))
	c.Signature(append(all, order.String())...)
	c.Triv = len(ws) < 2 || turns == 0
}
