// Package run shards the cases of a property over worker processes, collects
// what the monitors observed and decides the verdict.
package run

import (
	"bufio"
	"crypto/sha1"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type Prop struct {
	ID              string
	Quick, Thorough int
	Rule            string
	Technique       string
	Assumptions     []string
	Init            func(e *Env) error
	Run             func(e *Env, c *Case)
	// Min are counters every complete run must reach, otherwise the run observed
	// too little to say anything (quick tier numbers).
	Min map[string]int
	// Shards limits the number of worker processes (0: one per core).
	Shards int
	// CrashIsViolation: the process dying on a case breaks this property.
	Race bool
}

type Env struct {
	Tier    string
	Seed    int64
	Scratch string // per worker
	Race    bool
	Vars    map[string]interface{}
}

type Case struct {
	Idx   int
	R     *rand.Rand
	Msgs  []string
	Key   string
	Att   map[string]string
	Cnt   map[string]int
	Sig   string
	Triv  bool
	Incon string
	HErr  string
	Smp   string
}

func (c *Case) Fail(format string, a ...interface{}) {
	if len(c.Msgs) < 12 {
		c.Msgs = append(c.Msgs, fmt.Sprintf(format, a...))
	}
}
func (c *Case) Failed() bool                            { return len(c.Msgs) > 0 }
func (c *Case) Count(name string, n int)                { c.Cnt[name] += n }
func (c *Case) Attach(name, text string)                { c.Att[name] = text }
func (c *Case) Inconclusive(s string)                   { c.Incon = s }
func (c *Case) HarnessError(f string, a ...interface{}) { c.HErr = fmt.Sprintf(f, a...) }
func (c *Case) Signature(parts ...string)               { c.Sig = Hash(strings.Join(parts, "\x00")) }

func Hash(s string) string {
	h := sha1.Sum([]byte(s))
	return hex.EncodeToString(h[:8])
}

type record struct {
	Idx   int               `json:"i"`
	Start bool              `json:"s,omitempty"`
	Msgs  []string          `json:"m,omitempty"`
	Key   string            `json:"k,omitempty"`
	Att   map[string]string `json:"a,omitempty"`
	Cnt   map[string]int    `json:"c,omitempty"`
	Sig   string            `json:"g,omitempty"`
	Triv  bool              `json:"t,omitempty"`
	Incon string            `json:"n,omitempty"`
	HErr  string            `json:"h,omitempty"`
	Smp   string            `json:"p,omitempty"`
	Done  bool              `json:"d,omitempty"`
}

func caseSeed(seed int64, prop string, idx int) int64 {
	h := sha1.Sum([]byte(fmt.Sprintf("%d/%s/%d", seed, prop, idx)))
	var v int64
	for _, b := range h[:8] {
		v = v<<8 | int64(b)
	}
	return v
}

func RunCase(p *Prop, e *Env, idx int) *Case {
	c := &Case{Idx: idx, R: rand.New(rand.NewSource(caseSeed(e.Seed, p.ID, idx))), Att: map[string]string{}, Cnt: map[string]int{}}
	func() {
		defer func() {
			if v := recover(); v != nil {
				c.HErr = fmt.Sprintf("harness panic: %v\n%s", v, debug.Stack())
			}
		}()
		p.Run(e, c)
	}()
	return c
}

// Worker runs the cases idx = shard, shard+of, ... below n, starting at from.
func Worker(p *Prop, e *Env, shard, of, n, from int, out string) error {
	debug.SetMaxStack(128 << 20)
	f, err := os.OpenFile(out, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
	if err != nil {
		return err
	}
	defer f.Close()
	put := func(r record) {
		b, _ := json.Marshal(r)
		f.Write(append(b, '\n'))
	}
	if p.Init != nil {
		if err := p.Init(e); err != nil {
			return err
		}
	}
	for i := shard; i < n; i += of {
		if i < from {
			continue
		}
		put(record{Idx: i, Start: true})
		c := RunCase(p, e, i)
		r := record{Idx: i, Msgs: c.Msgs, Key: c.Key, Cnt: c.Cnt, Sig: c.Sig, Triv: c.Triv, Incon: c.Incon, HErr: c.HErr, Done: true}
		if len(c.Msgs) > 0 {
			r.Att = c.Att
		}
		if i < 16 {
			r.Smp = c.Smp
		}
		put(r)
	}
	return nil
}

type Verdict struct {
	Code int
}

type Config struct {
	VerifDir string
	Tier     string
	Seed     int64
	Self     string
	Limit    int
}

// Main is the parent side.
func Main(p *Prop, cfg Config) int {
	t0 := time.Now()
	n := p.Quick
	if cfg.Tier == "thorough" {
		n = p.Thorough
	}
	if cfg.Limit > 0 {
		n = cfg.Limit
	}
	shards := p.Shards
	if shards == 0 {
		shards = 8
	}
	if shards > n {
		shards = n
	}
	tmp, err := os.MkdirTemp("", "vrun-"+p.ID+"-")
	if err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	defer os.RemoveAll(tmp)

	type crash struct {
		idx    int
		stderr string
		hang   bool
	}
	var mu sync.Mutex
	var recs []record
	var crashes []crash
	var errs []string
	var wg sync.WaitGroup
	stop := false
	for s := 0; s < shards; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			from := 0
			for attempt := 0; attempt < 4; attempt++ {
				mu.Lock()
				st := stop
				mu.Unlock()
				if st {
					return
				}
				out := filepath.Join(tmp, fmt.Sprintf("out-%d-%d", s, attempt))
				scratch := filepath.Join(tmp, fmt.Sprintf("scratch-%d-%d", s, attempt))
				os.MkdirAll(scratch, 0o755)
				errFile := filepath.Join(tmp, fmt.Sprintf("err-%d-%d", s, attempt))
				ef, _ := os.Create(errFile)
				cmd := exec.Command(cfg.Self, "-worker", "-prop", p.ID, "-tier", cfg.Tier, "-seed", strconv.FormatInt(cfg.Seed, 10),
					"-shard", strconv.Itoa(s), "-of", strconv.Itoa(shards), "-n", strconv.Itoa(n), "-from", strconv.Itoa(from), "-out", out, "-scratch", scratch)
				cmd.Stderr = ef
				cmd.Stdout = nil
				cmd.Dir = scratch
				cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "GOMEMLIMIT=3GiB", "GORACE=halt_on_error=1 exitcode=66 history_size=3")
				cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
				if err := cmd.Start(); err != nil {
					mu.Lock()
					errs = append(errs, err.Error())
					mu.Unlock()
					return
				}
				done := make(chan error, 1)
				go func() { done <- cmd.Wait() }()
				var werr error
				hang := false
				lastSize, lastMove := int64(-1), time.Now()
				var cpu0 float64
			wait:
				for {
					select {
					case werr = <-done:
						break wait
					case <-time.After(500 * time.Millisecond):
						if fi, err := os.Stat(out); err == nil && fi.Size() != lastSize {
							lastSize, lastMove = fi.Size(), time.Now()
							cpu0 = cpuSeconds(cmd.Process.Pid)
						} else if cpuSeconds(cmd.Process.Pid)-cpu0 > 50 {
							hang = true
							cmd.Process.Kill()
						} else if time.Since(lastMove) > 300*time.Second {
							mu.Lock()
							errs = append(errs, fmt.Sprintf("worker %d made no progress for 300 s", s))
							stop = true
							mu.Unlock()
							cmd.Process.Kill()
						}
					}
				}
				ef.Close()
				rs, last := readRecs(out)
				mu.Lock()
				recs = append(recs, rs...)
				mu.Unlock()
				if werr == nil {
					os.RemoveAll(scratch)
					return
				}
				eb, _ := os.ReadFile(errFile)
				es := tail(string(eb), 4000)
				mu.Lock()
				if last < 0 {
					errs = append(errs, fmt.Sprintf("worker %d failed before any case: %v %s", s, werr, es))
					mu.Unlock()
					return
				}
				crashes = append(crashes, crash{last, es, hang})
				mu.Unlock()
				from = last + 1
			}
		}(s)
	}
	wg.Wait()

	// verdict
	known := loadKnown(filepath.Join(cfg.VerifDir, "known_findings.txt"))
	sort.Slice(recs, func(i, j int) bool { return recs[i].Idx < recs[j].Idx })
	cnt := map[string]int{}
	sigs := map[string]bool{}
	evals, nontriv, incon := 0, 0, 0
	inconWhy := map[string]int{}
	var samples []string
	type viol struct {
		rec  record
		note string
	}
	var viols []viol
	for _, r := range recs {
		if !r.Done {
			continue
		}
		evals++
		for k, v := range r.Cnt {
			cnt[k] += v
		}
		if r.HErr != "" {
			errs = append(errs, fmt.Sprintf("case %d: %s", r.Idx, r.HErr))
			continue
		}
		if r.Smp != "" && len(samples) < 4 {
			s := r.Smp
			if len(s) > 2500 {
				s = s[:2500] + "…"
			}
			samples = append(samples, fmt.Sprintf("case %d: %s", r.Idx, s))
		}
		if r.Incon != "" {
			incon++
			inconWhy[r.Incon]++
			continue
		}
		if !r.Triv && r.Sig != "" && !sigs[r.Sig] {
			sigs[r.Sig] = true
			nontriv++
		}
		if len(r.Msgs) > 0 {
			viols = append(viols, viol{rec: r})
		}
	}
	for _, c := range crashes {
		what := "the process died on this case"
		if c.hang {
			what = "no progress: more than 50 s of CPU time (or 300 s) on this one case"
		}
		viols = append(viols, viol{rec: record{Idx: c.idx, Msgs: []string{what, c.stderr}, Key: "crash"}})
	}
	code := 0
	os.MkdirAll(filepath.Join(cfg.VerifDir, "replays"), 0o755)
	printed := 0
	knownSeen := map[string]bool{}
	nv := 0
	for _, v := range viols {
		if v.rec.Key != "" {
			if d, ok := known[p.ID+" "+v.rec.Key]; ok {
				if !knownSeen[v.rec.Key] {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, d)
					knownSeen[v.rec.Key] = true
				}
				continue
			}
		}
		nv++
		code = 1
		if printed >= 5 {
			continue
		}
		printed++
		path := filepath.Join(cfg.VerifDir, "replays", fmt.Sprintf("%s-%s-%d.json", p.ID, cfg.Tier, v.rec.Idx))
		rb, _ := json.MarshalIndent(map[string]interface{}{
			"property": p.ID, "seed": cfg.Seed, "tier": cfg.Tier, "case": v.rec.Idx, "messages": v.rec.Msgs, "attachments": v.rec.Att,
			"rerun": fmt.Sprintf("VERIF_SEED=%d ./check.sh %s %s -case %d", cfg.Seed, p.ID, cfg.Tier, v.rec.Idx),
		}, "", " ")
		os.WriteFile(path, rb, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		for _, m := range v.rec.Msgs {
			fmt.Printf("  case %d: %s\n", v.rec.Idx, m)
		}
	}
	if code == 0 {
		for k, min := range p.Min {
			if cfg.Limit > 0 {
				break
			}
			if cnt[k] < min {
				errs = append(errs, fmt.Sprintf("monitor observed only %d %s, expected at least %d", cnt[k], k, min))
			}
		}
		if evals > 0 && incon*3 > evals {
			errs = append(errs, fmt.Sprintf("%d of %d cases inconclusive: %v", incon, evals, inconWhy))
		}
		if evals < n {
			errs = append(errs, fmt.Sprintf("only %d of %d cases ran", evals, n))
		}
	}
	for i, e := range errs {
		if i > 5 {
			break
		}
		fmt.Println("ERROR:", e)
	}
	if code == 0 && len(errs) > 0 {
		code = 2
	}
	if len(samples) == 0 {
		samples = append(samples, "none recorded")
	}
	wall := time.Since(t0).Seconds()
	ev := map[string]interface{}{
		"property": p.ID, "tier": cfg.Tier, "seed": cfg.Seed, "level": "exploration",
		"coverage": map[string]interface{}{
			"evaluations": evals, "distinct_nontrivial": nontriv, "rule": p.Rule, "samples": samples,
			"observed": cnt, "inconclusive": incon, "inconclusive_reasons": inconWhy,
			"explanation": p.Technique,
		},
		"assumptions": p.Assumptions,
		"wall_s":      wall,
		"violations":  nv,
	}
	eb, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(cfg.VerifDir, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(cfg.VerifDir, "evidence", p.ID+".json"), append(eb, '\n'), 0o644); err != nil {
		fmt.Println("ERROR:", err)
		if code == 0 {
			code = 2
		}
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d distinct non-trivial, %d inconclusive, %d violating, %.1fs\n", p.ID, cfg.Tier, cfg.Seed, evals, nontriv, incon, nv, wall)
	var ks []string
	for k := range cnt {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("  observed %-32s %d\n", k, cnt[k])
	}
	return code
}

func readRecs(path string) (rs []record, last int) {
	last = -1
	f, err := os.Open(path)
	if err != nil {
		return
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 64<<20)
	for sc.Scan() {
		var r record
		if json.Unmarshal(sc.Bytes(), &r) != nil {
			continue
		}
		if r.Start {
			last = r.Idx
		}
		if r.Done {
			rs = append(rs, r)
		}
	}
	return
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n…\n" + s[len(s)-n/2:]
	}
	return s
}

// cpuSeconds is the CPU time of a child we started.
func cpuSeconds(pid int) float64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	s := string(b)
	if i := strings.LastIndexByte(s, ')'); i >= 0 {
		f := strings.Fields(s[i+1:])
		if len(f) > 13 {
			u, _ := strconv.ParseFloat(f[11], 64)
			k, _ := strconv.ParseFloat(f[12], 64)
			return (u + k) / 100
		}
	}
	return 0
}

// loadKnown reads "known: property=<id> key=<key> <what>" lines.
func loadKnown(path string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: "), " ", 3)
		if len(f) == 3 && strings.HasPrefix(f[0], "property=") && strings.HasPrefix(f[1], "key=") {
			out[strings.TrimPrefix(f[0], "property=")+" "+strings.TrimPrefix(f[1], "key=")] = f[2]
		}
	}
	return out
}
