// vrun decides one property of github.com/mazzegi/xpdf.
package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"strconv"

	"verif/harness/checks"
	"verif/harness/run"
)

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "", "quick or thorough")
	seed := flag.Int64("seed", -1, "seed")
	worker := flag.Bool("worker", false, "")
	shard := flag.Int("shard", 0, "")
	of := flag.Int("of", 1, "")
	n := flag.Int("n", 0, "")
	from := flag.Int("from", 0, "")
	out := flag.String("out", "", "")
	scratch := flag.String("scratch", "", "")
	vdir := flag.String("verif", ".", "")
	cs := flag.Int("case", -1, "run one case and print it")
	limit := flag.Int("limit", 0, "run only so many cases")
	list := flag.Bool("list", false, "")
	flag.Parse()

	if *list {
		var ids []string
		for id := range checks.All {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
		return
	}
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	if *seed < 0 {
		*seed = 1
		if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil && s >= 0 {
			*seed = s
		}
	}
	p := checks.All[*prop]
	if p == nil {
		fmt.Println("ERROR: unknown property", *prop)
		os.Exit(2)
	}
	env := &run.Env{Tier: *tier, Seed: *seed, Scratch: *scratch, Vars: map[string]interface{}{}}
	if *worker {
		if err := run.Worker(p, env, *shard, *of, *n, *from, *out); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		return
	}
	if *cs >= 0 {
		d, err := os.MkdirTemp("", "vrun-case-")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(d)
		env.Scratch = d
		if p.Init != nil {
			if err := p.Init(env); err != nil {
				fmt.Println("ERROR:", err)
				os.Exit(2)
			}
		}
		c := run.RunCase(p, env, *cs)
		for k, v := range c.Att {
			fmt.Printf("--- %s\n%s\n", k, v)
		}
		fmt.Println("counters", c.Cnt, "inconclusive", c.Incon, "harness error", c.HErr)
		for _, m := range c.Msgs {
			fmt.Println("  ", m)
		}
		if len(c.Msgs) > 0 {
			os.Exit(1)
		}
		return
	}
	self, _ := os.Executable()
	os.Exit(run.Main(p, run.Config{VerifDir: *vdir, Tier: *tier, Seed: *seed, Self: self, Limit: *limit}))
}
