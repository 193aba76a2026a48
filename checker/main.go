// Command ohcheck decides the properties in /verif/properties.jsonl from the
// source of the oh shell. It loads, type-checks and lowers the repository to
// SSA and analyses that; nothing from the repository is executed.
package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

type rule struct {
	explain string
	assume  []string
	run     func(c *Check)
}

var rules = map[string]rule{}

func main() {
	root := flag.String("root", "/verif", "framework directory")
	repo := flag.String("repo", "/repo", "repository under analysis")
	prop := flag.String("property", "", "property id, comma list, or all")
	flag.Parse()
	debug.SetGCPercent(400)

	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}

	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))

	var ids []string
	if *prop == "all" {
		for id := range rules {
			ids = append(ids, id)
		}

		sort.Strings(ids)
	} else {
		ids = strings.Split(*prop, ",")
	}

	start := time.Now()
	code := 0

	p, err := loadRepo(*repo)

	for i, id := range ids {
		r, ok := rules[id]
		if !ok {
			fmt.Println("unknown property", id)
			os.Exit(2)
		}

		c := &Check{ID: id, P: p, Tier: tier, Counts: map[string]int{}, Fns: map[string]bool{}, Explain: r.explain, Assume: r.assume, start: time.Now()}
		if i == 0 {
			c.start = start
		}

		if err != nil {
			c.P = &Program{Dir: *repo}
			c.Obs = append(c.Obs, Ob{"load", "repository", false, "UNDECIDED: " + err.Error(), "-"})
		} else {
			c.guard("analysis", "whole check", func() { r.run(c) })
			c.atLeast("coverage", len(c.Obs), 1)
		}

		if x := c.finish(*root, seed); x > code {
			code = x
		}
	}

	os.Exit(code)
}
