package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Check accumulates the obligations of one property.
type Check struct {
	ID       string
	P        *Program
	Tier     string
	Obs      []Ob
	Counts   map[string]int
	Fns      map[string]bool
	Explain  string
	Assume   []string
	keys     map[string]int
	start    time.Time
	Machines int
}

// Ob is one obligation: a rule applied to one construct.
type Ob struct {
	Rule   string
	On     string // construct: function, builtin, call site description
	OK     bool
	Detail string
	Loc    string
}

func (o Ob) key() string { return o.Rule + "|" + o.On }

func (c *Check) ob(rule, on string, ok bool, loc token.Pos, detail string, args ...any) bool {
	if len(args) > 0 {
		detail = fmt.Sprintf(detail, args...)
	}

	c.Obs = append(c.Obs, Ob{rule, on, ok, detail, c.P.loc(loc)})

	return ok
}

// fail records a violated obligation.
func (c *Check) fail(rule, on string, loc token.Pos, detail string, args ...any) {
	c.ob(rule, on, false, loc, detail, args...)
}

// pass records a discharged obligation.
func (c *Check) pass(rule, on, detail string, args ...any) {
	c.ob(rule, on, true, token.NoPos, detail, args...)
}

// undecided is a failed obligation: the analysis could not reach a verdict.
func (c *Check) undecided(rule, on string, detail string, args ...any) {
	c.ob(rule, on, false, token.NoPos, "UNDECIDED: "+detail, args...)
}

// atLeast fails when a rule matched fewer constructs than confirmed by hand.
func (c *Check) atLeast(rule string, n, min int) {
	c.ob(rule, "instances", n >= min, token.NoPos, "%d instances analysed, at least %d expected", n, min)
}

func (c *Check) count(k string, n int) { c.Counts[k] += n }

func (c *Check) enter(in *Interp) {
	for f := range in.Fns {
		c.Fns[c.P.fname(f)] = true
	}

	c.Counts["paths_analysed"] += in.Paths
	c.Counts["instructions_interpreted"] += in.Steps
	c.Counts["paths_cut_at_bound"] += in.Truncs
	in.Paths, in.Steps, in.Truncs = 0, 0, 0
}

// guard turns an exhausted budget or an internal error into a failed
// obligation instead of a crash.
func (c *Check) guard(rule, on string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if b, ok := r.(budgetError); ok {
				c.undecided(rule, on, "%s", b.s)

				return
			}

			if os.Getenv("OHCHECK_DEBUG") != "" {
				panic(r)
			}

			c.undecided(rule, on, "internal error: %v", r)
		}
	}()

	f()
}

type finding struct{ prop, key, text string }

func loadFindings(path string) (fs []finding) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}

	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}

		// known: property=C10 key=<rule|construct> :: text
		l = strings.TrimPrefix(l, "known: ")
		a, text, _ := strings.Cut(l, " :: ")
		p, k, ok := strings.Cut(a, " key=")

		if ok {
			fs = append(fs, finding{strings.TrimPrefix(p, "property="), k, text})
		}
	}

	return
}

// finish prints the verdict, writes the evidence, and returns the exit code.
func (c *Check) finish(root string, seed int) int {
	known := loadFindings(filepath.Join(root, "known_findings.txt"))

	var bad, listed []Ob

	byRule := map[string][2]int{}

	for _, o := range c.Obs {
		n := byRule[o.Rule]
		n[0]++

		if o.OK {
			n[1]++
		}

		byRule[o.Rule] = n

		if o.OK {
			continue
		}

		isKnown := false

		for _, k := range known {
			if k.prop == c.ID && k.key == o.key() {
				isKnown = true
			}
		}

		if isKnown {
			listed = append(listed, o)
		} else {
			bad = append(bad, o)
		}
	}

	seen := map[string]bool{}

	for _, o := range listed {
		if !seen[o.key()] {
			fmt.Printf("KNOWN-FINDING: property=%s %s on %s: %s\n", c.ID, o.Rule, o.On, o.Detail)
		}

		seen[o.key()] = true
	}

	replay := filepath.Join(root, "evidence", "replay-"+c.ID+".txt")
	_ = os.MkdirAll(filepath.Dir(replay), 0o755)
	_ = os.Remove(replay)

	if len(bad) > 0 {
		var b strings.Builder

		fmt.Fprintf(&b, "property %s: %d violated obligation(s)\n", c.ID, len(bad))

		for _, o := range bad {
			fmt.Fprintf(&b, "rule %s\n  construct %s\n  at %s\n  %s\n", o.Rule, o.On, o.Loc, o.Detail)
		}

		_ = os.WriteFile(replay, []byte(b.String()), 0o644)

		for i, o := range bad {
			if i == 12 {
				fmt.Printf("  ... %d more in %s\n", len(bad)-i, replay)

				break
			}

			fmt.Printf("  %s [%s] %s: %s\n", o.Loc, o.Rule, o.On, o.Detail)
		}

		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, replay)
	}

	var rules []map[string]any

	var names []string
	for r := range byRule {
		names = append(names, r)
	}

	sort.Strings(names)

	for _, r := range names {
		rules = append(rules, map[string]any{"rule": r, "obligations": byRule[r][0], "discharged": byRule[r][1]})
	}

	var fns []string
	for f := range c.Fns {
		fns = append(fns, f)
	}

	sort.Strings(fns)

	var samples []string

	per := map[string]int{}

	for _, o := range c.Obs {
		if per[o.Rule] < 2 {
			per[o.Rule]++
			samples = append(samples, o.Rule+": "+o.On+" — "+o.Detail)
		}
	}

	cov := map[string]any{
		"explanation": c.Explain,
		"obligations": len(c.Obs), "discharged": len(c.Obs) - len(bad) - len(listed),
		"known_findings": len(listed),
		"rules":          rules, "samples": samples,
		"functions_analysed": len(fns), "functions": fns,
		"packages_loaded": len(c.P.Pkgs), "module_functions_loaded": len(c.P.Src),
	}

	for k, v := range c.Counts {
		cov[k] = v
	}

	ev := map[string]any{
		"property": c.ID, "tier": c.Tier, "seed": seed, "level": "other",
		"coverage": cov, "assumptions": append([]string{}, c.Assume...),
		"wall_s": time.Since(c.start).Seconds(), "violations": len(bad),
	}

	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(root, "evidence", c.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)

		return 2
	}

	fmt.Printf("%s: %d obligations, %d discharged, %d known, %d violated (%.1fs)\n", c.ID, len(c.Obs), len(c.Obs)-len(bad)-len(listed), len(listed), len(bad), time.Since(c.start).Seconds())

	if len(bad) > 0 {
		return 1
	}

	return 0
}
