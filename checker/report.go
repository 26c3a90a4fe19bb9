package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Ob is one obligation: a rule applied to one construct.
type Ob struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Status    string `json:"status"` // ok, violation, known, undecided
	Where     string `json:"where,omitempty"`
	Detail    string `json:"detail,omitempty"`
}

// Checker collects the obligations of one property.
type Checker struct {
	p     *Prog
	prop  string
	tier  string
	obs   []*Ob
	byKey map[string]*Ob
	fns   map[string]bool // functions analysed
	paths int
	rules map[string]string
	known []knownFinding
	nodes map[string]*evalRun
	nm    *nullModel
	orows map[string][]nullRow
	fset  map[string]bool
	nb    *nullBuilder
	lexm  *lexModel
}

type knownFinding struct{ Prop, Key, Text string }

func newChecker(p *Prog, prop, tier string) *Checker {
	return &Checker{p: p, prop: prop, tier: tier, byKey: map[string]*Ob{}, fns: map[string]bool{}, rules: map[string]string{}}
}

func (c *Checker) rule(id, text string) { c.rules[id] = text }

func (c *Checker) set(rule, construct, status, where, detail string) {
	k := rule + "|" + construct
	o := c.byKey[k]
	if o == nil {
		o = &Ob{Rule: rule, Construct: construct, Status: status, Where: where, Detail: detail}
		c.byKey[k] = o
		c.obs = append(c.obs, o)
		return
	}
	rank := map[string]int{"ok": 0, "undecided": 1, "violation": 2}
	if rank[status] > rank[o.Status] {
		o.Status, o.Where, o.Detail = status, where, detail
	}
}

func (c *Checker) ok(rule, construct string, pos token.Pos) {
	c.set(rule, construct, "ok", c.where(pos), "")
}

func (c *Checker) bad(rule, construct string, pos token.Pos, f string, a ...any) {
	c.set(rule, construct, "violation", c.where(pos), fmt.Sprintf(f, a...))
}

func (c *Checker) und(rule, construct string, f string, a ...any) {
	c.set(rule, construct, "undecided", "", fmt.Sprintf(f, a...))
}

// expect records ok or a violation.
func (c *Checker) expect(cond bool, rule, construct string, pos token.Pos, f string, a ...any) {
	if cond {
		c.ok(rule, construct, pos)
	} else {
		c.bad(rule, construct, pos, f, a...)
	}
}

func (c *Checker) where(pos token.Pos) string {
	if !pos.IsValid() {
		return ""
	}
	return c.p.pos(pos)
}

func (c *Checker) fnPos(f *ssa.Function) token.Pos {
	if f == nil {
		return token.NoPos
	}
	return f.Pos()
}

func (c *Checker) sawFn(f *ssa.Function) {
	if f != nil {
		c.fns[c.p.fullName(f)] = true
	}
}

func loadKnown(path string) []knownFinding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var r []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=C01 key=<rule>|<construct> text
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property=")
		prop, rest, ok := strings.Cut(l, " key=")
		if !ok {
			continue
		}
		key, text, _ := strings.Cut(rest, " :: ")
		r = append(r, knownFinding{prop, strings.TrimSpace(key), strings.TrimSpace(text)})
	}
	return r
}

// finish prints the verdict, writes the evidence and returns the exit code.
func (c *Checker) finish(root string, start time.Time) int {
	known := loadKnown(filepath.Join(root, "known_findings.txt"))
	counts := map[string]int{}
	var viol []*Ob
	for _, o := range c.obs {
		if o.Status == "violation" {
			for _, k := range known {
				if k.Prop == c.prop && k.Key == o.Rule+"|"+o.Construct {
					o.Status = "known"
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop, k.Text)
				}
			}
		}
		counts[o.Status]++
		if o.Status == "violation" {
			viol = append(viol, o)
		}
	}
	dir := filepath.Join(root, "evidence")
	os.MkdirAll(dir, 0o755)
	rep := filepath.Join(dir, c.prop+".violations.txt")
	os.Remove(rep)
	if len(viol) > 0 {
		var b strings.Builder
		fmt.Fprintf(&b, "property %s: %d violated obligations\n", c.prop, len(viol))
		for _, o := range viol {
			fmt.Fprintf(&b, "\n[%s] %s\n  at %s\n  rule: %s\n  %s\n", o.Rule, o.Construct, o.Where, c.rules[o.Rule], o.Detail)
		}
		os.WriteFile(rep, []byte(b.String()), 0o644)
		fmt.Print(b.String())
	}
	for _, o := range c.obs {
		if o.Status == "undecided" {
			fmt.Printf("UNDECIDED property=%s %s %s: %s\n", c.prop, o.Rule, o.Construct, o.Detail)
		}
	}
	var fns []string
	for f := range c.fns {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	perRule := map[string]map[string]int{}
	for _, o := range c.obs {
		m := perRule[o.Rule]
		if m == nil {
			m = map[string]int{}
			perRule[o.Rule] = m
		}
		m[o.Status]++
	}
	var und []string
	for _, o := range c.obs {
		if o.Status == "undecided" {
			und = append(und, o.Rule+" "+o.Construct+": "+o.Detail)
		}
	}
	und = append([]string{}, und...)
	var samples []map[string]string
	seenRule := map[string]int{}
	for _, o := range c.obs {
		if seenRule[o.Rule] < 6 {
			seenRule[o.Rule]++
			samples = append(samples, map[string]string{"rule": o.Rule, "construct": o.Construct, "status": o.Status, "where": o.Where})
		}
	}
	ev := map[string]any{
		"property": c.prop, "tier": c.tier, "seed": 1, "level": "other",
		"coverage": map[string]any{
			"explanation":        "Static analysis of the type-checked SSA form of /repo's current source; each obligation is one rule applied to one construct (function path, call site, table entry, store, loop). Nothing of the code under test is executed.",
			"functions_analysed": len(fns),
			"functions":          fns,
			"paths_enumerated":   c.paths,
			"obligations":        len(c.obs),
			"discharged":         counts["ok"],
			"violated":           counts["violation"],
			"known_findings":     counts["known"],
			"undecided":          counts["undecided"],
			"undecided_list":     und,
			"rules":              c.rules,
			"per_rule":           perRule,
			"sample_obligations": samples,
		},
		"wall_s":     time.Since(start).Seconds(),
		"violations": len(viol),
		"assumptions": []string{
			"Go semantics as modelled by golang.org/x/tools/go/ssa; standard library functions behave as documented",
			"an obligation whose construct is written in a form the analysis cannot resolve is listed as undecided and not reported",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, c.prop+".json"), append(b, '\n'), 0o644)
	fmt.Printf("property=%s obligations=%d ok=%d violated=%d known=%d undecided=%d functions=%d paths=%d\n",
		c.prop, len(c.obs), counts["ok"], counts["violation"], counts["known"], counts["undecided"], len(fns), c.paths)
	if len(viol) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, rep)
		return 1
	}
	return 0
}
