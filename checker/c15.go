package main

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C15"] = func(c *Checker) {
		c.rule("effects", "no instruction reachable from String, Response, EvaluateString or EvaluateFile writes a package variable, an object reachable from one, the loaded programs or the caller's data (points-to analysis over the whole render path)")
		c.renderEffects("effects", true)
	}
	checks["C16"] = func(c *Checker) {
		c.rule("effects", "no instruction reachable from the rendering entry points writes state that outlives the call: package variables, objects they reach, the loaded programs, the caller's data, the process")
		c.renderEffects("effects", false)
	}
}

// renderAnalysis is the effect analysis of the rendering entry points.
func (c *Checker) renderAnalysis() (*ptsAnalysis, []string) {
	p := c.p
	a := newPts(p)
	var missing []string
	var roots []*ssa.Function
	for _, n := range []string{"Template.String", "Template.Response", "EvaluateString", "EvaluateFile"} {
		f := p.fn("", n)
		if f == nil {
			missing = append(missing, n)
			continue
		}
		roots = append(roots, f)
		for i, prm := range f.Params {
			switch {
			case n[0] == 'T' && i == 0:
				a.param(f, i, "the loaded templates")
			case shortType(prm.Type()) == "map[string]any" || shortType(prm.Type()) == "map[string]interface{}" || strings.HasPrefix(prm.Type().String(), "map["):
				a.param(f, i, "the caller's data")
			}
		}
	}
	var ks []string
	for k := range p.spkgs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if f := p.spkgs[k].Func("init"); f != nil {
			roots = append(roots, f)
		}
	}
	a.solve(roots...)
	a.markShared()
	return a, missing
}

func (c *Checker) renderEffects(rule string, race bool) {
	a, missing := c.renderAnalysis()
	for _, m := range missing {
		c.und(rule, "entry point "+m, "not found")
	}
	render := c.reachFrom(a)
	n := 0
	for f := range render {
		c.sawFn(f)
	}
	for _, w := range a.sortedWrites() {
		if !render[w.fn] {
			continue
		}
		n++
		name := c.p.fullName(w.fn) + ": " + w.what
		var hit []string
		for o := range w.objs {
			if o.shared != "" {
				hit = append(hit, o.shared)
			}
		}
		sort.Strings(hit)
		if len(hit) == 0 {
			c.ok(rule, name, w.in.Pos())
			continue
		}
		verb := "writes"
		if w.how == "append" {
			verb = "may write, through append,"
		}
		switch {
		case w.how == "sync" && race:
			c.ok(rule, name, w.in.Pos())
		case c.guarded(w) != "" && race:
			c.und(rule, name, "%s %s under %s", verb, hit[0], c.guarded(w))
		case strings.HasPrefix(c.guarded(w), "sync.Once"):
			c.und(rule, name, "%s %s once", verb, hit[0])
		default:
			c.bad(rule, name, w.in.Pos(), "%s %s during a render (%s)", verb, hit[0], strings.Join(dedupe(hit), ", "))
		}
	}
	if n == 0 {
		c.und(rule, "writes", "no write was analysed")
	}
	c.paths += n
}

func dedupe(s []string) []string {
	var r []string
	for i, x := range s {
		if i == 0 || s[i-1] != x {
			r = append(r, x)
		}
	}
	return r
}

// reachFrom: the functions reachable from the entry points (initialisers
// excluded).
func (c *Checker) reachFrom(a *ptsAnalysis) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		if f == nil || seen[f] || !a.reach[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					for _, g := range a.targets(ci) {
						rec(g)
					}
					for _, arg := range ci.Common().Args {
						for o := range a.vals[arg] {
							if o.fn != nil && a.isExternal(ci) {
								rec(o.fn)
							}
						}
					}
				}
			}
		}
	}
	for _, n := range []string{"Template.String", "Template.Response", "EvaluateString", "EvaluateFile"} {
		rec(c.p.fn("", n))
	}
	return seen
}

// guarded: the write happens under a lock or a Once of package sync.
func (c *Checker) guarded(w *write) string {
	r := ""
	for _, b := range w.fn.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			f := ci.Common().StaticCallee()
			if f == nil {
				continue
			}
			switch f.String() {
			case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
				if in.Block().Dominates(w.in.Block()) && (in.Block() != w.in.Block() || in.Pos() < w.in.Pos()) {
					r = "a lock"
				}
			}
		}
	}
	if r == "" && w.fn.Parent() != nil {
		for _, b := range w.fn.Parent().Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if f := ci.Common().StaticCallee(); f != nil && f.String() == "(*sync.Once).Do" {
						r = "sync.Once"
					}
				}
			}
		}
	}
	return r
}

var _ = fmt.Sprint
