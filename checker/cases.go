package main

import (
	"go/constant"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// verdict of one path under one case of a specification.
type verdict int

const (
	vSkip verdict = iota
	vOK
	vBad
	vUnd
)

// caseRun accumulates the verdicts of the paths of one construct.
type caseRun struct {
	c        *Checker
	rule     string
	name     string
	ok       int
	bad, und []string
	pos      token.Pos
}

func (c *Checker) newCase(rule, name string) *caseRun {
	return &caseRun{c: c, rule: rule, name: name}
}

func (cr *caseRun) add(v verdict, pos token.Pos, why string) {
	switch v {
	case vOK:
		cr.ok++
		if !cr.pos.IsValid() {
			cr.pos = pos
		}
	case vBad:
		if len(cr.bad) == 0 {
			cr.pos = pos
		}
		cr.bad = append(cr.bad, why)
	case vUnd:
		cr.und = append(cr.und, why)
	}
}

// done records the obligation: a violation needs a path whose meaning was
// fully resolved and is wrong.
func (cr *caseRun) done() {
	switch {
	case len(cr.bad) > 0:
		cr.c.bad(cr.rule, cr.name, cr.pos, "%s", cr.bad[0])
	case len(cr.und) > 0:
		cr.c.und(cr.rule, cr.name, "%s", cr.und[0])
	case cr.ok == 0:
		cr.c.und(cr.rule, cr.name, "no path of the code matches this case")
	default:
		cr.c.ok(cr.rule, cr.name, cr.pos)
	}
}

// lastPos is the position of the last instruction a path is known by.
func lastPos(p *Path) token.Pos {
	if p.Pos.IsValid() {
		return p.Pos
	}
	for i := len(p.Events) - 1; i >= 0; i-- {
		if p.Events[i].Pos.IsValid() {
			return p.Events[i].Pos
		}
	}
	if p.Root != nil {
		return p.Root.Pos()
	}
	return token.NoPos
}

// resolved reports whether the value of a term was computed from operations
// the analysis understands; allowed lists the opaque functions whose results
// count as inputs.
func (c *Checker) resolved(p *Path, t *Term, allowed func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == nil || seen[t] {
			return true
		}
		seen[t] = true
		if allowed != nil && allowed(t) {
			return true
		}
		switch t.Op {
		case "call", "inv", "dyn", "dyncall", "havoc", "unk", "ext", "phi", "loopv", "loopm":
			return false
		case "alloc":
			for _, m := range []map[*Term]*Term{p.St.mem, c.p.gmem.mem} {
				for a, v := range m {
					if a.Op == "&f" && a.Args[0] == t && !rec(v) {
						return false
					}
				}
			}
			return true
		}
		if !knownOps[t.Op] {
			return false
		}
		for _, a := range t.Args {
			if !rec(a) {
				return false
			}
		}
		return true
	}
	return rec(t)
}

var knownOps = map[string]bool{"const": true, "param": true, "init": true, "&f": true, "&i": true, ".f": true, "iface": true, "cast": true,
	"lin": true, "i*": true, "i/": true, "i%": true, "f+": true, "f-": true, "f*": true, "f/": true, "fneg": true, "==": true, "<": true,
	"s<": true, "s<=": true, "f<": true, "f<=": true, "!": true, "cat": true, "conv": true, "fmt": true, "len": true, "global": true,
	"slicelit": true, "append": true, "appendall": true, "slice": true, "struct": true, "mconst": true, "istype": true, "tuple": true,
	"func": true, "lookup": true, "mapalloc": true, "i&": true, "i|": true, "i^": true, "i<<": true, "i>>": true, "tok": true}

// known calls of a run are inputs of the specification.
func (er *evalRun) input(t *Term) bool {
	return t.Op == "call" && strings.HasPrefix(t.Sym, evalFn+"#") || t == er.node || t == er.env || t == er.recv
}

// objField reads a field of an object value built on the path; nil if the
// value is not such an object.
func (c *Checker) objField(p *Path, t *Term, typ, field string) *Term {
	for t.Op == "iface" {
		t = t.Args[0]
	}
	if t.Op != "alloc" {
		return nil
	}
	a := mkFieldAddr(typ+"."+field, t, nil)
	if v, ok := p.St.mem[a]; ok {
		return v
	}
	if v, ok := c.p.gmem.mem[a]; ok {
		return v
	}
	return nil
}

// kindOf is the dynamic type of a value under facts, "" when unknown.
func (c *Checker) kindOf(f *Facts, t *Term) string {
	if n, ok := f.kind(c.p, t).single(); ok {
		return n
	}
	return ""
}

// with assumes a list of conditions, nil when contradictory.
func (c *Checker) with(f *Facts, conds ...*Term) *Facts {
	for _, x := range conds {
		if f == nil {
			return nil
		}
		f = f.assume(c.p, x, true)
	}
	return f
}

// withKind narrows the dynamic type of a term, nil when contradictory.
func (c *Checker) withKind(f *Facts, t *Term, kind string) *Facts {
	if f == nil {
		return nil
	}
	if !f.kind(c.p, t).has(kind) {
		return nil
	}
	return f.setKind(t, ksOf(kind)).propagate2(c.p)
}

// propagate2 also checks the recorded boolean facts against the narrowed
// dynamic types.
func (f *Facts) propagate2(p *Prog) *Facts {
	n := f.clone().propagate(p)
	if n == nil {
		return nil
	}
	for c, val := range n.bools {
		if c.Op != "==" && c.Op != "istype" {
			continue
		}
		d := -1
		switch {
		case c.Op == "istype":
			m := *n
			m.bools = nil
			d = m.decide(p, c)
		case c.Args[0].Op == "mconst" || c.Args[1].Op == "mconst":
			d = n.decideMConst(p, c.Args[0], c.Args[1])
		}
		if d >= 0 && (d == 1) != val {
			return nil
		}
	}
	return n
}

// evalArg returns the node argument of a recursive evaluation.
func evalArg(ev *Event) *Term {
	if ev == nil || len(ev.Args) < 3 {
		return nil
	}
	return stripEpoch(ev.Args[1])
}

// sameNode compares a term with a node field, ignoring memory epochs and
// interface conversions.
func sameNode(a, b *Term) bool {
	strip := func(t *Term) *Term {
		t = stripEpoch(t)
		for t != nil && (t.Op == "iface" || t.Op == "cast") {
			t = t.Args[0]
		}
		return t
	}
	return a != nil && b != nil && strip(a) == strip(b)
}

var _ *ssa.Function

type posT = token.Pos

func constInt(n int64) constant.Value { return constant.MakeInt64(n) }

func orderTerms(a, b *Term) []*Term {
	if a.ID > b.ID {
		a, b = b, a
	}
	return []*Term{a, b}
}
