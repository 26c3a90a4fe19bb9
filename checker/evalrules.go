package main

import (
	"go/types"
	"sort"
	"strings"
)

// objVal is the Value field of an object of a known kind.
func (c *Checker) objVal(t *Term, kind string) *Term {
	return c.objFld(t, kind, "Value")
}

func (c *Checker) objFld(t *Term, kind, field string) *Term {
	typ := c.p.typeByNm[kind]
	if typ == nil {
		return nil
	}
	pt, ok := typ.(*types.Pointer)
	if !ok {
		return nil
	}
	s, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == field {
			return mkInit(mkFieldAddr(fieldOwner(pt.Elem(), i), mkCast(typ, t), types.NewPointer(s.Field(i).Type())), "", s.Field(i).Type())
		}
	}
	return nil
}

// objectKinds lists the dynamic types of object.Object.
func (c *Checker) objectKinds() []string {
	t := c.p.typeByNm["object.Object"]
	if t == nil {
		return nil
	}
	var r []string
	for _, n := range c.p.universe(t).names() {
		if n != "nil" {
			r = append(r, n)
		}
	}
	sort.Strings(r)
	return r
}

// values are the kinds an expression can evaluate to.
var valueKinds = []string{"*object.Int", "*object.Float", "*object.Str", "*object.Bool", "*object.Nil", "*object.Array", "*object.Obj"}

type truthCase struct {
	name   string
	kind   string
	conds  func(t *Term) []*Term
	truthy bool
}

// truthTable is the truthiness of every kind of value.
func (c *Checker) truthTable() []truthCase {
	zero := func(kind string, want bool) func(t *Term) []*Term {
		return func(t *Term) []*Term {
			v := c.objVal(t, kind)
			if v == nil {
				return nil
			}
			var e *Term
			if kind == "*object.Bool" {
				e = mkNot(v)
			} else {
				e = eqTerm(v, zeroTerm(v.Typ))
			}
			if want {
				return []*Term{e}
			}
			return []*Term{mkNot(e)}
		}
	}
	none := func(t *Term) []*Term { return nil }
	return []truthCase{
		{"false", "*object.Bool", zero("*object.Bool", true), false},
		{"true", "*object.Bool", zero("*object.Bool", false), true},
		{"0", "*object.Int", zero("*object.Int", true), false},
		{"non-zero integer", "*object.Int", zero("*object.Int", false), true},
		{"0.0", "*object.Float", zero("*object.Float", true), false},
		{"non-zero float", "*object.Float", zero("*object.Float", false), true},
		{"empty string", "*object.Str", zero("*object.Str", true), false},
		{"non-empty string", "*object.Str", zero("*object.Str", false), true},
		{"nil", "*object.Nil", none, false},
		{"array", "*object.Array", none, true},
		{"object", "*object.Obj", none, true},
	}
}

// onCase strengthens the facts of a path with a truth case for value t.
func (c *Checker) onCase(f *Facts, t *Term, tc truthCase) *Facts {
	f = c.withKind(f, t, tc.kind)
	return c.with(f, tc.conds(t)...)
}

// evalOf finds the evaluation of a node on a path.
func (er *evalRun) evalOf(p *Path, node *Term) (*Event, int) {
	for i, ev := range er.evals(p) {
		if sameNode(ev.Args[1], node) {
			return ev, i
		}
	}
	return nil, -1
}

// value returns the result of an evaluation event.
func evResult(ev *Event) *Term {
	if ev == nil {
		return nil
	}
	return ev.Res
}

func (er *evalRun) ret(p *Path) *Term {
	if len(p.Ret) == 0 {
		return nil
	}
	return p.Ret[0]
}

// isErr: the returned value is an error object under facts.
func (er *evalRun) isErr(f *Facts, t *Term) int {
	k := f.kind(er.c.p, t)
	if !k.has("*object.Error") {
		return 0
	}
	if n, ok := k.single(); ok && n == "*object.Error" {
		return 1
	}
	return -1
}

// errorPropagation checks, for every evaluation made by the construct, that
// an error result ends the evaluation and is what the construct returns.
func (er *evalRun) errorPropagation(rule, name string) {
	c := er.c
	cr := c.newCase(rule, name)
	for _, p := range er.paths {
		evs := er.evals(p)
		for i, ev := range evs {
			f := c.withKind(p.Facts, ev.Res, "*object.Error")
			if f == nil {
				continue
			}
			switch {
			case p.Outcome == "back":
				cr.add(vBad, ev.Pos, "the loop goes on after this evaluation returned an error")
			case p.Outcome != "return":
				continue
			case i != len(evs)-1:
				cr.add(vBad, ev.Pos, "another node is evaluated after this evaluation returned an error")
			case er.ret(p) == ev.Res:
				cr.add(vOK, ev.Pos, "")
			case er.ret(p) != nil && er.isErr(f, er.ret(p)) == 1:
				cr.add(vOK, ev.Pos, "")
			case er.ret(p) != nil && c.resolvedEval(er, p, er.ret(p)) && er.isErr(f, er.ret(p)) == 0:
				cr.add(vBad, ev.Pos, "the error of this evaluation is dropped, the construct returns "+er.renderer(p).str(er.ret(p)))
			default:
				cr.add(vUnd, ev.Pos, "the result after an error is not resolved")
			}
		}
	}
	if !er.complete {
		cr.add(vUnd, 0, "path enumeration is incomplete")
	}
	cr.done()
}

func (c *Checker) resolvedEval(er *evalRun, p *Path, t *Term) bool {
	return c.resolved(p, t, er.input)
}

// boolIs checks that a returned Bool object equals the truth of cond.
func (er *evalRun) boolIs(p *Path, f *Facts, ret, cond *Term) (verdict, string) {
	c := er.c
	v := c.objField(p, ret, "object.Bool", "Value")
	if v == nil {
		if er.isErr(f, ret) == 1 {
			return vBad, "returns an error"
		}
		return vUnd, "the returned value is not a resolved Bool"
	}
	if v == cond {
		return vOK, ""
	}
	if v.isTrue() || v.isFalse() {
		switch d := f.decide(c.p, cond); {
		case d < 0:
			if er.simpleFacts(f, cond) {
				return vBad, "the path condition does not decide " + cond.String() + " but the result is " + v.Sym[2:]
			}
			return vUnd, "the path condition is not resolved"
		case (d == 1) == v.isTrue():
			return vOK, ""
		default:
			return vBad, "returns " + v.Sym[2:] + " where " + cond.String() + " is the opposite"
		}
	}
	if er.c.resolvedEval(er, p, v) {
		// a different formula over the same operands
		if f2 := f.assume(c.p, v, true); f2 != nil {
			if d := f2.decide(c.p, cond); d == 1 {
				if f3 := f.assume(c.p, v, false); f3 == nil || f3.decide(c.p, cond) == 0 {
					return vOK, ""
				}
			}
		}
		if v.Op == "==" || v.Op == "<" || v.Op == "!" || strings.HasSuffix(v.Op, "<") || strings.HasSuffix(v.Op, "<=") {
			return vBad, "the result is " + er.renderer(p).str(v)
		}
	}
	return vUnd, "the result is not resolved"
}

// simpleFacts: every recorded condition that mentions an operand of cond is a
// plain comparison, so that an undecided cond means it was not tested.
func (er *evalRun) simpleFacts(f *Facts, cond *Term) bool {
	ops := map[*Term]bool{}
	cond.walk(func(t *Term) bool {
		if t.Op == "init" {
			ops[t] = true
			return false
		}
		return true
	})
	for b := range f.bools {
		hit := false
		b.walk(func(t *Term) bool {
			if ops[t] {
				hit = true
			}
			return !hit
		})
		if !hit {
			continue
		}
		bad := false
		b.walk(func(t *Term) bool {
			switch t.Op {
			case "call", "inv", "dyn", "ext", "loopm", "loopv":
				if !er.input(t) {
					bad = true
				}
				return false
			}
			return !bad
		})
		if bad {
			return false
		}
	}
	return true
}
