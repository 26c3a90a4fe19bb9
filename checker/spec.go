package main

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// envAPI are the scope operations and block queries that the rules treat as
// primitives; each is verified on its own.
var envAPI = []string{"object.NewEnclosedEnv", "object.Env.Get", "object.Env.Set", "object.Env.SetLoopVar",
	"evaluator.hasBreakStmt", "evaluator.hasContinueStmt", "evaluator.hasControlStmt"}

// spec alternatives: a path is right when its trace and result match one.
// Each token and the result are literals; variants are separated by " | ";
// a leading "~" makes the variant a regular expression.
type alt struct {
	toks []string
	ret  string // "" for a path that takes a back edge
	also func(p *Path) (verdict, string)
	opt  bool     // need not occur
	when []*Term  // conditions that hold on the path
	cond []string // named conditions that hold on the path
}

func tokRx(s string) string {
	var vs []string
	for _, v := range strings.Split(s, " | ") {
		if strings.HasPrefix(v, "~") {
			vs = append(vs, v[1:])
		} else {
			vs = append(vs, regexp.QuoteMeta(v))
		}
	}
	return "(?:" + strings.Join(vs, "|") + ")"
}

func (a *alt) rx() (*regexp.Regexp, *regexp.Regexp) {
	var ts []string
	for _, t := range a.toks {
		if strings.HasPrefix(t, "*") { // optional token
			ts = append(ts, "(?:"+tokRx(t[1:])+"; )?")
			continue
		}
		ts = append(ts, tokRx(t)+"; ")
	}
	return regexp.MustCompile("^" + strings.Join(ts, "") + "$"), regexp.MustCompile("^" + tokRx(a.ret) + "$")
}

// evalNode enumerates the evaluation of a node kind with the scope operations
// kept as events.
func (c *Checker) evalNode(kind string) *evalRun {
	return c.evalPaths(kind, runOpts{opaque: envAPI})
}

// classes of evaluation results.
func (er *evalRun) classes(f *Facts, t *Term) string {
	c := er.c
	k := f.kind(c.p, t)
	var s string
	for _, x := range []struct{ kind, l string }{{"*object.Error", "X"}} {
		if k.has(x.kind) {
			s += x.l
		}
	}
	set := map[string]bool{}
	for _, tc := range c.truthTable() {
		if !k.has(tc.kind) || c.onCase(f, t, tc) == nil {
			continue
		}
		switch {
		case tc.kind == "*object.Array":
			set["A"] = true
		case tc.truthy:
			set["T"] = true
		default:
			set["F"] = true
		}
	}
	for _, l := range []string{"A", "F", "T"} {
		if set[l] {
			s += l
		}
	}
	return s
}

// specRenderer names environments and loop values.
func (er *evalRun) specRenderer(p *Path) *renderer {
	r := er.renderer(p)
	base := r.fn
	r.fn = func(r *renderer, t *Term) (string, bool) {
		switch t.Op {
		case "loopk":
			return "k" + strings.TrimPrefix(t.Sym, "kL"), true
		case "loopv", "loopm":
			return "acc" + strings.TrimPrefix(strings.SplitN(t.Sym, ".", 2)[0], "L"), true
		case "call":
			n, num, _ := strings.Cut(t.Sym, "#")
			switch n {
			case "object.NewEnclosedEnv":
				s := "new" + num
				if t.Args[0] != er.env {
					s += "<" + r.str(t.Args[0]) + ">"
				}
				return s, true
			case "object.Env.Get":
				return "Get(" + r.str(t.Args[0]) + ", " + r.str(t.Args[1]) + ")", true
			case "object.Env.Set":
				return "Set(" + r.str(t.Args[0]) + ", " + r.str(t.Args[1]) + ", " + r.str(t.Args[2]) + ")", true
			}
			if er.voc[n] != "" {
				return er.vocCall(r, n, t.Args), true
			}
			if strings.HasPrefix(n, "evaluator.has") {
				return baseName(n) + "(" + r.str(t.Args[0]) + ")", true
			}
		}
		return base(r, t)
	}
	return r
}

// lists are the sequences a node loops over.
func (er *evalRun) lists(p *Path) []*Term {
	var r []*Term
	seen := map[*Term]bool{}
	add := func(t *Term) {
		t.walk(func(x *Term) bool {
			if x.Op == "len" && !seen[x.Args[0]] {
				seen[x.Args[0]] = true
				r = append(r, x.Args[0])
			}
			if x.Op == "&i" && !seen[x.Args[0]] && x.Args[0].Op != "alloc" {
				seen[x.Args[0]] = true
				r = append(r, x.Args[0])
			}
			return true
		})
	}
	for _, q := range er.paths {
		for _, ev := range q.Events {
			for _, a := range ev.Args {
				add(a)
			}
		}
		if er.factLists {
			for t := range q.Facts.bools {
				add(t)
			}
		}
	}
	return r
}

// trace renders what a path does; unknown is true when it contains an
// operation outside the vocabulary of the specification.
func (er *evalRun) trace(p *Path) (s string, unknown bool) {
	r := er.specRenderer(p)
	c := er.c
	var ts []string
	for _, ev := range p.Events {
		switch ev.Kind {
		case "call":
			switch {
			case er.quiet[ev.Fn]:
			case ev.Fn == evalFn:
				t := r.str(ev.Res)
				if k := er.classes(p.Facts, ev.Res); k != "XAFT" {
					t += "=" + k
				}
				ts = append(ts, t)
			case ev.Fn == "object.NewEnclosedEnv":
			case ev.Fn == "object.Env.Get":
				t := r.str(ev.Res)
				switch p.Facts.decide(c.p, mk("ext", "1", nil, nil, ev.Res)) {
				case 1:
					t += "=hit"
				case 0:
					t += "=miss"
				}
				ts = append(ts, t)
			case ev.Fn == "object.Env.Set":
				t := r.str(ev.Res)
				switch p.Facts.decide(c.p, mkEq(ev.Res, mkNil())) {
				case 1:
					t += "=ok"
				case 0:
					t += "=err"
				}
				ts = append(ts, t)
			case ev.Fn == "object.Env.SetLoopVar":
				ts = append(ts, "SetLoopVar("+r.str(ev.Args[0])+", "+r.str(ev.Args[1])+")")
			case strings.HasPrefix(ev.Fn, "evaluator.has"):
				t := r.str(ev.Res)
				switch p.Facts.decide(c.p, ev.Res) {
				case 1:
					t += "=T"
				case 0:
					t += "=F"
				}
				ts = append(ts, t)
			case ev.Note == "folded" || extPure(ev.Fn):
			case ev.Fn == "slices.Sort" || ev.Fn == "sort.Strings":
				ts = append(ts, "call:"+ev.Fn)
			case er.voc[ev.Fn] != "":
				ts = append(ts, er.vocCall(r, ev.Fn, ev.Args)+er.outcome(p, ev.Res))
			default:
				ts = append(ts, "call:"+ev.Fn)
				unknown = true
			}
		case "loop":
			ts = append(ts, "loop"+strings.TrimPrefix(ev.Loop, "L"))
		case "back":
			ts = append(ts, "back"+strings.TrimPrefix(ev.Loop, "L"))
		case "exit":
			t := "exit" + strings.TrimPrefix(ev.Loop, "L")
			for _, l := range er.lists(p) {
				cond := mkLess(mkLoopK(ev.Loop), mkLen(l))
				if er.factLists {
					if v, ok := ev.Facts.bools[cond]; !ok || v {
						continue
					}
				}
				if ev.Facts.decide(c.p, cond) == 0 {
					t += "(" + r.str(l) + ")"
				}
			}
			ts = append(ts, t)
		case "dyncall":
			ts = append(ts, "dyn")
			unknown = true
		case "store":
			if !ev.Fresh {
				if er.effects {
					ts = append(ts, "store("+r.str(ev.Addr)+" := "+r.str(ev.Val)+")")
					break
				}
				ts = append(ts, "store("+r.str(ev.Addr)+")")
				unknown = true
			}
		case "mapupdate":
			if !ev.Fresh && !isFreshTerm(ev.Addr) {
				if er.effects {
					ts = append(ts, r.str(ev.Addr)+"["+r.str(ev.Args[0])+"] := "+r.str(ev.Val))
					break
				}
				ts = append(ts, "mapstore("+r.str(ev.Addr)+")")
				unknown = true
			}
		case "go", "defer":
			ts = append(ts, ev.Kind)
			unknown = true
		}
	}
	if len(ts) == 0 {
		return "", unknown
	}
	s = strings.Join(ts, "; ") + "; "
	if er.norm != nil {
		s = er.norm(s)
	}
	return s, unknown
}

// mkLoopK is the induction term of a loop.
func mkLoopK(id string) *Term { return mk("loopk", "k"+id, types.Typ[types.Int], nil) }

// spec compares the paths of a node's evaluation with the alternatives.
func (er *evalRun) spec(rule, name string, alts []alt) {
	c := er.c
	cr := c.newCase(rule, name)
	if !er.complete {
		cr.add(vUnd, 0, "path enumeration is incomplete")
	}
	type rxs struct{ t, r *regexp.Regexp }
	rs := make([]rxs, len(alts))
	for i := range alts {
		rs[i].t, rs[i].r = alts[i].rx()
	}
	hit := make([]bool, len(alts))
	for _, p := range er.paths {
		tr, unknown := er.trace(p)
		ret := ""
		if p.Outcome == "return" && len(p.Ret) > 0 {
			r := er.specRenderer(p)
			for i, t := range p.Ret {
				if i > 0 {
					ret += ", "
				}
				ret += r.str(t)
			}
			if er.norm != nil {
				ret = er.norm(ret)
			}
		} else if p.Outcome == "panic" {
			continue
		} else if p.Outcome == "limit" {
			cr.add(vUnd, 0, "a path was not followed to its end")
			continue
		}
		m := -1
		var want []string
		also := ""
		for i := range alts {
			if !rs[i].t.MatchString(tr) {
				continue
			}
			if !rs[i].r.MatchString(ret) {
				want = append(want, alts[i].ret)
				continue
			}
			if w := er.failing(p, alts[i].when); w != "" {
				also = "after `" + tr + "` the result " + ret + " is given although `" + w + "` need not hold"
				continue
			}
			if w := er.condsFail(p, alts[i].cond); w != "" {
				also = "after `" + tr + "` the result " + ret + " is given although `" + w + "` need not hold"
				continue
			}
			if alts[i].also != nil {
				if v, why := alts[i].also(p); v == vUnd {
					cr.add(vUnd, lastPos(p), why)
					m = i
					break
				} else if v != vOK {
					also = why
					continue
				}
			}
			m = i
			break
		}
		pos := lastPos(p)
		switch {
		case m >= 0:
			hit[m] = true
			cr.add(vOK, pos, "")
		case unknown || !er.factsKnown(p) || er.factLists && er.foreign(p, alts) != "":
			cr.add(vUnd, pos, "the path `"+tr+"` is not resolved")
		case also != "":
			cr.add(vBad, pos, also)
		case len(want) > 0:
			res := true
			for _, t := range p.Ret {
				res = res && c.resolved(p, t, er.specInput)
			}
			if res {
				cr.add(vBad, pos, fmt.Sprintf("after `%s` the result is %s, expected %s", tr, ret, strings.Join(want, " or ")))
			} else {
				cr.add(vUnd, pos, "the result "+ret+" is not resolved")
			}
		default:
			var ts []string
			for _, a := range alts {
				ts = append(ts, strings.Join(a.toks, "; "))
			}
			sort.Strings(ts)
			cr.add(vBad, pos, fmt.Sprintf("a path does `%s` giving %s; allowed are: %s", tr, ret, clip(strings.Join(ts, " // "), 600)))
		}
	}
	for i, h := range hit {
		if !h && !alts[i].opt {
			cr.add(vUnd, 0, "no path matches `"+strings.Join(alts[i].toks, "; ")+"` -> "+alts[i].ret)
		}
	}
	cr.done()
}

func (er *evalRun) specInput(t *Term) bool {
	if er.input(t) {
		return true
	}
	switch t.Op {
	case "call":
		n := strings.SplitN(t.Sym, "#", 2)[0]
		for _, a := range envAPI {
			if n == a {
				return true
			}
		}
		return extPure(n) || er.voc[n] != ""
	case "ext", "inv", "loopk", "loopv", "loopm":
		return true
	}
	return false
}

// factsKnown: every condition of the path is over inputs of the evaluation.
func (er *evalRun) factsKnown(p *Path) bool {
	for b := range p.Facts.bools {
		bad := false
		if b.Op == "<" && b.Args[0].Op == "loopk" && b.Args[1].Op == "len" && b.Args[1].Args[0].Op == "loopv" {
			continue
		}
		b.walk(func(t *Term) bool {
			switch t.Op {
			case "call":
				if er.names[t] != "" || errClass(t) != nil {
					break
				}
				if !er.specInput(t) {
					bad = true
				}
			case "loopv":
				bad = bad || !er.keyList(t)
				return false
			case "inv", "dyn", "unknown":
				bad = true
			}
			return !bad
		})
		if bad {
			return false
		}
	}
	return true
}

// foreign is a collection that the path loops over and the specification does
// not: the function is built in another way.
func (er *evalRun) foreign(p *Path, alts []alt) string {
	var text []string
	for _, a := range alts {
		text = append(append(append(text, a.toks...), a.cond...), a.ret)
	}
	all := strings.ReplaceAll(strings.Join(text, " "), `\`, "")
	norm := er.norm
	if norm == nil {
		norm = func(s string) string { return s }
	}
	r := er.specRenderer(p)
	r.facts = newFacts()
	for t := range p.Facts.bools {
		x := ""
		switch {
		case t.Op == "<" && t.Args[0].Op == "loopk" && t.Args[1].Op == "len":
			x = norm(r.str(t.Args[1].Args[0]))
			if strings.Contains(all, x+"[k") || strings.Contains(all, "("+x+")") {
				continue
			}
		case t.Op == "more" && len(t.Args) == 1:
			x = norm(r.str(t.Args[0]))
			if strings.Contains(all, "key‹"+x+"›") {
				continue
			}
		default:
			continue
		}
		return x
	}
	return ""
}

// keyList: a list that a loop builds of the keys of a map it ranges over.
func (er *evalRun) keyList(t *Term) bool {
	loop, _, _ := strings.Cut(t.Sym, ".")
	n := 0
	for _, p := range er.paths {
		if p.Outcome != "back" || p.Loop != loop {
			continue
		}
		for _, v := range p.Vals {
			if v == nil || v == t || v.Typ == nil || t.Typ == nil || !types.Identical(v.Typ, t.Typ) {
				continue
			}
			if v.Op != "append" || v.Args[0] != t || !hasOp(v.Args[1], "rkey") {
				return false
			}
			n++
		}
	}
	return n > 0
}

func hasOp(t *Term, op string) bool {
	found := false
	t.walk(func(x *Term) bool { found = found || strings.HasPrefix(x.Op, op); return !found })
	return found
}

// fnRun enumerates the paths of a function for a specification; voc names the
// functions that stay calls.
func (c *Checker) fnRun(f *ssa.Function, names []string, o runOpts, voc map[string]string) *evalRun {
	if f == nil || len(f.Blocks) == 0 {
		return nil
	}
	if o.args == nil {
		o.args = rootParams(f)
	}
	for n := range voc {
		o.opaque = append(o.opaque, n)
	}
	if o.pure == nil {
		o.pure = []string{"fail.New"}
	}
	ps, ok := c.run(f, o)
	er := &evalRun{c: c, paths: ps, complete: ok, voc: voc, effects: true, args: o.args, names: map[*Term]string{}}
	for i, a := range o.args {
		if i < len(names) {
			er.names[a] = names[i]
		}
	}
	return er
}

func (er *evalRun) vocCall(r *renderer, n string, args []*Term) string {
	var as []string
	for _, a := range args {
		as = append(as, r.str(a))
	}
	return er.voc[n] + "(" + strings.Join(as, ", ") + ")"
}

// failing is the first condition that is not established, "" when all hold.
func (er *evalRun) failing(p *Path, when []*Term) string {
	for _, w := range when {
		if p.Facts.decide(er.c.p, w) != 1 {
			return er.specRenderer(p).str(w)
		}
	}
	return ""
}

// outcome is what the path knows about the result of a call.
func (er *evalRun) outcome(p *Path, res *Term) string {
	c := er.c
	if res == nil || res.Typ == nil {
		return ""
	}
	one := func(t *Term, typ types.Type) string {
		if b, ok := typ.Underlying().(*types.Basic); ok {
			if b.Info()&types.IsBoolean != 0 {
				switch p.Facts.decide(c.p, t) {
				case 1:
					return "=T"
				case 0:
					return "=F"
				}
			}
			return ""
		}
		switch typ.Underlying().(type) {
		case *types.Interface:
			k := p.Facts.kind(c.p, t)
			if n, ok := k.single(); ok && n == "nil" {
				return "=nil"
			}
			if !k.has("nil") {
				return "=set"
			}
		case *types.Pointer, *types.Slice, *types.Map, *types.Signature:
			switch p.Facts.decide(c.p, mkEq(t, mkNil())) {
			case 1:
				return "=nil"
			case 0:
				return "=set"
			}
		}
		return ""
	}
	if tp, ok := res.Typ.(*types.Tuple); ok {
		if tp.Len() == 0 {
			return ""
		}
		i := tp.Len() - 1
		return one(mk("ext", strconv.Itoa(i), nil, nil, res), tp.At(i).Type())
	}
	return one(res, res.Typ)
}

// clip shortens a text.
func clip(s string, n int) string {
	if r := []rune(s); len(r) > n {
		return string(r[:n]) + "…"
	}
	return s
}
