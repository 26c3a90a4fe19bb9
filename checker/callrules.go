package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"slices"
	"sort"
	"strings"
)

// Rules on calls "value.name(args)" of templates.

// innerMaps are the built-in tables per type name.
func (c *Checker) innerMaps() map[string]*Term {
	r := map[string]*Term{}
	for a, v := range c.p.gmem.mem {
		if a.Op != "&m" || v == nil || v.Op != "mapalloc" {
			continue
		}
		s, ok := a.Args[1].strVal()
		if !ok {
			continue
		}
		for b, w := range c.p.gmem.mem {
			if b.Op == "&m" && b.Args[0] == v && w != nil && c.builtinOf(w) {
				r[s] = v
				break
			}
		}
	}
	return r
}

// builtinOf: the object holds a function of the evaluator.
func (c *Checker) builtinOf(v *Term) bool {
	for b, fv := range c.p.gmem.mem {
		if b.Op == "&f" && b.Args[0] == v && fv.Op == "func" {
			return true
		}
	}
	return v.Op == "func"
}

var customField = map[string]string{"*object.Str": "Str", "*object.Array": "Arr", "*object.Int": "Int", "*object.Float": "Float", "*object.Bool": "Bool"}

type callCase struct {
	er      *evalRun
	kind    string
	R       *Term // the receiver's value
	inner   *Term
	name    *Term
	builtin *Term // present in the built-in table
	noCust  []*Term
	cust    *Term // the custom function
}

// callRules checks the choice of the function and, unless prec is set, what
// it is called with and what becomes of its result.
func (c *Checker) callRules(rule string, prec bool) {
	er := c.evalPaths("*ast.CallExp", runOpts{opaque: append([]string{"object.NativeToObject"}, envAPI...)})
	if er == nil {
		c.und(rule, "call", "the evaluation of calls was not found")
		return
	}
	inner := c.innerMaps()
	fnode := er.field("Function")
	recv := er.field("Receiver")
	if fnode == nil || recv == nil {
		c.und(rule, "call", "the fields of the call node were not found")
		return
	}
	name := c.fld(fnode, "Value")
	ctx := c.fld(er.recv, "ctx")
	cust := c.fld(ctx, "CustomFunc")
	if name == nil || cust == nil {
		c.und(rule, "call", "the name of the function or the custom functions are not resolved")
		return
	}
	var R *Term
	for _, p := range er.paths {
		if ev, _ := er.evalOf(p, recv); ev != nil {
			if R != nil && R != ev.Res {
				c.und(rule, "call", "the receiver is evaluated more than once")
				return
			}
			R = ev.Res
		}
	}
	if R == nil {
		c.und(rule, "call", "the evaluation of the receiver was not found")
		return
	}
	var kinds []string
	for k := range customField {
		kinds = append(kinds, k)
	}
	sort.Strings(kinds)
	kinds = append(kinds, "*object.Nil", "*object.Obj")
	for _, k := range kinds {
		cc := &callCase{er: er, kind: k, R: R, name: name}
		short := strings.TrimPrefix(k, "*object.")
		if fl := customField[k]; fl != "" {
			tc := c.typeConst(k)
			if tc == nil {
				c.und(rule, short, "the type name is not resolved")
				continue
			}
			tn, _ := tc.strVal()
			cc.inner = inner[tn]
			if cc.inner == nil {
				c.und(rule, short, "the table of the type was not found")
				continue
			}
			cc.builtin = mk("maphas", "", nil, nil, cc.inner, name)
			m := c.fld(cust, fl)
			if m == nil {
				c.und(rule, short, "the custom functions of the type were not found")
				continue
			}
			cc.cust = mk("lookup", "", nil, nil, m, name)
			cc.noCust = []*Term{mk("maphas", "", nil, nil, m, name), mkNot(mkEq(cust, mkNil())), mkNot(mkEq(m, mkNil()))}
		}
		crs := map[string]*caseRun{}
		order := []string{"a built-in is called", "a custom function is called only when no built-in has its name", "an unknown name is an error"}
		if k == "*object.Nil" || k == "*object.Obj" {
			order = order[2:]
		}
		for _, o := range order {
			crs[o] = c.newCase(rule, short+": "+o)
			if !er.complete {
				crs[o].add(vUnd, 0, "path enumeration is incomplete")
			}
		}
		for _, p := range er.paths {
			if p.Outcome != "return" || len(p.Ret) != 1 {
				if p.Outcome == "limit" {
					for _, cr := range crs {
						cr.add(vUnd, 0, "a path was not followed to its end")
					}
				}
				continue
			}
			f := c.withKind(p.Facts, R, k)
			if f == nil {
				continue
			}
			cc.path(p, f, crs, prec)
		}
		for _, o := range order {
			crs[o].done()
		}
	}
}

func (cc *callCase) path(p *Path, f *Facts, crs map[string]*caseRun, prec bool) {
	er, c := cc.er, cc.er.c
	pos := lastPos(p)
	ret := p.Ret[0]
	// an argument failed
	for _, ev := range er.evals(p) {
		if ev.Res != cc.R && er.isErr(f, ev.Res) == 1 {
			return
		}
	}
	var dyns []*Event
	for _, ev := range p.Events {
		if ev.Kind == "dyncall" {
			dyns = append(dyns, ev)
		}
	}
	if len(dyns) == 0 && er.isErr(f, ret) == 1 && ret.Op != "iface" && ret.Op != "alloc" && !strings.HasPrefix(ret.Sym, "evaluator.Evaluator.newError") {
		return // an argument's error handed on
	}
	uk := "an unknown name is an error"
	if cc.builtin == nil {
		switch {
		case len(dyns) > 0:
			crs[uk].add(vUnd, pos, "a function is called on a value without functions")
		case er.isErr(f, ret) == 1:
			crs[uk].add(cc.names(p, ret))
		case er.isErr(f, ret) == 0 && er.factsKnown(p):
			crs[uk].add(vBad, pos, "a call on a value without functions gives "+er.specRenderer(p).str(ret))
		default:
			crs[uk].add(vUnd, pos, "the result of the path is not resolved")
		}
		return
	}
	has := f.decide(c.p, cc.builtin)
	cu := -1
	if has != 1 {
		if f.decide(c.p, mkEq(cc.cust, mkNil())) == 0 {
			cu = 1
		} else if f.decide(c.p, mkEq(cc.cust, mkNil())) == 1 {
			cu = 0
		}
		for i, t := range cc.noCust {
			if v := f.decide(c.p, t); v == 0 {
				cu = 0
			} else if v == 1 && i == 0 {
				cu = 1
			}
		}
	}
	r := er.specRenderer(p)
	bi, ce := "a built-in is called", "a custom function is called only when no built-in has its name"
	known := er.callFacts(p)
	und := func(k, why string) { crs[k].add(vUnd, pos, why) }
	bad := func(k, why string) {
		if known {
			crs[k].add(vBad, pos, why)
		} else {
			und(k, why)
		}
	}
	switch {
	case has == 1:
		if len(dyns) != 1 {
			bad(bi, fmt.Sprintf("%d functions are called although the type has a built-in of the name", len(dyns)))
			return
		}
		fn := r.str(dyns[0].Args[0])
		switch {
		case cc.isCustom(dyns[0].Args[0]) != "":
			bad(bi, "the custom function is called although the type has a built-in of the name")
		case !cc.isBuiltin(dyns[0].Args[0]):
			und(bi, "the called function "+fn+" is not resolved")
		default:
			cc.builtinCall(p, f, dyns[0], crs[bi])
		}
	case len(dyns) == 1 && cc.isCustom(dyns[0].Args[0]) != "":
		fl := cc.isCustom(dyns[0].Args[0])
		switch {
		case has == -1:
			bad(ce, "the custom function is called without a look-up in the built-in functions")
		case fl != customField[cc.kind]:
			bad(ce, "the function registered for "+fl+" is called on a value of type "+strings.TrimPrefix(cc.kind, "*object."))
		case prec:
			crs[ce].add(vOK, pos, "")
		case cu != 1 && has == 0 && !cc.registered(f, dyns[0].Args[0]):
			bad(uk, "the function for "+fl+" is called where none may be registered under the name")
		default:
			cc.customCall(p, f, dyns[0], crs[ce])
		}
	case len(dyns) > 0:
		und(ce, "the called function "+r.str(dyns[0].Args[0])+" is not resolved")
	case has == 0 && cu == 1:
		bad(ce, "a registered function is not called")
	case has == 0 && cu == 0:
		if er.isErr(f, ret) == 1 {
			crs[uk].add(cc.names(p, ret))
		} else if er.isErr(f, ret) == 0 {
			bad(uk, "calling an unknown function gives "+r.str(ret))
		} else {
			und(uk, "the result of the path is not resolved")
		}
	default:
		// no function is called and the path does not know that there is none
		other := ""
		for b := range f.bools {
			b.walk(func(x *Term) bool {
				if x.Op == "lookup" || x.Op == "maphas" {
					if fl := cc.isCustom(mk("lookup", "", nil, nil, x.Args...)); fl != "" && fl != customField[cc.kind] {
						other = fl
					}
				}
				return true
			})
		}
		if er.isErr(f, ret) == 1 && has == 0 && cu == -1 && other != "" {
			bad(uk, "the functions registered for "+other+" decide whether one is called on a value of type "+strings.TrimPrefix(cc.kind, "*object."))
		} else if w, ok := cc.unasked(f); ok && er.isErr(f, ret) == 1 && cu == -1 {
			bad(uk, fmt.Sprintf("a call of %q is refused without a look-up among the registered functions", w))
		} else {
			und(uk, "the path does not establish that there is no such function")
		}
	}
}

func libCall(t *Term) bool {
	n, _, _ := strings.Cut(t.Sym, "#")
	return t.Op == "call" && (contractLib[n+"("] || contractLib[baseName(n)+"("])
}

// callFacts: what the path knows is expressed in the vocabulary of calls.
func (er *evalRun) callFacts(p *Path) bool {
	ok := true
	for b := range p.Facts.bools {
		b.walk(func(x *Term) bool {
			switch x.Op {
			case "call", "inv":
				n, _, _ := strings.Cut(x.Sym, "#")
				if n != evalFn && n != "object.NativeToObject" && !strings.HasPrefix(n, "Is") && n != "Type" {
					ok = false
				}
			case "havoc", "unk":
				ok = false
			}
			return ok
		})
	}
	return ok
}

// registered: the path knows that the map has the function.
func (cc *callCase) registered(f *Facts, t *Term) bool {
	c := cc.er.c
	if f.decide(c.p, mkEq(t, mkNil())) == 0 {
		return true
	}
	for t.Op == "ext" || t.Op == "init" {
		t = t.Args[0]
	}
	return t.Op == "lookup" && f.decide(c.p, mk("maphas", t.Sym, nil, nil, t.Args...)) == 1
}

// isBuiltin: the function is the one of the built-in table.
func (cc *callCase) isBuiltin(t *Term) bool {
	found := false
	t = stripEpoch(t)
	in := stripEpoch(cc.inner)
	t.walk(func(x *Term) bool {
		if x.Op == "lookup" && x.Args[0] == in && x.Args[1] == stripEpoch(cc.name) {
			found = true
		}
		return !found
	})
	return found
}

// isCustom: the function is registered; the kind of receiver it is for.
func (cc *callCase) isCustom(t *Term) string {
	if t.Op != "lookup" && t.Op != "ext" && t.Op != "init" {
		return ""
	}
	m := stripEpoch(t)
	for m.Op == "ext" {
		m = m.Args[0]
	}
	if m.Op != "lookup" || m.Args[1] != stripEpoch(cc.name) {
		return ""
	}
	cust := stripEpoch(cc.er.c.fld(cc.er.c.fld(cc.er.recv, "ctx"), "CustomFunc"))
	for _, fl := range customField {
		if m.Args[0] == stripEpoch(cc.er.c.fld(cust, fl)) {
			return fl
		}
	}
	return ""
}

func (cc *callCase) keep(p *Path) func(q *Path) bool {
	return func(q *Path) bool {
		return cc.er.c.withKind(q.Facts, cc.R, cc.kind) != nil && cc.er.compatible(p, q)
	}
}

// compatible: what two paths know outside of loops does not contradict.
func (er *evalRun) compatible(p, q *Path) bool {
	for b, v := range p.Facts.bools {
		inLoop := false
		b.walk(func(t *Term) bool {
			inLoop = inLoop || t.Op == "loopk" || t.Op == "rkey" || t.Op == "more"
			return !inLoop
		})
		if inLoop {
			continue
		}
		if d := q.Facts.decide(er.c.p, b); d == 1 && !v || d == 0 && v {
			return false
		}
	}
	return true
}

// contentsIs: the list holds the given elements.
func (cc *callCase) contentsIs(p *Path, v *Term, want ...string) (verdict, string) {
	s := cc.er.contents(p, v, cc.keep(p))
	got := strings.Join(s.list, "; ")
	if s.why != "" {
		return s.failed()
	}
	for _, w := range want {
		if got == w && len(s.swap) == 0 {
			return vOK, ""
		}
		for _, x := range cc.empties(p) {
			if len(s.list) == 0 && strings.HasSuffix(w, " : len("+cc.er.specRenderer(p).str(x)+")") {
				return vOK, ""
			}
		}
	}
	if strings.Contains(got, "?") || strings.Contains(got, "…") || strings.Contains(got, "loop") {
		return vUnd, "the list {" + got + "} is not resolved"
	}
	return vBad, "the list holds {" + got + "}, expected {" + want[0] + "}"
}

const argsWant = "[k] <- E(node.Arguments[k]) : len(node.Arguments)"

func (cc *callCase) builtinCall(p *Path, f *Facts, ev *Event, cr *caseRun) {
	er, c := cc.er, cc.er.c
	pos := ev.Pos
	r := er.specRenderer(p)
	if len(ev.Args) != 4 {
		cr.add(vUnd, pos, "the arguments of the call are not resolved")
		return
	}
	if t := ev.Args[2]; stripIface(t) != cc.R && !sameValue(stripIface(t), cc.R) {
		cr.add(vUnd, pos, "the receiver handed to the built-in is "+r.str(t))
		return
	}
	if v, why := cc.contentsIs(p, ev.Args[3], argsWant); v != vOK {
		cr.add(v, pos, "arguments of the built-in: "+why)
		return
	}
	res, err := mk("ext", "0", nil, nil, ev.Res), mk("ext", "1", nil, nil, ev.Res)
	for _, ret := range p.Ret {
		k := f.decide(c.p, mkEq(err, mkNil()))
		if k == -1 {
			if kk, ok := f.kind(c.p, err).single(); ok && kk == "nil" {
				k = 1
			} else if !f.kind(c.p, err).has("nil") {
				k = 0
			}
		}
		switch {
		case sameExt(ret, res):
			if k == 1 {
				cr.add(vOK, pos, "")
			} else if k == 0 {
				cr.add(vBad, pos, "the result of a failed built-in is used")
			} else {
				cr.add(vBad, pos, "the result of a built-in is used without a look at its error")
			}
		case er.isErr(f, ret) == 1:
			if k == 0 {
				cr.add(vOK, pos, "")
			} else if k == 1 {
				cr.add(vBad, pos, "an error is returned after a successful built-in")
			} else {
				cr.add(vUnd, pos, "an error is returned, the built-in may have succeeded")
			}
		default:
			cr.add(vUnd, pos, "the result "+r.str(ret)+" is not resolved")
		}
	}
}

func sameExt(a, b *Term) bool {
	a = stripIface(a)
	return a.Op == "ext" && b.Op == "ext" && a.Sym == b.Sym && a.Args[0] == b.Args[0]
}

func stripIface(t *Term) *Term {
	for t.Op == "iface" {
		t = t.Args[0]
	}
	return t
}

func sameValue(a, b *Term) bool {
	for a.Op == "cast" || a.Op == "iface" {
		a = a.Args[0]
	}
	for b.Op == "cast" || b.Op == "iface" {
		b = b.Args[0]
	}
	return a == b
}

func (cc *callCase) customCall(p *Path, f *Facts, ev *Event, cr *caseRun) {
	er, c := cc.er, cc.er.c
	pos := ev.Pos
	r := er.specRenderer(p)
	if len(ev.Args) != 3 {
		cr.add(vUnd, pos, "the arguments of the call are not resolved")
		return
	}
	got := r.str(stripIface(ev.Args[1]))
	E := "E(node.Receiver)"
	want := map[string][]string{
		"*object.Str":   {"String(" + E + ")", E + ".Value"},
		"*object.Int":   {E + ".Value", "int(" + E + ".Value)"},
		"*object.Float": {E + ".Value"},
		"*object.Bool":  {E + ".Value"},
	}[cc.kind]
	if cc.kind == "*object.Array" && got == "Val("+E+")" {
		// what Val gives of a list is the list of Val of its elements
	} else if cc.kind == "*object.Array" {
		if v, why := cc.contentsIs(p, stripIface(ev.Args[1]), "[k] <- Val("+E+".Elements[k]) : len("+E+".Elements)"); v != vOK {
			cr.add(v, pos, "the receiver handed to the custom function: "+why)
			return
		}
	} else if !slices.Contains(want, got) {
		v := vBad
		if !c.resolved(p, ev.Args[1], func(t *Term) bool {
			return er.input(t) || t.Op == "inv" && (t.Sym == "Val" || t.Sym == "String") || libCall(t)
		}) {
			v = vUnd
		}
		cr.add(v, pos, "the custom function receives "+got+" as its receiver, expected "+want[0])
		return
	}
	if v, why := cc.nativeArgs(p, stripIface(ev.Args[2])); v != vOK {
		cr.add(v, pos, "arguments of the custom function: "+why)
		return
	}
	ret := p.Ret[0]
	if cc.kind == "*object.Bool" {
		if v, _ := er.boolIs(p, f, ret, ev.Res); v == vOK {
			cr.add(vOK, pos, "")
			return
		}
	}
	d := r.str(ev.Res)
	res := r.str(stripIface(ret))
	nto := "object.NativeToObject(" + d + ")"
	switch {
	case res == nto:
		if cc.kind == "*object.Array" && f.kind(c.p, ret).has("nil") {
			cr.add(vBad, pos, "the result of a custom function that is no template value is returned as nil")
			return
		}
		cr.add(vOK, pos, "")
	case cc.kind != "*object.Array" && (res == strings.TrimPrefix(cc.kind, "*object.")+"{Value: "+d+"}" || res == strings.TrimPrefix(cc.kind, "*object.")+"{Value: int64("+d+")}"):
		cr.add(vOK, pos, "")
	case er.isErr(f, ret) == 1:
		for _, e := range p.Events {
			if e.Kind == "call" && e.Fn == "object.NativeToObject" {
				k := f.kind(c.p, e.Res)
				if n, ok := k.single(); ok && n == "nil" {
					cr.add(vOK, pos, "")
					return
				}
				if er.isErr(f, e.Res) == 1 {
					cr.add(vOK, pos, "")
					return
				}
			}
		}
		cr.add(vUnd, pos, "an error is returned after the custom function")
	default:
		if c.resolved(p, ret, func(t *Term) bool {
			return er.input(t) || t == ev.Res || t.Op == "call" && strings.HasPrefix(t.Sym, "object.NativeToObject#")
		}) {
			cr.add(vBad, pos, "the result of the custom function becomes "+res+", expected "+nto)
		} else {
			cr.add(vUnd, pos, "the result "+res+" is not resolved")
		}
	}
}

// nativeArgs: the list holds Val() of every evaluated argument.
func (cc *callCase) nativeArgs(p *Path, v *Term) (verdict, string) {
	er := cc.er
	s := er.contents(p, v, cc.keep(p))
	if s.why != "" {
		return s.failed()
	}
	if len(s.list) == 1 && s.list[0] == "[k] <- Val(E(node.Arguments[k])) : len(node.Arguments)" && len(s.swap) == 0 {
		return vOK, ""
	}
	if len(s.list) == 0 {
		for _, x := range cc.empties(p) {
			if er.specRenderer(p).str(x) == "node.Arguments" {
				return vOK, ""
			}
			if w, _ := cc.contentsIs(p, x, argsWant); w == vOK {
				return vOK, ""
			}
		}
	}
	// through the list of evaluated arguments
	var src *Term
	if v.Op == "loopv" || v.Op == "makeslice" {
		for _, q := range er.paths {
			if q.Outcome != "back" || !cc.keep(p)(q) {
				continue
			}
			for n, t := range q.Vals {
				if v.Op != "loopv" || q.Loop+"."+n != v.Sym {
					continue
				}
				t.walk(func(x *Term) bool {
					if x.Op == "inv" && x.Sym == "Val" && len(x.Args) > 0 {
						src = listOf(x.Args[0])
					}
					return true
				})
			}
			for _, e := range q.Events {
				if e.Kind == "store" && e.Addr.Op == "&i" && e.Addr.Args[0] == v {
					e.Val.walk(func(x *Term) bool {
						if x.Op == "inv" && x.Sym == "Val" && len(x.Args) > 0 {
							src = listOf(x.Args[0])
						}
						return true
					})
				}
			}
		}
	}
	got := strings.Join(s.list, "; ")
	if src == nil {
		if strings.Contains(got, "?") || strings.Contains(got, "acc") || strings.Contains(got, "…") {
			return vUnd, "the list {" + got + "} is not resolved"
		}
		return vBad, "the list holds {" + got + "}, expected the plain values of the arguments"
	}
	r := er.specRenderer(p)
	l := r.str(src)
	if got != "[k] <- Val("+l+"[k]) : "+r.str(mkLen(src)) && got != "[k] <- Val("+l+"[k]) : len("+l+")" || len(s.swap) > 0 {
		if strings.Contains(got, "?") || strings.Contains(got, "…") {
			return vUnd, "the list {" + got + "} is not resolved"
		}
		return vBad, "the list holds {" + got + "}, expected the plain values of the arguments " + l
	}
	return cc.contentsIs(p, src, argsWant)
}

// empties are the lists the path knows to be empty.
func (cc *callCase) empties(p *Path) []*Term {
	var out []*Term
	add := func(t *Term) {
		if t.Op == "len" && !slices.Contains(out, t.Args[0]) && p.Facts.decide(cc.er.c.p, mkEq(t, mkInt(0))) == 1 {
			out = append(out, t.Args[0])
		}
	}
	for t := range p.Facts.eq {
		add(t)
	}
	for t := range p.Facts.vars {
		add(t)
	}
	for b := range p.Facts.bools {
		b.walk(func(x *Term) bool { add(x); return true })
	}
	return out
}

// listOf is the list an element was read from.
func listOf(t *Term) *Term {
	for {
		switch {
		case t.Op == "&i":
			return t.Args[0]
		case (t.Op == "init" || t.Op == "iface" || t.Op == "cast" || t.Op == "load" || t.Op == "loopm") && len(t.Args) > 0:
			t = t.Args[0]
		default:
			return nil
		}
	}
}

// names: the error names the function and the type.
func (cc *callCase) names(p *Path, ret *Term) (verdict, token.Pos, string) {
	er := cc.er
	at := lastPos(p)
	var msgs []string
	for _, ev := range p.Events {
		if ev.Kind == "call" && (ev.Fn == "fmt.Sprintf" || ev.Fn == "fail.New" || ev.Fn == "fmt.Errorf") {
			r := er.specRenderer(p)
			for _, a := range ev.Args {
				msgs = append(msgs, r.str(a))
			}
		}
	}
	if len(msgs) == 0 {
		return vOK, at, "" // built some other way
	}
	all := strings.Join(msgs, " ")
	tn := ""
	if tc := er.c.typeConst(cc.kind); tc != nil {
		tn, _ = tc.strVal()
	}
	fn := strings.Contains(all, "node.Function")
	ty := strings.Contains(all, "Type(E(node.Receiver)") || tn != "" && strings.Contains(all, tn) || strings.Contains(all, "E(node.Receiver)")
	switch {
	case fn && ty:
		return vOK, at, ""
	case !fn:
		return vBad, at, "the error of an unknown function does not name the function: " + all
	}
	return vBad, at, "the error of an unknown function does not name the type of the receiver: " + all
}

// fld reads a field through a pointer to a struct.
func (c *Checker) fld(base *Term, field string) *Term {
	if base == nil || base.Typ == nil {
		return nil
	}
	pt, ok := base.Typ.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	s, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == field {
			return mkInit(mkFieldAddr(fieldOwner(pt.Elem(), i), base, types.NewPointer(s.Field(i).Type())), "", s.Field(i).Type())
		}
	}
	return nil
}

// unasked: the path refuses some name by its text; the name.
func (cc *callCase) unasked(f *Facts) (string, bool) {
	var conds []*Term
	texts := []string{"f", "_f", "F", "f1", "fooBar", "foo_bar", ""}
	for b := range f.bools {
		named, asked := false, false
		b.walk(func(x *Term) bool {
			named = named || x == cc.name
			asked = asked || x.Op == "lookup" || x.Op == "maphas"
			return true
		})
		if named && !asked {
			conds = append(conds, b)
			texts = append(texts, constTexts(b)...)
		}
	}
	if len(conds) == 0 {
		return "", false
	}
	for _, w := range texts {
		env := map[*Term]constant.Value{cc.name: constant.MakeString(w)}
		ok := true
		for _, b := range conds {
			v, k := cc.er.c.fold(b, env)
			if ok = k && v.Kind() == constant.Bool && constant.BoolVal(v) == f.bools[b]; !ok {
				break
			}
		}
		if ok {
			return w, true
		}
	}
	return "", false
}
