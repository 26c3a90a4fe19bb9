package main

import (
	"fmt"
	"go/types"
	"math"
	"reflect"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C09: the evaluation of what parses never panics.

func init() { checks["C09"] = checkC09 }

func checkC09(c *Checker) {
	c.rule("C09.nodes", "the evaluation of every node kind performs no operation that can panic: the fields it uses unguarded are never nil after a parse without errors (null model of the parser), assertions match the kinds known on the path, divisors are not zero, positions are in range")
	c.rule("C09.value", "evaluating a node gives a value or an error object, never nil")
	c.rule("C09.builtin", "no built-in performs an operation that can panic, whatever the kinds, number and values of its arguments, and it gives a value or an error")
	c.rule("C09.object", "printing, dumping and converting a value performs no operation that can panic, and no nil is stored in a value")
	c.rule("C09.data", "the conversion of the data uses every reflect method only on the kinds it is defined for, and a value that is not supported is not stored")
	c.rule("C09.call", "library functions that panic or exhaust memory on some arguments are called with counts that are checked")
	c.rule("C09.link", "linking and rendering perform no operation that can panic")
	c.rule("C09.line", "an error of the evaluation has the line of the faulty construct")
	c.rule("C09.report", "faults of the evaluation are given back as errors")
	fr := &faults{c: c, nm: c.nullModel(), libs: map[string]int{}, elemNil: map[string]int{}}
	fr.nodes()
	fr.builtins()
	fr.objects()
	fr.data()
	fr.linking()
	c.evalErrors("C09.line")
}

// faults judges the operations of the evaluation that can panic.
type faults struct {
	c       *Checker
	nm      *nullModel
	libs    map[string]int
	elemNil map[string]int
}

func (fr *faults) exec(f *ssa.Function, names []string, o runOpts) *evalRun {
	o.deref = true
	er := fr.c.fnRun(f, names, o, nil)
	if er != nil {
		fr.c.paths += len(er.paths)
	}
	return er
}

// astKinds are the node types.
func (c *Checker) astKinds() (r []string) {
	for _, n := range c.p.named {
		if k := shortType(n); strings.HasPrefix(k, "*ast.") {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	return r
}

func (fr *faults) nodes() {
	c := fr.c
	n := 0
	for _, k := range c.astKinds() {
		var op []string
		if entry, conv := c.converter(); conv != nil {
			op = append(op, c.p.fullName(entry), c.p.fullName(conv))
		}
		er := c.evalPaths(k, runOpts{deref: true, opaque: op})
		if er == nil {
			continue
		}
		name := "evaluation of " + strings.TrimPrefix(k, "*ast.")
		cr := c.newCase("C09.nodes", name)
		cv := c.newCase("C09.value", name)
		if !er.complete {
			cr.add(vUnd, 0, "path enumeration is incomplete")
			cv.add(vUnd, 0, "path enumeration is incomplete")
		}
		fr.judgeAll(cr, er)
		ce := c.newCase("C09.report", name)
		fr.reported(ce, er)
		ce.done()
		n += len(er.paths)
		for _, p := range er.paths {
			if p.Outcome != "return" || len(p.Ret) != 1 {
				continue
			}
			v, why := fr.nilness(er, p, p.Facts, p.Ret[0], 0)
			switch v {
			case nlSet:
				cv.add(vOK, lastPos(p), "")
			case nlNil:
				cv.add(vBad, lastPos(p), "the result may be nil: "+why)
			default:
				cv.add(vUnd, lastPos(p), "the result is "+er.specRenderer(p).str(p.Ret[0]))
			}
		}
		cr.done()
		cv.done()
	}
	if n == 0 {
		c.und("C09.nodes", "evaluation", "anchor not found")
	}
}

// judgeAll judges every operation of a run.
func (fr *faults) judgeAll(cr *caseRun, er *evalRun) {
	cr.add(vOK, 0, "")
	seen := map[string]bool{}
	for _, p := range er.paths {
		if p.Outcome == "limit" {
			cr.add(vUnd, lastPos(p), "a path is too long")
		}
		for _, ev := range p.Events {
			var v verdict
			var why string
			switch ev.Kind {
			case "panicop":
				v, why = fr.judge(er, p, ev)
			case "call":
				if ev.Fn == evalFn {
					v, why = fr.evalArg(er, p, ev)
				} else {
					v, why = fr.library(er, p, ev)
				}
			case "store", "mapupdate":
				v, why = fr.stored(er, p, ev)
			case "ifacecmp":
				v, why = fr.compared(er, p, ev)
			case "invoke":
				if ev.Args[0] != nil && strings.HasPrefix(shortType(typeOr(ev.Args[0])), "reflect.") {
					continue
				}
			default:
				continue
			}
			key := fmt.Sprint(v, why, ev.Pos)
			if seen[key] || v == vBad && fr.excluded(factsOf(p, ev)) {
				continue
			}
			seen[key] = true
			cr.add(v, ev.Pos, fr.c.p.pos(ev.Pos)+": "+why)
		}
	}
}

// excluded: the facts contradict what the parser stores in a node.
func (fr *faults) excluded(f *Facts) bool {
	for t, ks := range f.kinds {
		own, ok := astField(t)
		if !ok {
			continue
		}
		mk := fr.nm.kinds[own]
		if len(mk) == 0 || mk["?"] {
			continue
		}
		any := false
		for k := range mk {
			any = any || ks.has(k)
		}
		if any {
			continue
		}
		i := strings.LastIndex(own, ".")
		if n, _ := fr.nm.field(own[:i], own[i+1:], func(string) int { return 0 }); n == nlSet || !ks.has("nil") {
			return true
		}
	}
	return false
}

// factsOf are the facts where an event happens.
func factsOf(p *Path, ev *Event) *Facts {
	if ev.Facts != nil {
		return ev.Facts
	}
	return p.Facts
}

// evalArg: the node that is evaluated is there.
func (fr *faults) evalArg(er *evalRun, p *Path, ev *Event) (verdict, string) {
	if len(ev.Args) < 3 {
		return vOK, ""
	}
	f := factsOf(p, ev)
	switch v, why := fr.nilness(er, p, f, ev.Args[1], 0); v {
	case nlSet:
	case nlNil:
		return vBad, "a node is evaluated that may be absent: " + why
	default:
		return vUnd, "a node is evaluated that may be absent: " + why
	}
	switch v, why := fr.nilness(er, p, f, ev.Args[2], 0); v {
	case nlSet:
	case nlNil:
		return vBad, "the environment may be nil: " + why
	default:
		return vUnd, "the environment may be nil: " + why
	}
	return vOK, ""
}

// compared: the comparison of two values of unknown types panics when both
// are lists or both are maps.
func (fr *faults) compared(er *evalRun, p *Path, ev *Event) (verdict, string) {
	f := factsOf(p, ev)
	res, why := vBad, ""
	for _, t := range ev.Args {
		it, ok := typeOr(t).Underlying().(*types.Interface)
		if !ok || it.NumMethods() > 0 {
			return vOK, "" // the types with methods are pointers
		}
		if t.Op == "iface" {
			if types.Comparable(typeOr(t.Args[0])) {
				return vOK, ""
			}
			continue
		}
		if t.Op != "inv" || !strings.HasPrefix(t.Sym, "Val") || len(t.Args) == 0 {
			res, why = vUnd, "values of unknown types are compared"
			continue
		}
		k := f.kind(fr.c.p, t.Args[0])
		if !k.has("*object.Array") && !k.has("*object.Obj") {
			return vOK, ""
		}
		if why == "" {
			why = "the contents of two values are compared, which panics for arrays and objects"
		}
	}
	return res, why
}

// appended: the value becomes a part of a list whose length is not known.
func appended(p *Path, from int, v *Term) bool {
	in := func(t *Term) bool {
		return t != nil && t.mentions(func(t *Term) bool {
			return t.Op == "append" && t.mentions(func(t *Term) bool { return t == v })
		})
	}
	for _, ev := range p.Events[from+1:] {
		if in(ev.Val) {
			return true
		}
		for _, a := range ev.Args {
			if in(a) {
				return true
			}
		}
	}
	for b := range p.Facts.bools {
		if in(b) {
			return true
		}
	}
	for _, t := range p.Ret {
		if in(t) {
			return true
		}
	}
	return false
}

// stored: nil is not stored in a value.
func (fr *faults) stored(er *evalRun, p *Path, ev *Event) (verdict, string) {
	if ev.Val == nil {
		return vOK, ""
	}
	t := ev.Addr
	into := ""
	switch {
	case ev.Kind == "mapupdate" && t.Typ != nil:
		m, ok := t.Typ.Underlying().(*types.Map)
		if !ok || shortType(m.Elem()) != "object.Object" {
			return vOK, ""
		}
		into = "a map of values"
	case t.Op == "&i":
		pt, ok := typeOr(t).Underlying().(*types.Pointer)
		if !ok || shortType(pt.Elem()) != "object.Object" {
			return vOK, ""
		}
		into = "a list of values"
	default:
		return vOK, ""
	}
	switch v, why := fr.nilness(er, p, factsOf(p, ev), ev.Val, 0); v {
	case nlNil:
		return vBad, "nil may be stored in " + into + ": " + why
	case nlUnknown:
		return vUnd, "nil may be stored in " + into + ": " + why
	}
	return vOK, ""
}

// nilness tells whether a value may be nil where the facts hold.
func (fr *faults) nilness(er *evalRun, p *Path, f *Facts, v *Term, d int) (int, string) {
	c := fr.c
	if v == nil || d > 8 {
		return nlUnknown, "?"
	}
	r := er.specRenderer(p)
	r.facts = f
	if v.isNil() {
		return nlNil, "it is nil"
	}
	if v.Op == "iface" {
		if _, ok := typeOr(v.Args[0]).Underlying().(*types.Pointer); ok {
			return fr.nilness(er, p, f, v.Args[0], d+1)
		}
		return nlSet, ""
	}
	if v.Op == "cast" {
		// an assertion to a pointer type holds for a typed nil, too
		return fr.nilness(er, p, f, v.Args[0], d+1)
	}
	if t := v.Typ; t != nil && isIface(t) && !f.kind(c.p, v).has("nil") {
		if _, model := astField(v); !model {
			return nlSet, ""
		}
	}
	switch f.decide(c.p, mkEq(v, mkNil())) {
	case 0:
		return nlSet, ""
	case 1:
		return nlNil, r.str(v) + " is nil"
	}
	switch v.Op {
	case "alloc", "mapalloc", "makeslice", "slicelit", "closure", "func", "&f", "&i", "global", "param", "fv":
		return nlSet, ""
	case "init":
		a := v.Args[0]
		switch a.Op {
		case "&f":
			own := a.Sym
			i := strings.LastIndex(own, ".")
			kind, field := own[:i], own[i+1:]
			if strings.HasPrefix(kind, "ast.") {
				n, why := fr.nm.field(kind, field, func(g string) int { return sister(c, f, v, kind, g) })
				if n == nlNil {
					why = r.str(v) + " may be absent"
				} else if n == nlUnknown {
					why = r.str(v) + " " + why
				}
				return n, why
			}
			if strings.HasPrefix(kind, "object.") && kind != "object.Env" {
				return fr.objField(er, p, f, v, kind, field)
			}
			if fr.c.fieldSet(own) {
				return nlSet, ""
			}
			return nlUnknown, r.str(v)
		case "&i":
			return fr.elem(r, a.Args[0], v)
		case "global":
			return nlUnknown, r.str(v)
		}
		if v.Typ != nil && shortType(v.Typ) == "object.Object" {
			return nlSet, ""
		}
		return nlUnknown, r.str(v)
	case "lookup":
		if len(v.Args) == 2 {
			if f.decide(c.p, mk("maphas", v.Sym, nil, nil, v.Args...)) == 1 || v.Args[1].Op == "rkey" {
				return fr.elem(r, v.Args[0], v)
			}
			// the key comes from the map or from a list of its keys
			if v.Args[1].Op == "init" || v.Args[1].mentions(func(t *Term) bool { return t.Op == "rkey" || t.Op == "loopk" || t.Op == "loopv" || t.Op == "loopm" }) {
				return fr.elem(r, v.Args[0], v)
			}
			if v.Args[1].Op == "call" {
				return nlUnknown, r.str(v)
			}
			return nlNil, "the map may have no such entry: " + r.str(v)
		}
	case "call":
		n := strings.SplitN(v.Sym, "#", 2)[0]
		switch {
		case n == "(reflect.Value).Type":
			return nlSet, ""
		case n == "parser.Parser.ParseProgram":
			return nlSet, "" // without errors; that they are looked at is a rule of C08
		case n == evalFn || n == "object.NewEnv" || n == "object.NewEnclosedEnv":
			return nlSet, ""
		case n == "object.NativeToObject":
			return nlNil, "the result of NativeToObject for a value that is not supported"
		}
		if g, ok := v.Obj.(*ssa.Function); ok && c.p.inRepo(g) {
			if entry, conv := c.converter(); g == entry || g == conv {
				return nlNil, "the conversion of a value that is not supported"
			}
		}
	case "ext":
		if fr.paired(f, v) {
			return nlSet, ""
		}
		return nlUnknown, r.str(v)
	case "loopv", "loopm":
		init, step, ok := loopValues(v, er.paths)
		if !ok {
			if v.Typ != nil && shortType(v.Typ) == "object.Object" {
				return nlUnknown, r.str(v)
			}
			return nlUnknown, r.str(v)
		}
		res, rw := nlSet, ""
		for _, x := range append(init, step...) {
			if x.t == v {
				continue
			}
			if n, why := fr.nilness(er, x.p, x.p.Facts, x.t, d+1); n > res {
				res, rw = n, why
			}
		}
		return res, rw
	case "dyn":
		return nlUnknown, r.str(v)
	case "inv":
		if len(v.Args) > 0 && strings.HasPrefix(shortType(typeOr(v.Args[0])), "reflect.Type") {
			return nlSet, ""
		}
	}
	return nlUnknown, r.str(v)
}

// astField: the term reads a field of a node.
func astField(v *Term) (string, bool) {
	if v.Op == "init" && v.Args[0].Op == "&f" && strings.HasPrefix(v.Args[0].Sym, "ast.") {
		return v.Args[0].Sym, true
	}
	return "", false
}

// sister: what is known of another field of the same node; 0 nothing.
func sister(c *Checker, f *Facts, v *Term, kind, field string) int {
	n := c.p.typeByNm[kind]
	if n == nil {
		return 0
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return 0
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() != field {
			continue
		}
		x := mkInit(mkFieldAddr(kind+"."+field, v.Args[0].Args[0], types.NewPointer(st.Field(i).Type())), v.Sym, st.Field(i).Type())
		for _, y := range []*Term{x, mkInit(x.Args[0], "", st.Field(i).Type())} {
			if isIface(y.Typ) {
				k := f.kind(c.p, y)
				if !k.has("nil") {
					return nlSet
				}
				if s, one := k.single(); one && s == "nil" {
					return nlNil
				}
			}
			switch f.decide(c.p, mkEq(y, mkNil())) {
			case 0:
				return nlSet
			case 1:
				return nlNil
			}
		}
	}
	return 0
}

// elem: an element of a list or map.
func (fr *faults) elem(r *renderer, coll, v *Term) (int, string) {
	var et types.Type
	if v.Typ != nil {
		et = v.Typ
	}
	if et != nil && shortType(et) == "object.Object" {
		return nlSet, "" // no nil is stored in a value
	}
	if coll.Op == "mapalloc" {
		// a table of the program
		n, all := 0, true
		for a, x := range fr.c.p.gmem.mem {
			if a.Op == "&m" && a.Args[0] == coll {
				n++
				all = all && newFacts().decide(fr.c.p, mkEq(x, mkNil())) == 0
			}
		}
		if n > 0 && all {
			return nlSet, ""
		}
	}
	if coll.Typ != nil {
		if n := fr.nm.elems[shortType(coll.Typ.Underlying())]; n != 0 {
			if n == nlNil {
				return n, r.str(v) + " may be nil"
			}
			return n, r.str(v)
		}
	}
	if et != nil && strings.Contains(shortType(et), "ast.") {
		if n := fr.nm.elems["[]"+shortType(et)]; n != 0 {
			return n, r.str(v)
		}
	}
	if et != nil {
		switch shortType(et) {
		case "*fail.Error", "*ast.Program":
			n := fr.stores(et)
			if n == nlNil {
				return n, r.str(v) + " may be nil"
			}
			return n, r.str(v)
		}
	}
	return nlUnknown, r.str(v)
}

// objField: a field of a value that holds another value.
func (fr *faults) objField(er *evalRun, p *Path, f *Facts, v *Term, kind, field string) (int, string) {
	rows := fr.c.objRows()[kind]
	res, why := nlSet, ""
	for _, row := range rows {
		fits := true
		for g, n := range row {
			if g != field && n != nlUnknown {
				if k := sister(fr.c, f, v, kind, g); k != 0 && k != n {
					fits = false
				}
			}
		}
		if !fits {
			continue
		}
		n := row[field]
		if n == 0 {
			n = nlUnknown
		}
		if n > res {
			res = n
		}
	}
	if len(rows) == 0 {
		res = nlUnknown
	}
	if res != nlSet {
		why = kind + "." + field + " may be nil"
	}
	return res, why
}

// objRows are the combinations of set and missing fields of the values the
// evaluation makes.
func (c *Checker) objRows() map[string][]nullRow {
	if c.orows != nil {
		return c.orows
	}
	rows := map[string][]nullRow{}
	c.orows = rows
	fr := &faults{c: c, nm: c.nullModel()}
	for _, k := range c.astKinds() {
		er := c.node(strings.TrimPrefix(k, "*ast."))
		if er == nil {
			continue
		}
		for _, p := range er.paths {
			seen := map[*Term]bool{}
			for _, t := range p.Ret {
				t.walk(func(a *Term) bool {
					if a.Op != "alloc" || seen[a] {
						return true
					}
					seen[a] = true
					pt, ok := typeOr(a).Underlying().(*types.Pointer)
					if !ok {
						return true
					}
					st, ok := pt.Elem().Underlying().(*types.Struct)
					name := shortType(pt.Elem())
					if !ok || !strings.HasPrefix(name, "object.") {
						return true
					}
					row := nullRow{}
					e := newExec(c.p, &Policy{})
					s := p.St.clone()
					for i := 0; i < st.NumFields(); i++ {
						ft := st.Field(i).Type()
						if !nilable(ft) {
							continue
						}
						x := e.load(s, mkFieldAddr(fieldOwner(pt.Elem(), i), a, types.NewPointer(ft)), ft)
						n, _ := fr.nilness(er, p, p.Facts, x, 0)
						row[st.Field(i).Name()] = n
					}
					for _, o := range rows[name] {
						if o.key() == row.key() {
							return true
						}
					}
					rows[name] = append(rows[name], row)
					return true
				})
			}
		}
	}
	return rows
}

// fieldSet: every value of the struct is made with the field set, and nothing
// assigns nil to it.
func (c *Checker) fieldSet(own string) bool {
	if v, ok := c.fset[own]; ok {
		return v
	}
	if c.fset == nil {
		c.fset = map[string]bool{}
	}
	i := strings.LastIndex(own, ".")
	typ := own[:i]
	n := 0
	c.fset[own] = true // what is known inductively
	res := true
	for _, f := range c.p.funcs {
		if f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Alloc:
					et := in.Type().Underlying().(*types.Pointer).Elem()
					if shortType(et) != typ {
						continue
					}
					n++
					set := false
					for _, ref := range *in.Referrers() {
						fa, ok := ref.(*ssa.FieldAddr)
						if !ok || fieldOwner(et, fa.Field) != own {
							continue
						}
						for _, r2 := range *fa.Referrers() {
							if s, ok := r2.(*ssa.Store); ok && s.Addr == fa && s.Block() == in.Block() {
								set = true
							}
						}
					}
					res = res && set
				case *ssa.Store:
					fa, ok := in.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					pt, ok := fa.X.Type().Underlying().(*types.Pointer)
					if !ok || fieldOwner(pt.Elem(), fa.Field) != own {
						continue
					}
					res = res && c.valueSet(f, in.Val, b, 0)
				}
			}
		}
	}
	res = res && n > 0
	c.fset[own] = res
	return res
}

// valueSet: the value is never nil; a parameter is judged at its callers.
func (c *Checker) valueSet(f *ssa.Function, v ssa.Value, b *ssa.BasicBlock, d int) bool {
	if d > 4 {
		return false
	}
	if c.p.nonNil().never(c.p, v, b, 0) {
		return true
	}
	prm, ok := v.(*ssa.Parameter)
	if !ok {
		return false
	}
	idx := -1
	for i, q := range f.Params {
		if q == prm {
			idx = i
		}
	}
	n := 0
	for _, g := range c.p.funcs {
		for _, bl := range g.Blocks {
			for _, in := range bl.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || ci.Common().StaticCallee() != f {
					continue
				}
				n++
				if idx >= len(ci.Common().Args) || !c.valueSet(g, ci.Common().Args[idx], bl, d+1) {
					return false
				}
			}
		}
	}
	return n > 0
}

var maybeNot = regexp.MustCompile(`may not be (\S+?),`)

// expression values: what any expression may evaluate to.
var exprKinds = []string{"*object.Int", "*object.Float", "*object.Str", "*object.Bool", "*object.Nil", "*object.Array", "*object.Obj"}

// judge decides one operation that may panic.
func (fr *faults) judge(er *evalRun, p *Path, ev *Event) (verdict, string) {
	c := fr.c
	f := factsOf(p, ev)
	r := er.specRenderer(p)
	r.facts = f
	var x *Term
	if len(ev.Args) > 0 {
		x = ev.Args[0]
	}
	switch ev.Fn {
	case "panic":
		return vBad, "an explicit panic"
	case "nilderef", "nilinvoke":
		n, why := fr.nilness(er, p, f, x, 0)
		switch n {
		case nlSet:
			return vOK, ""
		case nlNil:
			return vBad, "nil dereference: " + why
		}
		return vUnd, "possible nil dereference: " + why
	case "nilcall":
		t := x
		for t.Op == ".f" || t.Op == "&f" || t.Op == "init" && t.Args[0].Op == "&f" {
			t = t.Args[0]
		}
		if t.Op == "lookup" {
			if f.decide(c.p, mk("maphas", t.Sym, nil, nil, t.Args...)) == 1 {
				if n, _ := fr.elem(r, t.Args[0], t); n == nlSet {
					return vOK, ""
				}
				return vUnd, "a function is called that may be nil: " + shorten(r.str(x))
			}
			return vBad, "a function is called that the map may not have: " + shorten(r.str(x))
		}
		if d := f.decide(c.p, mkEq(x, mkNil())); d == 0 {
			return vOK, ""
		}
		return vUnd, "a function is called that may be nil: " + shorten(r.str(x))
	case "nilmap":
		if x.isNil() {
			return vBad, "assignment to a nil map"
		}
		if x.Op == "init" && x.Args[0].Op == "&f" && c.fieldSet(x.Args[0].Sym) {
			return vOK, ""
		}
		if x.Op == "param" || x.Op == "call" && f.decide(c.p, mkEq(x, mkNil())) == 0 {
			return vOK, ""
		}
		return vUnd, "assignment to a map that may be nil: " + shorten(r.str(x))
	case "typeassert":
		return fr.assertion(er, p, f, ev, r)
	case "divzero":
		pr := newLinProver(c, f)
		if pr.prove(linAdd(x, mkInt(1), -1)) {
			return vOK, ""
		}
		if pr.settled(p, er, x) {
			return vBad, "the divisor " + shorten(r.str(x)) + " may be zero"
		}
		return vUnd, "the divisor " + shorten(r.str(x)) + " may be zero"
	case "makeslice":
		pr := newLinProver(c, f)
		if pr.prove(x) {
			return vOK, ""
		}
		if pr.settled(p, er, x) {
			return vBad, "the length " + shorten(r.str(x)) + " may be negative"
		}
		return vUnd, "the length " + shorten(r.str(x)) + " may be negative"
	case "index":
		return fr.index(er, p, f, ev, r)
	}
	return vUnd, ev.Fn + " " + ev.Note
}

// known9: values that come from the template or the data: any value is
// possible unless the path excludes it.
func (er *evalRun) known9(t *Term) bool {
	if t.Op == "call" {
		n := strings.SplitN(t.Sym, "#", 2)[0]
		return n == evalFn
	}
	return t.Op == "loopk"
}

func shorten(s string) string {
	if len(s) > 120 {
		return s[:117] + "..."
	}
	return s
}

func (fr *faults) assertion(er *evalRun, p *Path, f *Facts, ev *Event, r *renderer) (verdict, string) {
	c := fr.c
	x := ev.Args[0]
	m := maybeNot.FindStringSubmatch(ev.Note)
	if m == nil {
		return vUnd, "assertion: " + ev.Note
	}
	ks := f.kind(c.p, x)
	if own, ok := astField(x); ok {
		// the kinds the parser stores
		mk := fr.nm.kinds[own]
		if len(mk) > 0 && !mk["?"] {
			for k := range mk {
				if k != m[1] && ks.has(k) {
					return vBad, fmt.Sprintf("%s is asserted to be %s and may be %s", r.str(x), m[1], k)
				}
			}
			return vOK, ""
		}
		if len(mk) > 0 && !ks.Neg {
			// an expression of any kind
			for _, k := range ks.names() {
				if k != m[1] && k != "nil" && fr.isExpr(k) {
					return vBad, fmt.Sprintf("%s is asserted to be %s and may be %s", r.str(x), m[1], k)
				}
			}
		}
		return vUnd, fmt.Sprintf("%s is asserted to be %s", r.str(x), m[1])
	}
	any := false
	switch {
	case x.Op == "call" && strings.HasPrefix(x.Sym, evalFn+"#"):
		any = true
	case x.Op == "init" && x.Args[0].Op == "&i", x.Op == "lookup":
		any = x.Typ != nil && shortType(x.Typ) == "object.Object"
	}
	if !ks.Neg && !ks.empty() && !ks.has(m[1]) {
		return vBad, fmt.Sprintf("%s is asserted to be %s and is %s", shorten(r.str(x)), m[1], strings.Join(ks.names(), " or "))
	}
	if x.Op == "call" && strings.HasPrefix(x.Sym, "(reflect.Value).Interface") {
		for b := range f.bools {
			if b.mentions(func(t *Term) bool { return t.Op == "call" && strings.HasPrefix(t.Sym, "(reflect.Value).Type") }) {
				return vUnd, fmt.Sprintf("%s is asserted to be %s", shorten(r.str(x)), m[1])
			}
		}
		return vBad, fmt.Sprintf("%s is asserted to be %s and may be of another type of this kind", shorten(r.str(x)), m[1])
	}
	if x.Op == "param" && !ks.Neg {
		return vUnd, fmt.Sprintf("%s is asserted to be %s", r.str(x), m[1])
	}
	for _, k := range exprKinds {
		if k != m[1] && ks.has(k) {
			v := vUnd
			if any {
				v = vBad
			}
			return v, fmt.Sprintf("%s is asserted to be %s and may be %s", shorten(r.str(x)), m[1], k)
		}
	}
	if m[1] != "" && ks.has(m[1]) {
		for _, k := range ks.names() {
			if k != m[1] {
				return vUnd, fmt.Sprintf("%s is asserted to be %s and may be %s", shorten(r.str(x)), m[1], k)
			}
		}
	}
	return vOK, ""
}

// isExpr: the node is made by the functions registered for expressions.
func (fr *faults) isExpr(kind string) bool {
	t := fr.c.p.typeByNm[kind]
	if t == nil {
		return false
	}
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == "expressionNode" {
			return len(fr.nm.rows[strings.TrimPrefix(kind, "*")]) > 0
		}
	}
	return false
}

// index: a position or bound.
func (fr *faults) index(er *evalRun, p *Path, f *Facts, ev *Event, r *renderer) (verdict, string) {
	c := fr.c
	if len(ev.Args) < 2 {
		return vUnd, "index"
	}
	i, n := ev.Args[0], ev.Args[1]
	pr := newLinProver(c, f)
	for _, t := range []*Term{i, n} {
		for a := range toLinear(t).co {
			pr.textLen(er, a)
		}
	}
	pr.loops(er)
	lo := pr.prove(i)
	d := linAdd(n, i, -1)
	if !strings.HasSuffix(ev.Note, "slice") {
		d = linAdd(d, mkInt(1), -1)
	}
	hi := pr.prove(d)
	if lo && hi {
		return vOK, ""
	}
	what := fmt.Sprintf("position %s of a list of length %s", shorten(r.str(i)), shorten(r.str(n)))
	if pr.settled(p, er, i, n) {
		return vBad, what + " may be out of range"
	}
	if w := pr.breaks(p, er, i); w != "" {
		return vBad, what + " is out of range with " + w
	}
	if w := pr.breaks(p, er, d); w != "" {
		return vBad, what + " is out of range with " + w
	}
	return vUnd, what + " may be out of range"
}

// ------------------------------------------------------------- arithmetic

// linProver derives linear inequalities from the facts of a path: a goal is
// proved when it is a sum of known non-negative forms.
type linProver struct {
	c     *Checker
	f     *Facts
	hyps  []linear // each >= 0
	axiom map[*Term]bool
	steps int
}

func newLinProver(c *Checker, f *Facts) *linProver {
	pr := &linProver{c: c, f: f, axiom: map[*Term]bool{}}
	add := func(t *Term) { pr.addHyp(t) }
	for b, v := range f.bools {
		if b.Op == "!" {
			b, v = b.Args[0], !v
		}
		switch b.Op {
		case "<":
			if v {
				add(linAdd(linAdd(b.Args[1], b.Args[0], -1), mkInt(1), -1))
			} else {
				add(linAdd(b.Args[0], b.Args[1], -1))
			}
		case "==":
			if v && (isInteger(b.Args[0].Typ) || b.Args[0].Op == "lin") {
				add(linAdd(b.Args[0], b.Args[1], -1))
				add(linAdd(b.Args[1], b.Args[0], -1))
			}
		}
	}
	for e, w := range f.zone { // x - y <= w
		t := mkInt(w)
		if e[0] != nil {
			t = linAdd(t, e[0], -1)
		}
		if e[1] != nil {
			t = linAdd(t, e[1], 1)
		}
		add(t)
	}
	for t, k := range f.eq {
		if _, isInt := k.intVal(); isInt {
			add(linAdd(t, k, -1))
			add(linAdd(k, t, -1))
		}
	}
	return pr
}

func (pr *linProver) addHyp(t *Term) {
	l := toLinear(t)
	if len(l.co) == 0 {
		return
	}
	for _, h := range pr.hyps {
		if h.c == l.c && len(h.co) == len(l.co) {
			same := true
			for a, n := range l.co {
				same = same && h.co[a] == n
			}
			if same {
				return
			}
		}
	}
	pr.hyps = append(pr.hyps, l)
}

// axioms of a term: what always holds of its value.
func (pr *linProver) axioms(t *Term) {
	if t == nil || pr.axiom[t] {
		return
	}
	pr.axiom[t] = true
	switch t.Op {
	case "len":
		pr.addHyp(t)
		if x := t.Args[0]; x.Op == "init" && x.Args[0].Op == "&f" && x.Args[0].Sym == "ast.Identifier.Value" {
			pr.addHyp(linAdd(t, mkInt(1), -1)) // a name has a letter
		} else if x.Op == "conv" && x.Sym == "[]rune" {
			// not more characters than bytes, and none only in an empty text
			n := mkLen(x.Args[0])
			pr.addHyp(linAdd(n, t, -1))
			if pr.f.decide(pr.c.p, mkEq(x.Args[0], mkStr(""))) == 0 || pr.f.decide(pr.c.p, mkEq(n, mkInt(0))) == 0 {
				pr.addHyp(linAdd(t, mkInt(1), -1))
			}
		}
		if x := t.Args[0]; x.Op == "call" && strings.HasPrefix(x.Sym, "strings.Split") && len(x.Args) >= 2 {
			if s, ok := x.Args[1].strVal(); ok && s != "" && (strings.HasPrefix(x.Sym, "strings.Split#") || x.Sym == "strings.Split" || strings.HasPrefix(x.Sym, "strings.Split")) {
				least := int64(1)
				for b, v := range pr.f.bools {
					if v && b.Op == "call" && strings.HasPrefix(b.Sym, "strings.Contains") && !strings.HasPrefix(b.Sym, "strings.ContainsA") && !strings.HasPrefix(b.Sym, "strings.ContainsR") && len(b.Args) == 2 && stripEpoch(b.Args[0]) == stripEpoch(x.Args[0]) && b.Args[1] == x.Args[1] {
						least = 2
					}
				}
				if strings.HasPrefix(x.Sym, "strings.SplitN") {
					if n, ok := x.Args[2].intVal(); !ok || n == 0 {
						break
					} else if n > 0 && n < least {
						least = n
					}
				}
				pr.addHyp(linAdd(t, mkInt(least), -1))
			}
		}
	case "loopk":
		pr.addHyp(t)
	case "i/", "i%":
		sub := &linProver{c: pr.c, f: pr.f, hyps: append([]linear{}, pr.hyps...), axiom: pr.axiom}
		if !sub.prove(t.Args[0]) || !sub.prove(linAdd(t.Args[1], mkInt(1), -1)) {
			delete(pr.axiom, t)
			break
		}
		pr.addHyp(t)
		pr.addHyp(linAdd(t.Args[0], t, -1))
		if t.Op == "i%" {
			pr.addHyp(linAdd(linAdd(t.Args[1], t, -1), mkInt(1), -1))
		} else if k, ok := t.Args[1].intVal(); ok {
			// truncation: k*t <= a < k*t+k when a is not negative
			pr.addHyp(linAdd(t.Args[0], t, -k))
			pr.addHyp(linAdd(linAdd(mkInt(k-1), t, k), t.Args[0], -1))
		}
	case "call", "inv":
		n := strings.SplitN(t.Sym, "#", 2)[0]
		switch {
		case strings.HasPrefix(n, "math/rand.Int") && strings.HasSuffix(n, "n") && len(t.Args) == 1:
			pr.addHyp(t)
			pr.addHyp(linAdd(linAdd(t.Args[0], t, -1), mkInt(1), -1))
		case strings.HasPrefix(n, "unicode/utf8.RuneCount"):
			pr.addHyp(t)
			pr.addHyp(linAdd(mkLen(t.Args[0]), t, -1))
		case strings.HasPrefix(n, "unicode/utf8.RuneLen"):
			pr.addHyp(linAdd(t, mkInt(1), 1))
		case strings.HasPrefix(n, "(reflect.Value).Len") || strings.HasPrefix(n, "(reflect.Value).NumField"):
			pr.addHyp(t)
		case strings.HasPrefix(n, "strings.Count"):
			pr.addHyp(t)
		case strings.HasPrefix(n, "strings.Index") || strings.HasPrefix(n, "strings.LastIndex"):
			pr.addHyp(linAdd(t, mkInt(1), 1))
			pr.addHyp(linAdd(linAdd(mkLen(t.Args[0]), t, -1), mkInt(0), -1))
		}
	case "ext":
		if len(t.Args) == 1 && t.Args[0].Op == "call" && t.Sym == "1" {
			x := t.Args[0]
			if strings.HasPrefix(x.Sym, "unicode/utf8.DecodeRune") || strings.HasPrefix(x.Sym, "unicode/utf8.DecodeLastRune") {
				pr.addHyp(t)
				pr.addHyp(linAdd(mkLen(x.Args[0]), t, -1))
			}
		}
	case "min", "max":
	}
	if t.Typ != nil {
		if b, ok := t.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			pr.addHyp(t)
		}
	}
}

// loops: the variable that counts the passes of a loop is known by the facts
// of the path only.
func (pr *linProver) loops(er *evalRun) {
	for _, h := range append([]linear{}, pr.hyps...) {
		for a := range h.co {
			pr.textLen(er, a)
		}
	}
}

// textLen: a text that a loop only appends to is at least as long as before.
func (pr *linProver) textLen(er *evalRun, t *Term) {
	if t.Op != "len" || t.Args[0].Op != "loopm" && t.Args[0].Op != "loopv" {
		return
	}
	acc := t.Args[0]
	init, step, ok := loopValues(acc, er.paths)
	if !ok || len(step) == 0 {
		return
	}
	low := int64(-1)
	for _, x := range init {
		if n := constLen(x.t); low < 0 || n < low {
			low = n
		}
	}
	for _, x := range step {
		if x.t != acc && !(x.t.Op == "cat" && len(x.t.Args) > 0 && x.t.Args[0] == acc) {
			return
		}
	}
	pr.addHyp(linAdd(t, mkInt(low), -1))
}

// constLen: a text is at least as long as its constant parts.
func constLen(t *Term) int64 {
	if s, ok := t.strVal(); ok {
		return int64(len(s))
	}
	n := int64(0)
	if t.Op == "cat" {
		for _, a := range t.Args {
			n += constLen(a)
		}
	}
	return n
}

// prove: the term is not negative.
func (pr *linProver) prove(t *Term) bool {
	l := toLinear(t)
	for a := range l.co {
		pr.axioms(a)
	}
	for again := true; again; {
		n := len(pr.hyps)
		for _, h := range append([]linear{}, pr.hyps...) {
			for a := range h.co {
				pr.axioms(a)
			}
		}
		again = len(pr.hyps) > n
	}
	sort.SliceStable(pr.hyps, func(i, j int) bool {
		if a, b := len(pr.hyps[i].co), len(pr.hyps[j].co); a != b {
			return a < b
		}
		return pr.hyps[i].term().String() < pr.hyps[j].term().String()
	})
	pr.steps = 0
	r := pr.search(l, 5)
	return r
}

func (pr *linProver) search(g linear, depth int) bool {
	if len(g.co) == 0 {
		return g.c >= 0
	}
	pr.steps++
	if depth == 0 || pr.steps > 3000 {
		return false
	}
	// take the variable with the smallest id, to be repeatable
	var pick *Term
	for a := range g.co {
		if pick == nil || a.ID < pick.ID {
			pick = a
		}
	}
	n := g.co[pick]
	for _, h := range pr.hyps {
		m := h.co[pick]
		if m == 0 || (m > 0) != (n > 0) {
			continue
		}
		// eliminate: |m|*g - |n|*h
		am, an := m, n
		if am < 0 {
			am, an = -am, -an
		}
		if am > 4 || an > 4 {
			continue
		}
		r := linear{c: am*g.c - an*h.c, co: map[*Term]int64{}}
		for a, k := range g.co {
			r.co[a] += am * k
		}
		for a, k := range h.co {
			r.co[a] -= an * k
		}
		for a, k := range r.co {
			if k == 0 {
				delete(r.co, a)
			}
		}
		if pr.search(r, depth-1) {
			return true
		}
	}
	return false
}

// settled: the terms consist of values of the template or the data, and the
// path knows of them only what the prover understands, so that what it does
// not prove need not hold.
func (pr *linProver) settled(p *Path, er *evalRun, ts ...*Term) bool {
	atoms := map[*Term]bool{}
	for _, t := range ts {
		if !pr.c.resolved(p, t, er.known9) {
			return false
		}
		for a := range toLinear(t).co {
			if a.Op != "len" && a.Op != "loopk" && a.Op != "init" && a.Op != ".f" {
				return false
			}
			atoms[a] = true
		}
	}
	inLin := func(t *Term) bool {
		for a := range toLinear(t).co {
			if atoms[a] {
				return true
			}
		}
		return false
	}
	for b := range pr.f.bools {
		q := b
		if q.Op == "!" {
			q = q.Args[0]
		}
		if q.Op == "<" || q.Op == "==" {
			for _, x := range q.Args {
				for a := range toLinear(x).co {
					if !atoms[a] && a.Op != "i/" && a.Op != "i%" && a.mentions(func(t *Term) bool { return atoms[t] }) {
						return false
					}
				}
			}
		}
		if q.Op == "maphas" || q.Op == "<" || q.Op == "==" && (isInteger(typeOr(q.Args[0])) || inLin(q.Args[0]) || inLin(q.Args[1])) {
			continue
		}
		if q.mentions(func(t *Term) bool {
			if atoms[t] {
				return true
			}
			// what is known of a text or list says something of its length
			for a := range atoms {
				if a.Op == "len" && t == a.Args[0] {
					return true
				}
			}
			return false
		}) {
			return false
		}
	}
	return true
}

// breaks looks for values of the template or the data that pass every
// condition of the path and make the goal negative (and the other terms
// positive); the conditions and the goal are settled by folding.
func (pr *linProver) breaks(p *Path, er *evalRun, goal *Term, positive ...*Term) string {
	if !pr.c.resolved(p, goal, er.known9) {
		return ""
	}
	atoms := map[*Term]bool{}
	var leaves func(t *Term) bool
	leaves = func(t *Term) bool {
		switch t.Op {
		case "const":
			return true
		case "len", "init", ".f":
			if !isInteger(typeOr(t)) && t.Op != "len" {
				return false
			}
			if t.Op == "len" && t.Args[0].Op != "init" && t.Args[0].Op != ".f" {
				return false
			}
			atoms[t] = true
			return true
		case "lin", "i*", "i/", "i%", "conv", "<", "==", "!", "&&", "||":
			for _, a := range t.Args {
				if !leaves(a) {
					return false
				}
			}
			if t.Op == "conv" && !isInteger(t.Typ) {
				return false
			}
			return len(t.Args) > 0
		}
		return t.isConst()
	}
	if !leaves(goal) {
		return ""
	}
	for _, t := range positive {
		if !leaves(t) {
			return ""
		}
	}
	touches := func(b *Term) bool {
		return b.mentions(func(t *Term) bool {
			if atoms[t] {
				return true
			}
			for a := range atoms {
				if a.Op == "len" && t == a.Args[0] {
					return true
				}
			}
			return false
		})
	}
	// the conditions that speak of the values, and what else they speak of
	type cond struct {
		b *Term
		v bool
	}
	var conds []cond
	for again := true; again; {
		again = false
		conds = conds[:0]
		n := len(atoms)
		for b, v := range pr.f.bools {
			if !touches(b) {
				continue
			}
			if b.Op == "==" && !isInteger(typeOr(b.Args[0])) && b.Args[0].Op != "lin" {
				return ""
			}
			if !leaves(b) {
				return ""
			}
			conds = append(conds, cond{b, v})
		}
		again = len(atoms) > n
	}
	if len(atoms) == 0 || len(atoms) > 3 {
		return ""
	}
	var as []*Term
	for a := range atoms {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].ID < as[j].ID })
	sub := map[*Term]*Term{}
	var try func(k int) bool
	try = func(k int) bool {
		if k < len(as) {
			vals := []int64{0, 1, 2, 3, 4, 8, 1 << 10}
			if as[k].Op != "len" {
				vals = []int64{0, 1, 2, 3, -1, -2, -3, 5, 1 << 31, 1 << 32, 1 << 61, 1 << 62, math.MaxInt64, math.MinInt64}
			}
			for _, v := range vals {
				if t := typeOr(as[k]); isInteger(t) && !fits(v, t) {
					continue
				}
				sub[as[k]] = mkInt(v)
				if try(k + 1) {
					return true
				}
			}
			return false
		}
		for _, x := range conds {
			b := pr.c.subst(x.b, sub)
			if x.v && !b.isTrue() || !x.v && !b.isFalse() {
				return false
			}
		}
		for _, t := range positive {
			if n, ok := pr.c.subst(t, sub).intVal(); !ok || n <= 0 {
				return false
			}
		}
		n, ok := pr.c.subst(goal, sub).intVal()
		return ok && n < 0
	}
	if !try(0) {
		return ""
	}
	r := er.specRenderer(p)
	r.facts = pr.f
	var out []string
	for _, a := range as {
		out = append(out, shorten(r.str(a))+" = "+r.str(sub[a]))
	}
	return strings.Join(out, ", ")
}

// fits: the value belongs to the integer type.
func fits(v int64, t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	switch b.Kind() {
	case types.Int8:
		return v == int64(int8(v))
	case types.Int16:
		return v == int64(int16(v))
	case types.Int32:
		return v == int64(int32(v))
	case types.Uint8:
		return v == int64(uint8(v))
	case types.Uint16:
		return v == int64(uint16(v))
	case types.Uint32:
		return v == int64(uint32(v))
	case types.Uint, types.Uint64, types.Uintptr:
		return v >= 0
	}
	return true
}

// ------------------------------------------------------------- the rest

// library: library functions that panic for some counts.
func (fr *faults) library(er *evalRun, p *Path, ev *Event) (verdict, string) {
	f := factsOf(p, ev)
	r := er.specRenderer(p)
	r.facts = f
	switch {
	case ev.Fn == "strings.Repeat" || ev.Fn == "bytes.Repeat":
		if len(ev.Args) != 2 {
			return vOK, ""
		}
		n := ev.Args[1]
		fr.libs[ev.Fn]++
		if own := fr.indent(er, n); own {
			return vOK, ""
		}
		pr := newLinProver(fr.c, f)
		if !pr.prove(n) {
			if w := pr.breaks(p, er, n); w != "" {
				return vBad, "the count " + shorten(r.str(n)) + " is negative with " + w
			}
			return pr.verdict(p, er, n), "the count " + shorten(r.str(n)) + " may be negative"
		}
		if !pr.prove(linAdd(mkInt(1<<40), n, -1)) && !pr.prove(linAdd(mkInt(0), mkLen(ev.Args[0]), -1)) {
			size := linAdd(mkInt(1<<40), n, -1)
			if w := pr.breaks(p, er, size, mkLen(ev.Args[0])); w != "" {
				return vBad, "the count " + shorten(r.str(n)) + " is not limited with " + w
			}
			return pr.verdict(p, er, n), "the count " + shorten(r.str(n)) + " is not limited"
		}
	case strings.HasPrefix(ev.Fn, "math/rand.Int") && strings.HasSuffix(ev.Fn, "n"), strings.HasPrefix(ev.Fn, "math/rand/v2.") && strings.HasSuffix(ev.Fn, "N"):
		if len(ev.Args) != 1 {
			return vOK, ""
		}
		fr.libs[ev.Fn]++
		pr := newLinProver(fr.c, f)
		if !pr.prove(linAdd(ev.Args[0], mkInt(1), -1)) {
			return pr.verdict(p, er, ev.Args[0]), ev.Fn + " with " + shorten(r.str(ev.Args[0])) + ", which may be zero"
		}
	case strings.HasPrefix(ev.Fn, "slices.Min") || strings.HasPrefix(ev.Fn, "slices.Max"):
		fr.libs["slices.Min/Max"]++
		pr := newLinProver(fr.c, f)
		n := mkLen(ev.Args[0])
		if !pr.prove(linAdd(n, mkInt(1), -1)) {
			return vUnd, ev.Fn + " of a list that may be empty"
		}
	case strings.HasPrefix(ev.Fn, "regexp.MustCompile"):
		if !ev.Args[0].isConst() {
			return vBad, "a pattern that is not constant is compiled with MustCompile"
		}
	case ev.Fn == "os.Exit" || strings.HasPrefix(ev.Fn, "log.Fatal") || strings.HasPrefix(ev.Fn, "log.Panic") || ev.Fn == "runtime.Goexit":
		return vBad, ev.Fn + " ends the program"
	}
	return vOK, ""
}

func (pr *linProver) verdict(p *Path, er *evalRun, ts ...*Term) verdict {
	if pr.settled(p, er, ts...) {
		return vBad
	}
	return vUnd
}

// indent: the depth of an indentation, a parameter that counts the nesting.
func (fr *faults) indent(er *evalRun, n *Term) bool {
	l := toLinear(n)
	if l.c < 0 {
		return false
	}
	for a, k := range l.co {
		if k < 0 || a.Op != "param" || !isInteger(typeOr(a)) {
			return false
		}
	}
	return true
}

func (fr *faults) builtins() {
	c := fr.c
	tab := c.builtinTable()
	if len(tab) == 0 {
		c.und("C09.builtin", "function table", "not resolved")
		return
	}
	kindOf := map[string]string{}
	for k := range builtinNames {
		if tc := c.typeConst(k); tc != nil {
			if s, ok := tc.strVal(); ok {
				kindOf[s] = k
			}
		}
	}
	for _, e := range sortedKeys(tab) {
		f := tab[e]
		tn, n, _ := strings.Cut(e, ".")
		k := kindOf[tn]
		label := strings.TrimPrefix(k, "*object.") + "." + n
		cr := c.newCase("C09.builtin", label)
		if k == "" || len(f.Params) != 3 || f.Signature.Results().Len() != 2 {
			cr.add(vUnd, f.Pos(), "the function has an unexpected form")
			cr.done()
			continue
		}
		args := rootParams(f)
		er := fr.exec(f, []string{"ctx", "s", "args"}, runOpts{args: args, facts: newFacts().setKind(args[1], ksOf(k)), onRec: true})
		if er == nil {
			cr.add(vUnd, f.Pos(), "the function has no body")
			cr.done()
			continue
		}
		if !er.complete {
			cr.add(vUnd, f.Pos(), "path enumeration is incomplete")
		}
		fr.judgeAll(cr, er)
		for _, p := range er.paths {
			if p.Outcome != "return" || len(p.Ret) != 2 {
				continue
			}
			if d := p.Facts.decide(c.p, mkEq(p.Ret[1], mkNil())); d == 0 {
				continue
			}
			switch v, why := fr.nilness(er, p, p.Facts, p.Ret[0], 0); v {
			case nlNil:
				if p.Ret[1].isNil() {
					cr.add(vBad, lastPos(p), "neither a value nor an error: "+why)
				} else {
					cr.add(vUnd, lastPos(p), "neither a value nor an error: "+why)
				}
			case nlUnknown:
				cr.add(vUnd, lastPos(p), "the value may be nil: "+why)
			}
		}
		cr.done()
	}
}

// objects: the methods of the values and the conversion functions.
func (fr *faults) objects() {
	c := fr.c
	value := map[string]bool{}
	for _, k := range exprKinds {
		value[k] = true
	}
	entry, conv := c.converter()
	var fs []*ssa.Function
	for _, f := range c.p.funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Name() != "object" && !(f.Pkg.Pkg.Name() == "evaluator" && refersTo(f, f)) || len(f.Blocks) == 0 || f.Parent() != nil || f.Synthetic != "" || f == entry || f == conv {
			continue
		}
		if f.Signature.Recv() != nil && f.Name() == "Val" && !value[shortType(f.Signature.Recv().Type())] {
			continue // only the values of expressions are given to custom functions
		}
		if usesReflect(f) {
			continue // part of the conversion
		}
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return c.p.fullName(fs[i]) < c.p.fullName(fs[j]) })
	for _, f := range fs {
		cr := c.newCase("C09.object", strings.TrimPrefix(c.p.fullName(f), "object."))
		var op []string
		if conv != nil {
			op = append(op, c.p.fullName(entry), c.p.fullName(conv))
		}
		er := fr.exec(f, nil, runOpts{onRec: true, opaque: op})
		if er == nil {
			continue
		}
		if !er.complete {
			cr.add(vUnd, f.Pos(), "path enumeration is incomplete")
		}
		fr.judgeAll(cr, er)
		cr.done()
	}
}

// refersTo: the function calls itself or hands itself on.
func refersTo(f, g *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if *op == g {
					return true
				}
			}
		}
	}
	return false
}

func usesReflect(f *ssa.Function) bool {
	for _, prm := range f.Params {
		if strings.HasPrefix(prm.Type().String(), "reflect.") {
			return true
		}
	}
	return false
}

// the kinds that a reflect method is defined for; those missing are total.
var reflectPre = func() map[string]map[reflect.Kind]bool {
	set := func(ks ...reflect.Kind) map[reflect.Kind]bool {
		m := map[reflect.Kind]bool{}
		for _, k := range ks {
			m[k] = true
		}
		return m
	}
	ints := []reflect.Kind{reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64}
	uints := []reflect.Kind{reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr}
	valid := map[reflect.Kind]bool{}
	for k := reflect.Bool; k <= reflect.UnsafePointer; k++ {
		valid[k] = true
	}
	return map[string]map[reflect.Kind]bool{
		"(reflect.Value).Bool":          set(reflect.Bool),
		"(reflect.Value).Int":           set(ints...),
		"(reflect.Value).Uint":          set(uints...),
		"(reflect.Value).Float":         set(reflect.Float32, reflect.Float64),
		"(reflect.Value).Complex":       set(reflect.Complex64, reflect.Complex128),
		"(reflect.Value).Elem":          set(reflect.Interface, reflect.Pointer),
		"(reflect.Value).IsNil":         set(reflect.Chan, reflect.Func, reflect.Interface, reflect.Map, reflect.Pointer, reflect.Slice, reflect.UnsafePointer),
		"(reflect.Value).Pointer":       set(reflect.Chan, reflect.Func, reflect.Map, reflect.Pointer, reflect.Slice, reflect.String, reflect.UnsafePointer),
		"(reflect.Value).UnsafePointer": set(reflect.Chan, reflect.Func, reflect.Map, reflect.Pointer, reflect.Slice, reflect.String, reflect.UnsafePointer),
		"(reflect.Value).Len":           set(reflect.Array, reflect.Chan, reflect.Map, reflect.Slice, reflect.String),
		"(reflect.Value).Cap":           set(reflect.Array, reflect.Chan, reflect.Slice),
		"(reflect.Value).Index":         set(reflect.Array, reflect.Slice, reflect.String),
		"(reflect.Value).Slice":         set(reflect.Slice, reflect.String),
		"(reflect.Value).MapKeys":       set(reflect.Map),
		"(reflect.Value).MapRange":      set(reflect.Map),
		"(reflect.Value).MapIndex":      set(reflect.Map),
		"(reflect.Value).NumField":      set(reflect.Struct),
		"(reflect.Value).Field":         set(reflect.Struct),
		"(reflect.Value).FieldByName":   set(reflect.Struct),
		"(reflect.Value).Type":          valid,
		"(reflect.Value).Interface":     valid,
		"(reflect.Value).NumMethod":     valid,
		"Key":                           set(reflect.Map),
		"Elem":                          set(reflect.Array, reflect.Chan, reflect.Map, reflect.Pointer, reflect.Slice),
		"NumField":                      set(reflect.Struct),
		"Field":                         set(reflect.Struct),
		"FieldByName":                   set(reflect.Struct),
		"Len":                           set(reflect.Array),
	}
}()

var reflectTotal = regexp.MustCompile(`^(?:\(reflect\.Value\)\.(?:Kind|IsValid|String|CanInterface|CanAddr|CanSet|CanInt|CanUint|CanFloat|Comparable|CanConvert)|reflect\.(?:ValueOf|TypeOf|Indirect)|\(reflect\.StructField\)\.IsExported|\(reflect\.Kind\)\.String|\(\*reflect\.MapIter\)\.(?:Next|Key|Value)|\(reflect\.StructTag\)\.(?:Get|Lookup)|Kind|Name|String|PkgPath|NumMethod|Comparable|IsExported)$`)

// data: the conversion of the data.
func (fr *faults) data() {
	c := fr.c
	rule := "C09.data"
	cv, why := c.newConv(runOpts{deref: true})
	if why != "" {
		c.und(rule, "conversion", "%s", why)
		return
	}
	all := c.newCase(rule, "operations of the conversion")
	if !cv.er.complete {
		all.add(vUnd, 0, "path enumeration is incomplete")
	}
	fr.judgeAll(all, cv.er)
	all.done()
	for k := reflect.Invalid; k <= reflect.UnsafePointer; k++ {
		cr := c.newCase(rule, "values of kind "+k.String())
		for _, p := range cv.er.paths {
			if cv.under(p, k) == nil {
				continue
			}
			cr.add(vOK, lastPos(p), "")
			for _, ev := range p.Events {
				v, w := fr.reflects(cv, p, k, ev)
				cr.add(v, ev.Pos, w)
			}
		}
		if k == reflect.Pointer || k == reflect.Slice || k == reflect.Map {
			fr.cyclic(cv, cr, k)
		}
		cr.done()
	}
}

// reflects: one operation on a value of a kind.
func (fr *faults) reflects(cv *conv, p *Path, k reflect.Kind, ev *Event) (verdict, string) {
	if ev.Kind != "call" && ev.Kind != "invoke" || len(ev.Args) == 0 {
		return vOK, ""
	}
	x := ev.Args[0]
	if ev.Kind == "call" && !strings.Contains(ev.Fn, "reflect.") {
		return vOK, ""
	}
	if ev.Kind == "invoke" {
		if !strings.HasPrefix(shortType(typeOr(x)), "reflect.Type") {
			return vOK, ""
		}
		if x.Op == "call" && strings.HasPrefix(x.Sym, "(reflect.Value).Type") {
			x = x.Args[0]
		} else if reflectPre[ev.Fn] == nil {
			return vOK, ""
		} else {
			return vUnd, "method " + ev.Fn + " of another type"
		}
	}
	r := cv.rend(p)
	f := factsOf(p, ev)
	if ev.Fn == "(reflect.Value).Interface" {
		// not for what is read from a field that is not exported
		if x.mentions(func(t *Term) bool {
			return t.Op == "call" && strings.HasPrefix(t.Sym, "(reflect.Value).Field")
		}) {
			for b, yes := range f.bools {
				if yes && b.Op == "call" && (strings.HasPrefix(b.Sym, "(reflect.Value).CanInterface") || strings.HasPrefix(b.Sym, "(reflect.StructField).IsExported")) {
					return vOK, ""
				}
				if strings.Contains(fmt.Sprint(b), "PkgPath") {
					return vUnd, "a test of PkgPath"
				}
			}
			return vBad, "Interface of a field that may not be exported"
		}
	}
	pre := reflectPre[ev.Fn]
	if pre == nil {
		if reflectTotal.MatchString(ev.Fn) {
			return vOK, ""
		}
		return vUnd, "the conversion uses " + ev.Fn
	}
	if x == cv.V {
		if pre[k] {
			return vOK, ""
		}
		if !cv.reflects(p) {
			return vUnd, ev.Fn + " of a value of kind " + k.String()
		}
		return vBad, ev.Fn + " of a value of kind " + k.String()
	}
	// another value: what the path knows of its kind
	for q := range pre {
		_ = q
	}
	return vUnd, ev.Fn + " of " + r.str(x)
}

// cyclic: a value that refers to itself is noticed.
func (fr *faults) cyclic(cv *conv, cr *caseRun, k reflect.Kind) {
	for _, p := range cv.er.paths {
		if cv.under(p, k) == nil {
			continue
		}
		for _, ev := range p.Events {
			if ev.Kind != "call" || ev.Fn != cv.fn && ev.Fn != cv.entry {
				continue
			}
			f := factsOf(p, ev)
			known, marked := false, false
			for _, m := range p.Events {
				if m == ev {
					break
				}
				if m.Kind == "mapupdate" && cv.isParam(m.Addr) {
					marked = true
				}
			}
			for b := range f.bools {
				known = known || (b.Op == "lookup" || b.Op == "maphas") && cv.isParam(b.Args[0])
			}
			if known && marked {
				cr.add(vOK, ev.Pos, "")
				continue
			}
			// nothing that is passed on tells how deep the value is
			other := false
			for _, a := range ev.Args {
				if a != nil && a.Op != "param" && a != cv.V && isInteger(typeOr(a)) {
					other = true
				}
				if a != nil && a.Op != "param" && strings.Contains(shortType(typeOr(a)), "map[") {
					other = true
				}
			}
			for b := range f.bools {
				if b.mentions(func(t *Term) bool { return t.Op == "param" && t != cv.V }) {
					other = other || !known
				}
			}
			if other {
				cr.add(vUnd, ev.Pos, "how cycles end is not understood")
				continue
			}
			cr.add(vBad, ev.Pos, "a "+k.String()+" that leads to itself is converted without end")
		}
	}
}

// linking: the functions that render do not dereference what may be missing.
func (fr *faults) linking() {
	c := fr.c
	n := 0
	for _, f := range c.p.funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Name() != "textwire" || f.Parent() != nil || len(f.Blocks) == 0 || f.Synthetic != "" {
			continue
		}
		if !c.renders(f) {
			continue
		}
		name := strings.TrimPrefix(c.p.fullName(f), "textwire.")
		cr := c.newCase("C09.link", name)
		er := fr.exec(f, nil, runOpts{onRec: true, opaque: fr.outside()})
		if er == nil {
			continue
		}
		n++
		if !er.complete {
			cr.add(vUnd, f.Pos(), "path enumeration is incomplete")
		}
		fr.judgeAll(cr, er)
		cr.done()
	}
	if n == 0 {
		c.und("C09.link", "rendering", "anchor not found")
	}
}

// outside: the functions that are judged elsewhere.
func (fr *faults) outside() (op []string) {
	c := fr.c
	if entry, conv := c.converter(); conv != nil {
		op = append(op, c.p.fullName(entry), c.p.fullName(conv))
	}
	for _, g := range c.p.funcs {
		if g.Pkg == nil {
			continue
		}
		switch g.Pkg.Pkg.Name() {
		case "lexer", "parser", "ast", "evaluator":
			op = append(op, c.p.fullName(g))
		}
	}
	return op
}

// stores: what a program puts in lists and maps of a type is never nil.
func (fr *faults) stores(elem types.Type) int {
	c := fr.c
	key := shortType(elem)
	if n, ok := fr.elemNil[key]; ok {
		return n
	}
	fr.elemNil[key] = nlSet // inductively
	res, n := nlSet, 0
	put := func(f *ssa.Function, v ssa.Value, b *ssa.BasicBlock) {
		n++
		if c.valueSet(f, v, b, 0) {
			return
		}
		er := fr.exec(f, nil, runOpts{onRec: true, opaque: fr.outside()})
		if er == nil || !er.complete {
			res = nlUnknown
			return
		}
		for _, p := range er.paths {
			for _, ev := range p.Events {
				if (ev.Kind != "mapupdate" && ev.Kind != "store") || ev.Val == nil || ev.Val.Typ == nil || shortType(ev.Val.Typ) != key {
					continue
				}
				k, _ := fr.nilness(er, p, factsOf(p, ev), ev.Val, 0)
				res = max(res, k)
			}
		}
	}
	for _, f := range c.p.funcs {
		if f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if ia, ok := in.Addr.(*ssa.IndexAddr); ok && shortType(in.Val.Type()) == key {
						if pt, ok := ia.Type().Underlying().(*types.Pointer); ok && shortType(pt.Elem()) == key {
							put(f, in.Val, b)
						}
					}
				case *ssa.MapUpdate:
					if shortType(in.Value.Type()) == key {
						put(f, in.Value, b)
					}
				}
			}
		}
	}
	if n == 0 {
		res = nlUnknown
	}
	fr.elemNil[key] = res
	return res
}

// renders: the function leads to the evaluation.
func (c *Checker) renders(f *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(g *ssa.Function) bool
	walk = func(g *ssa.Function) bool {
		if g == nil || seen[g] || !c.p.inRepo(g) {
			return false
		}
		seen[g] = true
		if c.p.fullName(g) == evalFn {
			return true
		}
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				if call, ok := i.(ssa.CallInstruction); ok && walk(call.Common().StaticCallee()) {
					return true
				}
			}
		}
		return false
	}
	return walk(f)
}

// reported: an error that the evaluation of a part gives ends the evaluation
// of the node, and the node gives an error.
func (fr *faults) reported(cr *caseRun, er *evalRun) {
	c := fr.c
	cr.add(vOK, 0, "")
	for _, p := range er.paths {
		if p.Outcome != "return" && p.Outcome != "back" {
			continue
		}
		r := er.specRenderer(p)
		ret := ""
		if len(p.Ret) == 1 {
			k := p.Facts.kind(c.p, p.Ret[0])
			if s, one := k.single(); one && s == "*object.Error" {
				continue
			}
			ret = r.str(p.Ret[0])
		}
		for i, ev := range p.Events {
			if ev.Kind != "call" || ev.Fn != evalFn || ev.Res == nil {
				continue
			}
			k := p.Facts.kind(c.p, ev.Res)
			if !k.has("*object.Error") || len(p.Ret) == 1 && p.Ret[0] == ev.Res {
				continue
			}
			shown, v := false, vBad
			in := func(t *Term) bool {
				return t != nil && t.mentions(func(t *Term) bool { return t == ev.Res })
			}
			for _, e2 := range p.Events[i+1:] {
				switch {
				case e2.Kind == "invoke" && strings.HasPrefix(e2.Fn, "Dump") && len(e2.Args) > 0 && e2.Args[0] == ev.Res:
					shown = true // a dump shows the error
				case e2.Kind == "store", e2.Kind == "mapupdate":
					if in(e2.Val) {
						v = vUnd // it may be looked at later
					}
				case e2.Kind == "call" && e2.Fn != evalFn && e2.Fn != "object.Env.Set":
					for _, a := range e2.Args {
						if a == ev.Res {
							v = vUnd
						}
					}
				}
			}
			for _, t := range p.Vals {
				if in(t) {
					v = vUnd
				}
			}
			if shown {
				continue
			}
			if s, one := k.single(); one && s == "*object.Error" && !appended(p, i, ev.Res) {
				v = vBad // the path knows that it is an error
			}
			cr.add(v, ev.Pos, "an error of "+shorten(r.str(ev.Res))+" is dropped; "+p.Outcome+" "+shorten(ret))
		}
	}
}

// paired: the first result of a function that reports with its second that it
// is there.
func (fr *faults) paired(f *Facts, v *Term) bool {
	x := v.Args[0]
	n := strings.SplitN(x.Sym, "#", 2)[0]
	switch {
	case x.Op == "call" && n == "object.Env.Get":
		for b, yes := range f.bools {
			if yes && b.Op == "ext" && b.Sym == "1" && b.Args[0] == x {
				return true // no nil is stored in an environment
			}
		}
	case x.Op == "dyn" && v.Sym == "0" && len(x.Args) > 0:
		// a built-in gives a value when it gives no error
		if !x.Args[0].mentions(func(t *Term) bool { return t.Op == "mapalloc" }) {
			return false
		}
		e := mk("ext", "1", types.Universe.Lookup("error").Type(), nil, x)
		if f.decide(fr.c.p, mkEq(e, mkNil())) == 1 {
			return true
		}
		if k, one := f.kind(fr.c.p, e).single(); one && k == "nil" {
			return true
		}
	}
	return false
}
