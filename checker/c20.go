package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C20"] = checkC20 }

func checkC20(c *Checker) {
	c.rule("register", "on every path of a Register function: the name is taken => an error and no write; the name is free => exactly one entry name -> fn in the table of its type and nil")
	c.rule("registry", "no other instruction of the program writes, deletes or replaces registered functions or the tables they are kept in")
	c.rule("context", "every evaluation is started with the registry itself, so that it sees all registrations made before it")
	c.rule("call", "per receiver type: a built-in of the name is called if there is one, else the function registered for that type with the plain values of receiver and arguments, and its result is converted like data; without one an error names function and type")
	c.rule("native", "the plain value of an object has the content of the object, recursively")
	c.registerRules()
	c.registryWrites()
	c.contextRule()
	c.callRules("call", false)
	c.nativeValues()
}

var registerFns = map[string]string{"RegisterStrFunc": "Str", "RegisterArrFunc": "Arr", "RegisterIntFunc": "Int", "RegisterFloatFunc": "Float", "RegisterBoolFunc": "Bool"}

// registry is the object registered functions are kept in.
func (c *Checker) registry() (g *ssa.Global, obj *Term) {
	for _, pk := range c.p.spkgs {
		for _, m := range pk.Members {
			x, ok := m.(*ssa.Global)
			if !ok {
				continue
			}
			pt, ok := x.Type().(*types.Pointer)
			if !ok {
				continue
			}
			if pp, ok := pt.Elem().(*types.Pointer); ok && namedIs(pp.Elem(), "config", "Func") {
				if g != nil {
					return nil, nil
				}
				g = x
			}
		}
	}
	if g == nil {
		return nil, nil
	}
	return g, c.p.gmem.mem[globalTerm(g)]
}

func namedIs(t types.Type, pkg, name string) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Name() == pkg
}

// customTable: the type of a table of registered functions; its field.
func customTable(t types.Type) string {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return ""
	}
	n, ok := m.Elem().(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Name() != "config" || !strings.HasSuffix(n.Obj().Name(), "CustomFunc") {
		return ""
	}
	f := strings.TrimSuffix(n.Obj().Name(), "CustomFunc")
	if f == "Array" {
		f = "Arr"
	}
	return f
}

func (c *Checker) registerRules() {
	_, reg := c.registry()
	var names []string
	for n := range registerFns {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		f := c.p.fn("", n)
		cr := c.newCase("register", n)
		er := c.fnRun(f, []string{"name", "fn"}, runOpts{}, nil)
		if er == nil || len(er.args) != 2 {
			c.und("register", n, "anchor not found")
			continue
		}
		if !er.complete {
			cr.add(vUnd, 0, "path enumeration is incomplete")
		}
		var table *Term
		if reg != nil {
			for a, v := range c.p.gmem.mem {
				if a.Op == "&f" && a.Args[0] == reg && v != nil && v.Typ != nil && customTable(v.Typ) == registerFns[n] {
					table = stripEpoch(v)
				}
			}
		}
		name, fn := er.args[0], er.args[1]
		okPath, errPath := false, false
		for _, p := range er.paths {
			if p.Outcome != "return" || len(p.Ret) != 1 {
				if p.Outcome != "panic" {
					cr.add(vUnd, lastPos(p), "a path is not resolved")
				}
				continue
			}
			var ups []*Event
			calls := false
			for _, ev := range p.Events {
				switch {
				case ev.Kind == "mapupdate" && customTable(ev.Addr.Typ) != "":
					ups = append(ups, ev)
				case ev.Kind == "dyncall":
					calls = true
				}
			}
			has, where := -1, ""
			for b, v := range p.Facts.bools {
				b := stripEpoch(b)
				m := b
				switch {
				case b.Op == "maphas":
				case b.Op == "==" && b.Args[0].Op == "lookup" && b.Args[1].isNil():
					m = b.Args[0]
					v = !v
				case b.Op == "==" && b.Args[1].Op == "lookup" && b.Args[0].isNil():
					m = b.Args[1]
					v = !v
				default:
					continue
				}
				if m.Args[1] != name || m.Args[0].Typ == nil || customTable(m.Args[0].Typ) == "" {
					continue
				}
				if table != nil && m.Args[0] != table {
					where = customTable(m.Args[0].Typ)
					continue
				}
				if table == nil && customTable(m.Args[0].Typ) != registerFns[n] {
					where = customTable(m.Args[0].Typ)
					continue
				}
				if v {
					has = 1
				} else if has == -1 {
					has = 0
				}
			}
			isNil := er.nilRet(p.Facts, p.Ret[0])
			pos := lastPos(p)
			bad := func(w string) {
				if calls || !er.factsKnown(p) {
					cr.add(vUnd, pos, w)
				} else {
					cr.add(vBad, pos, w)
				}
			}
			if len(ups) > 0 {
				pos = ups[0].Pos
			}
			switch {
			case has == 1 && len(ups) > 0:
				bad("a taken name is written again")
			case has == 1 && isNil == 1:
				bad("registering a taken name succeeds")
			case has == 1 && isNil == 0:
				errPath = true
				cr.add(vOK, pos, "")
			case has == 1:
				cr.add(vUnd, pos, "the result is not resolved")
			case len(ups) == 0 && isNil == 0:
				if where != "" {
					bad("the name is refused because of the table of " + where)
				} else {
					cr.add(vUnd, pos, "an error without a look at the table")
				}
			case len(ups) == 0 && isNil == 1:
				bad("the call succeeds and the function is not kept")
			case len(ups) == 0:
				cr.add(vUnd, pos, "the result is not resolved")
			case has == -1:
				if where != "" {
					bad("a function is kept after a look-up in the table of " + where)
				} else {
					bad("a function is written without checking that the name is free")
				}
			case len(ups) > 1:
				bad("more than one entry is written")
			default:
				u := ups[0]
				val := u.Val
				for val.Op == "conv" || val.Op == "iface" {
					val = val.Args[0]
				}
				m := stripEpoch(u.Addr)
				switch {
				case table != nil && m != table || customTable(u.Addr.Typ) != registerFns[n]:
					bad("the function is kept in another table than that of " + registerFns[n])
				case u.Args[0] != name:
					bad("the function is kept under " + er.specRenderer(p).str(u.Args[0]) + ", not under its name")
				case val != fn:
					if c.resolved(p, val, func(t *Term) bool { return t == fn }) {
						bad("another function is kept: " + er.specRenderer(p).str(val))
					} else {
						cr.add(vUnd, pos, "the kept function is not resolved")
					}
				case isNil == 0:
					bad("an error is returned although the function was kept")
				case isNil == 1:
					okPath = true
					cr.add(vOK, pos, "")
				default:
					cr.add(vUnd, pos, "the result is not resolved")
				}
			}
		}
		if !okPath {
			cr.add(vUnd, 0, "no path keeps a function")
		}
		if !errPath {
			cr.add(vUnd, 0, "no path refuses a taken name")
		}
		cr.done()
	}
}

// registryWrites looks at every write to tables of registered functions.
func (c *Checker) registryWrites() {
	g, _ := c.registry()
	if g == nil {
		c.und("registry", "registry", "the variable that keeps the registered functions was not found")
		return
	}
	allowed := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || allowed[f] || len(f.Blocks) == 0 || !c.p.inRepo(f) {
			return
		}
		allowed[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					visit(ci.Common().StaticCallee())
				}
			}
		}
	}
	for n := range registerFns {
		visit(c.p.fn("", n))
	}
	n := 0
	fresh := func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.MakeMap, *ssa.Alloc:
			return true
		case *ssa.UnOp:
			if a, ok := x.X.(*ssa.Alloc); ok {
				return a != nil
			}
		}
		return false
	}
	for _, f := range c.p.funcs {
		if !c.p.inRepo(f) {
			continue
		}
		isInit := f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")
		c.sawFn(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				name := c.p.fullName(f)
				switch x := in.(type) {
				case *ssa.MapUpdate:
					if customTable(x.Map.Type()) == "" {
						continue
					}
					n++
					switch {
					case allowed[f]:
						c.ok("registry", name+": entry", x.Pos())
					case fresh(x.Map):
						c.ok("registry", name+": entry of a new table", x.Pos())
					default:
						c.bad("registry", name+": entry", x.Pos(), "a table of registered functions is written outside of registration")
					}
				case *ssa.Call:
					bi, ok := x.Call.Value.(*ssa.Builtin)
					if !ok || bi.Name() != "delete" && bi.Name() != "clear" || customTable(x.Call.Args[0].Type()) == "" {
						continue
					}
					n++
					c.bad("registry", name+": "+bi.Name(), x.Pos(), "registered functions are removed")
				case *ssa.Store:
					if x.Addr == ssa.Value(g) {
						n++
						if isInit && f.Pkg == g.Pkg {
							c.ok("registry", name+": initial registry", x.Pos())
						} else {
							c.bad("registry", name+": registry", x.Pos(), "the registry is replaced")
						}
						continue
					}
					fa, ok := x.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					pt, ok := fa.X.Type().Underlying().(*types.Pointer)
					if !ok || !namedIs(pt.Elem(), "config", "Func") || customTable(x.Val.Type()) == "" {
						continue
					}
					n++
					if fresh(fa.X) {
						c.ok("registry", name+": table of a new registry", x.Pos())
					} else {
						c.bad("registry", name+": table", x.Pos(), "a table of registered functions is replaced")
					}
				}
			}
		}
	}
	c.ok("registry", fmt.Sprintf("%d writes", n), 0)
}

// contextRule: evaluators are made with the registry.
func (c *Checker) contextRule() {
	g, reg := c.registry()
	if g == nil || reg == nil {
		c.und("context", "registry", "the registry was not found")
		return
	}
	n := 0
	for _, f := range c.p.funcs {
		if !c.p.inRepo(f) || f.Pkg == nil || f.Pkg.Pkg != g.Pkg.Pkg || f.Parent() != nil {
			continue
		}
		calls := token.NoPos
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if h := ci.Common().StaticCallee(); h != nil && c.p.fullName(h) == "evaluator.New" {
						calls = in.Pos()
					}
				}
			}
		}
		if !calls.IsValid() {
			continue
		}
		n++
		name := c.p.fullName(f)
		cr := c.newCase("context", name)
		er := c.fnRun(f, nil, runOpts{opaque: []string{"evaluator.New", "textwire.parseStr", "object.EnvFromMap", "textwire.getFullPath", "evaluator.Evaluator.Eval", "object.Env.Set"}}, nil)
		if er == nil {
			continue
		}
		for _, p := range er.paths {
			for _, ev := range p.Events {
				if ev.Kind != "call" || ev.Fn != "evaluator.New" || len(ev.Args) != 1 {
					continue
				}
				v := c.objField(p, ev.Args[0], "ctx.EvalCtx", "CustomFunc")
				switch {
				case v == nil:
					cr.add(vUnd, ev.Pos, "the context is not resolved")
				case v == reg || v.Op == "init" && v.Args[0] == globalTerm(g):
					cr.add(vOK, ev.Pos, "")
				case v.isNil():
					cr.add(vBad, ev.Pos, "the evaluator gets no registered functions")
				case v.Op == "alloc":
					cr.add(vBad, ev.Pos, "the evaluator gets "+er.specRenderer(p).str(v)+", a copy of the registry")
				case v.Op == "init" && v.Args[0].Op == "&f":
					cr.add(vBad, ev.Pos, "the evaluator gets the functions kept in "+er.specRenderer(p).str(v)+", not the registry")
				default:
					cr.add(vUnd, ev.Pos, "the registered functions of the context are "+er.specRenderer(p).str(v))
				}
			}
		}
		cr.done()
	}
	if n == 0 {
		c.und("context", "evaluators", "no evaluator is made")
	}
}

// nativeValues: the contract of Val().
func (c *Checker) nativeValues() {
	for _, kv := range [][2]string{{"*object.Int", "s.Value"}, {"*object.Float", "s.Value"}, {"*object.Str", "s.Value"}, {"*object.Bool", "s.Value"}, {"*object.Nil", "nil"}, {"*object.Array", ""}, {"*object.Obj", ""}} {
		k := kv[0]
		name := baseName(k) + ".Val"
		m := c.p.method(k, "Val")
		er := c.fnRun(m, []string{"s"}, runOpts{}, nil)
		if er == nil {
			c.und("native", name, "anchor not found")
			continue
		}
		cr := c.newCase("native", name)
		if !er.complete {
			cr.add(vUnd, 0, "path enumeration is incomplete")
		}
		cc := &callCase{er: er, kind: k}
		for _, p := range er.paths {
			if p.Outcome == "back" {
				continue
			}
			if p.Outcome != "return" || len(p.Ret) != 1 {
				cr.add(vUnd, lastPos(p), "a path is not resolved")
				continue
			}
			r := er.specRenderer(p)
			got := r.str(p.Ret[0])
			v := stripIface(p.Ret[0])
			switch k {
			case "*object.Array":
				want := "[k] <- Val(s.Elements[k]) : len(s.Elements)"
				s := er.contents(p, v, func(*Path) bool { return true })
				l := strings.Join(s.list, "; ")
				empty := p.Facts.decide(c.p, mkEq(mkLen(c.fld(er.args[0], "Elements")), mkInt(0))) == 1
				kind := er.wrongKind()
				switch {
				case kind != "":
					cr.add(vBad, lastPos(p), kind)
				case s.why != "":
					v, why := s.failed()
					cr.add(v, lastPos(p), why)
				case l == want && len(s.swap) == 0, empty && l == "":
					cr.add(vOK, lastPos(p), "")
				case strings.Contains(l, "?") || strings.Contains(l, "loop") || strings.Contains(l, "…"):
					cr.add(vUnd, lastPos(p), "the list {"+l+"} is not resolved")
				default:
					cr.add(vBad, lastPos(p), "the list holds {"+l+"}, expected {"+want+"}")
				}
			case "*object.Obj":
				if kind := er.wrongKind(); kind != "" {
					cr.add(vBad, lastPos(p), kind)
					break
				}
				cr.add(cc.mapOf(p, v, "Val"))
			default:
				switch {
				case got == kv[1]:
					cr.add(vOK, lastPos(p), "")
				case c.resolved(p, p.Ret[0], func(t *Term) bool { return t == er.args[0] }) && er.factsKnown(p):
					cr.add(vBad, lastPos(p), "the plain value is "+got+", expected "+kv[1])
				default:
					cr.add(vUnd, lastPos(p), "the plain value "+got+" is not resolved")
				}
			}
		}
		cr.done()
	}
}

// mapOf: v is a new map with fn(value) for every entry of the object.
func (cc *callCase) mapOf(p *Path, v *Term, fn string) (verdict, token.Pos, string) {
	er, c := cc.er, cc.er.c
	pos := lastPos(p)
	pairs := c.fld(er.args[0], "Pairs")
	if v.isNil() {
		return vBad, pos, "the plain value is nil"
	}
	if v.Op != "mapalloc" || pairs == nil {
		return vUnd, pos, "the map is not resolved"
	}
	n := 0
	for _, q := range er.paths {
		if q.Outcome != "back" {
			continue
		}
		var ups []*Event
		for _, ev := range q.Events {
			if ev.Kind == "mapupdate" && stripEpoch(ev.Addr) == stripEpoch(v) {
				ups = append(ups, ev)
			}
		}
		if len(ups) == 0 {
			if er.onlyKeys(q) {
				return vUnd, pos, "a pass does not write an entry"
			}
			if er.factsKnown(q) {
				return vBad, lastPos(q), "some entries are left out"
			}
			return vUnd, pos, "a pass does not write an entry"
		}
		if len(ups) > 1 {
			return vUnd, pos, "a pass writes several entries"
		}
		n++
		key := stripEpoch(ups[0].Args[0])
		if key.Op != "rkey" {
			return vUnd, pos, "the key " + er.specRenderer(q).str(key) + " is not resolved"
		}
		if stripEpoch(key.Args[0]) != stripEpoch(pairs) {
			return vUnd, pos, fmt.Sprint("the keys are those of another map ", stripEpoch(key.Args[0]), " ", stripEpoch(pairs))
		}
		val := stripEpoch(stripIface(ups[0].Val))
		el := val
		if val.Op == "inv" && strings.SplitN(val.Sym, "#", 2)[0] == fn && len(val.Args) > 0 {
			el = stripIface(val.Args[0])
		} else if c.resolved(q, val, func(t *Term) bool { return t == er.args[0] || t.Op == "rkey" || t.Op == "inv" }) {
			return vBad, ups[0].Pos, "an entry is " + er.specRenderer(q).str(ups[0].Val) + ", expected " + fn + "() of the value"
		} else {
			return vUnd, pos, "the entry " + er.specRenderer(q).str(ups[0].Val) + " is not resolved"
		}
		if el.Op != "lookup" || el.Args[1] != key {
			return vUnd, pos, "the entry is made of another value"
		}
	}
	if n == 0 {
		return vUnd, pos, "no entry is written"
	}
	return vOK, pos, ""
}

// onlyKeys: the path knows nothing but that there is another entry.
func (er *evalRun) onlyKeys(p *Path) bool {
	for b := range p.Facts.bools {
		if b.Op != "more" && b.Op != "maphas" {
			return false
		}
	}
	return true
}

func globalTerm(g *ssa.Global) *Term { return mk("global", globalName(g), g.Type(), g) }

// plainTypes are the types of the plain values of the kinds of values.
var plainTypes = map[string]string{"*object.Int": "int64", "*object.Float": "float64", "*object.Str": "string", "*object.Bool": "bool", "*object.Array": "[]any", "*object.Obj": "map[string]any"}

// wrongKind: a pass of a loop gives for an element of a known kind a plain
// value of another Go type than the values of the kind have.
func (er *evalRun) wrongKind() string {
	for _, q := range er.paths {
		if q.Outcome != "back" {
			continue
		}
		var vals []*Term
		for _, st := range q.Vals {
			if st != nil && st.Op == "append" && len(st.Args) == 2 {
				vals = append(vals, st.Args[1])
			}
		}
		for _, ev := range q.Events {
			if ev.Kind == "mapupdate" || ev.Kind == "store" && ev.Addr.Op == "&i" {
				vals = append(vals, ev.Val)
			}
		}
		for _, v := range vals {
			if v == nil || v.Op != "iface" {
				continue
			}
			got := strings.ReplaceAll(shortType(v.Obj.(types.Type)), "interface{}", "any")
			for x := range q.Facts.kinds {
				r := er.specRenderer(q)
				r.names[mkLoopK(q.Loop)] = "k"
				if n := r.str(x); n != "s.Elements[k]" && !strings.HasPrefix(n, "s.Pairs[") {
					continue
				}
				k, ok := q.Facts.kind(er.c.p, x).single()
				if want := plainTypes[k]; ok && want != "" && want != got && !(k == "*object.Int" && got == "int") {
					return "an element that is an " + baseName(k) + " is given as a " + got + ", its plain value is a " + want
				}
			}
		}
	}
	return ""
}
