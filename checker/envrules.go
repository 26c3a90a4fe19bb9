package main

import (
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// fnSpec compares the paths of a function with its specification.
func (c *Checker) fnSpec(rule, name string, f *ssa.Function, names []string, o runOpts, voc map[string]string, alts func(er *evalRun) []alt) {
	er := c.fnRun(f, names, o, voc)
	if er == nil {
		c.und(rule, name, "anchor not found")
		return
	}
	er.spec(rule, name, alts(er))
}

// callRes is the result term of the n-th call of a function in a run.
func callRes(fn string, n int, args ...*Term) *Term {
	return mk("call", fn+"#"+strconv.Itoa(n), nil, nil, args...)
}

// envRules: the scope operations.
func (c *Checker) envRules(rule string) {
	fe := c.p.fn("object", "NewEnclosedEnv")
	c.fnSpec(rule, "NewEnclosedEnv", fe, []string{"outer"}, runOpts{}, nil, func(er *evalRun) []alt {
		return []alt{{ret: "Env{store: map{}, outer: outer} | Env{outer: outer, store: map{}}"}}
	})
	get := c.p.fn("object", "Env.Get")
	c.fnSpec(rule, "Env.Get", get, []string{"e", "name"}, runOpts{onRec: true}, map[string]string{"object.Env.Get": "Get"}, func(er *evalRun) []alt {
		e, name := er.args[0], er.args[1]
		st := c.fieldOf(e, "*object.Env", "store")
		out := c.fieldOf(e, "*object.Env", "outer")
		if st == nil || out == nil {
			return nil
		}
		has := mk("maphas", "", nil, nil, st, name)
		isNil := mkEq(out, mkNil())
		return []alt{
			{ret: "e.store[name], true", when: []*Term{has}},
			{toks: []string{"~Get\\(e\\.outer, name\\)(?:=[TF])?"}, ret: "Get(e.outer, name)#0, Get(e.outer, name)#1 | Get(e.outer, name)#0, true | nil, false", when: []*Term{mkNot(has), mkNot(isNil)}},
			{ret: "nil, false", when: []*Term{mkNot(has), isNil}},
		}
	})
	c.envSet(rule)
	c.fnSpec(rule, "Env.SetLoopVar", c.p.fn("object", "Env.SetLoopVar"), []string{"e", "pairs"}, runOpts{}, nil, func(er *evalRun) []alt {
		return []alt{{toks: []string{`e.store["loop"] := Obj{Pairs: pairs}`}, ret: ""}}
	})
}

// envSet: an assignment is refused for "loop" and for a visible variable of
// another type, and otherwise writes the receiver's own store.
func (c *Checker) envSet(rule string) {
	set := c.p.fn("object", "Env.Set")
	voc := map[string]string{"object.Env.Get": "Get"}
	er := c.fnRun(set, []string{"e", "key", "val"}, runOpts{}, voc)
	if er == nil || len(er.args) != 3 {
		c.und(rule, "Env.Set", "anchor not found")
		return
	}
	e, key, val := er.args[0], er.args[1], er.args[2]
	isLoop := mkEq(key, mkStr("loop"))
	for _, k := range []string{"reserved name", "type mismatch", "first assignment", "same type"} {
		cr := c.newCase(rule, "Env.Set: "+k)
		for _, p := range er.paths {
			if p.Outcome != "return" || len(p.Ret) != 1 {
				continue
			}
			var got *Event
			writes, other := 0, ""
			for _, ev := range p.Events {
				switch ev.Kind {
				case "call":
					if ev.Fn == "object.Env.Get" && ev.Args[0] == e && ev.Args[1] == key {
						got = ev
					}
				case "mapupdate":
					if st := c.fieldOf(e, "*object.Env", "store"); st != nil && stripEpoch(ev.Addr) == stripEpoch(st) && ev.Args[0] == key && ev.Val == val {
						writes++
					} else if !ev.Fresh {
						other = er.specRenderer(p).str(ev.Addr) + "[" + er.specRenderer(p).str(ev.Args[0]) + "]"
					}
				}
			}
			f := p.Facts
			if k == "reserved name" {
				f = c.with(f, isLoop)
			} else {
				f = c.with(f, mkNot(isLoop))
			}
			if f == nil {
				continue
			}
			if k != "reserved name" {
				if got == nil {
					if er.factsKnown(p) && !hasLoop(p) && !hasUnknownCall(er, p) {
						if d := er.nilRet(f, p.Ret[0]); d == 1 {
							cr.add(vBad, lastPos(p), "the enclosing scopes are not consulted before the assignment")
						} else if d == 0 && k != "type mismatch" {
							cr.add(vBad, lastPos(p), "an assignment is refused for another reason")
						}
					} else {
						cr.add(vUnd, lastPos(p), "the visible variable is not looked up with Env.Get")
					}
					continue
				}
				old, found := mk("ext", "0", nil, nil, got.Res), mk("ext", "1", nil, nil, got.Res)
				f = c.with(f, map[bool]*Term{true: found, false: mkNot(found)}[k != "first assignment"])
				if f == nil {
					continue
				}
				if k != "first assignment" {
					ks := f.kind(c.p, old).filter(func(n string) bool { return n != "nil" })
					if ks.empty() {
						continue
					}
					f = f.setKind(old, ks)
					same := c.sameType(old, val)
					if k == "type mismatch" {
						same = mkNot(same)
					}
					if f = c.with(f, same); f == nil {
						continue
					}
				}
			}
			foreign := ""
			for _, ev := range p.Events {
				if ev.Kind != "mapupdate" || ev.Fresh || ev.Args[0] != key {
					continue
				}
				// the store of another scope than the receiver
				if a := ev.Addr; a.Op == "init" && a.Args[0].Op == "&f" && a.Args[0].Args[0] != e {
					foreign = er.specRenderer(p).str(a)
				}
			}
			if foreign != "" {
				cr.add(vBad, lastPos(p), "the assignment writes "+foreign+", which is not the innermost scope")
				continue
			}
			refused := er.nilRet(f, p.Ret[0])
			want := k == "reserved name" || k == "type mismatch"
			switch {
			case !er.factsKnown(p) || hasLoop(p) || hasUnknownCall(er, p):
				cr.add(vUnd, lastPos(p), "a condition is not resolved")
			case other != "":
				cr.add(vBad, lastPos(p), "the assignment writes "+other)
			case refused < 0:
				cr.add(vUnd, lastPos(p), "the result is not resolved")
			case want && (refused == 1 || writes > 0):
				cr.add(vBad, lastPos(p), "the assignment is not refused")
			case !want && refused == 0:
				cr.add(vBad, lastPos(p), "a valid assignment is refused")
			case !want && writes != 1:
				cr.add(vBad, lastPos(p), "the variable is not stored in the current scope")
			default:
				cr.add(vOK, lastPos(p), "")
			}
		}
		if !er.complete {
			cr.add(vUnd, 0, "path enumeration is incomplete")
		}
		cr.done()
	}
}

func (c *Checker) sameType(a, b *Term) *Term {
	return mkEq(mk("mconst", "Type", nil, nil, a), mk("mconst", "Type", nil, nil, b))
}

// nilRet: 1 the returned value is nil, 0 it is not, -1 unknown.
func (er *evalRun) nilRet(f *Facts, t *Term) int {
	if t.isNil() {
		return 1
	}
	k := f.kind(er.c.p, t)
	if n, ok := k.single(); ok && n == "nil" {
		return 1
	}
	if !k.has("nil") || t.Op == "alloc" || t.Op == "iface" {
		return 0
	}
	if t.Op == "call" && (hasPrefixAny(t.Sym, "errors.New", "fmt.Errorf", "errors.Join")) {
		return 0
	}
	return f.decide(er.c.p, mkEq(t, mkNil()))
}

func hasLoop(p *Path) bool {
	for _, ev := range p.Events {
		if ev.Kind == "loop" {
			return true
		}
	}
	return false
}

// loopState is the number of values that the loops of a path carry.
func loopState(p *Path) int {
	n := 0
	for _, ev := range p.Events {
		if ev.Kind == "loop" && len(ev.Vals) > n {
			n = len(ev.Vals)
		}
	}
	return n
}

func hasUnknownCall(er *evalRun, p *Path) bool {
	for _, ev := range p.Events {
		switch ev.Kind {
		case "call":
			if ev.Note != "folded" && er.voc[ev.Fn] == "" && !extPure(ev.Fn) {
				return true
			}
		case "dyncall", "go", "defer":
			return true
		}
	}
	return false
}

// controlRules: a block contains a control statement when one of its elements
// does, at any depth.
func (c *Checker) controlRules(rule string) {
	for _, k := range []string{"Break", "Continue"} {
		f := c.p.fn("evaluator", "has"+k+"Stmt")
		kind := "*object." + k
		ck := c.typeConst(kind)
		if f == nil || ck == nil {
			c.und(rule, "has"+k+"Stmt", "anchor not found")
			continue
		}
		er := c.fnRun(f, []string{"obj"}, runOpts{onRec: true}, nil)
		// the recursive worker
		worker, wargs := f, rootParams(f)
		if len(er.paths) == 1 && er.paths[0].Outcome == "return" {
			p := er.paths[0]
			for _, ev := range p.Events {
				if ev.Kind == "call" && ev.Res == p.Ret[0] && ev.Fun != nil {
					worker, wargs = ev.Fun, ev.Args
				}
			}
		}
		name := c.p.fullName(worker)
		wr := c.fnRun(worker, []string{"obj"}, runOpts{onRec: true, args: wargs}, map[string]string{name: "has"})
		rest := ""
		for _, a := range wargs[1:] {
			rest += ", " + (&renderer{p: c.p, names: map[*Term]string{}}).str(a)
		}
		wr.names[wargs[0]] = "obj"
		obj := wargs[0]
		cr := c.newCase(rule, "has"+k+"Stmt")
		if !wr.complete {
			cr.add(vUnd, 0, "path enumeration is incomplete")
		}
		el := "obj.Elements[k1]" + rest
		for _, p := range wr.paths {
			tr, unknown := wr.trace(p)
			if unknown || !wr.factsKnown(p) {
				cr.add(vUnd, lastPos(p), "the path `"+tr+"` is not resolved")
				continue
			}
			isBlock := c.kindOf(p.Facts, obj) == "*object.Block"
			notBlock := !p.Facts.kind(c.p, obj).has("*object.Block")
			switch {
			case isBlock && p.Outcome == "back" && tr == "loop1; has("+el+")=F; back1; ",
				isBlock && tr == "loop1; has("+el+")=T; exit1; " && p.Facts.decide(c.p, p.Ret[0]) == 1,
				isBlock && tr == "loop1; exit1(obj.Elements); " && p.Facts.decide(c.p, p.Ret[0]) == 0:
				cr.add(vOK, lastPos(p), "")
			case isBlock && loopState(p) > 1, isBlock && p.Outcome != "return" && p.Outcome != "back":
				cr.add(vUnd, lastPos(p), "the loop `"+tr+"` is not understood")
			case isBlock:
				got := "another pass"
				if len(p.Ret) > 0 {
					got = wr.specRenderer(p).str(p.Ret[0])
				}
				cr.add(vBad, lastPos(p), "for a block the path does `"+tr+"` giving "+got)
			case notBlock && tr == "" && p.Outcome == "return":
				// the object itself: true for the control object only
				for _, kd := range c.objectKinds() {
					if kd == "*object.Block" {
						continue
					}
					g := c.withKind(p.Facts, obj, kd)
					if g == nil {
						continue
					}
					ret := p.Ret[0]
					want := 0
					if kd == kind {
						want = 1
					}
					got := g.decide(c.p, ret)
					if got < 0 && ret.Op == "inv" && len(ret.Args) == 2 {
						got = c.isMethod(kd, ret.Sym, ret.Args[1])
					}
					switch {
					case got == want:
						cr.add(vOK, lastPos(p), "")
					case got < 0:
						cr.add(vUnd, lastPos(p), "the answer for "+kd+" is not resolved")
					default:
						cr.add(vBad, lastPos(p), "the answer for "+kd+" is wrong")
					}
				}
			default:
				cr.add(vUnd, lastPos(p), "the path `"+tr+"` is not understood")
			}
		}
		cr.done()
	}
}

// typeConst is the constant that the Type method of a kind returns.
func (c *Checker) typeConst(kind string) *Term {
	return c.p.constMethod(kind, "Type")
}

// isMethod evaluates the Is method of a kind for a constant.
func (c *Checker) isMethod(kind, sym string, arg *Term) int {
	m := c.p.method(kind, "Is")
	if m == nil || len(m.Params) != 2 {
		return -1
	}
	args := rootParams(m)
	args[1] = arg
	ps, ok := c.run(m, runOpts{args: args})
	if !ok || len(ps) != 1 || len(ps[0].Ret) != 1 {
		return -1
	}
	return ps[0].Facts.decide(c.p, ps[0].Ret[0])
}
