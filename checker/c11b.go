package main

import (
	"fmt"
	"os"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// loopContract checks the built-ins that walk over a list.
func (b *bfun) loopContract(label string) {
	R := b.R()
	a0 := b.arg(0)
	if R == nil {
		b.c.und("contract", label, "the receiver has no value")
		return
	}
	const aS = "*object.Str"
	noArg := bcase{name: "no argument", conds: []*Term{b.hasNo(1)}}
	strArg := bcase{name: "string argument", conds: []*Term{b.has(1)}, kinds: []bkind{{a0, aS, false}}}
	badArg := bcase{name: "other argument", conds: []*Term{b.has(1)}, kinds: []bkind{{a0, aS, true}}, want: []string{"ERR"}}
	n := mkLen(R)
	isEmpty, nonEmpty := mkEq(n, mkInt(0)), mkLess(mkInt(0), n)
	E := "s.Elements"
	seg := func(src, n string) string { return "[k] <- " + src + " : " + n }
	switch b.name {
	case "split":
		for _, x := range []struct {
			bc  bcase
			sep string
		}{{noArg, `" "`}, {strArg, "args[0].Value"}} {
			sp := "strings.Split(s.Value, " + x.sep + ")"
			b.segCase(label, x.bc, "*object.Array", nil, [][]string{{seg("Str{Value: "+sp+"[k]}", "len("+sp+")")}}, nil)
		}
		b.check(label, badArg)
	case "append", "prepend":
		noArg.want = []string{"ERR"}
		b.check(label, noArg)
		w := []string{seg(E+"[k]", "len("+E+")"), "[(k+len(" + E + "))] <- args[k] : len(args)"}
		if b.name == "prepend" {
			w = []string{seg("args[k]", "len(args)"), "[(k+len(args))] <- " + E + "[k] : len(" + E + ")"}
		}
		sort.Strings(w)
		b.segCase(label, bcase{name: "arguments", conds: []*Term{b.has(1)}}, "*object.Array", nil, [][]string{w}, nil)
	case "reverse":
		if b.kind == aS {
			rs := "[]rune(s.Value)"
			b.segCase(label, bcase{name: "characters", conds: []*Term{mkLess(mkInt(1), mkLen(runes(R))), mkNot(mkEq(R, mkStr("")))}}, aS, runes(R), [][]string{{seg(rs+"[(len("+rs+")-k-1)]", "len("+rs+")")}, {"[(len(" + rs + ")-k-1)] <- " + rs + "[k] : len(" + rs + ")"}},
				[]string{rs})
			return
		}
		b.segCase(label, bcase{name: "elements", conds: []*Term{mkLess(mkInt(1), n)}}, "*object.Array", nil, [][]string{{seg(E+"[(len("+E+")-k-1)]", "len("+E+")")}, {"[(len(" + E + ")-k-1)] <- " + E + "[k] : len(" + E + ")"}}, []string{E})
	case "shuffle":
		b.shuffle(label)
	case "join":
		b.join(label, noArg, `","`)
		b.join(label, strArg, "args[0].Value")
		b.check(label, badArg)
	case "contains":
		noArg.want = []string{"ERR"}
		b.check(label, noArg)
		b.contains(label, isEmpty, nonEmpty)
		b.c.equality()
	}
}

func (b *bfun) keep(bc bcase) func(*Path) bool {
	return func(p *Path) bool { return b.under(p, bc) != nil }
}

// segCase compares the contents of the returned list with the contract; swap
// lists the lists that may be reversed in place.
func (b *bfun) segCase(label string, bc bcase, kind string, chars *Term, want [][]string, swap []string) {
	c := b.c
	cr := c.newCase("segments", label+": "+bc.name)
	if !b.er.complete {
		cr.add(vUnd, 0, "path enumeration is incomplete")
	}
	all := want
	for _, p := range b.er.paths {
		want := all
		if p.Outcome != "return" || len(p.Ret) != 2 {
			continue
		}
		f := b.under(p, bc)
		if f == nil {
			continue
		}
		if e := b.er.nilRet(f, p.Ret[1]); e != 1 {
			if e == 0 && b.er.factsKnown(p) {
				cr.add(vBad, lastPos(p), "an error is returned")
			} else {
				cr.add(vUnd, lastPos(p), "an error may be returned")
			}
			continue
		}
		var v *Term
		if kind == "*object.Str" {
			v = c.objField(p, p.Ret[0], "object.Str", "Value")
			if v != nil && v.Op == "conv" && v.Sym == "string" {
				v = v.Args[0]
			}
		} else {
			v = c.objField(p, p.Ret[0], "object.Array", "Elements")
		}
		if v == nil && p.Ret[0] == b.recv {
			v = b.R()
		}
		if v == nil {
			cr.add(vUnd, lastPos(p), "the returned list is not resolved")
			continue
		}
		s := b.er.contents(p, v, b.keep(bc))
		if os.Getenv("TW_SEGS") != "" {
			fmt.Println(label, bc.name, s)
		}
		if s.why != "" {
			v, why := s.failed()
			cr.add(v, lastPos(p), why)
			continue
		}
		if b.kind == "*object.Array" && f.decide(c.p, mkEq(mkLen(b.R()), mkInt(0))) == 1 {
			// the receiver has no elements
			want = append([][]string{}, want...)
			for i := range want {
				var l []string
				for _, x := range want[i] {
					if !strings.Contains(x, "<- s.Elements[") {
						l = append(l, strings.NewReplacer("(k+len(s.Elements))", "k").Replace(x))
					}
				}
				want[i] = l
			}
			var l []string
			for _, x := range s.list {
				if !strings.Contains(x, "<- s.Elements[") {
					l = append(l, strings.NewReplacer("(k+len(s.Elements))", "k").Replace(x))
				}
			}
			s.list = l
		}
		got := strings.Join(s.list, "; ")
		ok := false
		for _, w := range want {
			if got == strings.Join(w, "; ") && len(s.swap) == 0 {
				ok = true
			}
		}
		if len(s.swap) == 1 && len(s.list) == 1 {
			for _, l := range swap {
				N := "len(" + l + ")"
				if s.list[0] == "[k] <- "+l+"[k] : "+N {
					for _, d := range []string{"0 < ((" + N + " / 2)-k)", "0 < (-2*k+" + N + "-1)", "0 < (" + N + "-2*k-1)", "0 < (-k+(" + N + " / 2))"} {
						if s.swap[0] == "("+N+"-k-1) <-> k : "+d || s.swap[0] == "(-k+"+N+"-1) <-> k : "+d {
							ok = true
						}
					}
				}
			}
		}
		switch {
		case ok:
			if why := b.earlyExit(p); why != "" {
				cr.add(vUnd, lastPos(p), why)
			} else {
				cr.add(vOK, lastPos(p), "")
			}
		case strings.Contains(got, "loop") || strings.Contains(got, "?") || strings.Contains(got, "…") || strings.Contains(got, "copyn") || !b.er.factsKnown(p):
			cr.add(vUnd, lastPos(p), "the contents "+got+" are not resolved")
		default:
			for _, m := range libCalls.FindAllString(got, -1) {
				if !contractLib[m] && m != "strings.Split(" && m != "strings.SplitN(" && m != "strings.Fields(" && m != "strings.SplitAfter(" {
					cr.add(vUnd, lastPos(p), "the contents "+got+" use "+m+")")
					got = ""
				}
			}
			if got != "" || len(s.list) == 0 {
				if len(s.swap) > 0 {
					got += "; swapped " + strings.Join(s.swap, "; ")
				}
				cr.add(vBad, lastPos(p), "the list holds {"+got+"}, expected {"+strings.Join(want[0], "; ")+"}")
			}
		}
	}
	cr.done()
}

// earlyExit: a loop is left before its condition fails.
func (b *bfun) earlyExit(p *Path) string {
	for _, ev := range p.Events {
		if ev.Kind != "exit" {
			continue
		}
		for _, q := range b.er.backs(ev.Loop, func(*Path) bool { return true }) {
			for t, v := range q.Facts.bools {
				if t.Op == "<" {
					if l := toLinear(linAdd(t.Args[1], t.Args[0], -1)); l.co[mkLoopK(ev.Loop)] != 0 && ev.Facts.decide(b.c.p, t) == map[bool]int{true: 1, false: 0}[v] {
						return "a loop is left early"
					}
				}
			}
		}
	}
	return ""
}

func (b *bfun) shuffle(label string) {
	c := b.c
	R := b.R()
	bc := bcase{name: "permutation", conds: []*Term{mkLess(mkInt(1), mkLen(R))}}
	cr := c.newCase("segments", label+": permutation")
	for _, p := range b.er.paths {
		if p.Outcome != "return" || len(p.Ret) != 2 || b.under(p, bc) == nil {
			continue
		}
		v := c.objField(p, p.Ret[0], "object.Array", "Elements")
		if p.Ret[0] == b.recv {
			cr.add(vOK, lastPos(p), "")
			continue
		}
		if v == nil {
			cr.add(vUnd, lastPos(p), "the returned list is not resolved")
			continue
		}
		s := b.er.contents(p, v, b.keep(bc))
		if os.Getenv("TW_SEGS") != "" {
			fmt.Println(label, s)
		}
		got := strings.Join(s.list, "; ")
		const N = "len(s.Elements)"
		switch {
		case s.why != "":
			v, why := s.failed()
			cr.add(v, lastPos(p), why)
		case got == "[k] <- s.Elements[k] : "+N:
			cr.add(vOK, lastPos(p), "")
		case randomPick.MatchString(got):
			cr.add(vBad, lastPos(p), "each position gets an element picked at random, elements can be repeated or lost: {"+got+"}")
		case strings.Contains(got, "loop") || strings.Contains(got, "rand"):
			cr.add(vUnd, lastPos(p), "the contents are not resolved")
		default:
			cr.add(vBad, lastPos(p), "the list holds {"+got+"}, expected a permutation of the elements")
		}
	}
	cr.done()
}

func (b *bfun) join(label string, bc bcase, sep string) {
	c := b.c
	cr := c.newCase("contract", label+": "+bc.name)
	if !b.er.complete {
		cr.add(vUnd, 0, "path enumeration is incomplete")
	}
	keep := b.keep(bc)
	for _, p := range b.er.paths {
		if p.Outcome != "return" || len(p.Ret) != 2 || !keep(p) {
			continue
		}
		f := b.under(p, bc)
		if b.er.nilRet(f, p.Ret[1]) != 1 {
			if b.er.nilRet(f, p.Ret[1]) == 0 && b.er.factsKnown(p) {
				cr.add(vBad, lastPos(p), "an error is returned")
			} else {
				cr.add(vUnd, lastPos(p), "an error may be returned")
			}
			continue
		}
		v := c.objField(p, p.Ret[0], "object.Str", "Value")
		switch {
		case v == nil:
			cr.add(vUnd, lastPos(p), "the result is not resolved")
			continue
		case v.isConst():
			if s, ok := v.strVal(); ok && s == "" && f.decide(c.p, mkEq(mkLen(b.R()), mkInt(0))) == 1 {
				cr.add(vOK, lastPos(p), "")
			} else {
				cr.add(vUnd, lastPos(p), "a constant result")
			}
			continue
		case v.Op == "call" && strings.HasPrefix(v.Sym, "strings.Join") && len(v.Args) == 2:
			s := b.er.contents(p, v.Args[0], keep)
			sp := b.er.specRenderer(p).str(v.Args[1])
			got := strings.Join(s.list, "; ")
			switch {
			case s.skip != "":
				cr.add(vBad, lastPos(p), s.skip)
			case s.why != "" || len(s.swap) > 0:
				cr.add(vUnd, lastPos(p), "the joined list is not resolved: "+s.why)
			case got == "[k] <- String(s.Elements[k]) : len(s.Elements)" && sp == sep:
				cr.add(vOK, lastPos(p), "")
			case sp != sep && got == "[k] <- String(s.Elements[k]) : len(s.Elements)":
				cr.add(vBad, lastPos(p), "the separator is "+sp+", expected "+sep)
			default:
				cr.add(vUnd, lastPos(p), "the joined list holds {"+got+"}")
			}
			continue
		}
		t := loopTerm(v)
		if t == nil || t != v {
			cr.add(vUnd, lastPos(p), "the result is not built by a loop")
			continue
		}
		id, name, _ := strings.Cut(t.Sym, ".")
		init := ""
		var initT *Term
		for _, ev := range p.Events {
			if t.Op == "loopv" && ev.Kind == "loop" && ev.Loop == id {
				initT = ev.Vals[name]
			}
			if t.Op == "loopm" && ev.Kind == "acc" && ev.Loop == t.Sym && ev.Addr == t.Args[0] {
				initT = ev.Val
			}
		}
		if initT != nil {
			init = b.er.specRenderer(p).str(initT)
		}
		if init != `""` {
			cr.add(vUnd, lastPos(p), "the result starts as "+init)
			continue
		}
		k := mkLoopK(id)
		for _, first := range []bool{true, false} {
			for _, q := range b.er.backs(id, keep) {
				f := b.under(q, bc)
				if first {
					f = c.with(f, mkEq(k, mkInt(0)))
					if f != nil {
						// nothing is joined yet
						f = c.with(f, mkEq(t, mkStr("")))
					}
				} else {
					f = c.with(f, mkLess(mkInt(0), k))
				}
				if f == nil {
					continue
				}
				n, _ := b.er.domain(q, id)
				st := q.Vals[name]
				if t.Op == "loopm" {
					st = q.St.mem[t.Args[0]]
				}
				if n == nil || st == nil {
					cr.add(vUnd, lastPos(q), "the loop is not resolved")
					continue
				}
				qq := *q
				r := b.er.specRenderer(&qq)
				r.names[k] = "k"
				r.names[t] = "acc"
				got := r.str(st) + " : " + r.str(n)
				want := "cat(acc String(s.Elements[k])) : len(s.Elements)"
				if !first {
					want = "cat(acc " + sep + " String(s.Elements[k])) : len(s.Elements)"
				}
				g2, w2 := got, want
				if first {
					qq.Facts = f
					g2 = strings.ReplaceAll(g2, "[0]", "[k]")
				}
				switch {
				case g2 == w2:
					cr.add(vOK, lastPos(q), "")
				case !first && got == "cat(acc String(s.Elements[k])) : len(s.Elements)" && f.decide(c.p, mkEq(t, mkStr(""))) == 1:
					cr.add(vBad, lastPos(q), "the separator is left out while what is joined is empty: elements that print nothing lose theirs")
				case strings.Contains(got, "loop") || !b.er.factsKnown(q) || loopState(q) > 2:
					cr.add(vUnd, lastPos(q), "a pass makes the result "+got)
				default:
					cr.add(vBad, lastPos(q), "a pass makes the result "+got+", expected "+want)
				}
			}
		}
	}
	cr.done()
}

func (b *bfun) contains(label string, isEmpty, nonEmpty *Term) {
	bc := bcase{name: "element", conds: []*Term{b.has(1)}}
	cr := b.c.newCase("contract", label+": element")
	if !b.er.complete {
		cr.add(vUnd, 0, "path enumeration is incomplete")
	}
	eq := []string{"isEqual(s.Elements[k1], args[0])", "isEqual(args[0], s.Elements[k1])"}
	for _, p := range b.er.paths {
		f := b.under(p, bc)
		if f == nil || p.Outcome == "panic" {
			continue
		}
		tr, unknown := b.er.trace(p)
		ret := ""
		if len(p.Ret) == 2 {
			if e := b.er.nilRet(f, p.Ret[1]); e != 1 {
				cr.add(vUnd, lastPos(p), "an error may be returned")
				continue
			}
			ret = b.er.specRenderer(p).str(p.Ret[0])
		}
		is := func(v string) bool {
			for _, e := range eq {
				if tr == "loop1; "+e+"="+v+"; back1; " || tr == "loop1; "+e+"="+v+"; exit1; " {
					return true
				}
			}
			return false
		}
		switch {
		case p.Outcome == "back" && is("F"), p.Outcome == "return" && is("T") && ret == "Bool{Value: true}",
			tr == "loop1; exit1(s.Elements); " && (ret == "Bool{}" || ret == "Bool{Value: false}"),
			tr == "" && (ret == "Bool{}") && f.decide(b.c.p, isEmpty) == 1:
			cr.add(vOK, lastPos(p), "")
		case b.comparesText(p):
			cr.add(vBad, lastPos(p), "elements are compared by their text, values of different types or structure have the same text")
		case unknown || !b.er.factsKnown(p) || loopState(p) > 1 || strings.Count(tr, "loop") > 1:
			cr.add(vUnd, lastPos(p), "the path `"+tr+"` is not resolved")
		case strings.Contains(tr, "isEqual("):
			if ret == "" {
				ret = "another pass"
			}
			cr.add(vBad, lastPos(p), "a path does `"+tr+"` giving "+ret)
		case b.comparesText(p):
			cr.add(vBad, lastPos(p), "elements are compared by their text, values of different types or structure have the same text")
		case b.shortLoop(p) != "":
			cr.add(vBad, lastPos(p), "only the first "+b.shortLoop(p)+" elements are compared")
		default:
			cr.add(vUnd, lastPos(p), "the path `"+tr+"` giving "+ret+" is not understood")
		}
	}
	cr.done()
}

// shortLoop: a loop over the elements that ends before the last one.
func (b *bfun) shortLoop(p *Path) string {
	for _, ev := range p.Events {
		if ev.Kind != "exit" {
			continue
		}
		var n *Term
		for _, q := range b.er.paths {
			if q.Outcome == "back" && q.Loop == ev.Loop {
				n, _ = b.er.domain(q, ev.Loop)
				break
			}
		}
		if n == nil {
			continue
		}
		r := b.er.specRenderer(p).str(n)
		l := toLinear(n)
		if len(l.co) == 1 && l.c < 0 {
			for a, k := range l.co {
				if k == 1 && b.er.specRenderer(p).str(a) == "len(s.Elements)" {
					return r
				}
			}
		}
	}
	return ""
}

// an element at an index that is drawn for it alone
var randomPick = regexp.MustCompile(`<- s\.Elements\[[^\[\];]*\b(Intn|IntN|Int63n|Int31n|N)\(`)

// comparesText: the path is chosen by the equality of two printed values.
func (b *bfun) comparesText(p *Path) bool {
	for t := range p.Facts.bools {
		if (t.Op == "==" || t.Op == "s==") && isText(t.Args[0]) && isText(t.Args[1]) {
			return true
		}
	}
	return false
}

// isText: the printed form of an object.
func isText(t *Term) bool {
	return t.Op == "inv" && (t.Sym == "String" || strings.HasPrefix(t.Sym, "String#"))
}

// equality: isEqual is structural.
func (c *Checker) equality() {
	f := c.p.fn("evaluator", "isEqual")
	er := c.fnRun(f, []string{"a", "b"}, runOpts{onRec: true}, map[string]string{"evaluator.isEqual": "eq"})
	if er == nil || len(er.args) != 2 {
		c.und("contract", "isEqual", "anchor not found")
		return
	}
	a, b := er.args[0], er.args[1]
	for _, ka := range valueKinds {
		for _, kb := range valueKinds {
			cr := c.newCase("contract", "isEqual: "+baseName(ka)+" "+baseName(kb))
			if !er.complete {
				cr.add(vUnd, 0, "path enumeration is incomplete")
			}
			va, vb := c.objVal(a, ka), c.objVal(b, kb)
			for _, p := range er.paths {
				f := c.withKind(p.Facts, a, ka)
				f = c.withKind(f, b, kb)
				if f == nil {
					continue
				}
				tr, unknown := er.trace(p)
				if p.Outcome != "return" || len(p.Ret) != 1 || unknown || tr != "" {
					cr.add(vUnd, lastPos(p), "the path `"+tr+"` is not resolved")
					continue
				}
				q := *p
				q.Facts = f
				got := er.specRenderer(&q).str(p.Ret[0])
				d := f.decide(c.p, p.Ret[0])
				switch {
				case ka != kb:
					switch {
					case d == 0:
						cr.add(vOK, lastPos(p), "")
					case d == 1 && er.factsKnown(p):
						cr.add(vBad, lastPos(p), "values of different types are equal")
					default:
						cr.add(vUnd, lastPos(p), "the result is "+got)
					}
				case ka == "*object.Nil":
					if d == 1 || got == "(Val(a) == Val(b))" || got == "(String(a) == String(b))" {
						cr.add(vOK, lastPos(p), "")
					} else if d == 0 {
						cr.add(vBad, lastPos(p), "nil is not equal to nil")
					} else {
						cr.add(vUnd, lastPos(p), "the result is "+got)
					}
				case ka == "*object.Array" || ka == "*object.Obj":
					want := map[string]string{"*object.Array": "slices.EqualFunc(a.Elements, b.Elements, evaluator.isEqual)", "*object.Obj": "maps.EqualFunc(a.Pairs, b.Pairs, evaluator.isEqual)"}[ka]
					lens := map[string]*Term{}
					for _, x := range []*Term{c.objFld(a, ka, "Elements"), c.objFld(a, ka, "Pairs"), c.objFld(b, ka, "Elements"), c.objFld(b, ka, "Pairs")} {
						if x != nil {
							lens[er.specRenderer(&q).str(x)] = mkLen(x)
						}
					}
					fn := map[string]string{"*object.Array": "Elements", "*object.Obj": "Pairs"}[ka]
					la, lb := lens["a."+fn], lens["b."+fn]
					switch {
					case got == want, d == 0 && la != nil && lb != nil && f.decide(c.p, mkEq(la, lb)) == 0:
						cr.add(vOK, lastPos(p), "")
					case strings.HasPrefix(got, "(String(a) == String(b))"), strings.HasPrefix(got, "(Val(a) == Val(b))"):
						cr.add(vBad, lastPos(p), "composite values are compared with "+got+", not structurally")
					case prefixEqual.MatchString(got):
						cr.add(vBad, lastPos(p), "only parts of the values are compared: "+got)
					case d == 1 && len(p.Facts.bools) == 0:
						cr.add(vBad, lastPos(p), "composite values are equal without a comparison of their elements")
					default:
						cr.add(vUnd, lastPos(p), "the result is "+got)
					}
				default:
					eq := eqTerm(va, vb)
					ok := got == "(Val(a) == Val(b))" || p.Ret[0] == eq || ka != "*object.Float" && got == "(String(a) == String(b))"
					if !ok && d >= 0 {
						g := c.with(f, map[bool]*Term{true: mkNot(eq), false: eq}[d == 1])
						if g == nil {
							ok = true
						} else if er.factsKnown(p) && c.resolved(p, p.Ret[0], er.specInput) && onlyKinds(p) {
							cr.add(vBad, lastPos(p), fmt.Sprintf("the result is %v whatever the values", d == 1))
							continue
						}
					}
					if ok {
						cr.add(vOK, lastPos(p), "")
					} else if got == "(String(a) == String(b))" {
						cr.add(vBad, lastPos(p), "floats are compared by their text")
					} else {
						cr.add(vUnd, lastPos(p), "the result is "+got)
					}
				}
			}
			cr.done()
		}
	}
}

// a comparison of a part of a list
var prefixEqual = regexp.MustCompile(`^(slices|maps)\.Equal(Func)?\((.*\[[^\[\]]*:[^\[\]]*\].*)\)$`)

// onlyKinds: the path is selected by dynamic types alone.
func onlyKinds(p *Path) bool {
	for b := range p.Facts.bools {
		ok := b.Op == "istype"
		if b.Op == "==" {
			ok = b.Args[0].Op == "mconst" || b.Args[1].Op == "mconst"
		}
		if !ok {
			return false
		}
	}
	return true
}

// builtinPurity: the built-ins change neither receiver nor arguments.
func (c *Checker) builtinPurity(tab map[string]*ssa.Function) {
	a := newPts(c.p)
	var names []string
	for n := range tab {
		names = append(names, n)
	}
	sort.Strings(names)
	var roots []*ssa.Function
	done := map[*ssa.Function]bool{}
	for _, n := range names {
		f := tab[n]
		if done[f] {
			continue
		}
		done[f] = true
		roots = append(roots, f)
		for i, prm := range f.Params {
			if i > 0 && hasPointers(prm.Type()) {
				a.param(f, i, map[bool]string{true: "the receiver", false: "the arguments"}[i == 1])
			}
		}
	}
	a.solve(roots...)
	a.markShared()
	n := 0
	for _, w := range a.sortedWrites() {
		n++
		name := c.p.fullName(w.fn) + ": " + w.what
		hit := ""
		for o := range w.objs {
			if o.symbolic() || o.shared != "" {
				x := o.name
				if !o.symbolic() {
					x = o.shared
				}
				if hit == "" || x < hit {
					hit = x
				}
			}
		}
		switch {
		case hit == "":
			c.ok("purity", name, w.in.Pos())
		case w.how == "append":
			c.bad("purity", name, w.in.Pos(), "append may write the memory of %s (its backing array)", hit)
		default:
			c.bad("purity", name, w.in.Pos(), "the write changes %s", hit)
		}
	}
	for f := range a.reach {
		c.sawFn(f)
	}
	c.ok("purity", fmt.Sprintf("%d writes of %d functions", n, len(a.reach)), 0)
}
