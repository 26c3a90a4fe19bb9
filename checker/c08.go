package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C08: lexing and parsing end on every input, with a program or with an error.

func init() { checks["C08"] = checkC08 }

func checkC08(c *Checker) {
	c.rule("C08.lex", "every pass of every loop of the lexer moves the cursor inside the input or counts to a fixed bound, every token but the end consumes input, and no index or slice leaves the input")
	c.lexTotal("C08.lex")
	c.rule("C08.loops", "every pass of every loop of the parser consumes a token, and no loop goes on when only the end of the input is left")
	c.rule("C08.depth", "every recursion of the parser is counted and stops at a fixed depth with an error")
	pr := c.parser()
	c.parserLoops("C08.loops")
	c.parserDepth(pr, "C08.depth")
	c.rule("C08.panic", "no operation of the parser can panic: no nil map, dereference, call or failed type assertion, and every token has a name for messages")
	c.parsePanics(pr, "C08.panic")
	c.rule("C08.cycle", "linking components cannot recurse without end: a component that leads back to itself is an error")
	c.cycleRule("C08.cycle")
	c.tokenNames(pr, "C08.panic")
	c.rule("C08.reject", "an incomplete construct and an illegal character are errors with a line, and a program with errors is not used")
	c.rejects(pr, "C08.reject")
	c.errorLine("C08.reject")
}

// ------------------------------------------------------------ bounded loops

// boundedLoop: the loop iterates over a value, or counts towards a bound that
// does not change in the loop.
func (c *Checker) boundedLoop(l *loop) bool {
	for _, in := range l.header.Instrs {
		if n, ok := in.(*ssa.Next); ok {
			_ = n
			return true
		}
	}
	outside := func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.Const, *ssa.Parameter, *ssa.FreeVar, *ssa.Global, *ssa.Function:
			return true
		case ssa.Instruction:
			return !l.body[x.Block()]
		}
		return false
	}
	var fixed func(v ssa.Value, d int) bool
	fixed = func(v ssa.Value, d int) bool {
		if outside(v) {
			return true
		}
		if d > 4 {
			return false
		}
		switch x := v.(type) {
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				return fixed(x.Call.Args[0], d+1)
			}
		case *ssa.BinOp:
			return fixed(x.X, d+1) && fixed(x.Y, d+1)
		case *ssa.Convert:
			return fixed(x.X, d+1)
		case *ssa.Phi:
			return false
		}
		return false
	}
	var phi func(v ssa.Value, d int) *ssa.Phi
	phi = func(v ssa.Value, d int) *ssa.Phi {
		switch x := v.(type) {
		case *ssa.Phi:
			if x.Block() == l.header {
				return x
			}
		case *ssa.BinOp:
			if d < 3 && (x.Op == token.ADD || x.Op == token.SUB) {
				if _, ok := x.Y.(*ssa.Const); ok {
					return phi(x.X, d+1)
				}
				if _, ok := x.X.(*ssa.Const); ok && x.Op == token.ADD {
					return phi(x.Y, d+1)
				}
			}
		}
		return nil
	}
	var latches []*ssa.BasicBlock
	for _, p := range l.header.Preds {
		if l.body[p] {
			latches = append(latches, p)
		}
	}
	for b := range l.body {
		if len(b.Instrs) == 0 {
			continue
		}
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		leaves := -1
		for i, s := range b.Succs {
			if !l.body[s] {
				leaves = i
			}
		}
		if leaves < 0 {
			continue
		}
		dom := true
		for _, x := range latches {
			dom = dom && b.Dominates(x)
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !dom || !ok {
			continue
		}
		op := cmp.Op
		x, y := cmp.X, cmp.Y
		if leaves == 0 { // the loop goes on when the condition is false
			switch op {
			case token.LSS:
				op = token.GEQ
			case token.LEQ:
				op = token.GTR
			case token.GTR:
				op = token.LEQ
			case token.GEQ:
				op = token.LSS
			default:
				continue
			}
		}
		switch op {
		case token.GTR, token.GEQ:
			x, y = y, x
		case token.LSS, token.LEQ:
		default:
			continue
		}
		// x < y keeps the loop going: x grows or y shrinks
		if ph := phi(x, 0); ph != nil && fixed(y, 0) {
			if st, ok := inductionStep(ph, l); ok && st > 0 {
				return true
			}
		}
		if ph := phi(y, 0); ph != nil && fixed(x, 0) {
			if st, ok := inductionStep(ph, l); ok && st < 0 {
				return true
			}
		}
	}
	return false
}

// openLoops are the loops of a function that are not obviously bounded.
func (c *Checker) openLoops(f *ssa.Function) []*loop {
	var out []*loop
	for _, l := range c.p.loopsOf(f).byHeader {
		if !c.boundedLoop(l) {
			out = append(out, l)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].header.Index < out[j].header.Index })
	return out
}

// ------------------------------------------------------------ the lexer

// inside: the position is known to be one of a byte of the input.
func (lx *lexRun) inside(f *Facts, q *Term) bool {
	if f.decide(lx.c.p, mkLess(q, mkLen(lx.input))) == 1 {
		return true
	}
	for j := int64(0); j < 6; j++ {
		if f.decide(lx.c.p, mkEq(lx.byteAt(addInt(q, j)), mkByte(0))) == 0 {
			return true
		}
	}
	for b, v := range f.bools {
		if v && (b.Op == "dir" || b.Op == "escdir") && b.Args[0] == q {
			return true
		}
	}
	return false
}

// atEnd assumes that everything from a position on is past the end.
func (lx *lexRun) atEnd(f *Facts, q *Term) *Facts {
	n := mkLen(lx.input)
	m := map[*Term]*Term{}
	for b := range f.bools {
		b.walk(func(t *Term) bool {
			if t.Op == "sidx" && t.Args[0] == lx.input {
				if d, ok := linAdd(t.Args[1], q, -1).intVal(); ok && d >= 0 {
					m[t] = mkByte(0)
				}
			}
			if (t.Op == "dir" || t.Op == "escdir") && t.Args[0] == q {
				m[t] = mkBool(false)
			}
			return true
		})
	}
	g := lx.c.substFacts(f, m)
	if g == nil {
		return nil
	}
	return g.assume(lx.c.p, mkLess(q, n), false)
}

func (c *Checker) lexTotal(rule string) {
	m := c.nextToken()
	lx := m.lx
	if m.why != "" {
		c.und(rule, "lexer", "%s", m.why)
		return
	}
	lx.cursorRule(rule)
	cases := map[string]*caseRun{}
	get := func(name string) *caseRun {
		if cases[name] == nil {
			cases[name] = c.newCase(rule, name)
		}
		return cases[name]
	}
	loopName := map[string]string{}
	open := map[string]bool{}
	for _, f := range c.p.funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Name() != "lexer" && f.Pkg.Pkg.Name() != "token" {
			continue
		}
		for _, l := range c.openLoops(f) {
			open[c.p.pos(blockPos(l.header))+f.Name()] = true
		}
	}
	key := func(ev *Event) string { return c.p.pos(ev.Pos) + ev.Fun.Name() }
	seen := map[string]bool{}
	run := func(ps []*Path) {
		for _, p := range ps {
			for _, ev := range p.Events {
				if ev.Kind == "loop" && ev.Fun != nil {
					k := key(ev)
					loopName[ev.Loop+"@"+fmt.Sprint(p.Outcome == "back")] = k
					seen[k] = true
				}
			}
		}
		for _, p := range ps {
			if p.Outcome != "back" || m.infeasible(p.Facts) {
				continue
			}
			id := ""
			for _, ev := range p.Events {
				if ev.Kind == "back" {
					id = ev.Loop
				}
			}
			var head *Event
			start := 0
			for i, ev := range p.Events {
				if ev.Kind == "loop" && ev.Loop == id {
					head, start = ev, i
				}
			}
			if head == nil || head.Fun == nil {
				get("loops of the lexer").add(vUnd, lastPos(p), "a loop without its head")
				continue
			}
			if !open[key(head)] {
				get("counted loop of "+c.p.fullName(head.Fun)).add(vOK, head.Pos, "")
				continue
			}
			cr := get("loop of " + c.p.fullName(head.Fun))
			moved, good := false, false
			for _, ev := range p.Events[start:] {
				if ev.Kind == "adv" {
					moved = true
					good = good || lx.inside(p.Facts, ev.Args[0])
				}
			}
			if good {
				cr.add(vOK, lastPos(p), "")
				continue
			}
			h := lx.posIn(id)
			r := lx.renderer(m.er, p)
			g := lx.atEnd(p.Facts, h)
			switch {
			case g == nil || m.infeasible(g):
				if moved {
					cr.add(vOK, lastPos(p), "")
					continue
				}
				fallthrough
			default:
				v := vBad
				for b := range p.Facts.bools {
					if lx.free(p.Facts, b, h, moved) {
						continue
					}
					if !lx.known(p, b) || b.mentions(func(t *Term) bool {
						return t.Op == "loopv" && strings.HasPrefix(t.Sym, id+".") || t.Op == "loopm" && t.Sym == id && t != h
					}) {
						if b.mentions(func(t *Term) bool { return t == h }) && lx.known(p, b) {
							continue
						}
						v = vUnd
					}
				}
				what := "a pass does not move the cursor"
				if moved {
					what = "at the end of the input the loop goes on without moving the cursor"
				}
				cr.add(v, lastPos(p), what+" (in terms of "+r.str(h)+")")
			}
		}
	}
	run(m.er.paths)
	// the look for a directive is a predicate there; its own loop:
	var dir *evalRun
	if f := c.p.fn("lexer", "Lexer.isDirectiveToken"); f != nil {
		lx.directives = false
		dir = lx.run(f, lx.opts(), nil)
		lx.directives = true
		if !dir.complete {
			get("loop of isDirectiveToken").add(vUnd, f.Pos(), "too many paths")
		}
		run(dir.paths)
	}
	for _, f := range c.p.funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Name() != "lexer" && f.Pkg.Pkg.Name() != "token" {
			continue
		}
		for _, l := range c.openLoops(f) {
			if !seen[c.p.pos(blockPos(l.header))+f.Name()] && c.reachable(f, "lexer", "Lexer.NextToken") {
				get("loops of the lexer").add(vUnd, blockPos(l.header), "a loop of "+c.p.fullName(f)+" that was not analysed")
			}
		}
	}
	// tokens consume input
	for _, t := range m.toks {
		cr := get("every token but the end of the input consumes a byte")
		isEOF := t.typ == m.tt["EOF"]
		if isEOF {
			// the end of the input is only reported there, and then again
			e := t.end
			if p := t.p; p.Facts.decide(c.p, mkLess(e, mkLen(lx.input))) != 0 {
				v := vBad
				if !m.factsKnown(p.Facts) {
					v = vUnd
				}
				cr.add(v, lastPos(p), "the end of the input is reported before it is reached")
			} else {
				cr.add(vOK, lastPos(p), "")
			}
			continue
		}
		v, why := m.consumes(t.p)
		cr.add(v, lastPos(t.p), why)
	}
	m.lexPanics(rule, m.er, get)
	if dir != nil {
		m.lexPanics(rule, dir, get)
	}
	m.cuts(rule, get)
	var names []string
	for n := range cases {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		cases[n].done()
	}
}

// consumes: a path of NextToken moves the cursor over at least one byte.
func (m *lexModel) consumes(p *Path) (verdict, string) {
	lx := m.lx
	for _, ev := range p.Events {
		if ev.Kind == "adv" && lx.inside(p.Facts, ev.Args[0]) {
			return vOK, ""
		}
	}
	// without one pass through any loop the path is impossible
	g := m.zeroTrip(p, p.Facts)
	if g == nil || m.infeasible(g) {
		return vOK, ""
	}
	if h := lx.atEnd(g, lx.pos); h == nil || m.infeasible(h) {
		for _, ev := range p.Events {
			if ev.Kind == "adv" {
				return vOK, ""
			}
		}
	}
	if !m.factsKnown(g) {
		return vUnd, "it is not known whether the token consumes input"
	}
	return vBad, "a token is returned and nothing is consumed: the same token comes for ever"
}

// zeroTrip assumes that no loop of a path makes a pass.
func (m *lexModel) zeroTrip(p *Path, f *Facts) *Facts {
	lx := m.lx
	c := lx.c
	sub := map[*Term]*Term{}
	for _, l := range lx.loopsOf(p) {
		one := map[*Term]*Term{}
		if l.entry != nil {
			one[lx.posIn(l.id)] = c.subst(l.entry, sub)
		}
		for n, v := range l.vals {
			one[mk("loopv", l.id+"."+n, v.Typ, nil)] = c.subst(v, sub)
		}
		for a, v := range l.buf {
			one[mk("loopm", l.id, v.Typ, nil, a)] = c.subst(v, sub)
		}
		for k, v := range one {
			sub[k] = v
		}
	}
	return c.substFacts(f, sub)
}

// lexPanics: indexes and slices stay inside.
func (m *lexModel) lexPanics(rule string, er *evalRun, get func(string) *caseRun) {
	lx := m.lx
	c := lx.c
	n := mkLen(lx.input)
	cr := get("indexes and slices of the lexer stay inside the input")
	for _, p := range er.paths {
		if p.Outcome == "limit" {
			cr.add(vUnd, p.Pos, "a path was not followed to its end")
		}
		if m.infeasible(p.Facts) {
			continue
		}
		place := map[*Term]bool{lx.pos: true}
		less := []*Term{mkLess(lx.pos, mkInt(0))} // what is false of positions
		top := []*Term{mkLess(n, lx.pos)}
		for _, ev := range p.Events {
			switch ev.Kind {
			case "acc":
				if ev.Addr == lx.addr("pos") {
					h := lx.posIn(ev.Loop)
					place[h] = true
					less = append(less, mkLess(h, ev.Val), mkLess(h, mkInt(0)))
					top = append(top, mkLess(n, h))
				}
			case "adv":
				place[addInt(ev.Args[0], 1)] = true
			case "panicop":
				if ev.Fn == "panic" || ev.Fn != "index" {
					cr.add(vUnd, ev.Pos, "an operation that may panic: "+ev.Fn)
					continue
				}
				f := ev.Facts
				if f == nil {
					f = p.Facts
				}
				for _, x := range append(append([]*Term{}, less...), top...) {
					if f = f.assume(c.p, x, false); f == nil {
						break
					}
				}
				if f == nil || m.infeasible(f) {
					continue
				}
				i, hi := ev.Args[0], ev.Args[1]
				incl := strings.HasSuffix(ev.Note, "slice")
				lo := f.decide(c.p, mkLess(i, mkInt(0)))
				up := -1
				if incl {
					up = f.decide(c.p, mkLess(hi, i))
					if hi == n && place[i] {
						up = 0 // the cursor never passes the end
					}
				} else {
					switch f.decide(c.p, mkLess(i, hi)) {
					case 1:
						up = 0
					case 0:
						up = 1
					}
				}
				if lo == 0 && up == 0 {
					cr.add(vOK, ev.Pos, "")
					continue
				}
				if lo == 0 && up < 0 && c.cutsEmpty(f, i, hi) {
					cr.add(vOK, ev.Pos, "")
					continue
				}
				r := lx.renderer(er, p)
				v := vUnd
				if ev.Args[2] == lx.input && c.lexWitness(lx, f, i, hi, incl) {
					v = vBad
				}
				cr.add(v, ev.Pos, fmt.Sprintf("%s of %s may be outside", r.str(i), r.str(ev.Args[2])))
			}
		}
	}
}

func (c *Checker) cutsEmpty(f *Facts, i, hi *Term) bool { return false }

// lexWitness: the position of the cursor itself is used where the byte may
// not exist, and nothing on the path speaks against the end of the input.
func (c *Checker) lexWitness(lx *lexRun, f *Facts, i, hi *Term, incl bool) bool {
	d, k := splitLin(i)
	if d == nil || !(d == lx.pos || d.Op == "loopm" && d.Args[0] == lx.addr("pos")) || hi != mkLen(lx.input) || incl {
		return false
	}
	if k < 0 { // the byte before the first one
		for b := range f.bools {
			if b.mentions(func(t *Term) bool { return t.Op == "loopv" || t.Op == "ext" || t.Op == "call" }) {
				return false
			}
		}
		g := f.assume(c.p, mkEq(d, mkInt(0)), true)
		return g != nil
	}
	for b := range f.bools {
		if !lx.free(f, b, i, true) && b.mentions(func(t *Term) bool { return t.Op == "loopv" || t.Op == "ext" || t.Op == "call" }) {
			return false
		}
	}
	return lx.atEnd(f, i) != nil
}

// free: whatever the condition says about the input, there is an input for
// which it holds, together with everything that is known of single bytes:
// it is about single bytes before q, about a text that is not there, or, when
// the input goes on, about a text that is there.
func (lx *lexRun) free(f *Facts, b, q *Term, ends bool) bool {
	if b.Op == "call" && (strings.HasPrefix(b.Sym, "strings.Contains#") || strings.HasPrefix(b.Sym, "strings.HasPrefix#") || b.Sym == "strings.Contains" || b.Sym == "strings.HasPrefix") && len(b.Args) == 2 && b.Args[1].isConst() {
		v, ok := f.bools[b]
		if !ok {
			return false
		}
		if v {
			return !ends && strings.HasPrefix(b.Sym, "strings.Contains")
		}
		if strings.HasPrefix(b.Sym, "strings.Contains") {
			return ends
		}
		// some byte of the text is not known to be there
		x := b.Args[0]
		if x.Op != "substr" && x.Op != "slice" {
			return false
		}
		txt, _ := b.Args[1].strVal()
		for k := range txt {
			if f.decide(lx.c.p, mkEq(lx.byteAt(addInt(x.Args[1], int64(k))), mkByte(txt[k]))) != 1 {
				return true
			}
		}
		return false
	}
	ok, some := true, false
	b.walk(func(t *Term) bool {
		switch t.Op {
		case "sidx":
			if t.Args[0] == lx.input {
				some = true
				if d, known := linAdd(t.Args[1], q, -1).intVal(); !known {
					// the position of another loop, before this one
					x, _ := splitLin(t.Args[1])
					ok = ok && x != nil && (x == lx.pos || x.Op == "loopm" && x.Args[0] == lx.addr("pos"))
				} else if d >= 0 {
					ok = false
				}
				return false
			}
		case "call", "inv", "dyn", "loopv", "ext", "init":
			ok = false
		case "loopm", "param":
			ok = false
		}
		return ok
	})
	return ok && some
}

// cuts: a byte is removed from collected text only when there is one.
func (m *lexModel) cuts(rule string, get func(string) *caseRun) {
	lx := m.lx
	c := lx.c
	slash := func(q *Term) *Term { return mkEq(lx.byteAt(q), mkByte('\\')) }
	any := false
	for _, p := range m.er.paths {
		if p.Outcome != "back" || m.infeasible(p.Facts) {
			continue
		}
		id := ""
		for _, ev := range p.Events {
			if ev.Kind == "back" {
				id = ev.Loop
			}
		}
		for _, l := range lx.loopsOf(p) {
			if l.id != id {
				continue
			}
			for b, init := range l.buf {
				if b.Op != "&buf" {
					continue
				}
				old := mk("loopm", l.id, types.Typ[types.String], nil, b)
				cur := p.St.mem[b]
				cut := false
				if cur != nil {
					cut = cur.mentions(func(t *Term) bool { return t.Op == "trunc" })
				}
				if !cut {
					continue
				}
				any = true
				cr := get("a backslash is removed from the text only after it was collected")
				// one byte off the old content, and something is added
				one, adds := false, false
				var rec func(t *Term)
				rec = func(t *Term) {
					switch t.Op {
					case "cat":
						rec(t.Args[0])
						for _, a := range t.Args[1:] {
							if s, ok := a.strVal(); a.Op == "bytestr" || ok && s != "" {
								adds = true
							}
						}
					case "trunc":
						if d, ok := linAdd(mkLen(t.Args[0]), t.Args[1], -1).intVal(); ok && d == 1 && t.Args[0] == old {
							one = true
						}
					}
				}
				rec(cur)
				if !one || !adds {
					cr.add(vUnd, lastPos(p), "the text becomes "+lx.renderer(m.er, p).str(cur))
					continue
				}
				if s, ok := init.strVal(); !ok || s != "" {
					cr.add(vUnd, lastPos(p), "the text does not start empty")
					continue
				}
				// every pass adds
				for _, q := range m.er.paths {
					if q.Outcome != "back" || !sameLoop(q, l) {
						continue
					}
					v := q.St.mem[b]
					if v == nil || !(v.Op == "cat" && catAdds(v)) {
						cr.add(vUnd, lastPos(q), "a pass that adds nothing to the text")
					}
				}
				// the first pass: the byte before the text is not a backslash
				head := lx.posIn(l.id)
				esc := p.Facts.bools[mk("escdir", "", types.Typ[types.Bool], nil, head)]
				if !esc && p.Facts.decide(c.p, slash(addInt(head, -1))) != 1 {
					v := vUnd
					if z := m.zeroTrip(p, p.Facts); z != nil && !m.infeasible(z) && p.Facts.decide(c.p, slash(addInt(head, -1))) < 0 {
						v = vBad
					}
					cr.add(v, lastPos(p), "a byte of the text is removed although no backslash is before the position")
					continue
				}
				cr.add(vOK, lastPos(p), "")
			}
		}
	}
	if !any {
		return
	}
	// where text can begin, the byte before is not a backslash
	cr := get("no backslash stands before the start of a text")
	check := func(p *Path, end *Term, what string) {
		html := newExec(c.p, &Policy{}).load(p.St.clone(), lx.addr("isHTML"), types.Typ[types.Bool])
		if p.Facts.decide(c.p, html) == 0 {
			return
		}
		f := p.Facts.assume(c.p, html, true)
		if f == nil {
			return
		}
		last := addInt(end, -1)
		for b, v := range f.bools {
			if v && b.Op == "dir" && b.Args[0] == end {
				cr.add(vOK, lastPos(p), "")
				return
			}
		}
		if f.decide(c.p, slash(last)) == 0 || f.decide(c.p, mkLess(mkInt(0), end)) == 0 || f.decide(c.p, mkLess(end, mkLen(lx.input))) == 0 || m.endsWithout(p, f, last) {
			cr.add(vOK, lastPos(p), "")
			return
		}
		// a position past the end is at the end
		d, _ := splitLin(end)
		if d != nil && f.decide(c.p, mkLess(d, mkLen(lx.input))) == 0 {
			cr.add(vOK, lastPos(p), "")
			return
		}
		cr.add(vUnd, lastPos(p), what+" may leave a backslash before the text that follows")
	}
	for _, t := range m.toks {
		if t.typ == m.tt["ILLEGAL"] || t.typ == m.tt["EOF"] {
			continue
		}
		check(t.p, t.end, "a token "+m.kindOf(t))
	}
	for _, p := range m.backs {
		id := ""
		for _, ev := range p.Events {
			if ev.Kind == "back" {
				id = ev.Loop
			}
		}
		if ls := lx.loopsOf(p); len(ls) > 0 && ls[0].id == id {
			check(p, lx.endPos(p), "a comment")
		}
	}
}

func catAdds(v *Term) bool {
	for _, a := range v.Args[1:] {
		if s, ok := a.strVal(); a.Op == "bytestr" || ok && s != "" {
			return true
		}
	}
	return false
}

func sameLoop(q *Path, l *lexLoop) bool {
	id := ""
	for _, ev := range q.Events {
		if ev.Kind == "back" {
			id = ev.Loop
		}
	}
	for _, ev := range q.Events {
		if ev.Kind == "loop" && ev.Loop == id && ev.Pos == l.hdr {
			return true
		}
	}
	return false
}

// endsWithout: the last byte consumed is not a backslash, which follows from
// the terminator that was found or from the word that was read.
func (m *lexModel) endsWithout(p *Path, f *Facts, last *Term) bool {
	lx := m.lx
	for b, v := range f.bools {
		if !v || b.Op != "call" && b.Op != "ext" || len(b.Args) != 2 || !strings.HasPrefix(b.Sym, "strings.HasPrefix") {
			continue
		}
		s, ok := b.Args[1].strVal()
		a := b.Args[0]
		if !ok || a.Op != "slice" || a.Args[0] != lx.input {
			continue
		}
		if d, ok := linAdd(last, a.Args[1], -1).intVal(); ok && d >= 0 && int(d) < len(s) && s[d] != '\\' {
			return true
		}
	}
	// read by a loop: every pass ends with another byte, and there is a pass
	for _, l := range lx.loopsOf(p) {
		if lx.posIn(l.id) != addInt(last, 1) {
			continue
		}
		if z := m.zeroTrip(p, f); z != nil && !m.infeasible(z) {
			return false
		}
		for _, q := range m.er.paths {
			if q.Outcome != "back" || !sameLoop(q, l) {
				continue
			}
			if q.Facts.decide(lx.c.p, mkEq(lx.byteAt(addInt(lx.endPos(q), -1)), mkByte('\\'))) != 0 {
				return false
			}
		}
		return true
	}
	return false
}

// reachable: a function is called, directly or not, from another one.
func (c *Checker) reachable(f *ssa.Function, pkg, from string) bool {
	root := c.p.fn(pkg, from)
	if root == nil {
		return true
	}
	seen := map[*ssa.Function]bool{}
	var rec func(g *ssa.Function) bool
	rec = func(g *ssa.Function) bool {
		if g == f {
			return true
		}
		if g == nil || seen[g] {
			return false
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if h, ok := (*op).(*ssa.Function); ok && rec(h) {
						return true
					}
				}
			}
		}
		for _, a := range g.AnonFuncs {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(root)
}

// ------------------------------------------------------------ the parser

func (c *Checker) parserLoops(rule string) {
	pr := c.parser()
	if pr.errs != "" {
		c.und(rule, "parser", "%s", pr.errs)
		return
	}
	eof := pr.consts["EOF"]
	if eof == nil {
		c.und(rule, "parser", "token.EOF not found")
		return
	}
	for _, f := range c.p.funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Name() != "parser" || len(f.Blocks) == 0 {
			continue
		}
		open := c.openLoops(f)
		if len(c.p.loopsOf(f).byHeader) == 0 {
			continue
		}
		name := "loops of " + c.p.fullName(f)
		cr := c.newCase(rule, name)
		if len(open) == 0 {
			cr.add(vOK, f.Pos(), "")
			cr.done()
			continue
		}
		if f.Parent() != nil || f.Signature.Recv() == nil {
			cr.add(vUnd, f.Pos(), "a loop outside the methods of the parser")
			cr.done()
			continue
		}
		isOpen := map[token.Pos]bool{}
		for _, l := range open {
			isOpen[blockPos(l.header)] = true
		}
		ps, complete := pr.run(f, nil, "", nil)
		if !complete {
			cr.add(vUnd, f.Pos(), "path enumeration is incomplete")
		}
		found := map[token.Pos]bool{}
		for _, p := range ps {
			if p.Outcome == "limit" {
				cr.add(vUnd, lastPos(p), "a path was not followed to its end")
			}
			for _, ev := range p.Events {
				if ev.Kind == "loop" {
					found[ev.Pos] = true
				}
			}
			if p.Outcome != "back" {
				continue
			}
			id, start := "", 0
			var head *Event
			for _, ev := range p.Events {
				if ev.Kind == "back" {
					id = ev.Loop
				}
			}
			for i, ev := range p.Events {
				if ev.Kind == "loop" && ev.Loop == id {
					head, start = ev, i
				}
			}
			if head == nil || head.Fun != f || !isOpen[head.Pos] {
				continue // judged where it is
			}
			v, why := pr.progress(p, ps, head, p.Events[start:], eof)
			cr.add(v, lastPos(p), why)
		}
		for _, l := range open {
			if !found[blockPos(l.header)] {
				cr.add(vUnd, blockPos(l.header), "a loop that was not analysed")
			}
		}
		cr.done()
	}
}

// progress judges one pass of a loop of the parser.
func (pr *parserRun) progress(p *Path, ps []*Path, head *Event, evs []*Event, eof *Term) (verdict, string) {
	c := pr.c
	steps := 0
	for _, ev := range evs {
		if ev.Kind == "next" {
			steps++
		}
	}
	known := func() verdict {
		for b := range p.Facts.bools {
			if b.mentions(func(t *Term) bool {
				switch t.Op {
				case "loopv":
					return true
				case "call":
					return !strings.HasPrefix(t.Sym, "parser.Parser.parse")
				case "inv", "dyn":
					return true
				}
				return false
			}) {
				return vUnd
			}
		}
		for _, ev := range evs {
			if ev.Res == nil || ev.Kind != "call" {
				continue
			}
			k, one := p.Facts.kind(c.p, ev.Res).single()
			if !one && p.Facts.kind(c.p, ev.Res).has("nil") {
				continue
			}
			// the loop goes on with the other result, too
			other := false
			for _, q := range ps {
				if q.Outcome != "back" {
					continue
				}
				for _, e := range q.Events {
					if e.Res == ev.Res {
						k2, one2 := q.Facts.kind(c.p, ev.Res).single()
						if (one && k == "nil") != (one2 && k2 == "nil") {
							other = true
						}
					}
				}
			}
			if !other {
				return vUnd
			}
		}
		return vBad
	}
	if steps == 0 {
		return known(), "a pass that consumes no token"
	}
	before := map[*Term]bool{}
	toks := func(f *Facts, do func(t *Term)) {
		if f == nil {
			return
		}
		for b := range f.bools {
			b.walk(func(t *Term) bool {
				if (t.Op == ".f" || t.Op == "loopm" || t.Op == "init") && t.Typ != nil && shortType(t.Typ) == "token.TokenType" {
					do(t)
				}
				return true
			})
		}
	}
	toks(head.Facts, func(t *Term) { before[t] = true })
	sub := map[*Term]*Term{}
	toks(p.Facts, func(t *Term) {
		if !before[t] {
			sub[t] = eof
		}
	})
	g := c.substFacts(p.Facts, sub)
	if g == nil || pr.unregistered(g, eof) {
		return vOK, ""
	}
	for b := range g.bools {
		if b.mentions(func(t *Term) bool { return t.Op == "param" && isInteger(t.Typ) && shortType(t.Typ) == "int" }) {
			return vUnd, "whether the loop ends at the end of the input depends on an argument: `" + pr.linear(p) + "`"
		}
	}
	return known(), "the loop goes on when only the end of the input is left: `" + pr.linear(p) + "`"
}

// unregistered: the facts need a parse function for a token that has none.
func (pr *parserRun) unregistered(f *Facts, tok *Term) bool {
	prefix, infix, ok := pr.registrations()
	if !ok {
		return false
	}
	for b, v := range f.bools {
		if b.Op == "maphas" && v && b.Args[1] == tok && b.Args[0].Op == "init" && b.Args[0].Args[0].Op == "&f" {
			tab := prefix
			if strings.Contains(b.Args[0].Args[0].Sym, "infix") {
				tab = infix
			}
			if tab[pr.names[tok.Sym]] == nil {
				return true
			}
		}
		if v || b.Op != "==" {
			continue
		}
		for i := 0; i < 2; i++ {
			l := b.Args[i]
			if !b.Args[1-i].isNil() || l.Op != "lookup" || l.Args[1] != tok || l.Args[0].Op != "init" || l.Args[0].Args[0].Op != "&f" {
				continue
			}
			tab := prefix
			if strings.Contains(l.Args[0].Args[0].Sym, "infix") {
				tab = infix
			}
			if tab[pr.names[tok.Sym]] == nil {
				return true
			}
		}
	}
	return false
}

// ------------------------------------------------------------ depth

// callees of a function of the parser, through registered functions too.
func (pr *parserRun) callees(f *ssa.Function, reg []*ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	add := func(g *ssa.Function) {
		if g = unwrapBound(g); g != nil && !seen[g] && g.Pkg != nil && len(g.Blocks) > 0 {
			seen[g] = true
			out = append(out, g)
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				cm := ci.Common()
				if g := cm.StaticCallee(); g != nil {
					add(g)
				} else if _, bi := cm.Value.(*ssa.Builtin); !bi && !cm.IsInvoke() {
					for _, g := range reg {
						add(g)
					}
				}
			}
			if mc, ok := in.(*ssa.MakeClosure); ok {
				if g, ok := mc.Fn.(*ssa.Function); ok && g.Synthetic == "" {
					add(g)
				}
			}
		}
	}
	return out
}

func (c *Checker) parserDepth(pr *parserRun, rule string) {
	name := "recursion of the parser"
	if pr.errs != "" {
		c.und(rule, name, "%s", pr.errs)
		return
	}
	prefix, infix, ok := pr.registrations()
	if !ok {
		c.und(rule, name, "the registration of parse functions is not resolved")
		return
	}
	set := map[*ssa.Function]bool{}
	for _, f := range prefix {
		set[f] = true
	}
	for _, f := range infix {
		set[f] = true
	}
	var reg []*ssa.Function
	for f := range set {
		reg = append(reg, f)
	}
	sort.Slice(reg, func(i, j int) bool { return c.p.fullName(reg[i]) < c.p.fullName(reg[j]) })
	root := c.p.fn("parser", "Parser.ParseProgram")
	if root == nil {
		c.und(rule, name, "ParseProgram not found")
		return
	}
	graph := map[*ssa.Function][]*ssa.Function{}
	var order []*ssa.Function
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if _, ok := graph[f]; ok {
			return
		}
		graph[f] = nil
		order = append(order, f)
		// calls from the parser into itself only
		if f.Pkg == nil || f.Pkg.Pkg.Name() != "parser" {
			return
		}
		graph[f] = pr.callees(f, reg)
		for _, g := range graph[f] {
			visit(g)
		}
	}
	visit(root)
	comps := sccs(order, graph)
	cr := c.newCase(rule, name)
	for _, comp := range comps {
		in := map[*ssa.Function]bool{}
		for _, f := range comp {
			in[f] = true
		}
		guard := map[*ssa.Function]bool{}
		uses := map[*ssa.Function]*depthUse{}
		for _, f := range comp {
			u := c.depthGuard(f, in)
			uses[f] = u
			guard[f] = u.guard
			for _, p := range u.silent {
				if u.guard {
					cr.add(vBad, lastPos(p), f.Name()+" stops at the limit of the depth and records no error")
				}
			}
			if u.down != "" {
				cr.add(vBad, f.Pos(), f.Name()+" leaves "+u.down+" lower than it was: the limit of the depth moves away")
			}
		}
		// without the guards nothing is recursive
		rest := map[*ssa.Function][]*ssa.Function{}
		var left []*ssa.Function
		for _, f := range comp {
			if guard[f] {
				continue
			}
			left = append(left, f)
			for _, g := range graph[f] {
				if in[g] && !guard[g] {
					rest[f] = append(rest[f], g)
				}
			}
		}
		bad := sccs(left, rest)
		if len(bad) == 0 {
			cr.add(vOK, comp[0].Pos(), "")
			continue
		}
		for _, cyc := range bad {
			var ns []string
			for _, f := range cyc {
				ns = append(ns, f.Name())
			}
			sort.Strings(ns)
			v := vUnd
			if c.unlimited(cyc, uses, reg) {
				v = vBad
			}
			cr.add(v, cyc[0].Pos(), "nothing limits the depth of the recursion through "+strings.Join(ns, ", "))
		}
	}
	if len(comps) == 0 {
		cr.add(vUnd, root.Pos(), "the parser is not recursive")
	}
	cr.done()
}

// unlimited: there is a cycle of calls on which nothing looks like a limit.
func (c *Checker) unlimited(cyc []*ssa.Function, uses map[*ssa.Function]*depthUse, reg []*ssa.Function) bool {
	in := map[*ssa.Function]bool{}
	up := map[string]bool{}
	for _, f := range cyc {
		in[f] = true
		if uses[f].open {
			return false
		}
		if uses[f].par {
			up["param"] = true
		}
		for a := range uses[f].up {
			up[a] = true
		}
	}
	edges := map[*ssa.Function][]*ssa.Function{}
	for _, f := range cyc {
		for g, hints := range uses[f].free {
			limited := false
			for h := range hints {
				limited = limited || h == "?" || up[h]
			}
			if limited {
				continue
			}
			if g != nil {
				edges[f] = append(edges[f], g)
				continue
			}
			for _, r := range reg {
				if in[r] {
					edges[f] = append(edges[f], r)
				}
			}
		}
	}
	return len(sccs(cyc, edges)) > 0
}

// depthUse is what a function does about the depth of the recursion.
type depthUse struct {
	guard bool // the depth is counted up and limited before every call
	// calls that are made although nothing that looks like a limit was found;
	// nil stands for the registered functions
	free   map[*ssa.Function]map[string]bool
	open   bool            // something is not understood
	up     map[string]bool // fields that are counted up
	silent []*Path         // the limit is reached and nothing is reported
	down   string          // the counter is lower after the call than before
	par    bool            // a parameter counts
}

// depthGuard: before every call back into the recursion the depth is counted
// up and was found below a constant.
func (c *Checker) depthGuard(f *ssa.Function, in map[*ssa.Function]bool) *depthUse {
	u := &depthUse{free: map[*ssa.Function]map[string]bool{}, up: map[string]bool{}}
	if len(f.Params) == 0 || f.Signature.Recv() == nil {
		u.open = true
		return u
	}
	recv := rootParams(f)
	er := c.fnRun(f, nil, runOpts{args: recv, onRec: true, opFn: func(g *ssa.Function) bool {
		return in[unwrapBound(g)] || g.Pkg != nil && g.Pkg.Pkg.Name() == "lexer" || g == c.p.fn("parser", "Parser.nextToken") || g == c.p.fn("parser", "Parser.newError")
	}, max: 4000}, nil)
	if er == nil || !er.complete {
		u.open = true
		return u
	}
	u.guard = true
	calls := 0
	for _, p := range er.paths {
		depth := map[*Term]*Term{}
		for _, ev := range p.Events {
			if ev.Kind == "store" && ev.Addr.Op == "&f" && ev.Val != nil && isInteger(ev.Val.Typ) {
				if d, k := splitLin(ev.Val); d != nil && k >= 1 {
					u.up[ev.Addr.Sym] = true
				}
				if ev.Addr.Args[0] == recv[0] {
					depth[ev.Addr] = ev.Val
				}
			}
			into := ev.Kind == "call" && ev.Fun != nil && in[unwrapBound(ev.Fun)] || ev.Kind == "dyncall"
			if !into {
				continue
			}
			for _, a := range ev.Args {
				if a.Typ != nil && isInteger(a.Typ) {
					if d, k := splitLin(a); d != nil && d.Op == "param" && k != 0 {
						u.par = true
					}
				}
			}
			calls++
			ok := false
			fs := ev.Facts
			if fs == nil {
				fs = p.Facts
			}
			for a, v := range depth {
				// counted up
				d, k := splitLin(v)
				if d == nil || d.Op != "init" || d.Args[0] != a || k < 1 {
					continue
				}
				// and below a constant
				for b, val := range fs.bools {
					if b.Op != "<" {
						continue
					}
					x, y := b.Args[0], b.Args[1]
					if !val {
						x, y = y, x // y <= x
					}
					hasD := func(t *Term) bool {
						co := toLinear(t).co[d]
						return co > 0
					}
					if hasD(x) && y.isConst() && nonNegRest(x, d, fs, c) {
						ok = true
					}
				}
			}
			if ok {
				continue
			}
			u.guard = false
			// what could be a limit
			hints := map[string]bool{}
			for b, val := range fs.bools {
				if b.Op != "<" && b.Op != "==" {
					if !pureTokenFact(b) {
						hints["?"] = true
					}
					continue
				}
				if b.Op == "<" && b.Args[1].isConst() && !val && b.Args[0].Op == "init" {
					continue // known to be beyond the limit
				}
				b.walk(func(t *Term) bool {
					switch {
					case t.Op == "init" && t.Args[0].Op == "&f" && (isInteger(t.Typ) || isLenOf(b, t)) && !strings.Contains(t.Args[0].Sym, "oken"):
						hints[t.Args[0].Sym] = true
					case t.Op == "param" && t.Typ != nil && isInteger(t.Typ):
						hints["param"] = true
					}
					return true
				})
			}
			to := unwrapBound(ev.Fun)
			if ev.Kind == "dyncall" {
				to = nil
			}
			if old, has := u.free[to]; !has || len(hints) < len(old) {
				u.free[to] = hints
			}
		}
		// beyond the limit there is an error
		if p.Outcome == "return" {
			told, beyond := false, false
			for _, ev := range p.Events {
				told = told || ev.Kind == "call" && ev.Fn == "parser.Parser.newError" || ev.Kind == "store" && ev.Val != nil && ev.Val.Op == "append"
				told = told || ev.Kind == "call" && ev.Fun != nil && in[unwrapBound(ev.Fun)] // somewhere below
			}
			for b, v := range p.Facts.bools {
				beyond = beyond || b.Op == "<" && !v && b.Args[0].Op == "init" && b.Args[0].Args[0].Op == "&f" && b.Args[0].Args[0].Args[0] == recv[0] && isInteger(b.Args[0].Typ) && b.Args[1].isConst()
			}
			if beyond && !told && len(p.Ret) > 0 {
				u.silent = append(u.silent, p)
			}
		}
		// what was counted up is counted down once
		if p.Outcome == "return" {
			last := map[*Term][]*Term{}
			for _, ev := range p.Events {
				if ev.Kind == "store" && ev.Addr.Op == "&f" && ev.Addr.Args[0] == recv[0] && ev.Val != nil && isInteger(ev.Val.Typ) {
					last[ev.Addr] = append(last[ev.Addr], ev.Val)
				}
			}
			for a, vs := range last {
				// calls in between leave the counter as they found it
				sum, known := int64(0), true
				for i, v := range vs {
					d, k := splitLin(v)
					if d == nil || i == 0 && d != mkInit(a, "", v.Typ) {
						known = false
						break
					}
					if i > 0 && d == mkInit(a, "", v.Typ) {
						sum = k
					} else {
						sum += k
					}
				}
				if known && sum < 0 && len(vs) > 1 {
					u.down = fieldName(a)
				}
			}
		}
	}
	for _, b := range f.Blocks {
		for _, x := range b.Instrs {
			if ci, ok := x.(ssa.CallInstruction); ok {
				if bi, ok := ci.Common().Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
					u.open = true
				}
			}
		}
	}
	u.guard = u.guard && calls > 0
	return u
}

func fieldName(a *Term) string {
	return a.Sym[strings.LastIndex(a.Sym, ".")+1:]
}

// pureTokenFact: a condition that is about tokens or errors, not a limit.
func pureTokenFact(b *Term) bool {
	ok := true
	b.walk(func(t *Term) bool {
		if t.Op == "call" && !strings.HasPrefix(t.Sym, "parser.Parser.parse") || t.Op == "dyn" {
			ok = ok && strings.HasPrefix(t.Sym, "lexer.")
		}
		return true
	})
	return ok
}

// isLenOf: the length of the value is compared.
func isLenOf(b, v *Term) bool {
	return b.mentions(func(t *Term) bool { return t.Op == "len" && t.Args[0] == v })
}

// nonNegRest: x - d is a sum of counters that are not negative.
func nonNegRest(x, d *Term, f *Facts, c *Checker) bool {
	l := toLinear(x)
	if l.c < 0 {
		return false
	}
	for t, k := range l.co {
		if t == d {
			continue
		}
		if k < 0 || f.decide(c.p, mkLess(t, mkInt(0))) == 1 {
			return false
		}
	}
	return true
}

// sccs are the strongly connected components with a cycle.
func sccs(nodes []*ssa.Function, edges map[*ssa.Function][]*ssa.Function) [][]*ssa.Function {
	idx := map[*ssa.Function]int{}
	low := map[*ssa.Function]int{}
	on := map[*ssa.Function]bool{}
	var stack []*ssa.Function
	var out [][]*ssa.Function
	n := 0
	var dfs func(v *ssa.Function)
	dfs = func(v *ssa.Function) {
		n++
		idx[v], low[v] = n, n
		stack = append(stack, v)
		on[v] = true
		self := false
		for _, w := range edges[v] {
			if w == v {
				self = true
			}
			if idx[w] == 0 {
				dfs(w)
				low[v] = min(low[v], low[w])
			} else if on[w] {
				low[v] = min(low[v], idx[w])
			}
		}
		if low[v] == idx[v] {
			var comp []*ssa.Function
			for {
				w := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[w] = false
				comp = append(comp, w)
				if w == v {
					break
				}
			}
			if len(comp) > 1 || self {
				out = append(out, comp)
			}
		}
	}
	for _, v := range nodes {
		if idx[v] == 0 {
			dfs(v)
		}
	}
	return out
}

// ------------------------------------------------------------ rejection

// parsePanics: no operation of the parser can panic.
func (c *Checker) parsePanics(pr *parserRun, rule string) {
	name := "no operation of the parser panics"
	if pr.errs != "" {
		c.und(rule, name, "%s", pr.errs)
		return
	}
	cr := c.newCase(rule, name)
	defer cr.done()
	set := c.setFields(pr)
	_, _, registered := pr.registrations()
	called := map[*ssa.Function]bool{}
	for _, f := range c.p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && g != f {
						called[g] = true
					}
				}
			}
		}
	}
	pr.deref = true
	defer func() { pr.deref = false }()
	for _, f := range c.p.funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Name() != "parser" || len(f.Blocks) == 0 || f.Parent() != nil || len(f.Params) == 0 || f.Signature.Recv() == nil || f == pr.nextFn {
			continue
		}
		ps, complete := pr.run(f, nil, "", nil)
		if !complete {
			cr.add(vUnd, f.Pos(), "path enumeration is incomplete")
		}
		recv := pr.params[0]
		cr.add(vOK, f.Pos(), "")
		for _, p := range ps {
			for _, ev := range p.Events {
				if ev.Kind != "panicop" || len(ev.Args) == 0 {
					if ev.Kind == "panicop" {
						cr.add(vUnd, ev.Pos, "an explicit panic")
					}
					continue
				}
				x := ev.Args[0]
				// a field of the parser that New fills
				if x.Op == "init" && x.Args[0].Op == "&f" && x.Args[0].Args[0] == recv && set[x.Args[0].Sym] {
					continue
				}
				// what an argument is, is known where the function is called
				if called[f] && x.mentions(func(t *Term) bool {
					if t.Op != "param" {
						return false
					}
					return t != recv
				}) {
					continue
				}
				r := pr.renderer(p)
				v := vUnd
				fromParse := x.mentions(func(t *Term) bool {
					return t.Op == "call" && strings.HasPrefix(t.Sym, "parser.Parser.parse")
				})
				switch ev.Fn {
				case "nilderef", "nilinvoke", "typeassert":
					if fromParse && x.Op == "call" || x.isNil() && pr.tokenFacts(p) {
						v = vBad
					}
				case "index":
					if len(ev.Args) > 1 {
						fs := ev.Facts
						if fs == nil {
							fs = p.Facts
						}
						out := fs.decide(c.p, mkLess(x, ev.Args[1])) == 0
						if strings.HasSuffix(ev.Note, "slice") {
							out = fs.decide(c.p, mkLess(ev.Args[1], x)) == 1
						}
						if out && pr.tokenFacts(p) {
							v = vBad
						}
					}
				case "nilcall":
					if x.Op == "lookup" {
						v = vBad
						fs := ev.Facts
						if fs == nil {
							fs = p.Facts
						}
						if fs.decide(c.p, mk("maphas", "", nil, nil, x.Args...)) == 1 && registered {
							cr.add(vOK, ev.Pos, "") // no function that is registered is nil
							continue
						}
					}
				case "nilmap":
					if x.isNil() {
						v = vBad
					}
				}
				if ev.Fn == "nilmap" && x.Op == "init" && x.Args[0].Op == "&f" && x.Args[0].Args[0] == recv {
					if _, isNil := set[x.Args[0].Sym]; isNil && !c.storedElsewhere(x.Args[0].Sym) {
						v = vBad // New leaves it nil
					}
				}
				cr.add(v, ev.Pos, fmt.Sprintf("%s: %s (%s)", ev.Fn, r.str(x), ev.Note))
			}
		}
	}
}

// tokenFacts: a path is taken because of tokens and what was parsed, only.
func (pr *parserRun) tokenFacts(p *Path) bool {
	for b := range p.Facts.bools {
		if b.mentions(func(t *Term) bool {
			switch t.Op {
			case "init", "loopm", "loopv":
				return t.Typ == nil || shortType(t.Typ) != "token.TokenType" && shortType(t.Typ) != "token.Token"
			case "call":
				return !strings.HasPrefix(t.Sym, "parser.Parser.parse")
			case "inv", "dyn":
				return true
			}
			return false
		}) {
			return false
		}
	}
	return true
}

// setFields are the fields of the parser that New makes non-nil and nothing
// else assigns.
func (c *Checker) setFields(pr *parserRun) map[string]bool {
	out := map[string]bool{}
	f := c.p.fn("parser", "New")
	if f == nil {
		return out
	}
	er := c.fnRun(f, nil, runOpts{onRec: true, opaque: []string{"lexer.Lexer.NextToken"}, max: 400}, nil)
	if er == nil || len(er.paths) == 0 {
		return out
	}
	st, ok := pr.parserT.Underlying().(*types.Struct)
	if !ok {
		return out
	}
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Type().Underlying().(type) {
		case *types.Map, *types.Pointer:
		default:
			continue
		}
		sym := fieldOwner(pr.parserT, i)
		all := true
		for _, p := range er.paths {
			if p.Outcome != "return" || len(p.Ret) != 1 {
				all = all && p.Outcome != "return"
				continue
			}
			v := newExec(c.p, &Policy{}).load(p.St.clone(), mkFieldAddr(sym, p.Ret[0], nil), st.Field(i).Type())
			// the lexer that New is given is always a new one
			if v.Op == "param" && shortType(v.Typ) == "*lexer.Lexer" && c.alwaysNew(f, v) {
				continue
			}
			switch p.Facts.decide(c.p, mkEq(v, mkNil())) {
			case 0:
			case 1:
				out[sym], all = false, false
			default:
				all = false
			}
		}
		all = all && !c.storedElsewhere(sym)
		if all {
			out[sym] = true
		}
	}
	return out
}

// storedElsewhere: something other than New assigns a value to the field that
// is not a new map.
func (c *Checker) storedElsewhere(sym string) bool {
	for _, g := range c.p.funcs {
		if g == c.p.fn("parser", "New") || g.Synthetic != "" {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if cl, base := rootClass(s.Addr); cl == sym {
						_, local := base.(*ssa.Alloc)
						if _, isNew := s.Val.(*ssa.MakeMap); !isNew && !local {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// alwaysNew: every caller passes the result of lexer.New.
func (c *Checker) alwaysNew(f *ssa.Function, par *Term) bool {
	idx := -1
	for i, a := range rootParams(f) {
		if a == par {
			idx = i
		}
	}
	if idx < 0 {
		return false
	}
	n := 0
	for _, g := range c.p.funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || ci.Common().StaticCallee() != f {
					continue
				}
				n++
				call, ok := ci.Common().Args[idx].(*ssa.Call)
				if !ok || call.Call.StaticCallee() != c.p.fn("lexer", "New") {
					return false
				}
			}
		}
	}
	return n > 0
}

// tokenNames: every token has a name for messages.
func (c *Checker) tokenNames(pr *parserRun, rule string) {
	name := "every token type has a name"
	f := c.p.fn("token", "String")
	if pr.errs != "" || f == nil || len(f.Params) != 1 {
		c.und(rule, name, "token.String not found")
		return
	}
	cr := c.newCase(rule, name)
	var names []string
	for n := range pr.consts {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		er := c.fnRun(f, nil, runOpts{args: []*Term{pr.consts[n]}}, nil)
		if er == nil || !er.complete {
			cr.add(vUnd, f.Pos(), "path enumeration is incomplete")
			break
		}
		for _, p := range er.paths {
			bad := ""
			for _, ev := range p.Events {
				if ev.Kind == "panicop" && ev.Fn == "index" {
					bad = "the name of " + n + " is outside the table"
				}
			}
			switch {
			case bad != "":
				cr.add(vBad, lastPos(p), bad)
			case p.Outcome != "return":
				cr.add(vUnd, lastPos(p), "the name of "+n+" is not returned")
			default:
				cr.add(vOK, lastPos(p), "")
			}
		}
	}
	cr.done()
}

// rejects: a construct that is not complete, and an illegal character, are
// errors.
func (c *Checker) rejects(pr *parserRun, rule string) {
	if pr.errs != "" {
		c.und(rule, "parser", "%s", pr.errs)
		return
	}
	pr.acceptOnly = true
	defer func() { pr.acceptOnly = false }()
	pr.stmts(rule, "IF", "EACH", "FOR", "BREAK_IF", "CONTINUE_IF", "USE", "RESERVE", "INSERT", "SLOT", "DUMP", "COMPONENT")
	pr.wholeInput(rule)
	pr.bracesEnd(rule)
	prefix, infix, ok := pr.registrations()
	if !ok {
		c.und(rule, "expressions", "the registration of parse functions is not resolved")
	} else {
		any := `(?:(?:T:[A-Z_?]+|E\([A-Z_0-9?]+\)|L)(?: |$))*`
		for _, e := range []struct {
			name, tok, end string
			f              *ssa.Function
		}{
			{"parentheses", "LPAREN", any + "T:RPAREN", prefix["LPAREN"]},
			{"array literal", "LBRACKET", any + "T:RBRACKET", prefix["LBRACKET"]},
			{"index", "LBRACKET", any + "T:RBRACKET", infix["LBRACKET"]},
			{"property or call", "DOT", "T:IDENT|T:IDENT T:LPAREN " + any + "T:RPAREN", infix["DOT"]},
			{"ternary", "QUESTION", any + "T:COLON " + any, infix["QUESTION"]},
		} {
			pr.checkParse(rule, "end of "+e.name, e.f, e.tok, []parseAlt{{trace: e.end}})
		}
		pr.objectEnd(rule, prefix["LBRACE"])
	}
	pr.exprAtEnd(rule)
	pr.illegal(rule)
	pr.recorded(rule)
	m := c.nextToken()
	m.lexemes(rule, func(w wantTok) bool { return w.name == "ILLEGAL" })
	m.unclosedComments(rule)
	c.parseErrorsUsed(rule)
}

// wholeInput: the parser reads up to the end of the input.
func (pr *parserRun) wholeInput(rule string) {
	c := pr.c
	f := c.p.fn("parser", "Parser.ParseProgram")
	if f == nil {
		c.und(rule, "ParseProgram", "anchor not found")
		return
	}
	cr := c.newCase(rule, "ParseProgram reads the whole input or records an error")
	ps, complete := pr.run(f, nil, "", nil)
	if !complete {
		cr.add(vUnd, f.Pos(), "path enumeration is incomplete")
	}
	for _, p := range ps {
		if p.Outcome != "return" || hasErr(p) {
			continue
		}
		cur := pr.fieldTok(p, pr.cur)
		ill := p.Facts.decide(c.p, mkEq(cur, pr.consts["ILLEGAL"])) == 1 || pr.sawIllegal(p)
		end := p.Facts.decide(c.p, mkEq(cur, pr.consts["EOF"])) == 1
		switch {
		case ill, end && !nilRet(p):
			cr.add(vOK, lastPos(p), "")
		case nilRet(p):
			cr.add(pr.seqBad(p), lastPos(p), "no program and no error after `"+pr.linear(p)+"`")
		default:
			cr.add(pr.seqBad(p), lastPos(p), "parsing ends before the end of the input, without an error")
		}
	}
	cr.done()
}

// sawIllegal: a token of the path is known to be an illegal one, which
// nextToken has reported.
func (pr *parserRun) sawIllegal(p *Path) bool {
	for b, v := range p.Facts.bools {
		if v && b.Op == "==" && (b.Args[0] == pr.consts["ILLEGAL"] || b.Args[1] == pr.consts["ILLEGAL"]) {
			return true
		}
	}
	return false
}

// bracesEnd: code in braces ends with "}}" or is followed by ";".
func (pr *parserRun) bracesEnd(rule string) {
	c := pr.c
	f := c.p.fn("parser", "Parser.parseStatement")
	if f == nil {
		c.und(rule, "code in braces", "anchor not found")
		return
	}
	for _, cur := range []string{"LBRACES", "SEMI"} {
		cr := c.newCase(rule, "a statement after "+cur+" ends with }} or before ;")
		ps, complete := pr.run(f, nil, cur, nil)
		if !complete {
			cr.add(vUnd, f.Pos(), "path enumeration is incomplete")
		}
		for _, p := range ps {
			if p.Outcome != "return" || hasErr(p) {
				continue
			}
			ct, pt := pr.fieldTok(p, pr.cur), pr.fieldTok(p, pr.pk)
			can := func(n string) bool {
				k := pr.consts[n]
				return k != nil && p.Facts.decide(c.p, mkEq(ct, k)) == 1
			}
			next := pr.consts["SEMI"] != nil && p.Facts.decide(c.p, mkEq(pt, pr.consts["SEMI"])) == 1
			switch {
			case can("RBRACES") || next:
				cr.add(vOK, lastPos(p), "")
			case nilRet(p):
				cr.add(pr.seqBad(p), lastPos(p), "no statement and no error after `"+pr.linear(p)+"`")
			default:
				// accepted although the input may end here
				g := p.Facts.assume(c.p, mkEq(pt, pr.consts["EOF"]), true)
				if g == nil {
					cr.add(vUnd, lastPos(p), "code in braces ends with `"+pr.linear(p)+"`")
					continue
				}
				cr.add(pr.seqBad(p), lastPos(p), "code in braces is accepted after `"+pr.linear(p)+"` although the closing }} may be missing")
			}
		}
		cr.done()
	}
}

// objectEnd: an object literal ends with "}".
func (pr *parserRun) objectEnd(rule string, f *ssa.Function) {
	c := pr.c
	if f == nil {
		c.und(rule, "end of object literal", "anchor not found")
		return
	}
	cr := c.newCase(rule, "end of object literal")
	ps, complete := pr.run(f, nil, "LBRACE", nil)
	if !complete {
		cr.add(vUnd, f.Pos(), "path enumeration is incomplete")
	}
	for _, p := range ps {
		if p.Outcome != "return" || hasErr(p) {
			continue
		}
		if nilRet(p) {
			cr.add(pr.seqBad(p), lastPos(p), "no node and no error after `"+pr.linear(p)+"`")
			continue
		}
		if p.Facts.decide(c.p, mkEq(pr.fieldTok(p, pr.cur), pr.consts["RBRACE"])) == 1 {
			cr.add(vOK, lastPos(p), "")
			continue
		}
		cr.add(pr.seqBad(p), lastPos(p), "an object literal is accepted without its closing brace: `"+pr.linear(p)+"`")
	}
	cr.done()
}

// exprAtEnd: there is no expression at the end of the input, at a closing
// token or at an illegal one.
func (pr *parserRun) exprAtEnd(rule string) {
	c := pr.c
	f := c.p.fn("parser", "Parser.parseExpression")
	if f == nil {
		c.und(rule, "no expression", "anchor not found")
		return
	}
	for _, cur := range []string{"EOF", "RBRACES", "ILLEGAL"} {
		cr := c.newCase(rule, "no expression starts with "+cur)
		ps, complete := pr.run(f, nil, cur, nil)
		if !complete {
			cr.add(vUnd, f.Pos(), "path enumeration is incomplete")
		}
		for _, p := range ps {
			if p.Outcome != "return" {
				continue
			}
			if hasErr(p) || pr.unregistered(p.Facts, pr.consts[cur]) || pr.unreg2(p.Facts, pr.consts[cur]) {
				cr.add(vOK, lastPos(p), "")
				continue
			}
			cr.add(pr.seqBad(p), lastPos(p), "an expression that starts with "+cur+" is not an error")
		}
		cr.done()
	}
}

// unreg2 is unregistered for lookups by a token known to be of a type.
func (pr *parserRun) unreg2(f *Facts, tok *Term) bool {
	sub := map[*Term]*Term{}
	for b, v := range f.bools {
		if v && b.Op == "==" && (b.Args[0] == tok || b.Args[1] == tok) {
			x := b.Args[0]
			if x == tok {
				x = b.Args[1]
			}
			sub[x] = tok
		}
	}
	g := newFacts()
	for b, v := range f.bools {
		t := pr.c.subst(b, sub)
		if t.isConst() {
			continue
		}
		g.bools[t] = v
	}
	return pr.unregistered(g, tok)
}

// illegal: an illegal token is reported when it is read.
func (pr *parserRun) illegal(rule string) {
	c := pr.c
	cr := c.newCase(rule, "an illegal character is an error")
	defer cr.done()
	f := pr.nextFn
	args := rootParams(f)
	er := c.fnRun(f, nil, runOpts{args: args, opaque: []string{"lexer.Lexer.NextToken", "parser.Parser.newError"}}, nil)
	if !er.complete {
		cr.add(vUnd, f.Pos(), "path enumeration is incomplete")
	}
	ill := pr.consts["ILLEGAL"]
	for _, p := range er.paths {
		if p.Outcome != "return" {
			cr.add(vUnd, lastPos(p), "a path that does not return")
			continue
		}
		reads, reports := 0, false
		var read *Term
		for _, ev := range p.Events {
			if ev.Kind != "call" {
				continue
			}
			switch ev.Fn {
			case "lexer.Lexer.NextToken":
				reads++
				read = ev.Res
			case "parser.Parser.newError":
				reports = true
			}
		}
		if reads != 1 {
			cr.add(vUnd, lastPos(p), fmt.Sprintf("%d tokens are read", reads))
			continue
		}
		e := newExec(c.p, &Policy{})
		pt := pr.typeOf(e.load(p.St.clone(), pr.addr(args[0], pr.pk), pr.tokT))
		ct := e.load(p.St.clone(), pr.addr(args[0], pr.cur), pr.tokT)
		if ct == nil || ct.mentions(func(t *Term) bool { return t == read }) {
			cr.add(vUnd, lastPos(p), "the token that is read does not become the next one")
			continue
		}
		f := p.Facts.assume(c.p, mkEq(pt, ill), true)
		switch {
		case reports || f == nil:
			cr.add(vOK, lastPos(p), "")
		default:
			v := vBad
			// in the parser that was just made
			sub := map[*Term]*Term{}
			for b := range p.Facts.bools {
				b.walk(func(t *Term) bool {
					if t.Op == "init" && t.Args[0].Op == "&f" && t.Args[0].Args[0] == args[0] && t.Typ != nil {
						if bt, ok := t.Typ.Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
							sub[t] = mkInt(0)
						}
					}
					return true
				})
			}
			fresh := c.substFacts(p.Facts, sub)
			if fresh == nil {
				fresh = p.Facts
			}
			for b := range fresh.bools {
				if !b.mentions(func(t *Term) bool { return t == pt }) {
					v = vUnd
				}
			}
			if v == vUnd {
				// the token before it decides, and it is a legal one
				bt := pr.typeOf(ct)
				only := bt != nil
				for b := range fresh.bools {
					only = only && (b.Op == "==" && (b.Args[0] == pt || b.Args[1] == pt || b.Args[0] == bt || b.Args[1] == bt))
				}
				if only && f.assume(c.p, mkEq(bt, ill), false) != nil {
					v = vBad
				}
				if v == vBad {
					cr.add(vBad, lastPos(p), "an illegal token is not reported after some legal tokens")
					continue
				}
			}
			if v == vUnd && !c.resolvedFacts(er, fresh) {
				cr.add(vUnd, lastPos(p), "an illegal token is not always reported")
				continue
			}
			cr.add(vBad, lastPos(p), "an illegal token is read and not reported")
		}
	}
	// tokens are read nowhere else, except ahead on a copy
	for _, g := range c.p.funcs {
		if g == f || g.Pkg == nil || g.Pkg.Pkg.Name() == "lexer" {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || ci.Common().StaticCallee() != c.p.fn("lexer", "Lexer.NextToken") {
					continue
				}
				if _, base := rootClass(ci.Common().Args[0]); base != nil {
					if _, local := base.(*ssa.Alloc); local {
						continue
					}
				}
				if _, local := ci.Common().Args[0].(*ssa.Alloc); local {
					continue
				}
				cr.add(vUnd, in.Pos(), "tokens are read in "+c.p.fullName(g))
			}
		}
	}
}

// unclosedComments: a comment without an end is an illegal token.
func (m *lexModel) unclosedComments(rule string) {
	c, lx := m.lx.c, m.lx
	cr := c.newCase(rule, "a comment without an end is an illegal token")
	defer cr.done()
	if m.why != "" {
		cr.add(vUnd, token.NoPos, m.why)
		return
	}
	starts := func(p *Path, x *Term) bool {
		for i, ch := range []byte("{{--") {
			if p.Facts.decide(c.p, mkEq(lx.byteAt(addInt(x, int64(i))), mkByte(ch))) != 1 {
				return false
			}
		}
		return true
	}
	judge := func(p *Path, x *Term, tok *lexTok) {
		closed, open := false, false
		for b, v := range p.Facts.bools {
			b.walk(func(t *Term) bool {
				if (t.Op == "call" || t.Op == "ext") && len(t.Args) == 2 && t.mentions(func(u *Term) bool { return u == lx.input }) {
					if s, ok := t.Args[1].strVal(); ok && strings.HasSuffix("--}}", s) && len(s) >= 2 {
						open = true
						if v && b == t {
							closed = true
						}
					}
				}
				return true
			})
		}
		if tok != nil && tok.typ == m.tt["ILLEGAL"] {
			cr.add(vOK, lastPos(p), "")
			return
		}
		// the terminator is compared byte by byte
		var ps []*Term
		for b := range p.Facts.bools {
			b.walk(func(t *Term) bool {
				if t.Op == "sidx" && t.Args[0] == lx.input {
					ps = append(ps, t.Args[1])
				}
				return true
			})
		}
		for _, q := range ps {
			if p.Facts.decide(c.p, mkEq(lx.byteAt(q), mkByte('}'))) == 1 && p.Facts.decide(c.p, mkEq(lx.byteAt(addInt(q, 1)), mkByte('}'))) == 1 {
				closed = true
			}
		}
		switch {
		case closed:
			cr.add(vOK, lastPos(p), "")
		case open:
			cr.add(vUnd, lastPos(p), "it is not known whether the comment has an end")
		default:
			v := vBad
			if !m.factsKnown(p.Facts) {
				v = vUnd
			}
			cr.add(v, lastPos(p), "a comment is accepted although its end may be missing")
		}
	}
	first := func(p *Path) *Term {
		for _, ev := range p.Events {
			if ev.Kind == "adv" {
				return ev.Args[0]
			}
		}
		return nil
	}
	for _, b := range m.backs {
		if m.infeasible(b.Facts) {
			continue
		}
		// back to the start of NextToken
		ls := lx.loopsOf(b)
		id := ""
		for _, ev := range b.Events {
			if ev.Kind == "back" {
				id = ev.Loop
			}
		}
		if len(ls) == 0 || ls[0].id != id {
			continue
		}
		if x := first(b); x != nil && starts(b, x) {
			judge(b, x, nil)
		}
	}
	for _, t := range m.toks {
		if x := first(t.p); x != nil && starts(t.p, x) && len(t.in)+len(t.pre) > 1 {
			judge(t.p, x, t)
		}
	}
}

// parseErrorsUsed: a program whose parser has errors is not used.
func (c *Checker) parseErrorsUsed(rule string) {
	parse := c.p.fn("parser", "Parser.ParseProgram")
	if parse == nil {
		c.und(rule, "errors of the parser", "anchor not found")
		return
	}
	uses := map[*ssa.Function]bool{}
	var reach func(f *ssa.Function, d int) bool
	reach = func(f *ssa.Function, d int) bool {
		if d > 3 {
			return false
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					g := ci.Common().StaticCallee()
					if g == parse || g != nil && g != f && g.Pkg == f.Pkg && reach(g, d+1) {
						return true
					}
				}
			}
		}
		return false
	}
	var fs []*ssa.Function
	for _, f := range c.p.funcs {
		if f.Pkg == c.p.spkgs[""] && f.Parent() == nil && f.Synthetic == "" && len(f.Blocks) > 0 && reach(f, 0) {
			fs = append(fs, f)
			uses[f] = true
		}
	}
	if len(fs) == 0 {
		c.und(rule, "errors of the parser", "nothing calls the parser")
	}
	for _, f := range fs {
		cr := c.newCase(rule, "errors of the parser stop "+c.p.fullName(f))
		extra := map[string]string{}
		for k, v := range linkVoc {
			if c.p.fn("", strings.TrimPrefix(k, "textwire.")) != f {
				extra[k] = v
			}
		}
		er := c.loadRun(f, nil, extra, runOpts{onRec: true})
		if er == nil || !er.complete {
			cr.add(vUnd, f.Pos(), "path enumeration is incomplete")
			cr.done()
			continue
		}
		for _, p := range er.paths {
			if p.Outcome != "return" && p.Outcome != "back" {
				continue
			}
			cr.add(vOK, lastPos(p), "")
			progs := map[*Term]bool{}
			note := func(t *Term) {
				if t != nil {
					t.walk(func(t *Term) bool {
						if t.Op == "call" && strings.HasPrefix(t.Sym, "parser.Parser.ParseProgram#") {
							progs[t] = true
						}
						return true
					})
				}
			}
			for _, v := range p.Ret {
				note(v)
			}
			for _, ev := range p.Events {
				if ev.Kind == "call" && ev.Fn != "parser.Parser.ParseProgram" {
					for _, a := range ev.Args {
						note(a)
					}
				}
				if ev.Kind == "store" || ev.Kind == "mapupdate" {
					note(ev.Val)
				}
			}
			for t := range progs {
				if p.Facts.decide(c.p, mkEq(t, mkNil())) == 1 {
					continue
				}
				n := er.names[t]
				if !strings.HasPrefix(n, "prog‹") {
					cr.add(vUnd, lastPos(p), "a program is used whose parser is not known")
					continue
				}
				errs := "errs‹" + strings.TrimPrefix(n, "prog‹")
				ret := false
				for _, v := range p.Ret {
					ret = ret || strings.Contains(er.specRenderer(p).str(v), errs)
				}
				switch d := er.cond(p, "empty:"+errs); {
				case d == 1:
					cr.add(vOK, lastPos(p), "")
				case ret:
					cr.add(vOK, lastPos(p), "") // handed to the caller
				case d == 0:
					cr.add(vBad, lastPos(p), "the program is used although there are errors: "+n)
				default:
					v := vBad
					if len(er.known[errs]) > 0 {
						v = vUnd
					}
					cr.add(v, lastPos(p), "the program is used and the errors are not looked at: "+n)
				}
			}
		}
		cr.done()
	}
}
