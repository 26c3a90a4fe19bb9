package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// parseAlt is one accepted way through a parse function: the token trace and
// the node it must produce.
type parseAlt struct {
	trace string // regular expression over the trace
	node  string // canonical rendering of the result, "" for any
	full  string // after this trace an error is wrong; default trace
}

// checkParse compares the success paths of a parse function with the
// accepted alternatives.
func (pr *parserRun) checkParse(rule, name string, f *ssa.Function, cur string, alts []parseAlt) {
	c := pr.c
	if pr.errs != "" || f == nil {
		c.und(rule, name, "anchor not found: %s", pr.errs)
		return
	}
	ps, complete := pr.run(f, nil, cur, nil)
	if !complete {
		c.und(rule, name, "path enumeration is incomplete")
		return
	}
	pr.checkPaths(rule, name, ps, alts)
}

var traceVocab = regexp.MustCompile(`^(|((T:[A-Z_?]+|E\([A-Z_0-9?]+\)|B|S|L|K|!)( |$))+)$`)

func (pr *parserRun) checkPaths(rule, name string, ps []*Path, alts []parseAlt) {
	c := pr.c
	cr := c.newCase(rule, name)
	hit := make([]bool, len(alts))
	res := make([]*regexp.Regexp, len(alts))
	full := make([]*regexp.Regexp, len(alts))
	for i, a := range alts {
		res[i] = regexp.MustCompile("^(?:" + a.trace + ")$")
		full[i] = res[i]
		if a.full != "" {
			full[i] = regexp.MustCompile("^(?:" + a.full + ")$")
		}
	}
	for _, p := range ps {
		if p.Outcome != "return" {
			continue
		}
		tr := pr.trace(p)
		pos := lastPos(p)
		if i := strings.Index(tr, "!"); i >= 0 {
			before := strings.TrimSpace(tr[:i])
			if pr.acceptOnly {
				continue
			}
			for _, r := range full {
				if r.MatchString(before) && !pr.nestingErr(p) && !pr.literalErr(p) {
					cr.add(vBad, pos, "an error is reported after the complete construct `"+before+"`")
				}
			}
			continue
		}
		if !traceVocab.MatchString(tr) {
			cr.add(vUnd, pos, "token trace `"+tr+"` is not resolved")
			continue
		}
		got := "nil"
		if len(p.Ret) > 0 {
			got = pr.renderer(p).str(p.Ret[0])
		}
		matched := -1
		var want []string
		for i, r := range res {
			if !r.MatchString(tr) {
				continue
			}
			if alts[i].node == "" || alts[i].node == got {
				matched = i
				break
			}
			want = append(want, alts[i].node)
		}
		switch {
		case matched >= 0:
			hit[matched] = true
			cr.add(vOK, pos, "")
		case len(want) > 0:
			if len(p.Ret) > 0 && !pr.resolvedNode(p, p.Ret[0]) {
				cr.add(vUnd, pos, "the produced node is not resolved: "+got)
			} else {
				cr.add(vBad, pos, fmt.Sprintf("after `%s` the node is %s, expected %s", tr, got, strings.Join(want, " or ")))
			}
		default:
			var ts []string
			for _, a := range alts {
				ts = append(ts, a.trace)
			}
			cr.add(vBad, pos, fmt.Sprintf("accepts the token sequence `%s` (node %s), expected %s", tr, got, strings.Join(ts, " or ")))
		}
	}
	for i, h := range hit {
		if !h {
			cr.add(vUnd, 0, "no path accepts `"+alts[i].trace+"`")
		}
	}
	cr.done()
}

// resolvedNode: the node consists of inputs of the parser only.
func (pr *parserRun) resolvedNode(p *Path, t *Term) bool {
	return pr.c.resolved(p, t, func(x *Term) bool {
		return x.Op == "call" && (strings.HasPrefix(x.Sym, "parser.") || strings.HasPrefix(x.Sym, "strconv.")) || x.Op == "loopv" || x.Op == "loopm" || x.Op == "ext" && strings.HasPrefix(x.Args[0].Sym, "strconv.")
	})
}

func (pr *parserRun) nestingErr(p *Path) bool {
	for _, ev := range p.Events {
		if ev.Kind == "perr" && ev.Fn == "nesting" {
			return true
		}
	}
	return false
}

// literalErr: the error depends on a conversion of the literal.
func (pr *parserRun) literalErr(p *Path) bool {
	for b := range p.Facts.bools {
		if b.mentions(func(t *Term) bool { return strings.HasPrefix(t.Sym, "strconv.") }) {
			return true
		}
	}
	return false
}

// levelOf reads the precedence level passed to a recursive parse.
func (pr *parserRun) levels1(ps []*Path, n int) (lv map[int64]*Path, unknown bool) {
	lv = map[int64]*Path{}
	for _, p := range ps {
		i := 0
		for _, ev := range p.Events {
			if ev.Kind == "call" && baseName(ev.Fn) == "parseExpression" && len(ev.Args) > 1 {
				if i == n {
					if v, ok := ev.Args[1].intVal(); ok {
						lv[v] = p
					} else {
						unknown = true
					}
				}
				i++
			}
		}
	}
	return
}

// bindingPowers derives, from the loop of parseExpression, the level below
// which each token is taken as an operator. ok is false when the loop is not
// of that form.
func (pr *parserRun) bindingPowers() (pow map[string]int64, why string) {
	c := pr.c
	f := c.p.fn("parser", "Parser.parseExpression")
	if f == nil || len(f.Params) < 2 {
		return nil, "parser.Parser.parseExpression not found"
	}
	args := rootParams(f)
	var opq []string
	ps, complete := pr.runX(f, opq, "", args, true)
	if !complete {
		return nil, "path enumeration is incomplete"
	}
	level := args[1]
	pow = map[string]int64{}
	names := make([]string, 0, len(pr.consts))
	for n := range pr.consts {
		names = append(names, n)
	}
	sort.Strings(names)
	backs := 0
	for _, p := range ps {
		if p.Outcome != "back" {
			continue
		}
		var tok *Term
		n := 0
		for _, ev := range p.Events {
			if ev.Kind == "next" {
				tok = ev.Args[0]
				n++
			}
		}
		if n != 1 {
			return nil, "the operator loop consumes " + fmt.Sprint(n) + " tokens"
		}
		backs++
		tt := pr.typeOf(tok)
		for _, name := range names {
			g := c.substFacts(p.Facts, map[*Term]*Term{tt: pr.consts[name], stripEpoch(tt): pr.consts[name]})
			if g == nil {
				continue
			}
			u, ok := g.upper(level, mkInt(0))
			if !ok {
				return nil, "the operator loop has no upper bound on the level for " + name
			}
			if v, seen := pow[name]; !seen || u+1 > v {
				pow[name] = u + 1
			}
		}
	}
	if backs == 0 {
		return nil, "the operator loop was not found"
	}
	return pow, ""
}

// accum describes a value that a loop builds up: the rendered value before
// the loop and the rendered value after each pass, with the loop's own value
// printed as "acc".
func (c *Checker) accum(t *Term, ps []*Path, rd func(p *Path) *renderer) (init []string, steps []string, ok bool) {
	if t.Op != "loopv" && t.Op != "loopm" {
		return nil, nil, false
	}
	addUniq := func(l []string, s string) []string {
		for _, x := range l {
			if x == s {
				return l
			}
		}
		return append(l, s)
	}
	id, name, _ := strings.Cut(t.Sym, ".")
	for _, p := range ps {
		r := rd(p)
		r.names[t] = "acc"
		for _, ev := range p.Events {
			switch {
			case t.Op == "loopv" && ev.Kind == "loop" && ev.Loop == id && ev.Vals[name] != nil:
				init = addUniq(init, r.str(ev.Vals[name]))
			case t.Op == "loopm" && ev.Kind == "acc" && ev.Loop == t.Sym && ev.Addr == t.Args[0]:
				init = addUniq(init, r.str(ev.Val))
			}
		}
		if p.Outcome == "back" && p.Loop == strings.SplitN(t.Sym, ".", 2)[0] {
			if t.Op == "loopv" {
				if v := p.Vals[name]; v != nil {
					steps = addUniq(steps, r.str(v))
				}
			} else if v, has := p.St.mem[t.Args[0]]; has {
				steps = addUniq(steps, r.str(v))
			}
		}
	}
	return init, steps, len(init) > 0 && len(steps) > 0
}

// callPos is the position of the n-th recursive parse of a path.
func callPos(p *Path, n int) posT {
	for _, ev := range p.Events {
		if ev.Kind == "call" && baseName(ev.Fn) == "parseExpression" {
			if n == 0 {
				return ev.Pos
			}
			n--
		}
	}
	return lastPos(p)
}

// conversionGuard: a literal whose conversion fails is reported and gives no
// node.
func (pr *parserRun) conversionGuard(name string, f *ssa.Function, cur string) {
	c := pr.c
	cr := c.newCase("grammar", name+" out of range")
	ps, complete := pr.run(f, nil, cur, nil)
	if !complete {
		cr.add(vUnd, 0, "path enumeration is incomplete")
	}
	for _, p := range ps {
		if p.Outcome != "return" {
			continue
		}
		// the error of the conversion
		var errT *Term
		for b := range p.Facts.bools {
			b.walk(func(t *Term) bool {
				if t.Op == "ext" && t.Sym == "1" && strings.HasPrefix(t.Args[0].Sym, "strconv.") {
					errT = t
				}
				return true
			})
		}
		hasErr := false
		for _, ev := range p.Events {
			hasErr = hasErr || ev.Kind == "perr"
		}
		if errT == nil {
			if hasErr {
				continue
			}
			cr.add(vBad, lastPos(p), "the error of the conversion is not checked")
			continue
		}
		d := p.Facts.decide(c.p, mkEq(errT, mkNil()))
		switch {
		case d == 0 && !hasErr:
			cr.add(vBad, lastPos(p), "a failed conversion is not reported")
		case d == 1 && hasErr:
			cr.add(vBad, lastPos(p), "a successful conversion is reported as an error")
		case d >= 0:
			cr.add(vOK, lastPos(p), "")
		default:
			cr.add(vUnd, lastPos(p), "the error of the conversion is not resolved")
		}
	}
	cr.done()
}

// nodeField reads a field of the AST node a path returns.
func (pr *parserRun) nodeField(p *Path, typ, field string) *Term {
	if len(p.Ret) == 0 {
		return nil
	}
	return pr.c.objField(p, p.Ret[0], "ast."+typ, field)
}

var appendE = regexp.MustCompile(`^acc\+\+\[E#\d+\]$`)

// listRule: the elements are collected in order, one per parsed expression.
func (pr *parserRun) listRule(name string, f *ssa.Function, cur, typ, field string) {
	c := pr.c
	if f == nil {
		c.und("grammar", name, "anchor not found")
		return
	}
	cr := c.newCase("grammar", name+" are collected in order")
	ps, complete := pr.run(f, nil, cur, nil)
	if !complete {
		cr.add(vUnd, 0, "path enumeration is incomplete")
	}
	for _, p := range ps {
		if p.Outcome != "return" || len(p.Ret) == 0 || p.Ret[0].isNil() || strings.Contains(pr.trace(p), "!") {
			continue
		}
		t := pr.nodeField(p, typ, field)
		tr := pr.trace(p)
		n := strings.Count(tr, "E(")
		if t == nil || n == 0 {
			continue
		}
		if !strings.Contains(tr, "L") {
			continue
		}
		init, steps, ok := c.accum(t, ps, pr.renderer)
		if !ok {
			got := pr.renderer(p).str(t)
			cr.add(vUnd, lastPos(p), "the list is not built by a loop that is understood: "+got)
			continue
		}
		good := true
		for _, s := range init {
			if s != "[E#1]" && s != "nil" && s != "[]" {
				good = false
			}
		}
		for _, s := range steps {
			good = good && appendE.MatchString(s)
		}
		if good {
			cr.add(vOK, lastPos(p), "")
		} else if regexp.MustCompile(`^(nil|\[\]|\[E#\d+\]|acc|acc\+\+\[(E#\d+|nil)(, E#\d+)*\]|\[E#\d+\]\+\+acc)$`).MatchString(strings.Join(steps, "")) {
			cr.add(vBad, lastPos(p), fmt.Sprintf("the list starts as %v and becomes %v in a pass", init, steps))
		} else {
			cr.add(vUnd, lastPos(p), fmt.Sprintf("the list starts as %v and becomes %v in a pass", init, steps))
		}
	}
	cr.done()
	// the separator of a pass
	cr = c.newCase("grammar", name+" are separated by commas")
	for _, p := range ps {
		if p.Outcome != "back" {
			continue
		}
		tr := lastLoop(pr.trace(p))
		switch {
		case regexp.MustCompile(`^T:COMMA T:\? ` + lvl + ` K$`).MatchString(tr), regexp.MustCompile(`^T:\? ` + lvl + ` T:COMMA K$`).MatchString(tr), regexp.MustCompile(`^` + lvl + ` T:COMMA T:\? K$`).MatchString(tr):
			cr.add(vOK, lastPos(p), "")
		case traceVocab.MatchString(tr) && !strings.Contains(tr, "!"):
			cr.add(vBad, lastPos(p), "one pass of the list consumes `"+tr+"`")
		}
	}
	cr.done()
}

// allLevels checks the level of every expression a function parses.
func (pr *parserRun) allLevels(name string, f *ssa.Function, cur string, ok func(int64) bool) {
	c := pr.c
	if f == nil {
		c.und("precedence", name, "anchor not found")
		return
	}
	cr := c.newCase("precedence", name)
	ps, complete := pr.run(f, nil, cur, nil)
	if !complete {
		cr.add(vUnd, 0, "path enumeration is incomplete")
	}
	for _, p := range ps {
		for _, ev := range p.Events {
			if ev.Kind == "call" && baseName(ev.Fn) == "parseExpression" && len(ev.Args) > 1 {
				v, isInt := ev.Args[1].intVal()
				switch {
				case !isInt:
					cr.add(vUnd, ev.Pos, "the level is not resolved")
				case ok(v):
					cr.add(vOK, ev.Pos, "")
				default:
					cr.add(vBad, ev.Pos, fmt.Sprintf("a complete expression is parsed at level %d", v))
				}
			}
		}
	}
	cr.done()
}

// objectRule: pairs of an object literal.
func (pr *parserRun) objectRule(f *ssa.Function) {
	c := pr.c
	name := "object literal"
	if f == nil {
		c.und("grammar", name, "anchor not found")
		return
	}
	ps, complete := pr.run(f, nil, "LBRACE", nil)
	cr := c.newCase("grammar", name)
	if !complete {
		cr.add(vUnd, 0, "path enumeration is incomplete")
	}
	seg := regexp.MustCompile(`^(T:COLON T:\? )?` + lvl + ` (T:COMMA T:\? K|T:RBRACE)$`)
	for _, p := range ps {
		tr := pr.trace(p)
		if strings.Contains(tr, "!") || !traceVocab.MatchString(tr) {
			continue
		}
		if p.Outcome == "return" && (len(p.Ret) == 0 || p.Ret[0].isNil()) {
			cr.add(vBad, lastPos(p), "no node and no error after `"+tr+"`")
			continue
		}
		body := lastLoop(tr)
		switch {
		case tr == "T:RBRACE":
			cr.add(vOK, lastPos(p), "")
			continue
		case p.Outcome == "return" && tr == "T:? L":
			cr.add(vOK, lastPos(p), "")
			continue
		case !seg.MatchString(body):
			cr.add(vBad, lastPos(p), "a pair consumes `"+body+"`")
			continue
		}
		// the stored pair: key is the literal of the first token
		stores := 0
		for _, ev := range p.Events {
			if ev.Kind != "mapupdate" {
				continue
			}
			stores++
			key, val := pr.renderer(p).str(ev.Args[0]), pr.renderer(p).str(ev.Val)
			if !strings.Contains(key, "Literal") || strings.Contains(key, "peekToken") && !strings.Contains(body, "T:?") {
				cr.add(vUnd, ev.Pos, "the key is "+key)
			} else if !regexp.MustCompile(`^E#\d+$`).MatchString(val) {
				cr.add(vBad, ev.Pos, "the value stored for a key is "+val)
			} else {
				cr.add(vOK, ev.Pos, "")
			}
		}
		if stores == 0 {
			cr.add(vBad, lastPos(p), "a parsed pair is not stored")
		}
	}
	cr.done()
}

// operatorLoop: the operator loop takes every operator that binds tighter
// than the level and combines it with the expression so far.
func (pr *parserRun) operatorLoop(pow map[string]int64, infix map[string]*ssa.Function) {
	c := pr.c
	f := c.p.fn("parser", "Parser.parseExpression")
	args := rootParams(f)
	ps, complete := pr.run(f, nil, "", args)
	cr := c.newCase("precedence", "operators that bind tighter than the level are taken")
	if !complete {
		cr.add(vUnd, 0, "path enumeration is incomplete")
	}
	var tt *Term
	for _, p := range ps {
		if p.Outcome == "back" {
			for _, ev := range p.Events {
				if ev.Kind == "next" {
					tt = pr.typeOf(ev.Args[0])
				}
			}
		}
	}
	if tt == nil {
		cr.add(vUnd, 0, "the operator loop was not found")
		cr.done()
		return
	}
	for _, p := range ps {
		if p.Outcome != "return" {
			continue
		}
		inLoop, perr := false, false
		for _, ev := range p.Events {
			if ev.Kind == "loop" {
				inLoop = true
			}
			if ev.Kind == "perr" {
				perr = true
			}
		}
		if !inLoop || perr {
			continue
		}
		cr.add(vOK, lastPos(p), "")
		for t, fn := range infix {
			if fn == nil {
				continue
			}
			g := c.substFacts(p.Facts, map[*Term]*Term{tt: pr.consts[t]})
			if g == nil {
				continue
			}
			if g = c.with(g, mkLess(args[1], mkInt(pow[t]))); g == nil {
				continue
			}
			// leaving is justified only when no parse function is registered
			nilFn := false
			for b, v := range g.bools {
				if b.Op == "==" && b.Args[1].isNil() && v && b.Args[0].Op == "lookup" {
					nilFn = true
				}
			}
			if !nilFn {
				cr.add(vBad, lastPos(p), "the loop ends before "+t+" although it binds tighter than the level")
			}
		}
		// the value returned
		if len(p.Ret) > 0 && p.Ret[0].isNil() {
			cr.add(vBad, lastPos(p), "the parsed expression is dropped")
		}
	}
	cr.done()

	cr = c.newCase("precedence", "the operator combines the expression so far")
	for _, p := range ps {
		if p.Outcome != "back" {
			continue
		}
		var acc string
		var dyn *Event
		nexts, after := 0, false
		for _, ev := range p.Events {
			switch ev.Kind {
			case "loop":
				dyn, nexts = nil, 0
			case "dyncall":
				dyn = ev
				after = nexts == 1
			case "next":
				nexts++
			}
		}
		if dyn == nil || dyn.Res == nil {
			cr.add(vUnd, lastPos(p), "the call of the operator's parse function is not resolved")
			continue
		}
		for n, v := range p.Vals {
			if v == dyn.Res {
				acc = n
			}
		}
		uses := false
		for _, a := range dyn.Args {
			if acc != "" && a.Op == "loopv" && strings.HasSuffix(a.Sym, "."+acc) {
				uses = true
			}
		}
		switch {
		case acc == "":
			cr.add(vUnd, dyn.Pos, "the result of the operator is not carried to the next pass")
		case !uses:
			cr.add(vBad, dyn.Pos, "the operator does not get the expression parsed so far")
		case !after:
			cr.add(vBad, dyn.Pos, "the operator token is not the current token when its parse function runs")
		default:
			cr.add(vOK, dyn.Pos, "")
		}
	}
	cr.done()
}

// bracesRule: statements inside {{ }}.
func (pr *parserRun) bracesRule(f *ssa.Function, whole func(int64) bool) {
	for _, cur := range []string{"LBRACES", "SEMI"} {
		pr.checkParse("grammar", "statement after "+cur, f, cur, []parseAlt{
			{`T:IDENT T:ASSIGN T:\? ` + lvl + `( T:RBRACES)?`, "AssignStmt{Name: Identifier{Value: peek0.Literal}, Value: E#1}", `T:IDENT T:ASSIGN T:\? ` + lvl + ` T:RBRACES`},
			{`T:[A-Z_?]+ ` + lvl + `( T:RBRACES)?`, "ExpressionStmt{Expression: E#1}", `T:[A-Z_?]+ ` + lvl + ` T:RBRACES`},
		})
		pr.allLevels("statement after "+cur, f, cur, whole)
	}
}

func (p *Prog) globalVar(pkg, name string) *ssa.Global {
	sp := p.spkgs[pkg]
	if sp == nil {
		return nil
	}
	g, _ := sp.Members[name].(*ssa.Global)
	return g
}
