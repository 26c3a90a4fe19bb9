package main

import (
	"fmt"
	"go/constant"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C01"] = checkC01 }

func checkC01(c *Checker) {
	c.rule("infix", "for every operator and pair of operand kinds, every path of the evaluator returns the operation applied to (left, right), or an error where the operation is undefined")
	c.rule("prefix", "unary - negates Int and Float, ! negates booleans and nil, anything else is an error")
	c.rule("postfix", "++ and -- add and subtract one on Int and Float, anything else is an error")
	c.rule("ternary", "the ternary evaluates exactly the branch selected by the truthiness of the condition")
	c.rule("error-propagation", "an error of a sub-expression is the result of the expression")
	c.rule("literal", "a literal evaluates to an object holding the parsed value; an identifier to its binding or an error")
	c.evalInfix()
	c.evalPrefix()
	c.evalPostfix()
	c.evalTernary()
	c.operandsUnchanged()
	c.evalLiterals()
	c.specLists("literal")
	c.precedenceRules()
	c.rule("lookup", "indexing gives the element at the position or the entry of the name; property access gives the entry of the name")
	c.lookupRules("lookup")
	c.rule("printing", "integers print as decimals, floats with all their digits and at least one after the point, booleans as 1 or 0, nil as nothing")
	c.printing("printing")
}

const lvl = `E\(([A-Z_]+|\d+)\)`

// precedenceRules: the grouping of operators.
func (c *Checker) precedenceRules() {
	c.rule("precedence", "the level below which the operator loop takes a token increases in the documented order; operands are parsed at a level that gives left associativity")
	c.rule("grammar", "each expression form consumes exactly its tokens and builds the node from its operands in order")
	pr := c.parser()
	pow, why := pr.bindingPowers()
	if pow == nil {
		c.und("precedence", "operator table", "%s", why)
		return
	}
	pf := c.p.fn("parser", "Parser.parseExpression")
	prefix, infix, ok := pr.registrations()
	if !ok {
		c.und("precedence", "operator table", "the registration of parse functions is not resolved")
		return
	}
	groups := [][]string{{"QUESTION"}, {"EQ", "NOT_EQ"}, {"LTHAN", "GTHAN", "LTHAN_EQ", "GTHAN_EQ"}, {"ADD", "SUB"}, {"MUL", "DIV", "MOD"}, {"DOT"}, {"LBRACKET"}, {"INC", "DEC"}}
	pos := c.fnPos(pf)
	if g := c.p.globalVar("parser", "precedences"); g != nil {
		pos = g.Pos()
	}
	for i, g := range groups {
		for _, t := range g {
			if infix[t] == nil {
				c.bad("precedence", t+" is an operator", pos, "no parse function is registered for %s", t)
				continue
			}
			c.ok("precedence", t+" is an operator", infix[t].Pos())
			c.expect(pow[t] == pow[g[0]], "precedence", t+" = "+g[0], pos, "%s has level %d, %s has level %d", t, pow[t], g[0], pow[g[0]])
			if i > 0 {
				for _, u := range groups[i-1] {
					c.expect(pow[u] < pow[t], "precedence", u+" < "+t, pos, "%s has level %d, %s has level %d", u, pow[u], t, pow[t])
				}
			}
		}
	}
	// tokens that end an expression must not be operators
	for t := range infix {
		known := false
		for _, g := range groups {
			for _, x := range g {
				known = known || x == t
			}
		}
		if !known {
			c.und("precedence", t, "an operator that the specification does not list")
		}
	}
	low := pow["QUESTION"]
	next := func(v int64) int64 { // the next higher level in use
		best := int64(1) << 40
		for _, g := range groups {
			for _, t := range g {
				if p := pow[t]; p > v && p < best {
					best = p
				}
			}
		}
		return best
	}
	level := func(rule, name string, f *ssa.Function, cur string, n int, ok func(v int64) bool, want string) {
		if f == nil {
			return
		}
		ps, complete := pr.run(f, nil, cur, nil)
		lv, unknown := pr.levels1(ps, n)
		if !complete || unknown || len(lv) == 0 {
			c.und(rule, name, "the level of the operand is not resolved")
			return
		}
		for v, p := range lv {
			if !ok(v) {
				c.bad(rule, name, callPos(p, n), "the operand is parsed at level %d, expected %s", v, want)
			} else {
				c.ok(rule, name, callPos(p, n))
			}
		}
	}
	whole := func(v int64) bool { return v < low }
	for _, t := range []string{"ADD", "SUB", "MUL", "DIV", "MOD", "EQ", "NOT_EQ", "LTHAN", "GTHAN", "LTHAN_EQ", "GTHAN_EQ"} {
		t := t
		pr.checkParse("grammar", "infix "+t, infix[t], t, []parseAlt{{trace: `T:[A-Z_?]+ ` + lvl, node: "InfixExp{Operator: cur0.Literal, Left: a1, Right: E#1}"}})
		level("precedence", "right operand of "+t, infix[t], t, 0, func(v int64) bool { return v >= pow[t] && v < next(pow[t]) }, fmt.Sprintf("%d (its own level: left associative)", pow[t]))
	}
	pr.checkParse("grammar", "ternary", infix["QUESTION"], "QUESTION", []parseAlt{{trace: `T:\? ` + lvl + ` T:COLON T:\? ` + lvl, node: "TernaryExp{Condition: a1, Consequence: E#1, Alternative: E#2}"}})
	level("precedence", "then part of the ternary", infix["QUESTION"], "QUESTION", 0, func(v int64) bool { return v < next(low) }, "a level that takes every operator but the ternary")
	level("precedence", "else part of the ternary", infix["QUESTION"], "QUESTION", 1, whole, "the lowest level")
	pr.checkParse("grammar", "index", infix["LBRACKET"], "LBRACKET", []parseAlt{{trace: `T:\? ` + lvl + ` T:RBRACKET`, node: "IndexExp{Left: a1, Index: E#1}"}})
	level("precedence", "index operand", infix["LBRACKET"], "LBRACKET", 0, whole, "the lowest level")
	for _, t := range []string{"INC", "DEC"} {
		pr.checkParse("grammar", "postfix "+t, infix[t], t, []parseAlt{{trace: ``, node: "PostfixExp{Operator: cur0.Literal, Left: a1}"}})
	}
	for _, t := range []string{"SUB", "NOT"} {
		pr.checkParse("grammar", "prefix "+t, prefix[t], t, []parseAlt{{trace: `T:\? ` + lvl, node: "PrefixExp{Operator: cur0.Literal, Right: E#1}"}})
		level("precedence", "operand of prefix "+t, prefix[t], t, 0, func(v int64) bool { return v >= pow["DOT"] && v < pow["LBRACKET"] }, "above member access and below indexing")
	}
	pr.checkParse("grammar", "parentheses", prefix["LPAREN"], "LPAREN", []parseAlt{{trace: `T:\? ` + lvl + ` T:RPAREN`, node: "E#1"}})
	level("precedence", "parentheses", prefix["LPAREN"], "LPAREN", 0, whole, "the lowest level")
	for _, l := range []struct{ tok, node string }{
		{"IDENT", "Identifier{Value: cur0.Literal}"},
		{"INT", "IntegerLiteral{Value: strconv.ParseInt(cur0.Literal, 10, 64)#0}"},
		{"FLOAT", "FloatLiteral{Value: strconv.ParseFloat(cur0.Literal, 64)#0}"},
		{"STR", "StringLiteral{Value: cur0.Literal}"},
		{"NIL", "NilLiteral{}"},
		{"TRUE", "BooleanLiteral{Value: true}"},
		{"FALSE", "BooleanLiteral{}"},
	} {
		if prefix[l.tok] == nil {
			c.bad("grammar", "literal "+l.tok, pos, "no parse function is registered for %s", l.tok)
			continue
		}
		pr.checkParse("grammar", "literal "+l.tok, prefix[l.tok], l.tok, []parseAlt{{trace: ``, node: l.node}})
	}
	for _, t := range []string{"INT", "FLOAT"} {
		pr.conversionGuard("literal "+t, prefix[t], t)
	}
	pr.checkParse("grammar", "property or call", infix["DOT"], "DOT", []parseAlt{
		{trace: `T:IDENT`, node: "DotExp{Left: a1, Key: Identifier{Value: peek0.Literal}}"},
		{trace: `T:IDENT T:LPAREN T:RPAREN`, node: "CallExp{Receiver: a1, Function: Identifier{Value: peek0.Literal}}"},
		{trace: `T:IDENT T:LPAREN T:\? ` + lvl + ` L T:COMMA T:RPAREN|T:IDENT T:LPAREN T:\? ` + lvl + ` L T:RPAREN`, node: ""},
	})
	pr.listRule("call arguments", infix["DOT"], "DOT", "CallExp", "Arguments")
	pr.checkParse("grammar", "array literal", prefix["LBRACKET"], "LBRACKET", []parseAlt{
		{trace: `T:RBRACKET`, node: "ArrayLiteral{}"},
		{trace: `T:\? ` + lvl + ` L T:COMMA T:RBRACKET|T:\? ` + lvl + ` L T:RBRACKET`, node: ""},
	})
	pr.listRule("array elements", prefix["LBRACKET"], "LBRACKET", "ArrayLiteral", "Elements")
	pr.allLevels("array elements", prefix["LBRACKET"], "LBRACKET", whole)
	pr.allLevels("call arguments", infix["DOT"], "DOT", whole)
	pr.allLevels("object literal values", prefix["LBRACE"], "LBRACE", whole)
	pr.objectRule(prefix["LBRACE"])
	pr.operatorLoop(pow, infix)
	if f := c.p.fn("parser", "Parser.parseStatement"); f != nil {
		pr.bracesRule(f, whole)
	}
}

var infixOps = []string{"+", "-", "*", "/", "%", "==", "!=", "<", ">", "<=", ">="}

// infixWant returns the expected rendering of an arithmetic result, or the
// expected boolean condition.
func (c *Checker) infixWant(op, kind string, l, r *Term) (val *Term, cond *Term, isErr bool) {
	lv, rv := c.objVal(l, kind), c.objVal(r, kind)
	switch kind {
	case "*object.Int":
		switch op {
		case "+":
			return linAdd(lv, rv, 1), nil, false
		case "-":
			return linAdd(lv, rv, -1), nil, false
		case "*":
			a, b := lv, rv
			if a.ID > b.ID {
				a, b = b, a
			}
			return mk("i*", "", nil, nil, a, b), nil, false
		case "/":
			return mk("i/", "", nil, nil, lv, rv), nil, false
		case "%":
			return mk("i%", "", nil, nil, lv, rv), nil, false
		case "<":
			return nil, mkLess(lv, rv), false
		case ">":
			return nil, mkLess(rv, lv), false
		case "<=":
			return nil, mkNot(mkLess(rv, lv)), false
		case ">=":
			return nil, mkNot(mkLess(lv, rv)), false
		}
	case "*object.Float":
		comm := func(o string) *Term {
			a, b := lv, rv
			if a.ID > b.ID {
				a, b = b, a
			}
			return mk(o, "", nil, nil, a, b)
		}
		switch op {
		case "+":
			return comm("f+"), nil, false
		case "-":
			return mk("f-", "", nil, nil, lv, rv), nil, false
		case "*":
			return comm("f*"), nil, false
		case "/":
			return mk("f/", "", nil, nil, lv, rv), nil, false
		case "<":
			return nil, mk("f<", "", nil, nil, lv, rv), false
		case ">":
			return nil, mk("f<", "", nil, nil, rv, lv), false
		case "<=":
			return nil, mk("f<=", "", nil, nil, lv, rv), false
		case ">=":
			return nil, mk("f<=", "", nil, nil, rv, lv), false
		}
	case "*object.Str":
		if op == "+" {
			return mkCat(lv, rv), nil, false
		}
	default:
		return nil, nil, true
	}
	switch op {
	case "==":
		return nil, eqTerm(lv, rv), false
	case "!=":
		return nil, mkNot(eqTerm(lv, rv)), false
	}
	return nil, nil, true
}

func (c *Checker) evalInfix() {
	c.evalInfixOf("infix", append(append([]string{}, infixOps...), "other"), valueKinds)
}

// evalInfixOf is the table of some operators on some kinds of operands.
func (c *Checker) evalInfixOf(rule string, ops, kinds []string) {
	er := c.evalPaths("*ast.InfixExp", runOpts{})
	if er == nil {
		c.und(rule, "evaluation of infix expressions", "anchor not found")
		return
	}
	opT, lN, rN := er.field("Operator"), er.field("Left"), er.field("Right")
	if opT == nil || lN == nil || rN == nil {
		c.und(rule, "evaluation of infix expressions", "ast.InfixExp has no Operator/Left/Right")
		return
	}
	if rule == "infix" {
		er.errorPropagation("error-propagation", "infix expression")
	}
	short := func(k string) string { return strings.TrimPrefix(k, "*object.") }
	for _, op := range ops {
		for _, lk := range kinds {
			for _, rk := range kinds {
				if op == "other" && lk != rk {
					continue
				}
				name := fmt.Sprintf("%s %s %s", short(lk), op, short(rk))
				zero := []string{""}
				if lk == "*object.Int" && rk == lk && (op == "/" || op == "%") {
					zero = []string{" by zero", " by non-zero"}
				}
				for _, z := range zero {
					cr := c.newCase(rule, name+z)
					for _, p := range er.paths {
						if p.Outcome != "return" {
							continue
						}
						el, _ := er.evalOf(p, lN)
						ert, _ := er.evalOf(p, rN)
						if el == nil || ert == nil {
							// one side is not evaluated: only when the other failed
							one := el
							if one == nil {
								one = ert
							}
							if one == nil || er.isErr(p.Facts, one.Res) != 1 {
								cr.add(vBad, lastPos(p), "a path does not evaluate both operands")
							}
							continue
						}
						f := p.Facts
						if op == "other" {
							for _, o := range infixOps {
								f = c.with(f, mkNot(mkEq(opT, mkStr(o))))
							}
						} else {
							f = c.with(f, mkEq(opT, mkStr(op)))
						}
						f = c.withKind(f, el.Res, lk)
						f = c.withKind(f, ert.Res, rk)
						if f == nil {
							continue
						}
						if z != "" {
							e := mkEq(c.objVal(ert.Res, rk), mkInt(0))
							if z == " by non-zero" {
								e = mkNot(e)
							}
							if f = c.with(f, e); f == nil {
								continue
							}
						}
						ret := er.ret(p)
						v, cond, isErr := (*Term)(nil), (*Term)(nil), true
						if lk == rk {
							v, cond, isErr = c.infixWant(op, lk, el.Res, ert.Res)
						}
						if z == " by zero" {
							isErr = true
						}
						cr.add(er.resultIs(p, f, ret, strings.TrimPrefix(lk, "*"), v, cond, isErr))
					}
					if !er.complete {
						cr.add(vUnd, 0, "path enumeration is incomplete")
					}
					cr.done()
				}
			}
		}
	}
}

// resultIs compares a returned object with an expected value, an expected
// truth condition, or an expected error.
func (er *evalRun) resultIs(p *Path, f *Facts, ret *Term, typ string, v, cond *Term, isErr bool) (verdict, posT, string) {
	c := er.c
	pos := lastPos(p)
	if ret == nil {
		return vUnd, pos, "no result"
	}
	e := er.isErr(f, ret)
	if isErr {
		switch {
		case e == 1:
			return vOK, pos, ""
		case e == 0 && (c.resolvedEval(er, p, ret)):
			return vBad, pos, "returns " + er.renderer(p).str(ret) + " instead of an error"
		}
		return vUnd, pos, "result not resolved: " + er.renderer(p).str(ret)
	}
	if e == 1 {
		if c.resolvedFacts(er, f) {
			return vBad, pos, "returns an error instead of the result"
		}
		return vUnd, pos, "returns an error under a condition that is not resolved"
	}
	if cond != nil {
		w, why := er.boolIs(p, f, ret, cond)
		return w, pos, why
	}
	got := c.objField(p, ret, typ, "Value")
	if got == nil {
		k := f.kind(c.p, ret)
		if !k.Neg && !k.has("*"+typ) && c.resolvedEval(er, p, ret) {
			return vBad, pos, "returns " + er.renderer(p).str(ret)
		}
		return vUnd, pos, "result not resolved: " + er.renderer(p).str(ret)
	}
	if got == v || stripEpoch(got) == stripEpoch(v) {
		return vOK, pos, ""
	}
	if c.resolvedEval(er, p, got) {
		r := er.renderer(p)
		return vBad, pos, "computes " + r.str(got) + ", expected " + r.str(v)
	}
	if v.Op == "cat" && len(v.Args) == 2 {
		// a text on which the values differ
		texts := append(constTexts(got), escapeWitnesses...)
		for _, x := range texts {
			for _, y := range texts {
				env := map[*Term]constant.Value{v.Args[0]: constant.MakeString(x), v.Args[1]: constant.MakeString(y)}
				if g, ok := c.fold(got, env); ok && g.Kind() == constant.String && constant.StringVal(g) != x+y && c.pathFree(p, env) {
					return vBad, pos, fmt.Sprintf("computes %s: %q and %q give %q", er.renderer(p).str(got), x, y, constant.StringVal(g))
				}
			}
		}
	}
	return vUnd, pos, "value not resolved: " + er.renderer(p).str(got)
}

// pathFree: no condition of the path over the constants is known to fail, and
// none mentions them in a way that is not resolved.
func (c *Checker) pathFree(p *Path, env map[*Term]constant.Value) bool {
	for b, want := range p.Facts.bools {
		uses := false
		for t := range env {
			uses = uses || hasTerm(b, t)
		}
		if !uses {
			continue
		}
		if r, ok := c.fold(b, env); !ok || r.Kind() != constant.Bool || constant.BoolVal(r) != want {
			return false
		}
	}
	return true
}

// resolvedFacts: all conditions on the path are over inputs.
func (c *Checker) resolvedFacts(er *evalRun, f *Facts) bool {
	for b := range f.bools {
		bad := false
		b.walk(func(t *Term) bool {
			switch t.Op {
			case "call", "inv", "dyn", "ext", "loopm", "loopv":
				if !er.input(t) {
					bad = true
				}
				return false
			}
			return !bad
		})
		if bad {
			return false
		}
	}
	return true
}

func (c *Checker) evalPrefix() {
	er := c.evalPaths("*ast.PrefixExp", runOpts{})
	if er == nil || er.field("Operator") == nil || er.field("Right") == nil {
		c.und("prefix", "evaluation of prefix expressions", "anchor not found")
		return
	}
	er.errorPropagation("error-propagation", "prefix expression")
	for _, op := range []string{"-", "!"} {
		for _, k := range valueKinds {
			cr := c.newCase("prefix", op+strings.TrimPrefix(k, "*object."))
			for _, p := range er.paths {
				if p.Outcome != "return" {
					continue
				}
				ev, _ := er.evalOf(p, er.field("Right"))
				if ev == nil {
					cr.add(vBad, lastPos(p), "the operand is not evaluated")
					continue
				}
				f := c.withKind(c.with(p.Facts, mkEq(er.field("Operator"), mkStr(op))), ev.Res, k)
				if f == nil {
					continue
				}
				var v, cond *Term
				isErr := true
				ov := c.objVal(ev.Res, k)
				switch {
				case op == "-" && k == "*object.Int":
					v, isErr = linAdd(mkInt(0), ov, -1), false
				case op == "-" && k == "*object.Float":
					v, isErr = mk("fneg", "", nil, nil, ov), false
				case op == "!" && k == "*object.Bool":
					cond, isErr = mkNot(ov), false
				case op == "!" && k == "*object.Nil":
					cond, isErr = mkBool(true), false
				}
				cr.add(er.resultIs(p, f, er.ret(p), strings.TrimPrefix(k, "*"), v, cond, isErr))
			}
			if !er.complete {
				cr.add(vUnd, 0, "path enumeration is incomplete")
			}
			cr.done()
		}
	}
}

func (c *Checker) evalPostfix() {
	er := c.evalPaths("*ast.PostfixExp", runOpts{})
	if er == nil || er.field("Operator") == nil || er.field("Left") == nil {
		c.und("postfix", "evaluation of postfix expressions", "anchor not found")
		return
	}
	er.errorPropagation("error-propagation", "postfix expression")
	for _, op := range []string{"++", "--"} {
		for _, k := range valueKinds {
			cr := c.newCase("postfix", strings.TrimPrefix(k, "*object.")+op)
			known := c.newCase("postfix", "Float-- (through a decimal string)")
			for _, p := range er.paths {
				if p.Outcome != "return" {
					continue
				}
				ev, _ := er.evalOf(p, er.field("Left"))
				if ev == nil {
					cr.add(vBad, lastPos(p), "the operand is not evaluated")
					continue
				}
				f := c.withKind(c.with(p.Facts, mkEq(er.field("Operator"), mkStr(op))), ev.Res, k)
				if f == nil {
					continue
				}
				var v *Term
				isErr := true
				ov := c.objVal(ev.Res, k)
				switch k {
				case "*object.Int":
					isErr = false
					v = addInt(ov, 1)
					if op == "--" {
						v = addInt(ov, -1)
					}
				case "*object.Float":
					isErr = false
					one := mkConst(constInt(1), ov.Typ)
					v = mk("f-", "", nil, nil, ov, one)
					if op == "++" {
						v = mk("f+", "", nil, nil, orderTerms(ov, one)...)
					}
				}
				if k == "*object.Float" && op == "--" {
					w, pos, why, sub := er.floatDec(p, f, er.ret(p), v, ov)
					if sub != "" {
						known.add(w, pos, why)
					} else {
						cr.add(w, pos, why)
					}
					continue
				}
				cr.add(er.resultIs(p, f, er.ret(p), strings.TrimPrefix(k, "*"), v, nil, isErr))
			}
			if !er.complete {
				cr.add(vUnd, 0, "path enumeration is incomplete")
			}
			cr.done()
			if len(known.bad) > 0 {
				known.done()
			}
		}
	}
}

// floatDec: -- on a float. A value that went through a decimal string is not
// the IEEE difference; subtracting 1 from the integer part of the decimal
// string is one construct of its own.
func (er *evalRun) floatDec(p *Path, f *Facts, ret, want, ov *Term) (verdict, posT, string, string) {
	v, pos, why := er.resultIs(p, f, ret, "object.Float", want, nil, false)
	got := er.c.objField(p, ret, "object.Float", "Value")
	if got == nil && er.isErr(f, ret) == 0 {
		// the operand itself, modified in place
		got = p.St.mem[mkFieldAddr("object.Float.Value", mkCast(er.c.p.typeByNm["*object.Float"], ret), nil)]
	}
	if v == vOK || got == nil {
		return v, pos, why, ""
	}
	conv := func(t *Term) bool { return strings.HasPrefix(t.Sym, "strconv.Parse") }
	dec := func(t *Term) bool { // ParseUint(...)#0 - 1 printed in front of "."
		if n, ok := linOffset(t); ok && n == -1 {
			return t.mentions(func(u *Term) bool { return strings.HasPrefix(u.Sym, "strconv.ParseUint") })
		}
		return false
	}
	through := got.mentions(conv) && got.mentions(dec)
	if got == ov || stripEpoch(got) == stripEpoch(ov) {
		for b := range f.bools {
			through = through || b.mentions(conv)
		}
	}
	if through {
		return vBad, pos, "-- subtracts from the integer part of the printed decimal: " + er.renderer(p).str(got), " (through a decimal string)"
	}
	return v, pos, why, ""
}

// linOffset is the constant part of a linear term.
func linOffset(t *Term) (int64, bool) {
	if t.Op != "lin" {
		return 0, false
	}
	return toLinear(t).c, true
}

func (c *Checker) evalTernary() {
	er := c.evalPaths("*ast.TernaryExp", runOpts{})
	if er == nil || er.field("Condition") == nil || er.field("Consequence") == nil || er.field("Alternative") == nil {
		c.und("ternary", "evaluation of the ternary", "anchor not found")
		return
	}
	er.errorPropagation("error-propagation", "ternary expression")
	for _, tc := range c.truthTable() {
		cr := c.newCase("ternary", "condition is "+tc.name)
		want, other := er.field("Consequence"), er.field("Alternative")
		if !tc.truthy {
			want, other = other, want
		}
		for _, p := range er.paths {
			if p.Outcome != "return" {
				continue
			}
			ev, i := er.evalOf(p, er.field("Condition"))
			if ev == nil || i != 0 {
				cr.add(vBad, lastPos(p), "the condition is not evaluated first")
				continue
			}
			if c.onCase(p.Facts, ev.Res, tc) == nil {
				continue
			}
			w, _ := er.evalOf(p, want)
			o, _ := er.evalOf(p, other)
			switch {
			case o != nil:
				cr.add(vBad, o.Pos, "the wrong branch is evaluated")
			case w != nil && er.ret(p) == w.Res:
				cr.add(vOK, w.Pos, "")
			case w == nil:
				cr.add(vBad, lastPos(p), "the selected branch is not evaluated")
			default:
				cr.add(vUnd, lastPos(p), "the result is not the value of the selected branch")
			}
		}
		if !er.complete {
			cr.add(vUnd, 0, "path enumeration is incomplete")
		}
		cr.done()
	}
}

func (c *Checker) evalLiterals() {
	for _, l := range []struct{ node, obj, what string }{
		{"*ast.IntegerLiteral", "object.Int", "integer literal"},
		{"*ast.FloatLiteral", "object.Float", "float literal"},
		{"*ast.BooleanLiteral", "object.Bool", "boolean literal"},
		{"*ast.NilLiteral", "object.Nil", "nil literal"},
	} {
		cr := c.newCase("literal", l.what)
		er := c.evalPaths(l.node, runOpts{})
		if er == nil {
			cr.add(vUnd, 0, "anchor not found")
			cr.done()
			continue
		}
		for _, p := range er.paths {
			if p.Outcome != "return" {
				continue
			}
			ret := er.ret(p)
			switch l.obj {
			case "object.Bool":
				w, why := er.boolIs(p, p.Facts, ret, er.field("Value"))
				cr.add(w, lastPos(p), why)
			case "object.Nil":
				if c.kindOf(p.Facts, ret) == "*object.Nil" {
					cr.add(vOK, lastPos(p), "")
				} else {
					cr.add(vBad, lastPos(p), "nil evaluates to "+er.renderer(p).str(ret))
				}
			default:
				cr.add(er.resultIs(p, p.Facts, ret, l.obj, er.field("Value"), nil, false))
			}
		}
		cr.done()
	}
}

// operandsUnchanged: evaluating an operator gives a new value, the objects its
// operands evaluate to keep their contents (they can be those of variables).
func (c *Checker) operandsUnchanged() {
	c.rule("operands", "evaluating an operator, an index or a property access stores nothing in the objects its operands evaluate to")
	for _, n := range []string{"*ast.InfixExp", "*ast.PrefixExp", "*ast.PostfixExp", "*ast.TernaryExp", "*ast.IndexExp", "*ast.DotExp"} {
		er := c.evalPaths(n, runOpts{})
		if er == nil {
			c.und("operands", baseName(n), "anchor not found")
			continue
		}
		cr := c.newCase("operands", baseName(n))
		if !er.complete {
			cr.add(vUnd, 0, "path enumeration is incomplete")
		}
		for _, p := range er.paths {
			v, pos, why := vOK, lastPos(p), ""
			for _, ev := range p.Events {
				if ev.Fresh || ev.Addr == nil || ev.Kind != "store" && ev.Kind != "mapupdate" {
					continue
				}
				base := addrBase(ev.Addr)
				if isFreshTerm(base) || !er.ofOperand(p, base) {
					continue
				}
				v, pos, why = vBad, ev.Pos, "the operand itself is modified: "+er.renderer(p).str(ev.Addr)+" becomes "+clip(er.renderer(p).str(ev.Val), 200)
			}
			cr.add(v, pos, why)
		}
		cr.done()
	}
}

// ofOperand: the object is the result of an evaluation, or a part of it.
func (er *evalRun) ofOperand(p *Path, base *Term) bool {
	for {
		for _, ev := range er.evals(p) {
			if ev.Res == base {
				return true
			}
		}
		switch base.Op {
		case "cast", "assert", "init", "&f", "&i", "&m", "load", "loopm", "slice", ".f", "index", "mapget":
			if len(base.Args) == 0 {
				return false
			}
			base = base.Args[0]
		default:
			return false
		}
	}
}

// constTexts are the constant texts inside a term.
func constTexts(t *Term) []string {
	var out []string
	t.walk(func(t *Term) bool {
		if s, ok := t.strVal(); ok && len(out) < 8 {
			out = append(out, s, "a"+s+"b")
		}
		return true
	})
	return out
}
