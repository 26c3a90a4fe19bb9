package main

import (
	"fmt"
	"go/types"
	"regexp"
	"strings"
)

// The expected evaluation of every statement node. The tokens are produced by
// evalRun.trace: E(node.X @env) evaluates a child, =X error, =T/F/A truthy,
// falsy, array.

const nv = `new\d+` // an environment enclosed in the current one

// nilness of a node field on a path: 1 nil, 0 set, -1 not decided.
func (er *evalRun) isNil(p *Path, field string) int {
	t := er.field(field)
	if t == nil {
		return -1
	}
	k := p.Facts.kind(er.c.p, t)
	if n, ok := k.single(); ok && n == "nil" {
		return 1
	}
	if r := p.Facts.decide(er.c.p, mkEq(t, mkNil())); r >= 0 {
		return r
	}
	if !k.has("nil") {
		return 0
	}
	return -1
}

type alsoFn func(p *Path) (verdict, string)

func all(fs ...alsoFn) alsoFn {
	return func(p *Path) (verdict, string) {
		for _, f := range fs {
			if v, why := f(p); v != vOK {
				return v, why
			}
		}
		return vOK, ""
	}
}

// absent: the path is taken only when the field is nil.
func (er *evalRun) absent(field string) alsoFn {
	return func(p *Path) (verdict, string) {
		if er.field(field) == nil {
			return vUnd, "no field " + field
		}
		if er.isNil(p, field) == 1 {
			return vOK, ""
		}
		return vBad, "node." + field + " is ignored although it may be present"
	}
}

// loopTerm is the loop-built value inside a term.
func loopTerm(t *Term) *Term {
	var r *Term
	t.walk(func(x *Term) bool {
		if r == nil && (x.Op == "loopv" || x.Op == "loopm") {
			r = x
		}
		return r == nil
	})
	return r
}

// builds: the loop-built part of a field of the result starts as init and
// becomes step in every pass.
func (er *evalRun) builds(typ, field, init, step string) alsoFn {
	return er.buildsIn(field, init, step, func(p *Path) *Term { return er.c.objField(p, p.Ret[0], typ, field) })
}

// buildsRet is builds for the result itself.
func (er *evalRun) buildsRet(init, step string) alsoFn {
	return er.buildsIn("text", init, step, func(p *Path) *Term { return p.Ret[0] })
}

func (er *evalRun) buildsIn(field, init, step string, get func(p *Path) *Term) alsoFn {
	irx, srx := regexp.MustCompile("^(?:"+init+")$"), regexp.MustCompile("^(?:"+step+")$")
	return func(p *Path) (verdict, string) {
		if len(p.Ret) == 0 {
			return vOK, ""
		}
		v := get(p)
		if v == nil {
			return vUnd, "the result's " + field + " is not resolved"
		}
		t := loopTerm(v)
		if t == nil {
			return vUnd, "the result's " + field + " is not built by a loop"
		}
		in, steps, ok := er.c.accum(t, er.paths, er.specRenderer)
		if !ok {
			return vUnd, "the accumulated value is not resolved"
		}
		for _, s := range in {
			if !irx.MatchString(s) {
				return vBad, "the accumulated value starts as " + s
			}
		}
		for _, s := range steps {
			if !srx.MatchString(s) {
				if regexp.MustCompile(`loop[vm]|inv|dyn|unknown`).MatchString(s) {
					return vUnd, "a pass makes the accumulated value " + s
				}
				return vBad, "a pass makes the accumulated value " + s + ", expected " + step
			}
		}
		return vOK, ""
	}
}

const emptyInit = `""|nil|\[\]`

func (c *Checker) node(kind string) *evalRun {
	if c.nodes == nil {
		c.nodes = map[string]*evalRun{}
	}
	er, ok := c.nodes[kind]
	if !ok {
		er = c.evalNode("*ast." + kind)
		c.nodes[kind] = er
		if er != nil {
			c.paths += len(er.paths)
		}
	}
	return er
}

func (c *Checker) nodeSpec(rule, kind string, f func(er *evalRun) []alt) {
	er := c.node(kind)
	if er == nil {
		c.und(rule, "evaluation of "+kind, "anchor not found")
		return
	}
	er.spec(rule, "evaluation of "+kind, f(er))
}

// E of a child, error and not.
func eX(n string) string  { return "~" + eRx(n) + "=X" }
func eOK(n string) string { return "~" + eRx(n) + "=AFT" }
func eT(n string) string  { return "~" + eRx(n) + "=(?:T|AT|A)" }
func eF(n string) string  { return "~" + eRx(n) + "=F" }
func eAny(n string) string {
	return "~" + eRx(n)
}
func eRx(n string) string {
	return `E\(` + n + `\)`
}
func rE(n string) string { return "~" + eRx(n) }

const inNew = ` @` + nv
const maybeNew = `(?: @` + nv + `)?`

func nd(f string) string { return `node\.` + f }

func (c *Checker) specIf(rule string) {
	c.nodeSpec(rule, "IfStmt", func(er *evalRun) []alt {
		cond := nd("Condition") + maybeNew
		ac := nd(`Alternatives\[k1\]\.Condition`) + maybeNew
		ab := nd(`Alternatives\[k1\]\.Consequence`) + inNew
		blk := nd("Consequence") + inNew
		return []alt{
			{toks: []string{eX(cond)}, ret: rE(cond)},
			{toks: []string{eT(cond), eAny(blk)}, ret: rE(blk)},
			{toks: []string{eF(cond), "loop1", eX(ac), "exit1"}, ret: rE(ac)},
			{toks: []string{eF(cond), "loop1", eF(ac), "back1"}},
			{toks: []string{eF(cond), "loop1", eT(ac), "exit1", eAny(ab) + ""}, ret: rE(ab)},
			{toks: []string{eF(cond), "loop1", eT(ac), eAny(ab), "exit1"}, ret: rE(ab), opt: true},
			{toks: []string{eF(cond), "loop1", "exit1(node.Alternatives)", eAny(nd("Alternative") + inNew)}, ret: rE(nd("Alternative") + inNew)},
			{toks: []string{eF(cond), "loop1", "exit1(node.Alternatives)"}, ret: "Nil{} | nil", also: er.absent("Alternative")},
		}
	})
}

func (c *Checker) specTernary(rule string) {
	c.nodeSpec(rule, "TernaryExp", func(er *evalRun) []alt {
		cond := nd("Condition")
		return []alt{
			{toks: []string{eX(cond)}, ret: rE(cond)},
			{toks: []string{eT(cond), eAny(nd("Consequence"))}, ret: rE(nd("Consequence"))},
			{toks: []string{eF(cond), eAny(nd("Alternative"))}, ret: rE(nd("Alternative"))},
		}
	})
}

func (c *Checker) specControl(rule string) {
	for _, k := range []string{"Break", "Continue"} {
		k := k
		c.nodeSpec(rule, k+"IfStmt", func(er *evalRun) []alt {
			cond := nd("Condition")
			return []alt{
				{toks: []string{eX(cond)}, ret: rE(cond)},
				{toks: []string{eT(cond)}, ret: k + "{}"},
				{toks: []string{eF(cond)}, ret: "Nil{}"},
			}
		})
		c.nodeSpec(rule, k+"Stmt", func(er *evalRun) []alt { return []alt{{ret: k + "{}"}} })
	}
}

func (c *Checker) specProgram(rule string) {
	c.nodeSpec(rule, "Program", func(er *evalRun) []alt {
		st := nd(`Statements\[k1\]`)
		return []alt{
			{toks: []string{"loop1", eX(st), "exit1"}, ret: rE(st)},
			{toks: []string{"loop1", eOK(st), "back1"}},
			{toks: []string{"loop1", "exit1(node.Statements)"}, ret: "HTML{Value: acc1}", also: er.builds("object.HTML", "Value", emptyInit, `cat\(acc String\(E\(node\.Statements\[k1\]\)\)\)`)},
		}
	})
}

func (c *Checker) specBlock(rule string) {
	c.nodeSpec(rule, "BlockStmt", func(er *evalRun) []alt {
		st := nd(`Statements\[k1\]`)
		e := eRx(st)
		br, ct := `hasBreakStmt\(`+e+`\)`, `hasContinueStmt\(`+e+`\)`
		step := `acc\+\+\[E\(node\.Statements\[k1\]\)\]`
		return []alt{
			{toks: []string{"loop1", eX(st), "exit1"}, ret: rE(st)},
			{toks: []string{"loop1", eOK(st), "~" + br + "=F; " + ct + "=F | ~" + ct + "=F; " + br + "=F", "back1"}},
			{toks: []string{"loop1", eOK(st), "~" + br + "=T(?:; " + ct + ")? | ~" + ct + "=F; " + br + "=T", "exit1"}, ret: `~Block\{Elements: acc1\+\+\[` + e + `\]\}`, also: er.builds("object.Block", "Elements", emptyInit, step)},
			{toks: []string{"loop1", eOK(st), "~" + br + "=F; " + ct + "=T | ~" + ct + "=T(?:; " + br + ")?", "exit1"}, ret: `~Block\{Elements: acc1\+\+\[` + e + `\]\}`, also: er.builds("object.Block", "Elements", emptyInit, step)},
			{toks: []string{"loop1", "exit1(node.Statements)"}, ret: "Block{Elements: acc1}", also: er.builds("object.Block", "Elements", emptyInit, step)},
		}
	})
}

func (c *Checker) specText(rule string) {
	c.nodeSpec(rule, "HTMLStmt", func(er *evalRun) []alt { return []alt{{ret: "HTML{Value: node.Token.Literal}"}} })
	c.nodeSpec(rule, "ExpressionStmt", func(er *evalRun) []alt {
		e := nd("Expression")
		return []alt{
			{toks: []string{eAny(e)}, ret: rE(e)},
			{toks: []string{eX(e)}, ret: rE(e), opt: true},
			{toks: []string{eOK(e)}, ret: rE(e), opt: true},
		}
	})
}

func (c *Checker) specAssign(rule string) {
	c.nodeSpec(rule, "AssignStmt", func(er *evalRun) []alt {
		v := nd("Value")
		set := `Set\(env, node\.Name\.Value, ` + eRx(v) + `\)`
		return []alt{
			{toks: []string{eX(v)}, ret: rE(v)},
			{toks: []string{eOK(v), "~" + set + "=ok"}, ret: "Nil{}"},
			{toks: []string{eOK(v), "~" + set + "=err"}, ret: "Error"},
		}
	})
}

// lenIs: on this path the list is known to be empty (want 1) or not (0).
func (er *evalRun) eachEmpty(want int) alsoFn {
	return func(p *Path) (verdict, string) {
		ev, _ := er.evalOf(p, er.field("Array"))
		if ev == nil {
			return vUnd, "the list is not evaluated"
		}
		l := er.c.objFld(ev.Res, "*object.Array", "Elements")
		if l == nil {
			return vUnd, "object.Array has no Elements"
		}
		d := p.Facts.decide(er.c.p, eqTerm(mkLen(l), mkInt(0)))
		if d == want {
			return vOK, ""
		}
		if want == 1 {
			return vBad, "the else body is rendered although the list may have elements"
		}
		if er.isNil(p, "Alternative") == 1 {
			return vOK, ""
		}
		return vBad, "the else body is skipped although the list may be empty"
	}
}

func (c *Checker) specEach(rule string) {
	c.nodeSpec(rule, "EachStmt", func(er *evalRun) []alt {
		arr := nd("Array") + maybeNew
		ae := eRx(arr)
		isA := "~" + ae + "=A"
		blk := nd("Block") + inNew
		be := eRx(blk)
		alt1 := nd("Alternative") + maybeNew
		set := `Set\(` + nv + `, node\.Var\.Value, ` + ae + `\.Elements\[k1\]\)`
		slv := `SetLoopVar\(` + nv + `, .*?\)`
		bind := "~" + set + "=ok; " + slv + " | ~" + slv + "; " + set + "=ok"
		step := `cat\(acc String\(` + be + `\)\)`
		cont := `(?:hasContinueStmt\(` + be + `\)(?:=[TF])?; )?`
		build := er.builds("object.HTML", "Value", emptyInit, step)
		return []alt{
			{toks: []string{eX(arr)}, ret: "~" + ae},
			{toks: []string{isA, eAny(alt1)}, ret: rE(alt1), also: er.eachEmpty(1)},
			{toks: []string{isA, "loop1", "~exit1\\(" + ae + `\.Elements\)`}, ret: "HTML{Value: acc1}", also: all(build, er.eachPre)},
			{toks: []string{isA, "loop1", "~(?:" + slv + "; )?" + set + "=err", "exit1"}, ret: "Error"},
			{toks: []string{isA, "loop1", bind, eX(blk), "exit1"}, ret: "~" + be},
			{toks: []string{isA, "loop1", bind, eOK(blk), "~" + cont + `hasBreakStmt\(` + be + `\)=T(?:; hasContinueStmt\(` + be + `\)(?:=[TF])?)?`, "exit1"}, ret: `~HTML\{Value: cat\(acc1 String\(` + be + `\)\)\}`, also: build},
			{toks: []string{isA, "loop1", bind, eOK(blk), "~" + cont + `hasBreakStmt\(` + be + `\)=F(?:; hasContinueStmt\(` + be + `\)(?:=[TF])?)?`, "back1"}, also: er.loopMeta},
			{toks: []string{"~" + ae + "=FT"}, ret: "Error"},
		}
	})
}

// eachPre: a path that loops has skipped the else body rightly.
func (er *evalRun) eachPre(p *Path) (verdict, string) {
	if er.isNil(p, "Alternative") == 1 {
		return vOK, ""
	}
	// the loop is reached with a list that may be empty: only right when the
	// else body has been taken for the empty one
	ev, _ := er.evalOf(p, er.field("Array"))
	if ev == nil {
		return vUnd, "the list is not evaluated"
	}
	l := er.c.objFld(ev.Res, "*object.Array", "Elements")
	var f *Facts
	for _, e := range p.Events {
		if e.Kind == "loop" {
			f = e.Facts
		}
	}
	if l == nil || f == nil {
		return vUnd, "the loop is not resolved"
	}
	if f.decide(er.c.p, eqTerm(mkLen(l), mkInt(0))) == 0 || er.nilUnder(f, "Alternative") {
		return vOK, ""
	}
	return er.eachEmpty(0)(p)
}

func (er *evalRun) nilUnder(f *Facts, field string) bool {
	q := &Path{Facts: f}
	return er.isNil(q, field) == 1
}

// loopMeta: the fields of the loop object in one pass.
func (er *evalRun) loopMeta(p *Path) (verdict, string) {
	c := er.c
	ev, _ := er.evalOf(p, er.field("Array"))
	if ev == nil {
		return vUnd, "the list is not evaluated"
	}
	n := mkLen(c.objFld(ev.Res, "*object.Array", "Elements"))
	k := mkLoopK("L1")
	var arg *Term
	for _, e := range p.Events {
		if e.Kind == "call" && e.Fn == "object.Env.SetLoopVar" {
			arg = e.Args[1]
		}
	}
	if arg == nil {
		return vUnd, "the loop variable is not set"
	}
	got := map[string]*Term{}
	for _, e := range p.Events {
		if e.Kind == "mapupdate" && e.Addr == arg && len(e.Args) > 0 {
			if s, ok := e.Args[0].strVal(); ok {
				got[s] = e.Val
			}
		}
	}
	if len(got) == 0 {
		return vUnd, "the fields of the loop object are not resolved"
	}
	f := p.Facts
	for name, want := range map[string]*Term{"index": k, "iter": addInt(k, 1)} {
		v := got[name]
		if v == nil {
			return vBad, "loop." + name + " is missing"
		}
		x := c.objField(p, v, "object.Int", "Value")
		if x == nil {
			return vUnd, "loop." + name + " is not resolved"
		}
		if x == want || f.decide(c.p, eqTerm(x, want)) == 1 {
			continue
		}
		if er.metaKnown(p, x) {
			return vBad, fmt.Sprintf("loop.%s is %s, expected %s", name, er.specRenderer(p).str(x), er.specRenderer(p).str(want))
		}
		return vUnd, "loop." + name + " is not resolved"
	}
	for name, want := range map[string]*Term{"first": eqTerm(k, mkInt(0)), "last": eqTerm(k, addInt(n, -1))} {
		v := got[name]
		if v == nil {
			return vBad, "loop." + name + " is missing"
		}
		if vd, why := er.boolIs(p, f, v, want); vd != vOK {
			if x := c.objField(p, v, "object.Bool", "Value"); x != nil && (x.isTrue() || x.isFalse()) && er.factsKnown(p) {
				vd, why = vBad, "the value does not follow `"+er.specRenderer(p).str(want)+"`"
			}
			return vd, "loop." + name + ": " + why
		}
	}
	return vOK, ""
}

func (er *evalRun) metaKnown(p *Path, x *Term) bool { return er.c.resolved(p, x, er.specInput) }

func (c *Checker) specFor(rule string) {
	c.nodeSpec(rule, "ForStmt", func(er *evalRun) []alt {
		init := `(?:E\(node\.Init @` + nv + `\)=AFT; )?`
		cond := nd("Condition") + inNew
		blk := nd("Block") + inNew
		be := eRx(blk)
		post := nd("Post") + inNew
		pe := eRx(post)
		pre := `(?:E\(node\.Condition @` + nv + `\)=(?:F|T|A|AT|AFT); )?`
		head := "~" + init + pre + "loop1"
		pass := `(?:E\(node\.Condition @` + nv + `\)=(?:T|AT|A); )?`
		build := er.builds("object.HTML", "Value", emptyInit, `cat\(acc String\(`+be+`\)\)`)
		cont := `(?:; hasContinueStmt\(` + be + `\)(?:=[TF])?)?`
		brT := `hasBreakStmt\(` + be + `\)=T` + cont
		brF := `hasBreakStmt\(` + be + `\)=F` + cont
		set := `Set\(` + nv + `, node\.(?:Post\.Expression\.Left\.Value|Init\.Name\.Value), ` + pe + `\)`
		ok := all(er.forClauses, er.forElse)
		return []alt{
			{toks: []string{eX(nd("Init") + inNew)}, ret: rE(nd("Init") + inNew)},
			{toks: []string{"~" + init + eRx(cond) + "=X"}, ret: rE(cond), also: er.forClauses},
			{toks: []string{"~" + init + eRx(cond) + "=F", eAny(nd("Alternative") + inNew)}, ret: rE(nd("Alternative") + inNew), also: er.forClauses},
			{toks: []string{head, eX(cond), "exit1"}, ret: rE(cond), also: ok},
			{toks: []string{head, eF(cond), "exit1"}, ret: "HTML{Value: acc1}", also: all(ok, build)},
			{toks: []string{head, "~" + pass + be + "=X", "exit1"}, ret: "~" + be, also: ok},
			{toks: []string{head, "~" + pass + be + "=AFT; " + brT, "exit1"}, ret: `~HTML\{Value: cat\(acc1 String\(` + be + `\)\)\}`, also: all(ok, build)},
			{toks: []string{head, "~" + pass + be + "=AFT; " + brF + "; " + pe + "=X", "exit1"}, ret: "~" + pe, also: ok},
			{toks: []string{head, "~" + pass + be + "=AFT; " + brF + "; " + pe + "=AFT; " + set + "=err", "exit1"}, ret: "Error", also: all(ok, er.forPost)},
			{toks: []string{head, "~" + pass + be + "=AFT; " + brF + "; " + pe + "=AFT; " + set + "=ok", "back1"}, also: all(ok, er.forPost)},
			{toks: []string{head, "~" + pass + be + "=AFT; " + brF + "; " + pe + "=AFT", "back1"}, also: all(ok, er.forPost)},
			{toks: []string{head, "~" + pass + be + "=AFT; " + brF, "back1"}, also: all(ok, er.absent("Post"))},
		}
	})
}

// forClauses: a clause that is not evaluated is absent.
func (er *evalRun) forClauses(p *Path) (verdict, string) {
	seen := map[string]int{}
	loop := false
	inLoop := false
	for _, ev := range p.Events {
		switch {
		case ev.Kind == "loop":
			loop = true
		case ev.Kind == "call" && ev.Fn == evalFn:
			for _, n := range []string{"Init", "Condition"} {
				if sameNode(ev.Args[1], er.field(n)) {
					seen[n]++
					if loop && n == "Condition" {
						inLoop = true
					}
				}
			}
		}
	}
	if seen["Init"] == 0 && er.isNil(p, "Init") != 1 {
		return vBad, "the init clause is not evaluated"
	}
	if loop && !inLoop && er.isNil(p, "Condition") != 1 {
		return vBad, "the condition is not evaluated before a pass"
	}
	return vOK, ""
}

// forElse: the loop is entered with a false condition only without else body.
func (er *evalRun) forElse(p *Path) (verdict, string) {
	if er.isNil(p, "Alternative") == 1 || er.isNil(p, "Condition") == 1 {
		return vOK, ""
	}
	for _, ev := range p.Events {
		if ev.Kind == "loop" {
			break
		}
		if ev.Kind == "call" && ev.Fn == evalFn && sameNode(ev.Args[1], er.field("Condition")) {
			if k := er.classes(p.Facts, ev.Res); !strings.Contains(k, "F") && !strings.Contains(k, "X") {
				return vOK, ""
			}
			return vBad, "the loop is entered although the condition may be false and there is an else body"
		}
	}
	return vUnd, "the else body may be handled elsewhere"
}

// forPost: the value of the post clause is stored in its variable.
func (er *evalRun) forPost(p *Path) (verdict, string) {
	c := er.c
	post := er.field("Post")
	if post == nil {
		return vUnd, "no post clause"
	}
	var set *Event
	for _, ev := range p.Events {
		if ev.Kind == "call" && ev.Fn == "object.Env.Set" {
			set = ev
		}
	}
	k := p.Facts.kind(c.p, post)
	if n, ok := k.single(); ok && n == "*ast.AssignStmt" || !k.has("*ast.ExpressionStmt") {
		if set != nil {
			return vBad, "the result of an assignment is stored again"
		}
		return vOK, ""
	}
	if set == nil {
		// an expression: nothing to store it in
		if k.has("*ast.ExpressionStmt") {
			in := er.field("Init")
			ik := p.Facts.kind(c.p, in)
			if ik.has("*ast.AssignStmt") {
				return vBad, "the value of the post clause is dropped"
			}
		}
		return vOK, ""
	}
	name := er.specRenderer(p).str(set.Args[1])
	if name == "node.Init.Name.Value" {
		// the post clause has no variable of its own
		es := mkCast(c.p.typeByNm["*ast.ExpressionStmt"], post)
		if x := c.fieldOf(es, "*ast.ExpressionStmt", "Expression"); x != nil {
			xk := p.Facts.kind(c.p, x)
			if n, ok := xk.single(); ok && n == "*ast.PostfixExp" {
				l := c.fieldOf(mkCast(c.p.typeByNm["*ast.PostfixExp"], x), "*ast.PostfixExp", "Left")
				if l != nil && p.Facts.kind(c.p, l).has("*ast.Identifier") {
					return vBad, "the value of `x++` is stored in the variable of the init clause"
				}
			} else if xk.has("*ast.PostfixExp") {
				return vBad, "the value of `x++` is stored in the variable of the init clause"
			}
		}
	}
	return vOK, ""
}

// fieldOf reads a field of a struct of the program through a pointer.
func (c *Checker) fieldOf(base *Term, kind, field string) *Term {
	typ := c.p.typeByNm[kind]
	if typ == nil || base == nil {
		return nil
	}
	pt, ok := typ.(*types.Pointer)
	if !ok {
		return nil
	}
	s, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == field {
			return mkInit(mkFieldAddr(fieldOwner(pt.Elem(), i), base, types.NewPointer(s.Field(i).Type())), "", s.Field(i).Type())
		}
	}
	return nil
}
