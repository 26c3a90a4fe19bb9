package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C11"] = checkC11 }

func checkC11(c *Checker) {
	c.rule("table", "every built-in of the language is in the function table of its receiver type")
	c.rule("contract", "under every case of its contract (kinds, numbers and ranges of the arguments), each path of the built-in returns the value the contract gives, or an error for wrong arguments")
	c.rule("segments", "an array built by a built-in holds exactly the elements of its sources at the positions of the contract")
	c.rule("purity", "no instruction reachable from a built-in writes memory reachable from the receiver or the arguments (points-to analysis)")
	c.rule("utf8", "no built-in cuts or indexes the bytes of a string at a position that need not be a character boundary")
	c.rule("precedence", "a call looks the name up in the built-in table of the receiver's type before the custom functions")
	tab := c.builtinTable()
	if len(tab) == 0 {
		c.und("table", "function table", "not resolved")
		return
	}
	c.builtinContracts(tab)
	c.builtinPurity(tab)
	c.builtinUTF8(tab)
	c.callRules("precedence", true)
}

var builtinNames = map[string][]string{
	"*object.Str":   {"len", "split", "raw", "trim", "trimRight", "trimLeft", "upper", "lower", "capitalize", "reverse", "contains", "truncate", "decimal", "at", "first", "last", "repeat"},
	"*object.Array": {"len", "join", "rand", "reverse", "slice", "shuffle", "contains", "append", "prepend"},
	"*object.Float": {"int", "str", "abs", "ceil", "floor", "round"},
	"*object.Int":   {"float", "abs", "str", "len", "decimal"},
	"*object.Bool":  {"binary", "then"},
}

// bfun is a built-in under analysis.
type bfun struct {
	c        *Checker
	er       *evalRun
	kind     string // receiver kind
	name     string
	recv     *Term
	args     *Term
	argsType types.Type
}

// R is the value of the receiver.
func (b *bfun) R() *Term {
	if b.kind == "*object.Array" {
		return b.c.objFld(b.recv, b.kind, "Elements")
	}
	return b.c.objVal(b.recv, b.kind)
}

func (b *bfun) arg(i int64) *Term {
	et := b.argsType.(*types.Slice).Elem()
	return mkInit(mk("&i", "", types.NewPointer(et), nil, b.args, mkInt(i)), "", et)
}

func (b *bfun) nargs() *Term { return mkLen(b.args) }

// runes is the list of characters of a string value.
func runes(s *Term) *Term {
	return mk("conv", "[]rune", types.NewSlice(types.Typ[types.Rune]), nil, s)
}

// bcase is one case of a contract.
type bcase struct {
	name  string
	conds []*Term
	kinds []bkind
	want  []string // renderings of the value; "ERR" an error
	opt   bool     // the implementation need not separate this case
	fold  map[*Term]*Term
}

type bkind struct {
	t    *Term
	kind string
	not  bool
}

func (b *bfun) lt(x, y *Term) *Term { return mkLess(x, y) }
func (b *bfun) le(x, y *Term) *Term { return mkNot(mkLess(y, x)) }

func (b *bfun) has(n int64) *Term   { return mkLess(mkInt(n-1), b.nargs()) } // at least n arguments
func (b *bfun) hasNo(n int64) *Term { return mkNot(b.has(n)) }

const sR = "s.Value"

func (c *Checker) builtinContracts(tab map[string]*ssa.Function) {
	var kinds []string
	for k := range builtinNames {
		kinds = append(kinds, k)
	}
	sort.Strings(kinds)
	for _, k := range kinds {
		tc := c.typeConst(k)
		tn, ok := "", false
		if tc != nil {
			tn, ok = tc.strVal()
		}
		if !ok {
			c.und("table", k, "the type name is not resolved")
			continue
		}
		for _, n := range builtinNames[k] {
			label := strings.TrimPrefix(k, "*object.") + "." + n
			f := tab[tn+"."+n]
			if f == nil {
				pos := token.NoPos
				if g := c.p.globalVar("evaluator", "functions"); g != nil {
					pos = g.Pos()
					c.bad("table", label, pos, "the built-in is not in the function table")
				} else {
					c.und("table", label, "the built-in is not in the function table")
				}
				continue
			}
			c.ok("table", label, f.Pos())
			c.contract(k, n, label, f)
		}
	}
}

func (c *Checker) newBuiltin(k, n string, f *ssa.Function) *bfun {
	if len(f.Params) != 3 {
		return nil
	}
	sl, ok := f.Params[2].Type().Underlying().(*types.Slice)
	if !ok {
		return nil
	}
	args := rootParams(f)
	facts := newFacts().setKind(args[1], ksOf(k))
	er := c.fnRun(f, []string{"ctx", "s", "args"}, runOpts{args: args, facts: facts, onRec: true}, map[string]string{"evaluator.isEqual": "isEqual"})
	if er == nil {
		return nil
	}
	return &bfun{c: c, er: er, kind: k, name: n, recv: args[1], args: args[2], argsType: sl}
}

func (c *Checker) contract(k, n, label string, f *ssa.Function) {
	b := c.newBuiltin(k, n, f)
	if b == nil {
		c.und("contract", label, "the function has an unexpected form")
		return
	}
	switch k + "." + n {
	case "*object.Str.split", "*object.Str.reverse", "*object.Array.join", "*object.Array.reverse", "*object.Array.append", "*object.Array.prepend", "*object.Array.shuffle", "*object.Array.contains":
		b.loopContract(label)
		return
	}
	cases := b.cases()
	if cases == nil {
		c.und("contract", label, "no contract")
		return
	}
	for _, bc := range cases {
		b.check(label, bc)
	}
}

// check compares the paths that are consistent with a case.
func (b *bfun) check(label string, bc bcase) { b.checkRule("contract", label, bc) }

func (b *bfun) checkRule(rule, label string, bc bcase) {
	cr := b.c.newCase(rule, label+": "+bc.name)
	if !b.er.complete {
		cr.add(vUnd, 0, "path enumeration is incomplete")
	}
	for _, p := range b.er.paths {
		if p.Outcome == "panic" {
			continue
		}
		f := b.under(p, bc)
		if f == nil {
			continue
		}
		v, why := b.result(p, f, bc.want)
		cr.add(v, lastPos(p), why)
	}
	if bc.opt && cr.ok == 0 && len(cr.bad) == 0 && len(cr.und) == 0 {
		return
	}
	cr.done()
}

func (b *bfun) under(p *Path, bc bcase) *Facts {
	f := p.Facts
	for _, k := range bc.kinds {
		ks := f.kind(b.c.p, k.t).filter(func(s string) bool { return (s == k.kind) != k.not && s != "nil" })
		if ks.empty() {
			return nil
		}
		f = f.setKind(k.t, ks).propagate2(b.c.p)
		if f == nil {
			return nil
		}
	}
	f = b.c.with(f, bc.conds...)
	if f != nil && b.kind == "*object.Str" {
		// a string is empty just when it has no characters
		R := b.R()
		n := mkLen(runes(R))
		switch {
		case f.decide(b.c.p, mkEq(R, mkStr(""))) == 1 || f.decide(b.c.p, mkEq(mkLen(R), mkInt(0))) == 1:
			f = b.c.with(f, mkEq(n, mkInt(0)), mkEq(R, mkStr("")))
		case f.decide(b.c.p, mkEq(R, mkStr(""))) == 0 || f.decide(b.c.p, mkLess(mkInt(0), mkLen(R))) == 1:
			f = b.c.with(f, mkLess(mkInt(0), n))
		}
	}
	if f != nil && bc.fold != nil && b.c.substFacts(p.Facts, bc.fold) == nil {
		return nil
	}
	return f
}

var libCalls = regexp.MustCompile(`[\w/]+\.[A-Z]\w*\(`)

// library functions whose results the contracts can tell apart.
var contractLib = map[string]bool{"strings.Trim(": true, "strings.TrimLeft(": true, "strings.TrimRight(": true, "strings.TrimSpace(": true, "strings.ToUpper(": true,
	"strings.ToLower(": true, "strings.ToTitle(": true, "strings.Title(": true, "strings.Repeat(": true, "strings.Contains(": true, "strings.ContainsAny(": true,
	"strings.HasPrefix(": true, "strings.HasSuffix(": true, "strings.TrimPrefix(": true, "strings.TrimSuffix(": true,
	"html.UnescapeString(": true, "html.EscapeString(": true, "math.Round(": true, "math.Ceil(": true, "math.Floor(": true, "math.Trunc(": true, "math.RoundToEven(": true,
	"strconv.FormatFloat(": true, "strconv.FormatInt(": true, "unicode/utf8.DecodeRuneInString(": true, "strings.EqualFold(": true, "utf8.DecodeRuneInString(": true, "utf8.DecodeLastRuneInString(": true}

// result judges the value a path returns.
func (b *bfun) result(p *Path, f *Facts, want []string) (verdict, string) {
	c := b.c
	if p.Outcome != "return" || len(p.Ret) != 2 {
		return vUnd, "a path does not return"
	}
	tr, unknown := b.er.trace(p)
	if unknown || hasLoop(p) {
		return vUnd, "the path `" + tr + "` is not resolved"
	}
	if !b.er.factsKnown(p) {
		return vUnd, "a condition is not resolved"
	}
	q := *p
	q.Facts = f
	r := b.er.specRenderer(&q)
	got := r.str(p.Ret[0])
	errv := b.er.nilRet(f, p.Ret[1])
	for _, w := range want {
		if w == "ERR" {
			if errv == 0 {
				return vOK, ""
			}
			continue
		}
		if errv == 1 && regexp.MustCompile("^"+tokRx(w)+"$").MatchString(got) {
			return vOK, ""
		}
	}
	if errv < 0 {
		return vUnd, "it is not known whether the path returns an error"
	}
	// calls that the contracts cannot interpret
	for _, t := range []*Term{p.Ret[0]} {
		if !c.resolved(p, t, b.er.specInput) {
			return vUnd, "the result " + got + " is not resolved"
		}
		for _, m := range libCalls.FindAllString(got, -1) {
			if !contractLib[m] {
				return vUnd, "the result " + got + " uses " + m + ")"
			}
		}
	}
	for fb := range p.Facts.bools {
		bad := ""
		fb.walk(func(t *Term) bool {
			if t.Op == "call" && !contractLib[strings.SplitN(t.Sym, "#", 2)[0]+"("] && t.Sym != "strconv.Atoi" {
				bad = t.Sym
			}
			return true
		})
		if bad != "" {
			return vUnd, "a condition uses " + bad
		}
	}
	if errv == 0 {
		got = "an error"
	} else {
		g, known := b.degenerate(f, got)
		for _, w := range want {
			if x, _ := b.degenerate(f, w); x == g {
				return vOK, ""
			}
		}
		if known && libCalls.MatchString(g) {
			return vUnd, "the result " + g + " is not resolved"
		}
		for _, w := range want {
			if x, _ := b.degenerate(f, w); known && (libCalls.MatchString(x) || strings.ContainsAny(x, "~")) {
				return vUnd, "the expected result " + x + " is not resolved"
			}
		}
	}
	if g, _ := b.degenerate(f, got); errv == 1 && b.kind == "*object.Str" && g == "Str{Value: s.Value}" {
		// the text as it is, where it is known to have none of the bytes
		for _, w := range want {
			if w == "Str{Value: html.UnescapeString(s.Value)}" && c.absentBytes(f, b.R())['&'] {
				return vOK, ""
			}
		}
		if b.name != "raw" {
			for fb := range p.Facts.bools {
				if fb.mentions(func(t *Term) bool {
					return t.Op == "call" && strings.HasPrefix(t.Sym, "strings.") && len(t.Args) > 0 && t.Args[0] == b.R()
				}) {
					return vUnd, "the text is kept on a condition that is not resolved"
				}
			}
		}
	}
	return vBad, fmt.Sprintf("the result is %s, expected %s", got, strings.Join(want, " or "))
}

var (
	trimBoth     = regexp.MustCompile(`strings\.Trim(Left|Right)\(strings\.Trim(Left|Right)\((s\.Value|""), ([^()]+)\), ([^()]+)\)`)
	emptyCall    = regexp.MustCompile(`(?:strings\.(?:Trim|TrimLeft|TrimRight|TrimPrefix|TrimSuffix|TrimSpace|ToUpper|ToLower|ToTitle|Repeat)|html\.(?:Unescape|Escape)String)\(""(?:, [^()]+)?\)`)
	containsNone = regexp.MustCompile(`strings\.(?:Contains|HasPrefix|HasSuffix)\([^()]+, ""\)`)
	trimNone     = regexp.MustCompile(`strings\.(?:Trim|TrimLeft|TrimRight|TrimPrefix|TrimSuffix)\(([^()]+), ""\)`)
	repeatNone   = regexp.MustCompile(`strings\.Repeat\(([^()]+), (0|1)\)`)
	emptyPart    = regexp.MustCompile(`\[\]rune\(""\)(\[[^\]]*\])?`)
	cutNothing   = regexp.MustCompile(`s\.Elements\[(?:0?:0|len\(s\.Elements\):(?:len\(s\.Elements\))?)\]`)
)

// degenerate rewrites a rendered value with what is known about empty
// strings, zero counts and empty lists; known is true when anything applied.
func (b *bfun) degenerate(f *Facts, s string) (string, bool) {
	c := b.c
	old := s
	known := false
	emptyOf := func(t *Term) bool {
		return f.decide(c.p, mkEq(t, mkStr(""))) == 1 || f.decide(c.p, mkEq(mkLen(t), mkInt(0))) == 1
	}
	if b.kind == "*object.Str" && emptyOf(b.R()) {
		known = true
		if s == "s" {
			s = "Str{Value: s.Value}"
		}
		s = strings.ReplaceAll(s, "s.Value", `""`)
	} else if s == "s" {
		s = strings.TrimPrefix(b.kind, "*object.") + "{Value: s.Value}"
		if b.kind == "*object.Array" {
			s = "Array{Elements: s.Elements}"
		}
	}
	if b.kind == "*object.Array" {
		if f.decide(c.p, mkEq(mkLen(b.R()), mkInt(0))) == 1 {
			known = true
			s = regexp.MustCompile(`s\.Elements(\[[^\]]*\])?`).ReplaceAllString(s, "[]")
		}
	}
	for i := int64(0); i < 2; i++ {
		a := b.arg(i)
		name := fmt.Sprintf("args[%d].Value", i)
		if sv := c.objVal(a, "*object.Str"); f.kind(c.p, a).has("*object.Str") && emptyOf(sv) {
			known = true
			s = strings.ReplaceAll(s, name, `""`)
		}
		if iv := c.objVal(a, "*object.Int"); f.kind(c.p, a).has("*object.Int") {
			if k, ok := f.constOf(iv); ok {
				known = true
				s = strings.ReplaceAll(s, name, fmt.Sprint(k))
			}
			if k, ok := f.sameAs(c.p, iv, mkLen(b.R())); ok {
				known = true
				s = strings.ReplaceAll(s, name, k)
			}
			if i == 1 && f.decide(c.p, mkEq(iv, c.objVal(b.arg(0), "*object.Int"))) == 1 {
				known = true
				s = strings.ReplaceAll(s, name, "args[0].Value")
			}
		}
	}
	for {
		n := s
		n = trimBoth.ReplaceAllStringFunc(n, func(m string) string {
			x := trimBoth.FindStringSubmatch(m)
			if x[1] == x[2] || x[4] != x[5] {
				return m
			}
			known = true
			return "strings.Trim(" + x[3] + ", " + x[4] + ")"
		})
		n = emptyCall.ReplaceAllString(n, `""`)
		n = containsNone.ReplaceAllString(n, "true")
		n = strings.ReplaceAll(n, "Bool{Value: false}", "Bool{}")
		n = trimNone.ReplaceAllString(n, "$1")
		n = repeatNone.ReplaceAllStringFunc(n, func(m string) string {
			x := repeatNone.FindStringSubmatch(m)
			if x[2] == "0" {
				return `""`
			}
			return x[1]
		})
		n = emptyPart.ReplaceAllString(n, "[]")
		n = strings.ReplaceAll(n, "string([])", `""`)
		n = strings.ReplaceAll(n, "len([])", `0`)
		n = cutNothing.ReplaceAllString(n, "[]")
		n = regexp.MustCompile(`s\.Elements\[([^:\[\]]+(?:\[[^\]]*\][^:\[\]]*)?):(.+?)\]\}`).ReplaceAllStringFunc(n, func(m string) string {
			x := regexp.MustCompile(`s\.Elements\[(.+):(.+)\]\}`).FindStringSubmatch(m)
			if x != nil && x[1] == x[2] {
				return "[]}"
			}
			return m
		})
		n = strings.NewReplacer(`Str{}`, `Str{Value: ""}`, `Int{}`, `Int{Value: 0}`, `Array{}`, `Array{Elements: []}`, `s.Elements[:]`, "s.Elements", "s.Elements[0:]", "s.Elements", "s.Elements[:len(s.Elements)]", "s.Elements", "s.Elements[0:len(s.Elements)]", "s.Elements").Replace(n)
		if n == s {
			break
		}
		s = n
	}
	return s, known && s != old
}

// sameAs: t equals the length of the receiver.
func (f *Facts) sameAs(p *Prog, t, n *Term) (string, bool) {
	if f.decide(p, mkEq(t, n)) == 1 {
		return "len(s.Elements)", true
	}
	return "", false
}

// cases is the contract of the built-ins without loops.
func (b *bfun) cases() []bcase {
	c := b.c
	R := b.R()
	if R == nil {
		return nil
	}
	a0, a1 := b.arg(0), b.arg(1)
	const aS, aI, aF, aB = "*object.Str", "*object.Int", "*object.Float", "*object.Bool"
	always := func(w ...string) []bcase { return []bcase{{name: "result", want: w}} }
	str := func(x string) string { return "Str{Value: " + x + "}" }
	in := func(x string) string { return "Int{Value: " + x + "}" }
	fl := func(x string) string { return "Float{Value: " + x + "}" }
	idx := c.objVal(a0, aI)
	empty := mkEq(R, mkStr(""))
	zero := func(t *Term) *Term { return eqTerm(t, zeroTerm(t.Typ)) }
	trim := func(fn string) []bcase {
		def := []string{str("strings." + fn + `(s.Value, "\t \n\r")`)}
		if fn == "Trim" {
			def = append(def, str(`strings.TrimRight(strings.TrimLeft(s.Value, "\t \n\r"), "\t \n\r")`), str(`strings.TrimLeft(strings.TrimRight(s.Value, "\t \n\r"), "\t \n\r")`))
		}
		for _, perm := range []string{`" \t\n\r"`, `" \n\t\r"`, `" \t\r\n"`, `"\t\n\r "`, `" \r\n\t"`, `"\n\r\t "`, `"\r\n\t "`, `"\t\r\n "`} {
			def = append(def, str("strings."+fn+"(s.Value, "+perm+")"))
		}
		return []bcase{
			{name: "no argument", conds: []*Term{b.hasNo(1)}, want: def},
			{name: "string argument", conds: []*Term{b.has(1)}, kinds: []bkind{{a0, aS, false}}, want: []string{str("strings." + fn + "(s.Value, args[0].Value)")}},
			{name: "other argument", conds: []*Term{b.has(1)}, kinds: []bkind{{a0, aS, true}}, want: []string{"ERR"}},
		}
	}
	switch b.kind + "." + b.name {
	case "*object.Str.len":
		return always(in("len([]rune(s.Value))"))
	case "*object.Str.raw":
		return always(str("html.UnescapeString(s.Value)"))
	case "*object.Str.upper":
		return always(str("strings.ToUpper(s.Value)"))
	case "*object.Str.lower":
		return always(str("strings.ToLower(s.Value)"))
	case "*object.Str.trim":
		return trim("Trim")
	case "*object.Str.trimLeft":
		return trim("TrimLeft")
	case "*object.Str.trimRight":
		return trim("TrimRight")
	case "*object.Str.capitalize":
		dec := "unicode/utf8.DecodeRuneInString(s.Value)"
		dt := types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.Rune]), types.NewVar(0, nil, "", types.Typ[types.Int]))
		d := mk("call", "unicode/utf8.DecodeRuneInString", dt, nil, R)
		first := mk("ext", "0", types.Typ[types.Rune], nil, d)
		bad := mkEq(first, mkInt(0xFFFD))
		size := mk("ext", "1", types.Typ[types.Int], nil, d)
		keep := []string{"s", str("s.Value")}
		// upper-casing the runes as a list
		rs := "[]rune(s.Value)"
		alt := []string{str("cat(strings.ToUpper(string(" + rs + "[0])) string(" + rs + "[1:]))"), str("cat(strings.ToUpper(string(" + rs + "[:1])) string(" + rs + "[1:]))"),
			str("cat(strings.ToUpper(s.Value[:" + dec + "#1]) s.Value[" + dec + "#1:])"), str("cat(strings.ToUpper(string(" + dec + "#0)) s.Value[" + dec + "#1:])"),
			str("cat(string(unicode.ToUpper(" + dec + "#0)) s.Value[" + dec + "#1:])")}
		_ = size
		return []bcase{
			{name: "empty string", conds: []*Term{empty, mkEq(mkLen(R), mkInt(0)), mkEq(mkLen(runes(R)), mkInt(0))}, want: []string{"s", "Str{}", str(`""`), str("s.Value")}},
			{name: "invalid first character", conds: []*Term{mkNot(empty), mkLess(mkInt(0), mkLen(R)), bad}, want: append(keep, alt...), opt: true},
			{name: "first character", conds: []*Term{mkNot(empty), mkLess(mkInt(0), mkLen(R)), mkLess(mkInt(0), mkLen(runes(R))), mkNot(bad), mkLess(mkInt(0), size)}, want: alt},
		}
	case "*object.Str.contains":
		return []bcase{
			{name: "no argument", conds: []*Term{b.hasNo(1)}, want: []string{"ERR"}},
			{name: "string argument", conds: []*Term{b.has(1)}, kinds: []bkind{{a0, aS, false}}, want: []string{"Bool{Value: strings.Contains(s.Value, args[0].Value)}"}},
			{name: "other argument", conds: []*Term{b.has(1)}, kinds: []bkind{{a0, aS, true}}, want: []string{"ERR"}},
		}
	case "*object.Str.truncate":
		n := mkLen(runes(R))
		cut := func(lim, tail string) []string {
			return []string{str("cat(string([]rune(s.Value)[:" + lim + "]) " + tail + ")")}
		}
		neg := func(tail string) []string {
			return append(cut("0", tail), str("cat("+tail+")"), str(tail), str(`cat("" `+tail+`)`))
		}
		i0 := []bkind{{a0, aI, false}}
		k01 := []bkind{{a0, aI, false}, {a1, aS, false}}
		k0x := []bkind{{a0, aI, false}, {a1, aS, true}}
		keep := []string{"s", str("s.Value")}
		pos, isNeg := mkNot(b.lt(idx, mkInt(0))), b.lt(idx, mkInt(0))
		return []bcase{
			{name: "no argument", conds: []*Term{b.hasNo(1)}, want: []string{"ERR"}},
			{name: "limit is not an integer", conds: []*Term{b.has(1)}, kinds: []bkind{{a0, aI, true}}, want: []string{"ERR"}},
			{name: "limit not below the length", conds: []*Term{b.has(1), b.hasNo(2), pos, b.le(n, idx)}, kinds: i0, want: keep},
			{name: "limit not below the length, with ellipsis", conds: []*Term{b.has(2), pos, b.le(n, idx)}, kinds: k01, want: keep},
			{name: "limit below the length", conds: []*Term{b.has(1), b.hasNo(2), b.lt(mkInt(0), idx), b.lt(idx, n)}, kinds: i0, want: cut("args[0].Value", `"..."`)},
			{name: "limit zero", conds: []*Term{b.has(1), b.hasNo(2), mkEq(idx, mkInt(0)), b.lt(mkInt(0), n)}, kinds: i0, want: neg(`"..."`)},
			{name: "limit below the length, with ellipsis", conds: []*Term{b.has(2), b.lt(mkInt(0), idx), b.lt(idx, n)}, kinds: k01, want: cut("args[0].Value", "args[1].Value")},
			{name: "limit below the length, ellipsis is not a string", conds: []*Term{b.has(2), b.lt(mkInt(0), idx), b.lt(idx, n)}, kinds: k0x, want: []string{"ERR"}},
			{name: "negative limit", conds: []*Term{b.has(1), b.hasNo(2), isNeg, b.lt(mkInt(0), n)}, kinds: i0, want: append(neg(`"..."`), "ERR")},
		}
	case "*object.Str.at":
		n := mkLen(runes(R))
		k := []bkind{{a0, aI, false}}
		nonEmpty := []*Term{mkNot(empty), mkLess(mkInt(0), mkLen(R)), mkLess(mkInt(0), n)}
		isEmpty := []*Term{empty, mkEq(mkLen(R), mkInt(0)), mkEq(n, mkInt(0))}
		back := linAdd(idx, n, 1)
		ch := func(i string) []string { return []string{str("string([]rune(s.Value)[" + i + "])")} }
		return []bcase{
			{name: "no argument", conds: append([]*Term{b.hasNo(1)}, nonEmpty...), want: ch("0")},
			{name: "no argument, empty string", conds: append([]*Term{b.hasNo(1)}, isEmpty...), want: []string{"Nil{}"}},
			{name: "index is not an integer", conds: append([]*Term{b.has(1)}, nonEmpty...), kinds: []bkind{{a0, aI, true}}, want: []string{"ERR"}},
			{name: "empty string", conds: append([]*Term{b.has(1)}, isEmpty...), kinds: k, want: []string{"Nil{}"}},
			{name: "index in range", conds: append([]*Term{b.has(1), mkNot(b.lt(idx, mkInt(0))), b.lt(idx, n)}, nonEmpty...), kinds: k, want: ch("args[0].Value")},
			{name: "index past the end", conds: append([]*Term{b.has(1), b.le(n, idx)}, nonEmpty...), kinds: k, want: []string{"Nil{}"}},
			{name: "index from the end", conds: append([]*Term{b.has(1), b.lt(idx, mkInt(0)), mkNot(b.lt(back, mkInt(0))), b.lt(back, n)}, nonEmpty...), kinds: k, want: ch("(args[0].Value+len([]rune(s.Value)))")},
			{name: "index before the start", conds: append([]*Term{b.has(1), b.lt(idx, mkInt(0)), b.lt(back, mkInt(0))}, nonEmpty...), kinds: k, want: []string{"Nil{}"}},
		}
	case "*object.Str.first", "*object.Str.last":
		n := mkLen(runes(R))
		i := "0"
		w := []string{str("string([]rune(s.Value)[0])")}
		if b.name == "last" {
			i = "(len([]rune(s.Value))-1)"
			w = []string{str("string([]rune(s.Value)[" + i + "])")}
		} else {
			w = append(w, str("string(unicode/utf8.DecodeRuneInString(s.Value)#0)"))
		}
		return []bcase{
			{name: "empty string", conds: []*Term{empty, mkEq(mkLen(R), mkInt(0)), mkEq(n, mkInt(0))}, want: []string{"Nil{}"}},
			{name: "non-empty string", conds: []*Term{mkNot(empty), mkLess(mkInt(0), mkLen(R)), mkLess(mkInt(0), n)}, want: w},
		}
	case "*object.Str.repeat":
		k := []bkind{{a0, aI, false}}
		rep := []string{str("strings.Repeat(s.Value, args[0].Value)"), str(`strings.Repeat("", args[0].Value)`), "Str{}", str(`""`)}
		return []bcase{
			{name: "no argument", conds: []*Term{b.hasNo(1)}, want: []string{"ERR"}},
			{name: "count is not an integer", conds: []*Term{b.has(1)}, kinds: []bkind{{a0, aI, true}}, want: []string{"ERR"}},
			{name: "negative count", conds: []*Term{b.has(1), b.lt(idx, mkInt(0))}, kinds: k, want: []string{"ERR"}},
			{name: "count", conds: []*Term{b.has(1), mkNot(b.lt(idx, mkInt(0)))}, kinds: k, want: append(rep[:1:1], append(rep[1:2:2], "ERR")...)},
			{name: "small count", conds: []*Term{b.has(1), mkEq(idx, mkInt(3)), mkEq(mkLen(R), mkInt(2)), mkNot(empty)}, fold: map[*Term]*Term{idx: mkInt(3), mkLen(R): mkInt(2)}, kinds: k, want: []string{str("strings.Repeat(s.Value, 3)")}},
		}
	case "*object.Str.decimal", "*object.Int.decimal":
		val := "s.Value"
		var isInt *Term
		vt := R
		if b.kind == aI {
			val = "fmt(%d s.Value)"
			vt = fmtInt(R)
		}
		at := mk("call", "strconv.Atoi", types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.Int]), types.NewVar(0, nil, "", types.Universe.Lookup("error").Type())), nil, vt)
		isInt = mkEq(mk("ext", "1", types.Universe.Lookup("error").Type(), nil, at), mkNil())
		keep := []string{str(val)}
		if b.kind != aI {
			keep = append(keep, "s")
		}
		n := c.objVal(a1, aI)
		k1 := []bkind{{a0, aS, false}}
		k2 := []bkind{{a0, aS, false}, {a1, aI, false}}
		dec := func(sep, z string) []string { return []string{str("cat(" + val + " " + sep + " " + z + ")")} }
		cs := []bcase{
			{name: "no argument", conds: []*Term{isInt, b.hasNo(1)}, want: []string{str("cat(" + val + ` ".00")`)}},
			{name: "separator", conds: []*Term{isInt, b.has(1), b.hasNo(2)}, kinds: k1, want: dec("args[0].Value", `"00"`)},
			{name: "separator is not a string", conds: []*Term{isInt, b.has(1), b.hasNo(3)}, kinds: []bkind{{a0, aS, true}}, want: []string{"ERR"}},
			{name: "decimals are not an integer", conds: []*Term{isInt, b.has(2), b.hasNo(3)}, kinds: []bkind{{a0, aS, false}, {a1, aI, true}}, want: []string{"ERR"}},
			{name: "too many arguments", conds: []*Term{isInt, b.has(3)}, want: []string{"ERR"}},
			{name: "no decimals", conds: []*Term{isInt, b.has(2), b.hasNo(3), zero(n)}, kinds: k2, want: keep},
			{name: "negative decimals", conds: []*Term{isInt, b.has(2), b.hasNo(3), b.lt(n, mkInt(0))}, kinds: k2, want: []string{"ERR"}},
			{name: "decimals", conds: []*Term{isInt, b.has(2), b.hasNo(3), b.lt(mkInt(0), n)}, kinds: k2, want: append(dec("args[0].Value", `strings.Repeat("0", args[1].Value)`), "ERR")},
			{name: "three decimals", conds: []*Term{isInt, b.has(2), b.hasNo(3), mkEq(n, mkInt(3))}, fold: map[*Term]*Term{n: mkInt(3)}, kinds: k2, want: append(dec("args[0].Value", `strings.Repeat("0", 3)`), dec("args[0].Value", `"000"`)...)},
		}
		if b.kind == aS {
			cs = append(cs, bcase{name: "not an integer", conds: []*Term{mkNot(isInt), b.hasNo(1)}, want: keep})
		}
		return cs
	case "*object.Array.len":
		return always(in("len(s.Elements)"))
	case "*object.Array.rand":
		n := mkLen(R)
		return []bcase{
			{name: "empty array", conds: []*Term{mkEq(n, mkInt(0))}, want: []string{"Nil{}"}},
			{name: "array", conds: []*Term{mkLess(mkInt(0), n)}, want: []string{"~s\\.Elements\\[.*\\]"}},
		}
	case "*object.Array.slice":
		n := mkLen(R)
		end := c.objVal(a1, aI)
		k1 := []bkind{{a0, aI, false}}
		k2 := []bkind{{a0, aI, false}, {a1, aI, false}}
		arr := func(xs ...string) []string {
			var r []string
			for _, x := range xs {
				r = append(r, "Array{Elements: s.Elements["+x+"]}")
			}
			return r
		}
		whole := []string{"s", "Array{Elements: s.Elements}", "Array{Elements: s.Elements[:]}", "Array{Elements: s.Elements[:len(s.Elements)]}"}
		none := append(arr("len(s.Elements):", "len(s.Elements):len(s.Elements)"), "Array{}")
		S, E := "args[0].Value", "args[1].Value"
		ge0 := func(t *Term) *Term { return mkNot(b.lt(t, mkInt(0))) }
		one := []*Term{b.has(1), b.hasNo(2)}
		two := []*Term{b.has(2)}
		and := func(a []*Term, x ...*Term) []*Term { return append(append([]*Term{}, a...), x...) }
		return []bcase{
			{name: "no argument", conds: []*Term{b.hasNo(1)}, want: []string{"ERR"}},
			{name: "start is not an integer", conds: []*Term{b.has(1)}, kinds: []bkind{{a0, aI, true}}, want: []string{"ERR"}},
			{name: "end is not an integer", conds: two, kinds: []bkind{{a0, aI, false}, {a1, aI, true}}, want: []string{"ERR"}},
			{name: "start", conds: and(one, b.lt(mkInt(0), idx), b.le(idx, n)), kinds: k1, want: append(arr(S+":", S+":len(s.Elements)"), none[0:2]...)},
			{name: "start inside", conds: and(one, b.lt(mkInt(0), idx), b.lt(idx, n)), kinds: k1, want: arr(S+":", S+":len(s.Elements)")},
			{name: "start zero", conds: and(one, mkEq(idx, mkInt(0))), kinds: k1, want: append(whole, arr("0:")...)},
			{name: "negative start", conds: and(one, b.lt(idx, mkInt(0)), b.lt(mkInt(0), n)), kinds: k1, want: append(whole, arr("0:")...)},
			{name: "start past the end", conds: and(one, b.lt(n, idx)), kinds: k1, want: none},
			{name: "start and end", conds: and(two, b.lt(mkInt(0), idx), b.lt(idx, end), b.lt(end, n)), kinds: k2, want: arr(S + ":" + E)},
			{name: "end at the length", conds: and(two, b.lt(mkInt(0), idx), b.lt(idx, n), mkEq(end, n)), kinds: k2, want: arr(S+":"+E, S+":", S+":len(s.Elements)")},
			{name: "end past the length", conds: and(two, b.lt(mkInt(0), idx), b.lt(idx, n), b.lt(n, end)), kinds: k2, want: arr(S+":", S+":len(s.Elements)")},
			{name: "negative end", conds: and(two, b.lt(mkInt(0), idx), b.lt(idx, n), b.lt(end, mkInt(0))), kinds: k2, want: arr(S+":", S+":len(s.Elements)")},
			{name: "end before start", conds: and(two, b.lt(mkInt(0), idx), b.lt(idx, n), ge0(end), b.lt(end, idx)), kinds: k2, want: append(arr(S+":"+S, E+":"+E, ":0", "0:0"), "Array{}")},
			{name: "start past the end, end inside", conds: and(two, b.lt(n, idx), ge0(end), b.lt(end, n)), kinds: k2, want: append(none, arr(E+":"+E, ":0", "0:0")...)},
			{name: "start past the end, end past it", conds: and(two, b.lt(n, idx), b.lt(n, end)), kinds: k2, want: append(none, arr(":0", "0:0")...)},
			{name: "negative start, end inside", conds: and(two, b.lt(idx, mkInt(0)), b.lt(mkInt(0), end), b.lt(end, n)), kinds: k2, want: arr(":"+E, "0:"+E)},
			{name: "negative start, end past the length", conds: and(two, b.lt(idx, mkInt(0)), b.lt(mkInt(0), n), b.lt(n, end)), kinds: k2, want: append(whole, arr("0:")...)},
		}
	case "*object.Float.int":
		return always(in("int64(s.Value)"), in("int64(math.Trunc(s.Value))"))
	case "*object.Float.str":
		return always(str("strconv.FormatFloat(s.Value, 102, -1, 64)"))
	case "*object.Float.ceil":
		return always(in("int64(math.Ceil(s.Value))"))
	case "*object.Float.floor":
		return always(in("int64(math.Floor(s.Value))"))
	case "*object.Float.round":
		return always(in("int64(math.Round(s.Value))"))
	case "*object.Float.abs":
		neg := mk("f<", "", types.Typ[types.Bool], nil, R, zeroTerm(R.Typ))
		pos := mk("f<", "", types.Typ[types.Bool], nil, zeroTerm(R.Typ), R)
		le := mk("f<=", "", types.Typ[types.Bool], nil, R, zeroTerm(R.Typ))
		ge := mk("f<=", "", types.Typ[types.Bool], nil, zeroTerm(R.Typ), R)
		return []bcase{
			{name: "negative", conds: []*Term{neg, mkNot(pos), mkNot(ge), le}, want: []string{fl("(-s.Value)"), fl("math.Abs(s.Value)"), fl("(0 - s.Value)")}},
			{name: "positive", conds: []*Term{pos, mkNot(neg), mkNot(le), ge}, want: []string{"s", fl("s.Value"), fl("math.Abs(s.Value)")}},
		}
	case "*object.Int.float":
		return always(fl("float64(s.Value)"))
	case "*object.Int.str":
		return always(str("fmt(%d s.Value)"))
	case "*object.Int.abs":
		return []bcase{
			{name: "negative", conds: []*Term{b.lt(R, mkInt(0))}, want: []string{in("(-s.Value)"), in("(-1*s.Value)")}},
			{name: "positive", conds: []*Term{b.lt(mkInt(0), R)}, want: []string{"s", in("s.Value")}},
			{name: "zero", conds: []*Term{mkEq(R, mkInt(0))}, want: []string{"s", in("0"), "Int{}", in("s.Value"), in("(-s.Value)")}},
		}
	case "*object.Int.len":
		return []bcase{
			{name: "negative", conds: []*Term{b.lt(R, mkInt(0))}, want: []string{in("(len(fmt(%d s.Value))-1)"), in("len(fmt(%d (-s.Value)))"), in("len(strings.TrimPrefix(fmt(%d s.Value), \"-\"))"), in("len(strings.TrimLeft(fmt(%d s.Value), \"-\"))")}},
			{name: "not negative", conds: []*Term{mkNot(b.lt(R, mkInt(0)))}, want: []string{in("len(fmt(%d s.Value))"), in("len(fmt(%d 0))"), in("1"), in("len(strings.TrimPrefix(fmt(%d s.Value), \"-\"))"), in("len(strings.TrimLeft(fmt(%d s.Value), \"-\"))")}},
		}
	case "*object.Bool.binary":
		return []bcase{
			{name: "true", conds: []*Term{R}, want: []string{in("1")}},
			{name: "false", conds: []*Term{mkNot(R)}, want: []string{"Int{}", in("0")}},
		}
	case "*object.Bool.then":
		return []bcase{
			{name: "no argument", conds: []*Term{b.hasNo(1)}, want: []string{"ERR"}},
			{name: "true", conds: []*Term{b.has(1), R}, want: []string{"args[0]"}},
			{name: "false, one argument", conds: []*Term{b.has(1), b.hasNo(2), mkNot(R)}, want: []string{"Nil{}"}},
			{name: "false, two arguments", conds: []*Term{b.has(2), mkNot(R)}, want: []string{"args[1]"}},
		}
	}
	return nil
}

var _ = constant.MakeInt64

func (f *Facts) constOf(t *Term) (int64, bool) {
	if c := f.eqConst(t); c != nil {
		return c.intVal()
	}
	return 0, false
}
