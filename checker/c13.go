package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C13"] = checkC13 }

// checkC13: errors name the line and file of the construct.
func checkC13(c *Checker) {
	c.rule("C13.position", "the line of a token is the line its last byte stands on, whatever was read before it")
	c.rule("C13.line", "the line of a token is one more than the zero-based line it ends on, and the line of every node is that of its token")
	c.rule("C13.node", "every node carries the token of the construct it stands for")
	c.rule("C13.parser", "an error of the parser has the line of the token it is about and the path of the file being parsed")
	c.rule("C13.evaluator", "an error of the evaluation has the line of the faulty node and the path of the page")
	c.rule("C13.value", "an error keeps the line, path and message it is made with and prints them")
	c.rule("C13.load", "a fault found while loading has the path of the faulty file and the line of the use")
	c.rule("C13.entry", "the first error reaches the caller unchanged, and the path of the page is the one of its file")
	m := c.nextToken()
	m.spanRule("C13.position")
	m.strings("C13.position")
	m.text("C13.position")
	m.comments("C13.position")
	c.errorLine("C13.line")
	c.nodeLines("C13.line")
	pr := c.parser()
	pr.stmts("C13.node", sortedKeys(stmtSpecs)...)
	pr.nodeTokens("C13.node")
	pr.errorSites("C13.parser")
	c.evalErrors("C13.evaluator")
	c.failRules("C13.value")
	c.layoutRules("C13.load")
	c.componentRules("C13.load")
	c.programsRule("C13.load")
	c.entries("C13.entry")
	c.pagePath("C13.entry")
	c.specProgram("C13.entry")
}

func sortedKeys[V any](m map[string]V) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

var endLine = regexp.MustCompile(`^\((.*)\.Pos\.EndLine(\)?)\+1\)$`)
var lineCall = regexp.MustCompile(`^Line\((.*)\)$`)

// ownerOfLine is what a line number is the line of: a token or a node.
func ownerOfLine(s string) string {
	if m := lineCall.FindStringSubmatch(s); m != nil {
		return m[1]
	}
	if m := endLine.FindStringSubmatch(s); m != nil {
		return strings.TrimSuffix(m[1], ".Token") + m[2]
	}
	return ""
}

// errorLine: the line of a token.
func (c *Checker) errorLine(rule string) {
	f := c.p.method("*token.Token", "ErrorLine")
	if f == nil {
		c.und(rule, "the line of a token", "anchor not found")
		return
	}
	c.lineOf(rule, "the line of a token", f, `^\((?:r|token)\.Pos\.EndLine\+1\)$`)
}

// lineOf: what a function of one argument returns.
func (c *Checker) lineOf(rule, name string, f *ssa.Function, want string) {
	ps, complete := c.run(f, runOpts{})
	cr := c.newCase(rule, name)
	if !complete {
		cr.add(vUnd, f.Pos(), "path enumeration is incomplete")
	}
	rx := regexp.MustCompile(want)
	for _, p := range ps {
		if p.Outcome != "return" || len(p.Ret) != 1 {
			cr.add(vUnd, lastPos(p), "a path does not return a line")
			continue
		}
		r := &renderer{p: c.p, path: p, names: map[*Term]string{}}
		if len(p.Root.Params) > 0 {
			r.names[rootParams(f)[0]] = "r"
		}
		got := r.str(p.Ret[0])
		switch {
		case rx.MatchString(got):
			cr.add(vOK, lastPos(p), "")
		case libUnknown(got) || stmtKnown.MatchString(got):
			cr.add(vUnd, lastPos(p), "the line is "+got)
		default:
			cr.add(vBad, lastPos(p), "the line is "+got)
		}
	}
	cr.done()
}

// nodeLines: Line() of every node.
func (c *Checker) nodeLines(rule string) {
	var kinds []string
	for _, n := range c.p.named {
		k := shortType(n)
		if pt, ok := n.(*types.Pointer); ok && strings.HasPrefix(k, "*ast.") {
			if st, ok := pt.Elem().Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == "Token" {
						kinds = append(kinds, k)
					}
				}
			}
		}
	}
	sort.Strings(kinds)
	if len(kinds) == 0 {
		c.und(rule, "the line of a node", "anchor not found")
	}
	for _, k := range kinds {
		f := c.p.method(k, "Line")
		if f == nil {
			continue
		}
		c.lineOf(rule, "the line of "+strings.TrimPrefix(k, "*"), f, `^\(r\.Token\.Pos\.EndLine\+1\)$`)
	}
}

// nodeTokens: the token of every node the parser makes for an expression,
// an assignment, a block and a program.
func (pr *parserRun) nodeTokens(rule string) {
	c := pr.c
	prefix, infix, ok := pr.registrations()
	if pr.errs != "" || !ok {
		c.und(rule, "tokens of expressions", "the parse functions are not known: %s", pr.errs)
		return
	}
	type job struct {
		f   *ssa.Function
		cur string
	}
	var jobs []job
	for _, k := range sortedKeys(prefix) {
		jobs = append(jobs, job{prefix[k], k})
	}
	for _, k := range sortedKeys(infix) {
		jobs = append(jobs, job{infix[k], k})
	}
	for _, n := range []string{"Parser.parseEmbeddedCode", "Parser.parseBlockStmt"} {
		if f := c.p.fn("parser", n); f != nil {
			jobs = append(jobs, job{f, ""})
		}
	}
	found := map[string]int{}
	for _, j := range jobs {
		label := "the tokens of the nodes of " + c.p.fullName(j.f)
		if j.cur != "" {
			label += " at " + j.cur
		}
		cr := c.newCase(rule, label)
		ps, complete := pr.run(j.f, nil, j.cur, nil)
		if !complete {
			cr.add(vUnd, j.f.Pos(), "path enumeration is incomplete")
		}
		for _, p := range ps {
			if p.Outcome == "back" || p.Outcome == "panic" {
				continue
			}
			if p.Outcome != "return" {
				cr.add(vUnd, lastPos(p), "path limit")
				continue
			}
			first := "cur0"
			if j.cur == "" {
				// the first token is the one after the opening one
				for _, ev := range p.Events {
					if ev.Kind == "next" {
						first = pr.renderer(p).str(ev.Args[0])
					}
					if ev.Kind == "next" || ev.Kind == "call" && strings.HasPrefix(ev.Fn, "parser.") {
						break
					}
				}
			}
			pr.nodesOf(cr, p, first, found)
		}
		if cr.ok == 0 && len(cr.bad) == 0 && len(cr.und) == 0 {
			continue // parses no node of its own
		}
		cr.done()
	}
	for _, k := range []string{"Identifier", "IntegerLiteral", "FloatLiteral", "StringLiteral", "NilLiteral", "BooleanLiteral", "ArrayLiteral", "ObjectLiteral", "PrefixExp", "InfixExp", "PostfixExp", "TernaryExp", "IndexExp", "DotExp", "CallExp", "AssignStmt", "ExpressionStmt"} {
		if found[k] == 0 {
			c.und(rule, "the token of "+k, "no function was seen to make this node")
		}
	}
}

// nodesOf: the tokens of the nodes that a path returns.
func (pr *parserRun) nodesOf(cr *caseRun, p *Path, first string, found map[string]int) {
	if len(p.Ret) == 0 || nilRet(p) {
		return
	}
	r := pr.renderer(p)
	seen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		for t.Op == "iface" {
			t = t.Args[0]
		}
		if t.Op != "alloc" || seen[t] {
			return
		}
		seen[t] = true
		k := strings.TrimPrefix(shortType(t.Typ), "*ast.")
		if k == shortType(t.Typ) {
			return
		}
		field := func(n string) string {
			if v, ok := p.St.mem[mkFieldAddr("ast."+k+"."+n, t, nil)]; ok {
				return r.str(v)
			}
			return ""
		}
		tk := pr.lineToken(r, p, t)
		want := first
		switch k {
		case "Identifier", "StringLiteral", "IntegerLiteral", "FloatLiteral":
			want = ""
			if v := field("Value"); v != "" {
				if ts := tokens.FindAllString(v, -1); len(ts) == 1 {
					want = ts[0]
				} else if k == "StringLiteral" && len(ts) == 0 {
					want = tk // a text the source does not have
				}
			}
		case "PrefixExp", "InfixExp", "PostfixExp":
			want = ""
			if v := field("Operator"); v != "" {
				if ts := tokens.FindAllString(v, -1); len(ts) == 1 {
					want = ts[0]
				} else if len(ts) == 0 {
					want = first
				}
			}
		case "CallExp":
			want = ""
			if v, ok := p.St.mem[mkFieldAddr("ast.CallExp.Function", t, nil)]; ok {
				want = pr.lineToken(r, p, v)
				if a := pr.callee(v); a != nil {
					want = r.str(a) + ".Token"
				}
			}
		}
		found[k]++
		switch {
		case k == "BlockStmt" || k == "ExpressionStmt" || k == "Program":
			// no error is about them
			cr.add(vOK, lastPos(p), "")
		case want != "" && tk == want:
			cr.add(vOK, lastPos(p), "")
		case tk == "" || want == "" || libUnknown(tk) || strings.Contains(tk, "loop"):
			cr.add(vUnd, lastPos(p), fmt.Sprintf("the token of %s is `%s`, of the construct `%s`", k, tk, want))
		default:
			cr.add(vBad, lastPos(p), fmt.Sprintf("%s has the token `%s`, expected `%s`", k, tk, want))
		}
		for a, v := range p.St.mem {
			if a.Op == "&f" && a.Args[0] == t && v != nil {
				visit(v)
			}
		}
	}
	for _, t := range p.Ret {
		visit(t)
	}
}

// callee is the node behind a function name that is not made here.
func (pr *parserRun) callee(v *Term) *Term {
	for v.Op == "iface" {
		v = v.Args[0]
	}
	if v.Op == "alloc" {
		return nil
	}
	return v
}

// endLineOf names the token that has the end line of this one.
func (pr *parserRun) endLineOf(r *renderer, tok *Term) string {
	if tok == nil {
		return ""
	}
	pos := structOrField(tok, pr.tokT, "Pos")
	if pos == nil || pos.Typ == nil {
		return ""
	}
	end := structOrField(pos, pos.Typ, "EndLine")
	if end == nil {
		return ""
	}
	return ownerOfLine("(" + r.str(end) + "+1)")
}

var tokens = regexp.MustCompile(`\b(?:cur0|peek0|[tcp]\d+)\b`)

// lineToken names the token whose end line a node has.
func (pr *parserRun) lineToken(r *renderer, p *Path, t *Term) string {
	for t.Op == "iface" {
		t = t.Args[0]
	}
	if t.Op != "alloc" {
		return ""
	}
	pt, ok := t.Typ.Underlying().(*types.Pointer)
	if !ok {
		return ""
	}
	a := fieldPath(pt.Elem(), t, "Token", "Pos", "EndLine")
	if a == nil {
		return ""
	}
	v, ok := r.memOf(a)
	if !ok {
		return ""
	}
	s := r.str(v)
	if s == "0" {
		return "no token"
	}
	return strings.TrimSuffix(s, ".Pos.EndLine")
}

// fieldPath is the address of a nested field.
func fieldPath(t types.Type, base *Term, names ...string) *Term {
	a := base
	for _, n := range names {
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		hit := -1
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				hit = i
			}
		}
		if hit < 0 {
			return nil
		}
		a = mkFieldAddr(fieldOwner(t, hit), a, nil)
		t = st.Field(hit).Type()
	}
	return a
}

// errorTokens: the token a message of the parser is about, the next one for
// "peek" and the one being parsed for "cur".
var errorTokens = map[string]string{
	"ErrWrongNextToken":           "peek",
	"ErrIllegalToken":             "peek",
	"ErrElseifCannotFollowElse":   "peek",
	"ErrCouldNotParseAs":          "cur",
	"ErrEmptyBraces":              "cur",
	"ErrNestingTooDeep":           "cur",
	"ErrExpectedExpression":       "cur",
	"ErrExpectedObjectLiteral":    "cur",
	"ErrExpectedComponentName":    "cur",
	"ErrExpectedIdentifier":       "cur",
	"ErrNoPrefixParseFunc":        "cur",
	"ErrDuplicateInserts":         "cur0",
	"ErrDuplicateInsert":          "cur0",
	"ErrInsertStmtNotAllowed":     "cur0",
	"ErrUnexpectedTokenInBraces":  "cur",
	"ErrUnclosedBlock":            "cur",
	"ErrExpectedClosingDirective": "cur",
}

// errorSites: every error the parser records.
func (pr *parserRun) errorSites(rule string) {
	c := pr.c
	if pr.errs != "" || pr.newErrFn == nil {
		c.und(rule, "errors of the parser", "anchor not found: %s", pr.errs)
		return
	}
	names := map[string]string{}
	if fp := c.p.pkgs["fail"]; fp != nil {
		sc := fp.Types.Scope()
		for _, n := range sc.Names() {
			if k, ok := sc.Lookup(n).(*types.Const); ok {
				names[mkConst(k.Val(), k.Type()).String()] = n
			}
		}
	}
	type site struct {
		cr   *caseRun
		seen bool
	}
	sites := map[token.Pos]*site{}
	var order []token.Pos
	at := func(pos token.Pos, name string) *site {
		if s := sites[pos]; s != nil {
			return s
		}
		s := &site{cr: c.newCase(rule, name)}
		sites[pos] = s
		order = append(order, pos)
		return s
	}
	judge := func(p *Path, ev *Event, cur, peek *Term) {
		if len(ev.Args) < 3 {
			return
		}
		r := pr.renderer(p)
		line, msg := r.str(ev.Args[1]), ev.Args[2]
		n := names[msg.String()]
		where := c.p.fullName(ev.Fun)
		label := "error " + n + " in " + where
		if n == "" {
			label = "error " + r.str(msg) + " in " + where
		}
		if pr.fromCaller(p, ev.Args[1], cur) || !msg.isConst() && pr.isParam(p, msg) {
			return // judged where the caller is analysed
		}
		s := at(ev.Pos, label)
		s.seen = true
		own := ownerOfLine(line)
		ofCur, ofPeek := pr.endLineOf(r, cur), pr.endLineOf(r, peek)
		var want string
		switch errorTokens[n] {
		case "peek":
			want = ofPeek
		case "cur":
			want = ofCur
		case "cur0":
			want = "cur0"
		default:
			var ts []string
			for _, a := range ev.Args[3:] {
				ts = append(ts, tokens.FindAllString(r.str(a), -1)...)
			}
			sort.Strings(ts)
			ts = uniq(ts)
			if len(ts) == 1 {
				want = ts[0]
			} else if own == ofCur || own == ofPeek {
				want = own
			}
		}
		switch {
		case want != "" && own == want:
			s.cr.add(vOK, ev.Pos, "")
		case want == "" || own == "" && (libUnknown(line) || stmtKnown.MatchString(line)) || strings.Contains(own, "unknown"):
			s.cr.add(vUnd, ev.Pos, fmt.Sprintf("the line is %s, the faulty token `%s`", line, want))
		default:
			s.cr.add(vBad, ev.Pos, fmt.Sprintf("the line is %s, not that of the faulty token `%s`", line, want))
		}
	}
	whole := map[*ssa.Function]bool{}
	for _, f := range c.p.funcs {
		if f == pr.newErrFn || f == pr.nextFn || f.Pkg == nil || !strings.HasPrefix(c.p.fullName(f), "parser.Parser.") || f.Parent() != nil {
			continue
		}
		if len(f.Params) == 0 || len(f.Blocks) == 0 || f.Synthetic != "" {
			continue
		}
		if baseName(c.p.fullName(f)) == "checkNesting" {
			continue
		}
		ps, complete := pr.run(f, nil, "", nil)
		if !complete {
			ps, complete = pr.runSmall(f)
		}
		if !complete {
			c.und(rule, "errors of "+c.p.fullName(f), "path enumeration is incomplete")
			continue
		}
		whole[f] = true
		for _, p := range ps {
			for _, ev := range p.Events {
				if ev.Kind == "perr" && ev.Fn == "newError" {
					judge(p, ev, ev.Vals["cur"], ev.Vals["peek"])
				}
			}
		}
	}
	// the two functions that are modelled above
	for _, n := range []string{"Parser.nextToken", "Parser.checkNesting"} {
		f := c.p.fn("parser", n)
		if f == nil {
			continue
		}
		ps, complete := c.run(f, runOpts{opaque: []string{"lexer.Lexer.NextToken", "parser.Parser.newError"}})
		if !complete {
			c.und(rule, "errors of "+n, "path enumeration is incomplete")
			continue
		}
		p0 := rootParams(f)[0]
		for _, p := range ps {
			if p.Outcome != "return" {
				continue
			}
			r := pr.renderer(p)
			for _, ev := range p.Events {
				if ev.Kind != "call" || ev.Fn != "parser.Parser.newError" || len(ev.Args) < 3 {
					continue
				}
				n2 := names[ev.Args[2].String()]
				s := at(ev.Pos, "error "+n2+" in "+c.p.fullName(f))
				r.names = map[*Term]string{p0: "p"}
				line := ownerOfLine(r.str(ev.Args[1]))
				good := line == "p.curToken"
				unknown := false
				if baseName(n) == "nextToken" {
					good = strings.Contains(line, "NextToken")
					// unless it is the token just read that is illegal
					unknown = true
					for _, e2 := range p.Events {
						if e2.Kind == "call" && e2.Fn == "lexer.Lexer.NextToken" && e2.Res != nil && pr.tokName(p, e2.Res) == "ILLEGAL" {
							unknown = false
						}
					}
				}
				switch {
				case !good && unknown:
					s.cr.add(vUnd, ev.Pos, "the line is that of "+line)
				case good:
					s.seen = true
					s.cr.add(vOK, ev.Pos, "")
				case line == "" || libUnknown(line):
					s.cr.add(vUnd, ev.Pos, "the line is "+r.str(ev.Args[1]))
				default:
					s.cr.add(vBad, ev.Pos, "the line is that of "+line)
				}
			}
		}
	}
	for _, pos := range order {
		sites[pos].cr.done()
	}
	for cs, f := range pr.callSites() {
		if sites[cs] == nil && !whole[f] {
			c.und(rule, "error at "+c.p.pos(cs), "the call was not seen on any path")
		}
	}
	pr.recorded(rule)
}

// runSmall is run with the other parse functions kept as calls.
func (pr *parserRun) runSmall(f *ssa.Function) ([]*Path, bool) {
	var opq []string
	for _, g := range pr.c.p.funcs {
		n := pr.c.p.fullName(g)
		if g != f && strings.HasPrefix(n, "parser.Parser.parse") && g.Parent() == nil {
			opq = append(opq, n)
		}
	}
	return pr.run(f, opq, "", nil)
}

// callSites are the places where the parser records an error.
func (pr *parserRun) callSites() map[token.Pos]*ssa.Function {
	l := map[token.Pos]*ssa.Function{}
	for _, f := range pr.c.p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == pr.newErrFn && !isSynthetic(f) {
					l[ci.Pos()] = f
				}
			}
		}
	}
	return l
}

func isSynthetic(f *ssa.Function) bool { return f.Synthetic != "" }

// isParam: the term is made of the parameters of the analysed function other
// than the parser.
func (pr *parserRun) isParam(p *Path, t *Term) bool {
	ok := false
	for i, a := range pr.params {
		if i > 0 {
			t.walk(func(x *Term) bool {
				if x == a {
					ok = true
				}
				return true
			})
		}
	}
	return ok
}

func (pr *parserRun) fromCaller(p *Path, line, cur *Term) bool { return pr.isParam(p, line) }

// recorded: newError keeps the line, message and path of the file.
func (pr *parserRun) recorded(rule string) {
	c := pr.c
	cr := c.newCase(rule, "newError")
	f := pr.newErrFn
	ps, complete := c.run(f, runOpts{})
	if !complete {
		cr.add(vUnd, f.Pos(), "path enumeration is incomplete")
	}
	args := rootParams(f)
	for _, p := range ps {
		if p.Outcome != "return" {
			cr.add(vUnd, lastPos(p), "a path does not return")
			continue
		}
		r := &renderer{p: c.p, path: p, names: map[*Term]string{}}
		for i, a := range args {
			r.names[a] = []string{"p", "line", "msg", "args"}[min(i, 3)]
		}
		st := pr.parserT.Underlying().(*types.Struct)
		errs := ""
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "errors" {
				if v, ok := r.memOf(mkFieldAddr(fieldOwner(pr.parserT, i), args[0], nil)); ok {
					errs = r.str(v)
				}
			}
		}
		switch {
		case errRx.MatchString(errs) && strings.Contains(errs, "line: line, ") && strings.Contains(errs, "filepath: p.filepath, "):
			cr.add(vOK, lastPos(p), "")
		case errs == "" || libUnknown(strings.ReplaceAll(errs, "fmt.Sprintf(msg, args)", "msg")) || stmtKnown.MatchString(errs):
			cr.add(vUnd, lastPos(p), "the errors become "+errs)
		default:
			cr.add(vBad, lastPos(p), "the errors become "+errs)
		}
	}
	cr.done()
}

var errRx = regexp.MustCompile(`^p\.errors\+\+\[Error\{.*\bmsg\b.*\}\]$`)

func uniq(l []string) (r []string) {
	for i, s := range l {
		if i == 0 || s != l[i-1] {
			r = append(r, s)
		}
	}
	return r
}

// evalErrors: the errors that the evaluation makes.
func (c *Checker) evalErrors(rule string) {
	want := map[string]func(msg string) string{
		"InfixExp": func(string) string { return "node.Left" },
		"IndexExp": func(m string) string {
			if strings.Contains(m, "not found in type") {
				return "node.Index"
			}
			return "node"
		},
		"ReserveStmt": func(string) string { return "node.Insert" },
	}
	var kinds []string
	for _, n := range c.p.named {
		if k := shortType(n); strings.HasPrefix(k, "*ast.") {
			kinds = append(kinds, strings.TrimPrefix(k, "*ast."))
		}
	}
	sort.Strings(kinds)
	made := map[string]int{}
	for _, k := range kinds {
		er := c.node(k)
		if er == nil {
			continue
		}
		cr := c.newCase(rule, "errors of "+k)
		for _, p := range er.paths {
			if p.Outcome != "return" || len(p.Ret) == 0 {
				continue
			}
			e := c.objField(p, p.Ret[0], "object.Error", "Err")
			if e == nil {
				continue
			}
			made[k]++
			line, file, msg := c.objField(p, e, "fail.Error", "line"), c.objField(p, e, "fail.Error", "filepath"), c.objField(p, e, "fail.Error", "message")
			if line == nil || file == nil || msg == nil {
				cr.add(vUnd, lastPos(p), "the error is not made here")
				continue
			}
			r := er.specRenderer(p)
			ms := r.str(msg)
			w := "node"
			if f := want[k]; f != nil {
				w = f(ms)
			}
			ls, fs := r.str(line), r.str(file)
			own := ownerOfLine(ls)
			switch {
			case own == w:
			case libUnknown(ls) || own == "" && strings.Contains(ls, "call"):
				cr.add(vUnd, lastPos(p), "the line is "+ls)
				continue
			default:
				cr.add(vBad, lastPos(p), fmt.Sprintf("the error %s has the line %s, expected that of %s", ms, ls, w))
				continue
			}
			switch {
			case fs == "e.ctx.AbsPath":
				cr.add(vOK, lastPos(p), "")
			case libUnknown(fs):
				cr.add(vUnd, lastPos(p), "the path is "+fs)
			default:
				cr.add(vBad, lastPos(p), fmt.Sprintf("the error %s has the path %s", ms, fs))
			}
		}
		if cr.ok > 0 || len(cr.bad) > 0 || len(cr.und) > 0 {
			cr.done()
		}
	}
	for _, k := range []string{"Identifier", "PrefixExp", "InfixExp", "PostfixExp", "IndexExp", "DotExp", "CallExp", "AssignStmt", "EachStmt", "UseStmt"} {
		if made[k] == 0 {
			c.und(rule, "errors of "+k, "no error is seen to be made here")
		}
	}
}

// failRules: what an error value keeps and prints.
func (c *Checker) failRules(rule string) {
	chk := func(name, fn string, names []string, want string) {
		f := c.p.fn("fail", fn)
		if f == nil {
			c.und(rule, name, "anchor not found")
			return
		}
		ps, complete := c.run(f, runOpts{})
		cr := c.newCase(rule, name)
		if !complete {
			cr.add(vUnd, f.Pos(), "path enumeration is incomplete")
		}
		rx := regexp.MustCompile("^(?:" + want + ")$")
		for _, p := range ps {
			if p.Outcome != "return" || len(p.Ret) != 1 {
				cr.add(vUnd, lastPos(p), "a path does not return")
				continue
			}
			r := &renderer{p: c.p, path: p, names: map[*Term]string{}}
			for i, a := range rootParams(f) {
				if i < len(names) {
					r.names[a] = names[i]
				}
			}
			got := r.str(p.Ret[0])
			switch {
			case rx.MatchString(got):
				cr.add(vOK, lastPos(p), "")
			case libUnknown(strings.ReplaceAll(got, "fmt.Sprintf(msg, args)", "msg")) || strings.Contains(got, "call:"):
				cr.add(vUnd, lastPos(p), "the result is "+got)
			default:
				cr.add(vBad, lastPos(p), "the result is "+got)
			}
		}
		cr.done()
	}
	chk("New", "New", []string{"line", "file", "origin", "msg", "args"}, `Error\{message: .*\bmsg\b.*, line: line, filepath: file, origin: origin\}`)
	chk("Line", "Error.Line", []string{"e"}, `e\.line`)
	chk("Filepath", "Error.Filepath", []string{"e"}, `e\.filepath`)
	chk("Message", "Error.Message", []string{"e"}, `e\.message`)
	chk("FromError", "FromError", []string{"err", "line", "file", "origin"}, `nil|Error\{message: .*Error\(err\).*, line: line, filepath: file, origin: origin\}`)
	chk("Meta", "Error.Meta", []string{"e"}, `.*e\.line\b[^-+*/]*`)
	chk("String", "Error.String", []string{"e"}, `.*e\.line\b[^-+*/]*e\.message.*`)
}

// pagePath: a page is evaluated under the path of its file.
func (c *Checker) pagePath(rule string) {
	cr := c.newCase(rule, "the path of the page")
	f := c.p.fn("", "Template.String")
	if f == nil {
		c.und(rule, cr.name, "anchor not found")
		return
	}
	er := c.loadRun(f, []string{"t", "name", "data"}, nil, runOpts{})
	if er == nil {
		c.und(rule, cr.name, "anchor not found")
		return
	}
	for _, p := range er.paths {
		for _, ev := range p.Events {
			if ev.Kind != "call" || ev.Fn != "evaluator.New" || len(ev.Args) != 1 {
				continue
			}
			s := er.specRenderer(p).str(ev.Args[0])
			switch {
			case pageCtx.MatchString(s):
				cr.add(vOK, ev.Pos, "")
			case anyCtx.MatchString(s) && !strings.Contains(s, "loop"):
				cr.add(vBad, ev.Pos, "the page is evaluated with "+s)
			default:
				cr.add(vUnd, ev.Pos, "the page is evaluated with "+s)
			}
		}
	}
	cr.done()
	// the context keeps it
	nc := c.p.fn("ctx", "NewContext")
	if nc == nil {
		return
	}
	kr := c.newCase(rule, "the context keeps the path")
	ps, complete := c.run(nc, runOpts{})
	if !complete {
		kr.add(vUnd, nc.Pos(), "path enumeration is incomplete")
	}
	for _, p := range ps {
		if p.Outcome != "return" || len(p.Ret) != 1 {
			kr.add(vUnd, lastPos(p), "a path does not return")
			continue
		}
		v := c.objField(p, p.Ret[0], "ctx.EvalCtx", "AbsPath")
		switch {
		case v == nil:
			kr.add(vUnd, lastPos(p), "the context is not resolved")
		case v == rootParams(nc)[0]:
			kr.add(vOK, lastPos(p), "")
		default:
			kr.add(vBad, lastPos(p), "the path of the context is "+v.String())
		}
	}
	kr.done()
}

var pageCtx = regexp.MustCompile(`^(?:Ctx\(|EvalCtx\{(?:.*, )?AbsPath: )path‹name›[,})]`)
var anyCtx = regexp.MustCompile(`^(?:Ctx\(|EvalCtx\{)`)
