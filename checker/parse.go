package main

import (
	"go/constant"
	"go/types"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// parserRun analyses functions of the parser with the token stream made
// explicit: every nextToken binds the current token to the previous peek
// token, and recursive parse calls leave both unknown.
type parserRun struct {
	c        *Checker
	tokT     types.Type
	parserT  types.Type
	cur, pk  int
	names    map[string]string // token const value -> name
	consts   map[string]*Term  // token name -> const
	levels   map[string]*Term  // precedence constants
	errs     string            // problem that makes the rules inapplicable
	nextFn   *ssa.Function
	newErrFn *ssa.Function
	params   []*Term // arguments of the last run
	// judge only what is accepted, not the nodes and not what is rejected
	acceptOnly bool
	deref      bool // report possible nil dereferences
	blockSet   int  // 1 when parseBlockStmt never gives nil, -1 when that is not known
}

func (c *Checker) parser() *parserRun {
	pr := &parserRun{c: c, names: map[string]string{}, consts: map[string]*Term{}, levels: map[string]*Term{}}
	pr.tokT = c.p.typeByNm["token.Token"]
	pr.parserT = c.p.typeByNm["parser.Parser"]
	if pr.tokT == nil || pr.parserT == nil {
		pr.errs = "token.Token or parser.Parser not found"
		return pr
	}
	st, ok := pr.parserT.Underlying().(*types.Struct)
	if !ok {
		pr.errs = "parser.Parser is not a struct"
		return pr
	}
	pr.cur, pr.pk = -1, -1
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Name() {
		case "curToken":
			pr.cur = i
		case "peekToken":
			pr.pk = i
		}
	}
	if pr.cur < 0 || pr.pk < 0 {
		pr.errs = "parser.Parser has no curToken/peekToken"
		return pr
	}
	sc := c.p.pkgs["token"].Types.Scope()
	for _, n := range sc.Names() {
		if k, ok := sc.Lookup(n).(*types.Const); ok && shortType(k.Type()) == "token.TokenType" {
			t := mkConst(k.Val(), k.Type())
			pr.names[t.Sym] = n
			pr.consts[n] = t
		}
	}
	ps := c.p.pkgs["parser"].Types.Scope()
	for _, n := range ps.Names() {
		if k, ok := ps.Lookup(n).(*types.Const); ok && k.Val().Kind() == constant.Int {
			pr.levels[n] = mkConst(k.Val(), types.Typ[types.Int])
		}
	}
	pr.nextFn = c.p.fn("parser", "Parser.nextToken")
	pr.newErrFn = c.p.fn("parser", "Parser.newError")
	if pr.nextFn == nil {
		pr.errs = "parser.Parser.nextToken not found"
	}
	return pr
}

func (pr *parserRun) addr(p *Term, field int) *Term {
	st := pr.parserT
	return mkFieldAddr(fieldOwner(st, field), p, types.NewPointer(pr.tokT))
}

func (pr *parserRun) typeOf(tok *Term) *Term {
	if tok == nil {
		return nil
	}
	s := pr.tokT.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == "Type" {
			if tok.Op == "struct" {
				return tok.Args[i]
			}
			return mk(".f", fieldOwner(pr.tokT, i), s.Field(i).Type(), nil, tok)
		}
	}
	return nil
}

var parseCuts = []string{"parser.Parser.parseExpression", "parser.Parser.parseStatement", "parser.Parser.parseBlockStmt"}

// run enumerates the paths of a parser function.
func (pr *parserRun) run(f *ssa.Function, extraOpaque []string, curType string, args []*Term) ([]*Path, bool) {
	return pr.runX(f, extraOpaque, curType, args, false)
}

func (pr *parserRun) runX(f *ssa.Function, extraOpaque []string, curType string, args []*Term, _ bool) ([]*Path, bool) {
	c := pr.c
	if args == nil {
		args = rootParams(f)
	}
	recv := args[0]
	if len(f.FreeVars) > 0 && len(f.Params) == 0 {
		recv = nil
	}
	cuts := append([]string{}, parseCuts...)
	opq := []string{"lexer.Lexer.NextToken"}
	for _, n := range extraOpaque {
		if strings.HasPrefix(n, "parser.") {
			cuts = append(cuts, n)
		} else {
			opq = append(opq, n)
		}
	}
	setTok := func(e *Exec, st *State, p, cur, pk *Term) {
		e.store(st, pr.addr(p, pr.cur), cur, pr.tokT)
		e.store(st, pr.addr(p, pr.pk), pk, pr.tokT)
	}
	freshTok := func(st *State, tag string) *Term {
		return mk("tok", tag+strconv.Itoa(st.num("tok"+tag)), pr.tokT, nil)
	}
	model := map[string]func(e *Exec, st *State, x ssa.CallInstruction, args []*Term) bool{}
	model["parser.Parser.nextToken"] = func(e *Exec, st *State, x ssa.CallInstruction, args []*Term) bool {
		p := args[0]
		cur := e.load(st, pr.addr(p, pr.pk), pr.tokT)
		pk := freshTok(st, "t")
		setTok(e, st, p, cur, pk)
		e.event(st, &Event{Kind: "next", Args: []*Term{cur, pk}, Pos: x.Pos(), Fun: st.top().fn})
		return true
	}
	model["parser.Parser.newError"] = func(e *Exec, st *State, x ssa.CallInstruction, args []*Term) bool {
		e.event(st, &Event{Kind: "perr", Fn: "newError", Args: args, Pos: x.Pos(), Fun: st.top().fn,
			Vals: map[string]*Term{"cur": e.load(st, pr.addr(args[0], pr.cur), pr.tokT), "peek": e.load(st, pr.addr(args[0], pr.pk), pr.tokT)}})
		return true
	}
	model["parser.Parser.checkNesting"] = func(e *Exec, st *State, x ssa.CallInstruction, args []*Term) bool {
		// the limit: either within it, or an error is recorded
		o := st.clone()
		e.event(o, &Event{Kind: "perr", Fn: "nesting", Pos: x.Pos(), Args: args})
		if v := x.Value(); v != nil {
			o.top().env[v] = mkBool(false)
			st.top().env[v] = mkBool(true)
		}
		e.work = append(e.work, o)
		return true
	}
	for _, n := range cuts {
		name := n
		model[name] = func(e *Exec, st *State, x ssa.CallInstruction, args []*Term) bool {
			var typ types.Type
			if v := x.Value(); v != nil {
				typ = v.Type()
			}
			f := x.Common().StaticCallee()
			res := mk("call", name+"#"+strconv.Itoa(st.num(name)), typ, f, args...)
			e.event(st, &Event{Kind: "call", Fn: name, Fun: f, Args: args, Res: res, Pos: x.Pos(),
				Vals: map[string]*Term{"cur": e.load(st, pr.addr(args[0], pr.cur), pr.tokT), "peek": e.load(st, pr.addr(args[0], pr.pk), pr.tokT)}})
			for _, a := range args {
				st.escape(a)
			}
			if f != nil {
				st.havoc(e.p.mods[f])
			}
			setTok(e, st, args[0], freshTok(st, "c"), freshTok(st, "p"))
			if v := x.Value(); v != nil {
				st.top().env[v] = e.spread(res, typ)
			}
			return true
		}
	}
	mem := map[*Term]*Term{}
	facts := newFacts()
	tok0 := mk("tok", "cur0", pr.tokT, nil)
	tok1 := mk("tok", "peek0", pr.tokT, nil)
	if recv != nil {
		e := newExec(c.p, &Policy{})
		st := &State{mem: mem, epoch: map[string]int{}, facts: facts, counts: map[string]int{}, escaped: map[*Term]bool{}}
		setTok(e, st, recv, tok0, tok1)
	}
	if curType != "" {
		k := pr.consts[curType]
		if k == nil {
			return nil, false
		}
		facts = facts.assume(c.p, mkEq(pr.typeOf(tok0), k), true)
	}
	pr.params = args
	return c.run(f, runOpts{model: model, facts: facts, args: args, mem: mem, opaque: opq, max: 4000, deref: pr.deref})
}

// tokName is the known type of a token on a path: its name or "?".
func (pr *parserRun) tokName(p *Path, tok *Term) string {
	t := pr.typeOf(tok)
	if t == nil {
		return "?"
	}
	if k := p.Facts.eqConst(t); k != nil {
		if n, ok := pr.names[k.Sym]; ok {
			return n
		}
	}
	return "?"
}

func (pr *parserRun) levelName(t *Term) string {
	if t == nil {
		return "?"
	}
	var ns []string
	for n, k := range pr.levels {
		if k == t && strings.ToUpper(n) == n {
			ns = append(ns, n)
		}
	}
	sort.Strings(ns)
	if len(ns) > 0 {
		return ns[0]
	}
	if n, ok := t.intVal(); ok {
		return strconv.FormatInt(n, 10)
	}
	return "?"
}

// trace renders the token actions of a path: T:<type> for each consumed
// token, E(level)/S/B for recursive parses, ! for recorded errors, L for
// loops.
func (pr *parserRun) trace(p *Path) string {
	var s []string
	for _, ev := range p.Events {
		switch ev.Kind {
		case "next":
			s = append(s, "T:"+pr.tokName(p, ev.Args[0]))
		case "perr":
			s = append(s, "!")
		case "loop":
			s = append(s, "L")
		case "back":
			s = append(s, "K")
		case "call":
			switch baseName(ev.Fn) {
			case "parseExpression":
				s = append(s, "E("+pr.levelName(ev.Args[1])+")")
			case "parseStatement":
				s = append(s, "S")
			case "parseBlockStmt":
				s = append(s, "B")
			default:
				if strings.HasPrefix(ev.Fn, "parser.") {
					s = append(s, baseName(ev.Fn))
				}
			}
		}
	}
	return strings.Join(s, " ")
}

// lastLoop returns the part of a back path's trace after the last loop entry.
func lastLoop(trace string) string {
	ws := strings.Fields(trace)
	for i := len(ws) - 1; i >= 0; i-- {
		if ws[i] == "L" {
			return strings.Join(ws[i+1:], " ")
		}
	}
	return trace
}

func (pr *parserRun) renderer(p *Path) *renderer {
	r := &renderer{p: pr.c.p, path: p, names: map[*Term]string{}}
	for i, a := range pr.params {
		r.names[a] = []string{"p", "a1", "a2", "a3"}[min(i, 3)]
	}
	r.fn = func(r *renderer, t *Term) (string, bool) {
		switch t.Op {
		case "call":
			n := t.Sym
			if i := strings.LastIndex(n, "."); i >= 0 && strings.HasPrefix(n, "parser.") {
				n = n[i+1:]
				n = strings.Replace(n, "parseExpression", "E", 1)
				n = strings.Replace(n, "parseBlockStmt", "B", 1)
				n = strings.Replace(n, "parseStatement", "S", 1)
				return n, true
			}
		case "tok":
			return t.Sym, true
		case "struct":
			if t.Sym == "token.Token" {
				return "token", true
			}
		}
		return "", false
	}
	return r
}

// producers maps token names to the function value registered in one of the
// parser's dispatch tables by the constructor.
func (pr *parserRun) registrations() (prefix, infix map[string]*ssa.Function, ok bool) {
	f := pr.c.p.fn("parser", "New")
	ps, complete := pr.c.run(f, runOpts{opaque: []string{"parser.Parser.nextToken", "lexer.Lexer.NextToken"}})
	if !complete {
		return nil, nil, false
	}
	prefix, infix = map[string]*ssa.Function{}, map[string]*ssa.Function{}
	n := 0
	for _, p := range ps {
		if p.Outcome != "return" {
			continue
		}
		n++
		for _, ev := range p.Events {
			if ev.Kind != "mapupdate" || len(ev.Args) != 1 || !ev.Args[0].isConst() {
				continue
			}
			name, isTok := pr.names[ev.Args[0].Sym]
			v := ev.Val
			if !isTok || v == nil || v.Op != "closure" && v.Op != "func" {
				continue
			}
			fn := unwrapBound(v.Obj.(*ssa.Function))
			sig := v.Obj.(*ssa.Function).Signature
			np := sig.Params().Len()
			if v.Op == "func" && sig.Recv() == nil && np > 0 && strings.Contains(shortType(sig.Params().At(0).Type()), "Parser") {
				np--
			}
			if np == 0 {
				prefix[name] = fn
			} else {
				infix[name] = fn
			}
		}
	}
	return prefix, infix, n > 0 && len(prefix) > 0 && len(infix) > 0
}

// unwrapBound finds the method behind a bound-method wrapper.
func unwrapBound(f *ssa.Function) *ssa.Function {
	if f.Synthetic == "" || len(f.Blocks) != 1 {
		return f
	}
	for _, in := range f.Blocks[0].Instrs {
		if c, ok := in.(*ssa.Call); ok {
			if g := c.Common().StaticCallee(); g != nil {
				return g
			}
		}
	}
	return f
}

// globalMap returns the constant entries of a package-level map variable.
func (p *Prog) globalMap(pkg, name string) (map[string]*Term, *ssa.Global) {
	sp := p.spkgs[pkg]
	if sp == nil {
		return nil, nil
	}
	g, ok := sp.Members[name].(*ssa.Global)
	if !ok {
		return nil, nil
	}
	if p.gwritten[g] {
		return nil, g
	}
	m := p.gmem.mem[mk("global", globalName(g), g.Type(), g)]
	if m == nil {
		return nil, g
	}
	r := map[string]*Term{}
	for a, v := range p.gmem.mem {
		if a.Op == "&m" && a.Args[0] == m {
			r[a.Args[1].Sym] = v
		}
	}
	return r, g
}

var _ = regexp.MustCompile
