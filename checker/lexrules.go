package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ------------------------------------------------------------ the cursor

// cursorRule checks that the real step of the lexer keeps the fields the
// model derives: they are functions of the position, the line counts the line
// feeds before it, and the column the bytes since the last one.
func (lx *lexRun) cursorRule(rule string) {
	c := lx.c
	if lx.typ == nil || lx.adv == nil {
		c.und(rule, "lexer cursor", "%s", lx.why)
		return
	}
	name := "readChar keeps line, column and bytes in step with the position"
	if strings.Contains(lx.why, "by itself") {
		c.und(rule, name, "%s", lx.why)
		return
	}
	if lx.why != "" {
		c.und(rule, name, "%s", lx.why)
		return
	}
	c.sawFn(lx.adv)
	n := mkLen(lx.input)
	next := addInt(lx.pos, 1)
	// the three places a step can start from: inside, on the last byte, at the end
	type scene struct {
		name string
		at   func(i *Term) *Term // char at a position
		mk   func() *Facts
		nl   int // the byte left behind is a line feed
		end  bool
		last bool
	}
	facts := func(conds ...*Term) *Facts {
		return c.with(newFacts(), append([]*Term{mkNot(mkLess(lx.pos, mkInt(0)))}, conds...)...)
	}
	byteP, byteN := lx.byteAt(lx.pos), lx.byteAt(next)
	nl := mkEq(byteP, mkByte('\n'))
	var scenes []scene
	for _, k := range []int{0, 1} {
		cond := nl
		if k == 0 {
			cond = mkNot(nl)
		}
		what := []string{"an ordinary byte", "a line feed"}[k]
		scenes = append(scenes,
			scene{name: "leaving " + what, nl: k, mk: func() *Facts { return facts(cond, mkLess(next, n)) }},
			scene{name: "leaving " + what + " that is the last byte", nl: k, last: true, mk: func() *Facts {
				return facts(cond, mkLess(lx.pos, n), mkNot(mkLess(next, n)))
			}})
	}
	scenes = append(scenes, scene{name: "at the end", end: true, mk: func() *Facts { return facts(mkEq(lx.pos, n)) }})
	for _, s := range scenes {
		cr := c.newCase(rule, name+": "+s.name)
		f := s.mk()
		if f == nil {
			cr.add(vUnd, token.NoPos, "the scene is contradictory")
			cr.done()
			continue
		}
		mem := map[*Term]*Term{}
		pre := func(field string) *Term {
			switch field {
			case "char":
				if s.end {
					return mkByte(0)
				}
				return byteP
			case "shouldResetCol":
				if s.end {
					return mkBool(false)
				}
				return mkBool(s.nl == 1)
			}
			return lx.derived(field, lx.pos)
		}
		post := func(field string) *Term {
			if s.end {
				return pre(field)
			}
			switch field {
			case "char":
				if s.last {
					return mkByte(0)
				}
				return byteN
			case "shouldResetCol":
				if s.last {
					return mkBool(false)
				}
				return mkEq(byteN, mkByte('\n'))
			case "line":
				return addInt(lx.lineAt(lx.pos), int64(s.nl))
			case "col":
				if s.nl == 1 {
					return mkInt(0)
				}
				return addInt(lx.colAt(lx.pos), 1)
			case "prevLine":
				return lx.lineAt(lx.pos)
			case "prevCol":
				return lx.colAt(lx.pos)
			}
			return lx.derived(field, next)
		}
		var fields []string
		for fn := range derivedField {
			fields = append(fields, fn)
		}
		sort.Strings(fields)
		// the byte left behind and the one of the new position are bytes
		for _, fn := range fields {
			if fn != "input" {
				mem[lx.addr(fn)] = pre(fn)
			}
		}
		args := []*Term{lx.recv}
		er := c.fnRun(lx.adv, nil, runOpts{args: args, mem: mem, facts: f, load: func(st *State, addr *Term) *Term {
			if addr == lx.addr("input") {
				return lx.input
			}
			return nil
		}}, nil)
		er.names[lx.recv], er.names[lx.pos], er.names[lx.input] = "l", "P", "input"
		if !er.complete {
			cr.add(vUnd, token.NoPos, "too many paths")
		}
		for _, p := range er.paths {
			if p.Outcome != "return" {
				cr.add(vUnd, p.Pos, "a step that does not simply return")
				continue
			}
			ok := true
			for _, fn := range fields {
				if fn == "input" {
					if v, ch := p.St.mem[lx.addr(fn)]; ch && v != lx.input {
						cr.add(vBad, lastPos(p), "the input is changed")
						ok = false
					}
					continue
				}
				got := p.St.mem[lx.addr(fn)]
				want := post(fn)
				if got == want || c.sameUnder(p.Facts, got, want) {
					continue
				}
				ok = false
				r := lx.renderer(er, p)
				v := vBad
				if !lx.known(p, got) {
					v = vUnd
				}
				cr.add(v, lastPos(p), fmt.Sprintf("after the step %s is %s, it should be %s", fn, r.str(got), r.str(want)))
				break
			}
			if ok {
				cr.add(vOK, lastPos(p), "")
			}
		}
		cr.done()
	}
	lx.newRule(rule)
}

// sameUnder decides equality of two values under facts.
func (c *Checker) sameUnder(f *Facts, a, b *Term) bool {
	if a == nil || b == nil {
		return false
	}
	if a == b {
		return true
	}
	if a.Typ != nil && isBoolType(a.Typ) {
		x, y := f.decide(c.p, a), f.decide(c.p, b)
		if x >= 0 && x == y {
			return true
		}
		return false
	}
	return f.decide(c.p, mkEq(a, b)) == 1
}

// known reports whether a value of the lexer is a function of the input and
// of the fields at the start.
func (lx *lexRun) known(p *Path, t *Term) bool {
	return lx.c.resolved(p, t, func(t *Term) bool {
		switch t.Op {
		case "line", "col", "dir", "escdir", "sidx":
			return lx.known(p, t.Args[len(t.Args)-1])
		case "loopm":
			return t.Args[0] == lx.addr("pos") || t.Args[0].Op == "&buf" || t.Args[0].Op == "&f" && t.Args[0].Args[0] == lx.recv
		case "loopv", "loopk":
			return true
		case "alloc":
			return true
		}
		return false
	})
}

// newRule: a new lexer stands on the first byte, in text.
func (lx *lexRun) newRule(rule string) {
	c := lx.c
	f := c.p.fn("lexer", "New")
	name := "New starts on the first byte, in text, at line 0 and column 0"
	if f == nil {
		c.und(rule, name, "lexer.New not found")
		return
	}
	c.sawFn(f)
	cr := c.newCase(rule, name)
	args := rootParams(f)
	er := c.fnRun(f, []string{"input"}, runOpts{args: args}, nil)
	if er == nil || len(args) != 1 || !isString(args[0].Typ) {
		cr.add(vUnd, token.NoPos, "New does not take the source")
		cr.done()
		return
	}
	in := args[0]
	for _, p := range er.paths {
		if p.Outcome != "return" || len(p.Ret) != 1 {
			cr.add(vUnd, p.Pos, "a path that does not return a lexer")
			continue
		}
		l := p.Ret[0]
		if l.Op != "alloc" {
			cr.add(vUnd, lastPos(p), "the result is not a new Lexer")
			continue
		}
		empty := p.Facts.decide(c.p, mkLess(mkInt(0), mkLen(in))) == 0
		nonEmpty := p.Facts.decide(c.p, mkLess(mkInt(0), mkLen(in))) == 1
		first := sidx(in, mkInt(0))
		want := map[string]*Term{"input": in, "pos": mkInt(0), "readPos": mkInt(1), "line": mkInt(0), "col": mkInt(0),
			"isHTML": mkBool(true), "isDirective": mkBool(false), "countDirectiveParentheses": mkInt(0), "countCurlyBraces": mkInt(0)}
		switch {
		case empty:
			want["char"], want["shouldResetCol"] = mkByte(0), mkBool(false)
		case nonEmpty:
			want["char"], want["shouldResetCol"] = first, mkEq(first, mkByte('\n'))
		}
		ok := true
		var fields []string
		for fn := range want {
			fields = append(fields, fn)
		}
		sort.Strings(fields)
		for _, fn := range fields {
			a := mkFieldAddr(lexT+fn, l, nil)
			got := p.St.mem[a]
			if got == nil {
				got = zeroTerm(want[fn].Typ)
			}
			if got == want[fn] || c.sameUnder(p.Facts, got, want[fn]) || got.isConst() && got.Sym == want[fn].Sym {
				continue
			}
			v := vBad
			if !lx.known(p, got) && !(fn == "input" && altersText(got, in)) {
				v = vUnd
			}
			ok = false
			cr.add(v, lastPos(p), fmt.Sprintf("%s starts as %s", fn, er.specRenderer(p).str(got)))
			break
		}
		if ok {
			cr.add(vOK, lastPos(p), "")
		}
	}
	cr.done()
}

// altersText: t is the text x after library functions that change some texts.
func altersText(t, x *Term) bool {
	if t.Op != "call" || len(t.Args) == 0 {
		return false
	}
	n := strings.SplitN(t.Sym, "#", 2)[0]
	if t.Args[0] != x && !altersText(t.Args[0], x) {
		return false
	}
	con := func(i int) (string, bool) {
		if i >= len(t.Args) {
			return "", false
		}
		return t.Args[i].strVal()
	}
	switch n {
	case "strings.TrimSpace", "strings.ToLower", "strings.ToUpper", "strings.ToTitle", "strings.Title", "html.UnescapeString", "html.EscapeString":
		return true
	case "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.TrimPrefix", "strings.TrimSuffix":
		s, ok := con(1)
		return ok && s != ""
	case "strings.ReplaceAll":
		o, ok1 := con(1)
		w, ok2 := con(2)
		return ok1 && ok2 && o != w
	case "strings.Replace":
		o, ok1 := con(1)
		w, ok2 := con(2)
		if len(t.Args) != 4 {
			return false
		}
		k, ok3 := t.Args[3].intVal()
		return ok1 && ok2 && ok3 && o != w && k != 0
	case "strings.ToValidUTF8":
		return true
	}
	return false
}

// ------------------------------------------------------------ tokens

// lexTok is a returned token on a path of NextToken.
type lexTok struct {
	p              *Path
	typ, lit       *Term
	sl, sc, el, ec *Term
	start, end     *Term
	pre, in        []*lexLoop // loops before and inside the token
	advs           int        // bytes consumed outside loops before the token starts
	dir            *Term      // a directive starts at this position
}

type lexLoop struct {
	id    string
	hdr   token.Pos
	entry *Term
	vals  map[string]*Term
	buf   map[*Term]*Term // buffer cells and their contents at entry
}

type lexModel struct {
	lx    *lexRun
	er    *evalRun
	toks  []*lexTok
	backs []*Path
	why   string
	tt    map[string]*Term
	names map[string]string
	extra map[*Term]*Term // constants that are computed by the code
}

// loopsOf lists the loops entered on a path.
func (lx *lexRun) loopsOf(p *Path) []*lexLoop {
	var out []*lexLoop
	byID := map[string]*lexLoop{}
	for _, ev := range p.Events {
		switch ev.Kind {
		case "loop":
			l := &lexLoop{id: ev.Loop, hdr: ev.Pos, vals: ev.Vals, buf: map[*Term]*Term{}}
			byID[ev.Loop] = l
			out = append(out, l)
		case "acc":
			l := byID[ev.Loop]
			if l == nil {
				continue
			}
			if ev.Addr == lx.addr("pos") {
				l.entry = ev.Val
			} else {
				l.buf[ev.Addr] = ev.Val
			}
		}
	}
	return out
}

func (lx *lexRun) posIn(id string) *Term {
	return mk("loopm", id, types.Typ[types.Int], nil, lx.addr("pos"))
}

func (lx *lexRun) endPos(p *Path) *Term {
	if v, ok := p.St.mem[lx.addr("pos")]; ok {
		return v
	}
	return lx.pos
}

func structField(t *Term, name string) *Term {
	if t == nil || t.Op != "struct" || t.Typ == nil {
		return nil
	}
	s, ok := t.Typ.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name && i < len(t.Args) {
			return t.Args[i]
		}
	}
	return nil
}

// nextToken enumerates NextToken, with everything it calls inlined.
func (c *Checker) nextToken() *lexModel {
	if c.lexm != nil {
		return c.lexm
	}
	lx := c.lexer()
	m := &lexModel{lx: lx, tt: map[string]*Term{}, names: map[string]string{}, extra: map[*Term]*Term{}}
	c.lexm = m
	if lx.why != "" {
		m.why = lx.why
		return m
	}
	f := c.p.fn("lexer", "Lexer.NextToken")
	if f == nil {
		m.why = "lexer.Lexer.NextToken not found"
		return m
	}
	sc := c.p.pkgs["token"].Types.Scope()
	for _, n := range sc.Names() {
		if k, ok := sc.Lookup(n).(*types.Const); ok && shortType(k.Type()) == "token.TokenType" {
			t := mkConst(k.Val(), k.Type())
			m.tt[n] = t
			m.names[t.Sym] = n
		}
	}
	c.sawFn(f)
	lx.directives = true
	m.er = lx.run(f, lx.opts(), nil)
	if !m.er.complete {
		m.why = "too many paths in NextToken"
		return m
	}
	for _, p := range m.er.paths {
		switch p.Outcome {
		case "back":
			m.backs = append(m.backs, p)
		case "return":
			t := &lexTok{p: p, end: lx.endPos(p)}
			if len(p.Ret) == 1 {
				t.typ, t.lit = structField(p.Ret[0], "Type"), structField(p.Ret[0], "Literal")
				pos := structField(p.Ret[0], "Pos")
				t.sl, t.sc, t.el, t.ec = structField(pos, "StartLine"), structField(pos, "StartCol"), structField(pos, "EndLine"), structField(pos, "EndCol")
			}
			if t.typ == nil || t.sl == nil || t.sc == nil || t.el == nil || t.ec == nil {
				m.why = "a token returned by NextToken is not a literal token.Token with its position"
				return m
			}
			if m.infeasible(p.Facts) {
				continue
			}
			m.locate(t)
			for b, v := range p.Facts.bools {
				if v && b.Op == "dir" {
					inside := false
					for _, l := range t.in {
						if lx.posIn(l.id) == b.Args[0] {
							inside = true
						}
					}
					if !inside {
						t.dir = b.Args[0]
					}
				}
			}
			m.toks = append(m.toks, t)
		case "panic":
			// judged by the totality rules
		default:
			m.why = "a path of NextToken was not followed to its end"
			return m
		}
	}
	if len(m.toks) == 0 {
		m.why = "no token is returned"
	}
	return m
}

// infeasible paths compare a table's result with a value it never has.
func (m *lexModel) infeasible(f *Facts) bool {
	for b, v := range f.bools {
		if v && (b.Op == "dir" || b.Op == "escdir") && f.decide(m.lx.c.p, mkEq(m.lx.byteAt(b.Args[0]), mkByte(64))) == 0 {
			return true
		}
		if !v || b.Op != "==" {
			continue
		}
		for i := 0; i < 2; i++ {
			k, t := b.Args[i], b.Args[1-i]
			if k.isConst() && !m.canBe(t, k) {
				return true
			}
		}
	}
	return false
}

// canBe is false when the value is read from a constant table (or carried
// through a loop from one) that does not hold the constant.
func (m *lexModel) canBe(t, k *Term) bool {
	c := m.lx.c
	switch t.Op {
	case "const":
		return t.Sym == k.Sym
	case "lookup":
		if !c.p.gtables[t.Args[0]] {
			return true
		}
		if z := zeroTerm(t.Typ); z.Sym == k.Sym {
			return true
		}
		for a, v := range c.p.gmem.mem {
			if a.Op == "&m" && a.Args[0] == t.Args[0] && (!v.isConst() || v.Sym == k.Sym) {
				return true
			}
		}
		return false
	case "loopv":
		id, name, _ := strings.Cut(t.Sym, ".")
		seen := false
		for _, p := range m.er.paths {
			for _, ev := range p.Events {
				if ev.Loop != id || ev.Kind != "loop" && ev.Kind != "back" {
					continue
				}
				if v := ev.Vals[name]; v != nil {
					seen = true
					if v != t && v.Op != "loopv" && m.canBe(v, k) {
						return true
					}
					if v.Op == "loopv" && v != t {
						return true
					}
				}
			}
		}
		return !seen
	}
	return true
}

// locate finds where the token starts among the positions the path visits,
// and which loops ran before and inside it.
func (m *lexModel) locate(t *lexTok) {
	lx := m.lx
	if t.sl.Op != "line" || t.sc.Op != "col" || t.sl.Args[0] != t.sc.Args[0] {
		return
	}
	x := t.sl.Args[0]
	cur := lx.pos
	advs := 0
	found := cur == x
	byID := map[string]*lexLoop{}
	ls := lx.loopsOf(t.p)
	for _, l := range ls {
		byID[l.id] = l
	}
	if found {
		t.start = x
	}
	for _, ev := range t.p.Events {
		switch ev.Kind {
		case "acc":
			if ev.Addr != lx.addr("pos") {
				continue
			}
			cur = lx.posIn(ev.Loop)
			if found {
				t.in = append(t.in, byID[ev.Loop])
			} else {
				t.pre = append(t.pre, byID[ev.Loop])
			}
		case "adv":
			cur = addInt(ev.Args[0], 1)
			if !found {
				advs++
			}
		}
		if !found && cur == x {
			found = true
			t.start, t.advs = x, advs
		}
	}
}

// lexEnv fixes the bytes from a position on (-1: the end of the input) and
// the state of the lexer.
type lexEnv struct {
	html, isDir  bool
	curly, paren int64
	b            []int
	dir          int // 1: a directive, 2: an escaped one
	prev         int // the byte before, -2: not fixed, -1: there is none
}

func (lx *lexRun) envMap(x *Term, e lexEnv, terms []*Term) map[*Term]*Term {
	m := map[*Term]*Term{}
	for i, b := range e.b {
		v := b
		if b < 0 {
			v = 0
		}
		m[lx.byteAt(addInt(x, int64(i)))] = mkByte(byte(v))
	}
	if e.prev >= 0 {
		m[lx.byteAt(addInt(x, -1))] = mkByte(byte(e.prev))
	}
	m[mk("dir", "", types.Typ[types.Bool], nil, x)] = mkBool(e.dir == 1)
	m[mk("escdir", "", types.Typ[types.Bool], nil, x)] = mkBool(e.dir == 2)
	flag := map[*Term]*Term{lx.addr("isHTML"): mkBool(e.html), lx.addr("isDirective"): mkBool(e.isDir),
		lx.addr("countCurlyBraces"): mkInt(e.curly), lx.addr("countDirectiveParentheses"): mkInt(e.paren)}
	for _, t := range terms {
		if (t.Op == "init" || t.Op == "loopm") && flag[t.Args[0]] != nil {
			m[t] = flag[t.Args[0]]
		}
	}
	return m
}

// flagTerms are the values of the lexer's mode on a path.
func (lx *lexRun) flagTerms(p *Path) []*Term {
	if ts, ok := lx.flags[p]; ok {
		return ts
	}
	set := map[*Term]bool{}
	add := func(t *Term) {
		if t == nil {
			return
		}
		t.walk(func(t *Term) bool {
			if (t.Op == "init" || t.Op == "loopm") && t.Args[0].Op == "&f" && t.Args[0].Args[0] == lx.recv {
				set[t] = true
			}
			return true
		})
	}
	for b := range p.Facts.bools {
		add(b)
	}
	for _, v := range p.St.mem {
		add(v)
	}
	for _, v := range p.Ret {
		add(v)
	}
	var out []*Term
	for t := range set {
		out = append(out, t)
	}
	if lx.flags == nil {
		lx.flags = map[*Path][]*Term{}
	}
	lx.flags[p] = out
	return out
}

// lenFacts adds what the environment says about the end of the input.
func (lx *lexRun) lenFacts(f *Facts, x *Term, e lexEnv) *Facts {
	if f == nil {
		return nil
	}
	n := mkLen(lx.input)
	for i, b := range e.b {
		c := mkLess(addInt(x, int64(i)), n)
		f = f.assume(lx.c.p, c, b >= 0)
		if f == nil {
			return nil
		}
	}
	switch {
	case e.prev == -1:
		f = f.assume(lx.c.p, mkEq(x, mkInt(0)), true)
	case e.prev >= 0:
		f = f.assume(lx.c.p, mkLess(mkInt(0), x), true)
	}
	return f
}

// inst instantiates a path in an environment at a position; nil facts when
// the path is not taken there.
func (m *lexModel) inst(p *Path, x *Term, e lexEnv, terms []*Term) (*Facts, map[*Term]*Term) {
	sub := m.lx.envMap(x, e, terms)
	f := m.lx.c.substFacts(p.Facts, sub)
	if f == nil {
		return nil, nil
	}
	f = m.lx.lenFacts(f, x, e)
	if f == nil || m.infeasible(f) {
		return nil, nil
	}
	return f, sub
}

// ------------------------------------------------------------ spans

// isSkip: the loop consumes white space inside code, or comments.
func (m *lexModel) skipLoop(p *Path, l *lexLoop) (verdict, string) {
	lx := m.lx
	q := lx.posIn(l.id)
	seen := false
	for _, b := range m.backs {
		if b.Loop != l.id {
			continue
		}
		var bl *lexLoop
		for _, x := range lx.loopsOf(b) {
			if x.id == l.id {
				bl = x
			}
		}
		if bl == nil || bl.hdr != l.hdr {
			continue
		}
		seen = true
		e := lx.endPos(b)
		if e == q {
			continue
		}
		if e == addInt(q, 1) {
			// one byte, which must be white space in code
			terms := lx.flagTerms(b)
			for ch := 0; ch < 256; ch++ {
				for _, html := range []bool{true, false} {
					f, _ := m.inst(b, q, lexEnv{html: html, b: []int{ch}, prev: -2}, terms)
					if f == nil {
						continue
					}
					if html || !isSpaceByte(ch) {
						return vBad, fmt.Sprintf("the byte %s (text: %v) belongs to no token", byteName(ch), html)
					}
				}
			}
			continue
		}
		if ok, why := m.commentBack(b, q); ok {
			continue
		} else if why != "" {
			return vBad, why
		}
		return vUnd, "bytes are skipped in a way that is not recognised"
	}
	if !seen {
		return vUnd, "a loop before the token is not understood"
	}
	return vOK, ""
}

func isSpaceByte(c int) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }

// commentBack: the path goes around the token loop over a whole comment; the
// details are checked by commentRule.
func (m *lexModel) commentBack(b *Path, q *Term) (bool, string) {
	lx := m.lx
	// {{-- is known at the first position the path consumes
	for _, ev := range b.Events {
		if ev.Kind != "adv" {
			continue
		}
		x := ev.Args[0]
		for i, ch := range []byte("{{--") {
			if b.Facts.decide(lx.c.p, mkEq(lx.byteAt(addInt(x, int64(i))), mkByte(ch))) != 1 {
				return false, "bytes that are not a comment belong to no token"
			}
		}
		return true, ""
	}
	return false, ""
}

// spanRule: every token starts where the last one ended (after white space
// and comments) and ends on the last byte it consumed.
func (m *lexModel) spanRule(rule string) {
	c := m.lx.c
	lx := m.lx
	if m.why != "" {
		c.und(rule, "token spans", "%s", m.why)
		return
	}
	eof := m.tt["EOF"]
	groups := map[string]*caseRun{}
	var order []string
	for _, t := range m.toks {
		if t.dir != nil && t.start != t.dir {
			continue // whether it can be reached is decided by directiveRule
		}
		kind := m.kindOf(t)
		cr := groups[kind]
		if cr == nil {
			cr = c.newCase(rule, "NextToken: span of "+kind)
			groups[kind] = cr
			order = append(order, kind)
		}
		r := lx.renderer(m.er, t.p)
		pos := lastPos(t.p)
		known := lx.known(t.p, t.sl) && lx.known(t.p, t.sc) && lx.known(t.p, t.el) && lx.known(t.p, t.ec)
		wrong := func(f string, a ...any) {
			v := vBad
			if !known {
				v = vUnd
			}
			cr.add(v, pos, fmt.Sprintf(f, a...))
		}
		if t.start == nil {
			wrong("the token starts at line %s, column %s, which is not where its first byte is", r.str(t.sl), r.str(t.sc))
			continue
		}
		if t.advs > 0 {
			wrong("%d byte(s) are consumed before the position of the token is taken (%s)", t.advs, r.str(t.start))
			continue
		}
		bad := false
		for _, l := range t.pre {
			v, why := m.skipLoop(t.p, l)
			if v != vOK {
				cr.add(v, pos, why)
				bad = true
				break
			}
		}
		if bad {
			continue
		}
		last := addInt(t.end, -1)
		if t.typ == eof {
			if t.end != t.start {
				wrong("the end-of-input token consumes input")
				continue
			}
			if t.p.Facts.decide(c.p, mkLess(t.start, mkLen(lx.input))) != 0 {
				wrong("the end-of-input token is returned before the end")
				continue
			}
			last = t.end
		} else if why := m.skippedRest(t); why != "" {
			cr.add(vUnd, pos, why)
			continue
		} else if m.unclosed(t) {
			// the rest of the input is dropped with the error
			last = addInt(t.start, 3)
		}
		if t.el != lx.lineAt(last) || t.ec != lx.colAt(last) {
			wrong("the token ends on %s, its end is reported at line %s, column %s", r.str(last), r.str(t.el), r.str(t.ec))
			continue
		}
		cr.add(vOK, pos, "")
	}
	sort.Strings(order)
	for _, k := range order {
		groups[k].done()
	}
	lx.cursorRule(rule)
}

func (m *lexModel) skippedRest(t *lexTok) string { return "" }

// unclosed: the token is the error for a comment without an end.
func (m *lexModel) unclosed(t *lexTok) bool {
	if t.typ != m.tt["ILLEGAL"] || t.start == nil {
		return false
	}
	lx := m.lx
	for i, ch := range []byte("{{--") {
		if t.p.Facts.decide(lx.c.p, mkEq(lx.byteAt(addInt(t.start, int64(i))), mkByte(ch))) != 1 {
			return false
		}
	}
	s, ok := t.lit.strVal()
	return ok && s == "{{--"
}

func (m *lexModel) kindOf(t *lexTok) string {
	if n := m.names[t.typ.Sym]; t.typ.isConst() && n != "" {
		return n
	}
	if len(t.in) > 0 {
		if lit := t.lit; lit != nil && lit.Op == "slice" {
			return "words"
		}
		return "directives"
	}
	if t.typ.Op == "lookup" {
		return "table tokens"
	}
	return "other tokens"
}

// ------------------------------------------------------------ lexemes

type wantTok struct {
	name                string
	n                   int // bytes, -1: decided by a scanning loop
	lit                 string
	html, isDir         bool
	curly, paren        int64
	skip, comment, text bool
}

var simpleLex = map[byte]string{'*': "MUL", '?': "QUESTION", '/': "DIV", '%': "MOD", ',': "COMMA", '[': "LBRACKET", ']': "RBRACKET", '.': "DOT", ';': "SEMI", ':': "COLON",
	'+': "ADD", '-': "SUB", '!': "NOT", '=': "ASSIGN", '<': "LTHAN", '>': "GTHAN"}

var doubleLex = map[string]string{"++": "INC", "--": "DEC", "!=": "NOT_EQ", "==": "EQ", "<=": "LTHAN_EQ", ">=": "GTHAN_EQ"}

func identByte(b int) bool {
	return b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b == '_'
}

func digitByte(b int) bool { return b >= '0' && b <= '9' }

// want is the token that starts at a position.
func (e lexEnv) want() wantTok {
	w := wantTok{html: e.html, isDir: e.isDir, curly: e.curly, paren: e.paren, n: 1}
	b0, b1 := e.b[0], -1
	if len(e.b) > 1 {
		b1 = e.b[1]
	}
	two := ""
	if b0 >= 0 && b1 >= 0 {
		two = string([]byte{byte(b0), byte(b1)})
	}
	switch {
	case b0 < 0:
		w.name, w.n = "EOF", 0
		return w
	case !e.html && isSpaceByte(b0):
		w.skip = true
		return w
	case two == "{{":
		if len(e.b) > 3 && e.b[2] == '-' && e.b[3] == '-' {
			w.comment = true
			return w
		}
		w.name, w.n, w.lit, w.html = "LBRACES", 2, "{{", false
		return w
	case e.html:
		w.text = true
		w.n = -1
		return w
	case two == "}}" && e.curly == 0:
		w.name, w.n, w.lit, w.html = "RBRACES", 2, "}}", true
		return w
	}
	if n := doubleLex[two]; n != "" {
		w.name, w.n, w.lit = n, 2, two
		return w
	}
	w.lit = string([]byte{byte(b0)})
	switch {
	case b0 == '{':
		w.name = "LBRACE"
		w.curly++
	case b0 == '}':
		w.name = "RBRACE"
		w.curly--
	case b0 == '(':
		w.name = "LPAREN"
		if e.isDir {
			w.paren++
		}
	case b0 == ')':
		w.name = "RPAREN"
		if e.isDir {
			w.paren--
			if w.paren == 0 {
				w.isDir, w.html = false, true
			}
		}
	case b0 == '"' || b0 == '\'':
		w.name, w.n = "STR", -1
	case identByte(b0):
		w.name, w.n = "IDENT", -1
	case digitByte(b0):
		w.name, w.n = "INT", -1
	case simpleLex[byte(b0)] != "":
		w.name = simpleLex[byte(b0)]
	default:
		w.name = "ILLEGAL"
	}
	return w
}

// lexemes instantiates every token path with every first byte, and the second
// byte wherever one matters.
func (m *lexModel) lexemes(rule string, only func(w wantTok) bool) {
	c, lx := m.lx.c, m.lx
	if m.why != "" {
		c.und(rule, "lexemes", "%s", m.why)
		return
	}
	seconds := []int{-1, 0, '=', '-', '+', '{', '}', '"', '\'', '\\', 'a', '0', '.', ' ', '(', 0xc3}
	type flags struct {
		isDir        bool
		curly, paren int64
	}
	crs := map[string]*caseRun{}
	get := func(n string) *caseRun {
		if crs[n] == nil {
			crs[n] = c.newCase(rule, n)
		}
		return crs[n]
	}
	terms := map[*lexTok][]*Term{}
	for _, t := range m.toks {
		terms[t] = lx.flagTerms(t.p)
	}
	for b0 := -1; b0 < 256; b0++ {
		fl := []flags{{}}
		switch b0 {
		case '(', ')', '{', '}':
			fl = []flags{{false, 0, 0}, {false, 1, 0}, {true, 0, 0}, {true, 0, 1}, {true, 1, 1}, {true, 0, 2}, {false, 2, 0}}
		}
		// the token paths this byte can take
		var cand []*lexTok
		for _, t := range m.toks {
			if t.start == nil || t.dir != nil {
				continue
			}
			if f, _ := m.instByte(t, terms[t], b0); f {
				cand = append(cand, t)
			}
		}
		snd := seconds
		if b0 < 0 {
			snd = []int{-1}
		}
		for _, b1 := range snd {
			more := [][]int{nil}
			if b0 == '{' && b1 == '{' {
				more = [][]int{{'-', '-'}, {'-', 'x'}, {'x', '-'}, {-1, -1}, {'-', -1}, {'{', '{'}}
			}
			for _, bs := range more {
				for _, g := range fl {
					e := lexEnv{isDir: g.isDir, curly: g.curly, paren: g.paren, b: append([]int{b0, b1}, bs...), prev: -2}
					m.lexeme(e, cand, terms, get, only)
					if g == fl[0] {
						e.html = true
						if b0 != '@' {
							m.lexeme(e, cand, terms, get, only)
						}
					}
				}
			}
		}
	}
	var ns []string
	for n := range crs {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		crs[n].done()
	}
}

func (m *lexModel) instByte(t *lexTok, terms []*Term, b0 int) (bool, bool) {
	v := b0
	if b0 < 0 {
		v = 0
	}
	sub := map[*Term]*Term{m.lx.byteAt(t.start): mkByte(byte(v))}
	f := m.lx.c.substFacts(t.p.Facts, sub)
	if f == nil {
		return false, false
	}
	f = m.lx.lenFacts(f, t.start, lexEnv{b: []int{b0}, prev: -2})
	return f != nil, false
}

func byteName(b int) string {
	if b < 0 {
		return "EOF"
	}
	return fmt.Sprintf("%q", rune(b))
}

func (e lexEnv) String() string {
	var s []string
	for _, b := range e.b {
		s = append(s, byteName(b))
	}
	where := "code"
	if e.html {
		where = "text"
	}
	if e.isDir {
		where = "directive"
	}
	return strings.Join(s, " ") + " in " + where
}

func (m *lexModel) lexeme(e lexEnv, cand []*lexTok, terms map[*lexTok][]*Term, get func(string) *caseRun, only func(w wantTok) bool) {
	c, lx := m.lx.c, m.lx
	w := e.want()
	if w.n == -1 && !w.text && len(e.b) > 1 && e.b[1] == -1 && false {
		return
	}
	if only != nil && !only(w) {
		return
	}
	label := w.name
	switch {
	case w.skip:
		label = "white space"
	case w.comment:
		label = "comment"
	case w.text:
		label = "text"
	}
	cr := get("NextToken: " + label)
	anyP := false
	for _, t := range cand {
		f, sub := m.inst(t.p, t.start, e, terms[t])
		if f == nil {
			continue
		}
		anyP = true
		pos := lastPos(t.p)
		r := lx.renderer(m.er, t.p)
		typ := c.subst(t.typ, sub)
		bad := func(known bool, fs string, a ...any) {
			v := vBad
			if !known || !m.factsKnown(f) {
				v = vUnd
			}
			cr.add(v, pos, e.String()+": "+fmt.Sprintf(fs, a...))
		}
		name := m.names[typ.Sym]
		if w.skip {
			bad(typ.isConst(), "white space becomes a token %s", name)
			continue
		}
		if w.comment {
			if !m.unclosed(t) {
				bad(typ.isConst(), "a comment becomes a token %s", name)
				continue
			}
			cr.add(vOK, pos, "")
			continue
		}
		want := []string{w.name}
		switch {
		case w.text:
			want = []string{"HTML"}
		case w.name == "INT":
			want = []string{"INT", "FLOAT"}
		case w.name == "IDENT":
			if !typ.isConst() {
				want = nil // the word table, checked by wordRule
			}
		}
		if want != nil {
			if !typ.isConst() || name == "" {
				bad(lx.known(t.p, typ) && typ.Op != "loopv", "the token type is %s", r.str(typ))
				continue
			}
			if !hasStr(want, name) {
				bad(true, "the token is %s, not %s", name, want[0])
				continue
			}
		}
		if w.n >= 0 {
			end := c.subst(t.end, sub)
			if end != addInt(t.start, int64(w.n)) {
				bad(lx.known(t.p, end), "the %s token ends before position %s, it starts at %s and has %d byte(s)", w.name, r.str(end), r.str(t.start), w.n)
				continue
			}
			lit := c.subst(t.lit, sub)
			ok := false
			if s, is := lit.strVal(); is {
				ok = s == w.lit || w.name == "ILLEGAL" || w.name == "EOF"
			} else if lit == mk("slice", "", t.lit.Typ, nil, lx.input, t.start, addInt(t.start, int64(w.n))) {
				ok = true
			} else if lit.Op == "slice" && lit.Args[0] == lx.input && lit.Args[1] == t.start && lit.Args[2] == addInt(t.start, int64(w.n)) {
				ok = true
			} else if lit.Op == "conv" && lit.Args[0].isConst() {
				ok = true
			}
			if !ok {
				bad(lx.known(t.p, lit), "the literal of %s is %s", w.name, r.str(lit))
				continue
			}
		}
		// what it does to the mode
		ok := true
		for fn, want := range map[string]*Term{"isHTML": mkBool(w.html), "isDirective": mkBool(w.isDir), "countCurlyBraces": mkInt(w.curly), "countDirectiveParentheses": mkInt(w.paren)} {
			a := lx.addr(fn)
			v, stored := t.p.St.mem[a]
			if !stored {
				v = nil
			} else {
				v = c.subst(v, sub)
			}
			if v == nil {
				// unchanged
				pre := map[string]*Term{"isHTML": mkBool(e.html), "isDirective": mkBool(e.isDir), "countCurlyBraces": mkInt(e.curly), "countDirectiveParentheses": mkInt(e.paren)}[fn]
				v = pre
			}
			if v == want || c.sameUnder(f, v, want) {
				continue
			}
			ok = false
			bad(lx.known(t.p, v), "after %s, %s is %s and not %s", label, fn, r.str(v), r.str(want))
			break
		}
		if ok {
			cr.add(vOK, pos, "")
		}
	}
	switch {
	case !anyP && w.skip:
		cr.add(vOK, token.NoPos, "")
	case !anyP && w.comment:
		cr.add(vOK, token.NoPos, "")
	case !anyP:
		cr.add(vUnd, token.NoPos, e.String()+": no path of the lexer handles it")
	}
}

func hasStr(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// factsKnown: every condition left is about the input.
func (m *lexModel) factsKnown(f *Facts) bool {
	for b := range f.bools {
		if b.mentions(func(t *Term) bool {
			switch t.Op {
			case "call", "inv", "dyn", "dyncall", "havoc", "unk":
				return !lexPure[t.Sym] && !strings.HasPrefix(t.Sym, "strings.")
			}
			return false
		}) {
			return false
		}
	}
	return true
}

var lexPure = map[string]bool{}

var _ ssa.Value
