package main

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Statement grammar: the tokens each construct consumes (as a regular
// language, loops included) and the node it produces.

// stmtSpec describes one construct.
type stmtSpec struct {
	cur  string // token that starts it, "" when the function is called otherwise
	lang string // grammar of the tokens consumed
	alts []parseAlt
	opq  []string
	fn   string // default Parser.parseStatement
	// effects on the parser that a complete construct must have
	effects []string
}

const anyE = "E"

var stmtSpecs = map[string]stmtSpec{
	"HTML": {cur: "HTML", lang: "", alts: []parseAlt{{trace: "", node: "HTMLStmt{Token: cur0}"}}},
	"IF": {cur: "IF", lang: "T:LPAREN T:? E T:RPAREN B (T:ELSE_IF T:LPAREN T:? E T:RPAREN B)* (T:ELSE B)? T:END", alts: []parseAlt{
		{trace: "T:LPAREN T:? E T:RPAREN B L T:END", node: "IfStmt{Token: cur0, Condition: E1, Consequence: B1, Alternatives: ‹nil|acc++[ElseIfStmt{Token: Lpeek, Condition: LE1, Consequence: LB1}]›}"},
		{trace: "T:LPAREN T:? E T:RPAREN B L T:ELSE B T:END", node: "IfStmt{Token: cur0, Condition: E1, Consequence: B1, Alternative: LB1, Alternatives: ‹nil|acc++[ElseIfStmt{Token: Lpeek, Condition: LE1, Consequence: LB1}]›}"},
	}},
	"EACH": {cur: "EACH", lang: "T:LPAREN T:? T:IN T:? E T:RPAREN B (T:ELSE B)? T:END", alts: []parseAlt{
		{trace: "T:LPAREN T:? T:IN T:? E T:RPAREN B T:END", node: "EachStmt{Token: cur0, Var: Identifier{Token: $2, Value: $2.Literal}, Array: E1, Block: B1}"},
		{trace: "T:LPAREN T:? T:IN T:? E T:RPAREN B T:ELSE B T:END", node: "EachStmt{Token: cur0, Var: Identifier{Token: $2, Value: $2.Literal}, Array: E1, Alternative: B2, Block: B1}"},
	}},
	"BREAK":       {cur: "BREAK", lang: "", alts: []parseAlt{{trace: "", node: "BreakStmt{Token: cur0}"}}},
	"CONTINUE":    {cur: "CONTINUE", lang: "", alts: []parseAlt{{trace: "", node: "ContinueStmt{Token: cur0}"}}},
	"BREAK_IF":    {cur: "BREAK_IF", lang: "T:LPAREN T:? E T:RPAREN", alts: []parseAlt{{trace: "T:LPAREN T:? E T:RPAREN", node: "BreakIfStmt{Token: cur0, Condition: E1}"}}},
	"CONTINUE_IF": {cur: "CONTINUE_IF", lang: "T:LPAREN T:? E T:RPAREN", alts: []parseAlt{{trace: "T:LPAREN T:? E T:RPAREN", node: "ContinueIfStmt{Token: cur0, Condition: E1}"}}},
	"USE": {cur: "USE", lang: "T:LPAREN T:? T:RPAREN", alts: []parseAlt{
		{trace: "T:LPAREN T:? T:RPAREN", node: "UseStmt{Token: cur0, Name: StringLiteral{Token: $2, Value: ALIAS(layouts)}}"},
	}, effects: []string{"p.useStmt = ret"}},
	"RESERVE": {cur: "RESERVE", lang: "T:LPAREN T:? T:RPAREN", alts: []parseAlt{
		{trace: "T:LPAREN T:? T:RPAREN", node: "ReserveStmt{Token: cur0, Name: StringLiteral{Token: $2, Value: $2.Literal}}"},
	}, effects: []string{"p.reserves[$2.Literal] = ret"}},
	"INSERT": {cur: "INSERT", lang: "T:LPAREN T:? (T:COMMA T:? E T:RPAREN | T:RPAREN B T:END)", alts: []parseAlt{
		{trace: "T:LPAREN T:? T:COMMA T:? E T:RPAREN", node: "InsertStmt{Token: cur0, Name: StringLiteral{Token: $2, Value: $2.Literal}, Argument: E1, FilePath: p.filepath}"},
		{trace: "T:LPAREN T:? T:RPAREN B T:END", node: "InsertStmt{Token: cur0, Name: StringLiteral{Token: $2, Value: $2.Literal}, Block: B1, FilePath: p.filepath}"},
	}, effects: []string{"new p.inserts[$2.Literal] = ret"}},
	"SLOT": {cur: "SLOT", lang: "(T:LPAREN T:? T:RPAREN)?", alts: []parseAlt{
		{trace: "", node: "SlotStmt{Token: cur0, Name: StringLiteral{}}"},
		{trace: "T:LPAREN T:? T:RPAREN", node: "SlotStmt{Token: cur0, Name: StringLiteral{Token: $2, Value: $2.Literal}}"},
	}, effects: []string{"p.slots = p.slots++[ret]"}},
	"DUMP": {cur: "DUMP", lang: "T:LPAREN (T:RPAREN | T:? E (T:COMMA T:? E)* T:COMMA? T:RPAREN)", alts: []parseAlt{
		{trace: "T:LPAREN T:RPAREN", node: "DumpStmt{Token: cur0}"},
		{trace: "T:LPAREN T:? E L( T:COMMA)? T:RPAREN", node: "DumpStmt{Token: cur0, Arguments: ‹[E1]|acc++[LE1]›}"},
	}},
	"FOR": {cur: "FOR", opq: []string{"parser.Parser.parseEmbeddedCode"},
		lang: "T:LPAREN C? T:SEMI (T:? E)? T:SEMI C? T:RPAREN B (T:ELSE B)? T:END", alts: forAlts()},
	"COMPONENT": {cur: "COMPONENT",
		lang: "T:LPAREN T:? (T:COMMA T:? E)? T:RPAREN ((T:SLOT | T:HTML T:?) ((T:LPAREN T:? T:RPAREN)? B T:END T:HTML* T:SLOT?)* T:END)?",
		alts: compAlts(), effects: []string{"p.components = p.components++[ret]"}},
}

func forAlts() (r []parseAlt) {
	for m := 0; m < 16; m++ {
		tr, nd := "T:LPAREN", "ForStmt{Token: cur0"
		n := 0
		if m&1 != 0 {
			n++
			tr, nd = tr+" C", nd+", Init: C1"
		}
		tr += " T:SEMI"
		if m&2 != 0 {
			tr, nd = tr+" T:? E", nd+", Condition: E1"
		}
		tr += " T:SEMI"
		if m&4 != 0 {
			n++
			tr, nd = tr+" C", nd+", Post: C"+strconv.Itoa(n)
		}
		tr += " T:RPAREN B"
		if m&8 != 0 {
			tr, nd = tr+" T:ELSE B", nd+", Alternative: B2"
		}
		r = append(r, parseAlt{trace: tr + " T:END", node: nd + ", Block: B1}"})
	}
	return r
}

const slotsList = "‹nil|acc++[SlotStmt{Token: Lcur, Name: StringLiteral{Token: L$2, Value: L$2.Literal}, Body: LB1}]|acc++[SlotStmt{Token: Lcur, Name: StringLiteral{}, Body: LB1}]›"

func compAlts() (r []parseAlt) {
	for m := 0; m < 4; m++ {
		tr, nd := "T:LPAREN T:?", "ComponentStmt{Token: cur0, Name: StringLiteral{Token: $2, Value: ALIAS(components)}"
		if m&1 != 0 {
			tr, nd = tr+" T:COMMA T:? E", nd+", Argument: E1"
		}
		tr += " T:RPAREN"
		if m&2 != 0 {
			r = append(r, parseAlt{trace: tr + "( L)? (T:SLOT|T:HTML T:?) L T:END", node: nd + ", Slots: " + slotsList + "}"})
		} else {
			r = append(r, parseAlt{trace: tr + "( L)?", node: nd + "}"})
		}
	}
	return r
}

// act is the token action of an event, "" when it is none.
func (pr *parserRun) act(p *Path, ev *Event) string {
	switch ev.Kind {
	case "next":
		return "T:" + pr.tokName(p, ev.Args[0])
	case "call":
		switch baseName(ev.Fn) {
		case "parseExpression":
			return "E"
		case "parseStatement":
			return "S"
		case "parseBlockStmt":
			return "B"
		case "parseEmbeddedCode":
			return "C"
		}
		if strings.HasPrefix(ev.Fn, "parser.") {
			return "?" + baseName(ev.Fn)
		}
	}
	return ""
}

func hasErr(p *Path) bool {
	for _, ev := range p.Events {
		if ev.Kind == "perr" {
			return true
		}
	}
	return false
}

func nilRet(p *Path) bool {
	return len(p.Ret) > 0 && (p.Ret[0].isNil() || p.Ret[0].Op == "iface" && p.Ret[0].Args[0].isNil())
}

// linear is the trace of a path with its loops.
func (pr *parserRun) linear(p *Path) string {
	var s []string
	for _, ev := range p.Events {
		switch ev.Kind {
		case "loop":
			s = append(s, "L")
		default:
			if a := pr.act(p, ev); a != "" {
				s = append(s, a)
			}
		}
	}
	return strings.Join(s, " ")
}

// stmtRenderer names tokens and parse results by their order on the path,
// from the last loop on with an L; values built by a loop show how.
func (pr *parserRun) stmtRenderer(ps []*Path) func(p *Path) *renderer {
	var mkr func(p *Path) *renderer
	mkr = func(p *Path) *renderer {
		r := pr.renderer(p)
		pre := ""
		cnt := map[string]int{}
		for _, ev := range p.Events {
			switch a := pr.act(p, ev); {
			case ev.Kind == "loop":
				pre = "L"
				cnt = map[string]int{}
			case ev.Kind == "next":
				cnt["$"]++
				if r.names[ev.Args[0]] == "" {
					r.names[ev.Args[0]] = pre + "$" + strconv.Itoa(cnt["$"])
				}
			case a != "" && !strings.HasPrefix(a, "?"):
				cnt[a]++
				r.names[ev.Res] = pre + a + strconv.Itoa(cnt[a])
			}
		}
		base := r.fn
		r.fn = func(r *renderer, t *Term) (string, bool) {
			switch t.Op {
			case "loopm", "loopv":
				return pr.loopBuilt(r, t, p, ps, mkr), true
			case "alloc":
				return pr.nodeStr(r, p, t)
			}
			return base(r, t)
		}
		return r
	}
	return mkr
}

// nodeStr prints a node with its token.
func (pr *parserRun) nodeStr(r *renderer, p *Path, t *Term) (string, bool) {
	s := r.object(t)
	i := strings.IndexByte(s, '{')
	if i < 0 || !strings.HasSuffix(s, "}") {
		return s, true
	}
	tk := pr.tokenOf(r, p, t)
	if tk == "" {
		return s, true
	}
	rest := s[i+1:]
	if rest != "}" {
		rest = ", " + rest
	}
	return s[:i+1] + "Token: " + tk + rest, true
}

// tokenOf names the token stored in a node, "" when none is.
func (pr *parserRun) tokenOf(r *renderer, p *Path, t *Term) string {
	pt, ok := t.Typ.Underlying().(*types.Pointer)
	if !ok {
		return ""
	}
	st, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() != "Token" {
			continue
		}
		tt, ok := st.Field(i).Type().Underlying().(*types.Struct)
		if !ok {
			return ""
		}
		a := mkFieldAddr(fieldOwner(pt.Elem(), i), t, nil)
		for j := 0; j < tt.NumFields(); j++ {
			if tt.Field(j).Name() != "Literal" {
				continue
			}
			v, ok := r.memOf(mkFieldAddr(fieldOwner(st.Field(i).Type(), j), a, nil))
			if !ok || v == zeroTerm(tt.Field(j).Type()) {
				return ""
			}
			return strings.TrimSuffix(r.str(v), ".Literal")
		}
	}
	return ""
}

// loopBuilt prints a value that a loop may change: the value before the loop
// when no pass changes it, else how it starts and what each pass makes it.
func (pr *parserRun) loopBuilt(r *renderer, t *Term, p *Path, ps []*Path, mkr func(p *Path) *renderer) string {
	id, name, _ := strings.Cut(t.Sym, ".")
	var at *Event
	for _, ev := range p.Events {
		if ev.Kind == "loop" && ev.Loop == id {
			at = ev
		}
	}
	// the parser's own position is new in every pass
	if t.Op == "loopm" && t.Args[0].mentions(func(x *Term) bool { return x.Op == "&f" && x.Args[0] == pr.params[0] }) {
		s := "L" + strings.TrimPrefix(r.str(t.Args[0]), "&p.")
		s = strings.Replace(s, "LcurToken", "Lcur", 1)
		return strings.Replace(s, "LpeekToken", "Lpeek", 1)
	}
	if at == nil {
		return t.Op + ":" + t.Sym
	}
	init := ""
	found := false
	for _, ev := range p.Events {
		switch {
		case t.Op == "loopv" && ev == at && ev.Vals[name] != nil:
			init, found = r.str(ev.Vals[name]), true
		case t.Op == "loopm" && ev.Kind == "acc" && ev.Loop == t.Sym && ev.Addr == t.Args[0]:
			init, found = r.str(ev.Val), true
		}
	}
	if !found {
		return t.Op + ":" + t.Sym
	}
	if init == "[]" {
		init = "nil"
	}
	steps := map[string]bool{}
	for _, q := range ps {
		if q.Outcome != "back" || q.Loop != id || hasErr(q) {
			continue
		}
		same := false
		for _, ev := range q.Events {
			same = same || ev == at
		}
		if !same {
			continue
		}
		rq := mkr(q)
		rq.names[t] = "acc"
		var v *Term
		if t.Op == "loopv" {
			v = q.Vals[name]
		} else {
			v = q.St.mem[t.Args[0]]
		}
		if v == nil {
			return t.Op + ":" + t.Sym
		}
		steps[rq.str(v)] = true
	}
	delete(steps, "acc")
	if len(steps) == 0 {
		return init
	}
	var l []string
	for s := range steps {
		l = append(l, s)
	}
	sort.Strings(l)
	return "‹" + init + "|" + strings.Join(l, "|") + "›"
}

// stmts checks the grammar of the given constructs.
func (pr *parserRun) stmts(rule string, kinds ...string) {
	for _, k := range kinds {
		pr.stmt(rule, k, stmtSpecs[k])
	}
}

var stmtKnown = regexp.MustCompile(`loop[mv]:|init\(|call:|dyn|inv:|unknown|tok\(|\?|…`)

func (pr *parserRun) stmt(rule, name string, sp stmtSpec) {
	c := pr.c
	label := "grammar of " + name
	fn := sp.fn
	if fn == "" {
		fn = "Parser.parseStatement"
	}
	f := c.p.fn("parser", fn)
	if pr.errs != "" || f == nil {
		c.und(rule, label, "anchor not found: %s", pr.errs)
		return
	}
	ps, complete := pr.run(f, sp.opq, sp.cur, nil)
	if !complete {
		c.und(rule, label, "path enumeration is incomplete")
		return
	}
	pr.stmtPaths(rule, label, f, ps, sp)
}

func (pr *parserRun) stmtPaths(rule, label string, f *ssa.Function, ps []*Path, sp stmtSpec) {
	c := pr.c
	cr := c.newCase(rule, label)
	var good []*Path
	unknown := ""
	loopCond := ""
	for _, p := range ps {
		if p.Outcome != "return" && p.Outcome != "back" {
			if p.Outcome == "limit" {
				cr.add(vUnd, lastPos(p), "a path was not followed to its end")
			}
			continue
		}
		if hasErr(p) {
			continue
		}
		if p.Outcome == "return" && nilRet(p) {
			if !pr.blockNil(p) {
				cr.add(vUnd, lastPos(p), "no node and no error after `"+pr.linear(p)+"`")
			}
			continue
		}
		good = append(good, p)
		for _, ev := range p.Events {
			if a := pr.act(p, ev); strings.HasPrefix(a, "?") {
				unknown = a[1:]
			}
		}
		for b := range p.Facts.bools {
			if b.mentions(func(t *Term) bool {
				return t.Op == "loopv" || t.Op == "loopm" && !t.Args[0].mentions(func(x *Term) bool { return x == pr.params[0] })
			}) {
				loopCond = pr.renderer(p).str(b)
			}
		}
	}
	acc := func(p *Path) bool { return true }
	code := pathsNFA(good, pr.act, acc)
	want := grammarNFA(sp.lang)
	pos := f.Pos()
	for _, p := range good {
		if q := lastPos(p); q.IsValid() {
			pos = q
		}
	}
	switch w, bad := outside(code, want); {
	case unknown != "":
		cr.add(vUnd, pos, "the call of "+unknown+" is not followed")
	case bad && (code.mixed || loopCond != ""):
		cr.add(vUnd, pos, "whether `"+w+"` is accepted depends on a condition that is not resolved: "+loopCond)
	case bad:
		cr.add(vBad, pos, fmt.Sprintf("the tokens `%s` are accepted; the construct is `%s`", w, sp.lang))
	default:
		if w, miss := outside(want, code); miss {
			// only what the code accepts is known for certain
			if pr.acceptOnly {
				cr.add(vOK, pos, "")
			} else {
				cr.add(vUnd, pos, "the tokens `"+w+"` are not seen to be accepted")
			}
		} else {
			cr.add(vOK, pos, "")
		}
	}
	if pr.acceptOnly {
		cr.done()
		return
	}
	// an error after the complete construct
	for _, p := range ps {
		if p.Outcome != "return" || !hasErr(p) || pr.nestingErr(p) || pr.literalErr(p) {
			continue
		}
		if why := pr.lateError(p, sp.lang); why != "" && loopCond == "" && unknown == "" {
			cr.add(vBad, lastPos(p), why)
		}
	}
	cr.done()
	pr.stmtNodes(rule, strings.Replace(label, "grammar", "node", 1), good, sp)
	for _, e := range sp.effects {
		pr.stmtEffect(rule, strings.Replace(label, "grammar", "registration", 1), good, e)
	}
}

// blockNil: the path is taken only when parseBlockStmt gives no block, which
// it never does.
func (pr *parserRun) blockNil(p *Path) bool {
	isNil := false
	for _, ev := range p.Events {
		if ev.Kind == "call" && baseName(ev.Fn) == "parseBlockStmt" && p.Facts.decide(pr.c.p, mkEq(ev.Res, mkNil())) == 1 {
			isNil = true
		}
	}
	if !isNil {
		return false
	}
	if pr.blockSet == 0 {
		pr.blockSet = -1
		if f := pr.c.p.fn("parser", "Parser.parseBlockStmt"); f != nil {
			ps, ok := pr.run(f, nil, "", nil)
			pr.blockSet = 1
			for _, q := range ps {
				if q.Outcome == "return" && (len(q.Ret) != 1 || q.Ret[0].Op != "alloc") {
					pr.blockSet = -1
				}
			}
			if !ok {
				pr.blockSet = -1
			}
		}
	}
	return pr.blockSet == 1
}

// lateError: the tokens before the error are a complete construct.
func (pr *parserRun) lateError(p *Path, lang string) string {
	var w []string
	for _, ev := range p.Events {
		if ev.Kind == "loop" {
			return "" // passes before the error are not counted
		}
		if ev.Kind == "perr" {
			break
		}
		if a := pr.act(p, ev); a != "" {
			w = append(w, a)
		}
	}
	if len(w) == 0 {
		return ""
	}
	g := grammarNFA(lang)
	s := g.closure(map[int]bool{g.start: true})
	for _, a := range w {
		s = g.step(s, a)
	}
	if g.accepts(s) {
		more := false
		for x := range s {
			more = more || len(g.trans[x]) > 0
		}
		if !more {
			return "an error is reported after the complete construct `" + strings.Join(w, " ") + "`"
		}
	}
	return ""
}

// aliasRx: the two forms of a name: as written, or with ~ replaced.
func aliasForms(node string) []string {
	m := regexp.MustCompile(`ALIAS\((\w+)\)`).FindStringSubmatch(node)
	if m == nil {
		return []string{node}
	}
	r := []string{strings.Replace(node, m[0], "$2.Literal", 1)}
	for _, rest := range []string{`$2.Literal[1:]`, `strings.TrimPrefix($2.Literal, "~")`, `strings.CutPrefix($2.Literal, "~")#0`} {
		r = append(r, strings.Replace(node, m[0], `cat("`+m[1]+`/" `+rest+`)`, 1))
	}
	return append(r, strings.Replace(node, m[0], `strings.Replace($2.Literal, "~", "`+m[1]+`/", 1)`, 1))
}

var libText = regexp.MustCompile(`\b(?:strings|fmt|path|filepath|bytes|unicode|utf8|strconv|slices|regexp)\.\w+\(`)
var otherText = regexp.MustCompile(`^strings\.(?:ReplaceAll|ToLower|ToUpper|TrimLeft|TrimRight|TrimSpace|Trim|TrimSuffix)\(`)

// libUnknown: the text is computed by a library function that could give the
// expected text.
func libUnknown(s string) bool {
	for _, m := range libText.FindAllString(s, -1) {
		if !otherText.MatchString(m) {
			return true
		}
	}
	return false
}

// stmtNodes compares the node of every path whose tokens match an
// alternative exactly.
func (pr *parserRun) stmtNodes(rule, label string, good []*Path, sp stmtSpec) {
	c := pr.c
	cr := c.newCase(rule, label)
	mkr := pr.stmtRenderer(good)
	for _, p := range good {
		if what := pr.dropped(p); what != nil {
			cr.add(pr.seqBad(p), what.Pos, "what was parsed is left out of the node")
		}
		if p.Outcome != "return" || len(p.Ret) == 0 {
			continue
		}
		tr := pr.linear(p)
		var want []string
		for _, a := range sp.alts {
			rx := regexp.MustCompile("^" + strings.NewReplacer("T:?", `T:\?`).Replace(a.trace) + "$")
			if rx.MatchString(tr) {
				want = append(want, aliasForms(a.node)...)
			}
		}
		if len(want) == 0 {
			cr.add(vUnd, lastPos(p), "the node after `"+tr+"` is not specified")
			continue
		}
		got := mkr(p).str(p.Ret[0])
		hit := ""
		for _, w := range want {
			if w == got {
				hit = w
			}
		}
		switch {
		case hit != "":
			if v, why := pr.aliasOK(p, hit); v != vOK {
				cr.add(v, lastPos(p), why)
			} else {
				cr.add(vOK, lastPos(p), "")
			}
		case stmtKnown.MatchString(strings.ReplaceAll(got, "T:?", "")) || libUnknown(got) || !pr.resolvedNode(p, p.Ret[0]):
			cr.add(vUnd, lastPos(p), "the node is not resolved: "+got)
		default:
			cr.add(vBad, lastPos(p), fmt.Sprintf("after `%s` the node is %s, expected %s", tr, got, strings.Join(want, " or ")))
		}
	}
	cr.done()
}

// dropped: a pass of a loop parses an expression or a block that no later
// step can reach.
func (pr *parserRun) dropped(p *Path) *Event {
	if p.Outcome != "back" {
		return nil
	}
	var acts []*Event
	changed := map[*Term]bool{}
	live := map[*Term]bool{}
	see := func(v *Term) {
		if v != nil {
			v.mentions(func(t *Term) bool { live[t] = true; return false })
		}
	}
	for _, ev := range p.Events {
		switch a := pr.act(p, ev); {
		case ev.Kind == "loop":
			acts = nil
		case ev.Kind == "acc" && ev.Loop == p.Loop:
			changed[ev.Addr] = true
		case a == "B" || a == "E":
			acts = append(acts, ev)
		case ev.Kind == "call" || ev.Kind == "dyncall" || ev.Kind == "mapupdate":
			for _, x := range ev.Args {
				see(x)
			}
			see(ev.Val)
		}
	}
	for _, v := range p.Vals {
		see(v)
	}
	for {
		n := len(live)
		for a, v := range p.St.mem {
			if changed[a] || a.mentions(func(t *Term) bool { return live[t] || t == pr.params[0] }) {
				see(v)
			}
		}
		if len(live) == n {
			break
		}
	}
	for _, ev := range acts {
		if n, ok := p.Facts.kind(pr.c.p, ev.Res).single(); ev.Res != nil && !live[ev.Res] && !(ok && n == "nil") {
			return ev
		}
	}
	return nil
}

// aliasOK: the name is shortened exactly when it starts with ~.
func (pr *parserRun) aliasOK(p *Path, node string) (verdict, string) {
	long := strings.Contains(node, `/" $2.Literal`) || strings.Contains(node, `($2.Literal, "~"`)
	if !long && !strings.HasPrefix(node, "UseStmt") && !strings.HasPrefix(node, "ComponentStmt") {
		return vOK, ""
	}
	n := 0
	var lit *Term
	for _, ev := range p.Events {
		if ev.Kind == "next" {
			if n++; n == 2 {
				lit = structOrField(ev.Args[0], pr.tokT, "Literal")
			}
		}
	}
	if lit == nil {
		return vUnd, "the token of the name was not found"
	}
	first := sidx(lit, mkInt(0))
	til := mkEq(first, mkByte('~'))
	pre := mk("call", "strings.HasPrefix", types.Typ[types.Bool], nil, lit, mkStr("~"))
	d := p.Facts.decide(pr.c.p, til)
	if d < 0 {
		d = p.Facts.decide(pr.c.p, pre)
	}
	if d < 0 && p.Facts.decide(pr.c.p, mkEq(lit, mkStr(""))) == 1 {
		d = 0
	}
	for b, v := range p.Facts.bools {
		if d < 0 && b.Op == "ext" && b.Sym == "1" && b.Args[0].Op == "call" && strings.HasPrefix(b.Args[0].Sym, "strings.CutPrefix") &&
			len(b.Args[0].Args) == 2 && b.Args[0].Args[0] == lit && b.Args[0].Args[1] == mkStr("~") {
			if d = 0; v {
				d = 1
			}
		}
	}
	switch {
	case d < 0 && strPrefix(p.Facts, lit) == "~":
		d = 1
	}
	switch {
	case d < 0 && !long && len(p.Facts.bools) == 0:
		return vBad, "a name starting with ~ is taken as written"
	case d < 0:
		// name one on which the conditions settle otherwise
		for _, w := range []string{"~a", "a", "a~b", "a~", "a/~b", "~~a", "~/a", "~", " ~a"} {
			f := p.Facts
			if f = pr.c.substFacts(f, map[*Term]*Term{lit: mkStr(w)}); f == nil || w[0] == '~' == long {
				continue
			}
			open := false
			for b := range p.Facts.bools {
				if b.mentions(func(t *Term) bool { return t == lit }) {
					s := pr.c.subst(b, map[*Term]*Term{lit: mkStr(w)})
					open = open || !s.isConst()
				}
			}
			if !open {
				return vBad, fmt.Sprintf("the name %q is taken as %s", w, node)
			}
		}
		return vUnd, "whether the name starts with ~ is not resolved"
	case (d == 1) != long:
		return vBad, "a name is taken as " + node + " when it starts with ~ is " + strconv.FormatBool(d == 1)
	}
	return vOK, ""
}

// strPrefix: a constant prefix known from a HasPrefix condition.
func strPrefix(f *Facts, s *Term) string {
	for b, v := range f.bools {
		if v && b.Op == "call" && strings.HasPrefix(b.Sym, "strings.HasPrefix") && len(b.Args) == 2 && b.Args[0] == s {
			if k, ok := b.Args[1].strVal(); ok {
				return k
			}
		}
	}
	return ""
}

// structOrField reads a field of a struct value.
func structOrField(v *Term, typ types.Type, name string) *Term {
	st, ok := typ.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() != name {
			continue
		}
		if v.Op == "struct" && len(v.Args) > i {
			return v.Args[i]
		}
		return mk(".f", fieldOwner(typ, i), st.Field(i).Type(), nil, v)
	}
	return nil
}

// stmtEffect: a complete construct registers its node with the parser.
func (pr *parserRun) stmtEffect(rule, label string, good []*Path, want string) {
	cr := pr.c.newCase(rule, label)
	mkr := pr.stmtRenderer(good)
	want, isNew := strings.CutPrefix(want, "new ")
	lhs, rhs, _ := strings.Cut(want, " = ")
	for _, p := range good {
		if p.Outcome != "return" || len(p.Ret) == 0 {
			continue
		}
		ret := p.Ret[0]
		for ret.Op == "iface" {
			ret = ret.Args[0]
		}
		r := mkr(p)
		r.names[ret] = "ret"
		got := ""
		var m, key *Term
		if i := strings.IndexByte(lhs, '['); i >= 0 {
			for _, ev := range p.Events {
				if ev.Kind == "mapupdate" && ev.Addr != nil && r.str(ev.Addr) == lhs[:i] {
					m, key = ev.Addr, ev.Args[0]
					got = r.str(ev.Addr) + "[" + r.str(ev.Args[0]) + "] = " + r.str(ev.Val)
				}
			}
		} else {
			for a, v := range p.St.mem {
				if a.Op == "&f" && a.Args[0] == pr.params[0] && "p."+baseName(a.Sym) == lhs {
					got = lhs + " = " + r.str(v)
				}
			}
		}
		got = strings.ReplaceAll(got, lhs+"++", "p."+strings.TrimPrefix(lhs, "p.")+"++")
		switch {
		case got == lhs+" = "+rhs && isNew:
			v, why := pr.absent(p, m, key)
			cr.add(v, lastPos(p), why)
		case got == lhs+" = "+rhs:
			cr.add(vOK, lastPos(p), "")
		case got == "":
			cr.add(vBad, lastPos(p), "the construct is not registered: expected "+want)
		case stmtKnown.MatchString(got) || libUnknown(got):
			cr.add(vUnd, lastPos(p), "the registration is not resolved: "+got)
		default:
			cr.add(vBad, lastPos(p), "the construct is registered as "+got+", expected "+want)
		}
	}
	cr.done()
}

// absent: the path knows that the map had no such key before.
func (pr *parserRun) absent(p *Path, m, key *Term) (verdict, string) {
	other := false
	for b, v := range p.Facts.bools {
		switch {
		case b.Op == "maphas" && b.Args[0] == m && b.Args[1] == key:
			if !v {
				return vOK, ""
			}
		case b.Op == "==" && (b.Args[0].isNil() || b.Args[1].isNil()):
			l := b.Args[0]
			if l.isNil() {
				l = b.Args[1]
			}
			if v && l.Op == "lookup" && l.Args[0] == m && l.Args[1] == key {
				return vOK, ""
			}
		case b.mentions(func(t *Term) bool { return t == key }):
			// another record of the names
			other = other || b.mentions(func(t *Term) bool { return t.Op == "maphas" && t.Args[0] != m || t.Op == "call" })
		}
	}
	if other {
		return vUnd, "whether the name is taken is not resolved"
	}
	return vBad, "a second construct with the same name replaces the first without an error"
}
