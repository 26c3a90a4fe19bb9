package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// ------------------------------------------------------------ scanning loops

// lexScan is a token that is read by a loop: every step of the loop and every
// way out is instantiated with the bytes around the position it looks at.
type lexScan struct {
	m     *lexModel
	cr    *caseRun
	first lexEnv   // the bytes the token starts with
	wins  []lexEnv // the bytes at the loop position
	// out judges leaving the loop for a token, step one more round
	out  func(t *lexTok, l *lexLoop, w lexEnv, f *Facts, sub map[*Term]*Term) (bool, string)
	step func(b *Path, l *lexLoop, w lexEnv, f *Facts, sub map[*Term]*Term) (bool, string)
	init func(t *lexTok, l *lexLoop) (bool, string)
	// noLoop judges tokens of this kind that need no loop
	noLoop func(t *lexTok, f *Facts, sub map[*Term]*Term) (bool, string)
}

func (s *lexScan) run() {
	m, cr := s.m, s.cr
	lx := m.lx
	c := lx.c
	handled := map[string]bool{}
	outs := map[int]bool{}
	type inst struct {
		p     *Path
		t     *lexTok
		l     *lexLoop
		terms []*Term
		x     *Term
		key   string
	}
	var ins []inst
	anyP := false
	for _, t := range m.toks {
		if t.start == nil || t.dir != nil {
			continue
		}
		terms := lx.flagTerms(t.p)
		f, sub := m.inst(t.p, t.start, s.first, terms)
		if f == nil {
			continue
		}
		anyP = true
		pos := lastPos(t.p)
		if len(t.in) == 0 {
			if s.noLoop == nil {
				cr.add(vUnd, pos, "a token that is not read by a loop")
				continue
			}
			if ok, why := s.noLoop(t, f, sub); !ok {
				s.wrong(t.p, f, pos, s.first.String()+": "+why, t.lit)
			} else {
				cr.add(vOK, pos, "")
			}
			continue
		}
		if len(t.in) != 1 || t.in[0].entry == nil {
			cr.add(vUnd, pos, "a token read by several loops")
			continue
		}
		l := t.in[0]
		if ok, why := s.init(t, l); !ok {
			s.wrong(t.p, f, pos, why, l.entry)
			continue
		}
		ins = append(ins, inst{t.p, t, l, terms, t.start, l.id + "@" + fmt.Sprint(l.hdr)})
		handled[l.id+"@"+fmt.Sprint(l.hdr)+"@"+t.start.String()] = true
	}
	if !anyP {
		cr.add(vUnd, token.NoPos, "no token starts here")
	}
	for _, b := range m.backs {
		for _, l := range lx.loopsOf(b) {
			if l.id != b.Loop || l.entry == nil {
				continue
			}
			for _, in := range ins {
				if in.t != nil && in.key == l.id+"@"+fmt.Sprint(l.hdr) && handled[in.key+"@"+in.x.String()] {
					ins = append(ins, inst{b, nil, l, lx.flagTerms(b), in.x, in.key})
					break
				}
			}
		}
	}
	var near [2]map[int]bool
	for i := range near {
		near[i] = map[int]bool{}
	}
	for _, in := range ins {
		q := lx.posIn(in.l.id)
		lx.comparedWith(in.p, addInt(q, -1), near[0])
		lx.comparedWith(in.p, addInt(q, 1), near[1])
	}
	wins := widen(s.wins, near[0], near[1])
	for wi, w := range wins {
		n := 0
		for _, in := range ins {
			q := lx.posIn(in.l.id)
			sub := lx.envMap(in.x, s.first, in.terms)
			w.html, w.isDir, w.curly, w.paren = s.first.html, s.first.isDir, s.first.curly, s.first.paren
			for k, v := range lx.envMap(q, w, in.terms) {
				sub[k] = v
			}
			f := c.substFacts(in.p.Facts, sub)
			if f = lx.lenFacts(f, q, w); f == nil || m.infeasible(f) {
				continue
			}
			n++
			pos := lastPos(in.p)
			if in.t == nil {
				pos = in.p.Pos
			}
			var ok bool
			var why string
			var val *Term
			if in.t != nil {
				ok, why = s.out(in.t, in.l, w, f, sub)
				outs[wi] = true
				val = in.t.lit
			} else {
				ok, why = s.step(in.p, in.l, w, f, sub)
				val = lx.endPos(in.p)
			}
			if !ok {
				where := "with " + w.window() + " at the position of the loop"
				s.wrong(in.p, f, pos, where+": "+why, val)
				continue
			}
			cr.add(vOK, pos, "")
		}
		if n == 0 && len(ins) > 0 {
			cr.add(vUnd, token.NoPos, "with "+w.window()+" at the position of the loop nothing happens")
		}
	}
}

// comparedWith collects the bytes a path tells apart from others at a position.
// (any position if it is nil).
func (lx *lexRun) comparedWith(p *Path, pos *Term, set map[int]bool) {
	var at *Term
	if pos != nil {
		at = lx.byteAt(pos)
	}
	isAt := func(t *Term) bool {
		if t == nil {
			return false
		}
		return t == at || pos == nil && len(t.Args) == 2 && t.Args[0] == lx.input && t == lx.byteAt(t.Args[1])
	}
	add := func(t *Term) {
		if n, ok := t.intVal(); ok && n > 0 && n < 256 {
			set[int(n)] = true
		}
	}
	consts := func(t *Term) {
		t.walk(func(t *Term) bool {
			if t.isConst() {
				add(t)
			}
			return true
		})
	}
	for b := range p.Facts.bools {
		if b.mentions(isAt) {
			consts(b)
		}
	}
	for t, v := range p.Facts.eq {
		if isAt(t) {
			add(v)
		}
	}
	for t, vs := range p.Facts.neq {
		for v := range vs {
			if isAt(t) {
				add(v)
			}
			if isAt(v) {
				add(t)
			}
		}
	}
	for k, n := range p.Facts.zone {
		if isAt(k[0]) && k[1] == nil || isAt(k[1]) && k[0] == nil {
			for d := int64(-1); d <= 1; d++ {
				if k[0] == nil {
					add(mkInt(d - n))
				} else {
					add(mkInt(n + d))
				}
			}
		}
	}
}

// widen adds the windows with further bytes before and after the position.
func widen(wins []lexEnv, before, after map[int]bool) []lexEnv {
	seen := map[string]bool{}
	key := func(w lexEnv) string { return fmt.Sprint(w.b, w.prev, w.dir) }
	out := append([]lexEnv{}, wins...)
	for _, w := range wins {
		seen[key(w)] = true
	}
	add := func(w lexEnv) {
		if !seen[key(w)] {
			seen[key(w)] = true
			out = append(out, w)
		}
	}
	for _, w := range wins {
		if len(w.b) == 2 && w.b[1] == 'a' {
			for _, n := range sortedInts(after) {
				v := w
				v.b = []int{w.b[0], n}
				add(v)
			}
		}
		if w.prev == 'a' {
			for _, n := range sortedInts(before) {
				v := w
				v.prev = n
				if n == '\\' && w.dir != 0 {
					continue
				}
				add(v)
			}
		}
	}
	return out
}

func sortedInts(m map[int]bool) []int {
	var out []int
	for n := range m {
		out = append(out, n)
	}
	sort.Ints(out)
	return out
}

func (e lexEnv) window() string {
	var s []string
	if e.prev >= 0 {
		s = append(s, byteName(e.prev)+" |")
	}
	for _, b := range e.b {
		s = append(s, byteName(b))
	}
	x := strings.Join(s, " ")
	switch e.dir {
	case 1:
		x += " (a directive)"
	case 2:
		x += " (an escaped directive)"
	}
	return x
}

func (s *lexScan) wrong(p *Path, f *Facts, pos token.Pos, why string, val *Term) {
	v := vBad
	if !s.m.factsKnown(f) || strings.HasPrefix(why, "?") || strings.Contains(why, ": ?") {
		v = vUnd
	}
	s.cr.add(v, pos, why)
}

func isSliceOf(t, base, lo, hi *Term) bool {
	return t != nil && t.Op == "slice" && t.Args[0] == base && t.Args[1] == lo && t.Args[2] == hi
}

// wordScan: identifiers and numbers.
func (m *lexModel) wordScan(rule, name string, firsts []int, stop func(w lexEnv) bool, typ func(t *lexTok, f *Facts, sub map[*Term]*Term) (bool, string), keep func(b *Path, l *lexLoop, w lexEnv) (bool, string)) {
	lx := m.lx
	c := lx.c
	cr := c.newCase(rule, name)
	defer cr.done()
	if m.why != "" {
		cr.add(vUnd, token.NoPos, m.why)
		return
	}
	var wins []lexEnv
	for b := -1; b < 256; b++ {
		if b < 0 {
			wins = append(wins, lexEnv{b: []int{-1}, prev: -2})
			continue
		}
		for _, n := range []int{-1, '0', 'a', '.', '_', ' '} {
			if b != '.' && n != '0' && n != 'a' && n != -1 {
				continue
			}
			wins = append(wins, lexEnv{b: []int{b, n}, prev: -2})
		}
	}
	for _, first := range firsts {
		s := &lexScan{m: m, cr: cr, first: lexEnv{b: []int{first}, prev: -2}, wins: wins}
		s.init = func(t *lexTok, l *lexLoop) (bool, string) {
			if l.entry == t.start || l.entry == addInt(t.start, 1) {
				return true, ""
			}
			return false, "the scan does not begin on the first byte"
		}
		s.out = func(t *lexTok, l *lexLoop, w lexEnv, f *Facts, sub map[*Term]*Term) (bool, string) {
			q := lx.posIn(l.id)
			if !stop(w) {
				return false, "the token ends too early"
			}
			if t.end != q {
				return false, "the token does not end where the scan stops"
			}
			if !isSliceOf(t.lit, lx.input, t.start, q) {
				if t.lit.Op != "slice" {
					return false, "?the literal is not the text of the token"
				}
				return false, "the literal is not the text of the token"
			}
			if typ != nil {
				return typ(t, f, sub)
			}
			return true, ""
		}
		s.step = func(b *Path, l *lexLoop, w lexEnv, f *Facts, sub map[*Term]*Term) (bool, string) {
			q := lx.posIn(l.id)
			if stop(w) {
				return false, "the token goes on past its end"
			}
			if lx.endPos(b) != addInt(q, 1) {
				return false, "a step of the scan does not consume one byte"
			}
			if keep != nil {
				return keep(b, l, w)
			}
			return true, ""
		}
		s.noLoop = nil
		s.run()
		if first == firsts[len(firsts)-1] {
			break
		}
	}
}

func (m *lexModel) words(rule string) {
	c := m.lx.c
	m.wordScan(rule, "identifiers end at the first byte that is neither a letter, a digit nor '_'", []int{'a', '_'},
		func(w lexEnv) bool { return w.b[0] < 0 || !identByte(w.b[0]) && !digitByte(w.b[0]) }, nil, nil)
	m.keywords(rule)
	var flag *Term
	m.wordScan(rule, "numbers are digits, with a point that is followed by a digit making it a float", []int{'7'},
		func(w lexEnv) bool {
			return w.b[0] < 0 || !digitByte(w.b[0]) && !(w.b[0] == '.' && len(w.b) > 1 && w.b[1] >= 0 && digitByte(w.b[1]))
		},
		func(t *lexTok, f *Facts, sub map[*Term]*Term) (bool, string) {
			n := m.names[c.subst(t.typ, sub).Sym]
			for b, v := range t.p.Facts.bools {
				if b.Op != "loopv" || !strings.HasPrefix(b.Sym, t.in[0].id+".") {
					continue
				}
				flag = b
				init := t.in[0].vals[strings.TrimPrefix(b.Sym, t.in[0].id+".")]
				if init == nil || !init.isTrue() && !init.isFalse() {
					return false, "?it is not clear when the number is a float"
				}
				want := "FLOAT"
				if v == init.isTrue() {
					want = "INT"
				}
				if n != want {
					return false, "a number " + map[string]string{"INT": "without", "FLOAT": "with"}[want] + " a point becomes " + n
				}
				return true, ""
			}
			return false, "?it is not clear when the number is a float"
		},
		func(b *Path, l *lexLoop, w lexEnv) (bool, string) {
			if flag == nil {
				return false, "?it is not clear when the number is a float"
			}
			nm := strings.TrimPrefix(flag.Sym, l.id+".")
			init, v := l.vals[nm], b.Vals[nm]
			if init == nil || v == nil {
				return false, "?it is not clear when the number is a float"
			}
			point := w.b[0] == '.'
			switch {
			case point && v.isConst() && v.Sym != init.Sym:
			case point:
				return false, "a point does not make the number a float"
			case v == flag || v.Op == "loopv":
			default:
				if d := b.Facts.decide(c.p, flag); v.isConst() && d >= 0 && (d == 1) == v.isTrue() {
					return true, ""
				}
				return false, "a digit changes the kind of the number"
			}
			return true, ""
		})
}

// keywords: the words of the language.
func (m *lexModel) keywords(rule string) {
	c, lx := m.lx.c, m.lx
	cr := c.newCase(rule, "the words true, false, nil and in are keywords, any other word is an identifier")
	defer cr.done()
	if m.why != "" {
		cr.add(vUnd, token.NoPos, m.why)
		return
	}
	want := map[string]string{"true": "TRUE", "false": "FALSE", "nil": "NIL", "in": "IN"}
	for _, w := range []string{"true", "false", "nil", "in", "x", "True", "i", "inn", "loop", "global", "nill", "_"} {
		exp := want[w]
		if exp == "" {
			exp = "IDENT"
		}
		n := 0
		for _, t := range m.toks {
			if t.start == nil || t.dir != nil || len(t.in) != 1 || t.lit.Op != "slice" {
				continue
			}
			e := lexEnv{b: []int{int(w[0])}, prev: -2}
			terms := lx.flagTerms(t.p)
			sub := lx.envMap(t.start, e, terms)
			sub[t.lit] = mkStr(w)
			f := c.substFacts(t.p.Facts, sub)
			if f = lx.lenFacts(f, t.start, e); f == nil || m.infeasible(f) {
				continue
			}
			n++
			typ := c.subst(t.typ, sub)
			got := m.names[typ.Sym]
			switch {
			case !typ.isConst() || got == "":
				cr.add(vUnd, lastPos(t.p), "the type of the word "+w+" is not resolved")
			case got != exp:
				cr.add(vBad, lastPos(t.p), fmt.Sprintf("the word %s becomes %s, not %s", w, got, exp))
			default:
				cr.add(vOK, lastPos(t.p), "")
			}
		}
		if n == 0 {
			cr.add(vUnd, token.NoPos, "no token for the word "+w)
		}
	}
}

// strings scans the string literals.
func (m *lexModel) strings(rule string) {
	c, lx := m.lx.c, m.lx
	cr := c.newCase(rule, "a string ends at the next quote of its kind that no backslash precedes, and its text is what is between, with the escaped quotes unescaped")
	defer cr.done()
	if m.why != "" {
		cr.add(vUnd, token.NoPos, m.why)
		return
	}
	for _, quote := range []int{'"', '\''} {
		other := '"' + '\'' - quote
		var wins []lexEnv
		for _, p := range []int{'\\', 'a'} {
			for _, b0 := range []int{quote, other, '\\', 'a', '\n', 0, 0xc3, '}', -1} {
				for _, b1 := range []int{quote, other, '\\', 'a', '\n', 0, 0xc3, '}', -1} {
					if b0 < 0 && b1 >= 0 {
						continue
					}
					wins = append(wins, lexEnv{b: []int{b0, b1}, prev: p})
				}
			}
		}
		q := mkByte(byte(quote))
		litOK := func(t *lexTok, sub map[*Term]*Term, end *Term) (bool, string) {
			lit := c.subst(t.lit, sub)
			lo := addInt(t.start, 1)
			if s, ok := lit.strVal(); ok {
				if s == "" && end == lo {
					return true, ""
				}
				return false, fmt.Sprintf("the text of the string is %q", s)
			}
			esc, plain := mkStr("\\"+string(rune(quote))), mkStr(string(rune(quote)))
			for lit.Op == "call" || lit.Op == "ext" {
				switch {
				case strings.HasPrefix(lit.Sym, "strings.ReplaceAll") && len(lit.Args) == 3:
					a, ok1 := lit.Args[1].strVal()
					b, ok2 := lit.Args[2].strVal()
					if !ok1 || !ok2 {
						return false, "?the text of the string is replaced in a way that is not resolved"
					}
					if mkStr(a) != esc || mkStr(b) != plain {
						return false, fmt.Sprintf("in the text of a string written in %s, %q becomes %q", byteName(quote), a, b)
					}
					if isSliceOf(lit.Args[0], lx.input, lo, end) {
						return true, ""
					}
					return false, "the text of the string is not what is between the quotes"
				}
				return false, "?the text of the string is built in a way that is not resolved"
			}
			if isSliceOf(lit, lx.input, lo, end) {
				return false, "the escaped quotes are kept with their backslashes"
			}
			if lit.Op == "slice" {
				return false, "the text of the string is not what is between the quotes"
			}
			return false, "?the text of the string is not resolved"
		}
		s := &lexScan{m: m, cr: cr, first: lexEnv{b: []int{quote}, prev: -2}, wins: wins}
		// where the next quote is looked for relative to the loop position
		ahead := -1
		for _, t := range m.toks {
			if t.start == nil || len(t.in) != 1 || t.dir != nil {
				continue
			}
			if f, _ := m.inst(t.p, t.start, s.first, lx.flagTerms(t.p)); f == nil {
				continue
			}
			p := lx.posIn(t.in[0].id)
			for b, v := range t.p.Facts.bools {
				if !v || b.Op != "==" {
					continue
				}
				for d := 0; d < 2; d++ {
					at := lx.byteAt(addInt(p, int64(d)))
					if (b.Args[0] == at || b.Args[1] == at) && b.mentions(func(x *Term) bool { return x == lx.byteAt(t.start) || x == q }) {
						ahead = d
					}
				}
			}
		}
		closes := func(w lexEnv, d int) bool {
			if d == 0 {
				return w.b[0] == quote && w.prev != '\\'
			}
			return w.b[1] == quote && w.b[0] != '\\'
		}
		s.init = func(t *lexTok, l *lexLoop) (bool, string) {
			if ahead < 0 {
				return false, "?it is not clear how the end of the string is found"
			}
			if l.entry != addInt(t.start, 1) {
				return false, "the scan does not begin after the quote"
			}
			if ahead == 1 && t.p.Facts.decide(c.p, mkEq(lx.byteAt(addInt(t.start, 1)), lx.byteAt(t.start))) != 0 {
				return false, "a quote right after the opening one does not end the string"
			}
			return true, ""
		}
		s.out = func(t *lexTok, l *lexLoop, w lexEnv, f *Facts, sub map[*Term]*Term) (bool, string) {
			p := lx.posIn(l.id)
			if w.b[0] < 0 {
				// not closed: the rest of the input, and a missing "}}" or ")"
				if t.end == p || t.end == addInt(p, 1) {
					return true, ""
				}
				return false, "a string without an end does not end with the input"
			}
			if !closes(w, ahead) && !(ahead == 1 && w.b[1] < 0) {
				return false, "the string ends too early"
			}
			end := addInt(p, int64(ahead))
			if t.end != addInt(end, 1) {
				return false, "the closing quote does not belong to the token"
			}
			return litOK(t, sub, end)
		}
		s.step = func(b *Path, l *lexLoop, w lexEnv, f *Facts, sub map[*Term]*Term) (bool, string) {
			if w.b[0] < 0 {
				return false, "the scan goes on at the end of the input"
			}
			if closes(w, ahead) {
				return false, "the string goes on past its closing quote"
			}
			if e := lx.endPos(b); e != addInt(lx.posIn(l.id), 1) {
				return false, "a step of the scan does not consume one byte"
			}
			return true, ""
		}
		s.noLoop = func(t *lexTok, f *Facts, sub map[*Term]*Term) (bool, string) {
			if f.decide(c.p, mkEq(lx.byteAt(addInt(t.start, 1)), q)) != 1 {
				return false, "?a string that is not scanned"
			}
			if t.end != addInt(t.start, 2) {
				return false, "the empty string has two bytes"
			}
			return litOK(t, sub, addInt(t.start, 1))
		}
		s.run()
	}
}

// text scans what is outside code.
func (m *lexModel) text(rule string) {
	c, lx := m.lx.c, m.lx
	cr := c.newCase(rule, "text is emitted byte for byte up to the next directive, '{{' or the end, without the backslashes that escape those")
	defer cr.done()
	if m.why != "" {
		cr.add(vUnd, token.NoPos, m.why)
		return
	}
	var wins []lexEnv
	for b := -1; b < 256; b++ {
		for _, prev := range []int{'\\', 'a', '{'} {
			if b < 0 {
				wins = append(wins, lexEnv{b: []int{-1}, prev: prev})
				continue
			}
			for _, n := range []int{'{', 'a', '\\', -1} {
				if b != '{' && n != 'a' && n != -1 {
					continue
				}
				wins = append(wins, lexEnv{b: []int{b, n}, prev: prev})
				if b == '@' && prev == '\\' {
					wins = append(wins, lexEnv{b: []int{b, n}, prev: prev, dir: 2})
				} else if b == '@' {
					wins = append(wins, lexEnv{b: []int{b, n}, prev: prev, dir: 1})
				}
			}
		}
	}
	braces := func(w lexEnv) bool { return w.b[0] == '{' && len(w.b) > 1 && w.b[1] == '{' }
	stop := func(w lexEnv) bool {
		return w.b[0] < 0 || w.dir == 1 || braces(w) && w.prev != '\\'
	}
	for _, first := range []int{'a', '\n', 0xc3, '}', '@', '{', 0} {
		ws := wins
		if first != 'a' {
			ws = nil
			for _, w := range wins {
				switch w.b[0] {
				case -1, 0, '@', '{', 'a', '}', '\\', '\n', 0xc3:
					ws = append(ws, w)
				}
			}
		}
		s := &lexScan{m: m, cr: cr, first: lexEnv{html: true, b: []int{first, 'a'}, prev: -2}, wins: ws}
		bufOf := func(l *lexLoop) *Term {
			if len(l.buf) != 1 {
				var one *Term
				for a := range l.buf {
					if a.Op == "&buf" {
						if one != nil {
							return nil
						}
						one = a
					}
				}
				return one
			}
			for a := range l.buf {
				return a
			}
			return nil
		}
		s.init = func(t *lexTok, l *lexLoop) (bool, string) {
			if l.entry != t.start {
				return false, "the scan does not begin on the first byte"
			}
			b := bufOf(l)
			if b == nil {
				return false, "?the text is not collected in one buffer"
			}
			if v, ok := l.buf[b].strVal(); !ok || v != "" {
				return false, "the text does not start empty"
			}
			return true, ""
		}
		s.out = func(t *lexTok, l *lexLoop, w lexEnv, f *Facts, sub map[*Term]*Term) (bool, string) {
			q := lx.posIn(l.id)
			if !stop(w) {
				return false, "the text ends too early"
			}
			if t.end != q {
				return false, "bytes after the text are consumed"
			}
			b := bufOf(l)
			if t.lit != mk("loopm", l.id, types.Typ[types.String], nil, b) {
				return false, "the token is not the collected text"
			}
			return true, ""
		}
		s.step = func(bp *Path, l *lexLoop, w lexEnv, f *Facts, sub map[*Term]*Term) (bool, string) {
			q := lx.posIn(l.id)
			if stop(w) {
				return false, "the text goes on where it has to end"
			}
			n := 1
			esc := w.dir == 2 || braces(w)
			if braces(w) {
				n = 2
			}
			e := lx.endPos(bp)
			b := bufOf(l)
			old := mk("loopm", l.id, types.Typ[types.String], nil, b)
			cut, bs, ok := bufParts(c.subst(bp.St.mem[b], sub), old)
			if !ok {
				return false, "?what is added to the text is not resolved"
			}
			want := make([]byte, 0, 2)
			for i := 0; i < n; i++ {
				want = append(want, byte(w.b[i]))
			}
			wc := 0
			if esc {
				wc = 1
			}
			if esc && w.dir != 2 && e == addInt(q, 1) {
				// the escaped braces may be copied one at a time, but then
				// the second must not open a block with a third
				return false, "the second of two escaped braces can open a block"
			}
			if e != addInt(q, int64(n)) {
				return false, fmt.Sprintf("%d byte(s) have to be consumed", n)
			}
			if cut != wc {
				return false, fmt.Sprintf("%d byte(s) of the text before are removed, not %d", cut, wc)
			}
			if string(bs) != string(want) {
				return false, fmt.Sprintf("%q is added to the text, not %q", bs, want)
			}
			return true, ""
		}
		s.run()
	}
}

// bufParts splits a buffer's content into the number of bytes cut off the old
// content and the bytes added.
func bufParts(t, old *Term) (cut int, add []byte, ok bool) {
	if t == nil {
		return 0, nil, false
	}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		switch {
		case t == old:
			return true
		case t.Op == "cat":
			for i, a := range t.Args {
				if i == 0 && rec(a) {
					continue
				}
				switch {
				case a.Op == "bytestr" && a.Args[0].isConst():
					n, is := a.Args[0].intVal()
					if !is {
						return false
					}
					add = append(add, byte(n))
				case a.isConst():
					s, is := a.strVal()
					if !is {
						return false
					}
					add = append(add, s...)
				default:
					return false
				}
			}
			return true
		case t.Op == "trunc":
			if !rec(t.Args[0]) || len(add) > 0 {
				return false
			}
			d := linAdd(mkLen(t.Args[0]), t.Args[1], -1)
			n, is := d.intVal()
			if !is {
				return false
			}
			cut += int(n)
			return true
		}
		return false
	}
	if !rec(t) {
		return 0, nil, false
	}
	return cut, add, true
}

// ------------------------------------------------------------ comments

func (m *lexModel) comments(rule string) {
	c, lx := m.lx.c, m.lx
	cr := c.newCase(rule, "a comment runs from '{{--' to the first '--}}', and text follows it")
	defer cr.done()
	if m.why != "" {
		cr.add(vUnd, token.NoPos, m.why)
		return
	}
	// going around the token loop over a comment
	type cm struct {
		b *Path
		x *Term
		l *lexLoop
	}
	var cms []cm
	for _, b := range m.backs {
		if f := m.infeasible(b.Facts); f {
			continue
		}
		var outer *lexLoop
		ls := lx.loopsOf(b)
		for _, l := range ls {
			if l.id == b.Loop {
				outer = l
			}
		}
		if outer == nil || outer.entry == nil {
			continue
		}
		// the first byte it consumes
		var x *Term
		for _, ev := range b.Events {
			if ev.Kind == "adv" {
				x = ev.Args[0]
				break
			}
		}
		if x == nil || x == lx.posIn(b.Loop) && len(ls) == 1 {
			continue
		}
		ok := true
		for i, ch := range []byte("{{--") {
			if b.Facts.decide(c.p, mkEq(lx.byteAt(addInt(x, int64(i))), mkByte(ch))) != 1 {
				ok = false
			}
		}
		if !ok {
			continue
		}
		last := ls[len(ls)-1]
		if last == outer || last.entry == nil {
			continue
		}
		if outer.id != b.Loop {
			continue
		}
		cms = append(cms, cm{b, x, last})
	}
	// returning paths that handle a comment by calling themselves are not recognised
	if len(cms) == 0 {
		cr.add(vUnd, token.NoPos, "the code that skips comments was not found")
		return
	}
	n := mkLen(lx.input)
	rest := func(x *Term) *Term { return mkStr("--}}") }
	_ = rest
	for _, k := range cms {
		pos := k.b.Pos
		q := lx.posIn(k.l.id)
		r := lx.renderer(m.er, k.b)
		if k.l.entry != addInt(k.x, 2) {
			v := vBad
			if !lx.known(k.b, k.l.entry) {
				v = vUnd
			}
			cr.add(v, pos, "the end of the comment is looked for from "+r.str(k.l.entry)+", the comment starts at "+r.str(k.x))
			continue
		}
		// the comment has an end
		closed := false
		for b, v := range k.b.Facts.bools {
			if v && c.isStrCall(b, "strings.Contains", lx.input, addInt(k.x, 2), "--}}") {
				closed = true
			}
		}
		f := k.b.Facts
		switch {
		case f.decide(c.p, mkLess(q, n)) == 0:
			// only if no end is found
			if !closed {
				cr.add(vUnd, pos, "a comment without an end is accepted")
			}
			continue
		}
		term := false
		for b, v := range f.bools {
			if v && c.isStrCall(b, "strings.HasPrefix", lx.input, q, "--}}") {
				term = true
			}
		}
		if !term {
			all := true
			for i, ch := range []byte("--}}") {
				if f.decide(c.p, mkEq(lx.byteAt(addInt(q, int64(i))), mkByte(ch))) != 1 {
					all = false
				}
			}
			term = all
		}
		if !term {
			cr.add(vUnd, pos, "what ends a comment is not resolved")
			continue
		}
		if e := lx.endPos(k.b); e != addInt(q, 4) {
			cr.add(vBad, pos, "after '--}}' the lexer stands on "+r.str(e)+", the end of the comment is at "+r.str(q))
			continue
		}
		if v := k.b.St.mem[lx.addr("isHTML")]; v == nil || !v.isTrue() {
			cr.add(vBad, pos, "text does not follow the comment")
			continue
		}
		cr.add(vOK, pos, "")
		// inside: one byte at a time, and never past an end
		for _, b := range m.backs {
			if b.Loop != k.l.id {
				continue
			}
			same := false
			for _, l := range lx.loopsOf(b) {
				if l.id == k.l.id && l.hdr == k.l.hdr && l.entry == k.l.entry {
					same = true
				}
			}
			if !same {
				continue
			}
			if e := lx.endPos(b); e != addInt(q, 1) {
				cr.add(vBad, b.Pos, "inside a comment the lexer moves to "+r.str(e)+" from "+r.str(q)+", an end may be missed")
				continue
			}
			// not at an end
			g := b.Facts
			not := false
			for bb, v := range g.bools {
				if !v && c.isStrCall(bb, "strings.HasPrefix", lx.input, q, "--}}") {
					not = true
				}
			}
			for i, ch := range []byte("--}}") {
				if g.decide(c.p, mkEq(lx.byteAt(addInt(q, int64(i))), mkByte(ch))) == 0 || g.decide(c.p, mkLess(addInt(q, int64(i)), n)) == 0 {
					not = true
				}
			}
			if !not {
				cr.add(vBad, b.Pos, "the end of a comment can be skipped")
				continue
			}
			cr.add(vOK, b.Pos, "")
		}
	}
	// an open comment is an error
	found := false
	for _, t := range m.toks {
		if m.unclosed(t) {
			found = true
			open := false
			for b, v := range t.p.Facts.bools {
				if !v && c.isStrCall(b, "strings.Contains", lx.input, addInt(t.start, 2), "--}}") {
					open = true
				}
			}
			if !open {
				cr.add(vUnd, lastPos(t.p), "when a comment has no end is not resolved")
				continue
			}
			cr.add(vOK, lastPos(t.p), "")
		}
	}
	if !found {
		cr.add(vUnd, token.NoPos, "a comment without an end is not reported")
	}
}

// isStrCall recognises f(input[lo:], sep).
func (c *Checker) isStrCall(t *Term, fn string, input, lo *Term, sep string) bool {
	if t.Op != "call" && t.Op != "ext" || !strings.HasPrefix(t.Sym, fn) || len(t.Args) != 2 {
		return false
	}
	if s, ok := t.Args[1].strVal(); !ok || s != sep {
		return false
	}
	a := t.Args[0]
	return a.Op == "slice" && a.Args[0] == input && a.Args[1] == lo && (a.Args[2].isNil() || a.Args[2] == mkLen(input))
}

// ------------------------------------------------------------ directives

// the directives of the language: the token of each keyword, and whether its
// argument list follows (2: only if there is a parenthesis).
var dirWords = map[string]struct {
	tok  string
	args int
}{
	"@if": {"IF", 1}, "@else": {"ELSE", 0}, "@elseif": {"ELSE_IF", 1}, "@end": {"END", 0}, "@use": {"USE", 1}, "@reserve": {"RESERVE", 1},
	"@insert": {"INSERT", 1}, "@for": {"FOR", 1}, "@each": {"EACH", 1}, "@continue": {"CONTINUE", 0}, "@continueIf": {"CONTINUE_IF", 1},
	"@break": {"BREAK", 0}, "@breakIf": {"BREAK_IF", 1}, "@component": {"COMPONENT", 1}, "@slot": {"SLOT", 2}, "@dump": {"DUMP", 1},
}

// longest is the keyword at the start of a word, "" when there is none.
func longestDir(w string) string {
	best := ""
	for k := range dirWords {
		if strings.HasPrefix(w, k) && len(k) > len(best) {
			best = k
		}
	}
	return best
}

func dirSamples(follow map[int]bool) []string {
	set := map[string]bool{}
	for k := range dirWords {
		switch k {
		case "@end", "@if", "@slot", "@else":
			for _, n := range sortedInts(follow) {
				set[k+string([]byte{byte(n)})] = true
				set[k+string([]byte{byte(n), '('})] = true
			}
		}
		for _, f := range []string{"", "(", " ", " (", "\n(", "x", "s", "If(", "if(", "i(", "\n", "\r", "\r\n", "\t", ";", "{{", "@", "1", "\xc3\xa9", "I", "i", "ifx"} {
			set[k+f] = true
		}
		for i := 1; i < len(k); i++ {
			for _, f := range []string{"", " ", "(", "\xc3\xa9", "@", "X", "{{"} {
				set[k[:i]+f] = true
			}
		}
	}
	for _, w := range []string{"@", "@@if", "@ if", "@IF(", "@If(", "@foo", "@dumps", "@xif"} {
		set[w] = true
	}
	var out []string
	for w := range set {
		out = append(out, w)
	}
	sort.Strings(out)
	return out
}

// explore follows the loop of a path set on a constant stretch of the input,
// using the summaries of its rounds as a transition table.
func (m *lexModel) explore(ps []*Path, x *Term, e lexEnv, word string) (res []*Path, subs []map[*Term]*Term, fs []*Facts, why string) {
	lx := m.lx
	c := lx.c
	type state struct {
		id   string
		hdr  token.Pos
		n    int
		vals map[*Term]*Term
	}
	for i := 0; i < len(word); i++ {
		e.b = append(e.b, int(word[i]))
	}
	e.b = append(e.b, -1)
	second := map[*Term]*Term{}
	for i := 1; i <= len(word); i++ {
		for _, t := range []types.Type{types.Typ[types.String]} {
			second[mk("slice", "", t, nil, lx.input, x, addInt(x, int64(i)))] = mkStr(word[:i])
		}
	}
	inst := func(p *Path, st *state) (*Facts, func(t *Term) *Term) {
		first := map[*Term]*Term{}
		if st != nil {
			for k, v := range st.vals {
				first[k] = v
			}
			first[mk("loopk", "k"+st.id, types.Typ[types.Int], nil)] = mkInt(int64(st.n))
		}
		sub := lx.envMap(x, e, lx.flagTerms(p))
		for k, v := range second {
			sub[k] = v
		}
		for k, v := range m.extra {
			sub[k] = v
		}
		two := func(t *Term) *Term {
			if t == nil {
				return nil
			}
			return c.subst(c.subst(c.subst(t, first), sub), nil)
		}
		n := c.mapFacts(p.Facts, two)
		if n == nil {
			return nil, nil
		}
		if n = lx.lenFacts(n, x, e); n == nil || m.infeasible(n) {
			return nil, nil
		}
		return n, two
	}
	var st *state
	for round := 0; round < 64; round++ {
		var next *state
		res, subs, fs = nil, nil, nil
		for _, p := range ps {
			ls := lx.loopsOf(p)
			var last *lexLoop
			if len(ls) > 0 {
				last = ls[len(ls)-1]
				// loops before the position do not count
				if last.entry != nil && last.entry != x && last.id != "" && lx.posIn(last.id) == x {
					last = nil
				}
			}
			if st != nil && (last == nil || last.id != st.id || last.hdr != st.hdr) {
				continue
			}
			cur := st
			if st == nil && last != nil {
				// entering the loop
				cur = &state{id: last.id, hdr: last.hdr, vals: map[*Term]*Term{}}
				f0, two := inst(p, &state{id: "none"})
				_ = f0
				if two == nil {
					first := lx.envMap(x, e, lx.flagTerms(p))
					two = func(t *Term) *Term { return c.subst(c.subst(t, first), second) }
				}
				m.loopVals(cur.vals, last, p, two)
			}
			f, two := inst(p, cur)
			if f == nil {
				continue
			}
			switch p.Outcome {
			case "return":
				res = append(res, p)
				fs = append(fs, f)
				sub := map[*Term]*Term{}
				_ = sub
				subs = append(subs, map[*Term]*Term{})
				// record the substituted results
				mm := subs[len(subs)-1]
				for _, rt := range p.Ret {
					rt.walk(func(t *Term) bool { mm[t] = two(t); return true })
				}
				for a, v := range p.St.mem {
					if a.Op == "&f" && a.Args[0] == lx.recv {
						mm[v] = two(v)
					}
				}
			case "back":
				if last == nil || p.Loop != last.id {
					return nil, nil, nil, "a loop inside the keyword loop"
				}
				ns := &state{id: cur.id, hdr: cur.hdr, n: cur.n + 1, vals: map[*Term]*Term{}}
				for nm, v := range p.Vals {
					m.setVal(ns.vals, last.id, nm, two(v), p, cur.vals)
				}
				for a := range m.cells(last) {
					if v := p.St.mem[a]; v != nil {
						ns.vals[mk("loopm", last.id, v.Typ, nil, a)] = two(v)
						for k := range cur.vals {
							if k.Op == "loopm" && k.Args[0] == a {
								ns.vals[k] = two(v)
							}
						}
					}
				}
				if next != nil && !sameVals(next.vals, ns.vals) {
					return nil, nil, nil, "the next step is not determined"
				}
				next = ns
			default:
				return nil, nil, nil, "a path that does not return"
			}
		}
		if next == nil {
			return res, subs, fs, ""
		}
		if len(res) > 0 {
			return nil, nil, nil, "whether the keyword ends is not determined"
		}
		st = next
	}
	return nil, nil, nil, "the keyword does not end"
}

func sameVals(a, b map[*Term]*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

func (m *lexModel) cells(l *lexLoop) map[*Term]*Term {
	out := map[*Term]*Term{}
	for a, v := range l.buf {
		out[a] = v
	}
	if l.entry != nil {
		out[m.lx.addr("pos")] = l.entry
	}
	return out
}

// loopVals are the values of what the loop carries when it is entered.
func (m *lexModel) loopVals(vals map[*Term]*Term, l *lexLoop, p *Path, two func(*Term) *Term) {
	for nm, v := range l.vals {
		m.setVal(vals, l.id, nm, two(v), p, nil)
	}
	for a, v := range m.cells(l) {
		// the term of the cell has the type it was given
		vals[mk("loopm", l.id, v.Typ, nil, a)] = two(v)
		if a == m.lx.addr("pos") {
			vals[m.lx.posIn(l.id)] = two(v)
		}
	}
}

// setVal binds every loopv term of the name that the path mentions.
func (m *lexModel) setVal(vals map[*Term]*Term, id, name string, v *Term, p *Path, old map[*Term]*Term) {
	for k := range old {
		if k.Op == "loopv" && k.Sym == id+"."+name {
			vals[k] = v
		}
	}
	if v != nil && v.Typ != nil {
		vals[mk("loopv", id+"."+name, v.Typ, nil)] = v
	}
	add := func(t *Term) {
		if t == nil {
			return
		}
		t.walk(func(t *Term) bool {
			if t.Op == "loopv" && t.Sym == id+"."+name {
				vals[t] = v
			}
			return true
		})
	}
	for b := range p.Facts.bools {
		add(b)
	}
	for _, t := range p.Ret {
		add(t)
	}
	for _, t := range p.Vals {
		add(t)
	}
}

// directives: what starts with a keyword is a directive of that keyword.
func (m *lexModel) directives(rule string) {
	m.lx.c.dirTable(rule)
	m.dirPredicate(rule)
	m.dirTokens(rule)
}

// dirTable: the kind of a directive is looked up by its exact name.
func (c *Checker) dirTable(rule string) {
	cr := c.newCase(rule, "LookupDirective gives the kind of exactly the names of directives")
	defer cr.done()
	f := c.p.fn("token", "LookupDirective")
	if f == nil {
		cr.add(vUnd, token.NoPos, "token.LookupDirective not found")
		return
	}
	c.sawFn(f)
	args := rootParams(f)
	er := c.fnRun(f, []string{"dir"}, runOpts{args: args}, nil)
	if er == nil || !er.complete || len(args) != 1 || !isString(args[0].Typ) {
		cr.add(vUnd, c.fnPos(f), "not analysed")
		return
	}
	c.paths += len(er.paths)
	names := map[string]string{}
	sc := c.p.pkgs["token"].Types.Scope()
	for _, n := range sc.Names() {
		if k, ok := sc.Lookup(n).(*types.Const); ok && shortType(k.Type()) == "token.TokenType" {
			names[mkConst(k.Val(), k.Type()).Sym] = n
		}
	}
	type word struct{ text, want string }
	set := map[string]bool{"": true, "@": true, "@x": true}
	for d := range dirWords {
		for _, w := range []string{d, strings.ToUpper(d), strings.ToLower(d), "@" + strings.ToUpper(d[1:2]) + d[2:], d + " ", " " + d, d + "x", d[1:], d + d} {
			set[w] = true
		}
	}
	var words []word
	for w := range set {
		k, ok := dirWords[w]
		if !ok {
			k.tok = "ILLEGAL"
		}
		words = append(words, word{w, k.tok})
	}
	sort.Slice(words, func(i, j int) bool { return words[i].text < words[j].text })
	for _, w := range words {
		sub := map[*Term]*Term{args[0]: mkStr(w.text)}
		n := 0
		for _, p := range er.paths {
			fs := c.substFacts(p.Facts, sub)
			if fs == nil {
				continue
			}
			n++
			if p.Outcome != "return" || len(p.Ret) != 1 {
				cr.add(vUnd, lastPos(p), fmt.Sprintf("%q: a path that does not return", w.text))
				continue
			}
			got := c.subst(p.Ret[0], sub)
			name := ""
			if got.isConst() {
				name = names[got.Sym]
			}
			switch {
			case name == "":
				cr.add(vUnd, lastPos(p), fmt.Sprintf("the kind of %q is %s", w.text, er.specRenderer(p).str(got)))
			case name == w.want:
				cr.add(vOK, lastPos(p), "")
			case len(fs.bools) > 0:
				cr.add(vUnd, lastPos(p), fmt.Sprintf("%q: a condition is not resolved", w.text))
			default:
				cr.add(vBad, lastPos(p), fmt.Sprintf("the kind of %q is %s, not %s", w.text, name, w.want))
			}
		}
		if n == 0 {
			cr.add(vUnd, c.fnPos(f), fmt.Sprintf("no path for %q", w.text))
		}
	}
}

// dirPredicate: a directive starts exactly where a keyword does, escaped when
// a backslash precedes it.
func (m *lexModel) dirPredicate(rule string) {
	lx := m.lx
	c := lx.c
	cr := c.newCase(rule, "a directive starts at '@' with a keyword; a backslash before it escapes it")
	defer cr.done()
	f := c.p.fn("lexer", "Lexer.isDirectiveToken")
	if f == nil || m.why != "" {
		cr.add(vUnd, token.NoPos, "lexer.Lexer.isDirectiveToken not found")
		return
	}
	c.sawFn(f)
	lx2 := *lx
	lx2.directives = false
	o := lx2.opts()
	c.longestModel(rule, &o)
	er := lx2.run(f, o, nil)
	if !er.complete {
		cr.add(vUnd, token.NoPos, "too many paths")
		return
	}
	follow := map[int]bool{}
	for _, p := range er.paths {
		lx.comparedWith(p, nil, follow)
	}
	// a byte before it that the code tells apart from the others must not
	// matter either
	before := map[int]bool{}
	for _, p := range er.paths {
		lx.comparedWith(p, addInt(lx.pos, -1), before)
	}
	prevs := []int{'\\', 'a', -1}
	for _, b := range sortedInts(before) {
		if b != '\\' && b != 'a' {
			prevs = append(prevs, b)
		}
	}
	for n, prev := range prevs {
		if n > 2 {
			follow = nil
		}
		for _, w := range dirSamples(follow) {
			e := lexEnv{html: true, prev: prev}
			res, subs, fs, why := m.explore(er.paths, lx.pos, e, w)
			if why != "" || len(res) == 0 {
				cr.add(vUnd, token.NoPos, fmt.Sprintf("%q: %s", w, why))
				continue
			}
			isDir := longestDir(w) != ""
			want := [2]bool{isDir && prev != '\\', isDir && prev == '\\'}
			for i, p := range res {
				if len(p.Ret) != 2 {
					cr.add(vUnd, lastPos(p), "isDirectiveToken does not return two results")
					continue
				}
				for k := 0; k < 2; k++ {
					v := subs[i][p.Ret[k]]
					d := fs[i].decide(c.p, v)
					switch {
					case d < 0:
						cr.add(vUnd, lastPos(p), fmt.Sprintf("%q: not determined", w))
					case (d == 1) != want[k]:
						what := "a directive"
						if k == 1 {
							what = "an escaped directive"
						}
						vd := vBad
						if !m.factsKnown(fs[i]) {
							vd = vUnd
						}
						cr.add(vd, lastPos(p), fmt.Sprintf("%q after %s is %s%s", w, byteName(prev), map[bool]string{true: "", false: "not "}[d == 1], what))
					default:
						cr.add(vOK, lastPos(p), "")
					}
				}
			}
		}
	}
}

// longestModel lets the length of the longest keyword be a constant, once the
// function is seen to compute it.
func (c *Checker) longestModel(rule string, o *runOpts) {
	f := c.p.fn("token", "LongestDirective")
	if f == nil {
		return
	}
	n, why := c.longestKey(f)
	cr := c.newCase(rule, "LongestDirective is the length of the longest keyword")
	defer cr.done()
	if why != "" {
		if strings.HasPrefix(why, "!") {
			cr.add(vBad, c.fnPos(f), why[1:])
		} else {
			cr.add(vUnd, c.fnPos(f), why)
		}
		return
	}
	cr.add(vOK, c.fnPos(f), "")
	k := mk("param", "longest", types.Typ[types.Int], nil)
	c.lexm.extra[k] = mkInt(n)
	for name, h := range constModel("token.LongestDirective", k) {
		o.model[name] = h
	}
}

// longestKey checks max over the keys of a constant table.
func (c *Checker) longestKey(f interface{ Name() string }) (int64, string) {
	fn := c.p.fn("token", "LongestDirective")
	c.sawFn(fn)
	er := c.fnRun(fn, nil, runOpts{}, nil)
	if er == nil || !er.complete {
		return 0, "not analysed"
	}
	var table *Term
	var acc *Term
	for _, p := range er.paths {
		switch p.Outcome {
		case "back":
			for b := range p.Facts.bools {
				b.walk(func(t *Term) bool {
					if c.p.gtables[t] {
						table = t
					}
					return true
				})
			}
			if len(p.Vals) != 1 {
				return 0, "the loop carries more than the length"
			}
			for nm, v := range p.Vals {
				a := mk("loopv", p.Loop+"."+nm, v.Typ, nil)
				acc = a
				if v == a {
					// kept: not smaller than this key
					ok := false
					for b, val := range p.Facts.bools {
						if !val && b.Op == "<" && b.Args[0] == a && b.Args[1].Op == "len" && strings.HasPrefix(b.Args[1].Args[0].Op, "rkey") {
							ok = true
						}
						if val && b.Op == "<" && b.Args[1] == a && b.Args[0].Op == "len" {
							ok = true
						}
					}
					if !ok {
						return 0, "the length is kept for an unknown reason"
					}
					continue
				}
				if v.Op != "len" || !strings.HasPrefix(v.Args[0].Op, "rkey") {
					return 0, "the length is not that of a key"
				}
				if p.Facts.decide(c.p, mkLess(v, a)) != 0 {
					return 0, "!a shorter keyword can replace a longer one"
				}
			}
		case "return":
		default:
			return 0, "a path that does not return"
		}
	}
	for _, p := range er.paths {
		if p.Outcome == "return" && (len(p.Ret) != 1 || p.Ret[0] != acc) {
			return 0, "the result is not the length found"
		}
	}
	if table == nil {
		return 0, "the table of directives was not found"
	}
	var n int64
	for a := range c.p.gmem.mem {
		if a.Op == "&m" && a.Args[0] == table {
			if s, ok := a.Args[1].strVal(); ok && int64(len(s)) > n {
				n = int64(len(s))
			}
		}
	}
	return n, ""
}

// dirTokens: the token of a directive, its extent, and the mode after it.
func (m *lexModel) dirTokens(rule string) {
	lx := m.lx
	c := lx.c
	cr := c.newCase(rule, "a directive token is its keyword, and code follows only for its argument list")
	defer cr.done()
	if m.why != "" {
		cr.add(vUnd, token.NoPos, m.why)
		return
	}
	// paths where a directive starts
	byX := map[*Term][]*Path{}
	toks := map[*Path]*lexTok{}
	for _, t := range m.toks {
		if t.dir != nil {
			byX[t.dir] = append(byX[t.dir], t.p)
			toks[t.p] = t
		}
	}
	for _, b := range m.backs {
		for f, v := range b.Facts.bools {
			if v && f.Op == "dir" && !m.infeasible(b.Facts) {
				byX[f.Args[0]] = append(byX[f.Args[0]], b)
			}
		}
	}
	n := 0
	for x, ps := range byX {
		starts := false
		for _, p := range ps {
			if t := toks[p]; t != nil && t.start == x {
				starts = true
			}
		}
		if !starts {
			continue // inside text: the token ends there
		}
		follow := map[int]bool{}
		for _, p := range ps {
			lx.comparedWith(p, nil, follow)
		}
		for _, w := range dirSamples(follow) {
			k := longestDir(w)
			if k == "" {
				continue
			}
			n++
			e := lexEnv{html: true, dir: 1, prev: -2}
			res, subs, fs, why := m.explore(ps, x, e, w)
			if why != "" || len(res) == 0 {
				cr.add(vUnd, token.NoPos, fmt.Sprintf("%q: %s", w, why))
				continue
			}
			for i, p := range res {
				t := toks[p]
				sub := subs[i]
				pos := lastPos(p)
				if t == nil {
					cr.add(vUnd, pos, "a path without a token")
					continue
				}
				get := func(t *Term) *Term {
					if v, ok := sub[t]; ok {
						return v
					}
					return t
				}
				bad := func(known bool, f string, a ...any) {
					v := vBad
					if !known || !m.factsKnown(fs[i]) {
						v = vUnd
					}
					cr.add(v, pos, fmt.Sprintf("%q: ", w)+fmt.Sprintf(f, a...))
				}
				typ := get(t.typ)
				if !typ.isConst() {
					bad(false, "the token is not determined")
					continue
				}
				if got := m.names[typ.Sym]; got != dirWords[k].tok {
					bad(true, "the token is %s, not %s", got, dirWords[k].tok)
					continue
				}
				if t.start != x {
					bad(true, "the position of the token is not where the directive starts")
					continue
				}
				if lit := get(t.lit); lit != mkStr(k) {
					s, is := lit.strVal()
					bad(is, "the literal is %q", s)
					continue
				}
				end := get(lx.endPos(p))
				if end != addInt(x, int64(len(k))) {
					bad(lx.known(p, end), "the token does not end with the keyword")
					continue
				}
				args := dirWords[k].args == 1 || dirWords[k].args == 2 && len(w) > len(k) && w[len(k)] == '('
				ok := true
				for fn, want := range map[string]bool{"isDirective": args, "isHTML": !args} {
					v := p.St.mem[lx.addr(fn)]
					if v == nil {
						v = mkBool(fn == "isHTML")
					} else {
						v = get(v)
					}
					d := fs[i].decide(c.p, v)
					if d >= 0 && (d == 1) == want {
						continue
					}
					ok = false
					bad(d >= 0, "after it %s is %v", fn, d == 1)
					break
				}
				if ok {
					cr.add(vOK, pos, "")
				}
			}
		}
	}
	if n == 0 {
		cr.add(vUnd, token.NoPos, "no token path for directives")
	}
}
