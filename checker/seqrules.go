package main

import (
	"fmt"
	"sort"
	"strings"
)

// seqRules: a template and a block keep every statement, in order, and end
// exactly where they must.
func (pr *parserRun) seqRules(rule string) {
	pr.seqRule(rule, "statements of a template", "Parser.ParseProgram", pr.cur, []string{"EOF"}, "(S T:?)*",
		"Program{Token: cur0, UseStmt: p.useStmt, Statements: ‹nil|acc++[LS1]›, Components: p.components, Slots: p.slots, Reserves: p.reserves, Inserts: p.inserts}", false)
	pr.seqRule(rule, "statements of a block", "Parser.parseBlockStmt", pr.pk, []string{"ELSE", "ELSE_IF", "END", "EOF"}, "(T:? S)*",
		"BlockStmt{Token: peek0, Statements: ‹nil|acc++[LS1]›}", true)
}

// fieldTok is the token type a parser field holds at the end of a path.
func (pr *parserRun) fieldTok(p *Path, field int) *Term {
	e := newExec(pr.c.p, &Policy{})
	st := p.St.clone()
	return pr.typeOf(e.load(st, pr.addr(pr.params[0], field), pr.tokT))
}

// can: the token type may be the named one under the facts of a path.
func (pr *parserRun) can(p *Path, typ *Term, name string) bool {
	if typ == nil || pr.consts[name] == nil {
		return true
	}
	return p.Facts.assume(pr.c.p, mkEq(typ, pr.consts[name]), true) != nil
}

func (pr *parserRun) seqRule(rule, label, fn string, field int, ends []string, lang, node string, ahead bool) {
	c := pr.c
	f := c.p.fn("parser", fn)
	if pr.errs != "" || f == nil {
		c.und(rule, label, "anchor not found: %s", pr.errs)
		return
	}
	ps, complete := pr.run(f, nil, "", nil)
	if !complete {
		c.und(rule, label, "path enumeration is incomplete")
		return
	}
	cr := c.newCase(rule, label)
	isEnd := map[string]bool{}
	for _, e := range ends {
		isEnd[e] = true
	}
	var names []string
	for n := range pr.consts {
		names = append(names, n)
	}
	sort.Strings(names)
	var good []*Path
	for _, p := range ps {
		if p.Outcome == "limit" {
			cr.add(vUnd, lastPos(p), "a path was not followed to its end")
		}
		if p.Outcome != "return" && p.Outcome != "back" || hasErr(p) {
			continue
		}
		if p.Outcome == "return" && nilRet(p) {
			// only after an illegal character, which is an error
			if cur := pr.fieldTok(p, pr.cur); p.Facts.decide(c.p, mkEq(cur, pr.consts["ILLEGAL"])) == 1 {
				continue
			}
			cr.add(pr.seqBad(p), lastPos(p), "nothing is returned after `"+pr.linear(p)+"` though the last token is not an illegal one")
			continue
		}
		good = append(good, p)
		var stmt *Event
		var first *Term
		for _, ev := range p.Events {
			switch {
			case ev.Kind == "loop":
				stmt, first = nil, nil
			case pr.act(p, ev) == "S":
				stmt = ev
				first = ev.Vals["cur"]
			}
		}
		switch {
		case p.Outcome == "return" && stmt == nil:
			typ := pr.fieldTok(p, field)
			for _, n := range names {
				if !isEnd[n] && n != "ILLEGAL" && pr.can(p, typ, n) {
					cr.add(pr.seqBad(p), lastPos(p), fmt.Sprintf("the %s end before a token %s", label, n))
					break
				}
			}
		case stmt != nil:
			typ := pr.typeOf(first)
			for _, n := range ends {
				if pr.can(p, typ, n) {
					cr.add(pr.seqBad(p), lastPos(p), fmt.Sprintf("a token %s does not end the %s", n, label))
				}
			}
			if p.Outcome == "back" && !pr.keeps(p, stmt, ps) {
				cr.add(pr.seqBad(p), lastPos(p), "a statement that was parsed is not kept")
			}
		}
	}
	code, want := pathsNFA(good, pr.act, func(*Path) bool { return true }), grammarNFA(lang)
	pos := f.Pos()
	if w, bad := outside(code, want); bad {
		v := vBad
		for _, p := range good {
			if pr.seqBad(p) == vUnd {
				v = vUnd
			}
		}
		if code.mixed || strings.Contains(w, "?p") {
			v = vUnd
		}
		cr.add(v, pos, "the "+label+" consume `"+w+"`")
	} else {
		cr.add(vOK, pos, "")
	}
	cr.done()
	pr.stmtNodes(rule, label+" in order", good, stmtSpec{alts: []parseAlt{{trace: "(L)?", node: node}}})
}

// seqBad: a wrong step is a violation when the conditions of the path are
// about tokens and parsed statements only.
func (pr *parserRun) seqBad(p *Path) verdict {
	for b := range p.Facts.bools {
		if b.mentions(func(t *Term) bool {
			return t.Op == "loopv" || t.Op == "loopm" && !t.Args[0].mentions(func(x *Term) bool { return x == pr.params[0] }) ||
				t.Op == "call" && !strings.HasPrefix(t.Sym, "parser.") || t.Op == "inv" || t.Op == "dyn"
		}) {
			return vUnd
		}
	}
	return vBad
}

// keeps: the pass adds the parsed statement to the list, or there is none.
func (pr *parserRun) keeps(p *Path, stmt *Event, ps []*Path) bool {
	if n, ok := p.Facts.kind(pr.c.p, stmt.Res).single(); ok && n == "nil" {
		return true
	}
	used := false
	look := func(v *Term) {
		used = used || v != nil && v.mentions(func(t *Term) bool { return t == stmt.Res })
	}
	for _, v := range p.St.mem {
		look(v)
	}
	for _, v := range p.Vals {
		look(v)
	}
	for _, ev := range p.Events {
		if ev.Kind == "call" && ev != stmt {
			for _, a := range ev.Args {
				look(a)
			}
		}
	}
	return used
}
