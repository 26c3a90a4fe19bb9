package main

import (
	"fmt"
	"go/types"
	"regexp"
	"strings"
)

// Linking: layouts get the inserts of the page, components their slots.

// linkVoc are the linking steps that stay calls in their callers.
var linkVoc = map[string]string{
	"textwire.applyLayoutToProgram":    "Layout",
	"textwire.applyComponentToProgram": "Comps",
	"textwire.findTextwireFiles":       "Files",
	"textwire.parsePrograms":           "ParseAll",
	"textwire.Configure":               "Configure",
	"ast.Program.ApplyComponent":       "ApplyComponent",
	"ast.Program.ApplyInserts":         "ApplyInserts",
	"ast.Program.ApplyLayout":          "ApplyLayout",
	"ast.Program.checkUndefinedInsert": "Undefined",
	"ast.findDuplicateSlot":            "Dup",
	"ast.findSlotPlaceholders":         "Placeholders",
}

var bareExit = regexp.MustCompile(`exit\d+; `)
var callSort = regexp.MustCompile(`call:(?:slices\.Sort|sort\.Strings); `)

// linkRun enumerates a linking function; the other ones stay calls.
func (c *Checker) linkRun(rule, name, fn string, names []string, calls ...string) *evalRun {
	pk, n, _ := strings.Cut(fn, ":")
	f := c.p.fn(pk, n)
	extra := map[string]string{}
	missing := ""
	for full, label := range linkVoc {
		for _, w := range calls {
			if w == label {
				extra[full] = label
				if !c.hasFn(full) {
					missing = full
				}
			}
		}
	}
	if f == nil {
		c.und(rule, name, "anchor not found")
		return nil
	}
	if missing != "" {
		c.und(rule, name, "anchor not found: %s", missing)
		return nil
	}
	er := c.loadRun(f, names, extra, runOpts{onRec: true})
	if er == nil {
		c.und(rule, name, "anchor not found")
		return nil
	}
	norm := er.norm
	er.norm = func(s string) string { return callSort.ReplaceAllString(bareExit.ReplaceAllString(norm(s), ""), "") }
	er.factLists = true
	c.paths += len(er.paths)
	return er
}

func (c *Checker) hasFn(full string) bool {
	for _, f := range c.p.funcs {
		if c.p.fullName(f) == full {
			return true
		}
	}
	return false
}

// link compares a linking function with its specification.
func (c *Checker) link(rule, name, fn string, names []string, calls []string, alts func(er *evalRun) []alt) {
	if er := c.linkRun(rule, name, fn, names, calls...); er != nil {
		er.spec(rule, name, alts(er))
	}
}

func q(s string) string { return regexp.QuoteMeta(s) }

// anyOrder is a trace of the given steps in any order.
func anyOrder(steps ...string) string {
	if len(steps) == 1 {
		return steps[0]
	}
	var vs []string
	for i := range steps {
		rest := append(append([]string{}, steps[:i]...), steps[i+1:]...)
		vs = append(vs, steps[i]+"; (?:"+anyOrder(rest...)+")")
	}
	return "(?:" + strings.Join(vs, "|") + ")"
}

// some is any of the given steps, any number of times, before a last one.
func some(last string, steps ...string) string {
	return "(?:(?:" + strings.Join(steps, "|") + "); )*" + last
}

// source of a file of the program: path, text, parse result and errors.
type fileTerms struct{ path, src, prog, errs string }

func fileOf(path string) fileTerms {
	s := "src‹" + path + "›"
	return fileTerms{path, s, "prog‹" + s + " @ " + path + "›", "errs‹" + s + " @ " + path + "›"}
}

func templFile(name string) fileTerms { return fileOf("path‹" + name + "›") }

const failAt = `Fail\(`

// layoutRules: a page that declares a layout.
func (c *Checker) layoutRules(rule string) {
	c.link(rule, "applyLayoutToProgram", ":applyLayoutToProgram", []string{"page", "file"}, []string{"Comps", "ApplyInserts", "ApplyLayout"}, func(er *evalRun) []alt {
		f := templFile("page.UseStmt.Name.Value")
		line := q("(page.UseStmt.Token.Pos.EndLine+1)")
		st := q("store(&" + f.prog + ".IsLayout := true)")
		cp := `Comps\(` + q(f.prog) + `, ` + q(f.path) + `.*\)`
		ai := `ApplyInserts\(` + q(f.prog) + `, page\.Inserts, ` + q(f.path) + `\)`
		al := `ApplyLayout\(page, ` + q(f.prog) + `\)`
		// the same written out
		sp := q("store(&page.UseStmt.Program := " + f.prog + ")")
		ss := q("store(&page.Statements := [page.UseStmt])")
		use := "set:page.UseStmt"
		good := []string{use, "nil:" + f.path + ".err", "nil:" + f.src + ".err", "empty:" + f.errs}
		return []alt{
			{ret: "nil", cond: []string{"nil:page.UseStmt"}},
			{ret: "~" + failAt + line + `, file, .*` + q(f.path) + `\.err.*`, cond: []string{use, "set:" + f.path + ".err"}},
			{ret: "~" + failAt + line + `, file, .*` + q(f.src) + `\.err.*`, cond: []string{use, "set:" + f.src + ".err"}},
			{ret: f.errs + "[0]", cond: []string{use, "some:" + f.errs}},
			{toks: []string{"~" + some(cp+"=set", st, ai+"=nil")}, ret: "~" + cp, cond: good},
			{toks: []string{"~" + some(ai+"=set", st, cp+"=nil")}, ret: "~" + ai, cond: good},
			{toks: []string{"~(?:" + anyOrder(st, cp+"=nil", ai+"=nil", al) + "|" + anyOrder(st, cp+"=nil", ai+"=nil", sp, ss) + ")"}, ret: "nil", cond: good},
		}
	})
	if er := c.linkRun(rule, "ApplyLayout", "ast:Program.ApplyLayout", []string{"page", "layout"}); er != nil {
		c.pageLeft(rule, er)
	}
	c.link(rule, "ApplyLayout", "ast:Program.ApplyLayout", []string{"page", "layout"}, nil, func(er *evalRun) []alt {
		return []alt{{toks: []string{"~" + anyOrder(q("store(&page.UseStmt.Program := layout)"), q("store(&page.Statements := ")+`(?:page\.Statements\[:0(?::\d+)?\]\+\+)?`+q("[page.UseStmt])"))}}}
	})
	c.link(rule, "ApplyInserts", "ast:Program.ApplyInserts", []string{"layout", "inserts", "file"}, []string{"Undefined"}, func(er *evalRun) []alt {
		und := "Undefined(layout, inserts)"
		key := `(?:inserts\[layout\.Reserves\[key‹layout\.Reserves›\]\.Name\.Value\]|inserts\[key‹layout\.Reserves›\])`
		put := q("store(&layout.Reserves[key‹layout.Reserves›].Insert := ") + key + `\)`
		byIns := q("store(&layout.Reserves[key‹inserts›].Insert := inserts[key‹inserts›])")
		lacks := "lacks:inserts[layout.Reserves[key‹layout.Reserves›].Name.Value] | lacks:inserts[key‹layout.Reserves›] | nil:inserts[layout.Reserves[key‹layout.Reserves›].Name.Value] | nil:inserts[key‹layout.Reserves›] | lacks:layout.Reserves[key‹inserts›] | nil:layout.Reserves[key‹inserts›]"
		return []alt{
			{toks: []string{und + "=set"}, ret: und},
			{toks: []string{und + "=nil", "~loop1", "~(?:" + put + "|" + byIns + ")", "back1"}},
			{toks: []string{und + "=nil", "loop1", "back1"}, cond: []string{lacks}, opt: true},
			{toks: []string{und + "=nil", "loop1"}, ret: "nil", cond: []string{"done:layout.Reserves | done:inserts"}},
			{toks: []string{und + "=nil", "exit1(layout.Reserves)"}, ret: "nil", opt: true},
		}
	})
	c.undefinedInsert(rule)
}

// pageLeft: a statement of the page stays in the list that is rendered.
func (c *Checker) pageLeft(rule string, er *evalRun) {
	cr := c.newCase(rule, "nothing of the page but its @use is rendered")
	defer cr.done()
	for _, p := range er.paths {
		if p.Outcome != "return" {
			continue
		}
		r := er.specRenderer(p)
		for a, v := range p.St.mem {
			if r.str(a) != "&page.Statements" {
				continue
			}
			// what the loops it comes from add
			var added *Term
			seen := map[*Term]bool{}
			var look func(v *Term, q *Path)
			look = func(v *Term, q *Path) {
				v.mentions(func(t *Term) bool {
					if seen[t] {
						return false
					}
					seen[t] = true
					if s := r.str(t); strings.HasPrefix(s, "page.Statements[") && !strings.Contains(s, ":") {
						if k, ok := q.Facts.kind(c.p, t).single(); !ok || !strings.HasSuffix(k, "UseStmt") {
							added = t
						}
					}
					if t.Op == "loopv" {
						id, name, _ := strings.Cut(t.Sym, ".")
						for _, b := range er.paths {
							if b.Outcome == "back" && b.Loop == id && b.Vals[name] != nil {
								look(b.Vals[name], b)
							}
						}
					}
					return false
				})
			}
			look(v, p)
			if added != nil {
				cr.add(vBad, lastPos(p), "a statement of the page other than @use stays in it")
			}
		}
	}
	cr.add(vOK, lastPos(er.paths[0]), "")
}

// stepIs: the list that the loop builds becomes this on the next pass.
func (er *evalRun) stepIs(rx string) alsoFn {
	x := regexp.MustCompile("^(?:" + rx + ")$")
	return func(p *Path) (verdict, string) {
		n := 0
		for _, v := range p.Vals {
			if v == nil || v.Typ == nil {
				continue
			}
			if _, ok := v.Typ.Underlying().(*types.Slice); !ok {
				continue
			}
			n++
			if s := er.norm(er.specRenderer(p).str(v)); !x.MatchString(s) {
				return vBad, "a pass makes the list " + s
			}
		}
		if n == 0 {
			return vUnd, "no list is built"
		}
		return vOK, ""
	}
}

// undefinedInsert: an insert without a reserve is an error that names it.
func (c *Checker) undefinedInsert(rule string) {
	er := c.linkRun(rule, "checkUndefinedInsert", "ast:Program.checkUndefinedInsert", []string{"layout", "inserts"})
	if er == nil {
		return
	}
	k := "key‹inserts›"
	lacks, has := "lacks:layout.Reserves["+k+"] | nil:layout.Reserves["+k+"]", "has:layout.Reserves["+k+"] | set:layout.Reserves["+k+"]"
	fail := func(key string) string {
		i := q("inserts[") + key + q("]")
		return "~" + failAt + q("(") + i + q(".Token.Pos.EndLine+1), ") + i + q(".FilePath, ") + `.*` + i + q(".Name.Value") + `.*\)`
	}
	two := false
	for _, p := range er.paths {
		tr, _ := er.trace(p)
		two = two || strings.Contains(tr, "loop2; ")
	}
	if two {
		// the names are listed first
		n := "acc1[k2]"
		er.spec(rule, "checkUndefinedInsert", []alt{
			{toks: []string{"loop1", "back1"}, also: er.stepIs(`acc\d\+\+\[` + k + `\]`)},
			{toks: []string{"loop1", "loop2", "back2"}, cond: []string{"has:layout.Reserves[" + n + "] | set:layout.Reserves[" + n + "]"}},
			{toks: []string{"loop1", "loop2"}, ret: fail(q(n)), cond: []string{"lacks:layout.Reserves[" + n + "] | nil:layout.Reserves[" + n + "]"}},
			{toks: []string{`~loop1; loop2(?:; exit2\(.*\))?`}, ret: "nil", cond: []string{"done:inserts"}, also: er.listDone},
		})
		return
	}
	listed := `(?:slices\.Min\(acc1\)|acc1\[0\]|slices\.Max\(acc1\))`
	er.spec(rule, "checkUndefinedInsert", []alt{
		{toks: []string{"loop1", "back1"}, cond: []string{has}, also: er.optStep(`acc\d`)},
		{toks: []string{"loop1", "back1"}, cond: []string{lacks}, also: er.stepIs(`acc\d\+\+\[` + k + `\]`), opt: true},
		{toks: []string{"loop1"}, ret: fail(k), cond: []string{lacks}, opt: true},
		{toks: []string{"loop1"}, ret: fail(listed), cond: []string{"done:inserts"}, also: er.listState(false), opt: true},
		{toks: []string{"loop1"}, ret: "nil", cond: []string{"done:inserts"}, also: er.listState(true)},
	})
}

// optStep is stepIs where a list need not be built.
func (er *evalRun) optStep(rx string) alsoFn {
	s := er.stepIs(rx)
	return func(p *Path) (verdict, string) {
		if v, why := s(p); v == vBad {
			return v, why
		}
		return vOK, ""
	}
}

// listState: the list that a loop of this path built is (not) empty; a path
// without a list is fine.
func (er *evalRun) listState(empty bool) alsoFn {
	return func(p *Path) (verdict, string) {
		lists := map[*Term]bool{}
		for _, r := range er.paths {
			for _, v := range r.Vals {
				if v == nil || v.Typ == nil {
					continue
				}
				if _, ok := v.Typ.Underlying().(*types.Slice); ok {
					v.walk(func(t *Term) bool {
						if t.Op == "loopv" {
							lists[t] = true
						}
						return true
					})
				}
			}
		}
		for l := range lists {
			d := p.Facts.decide(er.c.p, mkEq(mkLen(l), mkInt(0)))
			if d < 0 {
				d = p.Facts.decide(er.c.p, mkEq(l, mkNil()))
			}
			if d < 0 {
				return vBad, "the result does not depend on whether something was found"
			}
			if (d == 1) != empty {
				return vBad, "the result is given in the wrong case"
			}
		}
		return vOK, ""
	}
}

// componentRules: every use of a component gets a program of its own.
func (c *Checker) componentRules(rule string) {
	c.link(rule, "applyComponentToProgram", ":applyComponentToProgram", []string{"page", "file", "parents"}, []string{"Comps", "ApplyComponent"}, func(er *evalRun) []alt {
		comp := "page.Components[k1]"
		name := comp + ".Name.Value"
		f := templFile(name)
		at := failAt + q("("+comp+".Token.Pos.EndLine+1), file, ")
		cp := `Comps\(` + q(f.prog) + `, ` + q(f.path) + `.*\)`
		ac := `ApplyComponent\(page, ` + q(name) + `, ` + q(f.prog) + `, file\)`
		good := []string{"nil:" + f.path + ".err", "nil:" + f.src + ".err", "empty:" + f.errs}
		return []alt{
			{toks: []string{"loop1"}, ret: "~" + at + `.*` + q(f.path) + `\.err.*`, cond: []string{"set:" + f.path + ".err"}},
			{toks: []string{"loop1"}, ret: "~" + at + `.*(?:` + q(name) + `|` + q(f.src+".err") + `).*`, cond: []string{"set:" + f.src + ".err"}},
			{toks: []string{"loop1"}, ret: f.errs + "[0]", cond: []string{"some:" + f.errs}},
			{toks: []string{"loop1", "~" + some(cp+"=set", ac+"=nil")}, ret: "~" + cp, cond: good},
			{toks: []string{"loop1", "~" + some(ac+"=set", cp+"=nil")}, ret: "~" + ac, cond: good},
			{toks: []string{"loop1", "~" + anyOrder(ac+"=nil", cp+"=nil"), "back1"}, cond: good},
			{toks: []string{"loop1", "exit1(page.Components)"}, ret: "nil"},
			{toks: []string{"loop1"}, ret: "~" + at + `.*` + q(name) + `.*`, also: er.inChain(f.path), opt: true},
		}
	})
	c.link(rule, "ApplyComponent", "ast:Program.ApplyComponent", []string{"page", "name", "comp", "file"}, []string{"Dup", "Placeholders"}, func(er *evalRun) []alt {
		use := "page.Components[k1]"
		sl := use + ".Slots[k2]"
		dup := "Dup(" + use + ".Slots)"
		ph := `Placeholders\(comp\.Slots, (?:` + q(sl+".Name.Value") + `|"")\)`
		phx := "Placeholders(comp.Slots, " + sl + ".Name.Value)"
		mine := []string{"true:(name == " + use + ".Name.Value) | true:(" + use + ".Name.Value == name)", "nil:" + use + ".Block"}
		store := q("store(&" + use + ".Block := comp)")
		body := q("store(&"+phx+"[k") + `\d` + q("].Body := "+sl+".Body)")
		pre0 := `(?:` + store + `; )?` + q(dup)
		pre := `(?:` + q(dup) + `; )?(?:` + store + `; )?(?:` + q(dup) + `; )?`
		named := func(line string) string {
			return "~" + failAt + q("("+line+".Token.Pos.EndLine+1), file, ") + `.*\bname\b.*`
		}
		with := func(cs ...string) []string { return append(append([]string{}, mine...), cs...) }
		return []alt{
			{toks: []string{"loop1", "back1"}, cond: []string{"false:(name == " + use + ".Name.Value) | false:(" + use + ".Name.Value == name) | set:" + use + ".Block"}},
			{toks: []string{"loop1", "~" + pre0}, ret: named(dup + "#0"), cond: append(append([]string{}, mine...), "true:(0 < "+dup+"#1) | true:(1 < "+dup+"#1) | set:"+dup+"#0")},
			{toks: []string{"~loop1; " + pre + "loop2", "~" + ph}, ret: named(sl), cond: with("empty~" + ph)},
			{toks: []string{"~loop1; " + pre + "loop2", "~" + ph, "loop3", "~" + body, "back3"}, cond: with("some~"+ph, "lt:k3 "+phx)},
			{toks: []string{"~loop1; " + pre + "loop2", "~" + ph, "loop3", "~exit3\\(" + q(phx) + "\\)", "back2"}, cond: mine},
			{toks: []string{"~loop1; " + pre + "loop2", "~exit2\\(" + q(use+".Slots") + `\)(?:; ` + store + `)?`}, ret: "nil", cond: mine, also: er.did(store, q(dup))},
			{toks: []string{"loop1", "exit1(page.Components)"}, ret: "nil"},
		}
	})
	c.link(rule, "findSlotPlaceholders", "ast:findSlotPlaceholders", []string{"slots", "name"}, nil, func(er *evalRun) []alt {
		n := "slots[k1].Name.Value"
		eq := "(name == " + n + ") | %s:(" + n + " == name)"
		return []alt{
			{toks: []string{"loop1", "back1"}, cond: []string{"true:" + fmt.Sprintf(eq, "true")}, also: er.stepIs(`acc1\+\+\[slots\[k1\]\]`)},
			{toks: []string{"loop1", "back1"}, cond: []string{"false:" + fmt.Sprintf(eq, "false")}, also: er.stepIs(`acc1`)},
			{toks: []string{"loop1", "exit1(slots)"}, ret: "acc1", also: er.buildsRet(`nil|\[\]|makeslice:[^(]*\(0, .*\)`, `acc(?:\+\+\[slots\[k1\]\])?`)},
		}
	})
	c.duplicateSlot(rule)
}

// did: the trace of the path contains each of the steps.
func (er *evalRun) did(steps ...string) alsoFn {
	return func(p *Path) (verdict, string) {
		tr, _ := er.trace(p)
		for _, s := range steps {
			if !regexp.MustCompile(s).MatchString(tr) {
				return vBad, "the step " + strings.ReplaceAll(s, `\`, "") + " is missing in `" + tr + "`"
			}
		}
		return vOK, ""
	}
}

// duplicateSlot: the slot passed more than once, when there is one.
func (c *Checker) duplicateSlot(rule string) {
	er := c.linkRun(rule, "findDuplicateSlot", "ast:findDuplicateSlot", []string{"slots"})
	if er == nil {
		return
	}
	counting := false
	for _, p := range er.paths {
		for _, ev := range p.Events {
			counting = counting || ev.Kind == "mapupdate" && ev.Val != nil && ev.Val.Op == "lin"
		}
	}
	if !counting {
		c.und(rule, "findDuplicateSlot", "not a count of the names")
		return
	}
	er.spec(rule, "findDuplicateSlot", []alt{
		{toks: []string{"loop1", "back1"}, also: er.counts("slots[k1].Name.Value")},
		{toks: []string{"loop1", "exit1(slots)", "loop2", "back2"}, cond: []string{"false:(1 < map{}[slots[k2].Name.Value])"}},
		{toks: []string{"loop1", "exit1(slots)", "loop2"}, ret: "slots[k2], map{}[slots[k2].Name.Value]", cond: []string{"true:(1 < map{}[slots[k2].Name.Value])"}},
		{toks: []string{"loop1", "exit1(slots)", "loop2", "exit2(slots)"}, ret: "nil, 0"},
	})
}

// counts: a pass adds one to the count of the key and does nothing else.
func (er *evalRun) counts(key string) alsoFn {
	return func(p *Path) (verdict, string) {
		r := er.specRenderer(p)
		n := 0
		for _, ev := range p.Events {
			if ev.Kind != "mapupdate" {
				continue
			}
			n++
			k := er.norm(r.str(ev.Args[0]))
			want := "(lookup(" + ev.Addr.String() + ", " + ev.Args[0].String() + ")"
			got := ev.Val.String()
			if rest, ok := strings.CutPrefix(got, want); k != key || ok && rest != "+1)" {
				return vBad, "a pass sets the count of " + k + " to " + got
			} else if !ok {
				return vUnd, "a pass sets the count of " + k + " to " + got
			}
		}
		if n != 1 {
			return vUnd, "a pass does not count once"
		}
		return vOK, ""
	}
}

// placeholders of the pieces of a page in the evaluator.
func (c *Checker) specUse(rule string) {
	c.nodeSpec(rule, "UseStmt", func(er *evalRun) []alt {
		e := nd("Program")
		return []alt{
			{ret: "Error", cond: []string{"nil:node.Program | set:node.Program.UseStmt"}},
			{toks: []string{eX(e)}, ret: rE(e), cond: []string{"false:node.Program.IsLayout | nil:node.Program.UseStmt"}},
			{toks: []string{eOK(e)}, ret: `~Use\{Path: node\.Name\.Value, Content: ` + eRx(e) + `\}`, cond: []string{"false:node.Program.IsLayout | nil:node.Program.UseStmt"}},
		}
	})
}

func (c *Checker) specReserve(rule string) {
	c.nodeSpec(rule, "ReserveStmt", func(er *evalRun) []alt {
		b, a := nd(`Insert\.Block`), nd(`Insert\.Argument`)
		return []alt{
			{ret: "Nil{} | Reserve{Name: node.Name.Value}", cond: []string{"nil:node.Insert"}},
			{ret: "Error", cond: []string{"nil:node.Insert.Block", "nil:node.Insert.Argument"}},
			{toks: []string{eX(b)}, ret: rE(b), cond: []string{"set:node.Insert", "set:node.Insert.Block"}},
			{toks: []string{eOK(b)}, ret: `~Reserve\{Name: node\.Name\.Value, Content: ` + eRx(b) + `\}`, cond: []string{"set:node.Insert", "set:node.Insert.Block"}},
			{toks: []string{eX(a)}, ret: rE(a), cond: []string{"set:node.Insert", "set:node.Insert.Argument"}},
			{toks: []string{eOK(a)}, ret: `~Reserve\{Name: node\.Name\.Value, Argument: ` + eRx(a) + `\}`, cond: []string{"set:node.Insert", "set:node.Insert.Argument"}},
		}
	})
	c.nodeSpec(rule, "InsertStmt", func(er *evalRun) []alt { return []alt{{ret: "Nil{}"}} })
}

func (c *Checker) specSlot(rule string) {
	c.nodeSpec(rule, "SlotStmt", func(er *evalRun) []alt {
		b := nd("Body")
		return []alt{
			{ret: "Slot{Name: node.Name.Value, Content: Nil{}} | Slot{Name: node.Name.Value} | Nil{}", cond: []string{"nil:node.Body"}},
			{toks: []string{eX(b)}, ret: rE(b), cond: []string{"set:node.Body"}},
			{toks: []string{eOK(b)}, ret: `~Slot\{Name: node\.Name\.Value, Content: ` + eRx(b) + `\}`, cond: []string{"set:node.Body"}},
		}
	})
}

func (c *Checker) specComponent(rule string) {
	c.nodeSpec(rule, "ComponentStmt", func(er *evalRun) []alt {
		norm := func(s string) string {
			return callSort.ReplaceAllString(bareExit.ReplaceAllString(rkeyRx.ReplaceAllString(s, "key‹$1›"), ""), "")
		}
		er.norm = norm
		er.factLists = true
		nm := "~(?:" + eRx(nd("Name")) + "=AFT; )?"
		key := `(?:acc1\[k2\]|key‹node\.Argument\.Pairs›|slices\.Sorted\(maps\.Keys\(node\.Argument\.Pairs\)\)\[k\d\])`
		arg := `E\(node\.Argument\.Pairs\[` + key + `\]\)`
		set := `Set\(new1, ` + key + `, ` + arg + `\)`
		blk := nd("Block") + " @new1"
		res := `~Component\{Name: (?:String\(E\(node\.Name\)\)|node\.Name\.Value), Content: ` + eRx(blk) + `\}`
		collect := "(?:loop1; )?"
		over := `(?:exit1\(.*\); )?`
		return []alt{
			{toks: []string{eX(nd("Name"))}, ret: rE(nd("Name")), opt: true},
			{toks: []string{"*" + eOK(nd("Name"))}, ret: "Error", cond: []string{"nil:node.Block"}, opt: true},
			{toks: []string{nm + "loop1", "back1"}, also: er.stepIs(`acc1\+\+\[key‹node\.Argument\.Pairs›\]`), opt: true},
			{toks: []string{nm + collect + `loop\d`, "~" + arg + "=X"}, ret: "~" + arg},
			{toks: []string{nm + collect + `loop\d`, "~" + arg + "=AFT", "~" + set + "=ok", `~back\d`}},
			{toks: []string{nm + collect + `loop\d`, "~" + arg + "=AFT", "~" + set + "=err"}, ret: "Error"},
			{toks: []string{nm + collect + `loop\d`, "~" + over + `(?:exit\d\(.*\); )?` + eRx(blk) + "=X"}, ret: rE(blk), cond: []string{"set:node.Argument", "set:node.Block"}, also: er.allPairs},
			{toks: []string{nm + collect + `loop\d`, "~" + over + `(?:exit\d\(.*\); )?` + eRx(blk) + "=AFT"}, ret: res, cond: []string{"set:node.Argument", "set:node.Block"}, also: er.allPairs},
			{toks: []string{nm + eRx(blk) + "=X"}, ret: rE(blk), cond: []string{"nil:node.Argument", "set:node.Block"}},
			{toks: []string{nm + eRx(blk) + "=AFT"}, ret: res, cond: []string{"nil:node.Argument", "set:node.Block"}},
		}
	})
}

// allPairs: the loop over the arguments ended because there are no more.
func (er *evalRun) allPairs(p *Path) (verdict, string) {
	if er.cond(p, "done:node.Argument.Pairs") != 1 {
		return vBad, "the component is rendered although not all arguments are bound"
	}
	n := 0
	for _, ev := range p.Events {
		if ev.Kind == "loop" {
			n++
		}
	}
	if n < 2 {
		return vOK, ""
	}
	// the keys were listed first: the last loop runs to the end of the list
	for _, ev := range p.Events {
		if ev.Kind == "exit" && ev.Loop == fmt.Sprintf("L%d", n) {
			for t, v := range ev.Facts.bools {
				if !v && t.Op == "<" && t.Args[0] == mkLoopK(ev.Loop) {
					return vOK, ""
				}
			}
		}
	}
	return vBad, "the component is rendered although not all arguments are bound"
}

// programsRule: every file found is parsed and linked, and registered unless
// it declares reserves.
func (c *Checker) programsRule(rule string) {
	c.link(rule, "parsePrograms", ":parsePrograms", []string{"files"}, []string{"Layout", "Comps"}, func(er *evalRun) []alt {
		key := `(?:acc1\[k2\]|key‹files›|slices\.Sorted\(maps\.Keys\(files\)\)\[k\d\])`
		head := `~(?:loop1; )?loop\d`
		file := `files\[` + key + `\]`
		src := `src‹` + file + `›`
		prog := `prog‹` + src + ` @ ` + file + `›`
		errs := `errs‹` + src + ` @ ` + file + `›`
		ly := `Layout\(` + prog + `, ` + file + `\)`
		cp := `Comps\(` + prog + `, ` + file + `.*\)`
		good := []string{"nil~" + src + `\.err`, "empty~" + errs}
		return []alt{
			{toks: []string{"loop1", "back1"}, also: er.stepIs(`acc1\+\+\[key‹files›\]`), opt: true},
			{toks: []string{head}, ret: "~nil, " + failAt + `\S*, ` + file + `, .*` + src + `\.err.*`, cond: []string{"set~" + src + `\.err`}},
			{toks: []string{head}, ret: "~nil, " + errs + `\[0\]`, cond: []string{"some~" + errs}},
			{toks: []string{head, "~" + some(ly+"=set", cp+"=nil")}, ret: "~nil, " + ly, cond: good},
			{toks: []string{head, "~" + some(cp+"=set", ly+"=nil")}, ret: "~nil, " + cp, cond: good},
			{toks: []string{head, "~" + anyOrder(ly+"=nil", cp+"=nil"), `~back\d`}, cond: good, also: er.registers(prog, key)},
			{toks: []string{head + `(?:; exit2\(.*\))?`}, ret: "map{}, nil", cond: []string{"done:files"}, also: er.listDone},
		}
	})
}

// registers: a program is put under its name exactly when it has no reserves.
func (er *evalRun) registers(prog, key string) alsoFn {
	px, kx := regexp.MustCompile("^"+prog+"$"), regexp.MustCompile("^"+key+"$")
	return func(p *Path) (verdict, string) {
		r := er.specRenderer(p)
		put := false
		for _, ev := range p.Events {
			if ev.Kind != "mapupdate" {
				continue
			}
			if k := er.norm(r.str(ev.Args[0])); !kx.MatchString(k) {
				return vBad, "a program is registered as " + k
			}
			if v := er.norm(r.str(ev.Val)); !px.MatchString(v) {
				return vBad, "the program registered is " + v
			}
			put = true
		}
		has := er.cond(p, "some~"+prog+`\.Reserves`)
		switch {
		case put && has == 1:
			return vBad, "a file with reserves is registered"
		case put && has < 0:
			return vBad, "a file is registered whether or not it has reserves"
		case !put && has != 1:
			return vBad, "a file without reserves need not be registered"
		}
		return vOK, ""
	}
}

// listDone: the last loop of the path, when it is over a list, ran to its end.
func (er *evalRun) listDone(p *Path) (verdict, string) {
	last := ""
	for _, ev := range p.Events {
		if ev.Kind == "loop" {
			last = ev.Loop
		}
	}
	for t, v := range p.Facts.bools {
		if t.Op == "<" && t.Args[0] == mkLoopK(last) {
			if v {
				return vBad, "the loop ends before the end of the list"
			}
			return vOK, ""
		}
	}
	n := 0
	for _, ev := range p.Events {
		if ev.Kind == "loop" {
			n++
		}
	}
	if n > 1 {
		return vBad, "the loop ends before the end of the list"
	}
	return vOK, ""
}

// inChain: the file is among the ones that lead to it.
func (er *evalRun) inChain(path string) alsoFn {
	return func(p *Path) (verdict, string) {
		if er.cond(p, `true~slices\.Contains\(parents, `+q(path)+`\)`) == 1 {
			return vOK, ""
		}
		r := er.specRenderer(p)
		r.facts = newFacts()
		for b := range p.Facts.bools {
			if s := er.norm(r.str(b)); strings.Contains(s, "parents") {
				return vUnd, "a component is refused when " + s
			}
		}
		return vBad, "a component is refused whether or not it leads to itself"
	}
}
