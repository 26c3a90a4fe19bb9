package main

import (
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C18"] = checkC18 }

// checkC18: loading of a template directory.
func checkC18(c *Checker) {
	c.rule("C18.new", "loading configures, finds the files and parses them, in this order; a failure of a step is the error and no Template is given")
	c.rule("C18.config", "the directory and the extension are taken as given (slashes around the directory aside), and kept when not given")
	c.rule("C18.files", "every file below the directory whose name ends in the extension is found, and no other; it is named by its path below the directory without the extension; a failure to read stops loading")
	c.rule("C18.parse", "every file found is parsed and linked under its own path, the first error is returned with the path of the faulty file, and exactly the files without reserves are registered")
	c.rule("C18.link", "a missing or faulty layout or component is an error that names it")
	c.rule("C18.cycle", "components that use each other are an error, not endless recursion")
	c.rule("C18.render", "an unknown name is reported as not found; a file is evaluated as its content")
	c.link("C18.new", "NewTemplate", ":NewTemplate", []string{"opt"}, []string{"Files", "ParseAll", "Configure"}, func(er *evalRun) []alt {
		return []alt{
			{toks: []string{"Configure(opt)", "Files()=set"}, ret: `~nil, AsError\(Fail\(.*Files\(\)#1.*\)\)`},
			{toks: []string{"Configure(opt)", "Files()=nil", "ParseAll(Files()#0)=set"}, ret: "nil, AsError(ParseAll(Files()#0)#1)"},
			{toks: []string{"Configure(opt)", "Files()=nil", "ParseAll(Files()#0)=nil"}, ret: "Template{programs: ParseAll(Files()#0)#0}, nil"},
		}
	})
	c.configRule("C18.config")
	c.filesRule("C18.files")
	c.programsRule("C18.parse")
	c.layoutRules("C18.link")
	c.componentRules("C18.link")
	c.cycleRule("C18.cycle")
	c.entries("C18.render")
}

// configRule: what Configure makes of the options.
func (c *Checker) configRule(rule string) {
	f := c.p.fn("", "Configure")
	if f == nil {
		c.und(rule, "Configure", "anchor not found")
		return
	}
	er := c.loadRun(f, []string{"opt"}, nil, runOpts{})
	c.paths += len(er.paths)
	want := map[string]*regexp.Regexp{
		"TemplateDir": regexp.MustCompile(`^(?:opt\.TemplateDir|strings\.Trim(?:Right|Suffix)?\(opt\.TemplateDir, "/"\)|path/filepath\.Clean\(.*opt\.TemplateDir.*\))$`),
		"TemplateExt": regexp.MustCompile(`^opt\.TemplateExt$`),
	}
	for _, field := range []string{"TemplateDir", "TemplateExt"} {
		cr := c.newCase(rule, "Configure: "+field)
		if !er.complete {
			cr.add(vUnd, f.Pos(), "path enumeration is incomplete")
		}
		seen := false
		for _, p := range er.paths {
			if p.Outcome != "return" {
				continue
			}
			r := er.specRenderer(p)
			r.facts = newFacts()
			given := er.cond(p, "empty:opt."+field)
			val := ""
			for a, v := range p.St.mem {
				if a.Op == "&f" && baseName(a.Sym) == field && er.names[a.Args[0]] == "config" {
					val = r.str(v)
				}
			}
			unchanged := val == "" || val == "config."+field
			switch {
			case unchanged && given == 0:
				cr.add(vBad, lastPos(p), field+" of the options is not used")
			case unchanged:
				cr.add(vOK, lastPos(p), "")
			case !want[field].MatchString(val):
				if libUnknown(val) || strings.Contains(val, "inv") || strings.Contains(val, "dyn") {
					cr.add(vUnd, lastPos(p), field+" becomes "+val)
				} else {
					cr.add(vBad, lastPos(p), field+" becomes "+val)
				}
			case given == 1:
				cr.add(vBad, lastPos(p), field+" becomes empty when it is not given")
			case given < 0:
				cr.add(vBad, lastPos(p), field+" is used although it may not be given")
			default:
				seen = true
				cr.add(vOK, lastPos(p), "")
			}
		}
		if !seen {
			cr.add(vUnd, f.Pos(), field+" is not set from the options")
		}
		cr.done()
	}
}

var walkFns = map[string]bool{"path/filepath.Walk": true, "path/filepath.WalkDir": true}

// filesRule: the walk over the template directory.
func (c *Checker) filesRule(rule string) {
	f := c.p.fn("", "findTextwireFiles")
	if f == nil {
		c.und(rule, "findTextwireFiles", "anchor not found")
		return
	}
	er := c.loadRun(f, nil, map[string]string{"path/filepath.Walk": "Walk", "path/filepath.WalkDir": "Walk"}, runOpts{})
	c.paths += len(er.paths)
	er.spec(rule, "findTextwireFiles", []alt{
		{toks: []string{`~Walk\(config\.TemplateDir, .*\)=set`}, ret: `~(?:nil|map\{\}), .*Walk\(config\.TemplateDir, .*\).*`},
		{toks: []string{`~Walk\(config\.TemplateDir, .*\)=nil`}, ret: "map{}, nil"},
	})
	var cb *ssa.Function
	for _, p := range er.paths {
		for _, ev := range p.Events {
			if ev.Kind == "call" && walkFns[ev.Fn] && len(ev.Args) == 2 {
				ev.Args[1].walk(func(t *Term) bool {
					if t.Op == "closure" || t.Op == "fn" {
						for _, g := range f.AnonFuncs {
							if strings.HasSuffix(t.Sym, g.Name()) {
								cb = g
							}
						}
					}
					return true
				})
			}
		}
	}
	if cb == nil {
		c.und(rule, "walk callback", "the function given to the walk was not found")
		return
	}
	c.walkRule(rule, cb)
}

// fileName: the rendered name is the path below the directory without the
// extension, with slashes.
func fileName(s string) (verdict, string) {
	trimmed := false
	for {
		if x, ok := cutCall(s, "path/filepath.ToSlash(", ")"); ok {
			s = x
			continue
		}
		if x, ok := cutCall(s, "strings.TrimSuffix(", ", config.TemplateExt)"); ok {
			s, trimmed = x, true
			continue
		}
		if i := strings.Index(s, "[:"); i > 0 && strings.HasSuffix(s, "]") {
			x := s[:i]
			if s == x+"[:(len("+x+")-len(config.TemplateExt))]" || s == x+"[:(len("+x+")+-1*len(config.TemplateExt))]" {
				s, trimmed = x, true
				continue
			}
		}
		break
	}
	switch {
	case s == "path/filepath.Rel(config.TemplateDir, path)#0" && trimmed:
		return vOK, ""
	case s == "path/filepath.Rel(config.TemplateDir, path)#0":
		return vBad, "keeps the extension"
	case strings.Contains(s, "Clean(") || strings.Contains(s, "Rel(") && !strings.Contains(s, "Rel(config.TemplateDir, path)") || strings.Contains(s, "CutSuffix") || strings.Contains(s, "CutPrefix") || strings.ContainsAny(s, "‹…"):
		return vUnd, "is not resolved"
	}
	return vBad, "is not the path below the directory without the extension"
}

func cutCall(s, pre, suf string) (string, bool) {
	if x, ok := strings.CutPrefix(s, pre); ok {
		return strings.CutSuffix(x, suf)
	}
	return s, false
}

// walkRule: what the walk does with one entry.
func (c *Checker) walkRule(rule string, cb *ssa.Function) {
	er := c.loadRun(cb, []string{"path", "info", "err"}, nil, runOpts{})
	cr := c.newCase(rule, "one entry of the walk")
	if er == nil {
		c.und(rule, "one entry of the walk", "anchor not found")
		return
	}
	c.paths += len(er.paths)
	if !er.complete {
		cr.add(vUnd, cb.Pos(), "path enumeration is incomplete")
	}
	stored := false
	for _, p := range er.paths {
		if p.Outcome != "return" || len(p.Ret) != 1 {
			if p.Outcome == "limit" {
				cr.add(vUnd, lastPos(p), "a path was not followed to its end")
			}
			continue
		}
		r := er.specRenderer(p)
		r.facts = newFacts()
		str := func(t *Term) string { return er.norm(r.str(t)) }
		pos := lastPos(p)
		unknown := ""
		for _, ev := range p.Events {
			if ev.Kind == "dyncall" || ev.Kind == "call" && ev.Note != "folded" && !extPure(ev.Fn) && !plainCalls[ev.Fn] {
				unknown = ev.Fn
			}
		}
		retNil := p.Facts.decide(c.p, mkEq(p.Ret[0], mkNil())) == 1 || p.Ret[0].isNil()
		ret := str(p.Ret[0])
		if er.cond(p, "set:err") == 1 {
			if retNil || strings.Contains(ret, "SkipDir") || strings.Contains(ret, "SkipAll") {
				cr.add(vBad, pos, "a failure to read an entry is ignored")
			} else {
				cr.add(vOK, pos, "")
			}
			continue
		}
		var lone *Term
		isDir, suffix, other, others := -1, -1, "", 0
		for b, v := range p.Facts.bools {
			d := 0
			if v {
				d = 1
			}
			switch s := str(b); {
			case b.Op == "inv" && strings.HasPrefix(b.Sym, "IsDir"):
				isDir = d
			case s == "strings.HasSuffix(path, config.TemplateExt)" || s == "strings.HasSuffix(path/filepath.Base(path), config.TemplateExt)" ||
				strings.HasPrefix(s, "strings.HasSuffix(") && strings.HasSuffix(s, ", config.TemplateExt)") && b.Args[0].Op == "inv" && strings.HasPrefix(b.Args[0].Sym, "Name"):
				suffix = d
			case s == "(info == nil)" && !v:
			default:
				if !b.mentions(func(t *Term) bool { return er.names[t] == "err" || t.Op == "ext" }) {
					others++
					if other == "" || s < other {
						other, lone = s, b
					}
				}
			}
		}
		put := false
		for _, ev := range p.Events {
			if ev.Kind != "mapupdate" {
				continue
			}
			put = true
			stored = true
			v, why := fileName(str(ev.Args[0]))
			if v != vOK {
				cr.add(v, ev.Pos, "the name "+str(ev.Args[0])+" "+why)
			}
			if val := str(ev.Val); val != "abs‹path›" {
				if libUnknown(val) {
					cr.add(vUnd, ev.Pos, "the file recorded is "+val)
				} else {
					cr.add(vBad, ev.Pos, "the file recorded is "+val)
				}
			}
		}
		switch {
		case unknown != "":
			cr.add(vUnd, pos, "the call of "+unknown+" is not followed")
		case put && isDir != 0:
			cr.add(vBad, pos, "a directory may be registered as a template")
		case put && suffix != 1 && other == "":
			cr.add(vBad, pos, "a file without the extension is registered")
		case put && suffix != 1:
			if suffix < 0 && loneTest.MatchString(other) {
				cr.add(vBad, pos, "a file is registered when "+other+", not by its extension")
			} else {
				cr.add(vUnd, pos, "a file is registered when "+other)
			}
		case put:
			if retNil {
				cr.add(vOK, pos, "")
			} else {
				cr.add(vBad, pos, "the walk stops at a template: "+ret)
			}
		case strings.Contains(ret, "SkipDir") || strings.Contains(ret, "SkipAll"):
			cr.add(vBad, pos, "the walk leaves out files: it returns "+ret)
		case !retNil:
			cr.add(vOK, pos, "")
		case isDir == 1 || suffix == 0:
			cr.add(vOK, pos, "")
		case suffix == 1 && other == "":
			cr.add(vBad, pos, "a file with the extension is not registered")
		case other != "":
			if others == 1 && suffix < 0 && leavesOut(lone, p.Facts.bools[lone], ".tw.html") {
				cr.add(vBad, pos, "a file with the extension may be left out by "+other)
			} else if libUnknown(other) && suffix < 0 && !strings.Contains(other, "filepath.Ext(") {
				cr.add(vUnd, pos, "a file is left out when "+other)
			} else {
				cr.add(vBad, pos, "a file with the extension may be left out: the condition is "+other)
			}
		default:
			cr.add(vUnd, pos, "whether the file has the extension is not resolved")
		}
	}
	if !stored {
		cr.add(vUnd, cb.Pos(), "no file is registered")
	}
	cr.done()
}

// leavesOut: the test of a file's name has the outcome for some file that
// ends with the extension.
func leavesOut(t *Term, v bool, ext string) bool {
	if t.Op != "call" || len(t.Args) != 2 {
		return false
	}
	if n := t.Args[0]; !(n.Op == "inv" && strings.HasPrefix(n.Sym, "Name")) &&
		!(n.Op == "call" && strings.HasPrefix(n.Sym, "path/filepath.Base")) {
		return false
	}
	k, ok := t.Args[1].strVal()
	if !ok || k == "" || strings.ContainsAny(k, "/\x00") {
		return false
	}
	test := map[string]func(string, string) bool{
		"strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix, "strings.Contains": strings.Contains,
	}[t.Sym]
	if test == nil {
		return false
	}
	for _, name := range []string{"x" + ext, k + "x" + ext, "x" + k + ext, "x" + k + "x" + ext, k} {
		if len(name) > len(ext) && strings.HasSuffix(name, ext) && test(name, k) == v {
			return true
		}
	}
	return false
}

// cycleRule: a component file is entered only when it is not among the ones
// that lead to it.
func (c *Checker) cycleRule(rule string) {
	name := "applyComponentToProgram"
	er := c.linkRun(rule, name, ":applyComponentToProgram", []string{"page", "file", "parents"}, "Comps", "ApplyComponent")
	if er == nil {
		return
	}
	cr := c.newCase(rule, name)
	path := q("path‹page.Components[k1].Name.Value›")
	calls := 0
	for _, p := range er.paths {
		for _, ev := range p.Events {
			if ev.Kind != "call" || ev.Fn != "textwire.applyComponentToProgram" {
				continue
			}
			calls++
			q := *p
			if ev.Facts != nil {
				q.Facts = ev.Facts
			}
			r := er.specRenderer(&q)
			if len(ev.Args) < 3 {
				cr.add(vBad, ev.Pos, "components that use each other are loaded for ever: the files that lead to one are not passed on")
				continue
			}
			parents := er.norm(r.str(ev.Args[2]))
			guard := er.cond(&q, `false~slices\.Contains\(parents, `+path+`\)`) == 1
			depth := false
			other := false
			for b := range q.Facts.bools {
				if b.mentions(func(t *Term) bool { return er.names[t] == "parents" }) {
					other = true
					if b.Op == "<" && b.mentions(func(t *Term) bool { return t.Op == "len" }) {
						depth = true
					}
				}
				if b.mentions(func(t *Term) bool { return t.Op == "maphas" || t.Op == "lookup" }) {
					other = true
				}
			}
			switch {
			case (guard || depth) && regexp.MustCompile(`^(?:slices\.Clone\(parents\)|parents|.*parents.*)\+\+\[(?:file, )?`+path+`\]$`).MatchString(parents):
				cr.add(vOK, ev.Pos, "")
			case parents == "[path‹page.Components[k1].Name.Value›]":
				cr.add(vBad, ev.Pos, "the files that lead to a component are forgotten: "+parents)
			case guard && !strings.Contains(parents, "path‹"):
				cr.add(vBad, ev.Pos, "a component is not recorded among the files that lead to its own components: "+parents)
			case guard || depth || other:
				cr.add(vUnd, ev.Pos, "the files that lead to a component are "+parents)
			default:
				cr.add(vBad, ev.Pos, "components that use each other are loaded for ever")
			}
		}
	}
	if calls == 0 {
		cr.add(vUnd, 0, "components of components are not loaded")
	}
	cr.done()
}

// loneTest is a test of the file's name that is not the test of its extension.
var loneTest = regexp.MustCompile(`^strings\.(?:Contains|HasPrefix|EqualFold)\((?:Name\(info\)|path|path/filepath\.Base\(path\)), config\.TemplateExt\)$`)
