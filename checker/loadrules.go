package main

import (
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Loading and entry points. The functions between a file name or a source
// text and a parsed program are followed into; what they compute is named by
// what it is: path‹X› the absolute path of template X, src‹F› the content of
// file F, prog‹S @ P› the program parsed from source S under path P and
// errs‹S @ P› the errors of that parse.

var loadVoc = map[string]string{
	"object.EnvFromMap":          "Env",
	evalFn:                       "Eval",
	"evaluator.New":              "NewEval",
	"ctx.NewContext":             "Ctx",
	"lexer.New":                  "Lex",
	"parser.New":                 "Parser",
	"parser.Parser.ParseProgram": "ParseProgram",
	"fail.Error.Error":           "AsError",
	"fail.New":                   "Fail",
	"os.ReadFile":                "ReadFile",
}

// plain are the calls without an effect that a specification could see.
var plainCalls = map[string]bool{"object.EnvFromMap": true, evalFn: true, "evaluator.New": true, "ctx.NewContext": true,
	"lexer.New": true, "parser.New": true, "parser.Parser.ParseProgram": true, "fail.Error.Error": true, "fail.New": true, "os.ReadFile": true}

var rkeyRx = regexp.MustCompile(`rkey:[^#()]*#\d+\(([^()]*)\)`)

// loadRun enumerates the paths of a function of the load path.
func (c *Checker) loadRun(f *ssa.Function, names []string, extra map[string]string, o runOpts) *evalRun {
	voc := map[string]string{}
	for k, v := range loadVoc {
		voc[k] = v
	}
	for k, v := range extra {
		voc[k] = v
	}
	er := c.fnRun(f, names, o, voc)
	if er == nil {
		return nil
	}
	er.quiet = plainCalls
	er.norm = func(s string) string { return rkeyRx.ReplaceAllString(s, "key‹$1›") }
	for a, v := range c.p.gmem.mem {
		if a.Op == "global" && v.Op == "alloc" && v.Typ != nil && a.Obj.(*ssa.Global).Pkg == c.p.spkgs[""] {
			switch shortType(v.Typ) {
			case "*config.Config":
				er.names[v] = "config"
			case "*config.Func":
				er.names[v] = "custom"
			}
		}
	}
	er.known = map[string][]*Term{}
	for round := 0; round < 12; round++ {
		n := len(er.names)
		for _, p := range er.paths {
			er.nameTerms(p)
		}
		if len(er.names) == n {
			break
		}
	}
	// a path on which reading a file gives io.EOF does not exist
	var ps []*Path
	for _, p := range er.paths {
		if !er.impossible(p) {
			ps = append(ps, p)
		}
	}
	er.paths = ps
	return er
}

// eachTermUp visits the terms of a path, parts first.
func eachTermUp(p *Path, f func(*Term)) {
	seen := map[*Term]bool{}
	var rec func(*Term)
	rec = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			rec(a)
		}
		f(t)
	}
	eachTerm(p, func(t *Term) bool { rec(t); return false })
}

func eachTerm(p *Path, f func(*Term) bool) {
	for _, t := range p.Ret {
		t.walk(f)
	}
	for t := range p.Facts.bools {
		t.walk(f)
	}
	for t := range p.Facts.kinds {
		t.walk(f)
	}
	for t := range p.Facts.eq {
		t.walk(f)
	}
	for _, ev := range p.Events {
		for _, t := range ev.Args {
			t.walk(f)
		}
		for _, t := range []*Term{ev.Res, ev.Addr, ev.Val} {
			t.walk(f)
		}
	}
}

func (er *evalRun) setName(t *Term, n string) {
	if er.names[t] != "" {
		return
	}
	er.names[t] = n
	er.known[n] = append(er.known[n], t)
}

func (er *evalRun) nameTerms(p *Path) {
	r := er.specRenderer(p)
	str := func(t *Term) string { return er.norm(r.str(t)) }
	set := func(t *Term, n string) {
		er.setName(t, n)
		r.names[t] = n
	}
	eachTermUp(p, func(t *Term) {
		if er.names[t] != "" {
			return
		}
		switch t.Op {
		case "ext":
			b := t.Args[0]
			if b.Op != "call" {
				return
			}
			n, _, _ := strings.Cut(b.Sym, "#")
			switch n {
			case "path/filepath.Abs":
				x := er.pathArg(str, b.Args[0])
				if x == "" {
					return
				}
				if t.Sym == "0" {
					set(t, x)
				} else {
					set(t, x+".err")
				}
			case "os.ReadFile":
				f := str(b.Args[0])
				if t.Sym == "0" {
					set(t, "bytes‹"+f+"›")
				} else {
					set(t, "src‹"+f+"›.err")
				}
			case "object.EnvFromMap":
				f := str(b.Args[0])
				if t.Sym == "0" {
					set(t, "env‹"+f+"›")
				} else {
					set(t, "env‹"+f+"›.err")
				}
			}
		case "conv":
			if s := str(t.Args[0]); strings.HasPrefix(s, "bytes‹") {
				set(t, "src"+strings.TrimPrefix(s, "bytes"))
			}
		case "call":
			n, _, _ := strings.Cut(t.Sym, "#")
			if n == "parser.Parser.ParseProgram" && len(t.Args) == 1 {
				if s, p := er.parserOf(t.Args[0], str); s != "" {
					set(t, "prog‹"+s+" @ "+p+"›")
				}
			}
		case "init":
			if a := t.Args[0]; a.Op == "&f" && strings.HasSuffix(a.Sym, "Parser.errors") {
				if s, p := er.parserOf(a.Args[0], str); s != "" {
					set(t, "errs‹"+s+" @ "+p+"›")
				}
			}
		}
	})
}

func (er *evalRun) parserOf(t *Term, str func(*Term) string) (src, path string) {
	if t.Op != "call" || !strings.HasPrefix(t.Sym, "parser.New#") || len(t.Args) != 2 {
		return "", ""
	}
	l := t.Args[0]
	if l.Op != "call" || !strings.HasPrefix(l.Sym, "lexer.New#") || len(l.Args) != 1 {
		return "", ""
	}
	return str(l.Args[0]), str(t.Args[1])
}

// pathArg names the argument of filepath.Abs: the path of a template below
// the template directory with the extension, or a plain path.
func (er *evalRun) pathArg(str func(*Term) string, t *Term) string {
	dir := func(s string) bool {
		return s == "config.TemplateDir" || s == `strings.TrimRight(config.TemplateDir, "/")` || s == `strings.TrimSuffix(config.TemplateDir, "/")`
	}
	file := func(s string) string {
		for _, f := range []string{"TrimLeft", "TrimPrefix"} {
			if x, ok := strings.CutPrefix(s, "strings."+f+"("); ok {
				if x, ok := strings.CutSuffix(x, `, "/")`); ok {
					return x
				}
			}
		}
		return s
	}
	join := func(t *Term) (d, f *Term) {
		if t.Op == "call" && strings.HasPrefix(t.Sym, "path/filepath.Join") {
			as := t.Args
			if len(as) == 1 && as[0].Op == "slicelit" {
				as = as[0].Args[1:]
			}
			if len(as) == 2 {
				return as[0], as[1]
			}
		}
		return nil, nil
	}
	const ext = "config.TemplateExt"
	if t.Op == "cat" {
		as := t.Args
		n := len(as)
		switch {
		case n == 4 && str(as[1]) == `"/"` && str(as[3]) == ext && dir(str(as[0])):
			return "path‹" + file(str(as[2])) + "›"
		case n == 2 && str(as[1]) == ext:
			if d, f := join(as[0]); d != nil && dir(str(d)) {
				return "path‹" + file(str(f)) + "›"
			}
		}
		return ""
	}
	if d, f := join(t); d != nil && dir(str(d)) && f.Op == "cat" && len(f.Args) == 2 && str(f.Args[1]) == ext {
		return "path‹" + file(str(f.Args[0])) + "›"
	}
	if s := str(t); !strings.Contains(s, "config.") {
		return "abs‹" + s + "›"
	}
	return ""
}

// impossible: the path assumes that os.ReadFile gives io.EOF, that a parser
// error is nil or that a Textwire error converts to a nil error.
func (er *evalRun) impossible(p *Path) bool {
	r := er.specRenderer(p)
	r.facts = newFacts()
	for t, v := range p.Facts.bools {
		if v && t.Op == "==" {
			for i := range t.Args {
				if t.Args[1-i].isNil() && strings.HasPrefix(er.norm(r.str(t.Args[i])), "errs‹") && strings.HasSuffix(r.str(t.Args[i]), "[0]") {
					return true
				}
				if strings.HasPrefix(er.names[t.Args[i]], "src‹") && strings.HasSuffix(t.Args[1-i].String(), "io.EOF") {
					return true
				}
			}
		}
	}
	for _, ev := range p.Events {
		if ev.Kind == "call" && ev.Fn == "fail.Error.Error" && ev.Res != nil && p.Facts.decide(er.c.p, mkEq(ev.Res, mkNil())) == 1 {
			return true
		}
	}
	return false
}

// cond decides a named condition on a path: 1, 0 or -1.
func (er *evalRun) cond(p *Path, s string) int {
	var rx *regexp.Regexp
	what, name, ok := strings.Cut(s, ":")
	if w, n, isRx := strings.Cut(s, "~"); isRx && (!ok || len(w) < len(what)) {
		what, name, rx = w, n, regexp.MustCompile("^(?:"+n+")$")
	}
	neg := func(d int) int {
		if d < 0 {
			return d
		}
		return 1 - d
	}
	r := -1
	r0 := er.specRenderer(p)
	r0.facts = newFacts() // names, whatever the path knows about the values
	try := func(d int) {
		if d >= 0 {
			r = d
		}
	}
	norm := er.norm
	if norm == nil {
		norm = func(s string) string { return s }
	}
	switch what {
	case "done":
		for t, v := range p.Facts.bools {
			if t.Op == "more" && !v && len(t.Args) == 1 && norm(r0.str(t.Args[0])) == name {
				return 1
			}
		}
		return -1
	case "lt":
		for t, v := range p.Facts.bools {
			if v && t.Op == "<" && t.Args[1].Op == "len" && norm(r0.str(t.Args[0])+" "+r0.str(t.Args[1].Args[0])) == name {
				return 1
			}
		}
		return -1
	case "has", "lacks":
		for t, v := range p.Facts.bools {
			if t.Op == "maphas" && norm(r0.str(t.Args[0])+"["+r0.str(t.Args[1])+"]") == name {
				d := 0
				if v {
					d = 1
				}
				if what == "lacks" {
					d = 1 - d
				}
				try(d)
			}
		}
		return r
	}
	ts := er.known[name]
	if rx != nil {
		for n, l := range er.known {
			if rx.MatchString(n) {
				ts = append(ts, l...)
			}
		}
	}
	if len(ts) == 0 {
		seen := map[*Term]bool{}
		eachTerm(p, func(t *Term) bool {
			if seen[t] {
				return true
			}
			if n := norm(r0.str(t)); rx == nil && n == name || rx != nil && rx.MatchString(n) {
				seen[t] = true
				ts = append(ts, t)
			}
			return true
		})
	}
	for _, t := range ts {
		nilness := func() int {
			if d := p.Facts.decide(er.c.p, mkEq(t, mkNil())); d >= 0 {
				return d
			}
			k := p.Facts.kind(er.c.p, t)
			if n, ok := k.single(); ok && n == "nil" {
				return 1
			}
			if !k.has("nil") {
				return 0
			}
			return -1
		}
		switch what {
		case "nil":
			try(nilness())
		case "set":
			try(neg(nilness()))
		case "empty":
			try(er.isEmpty(p, t))
		case "some":
			try(neg(er.isEmpty(p, t)))
		case "error":
			try(er.isError(p, t))
		case "value":
			try(neg(er.isError(p, t)))
		case "true":
			try(p.Facts.decide(er.c.p, t))
		case "false":
			try(neg(p.Facts.decide(er.c.p, t)))
		}
	}
	return r
}

// isEmpty: the list or map has no elements: 1, 0 or -1.
func (er *evalRun) isEmpty(p *Path, t *Term) int {
	ls := []*Term{mkLen(t)}
	for b := range p.Facts.bools {
		b.walk(func(x *Term) bool {
			if x.Op == "len" && x.Args[0] == t {
				ls = append(ls, x)
			}
			return true
		})
	}
	for _, l := range ls {
		if d := p.Facts.decide(er.c.p, mkEq(l, mkInt(0))); d >= 0 {
			return d
		}
		switch p.Facts.decide(er.c.p, mkLess(mkInt(0), l)) {
		case 1:
			return 0
		case 0:
			return 1
		}
	}
	return -1
}

func (er *evalRun) condsFail(p *Path, cs []string) string {
	for _, s := range cs {
		ok := false
		for _, v := range strings.Split(s, " | ") {
			ok = ok || er.cond(p, v) == 1
		}
		if !ok {
			return s
		}
	}
	return ""
}

// loadSpec compares a function of the load path with its specification.
func (c *Checker) loadSpec(rule, name string, f *ssa.Function, names []string, extra map[string]string, o runOpts, alts func(er *evalRun) []alt) {
	er := c.loadRun(f, names, extra, o)
	if er == nil {
		c.und(rule, name, "anchor not found")
		return
	}
	er.spec(rule, name, alts(er))
}

// evalOf is the evaluation of a program with an environment.
func evalOf(prog, env string) string {
	return `Eval\(.*, ` + regexp.QuoteMeta(prog) + `, ` + regexp.QuoteMeta(env) + `\)`
}

// entries: what the rendering entry points return.
func (c *Checker) entries(rule string) {
	c.loadSpec(rule, "EvaluateString", c.p.fn("", "EvaluateString"), []string{"inp", "data"}, nil, runOpts{}, func(er *evalRun) []alt {
		return stringAlts("inp", `""`, "data")
	})
	c.loadSpec(rule, "EvaluateFile", c.p.fn("", "EvaluateFile"), []string{"file", "data"}, nil, runOpts{}, func(er *evalRun) []alt {
		var as []alt
		for _, under := range []string{`""`, "file"} {
			for _, a := range stringAlts("src‹file›", under, "data") {
				a.cond = append(a.cond, "nil:src‹file›.err")
				a.opt = true
				as = append(as, a)
			}
		}
		return append(as, alt{toks: []string{}, ret: `~"", AsError\(Fail\(0, file, .*src‹file›\.err.*`, cond: []string{"set:src‹file›.err"}})
	})
	c.loadSpec(rule, "Template.String", c.p.fn("", "Template.String"), []string{"t", "name", "data"}, nil, runOpts{}, func(er *evalRun) []alt {
		ev := evalOf("t.programs[name]", "env‹data›")
		ok := []string{"nil:env‹data›.err", "nil:path‹name›.err", "has:t.programs[name]"}
		with := func(s string) []string { return append(append([]string{}, ok...), s) }
		return []alt{
			{ret: `"", env‹data›.err`, cond: []string{"set:env‹data›.err"}},
			{ret: `~"", Fail\(0, .*path‹name›\.err.*\)`, cond: []string{"set:path‹name›.err"}},
			{ret: `~"", Fail\(0, path‹name›, .*\)`, cond: []string{"lacks:t.programs[name]"}},
			{ret: `~"", ` + ev + `\.Err`, cond: with("error~" + ev)},
			{ret: `~String\(` + ev + `\), nil`, cond: with("value~" + ev)},
		}
	})
}

func stringAlts(src, path, data string) []alt {
	ev := evalOf("prog‹"+src+" @ "+path+"›", "env‹"+data+"›")
	errs := "errs‹" + src + " @ " + path + "›"
	env := "env‹" + data + "›"
	as := []alt{
		{ret: `"", AsError(` + errs + `[0])`, cond: []string{"some:" + errs}},
		{ret: `"", AsError(` + env + `.err)`, cond: []string{"set:" + env + ".err"}},
		{ret: `~"", AsError\(` + ev + `\.Err\)`, cond: []string{"empty:" + errs, "nil:" + env + ".err", "error~" + ev}},
		{ret: `~String\(` + ev + `\), nil`, cond: []string{"empty:" + errs, "nil:" + env + ".err", "value~" + ev}},
	}
	return as
}
