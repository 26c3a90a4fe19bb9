package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C17: what Response writes.

func init() { checks["C17"] = checkC17 }

func checkC17(c *Checker) {
	c.rule("response", "on every path of Response the body is the complete rendered page when the render succeeded; otherwise the custom error page when one is set and debug mode is off (or nothing when it fails), else the built-in page; the result is nil exactly on success")
	c.rule("details", "the error's message, path and line reach the built-in page only where it shows them under the debug flag, and the flag it gets is the configured one")
	c.rule("page", "the built-in page shows message, path and line, and only inside conditions on the debug flag")
	c.rule("config", "debug mode is off until configured, and is what was configured last")
	c.response()
	c.debugConfig()
}

// userConf is the configuration object of the package.
func (c *Checker) userConf() (*Term, *Term) {
	for a, v := range c.p.gmem.mem {
		if a.Op != "global" || v.Op != "alloc" || v.Typ == nil {
			continue
		}
		if shortType(v.Typ) == "*config.Config" && a.Obj.(*ssa.Global).Pkg == c.p.spkgs[""] {
			return a, v
		}
	}
	return nil, nil
}

type respRun struct {
	c     *Checker
	er    *evalRun
	cfg   *Term
	t     *Term
	w     *Term
	name  *Term
	data  *Term
	empty int               // whether a failed render has no text
	page  map[string]string // what the page sees under which name: message, path, line, flag
}

func (rr *respRun) state(p *Path, t *Term) int {
	if t.isNil() {
		return 1
	}
	if d := p.Facts.decide(rr.c.p, mkEq(t, mkNil())); d >= 0 {
		return d
	}
	k := p.Facts.kind(rr.c.p, t)
	if n, ok := k.single(); ok && n == "nil" {
		return 1
	}
	if t.Op == "alloc" || t.Op == "iface" && t.Args[0].Op == "alloc" {
		return 0
	}
	if t.Op == "call" {
		switch n, _, _ := strings.Cut(t.Sym, "#"); n {
		case "errors.New", "fmt.Errorf":
			return 0
		}
	}
	if !k.has("nil") {
		return 0
	}
	return -1
}

func callNamed(t *Term, name string) bool {
	n, _, _ := strings.Cut(t.Sym, "#")
	return t.Op == "call" && n == name
}

func mkExt(i int, t *Term) *Term { return mk("ext", fmt.Sprint(i), nil, nil, t) }

const (
	stringFn = "textwire.Template.String"
	esFn     = "textwire.EvaluateString"
)

func (c *Checker) response() {
	f := c.p.fn("", "Template.Response")
	_, cfg := c.userConf()
	if f == nil || cfg == nil || len(f.Params) != 4 {
		c.und("response", "Response", "anchor not found")
		return
	}
	er := c.fnRun(f, []string{"t", "w", "filename", "data"}, runOpts{}, map[string]string{stringFn: "String", esFn: "EvaluateString"})
	rr := &respRun{c: c, er: er, cfg: cfg, t: er.args[0], w: er.args[1], name: er.args[2], data: er.args[3]}
	er.names[cfg] = "config"
	c.paths += len(er.paths)
	cr := c.newCase("response", "Response")
	dt := c.newCase("details", "built-in page")
	if !er.complete {
		cr.add(vUnd, f.Pos(), "path enumeration is incomplete")
	}
	pages := map[*Term]bool{}
	for _, p := range er.paths {
		if p.Outcome == "panic" {
			continue
		}
		if p.Outcome != "return" || len(p.Ret) != 1 {
			cr.add(vUnd, lastPos(p), "a path is not resolved")
			continue
		}
		rr.path(p, cr, dt, pages)
	}
	cr.done()
	if len(pages) == 0 {
		dt.add(vUnd, f.Pos(), "the built-in page is not rendered here")
	}
	dt.done()
	var ks []*Term
	for k := range pages {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].Sym < ks[j].Sym })
	for _, k := range ks {
		rr.builtinPage(k)
	}
}

// body is what a path writes to the response, piece by piece; ok is false
// when a piece is not resolved.
func (rr *respRun) body(p *Path) (out []*Term, pos token.Pos, why string) {
	isW := func(t *Term) bool {
		t = stripEpoch(t)
		for t.Op == "iface" || t.Op == "cast" {
			t = t.Args[0]
		}
		return t == rr.w
	}
	args := func(t *Term) []*Term {
		if t.Op == "slicelit" {
			var r []*Term
			for _, a := range t.Args[1:] {
				r = append(r, stripIface(a))
			}
			return r
		}
		return nil
	}
	for _, ev := range p.Events {
		if ev.Kind != "call" && ev.Kind != "invoke" && ev.Kind != "dyncall" || len(ev.Args) == 0 {
			continue
		}
		has := false
		for _, a := range ev.Args {
			has = has || isW(a)
		}
		if !has {
			continue
		}
		pos = ev.Pos
		switch {
		case ev.Kind == "invoke" && isW(ev.Args[0]):
			switch ev.Fn {
			case "Header", "WriteHeader":
			case "Write":
				b := stripIface(ev.Args[1])
				if b.Op == "conv" {
					b = b.Args[0]
				}
				out = append(out, b)
			default:
				return nil, pos, "the call of " + ev.Fn + " on the response is not resolved"
			}
		case ev.Fn == "fmt.Fprint" && len(ev.Args) == 2:
			as := args(ev.Args[1])
			if len(as) == 0 {
				return nil, pos, "what is written is not resolved"
			}
			out = append(out, as...)
		case ev.Fn == "io.WriteString" && len(ev.Args) == 2:
			out = append(out, stripIface(ev.Args[1]))
		case ev.Fn == "fmt.Fprintf" && len(ev.Args) == 3:
			s, ok := ev.Args[1].strVal()
			as := args(ev.Args[2])
			switch {
			case ok && (s == "%s" || s == "%v") && len(as) == 1:
				out = append(out, as[0])
			case ok:
				out = append(out, mkStr(s))
				out = append(out, as...)
			case len(as) == 0 && rr.rendered(ev.Args[1]):
				// the page is taken as a format
				out = append(out, mk("call", "strings.Format", types.Typ[types.String], nil, ev.Args[1]))
			default:
				return nil, pos, "what is written is not resolved"
			}
		case ev.Fn == "fmt.Fprintln" && len(ev.Args) == 2:
			out = append(out, args(ev.Args[1])...)
			out = append(out, mkStr("\n"))
		default:
			return nil, pos, "the call of " + ev.Fn + " with the response is not resolved"
		}
	}
	return out, pos, ""
}

func (rr *respRun) path(p *Path, cr, dt *caseRun, pages map[*Term]bool) {
	c, er := rr.c, rr.er
	pos := lastPos(p)
	r := er.specRenderer(p)
	r.facts = &Facts{}
	var S, E, P *Event
	for _, ev := range p.Events {
		if ev.Kind != "call" || ev.Res == nil {
			continue
		}
		switch {
		case callNamed(ev.Res, stringFn) && len(ev.Args) == 3 && stripEpoch(ev.Args[1]) == rr.name:
			if S != nil {
				cr.add(vUnd, ev.Pos, "the page is rendered twice")
				return
			}
			S = ev
			if stripEpoch(ev.Args[2]) != rr.data {
				cr.add(vBad, ev.Pos, "the page is rendered with "+r.str(ev.Args[2])+", not with the data")
				return
			}
		case callNamed(ev.Res, stringFn) && len(ev.Args) == 3:
			if got := r.str(ev.Args[1]); got != "config.ErrorPagePath" {
				cr.add(vUnd, ev.Pos, "the page "+got+" is rendered")
				return
			}
			E = ev
		case callNamed(ev.Res, esFn):
			P = ev
		}
	}
	if S == nil {
		cr.add(vUnd, pos, "the page is not rendered on a path")
		return
	}
	out, wpos, why := rr.body(p)
	if why != "" {
		cr.add(vUnd, wpos, why)
		return
	}
	if !wpos.IsValid() {
		wpos = pos
	}
	ret := rr.state(p, p.Ret[0])
	if ret == -1 {
		ret = rr.state(p, stripIface(p.Ret[0]))
	}
	ok := rr.state(p, mkExt(1, S.Res))
	isPart := func(t *Term, ev *Event, i int) bool {
		return ev != nil && stripEpoch(t) == stripEpoch(mkExt(i, ev.Res))
	}
	fld := func(n string) *Term { return c.fld(rr.cfg, n) }
	debug, custom := -1, -1
	if d := fld("DebugMode"); d != nil {
		debug = rr.flag(p, "DebugMode", "")
	}
	custom = rr.flag(p, "ErrorPagePath", "set")
	var texts []string
	for _, t := range out {
		texts = append(texts, r.str(t))
	}
	body := strings.Join(texts, " ")
	switch ok {
	case 1:
		switch {
		case len(out) == 1 && isPart(out[0], S, 0):
			if ret == 1 {
				cr.add(vOK, pos, "")
			} else if ret == 0 {
				cr.add(vBad, pos, "an error is returned although the page was rendered")
			} else if p.Ret[0] == mkExt(1, S.Res) {
				cr.add(vOK, pos, "")
			} else {
				cr.add(vUnd, pos, "the result is not resolved")
			}
		case len(out) == 0:
			cr.add(vBad, pos, "nothing is written although the page was rendered")
		case isPart(out[0], S, 0):
			cr.add(vBad, wpos, "something besides the page is written: "+body)
		case callOfPart(out[0], S):
			cr.add(vBad, wpos, "what is written is "+body+", not the page itself")
		default:
			v := vUnd
			if c.resolved(p, out[0], func(t *Term) bool {
				return t == S.Res || E != nil && t == E.Res || P != nil && t == P.Res || t.Op == "ext"
			}) {
				v = vBad
			}
			cr.add(v, wpos, "the body is "+body+" although the page was rendered")
		}
		return
	case -1:
		for _, t := range out {
			if isPart(t, S, 0) {
				cr.add(vBad, wpos, "the page is written before it is known whether the render failed")
				return
			}
		}
		if len(out) == 0 {
			cr.add(vUnd, pos, "a path does not look at the outcome of the render")
		} else {
			cr.add(vBad, wpos, body+" is written whether or not the render failed")
		}
		return
	}
	// the render failed
	if ret == 1 {
		cr.add(vBad, pos, "nil is returned although the render failed")
		return
	}
	if ret == -1 {
		cr.add(vUnd, pos, "the result "+r.str(p.Ret[0])+" is not resolved")
	}
	if E != nil && rr.fromError(E.Args[2], S) {
		cr.add(vBad, E.Pos, "the custom error page gets details of the error")
		return
	}
	eFail := E != nil && rr.state(p, mkExt(1, E.Res)) == 0
	pFail := P != nil && rr.state(p, mkExt(1, P.Res)) == 0
	var rest []*Term
	for _, t := range out {
		if !isPart(t, S, 0) {
			rest = append(rest, t)
		} else if !rr.emptyOnFail() {
			cr.add(vBad, wpos, "a part of the failed page is written")
			return
		}
	}
	out = rest
	switch {
	case len(out) == 0:
		if eFail || pFail {
			cr.add(vOK, pos, "")
		} else if er.factsKnown(p) || rr.known(p) {
			cr.add(vBad, pos, "the body is empty although the error page did not fail")
		} else {
			cr.add(vUnd, pos, "the body is empty")
		}
	case len(out) > 1:
		cr.add(vBad, wpos, "the body is more than one page: "+body)
	case isPart(out[0], E, 0):
		switch {
		case eFail:
			cr.add(vBad, wpos, "a part of the failed error page is written")
		case rr.state(p, mkExt(1, E.Res)) == -1:
			cr.add(vBad, wpos, "the error page is written before it is known whether it failed")
		case debug == 0 && custom == 1:
			cr.add(vOK, pos, "")
		case debug == 1 || custom == 0:
			cr.add(vBad, wpos, "the custom error page is written although debug mode is on or none is configured")
		case rr.known(p):
			cr.add(vBad, wpos, "the custom error page is written whatever the configuration is")
		default:
			cr.add(vUnd, wpos, "when the custom error page is used is not resolved")
		}
	case isPart(out[0], P, 0):
		switch {
		case pFail || rr.state(p, mkExt(1, P.Res)) == -1:
			cr.add(vBad, wpos, "a part of the failed error page is written")
			return
		case debug == 1 || custom == 0 || eFail:
			cr.add(vOK, pos, "")
		case debug == 0 && custom == 1:
			cr.add(vBad, wpos, "the built-in page is written although a custom one is configured and debug mode is off")
		case rr.known(p):
			cr.add(vBad, wpos, "the built-in page is written whatever the configuration is")
		default:
			cr.add(vUnd, wpos, "when the built-in page is used is not resolved")
		}
		rr.details(p, S, P, debug, dt)
		pages[stripEpoch(P.Args[0])] = true
	default:
		if rr.fromError(out[0], S) {
			if debug == 1 {
				cr.add(vUnd, wpos, "the body is "+body)
			} else {
				cr.add(vBad, wpos, "details of the error are written: "+body)
			}
			return
		}
		for _, ev := range []*Event{E, P} {
			if ev != nil && debug != 1 && rr.fromError(out[0], ev) {
				cr.add(vBad, wpos, "details of the error page's failure are written: "+body)
				return
			}
		}
		cr.add(vUnd, wpos, "the body is "+body)
	}
}

// configOnly: the condition is about the configuration and constants.
func configOnly(s string) bool {
	s = configField.ReplaceAllString(s, "")
	s = quoted.ReplaceAllString(s, "")
	return !strings.ContainsAny(s, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
}

var (
	configField = regexp.MustCompile(`config\.\w+|\blen\b|\btrue\b|\bfalse\b`)
	quoted      = regexp.MustCompile(`"(?:[^"\\]|\\.)*"`)
)

// rendered: the text is the result of rendering a page.
func (rr *respRun) rendered(t *Term) bool {
	return t.Op == "ext" && t.Sym == "0" && (callNamed(t.Args[0], stringFn) || callNamed(t.Args[0], esFn))
}

// emptyOnFail: String gives no text along with an error.
func (rr *respRun) emptyOnFail() bool {
	if rr.empty == 0 {
		rr.empty = -1
		f := rr.c.p.fn("", "Template.String")
		if f == nil {
			return false
		}
		er := rr.c.fnRun(f, nil, runOpts{opaque: []string{evalFn, "object.EnvFromMap"}}, nil)
		ok := er.complete
		for _, p := range er.paths {
			if p.Outcome == "panic" {
				continue
			}
			if p.Outcome != "return" || len(p.Ret) != 2 {
				ok = false
				continue
			}
			if p.Ret[0] != mkStr("") && p.Facts.decide(rr.c.p, mkEq(p.Ret[1], mkNil())) != 1 && !p.Ret[1].isNil() {
				ok = false
			}
		}
		if ok {
			rr.empty = 1
		}
	}
	return rr.empty == 1
}

// callOfPart: a string function applied to the page.
func callOfPart(t *Term, S *Event) bool {
	if t.Op != "call" || len(t.Args) == 0 || callNamed(t, "strings.Clone") {
		return false
	}
	n, _, _ := strings.Cut(t.Sym, ".")
	return (n == "strings" || n == "html") && stripEpoch(t.Args[0]) == stripEpoch(mkExt(0, S.Res))
}

// flag: what the path knows about a field of the configuration.
func (rr *respRun) flag(p *Path, field, how string) int {
	r := rr.er.specRenderer(p)
	r.facts = &Facts{}
	want := "config." + field
	for b, v := range p.Facts.bools {
		switch {
		case how == "" && r.str(b) == want:
			if v {
				return 1
			}
			return 0
		case how == "set" && b.Op == "==":
			for i, a := range b.Args {
				if r.str(a) == want {
					if s, ok := b.Args[1-i].strVal(); ok && s == "" {
						if v {
							return 0
						}
						return 1
					}
				}
				if a.Op == "len" && r.str(a.Args[0]) == want && b.Args[1-i] == mkInt(0) {
					if v {
						return 0
					}
					return 1
				}
			}
		case how == "set" && b.Op == "<":
			l, h := b.Args[0], b.Args[1]
			if h.Op == "len" && r.str(h.Args[0]) == want && l == mkInt(0) || l.Op == "len" && r.str(l.Args[0]) == want && h == mkInt(1) {
				if v == (h.Op == "len") {
					return 1
				}
				return 0
			}
		}
	}
	return -1
}

// known: the path's facts are about the renders and the configuration.
func (rr *respRun) known(p *Path) bool {
	ok := true
	r := rr.er.specRenderer(p)
	r.facts = &Facts{}
	for b := range p.Facts.bools {
		s := r.str(b)
		if strings.Contains(s, "config.DebugMode") && rr.flag(p, "DebugMode", "") == -1 || strings.Contains(s, "config.ErrorPagePath") && rr.flag(p, "ErrorPagePath", "set") == -1 {
			return false
		}
		b.walk(func(t *Term) bool {
			switch t.Op {
			case "call":
				if !callNamed(t, stringFn) && !callNamed(t, esFn) {
					ok = false
				}
			case "inv", "dyn", "havoc", "unk", "loopv":
				ok = false
			}
			return ok
		})
	}
	return ok
}

// fromError: the value is made of the error of the failed render.
func (rr *respRun) fromError(t *Term, S *Event) bool {
	e := stripEpoch(mkExt(1, S.Res))
	seen := map[*Term]bool{}
	r := false
	var rec func(t *Term)
	rec = func(t *Term) {
		t.walk(func(x *Term) bool {
			if seen[x] {
				return false
			}
			seen[x] = true
			if x == e {
				r = true
			}
			if x.Op == "mapalloc" {
				for _, q := range rr.er.paths {
					for a, v := range q.St.mem {
						if a.Op == "&m" && a.Args[0] == x {
							rec(stripEpoch(v))
						}
					}
				}
			}
			return !r
		})
	}
	rec(stripEpoch(t))
	return r
}

// details checks the data of the built-in page on a path.
func (rr *respRun) details(p *Path, S, P *Event, debug int, dt *caseRun) {
	c := rr.c
	pos := P.Pos
	if len(P.Args) != 2 || P.Args[1].Op != "mapalloc" {
		dt.add(vUnd, pos, "the data of the built-in page is not resolved")
		return
	}
	r := rr.er.specRenderer(p)
	r.facts = &Facts{}
	r.names[stripEpoch(mkExt(1, S.Res))] = "err"
	r.names[mkExt(1, S.Res)] = "err"
	if rr.page == nil {
		rr.page = map[string]string{}
	}
	for a, v := range p.St.mem {
		if a.Op != "&m" || a.Args[0] != P.Args[1] {
			continue
		}
		k, ok := a.Args[1].strVal()
		if !ok {
			dt.add(vUnd, pos, "the data of the built-in page is not resolved")
			return
		}
		val := stripIface(v)
		s := r.str(val)
		role := ""
		switch {
		case s == "err.message":
			role = "message"
		case s == "err.filepath", s == `""` && rr.emptyPath(p, S):
			role = "path"
		case s == "err.line":
			role = "line"
		case s == "config.DebugMode":
			role = "flag"
		case val.isTrue() && debug == 1, val.isFalse() && debug == 0:
			role = "flag"
		case isBoolTerm(val) && debug >= 0 && p.Facts.decide(c.p, val) == debug:
			role = "flag"
		case val.isTrue() && debug != 1:
			dt.add(vBad, pos, "the page is told that debug mode is on although it may be off")
			continue
		case val.isFalse() && debug != 0:
			dt.add(vBad, pos, "the page is told that debug mode is off although it may be on")
			continue
		case rr.fromError(val, S):
			role = "message"
		case s == "config.ErrorPagePath" || s == "config.TemplateDir":
			role = "path"
		case callNamed(val, "fail.Error.Message") || callNamed(val, "fail.Error.String"):
			role = "message"
		case debug == 0 && isBoolTerm(val) && !val.isConst() && p.Facts.decide(c.p, val) != 0 && configOnly(s):
			role = "boolean of the configuration"
		default:
			role = "other"
		}
		if o := rr.page[k]; o == "flag" && role == "boolean of the configuration" || role == "flag" && o == "boolean of the configuration" {
			dt.add(vBad, pos, "with debug mode off the page is told that it is on, depending on the configuration")
			continue
		}
		if o := rr.page[k]; o != "" && o != role && (o == "flag" || role == "flag") && (role == "flag" || debug == 0 && isBoolTerm(val) && rr.fromError(val, S)) && (o == "flag" || o == "boolean of the error") {
			dt.add(vBad, pos, "with debug mode off the page is told that it is on, depending on the error")
			continue
		}
		if role == "message" && debug == 0 && isBoolTerm(val) {
			role = "boolean of the error"
		}
		if o := rr.page[k]; o != "" && o != role {
			dt.add(vUnd, pos, "the entry "+k+" of the page's data differs between paths")
			continue
		}
		rr.page[k] = role
		dt.add(vOK, pos, "")
	}
}

func (rr *respRun) emptyPath(p *Path, S *Event) bool {
	r := rr.er.specRenderer(p)
	r.facts = &Facts{}
	r.names[stripEpoch(mkExt(1, S.Res))] = "err"
	r.names[mkExt(1, S.Res)] = "err"
	for b, v := range p.Facts.bools {
		if v && b.Op == "==" && (r.str(b.Args[0]) == "err.filepath" || r.str(b.Args[1]) == "err.filepath") {
			return true
		}
	}
	return false
}

// builtinPage checks the template of the built-in page.
func (rr *respRun) builtinPage(src *Term) {
	c := rr.c
	name := "built-in page"
	text, ok := src.strVal()
	pos := token.NoPos
	where := ""
	if !ok {
		if src.Op == "init" {
			src = src.Args[0]
		}
		g, isG := src.Obj.(*ssa.Global)
		if src.Op != "global" || !isG {
			c.und("page", name, "the text of the page is not resolved")
			return
		}
		pos = g.Pos()
		file := c.embedOf(g)
		if file == "" {
			c.und("page", name, "the text of the page is not resolved")
			return
		}
		b, err := os.ReadFile(file)
		if err != nil {
			c.und("page", name, "the text of the page cannot be read")
			return
		}
		text = string(b)
		where = strings.TrimPrefix(file, c.p.dir+"/")
	}
	uses, why := pageUses(text, func(n string) bool { return rr.page[n] == "flag" })
	if why != "" {
		c.und("page", name, "%s", why)
		return
	}
	shown := map[string]bool{}
	for _, u := range uses {
		role := rr.page[u.name]
		item := fmt.Sprintf("%s: {{ %s }} on line %d", where, u.name, u.line)
		switch {
		case role == "":
			c.bad("page", item, pos, "the page uses %s, which it is not given", u.name)
		case role == "flag" || role == "other":
			c.ok("page", item, pos)
		case u.gate == 1:
			shown[role] = true
			c.ok("page", item, pos)
		case u.gate == 0:
			c.bad("page", item, pos, "%s line %d shows the %s of the error when debug mode is off", where, u.line, role)
		default:
			c.bad("page", item, pos, "%s line %d shows the %s of the error whether or not debug mode is on", where, u.line, role)
		}
	}
	for _, k := range []string{"message", "path", "line"} {
		if !shown[k] {
			c.bad("page", "shows the "+k, pos, "with debug mode on the page does not show the %s of the error", k)
		} else {
			c.ok("page", "shows the "+k, pos)
		}
	}
}

// embedOf is the file embedded in a package variable.
func (c *Checker) embedOf(g *ssa.Global) string {
	for _, k := range c.p.pkgs {
		if k.Types != g.Pkg.Pkg {
			continue
		}
		for _, f := range k.Syntax {
			for _, d := range f.Decls {
				gd, ok := d.(*ast.GenDecl)
				if !ok {
					continue
				}
				for _, s := range gd.Specs {
					vs, ok := s.(*ast.ValueSpec)
					if !ok {
						continue
					}
					for _, n := range vs.Names {
						if n.Name != g.Name() {
							continue
						}
						for _, doc := range []*ast.CommentGroup{gd.Doc, vs.Doc} {
							if doc == nil {
								continue
							}
							for _, l := range doc.List {
								if rest, ok := strings.CutPrefix(l.Text, "//go:embed "); ok {
									return filepath.Join(filepath.Dir(c.p.fset.Position(f.Pos()).Filename), strings.Trim(strings.TrimSpace(rest), `"`))
								}
							}
						}
					}
				}
			}
		}
	}
	return ""
}

type pageUse struct {
	name string
	line int
	gate int // 1 only in debug mode, 0 only out of it, -1 always
}

var (
	tokenRx = regexp.MustCompile(`(?s)\{\{--.*?--\}\}|\\\{\{|\\@|\{\{.*?\}\}|@[a-zA-Z]+`)
	identRx = regexp.MustCompile(`[A-Za-z_][A-Za-z0-9_]*`)
	strRx   = regexp.MustCompile("\"(?:\\\\.|[^\"\\\\])*\"|'(?:\\\\.|[^'\\\\])*'")
)

// pageUses lists the variables a template shows and under which conditions.
func pageUses(text string, flag func(string) bool) (uses []pageUse, why string) {
	type frame struct{ in, gate, els int }
	var stack []frame
	gate := func() int {
		g := -1
		for _, f := range stack {
			if f.in >= 0 {
				g = f.in
			}
		}
		return g
	}
	idents := func(e string, at, g int) {
		e = strRx.ReplaceAllString(e, `""`)
		line := 1 + strings.Count(text[:at], "\n")
		for _, l := range identRx.FindAllStringIndex(e, -1) {
			n := e[l[0]:l[1]]
			if n == "true" || n == "false" || n == "nil" {
				continue
			}
			if l[0] > 0 && e[l[0]-1] == '.' {
				continue
			}
			uses = append(uses, pageUse{n, line, g})
		}
	}
	cond := func(at int) (string, int, bool) {
		i := at
		for i < len(text) && (text[i] == ' ' || text[i] == '\t') {
			i++
		}
		if i >= len(text) || text[i] != '(' {
			return "", at, false
		}
		depth := 0
		for j := i; j < len(text); j++ {
			switch text[j] {
			case '(':
				depth++
			case ')':
				depth--
				if depth == 0 {
					return strings.TrimSpace(text[i+1 : j]), j + 1, true
				}
			}
		}
		return "", at, false
	}
	at := 0
	for {
		l := tokenRx.FindStringIndex(text[at:])
		if l == nil {
			break
		}
		from, to := at+l[0], at+l[1]
		tok := text[from:to]
		at = to
		switch {
		case strings.HasPrefix(tok, "{{--"), tok[0] == '\\':
		case tok[0] == '{':
			e := strings.TrimSpace(tok[2 : len(tok)-2])
			plain := strRx.ReplaceAllString(e, `""`)
			if q := strings.Index(plain, "?"); q >= 0 {
				// a ternary on the flag
				cnd := strings.TrimSpace(plain[:q])
				col := strings.LastIndex(plain, ":")
				if col < q || strings.Count(plain, "?") != 1 {
					return nil, "an expression of the page is not resolved"
				}
				a, b := gate(), gate()
				if flag(cnd) {
					a, b = 1, 0
				} else if strings.HasPrefix(cnd, "!") && flag(strings.TrimSpace(cnd[1:])) {
					a, b = 0, 1
				}
				idents(plain[:q], from, gate())
				idents(plain[q+1:col], from, a)
				idents(plain[col+1:], from, b)
				continue
			}
			idents(e, from, gate())
		case tok == "@if" || tok == "@elseif":
			e, end, ok := cond(to)
			if !ok {
				return nil, "a condition of the page is not resolved"
			}
			at = end
			in, els := -1, -1
			switch {
			case flag(e):
				in, els = 1, 0
			case strings.HasPrefix(e, "!") && flag(strings.TrimSpace(e[1:])):
				in, els = 0, 1
			case strings.Contains(e, "&&") || strings.Contains(e, "||"):
				return nil, "a condition of the page is not resolved"
			}
			idents(e, from, gate())
			if tok == "@if" {
				stack = append(stack, frame{in: in, els: els})
			} else if len(stack) > 0 {
				f := &stack[len(stack)-1]
				if f.els >= 0 {
					f.in = f.els
				} else {
					f.in, f.els = in, els
				}
			}
		case tok == "@else":
			if len(stack) == 0 {
				return nil, "an @else of the page is not resolved"
			}
			stack[len(stack)-1].in = stack[len(stack)-1].els
		case tok == "@end":
			if len(stack) == 0 {
				return nil, "an @end of the page is not resolved"
			}
			stack = stack[:len(stack)-1]
		case tok == "@each" || tok == "@for" || tok == "@use" || tok == "@component" || tok == "@insert" || tok == "@slot" || tok == "@reserve" || tok == "@dump":
			return nil, "the directive " + tok + " of the page is not resolved"
		}
	}
	if len(stack) > 0 {
		return nil, "a condition of the page is not closed"
	}
	return uses, ""
}

// debugConfig checks how the debug flag is set.
func (c *Checker) debugConfig() {
	_, cfg := c.userConf()
	f := c.p.fn("", "Configure")
	if cfg == nil || f == nil {
		c.und("config", "Configure", "anchor not found")
		return
	}
	init := c.objField(&Path{St: c.p.gmem}, cfg, "config.Config", "DebugMode")
	switch {
	case init == nil:
		c.und("config", "initial", "the initial debug mode is not resolved")
	case init.isFalse():
		c.ok("config", "initial", f.Pos())
	default:
		c.bad("config", "initial", f.Pos(), "debug mode is %s before it is configured", init.Sym)
	}
	er := c.fnRun(f, []string{"opt"}, runOpts{}, nil)
	er.names[cfg] = "config"
	cr := c.newCase("config", "Configure")
	for _, p := range er.paths {
		if p.Outcome != "return" {
			continue
		}
		r := er.specRenderer(p)
		optNil := p.Facts.decide(c.p, mkEq(er.args[0], mkNil())) == 1
		for _, fl := range []string{"DebugMode", "ErrorPagePath"} {
			v, has := p.St.mem[mkFieldAddr("config.Config."+fl, cfg, nil)]
			got := "unchanged"
			if has {
				got = r.str(v)
			}
			r2 := er.specRenderer(p)
			r2.facts = &Facts{}
			if has {
				got = r2.str(v)
			}
			want := "opt." + fl
			val, known := -1, false
			if fl == "DebugMode" {
				if t := c.fld(er.args[0], fl); t != nil {
					val = p.Facts.decide(c.p, t)
				}
				known = has && (v.isTrue() && val == 1 || v.isFalse() && val == 0)
			}
			empty := fl == "ErrorPagePath" && c.emptyStr(p, c.fld(er.args[0], fl))
			switch {
			case got == want || known:
				cr.add(vOK, lastPos(p), "")
			case optNil && got == "unchanged":
				cr.add(vOK, lastPos(p), "")
			case empty && (got == "unchanged" || got == `""`):
				cr.add(vOK, lastPos(p), "")
			case er.factsKnown(p) && (got == "unchanged" || c.resolved(p, v, func(t *Term) bool { return t == er.args[0] || t == cfg })):
				cr.add(vBad, lastPos(p), "the configured "+fl+" is "+got+", expected "+want)
			default:
				cr.add(vUnd, lastPos(p), "the configured "+fl+" is "+got)
			}
		}
	}
	cr.done()
	// nothing else sets the flag
	for _, g := range c.p.funcs {
		if g == f || g.Name() == "init" && g.Synthetic != "" {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				cl, base := rootClass(s.Addr)
				if cl != "config.Config.DebugMode" && cl != "config.Config.ErrorPagePath" {
					continue
				}
				if _, local := base.(*ssa.Alloc); local {
					continue
				}
				if ld, ok := base.(*ssa.UnOp); ok && ld.Op == token.MUL {
					if _, isG := ld.X.(*ssa.Global); isG {
						if c.calledFrom(g, f) {
							continue
						}
						c.bad("config", c.p.fullName(g), s.Pos(), "%s is written outside of Configure", cl)
						continue
					}
				}
			}
		}
	}
}

// calledFrom: g is a helper of f.
func (c *Checker) calledFrom(g, f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == g {
				return true
			}
		}
	}
	return false
}

func (c *Checker) emptyStr(p *Path, t *Term) bool {
	return t != nil && (p.Facts.decide(c.p, mkEq(t, mkStr(""))) == 1 || p.Facts.decide(c.p, mkEq(mkLen(t), mkInt(0))) == 1)
}

func isBoolTerm(t *Term) bool {
	switch t.Op {
	case "==", "<", "!", "&&", "||", "f<", "f<=", "s<", "s<=":
		return true
	}
	if t.Typ == nil {
		return false
	}
	b, ok := t.Typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
