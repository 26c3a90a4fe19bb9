package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"html"
	"html/template"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C10: string literals reach the output HTML-escaped.

func init() { checks["C10"] = checkC10 }

func checkC10(c *Checker) {
	c.rule("escape", "the value of a string literal is a map of its bytes, one by one: < > and & become entities, every other byte (quotes included) stays itself, and unescaping an image gives back the byte")
	c.rule("only", "no other instruction of the evaluation makes a string value out of the text of a literal")
	c.rule("lexing", "a string token holds the bytes between the quotes, with only an escaped quote of its own kind rewritten")
	c.rule("parse", "the literal of a string node is the literal of its token")
	c.rule("raw", "raw() gives the unescaped text of its receiver; a call finds it before any custom function")
	c.rule("flow", "printing, concatenation, assignment, inserts, components, arrays and objects pass the value on unchanged")
	c.literalEscape("escape")
	c.literalReads("only")
	m := c.nextToken()
	m.strings("lexing")
	pr := c.parser()
	prefix, _, ok := pr.registrations()
	switch {
	case !ok:
		c.und("parse", "literal STR", "the registration of parse functions is not resolved")
	case prefix["STR"] == nil:
		c.bad("parse", "literal STR", token.NoPos, "no parse function is registered for strings")
	default:
		pr.checkParse("parse", "literal STR", prefix["STR"], "STR", []parseAlt{{trace: ``, node: "StringLiteral{Value: cur0.Literal}"}})
	}
	if f := c.builtinTable()["STRING.raw"]; f != nil {
		c.rawContract(f)
	} else if tc := c.typeConst("*object.Str"); tc != nil {
		if tn, ok := tc.strVal(); ok {
			if f := c.builtinTable()[tn+".raw"]; f != nil {
				c.rawContract(f)
			} else {
				c.und("raw", "Str.raw", "the built-in is not in the function table")
			}
		}
	}
	c.callRules("raw", true)
	c.evalInfixOf("flow", []string{"+"}, []string{"*object.Str"})
	c.printing("flow", "Str")
	c.specLists("flow")
	c.specAssign("flow")
	c.specText("flow")
	c.specProgram("flow")
	c.specBlock("flow")
	c.specTernary("flow")
	c.specReserve("flow")
	c.specUse("flow")
	c.specComponent("flow")
	c.specEach("flow")
	c.contentPrinting("flow", "HTML", "Block", "Use", "Component", "Reserve", "Slot")
	c.lookupRules("flow")
	c.entries("flow")
}

func (c *Checker) rawContract(f *ssa.Function) {
	b := c.newBuiltin("*object.Str", "raw", f)
	if b == nil {
		c.und("raw", "Str.raw", "the function has an unexpected form")
		return
	}
	if c.rawInverts(b) {
		return
	}
	for _, bc := range b.cases() {
		b.checkRule("raw", "Str.raw", bc)
	}
}

// rawInverts: raw() as a map of bytes after the escaping of literals gives
// every byte of the literal back; false when it is not such a map.
func (c *Checker) rawInverts(b *bfun) bool {
	R := b.R()
	if R == nil || !b.er.complete {
		return false
	}
	type res struct {
		p   *Path
		why string
	}
	var all []res
	for _, p := range b.er.paths {
		if p.Outcome == "panic" {
			continue
		}
		if p.Outcome != "return" || len(p.Ret) != 2 || b.er.nilRet(p.Facts, p.Ret[1]) != 1 || !b.er.factsKnown(p) {
			return false
		}
		got := c.objField(p, p.Ret[0], "object.Str", "Value")
		if got == nil && p.Ret[0] == b.recv {
			got = R
		}
		if got == nil {
			return false
		}
		base := identity().each(strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;").Replace)
		absent := c.absentBytes(p.Facts, R)
		for x, s := range base.img {
			for i := 0; i < len(s); i++ {
				base.not[x] = base.not[x] || absent[s[i]]
			}
		}
		m, w := c.imagesOf(got, R, base)
		switch {
		case m == nil && w == "":
			return false
		case m == nil:
			all = append(all, res{p, fmt.Sprintf("raw() of the literal %q is not the literal", w)})
		default:
			r := res{p, ""}
			for x, s := range m.img {
				if !m.not[x] && s != string([]byte{byte(x)}) {
					r.why = fmt.Sprintf("raw() of the literal %q gives %q", string([]byte{byte(x)}), s)
					break
				}
			}
			all = append(all, r)
		}
	}
	if len(all) == 0 {
		return false
	}
	cr := c.newCase("raw", "Str.raw: gives the literal back")
	for _, r := range all {
		if r.why != "" {
			cr.add(vBad, lastPos(r.p), r.why)
		} else {
			cr.add(vOK, lastPos(r.p), "")
		}
	}
	cr.done()
	return true
}

// ------------------------------------------------------------ byte images

// images is a map of bytes to strings applied to a text byte by byte; not is
// the set of bytes that the text is known not to contain.
type images struct {
	img [256]string
	not [256]bool
}

func identity() *images {
	m := &images{}
	for b := range m.img {
		m.img[b] = string([]byte{byte(b)})
	}
	return m
}

// each applies a function that works on the bytes one by one.
func (m *images) each(f func(string) string) *images {
	r := &images{not: m.not}
	for b, s := range m.img {
		r.img[b] = f(s)
	}
	return r
}

// straddles finds a text whose image contains old across several images.
func (m *images) straddles(old string) (string, bool) {
	type st struct {
		pos  int
		text string
	}
	var queue []st
	seen := map[int]bool{}
	push := func(s st) {
		if !seen[s.pos] {
			seen[s.pos] = true
			queue = append(queue, s)
		}
	}
	for b, s := range m.img {
		if m.not[b] {
			continue
		}
		for off := range s {
			if t := s[off:]; len(t) < len(old) && strings.HasPrefix(old, t) {
				push(st{len(t), string([]byte{byte(b)})})
			}
		}
	}
	for len(queue) > 0 {
		q := queue[0]
		queue = queue[1:]
		rest := old[q.pos:]
		for b, s := range m.img {
			if m.not[b] || s == "" {
				continue
			}
			w := q.text + string([]byte{byte(b)})
			switch {
			case strings.HasPrefix(s, rest):
				return w, true
			case strings.HasPrefix(rest, s):
				push(st{q.pos + len(s), w})
			}
		}
	}
	return "", false
}

// replace applies a replacer of constant strings.
func (m *images) replace(pairs []string) (*images, string) {
	for i := 0; i < len(pairs); i += 2 {
		if pairs[i] == "" {
			return nil, ""
		}
		if w, ok := m.straddles(pairs[i]); ok {
			return nil, w
		}
	}
	return m.each(strings.NewReplacer(pairs...).Replace), ""
}

// closed: every & of an image starts an entity that ends in the image.
func closed(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] != '&' {
			continue
		}
		j := strings.IndexByte(s[i:], ';')
		if j < 0 || html.UnescapeString(s[i:i+j+1]) == s[i:i+j+1] {
			return false
		}
		i += j
	}
	return true
}

// imageFault says what is wrong with the image of a text, "" if nothing is.
func imageFault(text, out string) string {
	switch {
	case strings.ContainsAny(out, "<>"):
		return "the output has a raw < or >"
	case html.UnescapeString(out) != text:
		return fmt.Sprintf("unescaping the output gives %q", html.UnescapeString(out))
	case !closed(out):
		return "an & of the literal is not an entity"
	case strings.Count(out, `"`) != strings.Count(text, `"`) || strings.Count(out, "'") != strings.Count(text, "'"):
		return "a quote does not stay as written"
	}
	return ""
}

// escapeTerm interprets a term over the text V as a map of bytes; witness is a
// text on which the term is not such a map.
func (c *Checker) escapeTerm(t, V *Term, not [256]bool) (m *images, witness string) {
	m = identity()
	m.not = not
	return c.imagesOf(t, V, m)
}

// imagesOf: base is the map that gives V.
func (c *Checker) imagesOf(t, V *Term, base *images) (m *images, witness string) {
	if t == V {
		return base, ""
	}
	if t.Op != "call" {
		return nil, ""
	}
	n := strings.SplitN(t.Sym, "#", 2)[0]
	var in *Term
	for _, a := range t.Args {
		if a == V || a.Op == "call" && isString(a.Typ) && hasTerm(a, V) {
			in = a
		}
	}
	if in == nil {
		return nil, ""
	}
	if m, witness = c.imagesOf(in, V, base); m == nil {
		return nil, witness
	}
	switch n {
	case "html.EscapeString":
		return m.each(html.EscapeString), ""
	case "html/template.HTMLEscapeString", "template.HTMLEscapeString", "text/template.HTMLEscapeString":
		return m.each(template.HTMLEscapeString), ""
	case "html.UnescapeString":
		for b, s := range m.img {
			if !m.not[b] && !closed(s) {
				return nil, "&lt;"
			}
		}
		return m.each(html.UnescapeString), ""
	}
	if pairs, ok := c.replacerOf(t, in); ok {
		return m.replace(pairs)
	}
	return nil, ""
}

// replacerOf reads a call that replaces all occurrences of constants.
func (c *Checker) replacerOf(t, in *Term) ([]string, bool) {
	n := strings.SplitN(t.Sym, "#", 2)[0]
	switch n {
	case "strings.ReplaceAll", "strings.Replace":
		if len(t.Args) < 3 || t.Args[0] != in {
			return nil, false
		}
		if n == "strings.Replace" {
			if k, ok := t.Args[3].intVal(); !ok || k >= 0 {
				return nil, false
			}
		}
		o, ok1 := t.Args[1].strVal()
		w, ok2 := t.Args[2].strVal()
		return []string{o, w}, ok1 && ok2
	case "(*strings.Replacer).Replace":
		if len(t.Args) != 2 || t.Args[1] != in {
			return nil, false
		}
		r := t.Args[0]
		if r.Op == "init" {
			if v, ok := c.p.gmem.mem[r.Args[0]]; ok {
				r = v
			}
		}
		if r.Op != "call" || !strings.HasPrefix(r.Sym, "strings.NewReplacer") || len(r.Args) != 1 || r.Args[0].Op != "slicelit" {
			return nil, false
		}
		var pairs []string
		for _, a := range r.Args[0].Args[1:] {
			s, ok := a.strVal()
			if !ok {
				return nil, false
			}
			pairs = append(pairs, s)
		}
		return pairs, len(pairs)%2 == 0
	}
	return nil, false
}

func hasTerm(t, x *Term) bool {
	found := false
	t.walk(func(y *Term) bool { found = found || y == x; return !found })
	return found
}

// fold computes a term under constants for some of its parts.
func (c *Checker) fold(t *Term, env map[*Term]constant.Value) (constant.Value, bool) {
	if v, ok := env[t]; ok {
		return v, true
	}
	if t.Op == "const" {
		v, ok := t.Obj.(constant.Value)
		return v, ok
	}
	str := func(i int) (string, bool) {
		if i >= len(t.Args) {
			return "", false
		}
		v, ok := c.fold(t.Args[i], env)
		if !ok || v.Kind() != constant.String {
			return "", false
		}
		return constant.StringVal(v), true
	}
	num := func(i int) (int64, bool) {
		if i >= len(t.Args) {
			return 0, false
		}
		v, ok := c.fold(t.Args[i], env)
		if !ok || v.Kind() != constant.Int {
			return 0, false
		}
		n, ok := constant.Int64Val(v)
		return n, ok
	}
	switch t.Op {
	case "==":
		a, ok1 := c.fold(t.Args[0], env)
		b, ok2 := c.fold(t.Args[1], env)
		if ok1 && ok2 && a.Kind() == b.Kind() {
			return constant.MakeBool(constant.Compare(a, token.EQL, b)), true
		}
	case "<":
		a, ok1 := num(0)
		b, ok2 := num(1)
		return constant.MakeBool(a < b), ok1 && ok2
	case "not":
		if v, ok := c.fold(t.Args[0], env); ok && v.Kind() == constant.Bool {
			return constant.MakeBool(!constant.BoolVal(v)), true
		}
	case "len":
		s, ok := str(0)
		return constant.MakeInt64(int64(len(s))), ok
	case "sidx":
		s, ok1 := str(0)
		i, ok2 := num(1)
		if ok1 && ok2 && i >= 0 && i < int64(len(s)) {
			return constant.MakeInt64(int64(s[i])), true
		}
	case "cat":
		s := ""
		for i := range t.Args {
			x, ok := str(i)
			if !ok {
				return nil, false
			}
			s += x
		}
		return constant.MakeString(s), true
	case "bytestr":
		n, ok := num(0)
		return constant.MakeString(string([]byte{byte(n)})), ok
	case "conv":
		if t.Sym == "string" {
			if n, ok := num(0); ok {
				return constant.MakeString(string(rune(n))), true
			}
		}
		return c.fold(t.Args[0], env)
	case "call":
		n := strings.SplitN(t.Sym, "#", 2)[0]
		x, ok := str(0)
		if strings.HasPrefix(n, "(*strings.Replacer)") {
			x, ok = str(1)
		}
		if !ok {
			return nil, false
		}
		y, yok := str(1)
		switch n {
		case "html.EscapeString":
			return constant.MakeString(html.EscapeString(x)), true
		case "html.UnescapeString":
			return constant.MakeString(html.UnescapeString(x)), true
		case "html/template.HTMLEscapeString", "template.HTMLEscapeString":
			return constant.MakeString(template.HTMLEscapeString(x)), true
		case "strings.ContainsAny":
			return constant.MakeBool(strings.ContainsAny(x, y)), yok
		case "strings.Contains":
			return constant.MakeBool(strings.Contains(x, y)), yok
		case "strings.HasPrefix":
			return constant.MakeBool(strings.HasPrefix(x, y)), yok
		case "strings.HasSuffix":
			return constant.MakeBool(strings.HasSuffix(x, y)), yok
		case "strings.IndexAny":
			return constant.MakeInt64(int64(strings.IndexAny(x, y))), yok
		case "strings.Index":
			return constant.MakeInt64(int64(strings.Index(x, y))), yok
		case "strings.Count":
			return constant.MakeInt64(int64(strings.Count(x, y))), yok
		case "strings.TrimSpace":
			return constant.MakeString(strings.TrimSpace(x)), true
		case "strings.ToLower":
			return constant.MakeString(strings.ToLower(x)), true
		case "strings.ToUpper":
			return constant.MakeString(strings.ToUpper(x)), true
		case "strings.EqualFold":
			return constant.MakeBool(strings.EqualFold(x, y)), yok
		case "strings.TrimPrefix":
			return constant.MakeString(strings.TrimPrefix(x, y)), yok
		case "strings.TrimSuffix":
			return constant.MakeString(strings.TrimSuffix(x, y)), yok
		case "strings.Trim":
			return constant.MakeString(strings.Trim(x, y)), yok
		case "strings.TrimLeft":
			return constant.MakeString(strings.TrimLeft(x, y)), yok
		case "strings.TrimRight":
			return constant.MakeString(strings.TrimRight(x, y)), yok
		case "strings.IndexByte", "strings.IndexRune":
			if k, ok := num(1); ok {
				return constant.MakeInt64(int64(strings.IndexRune(x, rune(k)))), true
			}
		}
		if n == "strings.Replace" && len(t.Args) == 4 {
			o, ok1 := str(1)
			w, ok2 := str(2)
			k, ok3 := num(3)
			if ok1 && ok2 && ok3 {
				return constant.MakeString(strings.Replace(x, o, w, int(k))), true
			}
		}
		in := t.Args[0]
		if n == "(*strings.Replacer).Replace" && len(t.Args) == 2 {
			in = t.Args[1]
		}
		if pairs, ok := c.replacerOf(t, in); ok {
			return constant.MakeString(strings.NewReplacer(pairs...).Replace(x)), true
		}
	}
	return nil, false
}

// escapeWitnesses are texts on which wrong escapings differ from the right
// one; they only name a failing input, they never establish the rule.
var escapeWitnesses = []string{"<", ">", "&", `"`, "'", "&lt;", "&amp;", "&amp;lt;", "&#34;", "&#39;", "&quot;", "&apos;", "<b>", `<a href="x">`, "a&b", "a < b && c > d", "&nbsp;", "&lt", "&amp", "&;", "\x00", "é", "a", " a ", "A", "<script>", "&#60;", "&gt;", "1 < 2", "\\", "&amp;#34;", "&amp;#39;", `""`, "''", "<<", ">>", "&&"}

// literalEscape: the value of a string literal is its escaped text.
func (c *Checker) literalEscape(rule string) {
	const name = "value of a string literal"
	er := c.evalPaths("*ast.StringLiteral", runOpts{})
	if er == nil || er.field("Value") == nil {
		c.und(rule, name, "anchor not found")
		return
	}
	V := er.field("Value")
	cr := c.newCase(rule, name)
	if !er.complete {
		cr.add(vUnd, 0, "path enumeration is incomplete")
	}
	c.paths += len(er.paths)
	loop := false
	for _, p := range er.paths {
		loop = loop || p.Outcome == "back"
	}
	for _, p := range er.paths {
		if p.Outcome != "return" {
			continue
		}
		ret := er.ret(p)
		got := c.objField(p, ret, "object.Str", "Value")
		if got == nil {
			k := c.kindOf(p.Facts, ret)
			if k != "" && k != "*object.Str" {
				cr.add(vBad, lastPos(p), "a string literal evaluates to "+er.renderer(p).str(ret))
			} else {
				cr.add(vUnd, lastPos(p), "the result "+er.renderer(p).str(ret)+" is not resolved")
			}
			continue
		}
		if loop && (got.Op == "loopv" || got.Op == "loopm") {
			c.loopEscape(cr, er, p, got, V)
			continue
		}
		m, w := c.escapeTerm(got, V, c.absentBytes(p.Facts, V))
		why := ""
		if m != nil {
			why = m.fault()
			if why == "" {
				cr.add(vOK, lastPos(p), "")
				continue
			}
		}
		// name an input
		ws := escapeWitnesses
		if w != "" {
			ws = append([]string{w}, ws...)
		}
		if m != nil {
			for b := range m.img {
				ws = append(ws, string([]byte{byte(b)}))
			}
		}
		found := false
		for _, w := range ws {
			env := map[*Term]constant.Value{V: constant.MakeString(w)}
			if !c.pathTakes(p, env) {
				continue
			}
			out, ok := c.fold(got, env)
			if !ok || out.Kind() != constant.String {
				continue
			}
			if bad := imageFault(w, constant.StringVal(out)); bad != "" {
				cr.add(vBad, lastPos(p), fmt.Sprintf("the literal %q gives %q: %s", w, constant.StringVal(out), bad))
				found = true
				break
			}
		}
		if !found {
			if why == "" {
				why = "the value " + clip(er.renderer(p).str(got), 200) + " is not resolved"
			}
			cr.add(vUnd, lastPos(p), why)
		}
	}
	cr.done()
}

func (m *images) fault() string {
	for b, s := range m.img {
		if m.not[b] {
			continue
		}
		if w := imageFault(string([]byte{byte(b)}), s); w != "" {
			return fmt.Sprintf("the byte %q gives %q: %s", string([]byte{byte(b)}), s, w)
		}
	}
	return ""
}

// pathTakes: every condition of the path holds for the constants.
func (c *Checker) pathTakes(p *Path, env map[*Term]constant.Value) bool {
	for b, v := range p.Facts.bools {
		r, ok := c.fold(b, env)
		if !ok || r.Kind() != constant.Bool || constant.BoolVal(r) != v {
			return false
		}
	}
	return true
}

// absentBytes are the bytes that a text cannot contain on a path.
func (c *Checker) absentBytes(f *Facts, V *Term) [256]bool {
	var not [256]bool
	add := func(s string) {
		for i := 0; i < len(s); i++ {
			not[s[i]] = true
		}
	}
	index := func(t *Term) (string, bool) {
		if t.Op != "call" || len(t.Args) != 2 || t.Args[0] != V {
			return "", false
		}
		switch strings.SplitN(t.Sym, "#", 2)[0] {
		case "strings.IndexAny":
			return t.Args[1].strVal()
		case "strings.Index":
			s, ok := t.Args[1].strVal()
			return s, ok && len(s) == 1
		case "strings.IndexByte", "strings.IndexRune":
			n, ok := t.Args[1].intVal()
			return string(rune(n)), ok && n < 128
		}
		return "", false
	}
	for b, v := range f.bools {
		switch {
		case b.Op == "call" && !v && len(b.Args) == 2 && b.Args[0] == V:
			s, ok := b.Args[1].strVal()
			n := strings.SplitN(b.Sym, "#", 2)[0]
			ascii := true
			for i := 0; i < len(s); i++ {
				ascii = ascii && s[i] < 128
			}
			if ok && (n == "strings.ContainsAny" && ascii || n == "strings.Contains" && len(s) == 1) {
				add(s)
			}
			if n == "strings.ContainsRune" {
				if k, ok := b.Args[1].intVal(); ok && k < 128 {
					add(string(rune(k)))
				}
			}
		case b.Op == "==" && v:
			for i := range b.Args {
				if k, ok := b.Args[1-i].intVal(); ok && k == -1 {
					if s, ok := index(b.Args[i]); ok {
						add(s)
					}
				}
			}
		case b.Op == "<" && v:
			if k, ok := b.Args[1].intVal(); ok && k <= 0 {
				if s, ok := index(b.Args[0]); ok {
					add(s)
				}
			}
		case b.Op == "<" && !v:
			if k, ok := b.Args[0].intVal(); ok && k == -1 {
				if s, ok := index(b.Args[1]); ok {
					add(s)
				}
			}
		}
	}
	return not
}

// loopEscape: a loop over the bytes or characters of the literal appends the
// image of each.
func (c *Checker) loopEscape(cr *caseRun, er *evalRun, p *Path, acc, V *Term) {
	pos := lastPos(p)
	id, _, _ := strings.Cut(acc.Sym, ".")
	// the element that a pass looks at
	var elem *Term
	chars := false
	k := mkLoopK(id)
	var backs []*Path
	for _, q := range er.paths {
		if q.Outcome != "back" || q.Loop != id {
			continue
		}
		backs = append(backs, q)
		for b := range q.Facts.bools {
			b.walk(func(t *Term) bool {
				switch {
				case t.Op == "rrune" && len(t.Args) == 1 && t.Args[0] == V:
					elem, chars = t, true
				case len(t.Args) == 2 && t.Args[1] == k && t.Op != "<" && t.Op != "&i" && (t.Args[0] == V || t.Args[0].Op == "conv" && t.Args[0].Args[0] == V):
					elem = t
					chars = t.Args[0].Op == "conv" && t.Args[0].Sym == "[]rune"
				case t.Op == "init" && t.Args[0].Op == "&i" && t.Args[0].Args[1] == k && t.Args[0].Args[0].Op == "conv" && t.Args[0].Args[0].Args[0] == V:
					elem = t
					chars = t.Args[0].Args[0].Sym == "[]rune"
				}
				return true
			})
		}
	}
	if elem == nil || len(backs) == 0 {
		cr.add(vUnd, pos, "the loop that builds the value is not over the bytes of the literal")
		return
	}
	// it starts empty, covers the whole text and nothing else ends it
	for _, ev := range p.Events {
		switch {
		case ev.Kind == "loop" && ev.Loop != id:
			cr.add(vUnd, pos, "several loops")
			return
		case ev.Kind == "acc" && ev.Loop == id && ev.Addr == acc.Args1() && ev.Val != mkStr(""):
			if s, ok := ev.Val.strVal(); ok {
				cr.add(vBad, pos, fmt.Sprintf("the value starts as %q", s))
			} else {
				cr.add(vUnd, pos, "the value does not start empty")
			}
			return
		case ev.Kind == "loop":
			if _, name, _ := strings.Cut(acc.Sym, "."); acc.Op == "loopv" {
				if v := ev.Vals[strings.TrimSuffix(name, "()")]; v != nil && v != mkStr("") {
					cr.add(vUnd, pos, "the value does not start empty")
					return
				}
			}
		}
	}
	ended := false
	for b, v := range p.Facts.bools {
		if v {
			continue
		}
		if b.Op == "more" && len(b.Args) == 1 && b.Args[0] == V && elem.Op == "rrune" {
			ended = true
		}
		if b.Op == "<" && b.Args[0] == k && b.Args[1].Op == "len" {
			x := b.Args[1].Args[0]
			ended = ended || x == V || x.Op == "conv" && x.Args[0] == V
		}
	}
	if !ended {
		cr.add(vUnd, pos, "it is not known that the loop covers the literal")
		return
	}
	m := identity()
	for b := 0; b < 256; b++ {
		if chars && b >= 128 {
			m.not[b] = true // several bytes make one character
			continue
		}
		env := map[*Term]constant.Value{elem: constant.MakeInt64(int64(b))}
		var img *string
		for _, q := range backs {
			feasible, known := true, true
			for f, v := range q.Facts.bools {
				if !hasTerm(f, elem) {
					if f.Op == "more" || f.Op == "<" && f.Args[0] == k {
						continue
					}
					known = false
					continue
				}
				r, ok := c.fold(f, env)
				if !ok || r.Kind() != constant.Bool {
					known = false
				} else if constant.BoolVal(r) != v {
					feasible = false
				}
			}
			if !feasible {
				continue
			}
			s, ok := c.stepImage(q, acc, env)
			if !ok || !known || img != nil && *img != s {
				cr.add(vUnd, pos, fmt.Sprintf("what the byte %q adds is not resolved", string([]byte{byte(b)})))
				return
			}
			img = &s
		}
		if img == nil {
			cr.add(vUnd, pos, fmt.Sprintf("no pass for the byte %q", string([]byte{byte(b)})))
			return
		}
		m.img[b] = *img
	}
	if w := m.fault(); w != "" {
		cr.add(vBad, pos, w)
		return
	}
	if chars {
		// characters of several bytes: appended as they are
		env := map[*Term]constant.Value{elem: constant.MakeInt64(0x10FFFE)}
		for _, q := range backs {
			feasible := true
			for f, v := range q.Facts.bools {
				if r, ok := c.fold(f, env); ok && r.Kind() == constant.Bool && constant.BoolVal(r) != v {
					feasible = false
				}
			}
			if !feasible {
				continue
			}
			if s, ok := c.stepImage(q, acc, env); !ok || s != string(rune(0x10FFFE)) {
				cr.add(vUnd, pos, "what other characters add is not resolved")
				return
			}
		}
	}
	cr.add(vOK, pos, "")
}

// Args1 is the first argument of a term, nil if it has none.
func (t *Term) Args1() *Term {
	if len(t.Args) == 0 {
		return nil
	}
	return t.Args[0]
}

// stepImage is the text that a pass appends to the accumulated value.
func (c *Checker) stepImage(q *Path, acc *Term, env map[*Term]constant.Value) (string, bool) {
	var v *Term
	if acc.Op == "loopm" {
		v = q.St.mem[acc.Args[0]]
	} else {
		_, name, _ := strings.Cut(acc.Sym, ".")
		v = q.Vals[name]
		if v == nil {
			v = q.Vals[strings.TrimSuffix(name, "()")]
		}
	}
	if v == nil {
		return "", false
	}
	if v == acc {
		return "", true
	}
	if v.Op != "cat" || v.Args[0] != acc {
		return "", false
	}
	r, ok := c.fold(mkCat(v.Args[1:]...), env)
	if !ok || r.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(r), true
}

// --------------------------------------------------- other uses of a literal

// literalReads: the text of a literal, read anywhere else in the evaluator or
// the objects, does not become a string value.
func (c *Checker) literalReads(rule string) {
	own := map[*ssa.Function]bool{}
	if er := c.evalPaths("*ast.StringLiteral", runOpts{}); er != nil {
		for _, p := range er.paths {
			for _, ev := range p.Events {
				if ev.Kind == "enter" {
					for _, f := range c.p.funcs {
						if c.p.fullName(f) == ev.Fn {
							own[f] = true
						}
					}
				}
			}
		}
	}
	n := 0
	for _, f := range c.p.funcs {
		pk, _, _ := strings.Cut(c.p.fullName(f), ".")
		if own[f] || pk == "parser" || pk == "lexer" || pk == "ast" || !c.p.inRepo(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				src := literalSource(in)
				if src == nil {
					continue
				}
				n++
				name := fmt.Sprintf("literal read in %s", c.p.fullName(f))
				if at := c.becomesString(src, map[ssa.Value]bool{}, 0); at != nil {
					c.bad(rule, name, at.Pos(), "the text of a string literal becomes a string value without escaping (read at %s)", c.where(in.Pos()))
				} else {
					c.ok(rule, name, in.Pos())
				}
			}
		}
	}
	c.ok(rule, fmt.Sprintf("%d other reads of literals", n), token.NoPos)
}

// literalSource is the text of a literal that an instruction reads.
func literalSource(in ssa.Instruction) ssa.Value {
	switch x := in.(type) {
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return nil
		}
		fa, ok := x.X.(*ssa.FieldAddr)
		if !ok || fieldAddrName(fa) != "ast.StringLiteral.Value" {
			return nil
		}
		return x
	case *ssa.Call:
		if g := x.Call.StaticCallee(); g != nil && strings.HasSuffix(g.String(), "ast.StringLiteral).String") {
			return x
		}
	}
	return nil
}

// becomesString follows a value forward to a store into object.Str.Value.
func (c *Checker) becomesString(v ssa.Value, seen map[ssa.Value]bool, depth int) ssa.Instruction {
	if seen[v] || depth > 6 || v.Referrers() == nil {
		return nil
	}
	seen[v] = true
	for _, in := range *v.Referrers() {
		var next ssa.Value
		switch x := in.(type) {
		case *ssa.Store:
			if fa, ok := x.Addr.(*ssa.FieldAddr); ok && x.Val == v && fieldAddrName(fa) == "object.Str.Value" {
				return x
			}
		case *ssa.BinOp:
			if x.Op == token.ADD {
				next = x
			}
		case *ssa.Phi, *ssa.ChangeType, *ssa.Slice, *ssa.Convert:
			next = x.(ssa.Value)
		case *ssa.Call:
			g := x.Call.StaticCallee()
			if g == nil {
				continue
			}
			if !c.p.inRepo(g) {
				if g.Pkg != nil && g.Pkg.Pkg.Path() == "strings" && isString(x.Type()) && g.Signature.Recv() == nil && !strings.HasPrefix(g.Name(), "Replace") {
					next = x
				}
				break
			}
			for i, a := range x.Call.Args {
				if a == v && i < len(g.Params) {
					if at := c.becomesString(g.Params[i], seen, depth+1); at != nil {
						return at
					}
				}
			}
		}
		if next != nil {
			if at := c.becomesString(next, seen, depth+1); at != nil {
				return at
			}
		}
	}
	return nil
}

// fieldAddrName is the owner and name of a field whose address is taken.
func fieldAddrName(fa *ssa.FieldAddr) string {
	pt, ok := fa.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return ""
	}
	return fieldOwner(pt.Elem(), fa.Field)
}
