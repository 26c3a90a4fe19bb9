package main

import (
	"fmt"
	"regexp"
	"strings"
)

// Rules on property access and indexing, and on the printing of values.

// upperRx matches the key with the first letter in upper case.
func upperOK(s, k string) int {
	q := regexp.QuoteMeta(k)
	d := `(?:unicode/utf8\.)?DecodeRuneInString\(` + q + `\)`
	good := []string{
		`cat\(string\(unicode\.(?:ToUpper|ToTitle)\(` + d + `#0\)\) ` + q + `\[` + d + `#1:\]\)`,
		`cat\(strings\.ToUpper\(` + q + `\[:` + d + `#1\]\) ` + q + `\[` + d + `#1:\]\)`,
	}
	for _, g := range good {
		if regexp.MustCompile("^" + g + "$").MatchString(s) {
			return 1
		}
	}
	bad := []string{
		`cat\(strings\.ToUpper\(` + q + `\[:1\]\) ` + q + `\[1:\]\)`,
		`strings\.(ToUpper|ToTitle|Title|ToLower)\(` + q + `\)`,
		`cat\(string\(unicode\.\w+\(\w*\(?` + q + `\[0\]\)*\) ` + q + `\[1:\]\)`,
		`cat\(string\(unicode\.ToLower\(` + d + `#0\)\) ` + q + `\[` + d + `#1:\]\)`,
	}
	for _, g := range bad {
		if regexp.MustCompile("^" + g + "$").MatchString(s) {
			return 0
		}
	}
	return -1
}

func (c *Checker) lookupRules(rule string) {
	for _, kind := range []string{"DotExp", "IndexExp"} {
		er := c.node(kind)
		if er == nil {
			c.und(rule, kind, "the evaluation was not found")
			continue
		}
		if !er.complete {
			c.und(rule, kind, "path enumeration is incomplete")
			continue
		}
		left := er.field("Left")
		if left == nil {
			c.und(rule, kind, "the fields of the node were not found")
			continue
		}
		type lc struct{ l, i string }
		cases := []lc{}
		for _, k := range c.objectKinds() {
			if k == "*object.Error" || c.p.isControl(k) {
				continue
			}
			if kind == "DotExp" {
				cases = append(cases, lc{k, ""})
				continue
			}
			for _, j := range c.objectKinds() {
				if j == "*object.Error" || c.p.isControl(j) {
					continue
				}
				cases = append(cases, lc{k, j})
			}
		}
		for _, x := range cases {
			name := kind + " of " + baseName(x.l)
			if x.i != "" {
				name += " with " + baseName(x.i)
			}
			cr := c.newCase(rule, name)
			for _, p := range er.paths {
				c.lookupPath(er, p, kind, left, x.l, x.i, cr)
			}
			cr.done()
		}
	}
}

func (p *Prog) isControl(k string) bool {
	return k == "*object.Break" || k == "*object.Continue" || k == "nil"
}

func (c *Checker) lookupPath(er *evalRun, p *Path, kind string, left *Term, lk, ik string, cr *caseRun) {
	f := p.Facts
	lev, _ := er.evalOf(p, left)
	if lev == nil {
		cr.add(vUnd, lastPos(p), "the left operand is not evaluated")
		return
	}
	L := lev.Res
	if f = c.withKind(f, L, lk); f == nil {
		return
	}
	var I *Term
	if kind == "IndexExp" {
		iev, _ := er.evalOf(p, er.field("Index"))
		if iev == nil {
			if p.Outcome == "return" {
				cr.add(vBad, lastPos(p), "the index is not evaluated")
			}
			return
		}
		I = iev.Res
		if f = c.withKind(f, I, ik); f == nil {
			return
		}
	}
	if p.Outcome == "panic" {
		return // C09
	}
	if p.Outcome != "return" || len(p.Ret) != 1 {
		cr.add(vUnd, lastPos(p), "a path is not resolved")
		return
	}
	ret := stripIface(er.ret(p))
	r := er.specRenderer(p)
	got := r.str(ret)
	isErr := er.isErr(f, er.ret(p)) == 1
	bad := func(format string, a ...any) {
		why := fmt.Sprintf(format, a...)
		if c.lookupKnown(er, p) && c.resolvedEval(er, p, er.ret(p)) || c.lookupKnown(er, p) && isErr {
			cr.add(vBad, lastPos(p), why)
		} else {
			cr.add(vUnd, lastPos(p), why)
		}
	}
	switch {
	case lk == "*object.Obj" && (kind == "DotExp" || ik == "*object.Str"):
		P := c.objFld(L, lk, "Pairs")
		if P == nil {
			cr.add(vUnd, lastPos(p), "the pairs are not resolved")
			return
		}
		K := c.keyTerm(er, p, f, kind, I)
		if K == nil {
			cr.add(vUnd, lastPos(p), "the key is not resolved")
			return
		}
		ks := r.str(K)
		hasK := -1
		is := func(b *Term) bool { return b.Op == "maphas" && stripEpoch(b.Args[0]) == P }
		for b := range f.bools {
			if is(b) && b.Args[1] == K {
				hasK = f.decide(c.p, b)
			}
		}
		// other keys looked for
		up, upTerm := -1, (*Term)(nil)
		strange := ""
		for b := range f.bools {
			if is(b) && b.Args[1] != K {
				s := r.str(b.Args[1])
				switch upperOK(s, ks) {
				case 1:
					up, upTerm = f.decide(c.p, b), b.Args[1]
				case 0:
					strange = "the key " + s + " is not the name with its first letter in upper case"
				default:
					strange = "?the key " + s + " is not resolved"
				}
			}
		}
		if strings.HasPrefix(strange, "?") {
			cr.add(vUnd, lastPos(p), strange[1:])
			return
		}
		if strange != "" {
			cr.add(vBad, lastPos(p), strange)
			return
		}
		empty := f.decide(c.p, mkEq(K, mkStr(""))) == 1 || f.decide(c.p, mkEq(mkLen(K), mkInt(0))) == 1 || er.noRune(p, K)
		switch {
		case ret.Op == "lookup" && stripEpoch(ret.Args[0]) == P && ret.Args[1] == K:
			if hasK == 1 {
				cr.add(vOK, lastPos(p), "")
				return
			}
			bad("the value of a missing key is used")
		case ret.Op == "lookup" && stripEpoch(ret.Args[0]) == P && upTerm != nil && ret.Args[1] == upTerm:
			switch {
			case hasK == 1:
				bad("another key than the given one is used although the given one exists")
			case hasK == -1:
				if c.lookupKnown(er, p) {
					cr.add(vBad, lastPos(p), "the name with its first letter in upper case comes before the given name")
				} else {
					cr.add(vUnd, lastPos(p), "the order of the keys is not resolved")
				}
			case up == 1:
				cr.add(vOK, lastPos(p), "")
			default:
				bad("the value of a missing key is used")
			}
		case isErr:
			switch {
			case hasK == 1 || up == 1:
				bad("an existing key is an error")
			case hasK == 0 && (up == 0 || empty):
				cr.add(vOK, lastPos(p), "")
			case hasK == 0:
				bad("the name with its first letter in upper case is not looked for")
			default:
				bad("the given name is not looked for")
			}
		default:
			bad("the value is %s, expected the entry of %s", got, ks)
		}
	case kind == "IndexExp" && lk == "*object.Array" && ik == "*object.Int":
		els, iv := c.objFld(L, lk, "Elements"), c.objFld(I, ik, "Value")
		if els == nil || iv == nil {
			cr.add(vUnd, lastPos(p), "the elements or the index are not resolved")
			return
		}
		low := f.decide(c.p, mkLess(iv, mkInt(0)))
		in := f.decide(c.p, mkLess(iv, mkLen(els)))
		want := r.str(els) + "[" + r.str(iv) + "]"
		switch {
		case got == want:
			if low == 0 && in == 1 {
				cr.add(vOK, lastPos(p), "")
				return
			}
			bad("an element outside of the array is used")
		case got == "Nil{}":
			if low == 1 || in == 0 {
				cr.add(vOK, lastPos(p), "")
				return
			}
			bad("the element of a position inside the array is nil")
		default:
			bad("the value is %s, expected %s", got, want)
		}
	default:
		if isErr {
			cr.add(vOK, lastPos(p), "")
			return
		}
		bad("the value is %s, expected an error", got)
	}
}

// noRune: the size of the first character is known to be zero.
func (er *evalRun) noRune(p *Path, k *Term) bool {
	for b, v := range p.Facts.bools {
		if b.Op != "<" && b.Op != "==" {
			continue
		}
		s := fmt.Sprint(b)
		if !strings.Contains(s, "DecodeRuneInString") {
			continue
		}
		if b.Op == "<" && b.Args[0].Sym == "i:0" && !v {
			return true
		}
		if b.Op == "==" && v && (b.Args[0].Sym == "i:0" || b.Args[1].Sym == "i:0") {
			return true
		}
	}
	return false
}

// keyTerm is the name that is looked for on a path.
func (c *Checker) keyTerm(er *evalRun, p *Path, f *Facts, kind string, I *Term) *Term {
	if kind == "DotExp" {
		key := er.field("Key")
		if key == nil {
			return nil
		}
		return c.objFldAny(key, "Value")
	}
	idx := er.field("Index")
	k := f.kind(c.p, idx)
	if n, ok := k.single(); ok && n == "*ast.StringLiteral" {
		return c.objFld(idx, "*ast.StringLiteral", "Value")
	}
	if k.has("*ast.StringLiteral") {
		// the value of the literal is escaped; both are the key of some paths
		return nil
	}
	return c.objFld(I, "*object.Str", "Value")
}

// objFldAny is a field of a node whose type is known from the code.
func (c *Checker) objFldAny(t *Term, field string) *Term {
	if t.Typ != nil {
		if _, isIface := t.Typ.Underlying().(interface{ NumMethods() int }); !isIface {
			if v := c.fld(t, field); v != nil {
				return v
			}
		}
	}
	return c.objFld(t, "*ast.Identifier", field)
}

// lookupKnown: what the path knows is about kinds, keys and positions.
func (c *Checker) lookupKnown(er *evalRun, p *Path) bool {
	ok := true
	for b := range p.Facts.bools {
		b.walk(func(t *Term) bool {
			switch t.Op {
			case "call":
				n, _, _ := strings.Cut(t.Sym, "#")
				if n != evalFn && !strings.Contains(n, "DecodeRuneInString") && n != "unicode.ToUpper" && !strings.HasPrefix(baseName(n), "Is") {
					ok = false
				}
			case "inv":
				n, _, _ := strings.Cut(t.Sym, "#")
				if n != "Is" && n != "Type" {
					ok = false
				}
			case "havoc", "unk", "dyn", "loopv":
				ok = false
			}
			return ok
		})
	}
	return ok
}

// printing: values print as the equal literals do.
func (c *Checker) printing(rule string, only ...string) {
	type pc struct {
		kind string
		want map[string]bool
		lib  string
	}
	const shortest = "strconv.FormatFloat(v.Value, 102, -1, 64)"
	for _, x := range []pc{
		{"*object.Int", map[string]bool{"fmt(%d v.Value)": true, "strconv.FormatInt(v.Value, 10)": true, "strconv.Itoa(int(v.Value))": true, "strconv.Itoa(v.Value)": true, "fmt(%v v.Value)": true, "fmt.Sprint(v.Value)": true}, "strconv."},
		{"*object.Str", map[string]bool{"v.Value": true, "fmt(%s v.Value)": true, "fmt(%v v.Value)": true}, ""},
		{"*object.Nil", map[string]bool{`""`: true}, ""},
		{"*object.Bool", nil, ""},
		{"*object.Float", nil, "strconv."},
	} {
		name := baseName(x.kind)
		if len(only) > 0 && !setOf(only)[name] {
			continue
		}
		m := c.p.method(x.kind, "String")
		er := c.fnRun(m, []string{"v"}, runOpts{}, nil)
		cr := c.newCase(rule, name)
		if er == nil || !er.complete {
			cr.add(vUnd, 0, "the printing is not resolved")
			cr.done()
			continue
		}
		for _, p := range er.paths {
			if p.Outcome != "return" || len(p.Ret) != 1 {
				cr.add(vUnd, lastPos(p), "a path is not resolved")
				continue
			}
			r := er.specRenderer(p)
			got := r.str(p.Ret[0])
			known := er.factsKnown(p) && c.resolved(p, p.Ret[0], func(t *Term) bool {
				n, _, _ := strings.Cut(t.Sym, "#")
				return t == er.args[0] || t.Op == "call" && (strings.HasPrefix(n, "strconv.") || strings.HasPrefix(n, "fmt.Sprint") || strings.HasPrefix(n, "html.") || strings.HasPrefix(n, "strings.") || strings.HasPrefix(n, "math."))
			}) && !strings.Contains(got, "?")
			bad := func(want string) {
				if known {
					cr.add(vBad, lastPos(p), "it prints "+got+", expected "+want)
				} else {
					cr.add(vUnd, lastPos(p), "it prints "+got)
				}
			}
			switch x.kind {
			case "*object.Bool":
				v := c.fld(er.args[0], "Value")
				if v == nil {
					cr.add(vUnd, lastPos(p), "the value is not resolved")
					continue
				}
				switch p.Facts.decide(c.p, v) {
				case 1:
					if got == `"1"` {
						cr.add(vOK, lastPos(p), "")
					} else {
						bad(`"1"`)
					}
				case 0:
					if got == `"0"` {
						cr.add(vOK, lastPos(p), "")
					} else {
						bad(`"0"`)
					}
				default:
					bad("1 or 0 by the value")
				}
			case "*object.Float":
				v := c.fld(er.args[0], "Value")
				if v == nil {
					cr.add(vUnd, lastPos(p), "the value is not resolved")
					continue
				}
				integral := er.integral(p, v)
				switch {
				case got == "fmt(%.1f v.Value)" || got == "strconv.FormatFloat(v.Value, 102, 1, 64)":
					if integral == 1 {
						cr.add(vOK, lastPos(p), "")
					} else {
						bad("all the digits of a number with a fraction")
					}
				case got == shortest:
					if integral == 0 {
						cr.add(vOK, lastPos(p), "")
					} else {
						bad("one digit after the point of a whole number")
					}
				case got == "cat("+shortest+` ".0")`:
					if integral == 1 {
						cr.add(vOK, lastPos(p), "")
					} else {
						bad("all the digits of a number with a fraction")
					}
				default:
					bad(shortest)
				}
			default:
				if x.want[got] {
					cr.add(vOK, lastPos(p), "")
				} else {
					w := ""
					for k := range x.want {
						if w == "" || len(k) < len(w) || len(k) == len(w) && k < w {
							w = k
						}
					}
					bad(w)
				}
			}
		}
		cr.done()
	}
}

// integral: the float is known to be whole (1) or not (0).
func (er *evalRun) integral(p *Path, v *Term) int {
	for b, val := range p.Facts.bools {
		if b.Op != "==" && b.Op != "f==" {
			continue
		}
		r := er.specRenderer(p)
		r.facts = &Facts{}
		s := [2]string{}
		for i, a := range b.Args {
			s[i] = r.str(a)
		}
		for i := range s {
			x, y := s[i], s[1-i]
			if x == "v.Value" && (y == "float64(int(v.Value))" || y == "float64(int64(v.Value))" || y == "math.Trunc(v.Value)" || y == "math.Floor(v.Value)") ||
				x == "0" && (y == "math.Mod(v.Value, 1)" || y == "math.Modf(v.Value)#1") {
				if val {
					return 1
				}
				return 0
			}
		}
	}
	return -1
}
