package main

import (
	"fmt"
	"go/token"
	"reflect"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C12: Go data is visible in the template with the same structure.

func init() { checks["C12"] = checkC12 }

func checkC12(c *Checker) {
	c.rule("kinds", "for every kind of Go value the conversion gives the object of the same shape: scalars exactly, unsigned integers up to the int64 range, interfaces and pointers transparently, every other kind nothing")
	c.rule("composite", "structs give every exported field under its name, maps every entry under its key, slices every element at its position; an unsupported value inside makes the whole unsupported")
	c.rule("sharing", "a value that is referenced twice is converted twice: the mark against cycles identifies the value and is taken back")
	c.rule("scope", "every entry of the data map is bound under its own key, in the scope of the render; an unsupported value is an error")
	c.rule("lookup", "a name finds the entry of that name or, failing that, the one with the first letter in upper case; a position finds the element at it")
	c.rule("printing", "values print as the equal literals do")
	c.rule("readonly", "no instruction reachable from the rendering entry points writes the caller's data")
	c.conversion()
	c.dataScope("scope")
	c.dataEntry("scope")
	c.lookupRules("lookup")
	c.printing("printing")
	c.dataWrites("readonly")
}

// converter is the recursive conversion that NativeToObject uses.
func (c *Checker) converter() (entry, conv *ssa.Function) {
	entry = c.p.fn("object", "NativeToObject")
	if entry == nil {
		return nil, nil
	}
	queue, seen := []*ssa.Function{entry}, map[*ssa.Function]bool{entry: true}
	for len(queue) > 0 {
		f := queue[0]
		queue = queue[1:]
		takes := false
		for _, prm := range f.Params {
			s := prm.Type().String()
			takes = takes || s == "reflect.Value" || s == "any" || s == "interface{}"
		}
		if takes && c.recursive(f) {
			return entry, f
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && c.p.inRepo(g) && !seen[g] {
						seen[g] = true
						queue = append(queue, g)
					}
				}
			}
		}
	}
	return entry, nil
}

// recursive: the function reaches itself through static calls.
func (c *Checker) recursive(f *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var rec func(g *ssa.Function) bool
	rec = func(g *ssa.Function) bool {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					h := ci.Common().StaticCallee()
					if h == nil || !c.p.inRepo(h) {
						continue
					}
					if h == f {
						return true
					}
					if !seen[h] {
						seen[h] = true
						if rec(h) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	return rec(f)
}

// conv is the analysis of the conversion of one value.
type conv struct {
	c       *Checker
	er      *evalRun
	fn      string // name of the converter
	entry   string
	vi      int
	V       *Term // the value
	parent  map[*Term]bool
	split   bool // the recursion is another function than the entry
	entryFn *ssa.Function
	names   func(p *Path) *renderer
}

// newConv enumerates the conversion of one value.
func (c *Checker) newConv(o runOpts) (*conv, string) {
	entry, f := c.converter()
	if f == nil {
		return nil, "the recursive conversion was not found"
	}
	cv := &conv{c: c, fn: c.p.fullName(f), entry: c.p.fullName(entry), vi: -1}
	for i, prm := range f.Params {
		if prm.Type().String() == "reflect.Value" {
			cv.vi = i
		}
	}
	byValue := cv.vi >= 0
	if !byValue {
		for i, prm := range f.Params {
			if s := prm.Type().String(); s == "any" || s == "interface{}" {
				cv.vi = i
			}
		}
	}
	voc := map[string]string{cv.fn: "nto"}
	if entry != f {
		voc[cv.entry] = "nto0"
		cv.split, cv.entryFn = true, entry
	}
	cv.er = c.fnRun(f, nil, o, voc)
	if cv.er == nil {
		return nil, "the conversion has no body"
	}
	c.paths += len(cv.er.paths)
	cv.V = cv.er.args[cv.vi]
	cv.er.names[cv.V] = "val"
	if !byValue {
		// the reflect.Value of the parameter
		var v *Term
		for _, p := range cv.er.paths {
			for b := range p.Facts.bools {
				b.walk(func(t *Term) bool {
					if t.Op == "call" && strings.HasPrefix(t.Sym, "reflect.ValueOf") && len(t.Args) == 1 && t.Args[0] == cv.V {
						v = t
					}
					return true
				})
			}
		}
		if v == nil {
			return nil, "the conversion does not go by reflection"
		}
		cv.er.names[v] = "val"
		cv.V = v
	}
	return cv, ""
}

func (c *Checker) conversion() {
	cv, why := c.newConv(runOpts{})
	if why != "" {
		c.und("kinds", "conversion", "%s", why)
		return
	}
	if cv.split {
		cv.entryRule(cv.entryFn)
	}
	if !cv.er.complete {
		c.und("kinds", "conversion", "path enumeration is incomplete")
		return
	}
	for k := reflect.Invalid; k <= reflect.UnsafePointer; k++ {
		if k == reflect.Uintptr {
			continue // not settled by the property
		}
		cv.kind(k)
	}
	cv.sharing()
}

// entryRule: NativeToObject converts its argument.
func (cv *conv) entryRule(entry *ssa.Function) {
	c := cv.c
	er := c.fnRun(entry, []string{"val"}, runOpts{}, map[string]string{cv.fn: "nto"})
	cr := c.newCase("kinds", "NativeToObject")
	for _, p := range er.paths {
		if p.Outcome != "return" || len(p.Ret) != 1 {
			cr.add(vUnd, lastPos(p), "a path is not resolved")
			continue
		}
		r := er.specRenderer(p)
		t := stripIface(p.Ret[0])
		got := r.str(t)
		if t.Op == "call" && len(t.Args) > cv.vi && strings.HasPrefix(t.Sym, cv.fn) {
			got = "nto(" + r.str(t.Args[cv.vi]) + ")"
		}
		only, _ := p.Facts.kind(c.p, er.args[0]).single()
		switch {
		case got == "nto(reflect.ValueOf(val))" || got == "nto(val)":
			cr.add(vOK, lastPos(p), "")
		case only == "nil" && got == "Nil{}":
			cr.add(vOK, lastPos(p), "")
		case strings.HasPrefix(got, "nto(") || got == "nil" || got == "Nil{}":
			if er.factsKnown(p) && len(p.Facts.kinds) == 0 {
				cr.add(vBad, lastPos(p), "the value is converted as "+got)
				continue
			}
			cr.add(vUnd, lastPos(p), "the value is converted as "+got)
		default:
			cr.add(vUnd, lastPos(p), "the value is converted as "+got)
		}
	}
	cr.done()
}

// value is the converted value when t is a conversion.
func (cv *conv) value(p *Path, t *Term) string {
	t = stripIface(stripEpoch(t))
	r := cv.rend(p)
	if t.Op != "call" {
		return r.str(t)
	}
	n, _, _ := strings.Cut(t.Sym, "#")
	switch {
	case n == cv.fn && len(t.Args) > cv.vi:
		return "nto(" + r.str(t.Args[cv.vi]) + ")"
	case n == cv.entry && len(t.Args) == 1:
		s := r.str(t.Args[0])
		return "nto(" + strings.TrimPrefix(s, "(reflect.Value).Interface") + ")"
	}
	return r.str(t)
}

func (cv *conv) rend(p *Path) *renderer {
	r := cv.er.specRenderer(p)
	for _, id := range []string{"L1", "L2", "L3", "L4"} {
		r.names[mkLoopK(id)] = "k"
	}
	old := r.fn
	r.fn = func(r *renderer, t *Term) (string, bool) {
		if t.Op == "struct" {
			if b := wholeStruct(t); b != nil {
				return strings.TrimPrefix(r.str(b), "&"), true
			}
		}
		if t.Op == "call" {
			n, _, _ := strings.Cut(t.Sym, "#")
			if n != cv.fn && n != cv.entry && strings.HasPrefix(n, "(reflect.") {
				var as []string
				for _, a := range t.Args {
					as = append(as, r.str(a))
				}
				return baseName(n) + "(" + strings.Join(as, ", ") + ")", true
			}
		}
		if old != nil {
			return old(r, t)
		}
		return "", false
	}
	return r
}

// wholeStruct is the address all fields are read from, when the struct is a
// copy of a stored one.
func wholeStruct(t *Term) *Term {
	var base *Term
	for _, a := range t.Args {
		a = stripEpoch(a)
		if a.Op != "init" || a.Args[0].Op != "&f" {
			return nil
		}
		b := a.Args[0].Args[0]
		if base != nil && b != base {
			return nil
		}
		base = b
	}
	return base
}

// under is the path restricted to one kind of value; nil when it is not taken
// for that kind.
func (cv *conv) under(p *Path, k reflect.Kind) *Facts {
	f := p.Facts
	var kt []*Term
	for b := range p.Facts.bools {
		b.walk(func(t *Term) bool {
			if t.Op == "call" && len(t.Args) == 1 && t.Args[0] == cv.V && strings.HasPrefix(t.Sym, "(reflect.Value).Kind") {
				kt = append(kt, t)
			}
			return true
		})
	}
	for _, t := range kt {
		if f = cv.c.with(f, mkEq(t, mkInt(int64(k)))); f == nil {
			return nil
		}
	}
	// a nil reference has no elements, an invalid value no kind
	return f
}

var convLib = regexp.MustCompile(`^\((reflect\.(Value|StructField|Type)|\*reflect\.MapIter)\)\.(Kind|Uint|Int|Len|NumField|IsExported|Key|Type|Field|Elem|IsNil|MapKeys|MapIndex|Index|String|Pointer|NumMethod|CanAddr|CanSet|Name|PkgPath|Cap)$`)

// known: what the path knows is expressed in the vocabulary of conversions.
func (cv *conv) known(p *Path) bool {
	ok := true
	for b := range p.Facts.bools {
		b.walk(func(t *Term) bool {
			switch t.Op {
			case "call":
				n, _, _ := strings.Cut(t.Sym, "#")
				if n != cv.fn && n != cv.entry && !convLib.MatchString(n) {
					ok = false
				}
			case "inv":
				switch n, _, _ := strings.Cut(t.Sym, "#"); n {
				case "Field", "Key", "Kind", "NumField":
				default:
					ok = false
				}
			case "havoc", "unk", "dyn", "loopv":
				ok = false
			}
			return ok
		})
	}
	return ok
}

func (cv *conv) resolved(p *Path, t *Term) bool {
	return cv.c.resolved(p, t, func(t *Term) bool {
		n, _, _ := strings.Cut(t.Sym, "#")
		return t == cv.V || t.Op == "call" && (n == cv.fn || n == cv.entry || strings.HasPrefix(n, "(reflect.")) || t.Op == "inv" && (n == "Field" || n == "Key")
	})
}

// marked: the path found the value among those that lead to it.
func (cv *conv) marked(p *Path) bool {
	for b, v := range p.Facts.bools {
		if !v {
			continue
		}
		if (b.Op == "lookup" || b.Op == "maphas") && cv.isParam(b.Args[0]) {
			return true
		}
	}
	return false
}

func (cv *conv) isParam(t *Term) bool {
	t = stripEpoch(t)
	for _, a := range cv.er.args {
		if a == t && a != cv.V {
			return true
		}
	}
	return false
}

// nested: a value inside is known to be unsupported.
func (cv *conv) nested(p *Path) bool {
	for t := range p.Facts.kinds {
		if cv.isConv(t) {
			if n, ok := p.Facts.kind(cv.c.p, t).single(); ok && n == "nil" {
				return true
			}
		}
	}
	for b, v := range p.Facts.bools {
		if v && b.Op == "==" && (cv.isConv(b.Args[0]) && b.Args[1].isNil() || cv.isConv(b.Args[1]) && b.Args[0].isNil()) {
			return true
		}
	}
	return false
}

func (cv *conv) isConv(t *Term) bool {
	n, _, _ := strings.Cut(t.Sym, "#")
	return t.Op == "call" && (n == cv.fn || n == cv.entry)
}

func (cv *conv) kind(k reflect.Kind) {
	rule := "kinds"
	if k == reflect.Struct || k == reflect.Map || k == reflect.Slice {
		rule = "composite"
	}
	c := cv.c
	cr := c.newCase(rule, k.String())
	defer cr.done()
	for _, p := range cv.er.paths {
		if p.Outcome == "back" {
			continue
		}
		f := cv.under(p, k)
		if f == nil {
			continue
		}
		if p.Outcome == "panic" {
			continue // C09
		}
		if p.Outcome != "return" || len(p.Ret) != 1 {
			cr.add(vUnd, lastPos(p), "a path is not resolved")
			continue
		}
		t := stripIface(p.Ret[0])
		got := cv.value(p, t)
		bad := func(why string) {
			if cv.known(p) && cv.resolved(p, t) {
				cr.add(vBad, lastPos(p), why)
			} else {
				cr.add(vUnd, lastPos(p), why)
			}
		}
		want := ""
		switch k {
		case reflect.Invalid:
			want = "Nil{}"
		case reflect.String:
			want = "Str{Value: String(val)}"
		case reflect.Bool:
			want = "Bool{Value: Bool(val)}"
		case reflect.Float32, reflect.Float64:
			want = "Float{Value: Float(val)}"
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			want = "Int{Value: Int(val)}"
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			want = "Int{Value: int64(Uint(val))}"
			if got == want || t.isNil() {
				over := cv.uintOver(f)
				switch {
				case got == want && over == 1:
					bad("a value that does not fit is wrapped")
				case got == want && over == -1 && k != reflect.Uint8 && k != reflect.Uint16 && k != reflect.Uint32:
					bad("a value above the int64 range is wrapped into another number")
				case got == want && over != 3:
					cr.add(vOK, lastPos(p), "")
				case over == 3:
					cr.add(vUnd, lastPos(p), "the range of the number is not resolved")
				case over == 1:
					cr.add(vOK, lastPos(p), "")
				default:
					bad("a number in the int64 range is not supported")
				}
				continue
			}
		case reflect.Interface, reflect.Pointer:
			want = "nto(Elem(val))"
			if t.isNil() && (cv.marked(p) || cv.nested(p)) {
				cr.add(vOK, lastPos(p), "")
				continue
			}
			if got == "Nil{}" && cv.valueNil(p) == 1 {
				cr.add(vOK, lastPos(p), "")
				continue
			}
		case reflect.Struct, reflect.Map, reflect.Slice:
			v, pos, why := cv.composite(p, f, k, t)
			cr.add(v, pos, why)
			continue
		default:
			want = "nil"
		}
		switch {
		case got == want:
			cr.add(vOK, lastPos(p), "")
		case objectClass(got) != "" && objectClass(got) != objectClass(want) && cv.reflects(p) && cv.marks(p):
			cr.add(vBad, lastPos(p), "a value of kind "+k.String()+" becomes "+got+", expected "+want)
		default:
			bad("a value of kind " + k.String() + " becomes " + got + ", expected " + want)
		}
	}
}

// objectClass is the kind of object a rendered result is.
func objectClass(s string) string {
	return regexp.MustCompile(`^(Nil|Str|Bool|Float|Int|Array|Obj)?`).FindString(s)
}

// reflects: what the path knows comes from package reflect and the conversion.
func (cv *conv) reflects(p *Path) bool {
	ok := true
	for b := range p.Facts.bools {
		b.walk(func(t *Term) bool {
			switch t.Op {
			case "call":
				n, _, _ := strings.Cut(t.Sym, "#")
				if n != cv.fn && n != cv.entry && !strings.Contains(n, "reflect.") {
					ok = false
				}
			case "havoc", "unk", "dyn":
				ok = false
			}
			return ok
		})
	}
	return ok
}

// marks: no mark of the value was found.
func (cv *conv) marks(p *Path) bool { return !cv.marked(p) }

// uintOver: the unsigned value is above the int64 range: 1, within: 0.
func (cv *conv) uintOver(f *Facts) int {
	for b, v := range f.bools {
		if b.Op != "<" {
			continue
		}
		isU := func(t *Term) bool {
			return t.Op == "call" && strings.HasPrefix(t.Sym, "(reflect.Value).Uint") && t.Args[0] == cv.V
		}
		const max = "i:9223372036854775807"
		const max1 = "i:9223372036854775808"
		a, d := b.Args[0], b.Args[1]
		isS := func(t *Term) bool { return t.Op == "conv" && t.Sym == "int64" && isU(t.Args[0]) }
		switch {
		case isS(a) && d.Sym == "i:0", isS(d) && a.Sym == "i:-1":
			if isS(a) == v {
				return 1
			}
			return 0
		case isU(d) && a.isConst() && a.Sym == max, isU(a) && d.isConst() && d.Sym == max1:
			if (isU(d)) == v {
				return 1
			}
			return 0
		case isU(a) && d.isConst() || isU(d) && a.isConst():
			return 2 // another bound
		}
	}
	r := -1
	for b := range f.bools {
		b.walk(func(t *Term) bool {
			if t.Op == "call" && strings.HasPrefix(t.Sym, "(reflect.Value).") && t.Args[0] == cv.V && !strings.HasPrefix(t.Sym, "(reflect.Value).Kind") {
				r = 3 // something else about the value
			}
			return true
		})
	}
	return r
}

// valueNil: the reference is known to be nil.
func (cv *conv) valueNil(p *Path) int {
	for b, v := range p.Facts.bools {
		if b.Op == "call" && strings.HasPrefix(b.Sym, "(reflect.Value).IsNil") && b.Args[0] == cv.V {
			if v {
				return 1
			}
			return 0
		}
	}
	return -1
}

func (cv *conv) composite(p *Path, f *Facts, k reflect.Kind, t *Term) (verdict, token.Pos, string) {
	c, er := cv.c, cv.er
	pos := lastPos(p)
	bad := func(q *Path, why string) (verdict, token.Pos, string) {
		if cv.known(q) {
			return vBad, lastPos(q), why
		}
		return vUnd, lastPos(q), why
	}
	if t.isNil() {
		switch {
		case cv.nested(p), k != reflect.Struct && cv.marked(p):
			return vOK, pos, ""
		case k == reflect.Map && cv.stringKey(p) == 0:
			return vOK, pos, ""
		}
		return bad(p, "a "+k.String()+" is not supported although all that it holds is")
	}
	if cv.nested(p) {
		return bad(p, "a "+k.String()+" that holds an unsupported value is converted")
	}
	if cv.valueNil(p) == 1 {
		if g := cv.value(p, t); g == "Nil{}" || g == "Array" || strings.HasPrefix(g, "Array{") || strings.HasPrefix(g, "Obj{") {
			return vOK, pos, ""
		}
	}
	loops := map[string]bool{}
	for _, ev := range p.Events {
		if ev.Kind == "loop" {
			loops[ev.Loop] = true
		}
	}
	var backs []*Path
	for _, q := range er.paths {
		if q.Outcome == "back" && loops[q.Loop] && cv.under(q, k) != nil && er.compatible(p, q) {
			backs = append(backs, q)
		}
	}
	for _, q := range backs {
		if cv.nested(q) {
			return bad(q, "an unsupported value inside a "+k.String()+" is passed over")
		}
	}
	if k == reflect.Slice {
		elems := c.objField(p, t, "object.Array", "Elements")
		if elems == nil {
			if g := cv.value(p, t); objectClass(g) != "" && objectClass(g) != "Array" && cv.reflects(p) && cv.valueNil(p) != 1 {
				return vBad, pos, "a slice becomes " + g
			}
			return bad(p, "a slice becomes "+cv.value(p, t))
		}
		s := er.contents(p, elems, func(q *Path) bool { return cv.under(q, k) != nil && er.compatible(p, q) })
		got := strings.Join(s.list, "; ")
		got = regexp.MustCompile(`nto0?\(\(reflect\.Value\)\.Index\(val, k\)[^:]*`).ReplaceAllString(got, "nto(Index(val, k)) ")
		want := "[k] <- nto(Index(val, k)) : (reflect.Value).Len(val)"
		switch {
		case s.why != "":
			v, why := s.failed()
			return v, pos, why
		case got == want && len(s.swap) == 0:
			return vOK, pos, ""
		case got == "" && p.Facts.decide(c.p, mkEq(cv.lenTerm(p), mkInt(0))) == 1:
			return vOK, pos, ""
		case strings.Contains(got, "loop") || strings.Contains(got, "?") || strings.Contains(got, "…"):
			return vUnd, pos, "the elements {" + got + "} are not resolved"
		}
		return bad(p, "the array holds {"+got+"}, expected {"+want+"}")
	}
	pairs := c.objField(p, t, "object.Obj", "Pairs")
	if pairs == nil {
		if g := cv.value(p, t); objectClass(g) != "" && objectClass(g) != "Obj" && cv.reflects(p) && cv.valueNil(p) != 1 {
			return vBad, pos, "a " + k.String() + " becomes " + g
		}
		return bad(p, "a "+k.String()+" becomes "+cv.value(p, t))
	}
	if pairs.isNil() {
		return bad(p, "the object is empty")
	}
	if pairs.Op != "mapalloc" {
		return vUnd, pos, "the pairs are not resolved"
	}
	if k == reflect.Map && cv.stringKey(p) != 1 {
		return bad(p, "maps are converted whatever the kind of their keys")
	}
	n := 0
	for _, q := range backs {
		var ups []*Event
		in := false
		for _, ev := range q.Events {
			if ev.Kind == "loop" && ev.Loop == q.Loop {
				in = true
			}
			if in && ev.Kind == "mapupdate" && stripEpoch(ev.Addr) == stripEpoch(pairs) {
				ups = append(ups, ev)
			}
		}
		if len(ups) > 1 {
			return vUnd, pos, "a pass writes several entries"
		}
		dom, _ := er.domain(q, q.Loop)
		r := cv.rend(q)
		if len(ups) == 0 {
			if k == reflect.Struct && cv.exported(q) == 0 {
				continue
			}
			if cv.exported(q) == -2 {
				return vUnd, lastPos(q), "a pass does not write an entry"
			}
			return bad(q, "some entries of a "+k.String()+" are left out")
		}
		n++
		key, val := r.str(stripEpoch(ups[0].Args[0])), cv.value(q, ups[0].Val)
		if dom == nil {
			return vUnd, lastPos(q), "the number of passes is not resolved"
		}
		d := r.str(dom)
		switch k {
		case reflect.Struct:
			wk := []string{"Field(Type(val), k).Name"}
			switch {
			case cv.exported(q) == 0:
				return bad(q, "unexported fields are visible")
			case cv.exported(q) == -1:
				return bad(q, "unexported fields are visible")
			case cv.exported(q) == -2:
				return vUnd, lastPos(q), "the choice of fields is not resolved"
			case key != wk[0]:
				return cv.wrong(q, ups[0], "the name of a field is "+key+", expected "+wk[0])
			case val != "nto(Field(val, k))":
				return cv.wrong(q, ups[0], "the value of a field is "+val+", expected nto(Field(val, k))")
			case d != "NumField(val)" && d != "NumField(Type(val))":
				return cv.wrong(q, ups[0], "the passes over the fields are "+d+", expected NumField(val)")
			}
		case reflect.Map:
			switch {
			case key != "String(MapKeys(val)[k])":
				return cv.wrong(q, ups[0], "the key of an entry is "+key+", expected String(MapKeys(val)[k])")
			case val != "nto(MapIndex(val, MapKeys(val)[k]))":
				return cv.wrong(q, ups[0], "the value of an entry is "+val+", expected nto(MapIndex(val, MapKeys(val)[k]))")
			case d != "len(MapKeys(val))" && d != "Len(val)":
				return cv.wrong(q, ups[0], "the passes over the entries are "+d+", expected len(MapKeys(val))")
			}
		}
	}
	if n == 0 {
		return bad(p, "no entry is written")
	}
	return vOK, pos, ""
}

func (cv *conv) wrong(q *Path, ev *Event, why string) (verdict, token.Pos, string) {
	if strings.Contains(why, ").Tag") || strings.Contains(why, "k).Tag") {
		return vBad, ev.Pos, why
	}
	if cv.known(q) && !regexp.MustCompile(`loop|\?|…|inv|MapRange|MapIter|VisibleFields|Iter`).MatchString(why) {
		return vBad, ev.Pos, why
	}
	return vUnd, ev.Pos, why
}

func (cv *conv) lenTerm(p *Path) *Term {
	var r *Term
	for b := range p.Facts.bools {
		b.walk(func(t *Term) bool {
			if t.Op == "call" && strings.HasPrefix(t.Sym, "(reflect.Value).Len") && t.Args[0] == cv.V {
				r = t
			}
			return true
		})
	}
	if r == nil {
		return cv.V
	}
	return r
}

// stringKey: the keys of the map are known to be strings.
func (cv *conv) stringKey(p *Path) int {
	for b, v := range p.Facts.bools {
		if b.Op != "==" {
			continue
		}
		for i, a := range b.Args {
			if cv.rend(p).str(b.Args[1-i]) == fmt.Sprint(int(reflect.String)) || b.Args[1-i].Sym == fmt.Sprintf("i:%d", reflect.String) {
				n, _, _ := strings.Cut(a.Sym, "#")
				if a.Op == "inv" && n == "Kind" {
					kn, _, _ := strings.Cut(a.Args[0].Sym, "#")
					if kn == "Key" {
						if v {
							return 1
						}
						return 0
					}
				}
			}
		}
	}
	return -1
}

// exported: what the path knows about the field; -1 nothing, -2 not resolved.
func (cv *conv) exported(p *Path) int {
	r := -1
	for b, v := range p.Facts.bools {
		val := 0
		if v {
			val = 1
		}
		n, _, _ := strings.Cut(b.Sym, "#")
		switch {
		case b.Op == "call" && n == "(reflect.StructField).IsExported":
			return val
		case b.Op == "==":
			s := fmt.Sprint(b.Args[0], b.Args[1])
			if strings.Contains(s, "PkgPath") {
				for _, a := range b.Args {
					if x, ok := a.strVal(); ok && x == "" {
						return val
					}
				}
				r = -2
			}
		case b.Op == "call" && (n == "(reflect.Value).CanInterface" || n == "(reflect.Value).CanSet"):
			if n == "(reflect.Value).CanInterface" && strings.Contains(fmt.Sprint(b), "Field") {
				return val
			}
			r = -2
		case b.Op == "call" && (strings.HasPrefix(n, "unicode.") || strings.HasPrefix(n, "go/") || strings.HasPrefix(n, "strings.")):
			r = -2
		}
	}
	return r
}

// sharing: the marks against cycles.
func (cv *conv) sharing() {
	c, er := cv.c, cv.er
	for _, k := range []reflect.Kind{reflect.Pointer, reflect.Slice, reflect.Map} {
		cr := c.newCase("sharing", k.String())
		for _, p := range er.paths {
			if cv.under(p, k) == nil || p.Outcome == "back" {
				continue
			}
			if p.Outcome != "return" {
				cr.add(vOK, lastPos(p), "")
				continue
			}
			var marks []*Event
			dels := map[*Term]bool{}
			for _, ev := range p.Events {
				switch {
				case ev.Kind == "mapupdate" && cv.isParam(ev.Addr):
					if ev.Val.isFalse() {
						dels[stripEpoch(ev.Args[0])] = true
					} else {
						marks = append(marks, ev)
					}
				case ev.Kind == "call" && ev.Fn == "builtin.delete" && len(ev.Args) == 2 && cv.isParam(ev.Args[0]):
					dels[stripEpoch(ev.Args[1])] = true
				}
			}
			r := cv.rend(p)
			for _, m := range marks {
				key := r.str(stripEpoch(m.Args[0]))
				switch {
				case !dels[stripEpoch(m.Args[0])] && len(dels) > 0:
					cr.add(vUnd, m.Pos, "another mark is taken back")
				case !dels[stripEpoch(m.Args[0])]:
					cr.add(vBad, m.Pos, "the mark "+key+" stays: a value that is referenced twice is not supported")
				default:
					v, why := cv.identifies(k, key)
					cr.add(v, m.Pos, why)
				}
			}
			for b, v := range p.Facts.bools {
				if v && (b.Op == "lookup" || b.Op == "maphas") && cv.isParam(b.Args[0]) {
					vd, why := cv.identifies(k, r.str(stripEpoch(b.Args[1])))
					cr.add(vd, lastPos(p), why)
				}
			}
			if len(marks) == 0 {
				cr.add(vOK, lastPos(p), "")
			}
		}
		cr.done()
	}
}

// identifies: the key of a mark tells different values apart.
func (cv *conv) identifies(k reflect.Kind, key string) (verdict, string) {
	addr := strings.Contains(key, "Pointer(val)") || strings.Contains(key, "UnsafePointer(val)")
	typ := strings.Contains(key, "Type(val)")
	n := strings.Contains(key, "Len(val)")
	switch {
	case strings.Contains(key, "Interface(val)") && k == reflect.Pointer:
		return vOK, ""
	case !addr:
		return vUnd, "the mark " + key + " is not resolved"
	case k == reflect.Map:
		return vOK, ""
	case !typ:
		return vBad, "the mark " + key + " does not tell a pointer to a struct from one to its first field"
	case k == reflect.Slice && !n:
		return vBad, "the mark " + key + " does not tell a slice from a shorter one of the same array"
	}
	return vOK, ""
}

// dataScope: the scope made of the data map.
func (c *Checker) dataScope(rule string) {
	f := c.p.fn("object", "EnvFromMap")
	er := c.fnRun(f, []string{"data"}, runOpts{}, map[string]string{"object.NativeToObject": "NTO", "object.Env.Set": "Set"})
	name := "EnvFromMap"
	if er == nil {
		c.und(rule, name, "anchor not found")
		return
	}
	cr := c.newCase(rule, name)
	defer cr.done()
	if !er.complete {
		cr.add(vUnd, 0, "path enumeration is incomplete")
	}
	isNTO := func(t *Term) bool {
		n, _, _ := strings.Cut(t.Sym, "#")
		return t.Op == "call" && n == "object.NativeToObject"
	}
	isSet := func(t *Term) bool {
		n, _, _ := strings.Cut(t.Sym, "#")
		return t.Op == "call" && n == "object.Env.Set"
	}
	// state of the calls on a path: 1 nil, 0 not nil, -1 unknown
	state := func(p *Path, t *Term) int {
		if n, ok := p.Facts.kind(c.p, t).single(); ok && n == "nil" {
			return 1
		}
		if d := p.Facts.decide(c.p, mkEq(t, mkNil())); d >= 0 {
			return d
		}
		if !p.Facts.kind(c.p, t).has("nil") {
			return 0
		}
		return -1
	}
	sets := 0
	for _, p := range er.paths {
		var nto, set []*Event
		in := p.Outcome != "back"
		for _, ev := range p.Events {
			if ev.Kind == "loop" && ev.Loop == p.Loop {
				in = true
			}
			if in && ev.Kind == "call" && ev.Res != nil {
				if isNTO(ev.Res) {
					nto = append(nto, ev)
				}
				if isSet(ev.Res) {
					set = append(set, ev)
				}
			}
		}
		fault := false
		for _, ev := range nto {
			fault = fault || state(p, ev.Res) == 1
		}
		for _, ev := range set {
			fault = fault || state(p, ev.Res) == 0
		}
		for _, ev := range set {
			r := er.specRenderer(p)
			for _, id := range []string{"L1", "L2", "L3", "L4"} {
				r.names[mkLoopK(id)] = "k"
			}
			key, val := stripEpoch(ev.Args[1]), stripIface(ev.Args[2])
			switch {
			case !isNTO(val):
				if c.resolved(p, val, func(t *Term) bool { return t == er.args[0] }) {
					cr.add(vBad, ev.Pos, "the variable is bound to "+r.str(val)+", not to the converted value")
				} else {
					cr.add(vUnd, ev.Pos, "the variable is bound to "+r.str(val))
				}
			case state(p, val) != 0:
				cr.add(vBad, ev.Pos, "an unsupported value is bound")
			default:
				sets++
				el := stripIface(stripEpoch(val.Args[0]))
				ks := r.str(key)
				// data[key] of a key of data
				switch {
				case el.Op == "lookup" && stripEpoch(el.Args[0]) == er.args[0] && stripEpoch(el.Args[1]) == key:
					cr.add(c.keyOf(er, p, key))
				case el.Op == "rval" && stripEpoch(el.Args[0]) == er.args[0] && key.Op == "rkey":
					cr.add(vOK, ev.Pos, "")
				case c.resolved(p, key, func(t *Term) bool {
					return t == er.args[0] || t.Op == "rkey" || t.Op == "loopv" || t.Op == "loopm" || t.Op == "init"
				}) && el.Op == "lookup":
					cr.add(vBad, ev.Pos, "the variable "+ks+" is bound to the value "+r.str(el)+" of another key")
				case el.Op == "lookup":
					cr.add(vBad, ev.Pos, "the name "+ks+" of the variable is not the key of the value "+r.str(el))
				default:
					cr.add(vUnd, ev.Pos, "the value "+r.str(el)+" is not resolved")
				}
			}
		}
		switch p.Outcome {
		case "back":
			if fault {
				cr.add(vBad, lastPos(p), "an unsupported or refused value is passed over")
			}
			for _, ev := range set {
				if state(p, ev.Res) == -1 {
					cr.add(vBad, lastPos(p), "a refused variable is passed over")
				}
			}
			if len(nto) > 0 && len(set) == 0 && !fault {
				cr.add(vUnd, lastPos(p), "a pass binds nothing")
			}
		case "return":
			errIs := -1
			if len(p.Ret) == 2 {
				errIs = state(p, p.Ret[1])
				if p.Ret[1].isNil() {
					errIs = 1
				} else if stripIface(p.Ret[1]).Op == "alloc" {
					errIs = 0
				}
			}
			switch {
			case fault && errIs == 1:
				cr.add(vBad, lastPos(p), "an unsupported or refused value is no error")
			case fault && errIs == 0, !fault && errIs == 1 && len(set) == 0:
				cr.add(vOK, lastPos(p), "")
			case !fault && errIs == 0 && er.factsKnown(p) && len(nto) > 0:
				cr.add(vBad, lastPos(p), "an error although the value is supported and accepted")
			default:
				cr.add(vUnd, lastPos(p), "the error of the path is not resolved")
			}
		default:
			cr.add(vUnd, lastPos(p), "a path is not resolved")
		}
	}
	if sets == 0 {
		cr.add(vUnd, f.Pos(), "no variable is bound")
	}
	// every pass over the keys keeps the key
	for _, p := range er.paths {
		if p.Outcome != "back" {
			continue
		}
		has := false
		for _, ev := range p.Events {
			has = has || ev.Kind == "call" && ev.Res != nil && (isNTO(ev.Res) || isSet(ev.Res))
		}
		if has {
			continue
		}
		wrote := false
		for n, v := range p.Vals {
			l := mk("loopv", p.Loop+"."+n, nil, nil)
			if v != nil && v.Op == "append" && v.Args[0].Sym == l.Sym {
				wrote = true
			}
		}
		in := false
		for _, ev := range p.Events {
			in = in || ev.Kind == "loop" && ev.Loop == p.Loop
			wrote = wrote || in && (ev.Kind == "mapupdate" || ev.Kind == "store")
		}
		if !wrote {
			if er.factsKnown(p) {
				cr.add(vBad, lastPos(p), "some entries of the data are left out")
			} else {
				cr.add(vUnd, lastPos(p), "a pass over the data does nothing")
			}
		}
	}
}

// keyOf: the key is an element of a list of the keys of the data, or a range
// key.
func (c *Checker) keyOf(er *evalRun, p *Path, key *Term) (verdict, token.Pos, string) {
	if key.Op == "rkey" {
		return vOK, lastPos(p), ""
	}
	l := loopTerm(key)
	if l == nil {
		if key.isConst() {
			return vBad, lastPos(p), "the variable is always " + er.specRenderer(p).str(key)
		}
		return vOK, lastPos(p), "" // a case of the path: the key equals a name
	}
	_, steps, ok := c.accum(l, er.paths, er.specRenderer)
	if !ok {
		return vUnd, lastPos(p), "the list of the keys is not resolved"
	}
	_ = steps
	return vOK, lastPos(p), ""
}

// dataEntry: the rendering entry points make the scope of the data they get.
func (c *Checker) dataEntry(rule string) {
	for _, n := range []string{"EvaluateString", "EvaluateFile", "Template.String"} {
		f := c.p.fn("", n)
		if f == nil {
			c.und(rule, n, "anchor not found")
			continue
		}
		er := c.fnRun(f, nil, runOpts{opaque: []string{"evaluator.New", "textwire.parseStr", "object.EnvFromMap", "textwire.getFullPath", "evaluator.Evaluator.Eval", "object.Env.Set", "textwire.EvaluateString"}}, nil)
		cr := c.newCase(rule, n)
		data := -1
		for i, prm := range f.Params {
			if strings.HasPrefix(prm.Type().String(), "map[") {
				data = i
			}
		}
		if er == nil || data < 0 {
			c.und(rule, n, "the data parameter was not found")
			continue
		}
		made := false
		for _, p := range er.paths {
			for _, ev := range p.Events {
				if ev.Kind != "call" {
					continue
				}
				var arg *Term
				switch {
				case ev.Fn == "object.EnvFromMap" && len(ev.Args) == 1:
					arg = ev.Args[0]
				case ev.Fn == "textwire.EvaluateString" && len(ev.Args) == 2:
					arg = ev.Args[1]
				case ev.Fn == "object.Env.Set":
					cr.add(vBad, ev.Pos, "a variable is set besides the data")
					continue
				default:
					continue
				}
				made = true
				switch {
				case stripEpoch(arg) == er.args[data]:
					cr.add(vOK, ev.Pos, "")
				case arg.isNil():
					if er.dataNil(p, data) {
						cr.add(vOK, ev.Pos, "")
					} else {
						cr.add(vBad, ev.Pos, "the data is dropped")
					}
				default:
					cr.add(vUnd, ev.Pos, "the scope is made of "+er.specRenderer(p).str(arg))
				}
			}
		}
		if !made {
			cr.add(vUnd, f.Pos(), "the scope of the render is not made here")
		}
		cr.done()
	}
}

func (er *evalRun) dataNil(p *Path, i int) bool {
	return p.Facts.decide(er.c.p, mkEq(er.args[i], mkNil())) == 1 ||
		p.Facts.decide(er.c.p, mkEq(mkLen(er.args[i]), mkInt(0))) == 1
}

// dataWrites: the caller's data is only read.
func (c *Checker) dataWrites(rule string) {
	a, missing := c.renderAnalysis()
	for _, m := range missing {
		c.und(rule, "entry point "+m, "not found")
	}
	render := c.reachFrom(a)
	n := 0
	for _, w := range a.sortedWrites() {
		if !render[w.fn] {
			continue
		}
		n++
		name := c.p.fullName(w.fn) + ": " + w.what
		hit := false
		for o := range w.objs {
			hit = hit || o.shared == "the caller's data"
		}
		switch {
		case !hit:
			c.ok(rule, name, w.in.Pos())
		case w.how == "append":
			c.bad(rule, name, w.in.Pos(), "may write, through append, the caller's data")
		default:
			c.bad(rule, name, w.in.Pos(), "writes the caller's data")
		}
	}
	c.paths += n
	if n == 0 {
		c.und(rule, "writes", "no write was analysed")
	}
}
