package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// call executes a call instruction; false means the state was forked or ended.
func (e *Exec) call(st *State, x *ssa.Call) bool {
	cc := &x.Call
	fr := st.top()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		var args []*Term
		for _, a := range cc.Args {
			args = append(args, e.val(st, a))
		}
		if n := b.Name(); (n == "min" || n == "max") && isInteger(x.Type()) && len(args) > 0 && len(args) <= 3 {
			// a choice between the arguments
			best := args[0]
			for _, a := range args[1:] {
				cond := mkLess(a, best) // take a
				if n == "max" {
					cond = mkLess(best, a)
				}
				yes := st.facts.assume(e.p, cond, true)
				no := st.facts.assume(e.p, cond, false)
				switch {
				case yes != nil && no == nil:
					best = a
				case yes != nil && len(args) == 2:
					o := st.clone()
					o.facts = yes
					o.top().env[x] = a
					e.work = append(e.work, o)
					st.facts = no
				case yes != nil:
					fr.env[x] = e.builtin(st, x, b.Name(), args)
					return true
				}
			}
			fr.env[x] = best
			return true
		}
		fr.env[x] = e.builtin(st, x, b.Name(), args)
		return true
	}
	if cc.IsInvoke() {
		return e.invoke(st, x)
	}
	var args []*Term
	for _, a := range cc.Args {
		args = append(args, e.val(st, a))
	}
	if f := cc.StaticCallee(); f != nil {
		var bind []*Term
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				bind = append(bind, e.val(st, b))
			}
		}
		return e.callFn(st, x, f, args, bind)
	}
	fv := e.val(st, cc.Value)
	switch fv.Op {
	case "func":
		return e.callFn(st, x, fv.Obj.(*ssa.Function), args, nil)
	case "closure":
		return e.callFn(st, x, fv.Obj.(*ssa.Function), args, fv.Args)
	}
	// unknown function value
	if st.facts.decide(e.p, eqTerm(fv, mkNil())) != 0 && e.pol.Deref {
		e.panicop(st, "nilcall", x.Pos(), "", fv)
	}
	res := mk("dyn", "#"+strconv.Itoa(st.num("dyn")), x.Type(), nil, append([]*Term{fv}, args...)...)
	e.event(st, &Event{Kind: "dyncall", Args: append([]*Term{fv}, args...), Res: res, Pos: x.Pos(), Fun: fr.fn})
	for _, a := range args {
		st.escape(a)
	}
	mods := map[string]bool{}
	for _, g := range e.p.callTargets(x) {
		for c := range e.p.mods[g] {
			mods[c] = true
		}
	}
	st.havoc(mods)
	fr.env[x] = e.spread(res, x.Type())
	return true
}

// spread turns an opaque tuple result into per-component terms.
func (e *Exec) spread(res *Term, t types.Type) *Term {
	tt, ok := t.(*types.Tuple)
	if !ok || tt.Len() == 0 {
		return res
	}
	var as []*Term
	for i := 0; i < tt.Len(); i++ {
		as = append(as, mk("ext", strconv.Itoa(i), tt.At(i).Type(), nil, res))
	}
	return mk("tuple", "", t, nil, as...)
}

func (e *Exec) callFn(st *State, x ssa.CallInstruction, f *ssa.Function, args, bind []*Term) bool {
	name := e.p.fullName(f)
	if f.Synthetic != "" && len(f.Blocks) > 0 && e.p.inRepo(f) { // bound methods, thunks, wrappers
		e.push(st, f, args, bind, x)
		return true
	}
	if !e.p.inRepo(f) || len(f.Blocks) == 0 {
		return e.external(st, x, f, name, args)
	}
	if h := e.pol.Hook[f]; h != nil && h(e, st, x, args) {
		return true
	}
	if m := e.pol.Model[name]; m != nil {
		return m(e, st, x, args)
	}
	opaque := e.pol.Opaque[name] || e.pol.NoRecurse && e.p.recur[f] || len(st.frames) >= e.pol.MaxDepth
	if !opaque && e.pol.OpaqueFn != nil {
		opaque = e.pol.OpaqueFn(f)
	}
	for _, fr := range st.frames {
		if fr.fn == f {
			opaque = true
		}
	}
	if opaque {
		e.opaqueCall(st, x, f, name, args)
		return true
	}
	e.event(st, &Event{Kind: "enter", Fn: name, Fun: f, Args: args, Pos: x.Pos()})
	e.push(st, f, args, bind, x)
	return true
}

func (e *Exec) opaqueCall(st *State, x ssa.CallInstruction, f *ssa.Function, name string, args []*Term) {
	var typ types.Type
	if v := x.Value(); v != nil {
		typ = v.Type()
	}
	mods := e.p.mods[f]
	sym := name
	if !e.pol.Pure[name] {
		sym += "#" + strconv.Itoa(st.num(name))
	}
	res := mk("call", sym, typ, f, args...)
	ev := e.event(st, &Event{Kind: "call", Fn: name, Fun: f, Args: args, Res: res, Pos: x.Pos()})
	if e.pol.OnCall != nil {
		e.pol.OnCall(st, ev)
	}
	if !e.pol.Pure[name] {
		for _, a := range args {
			st.escape(a)
		}
		st.havoc(mods)
	}
	if v := x.Value(); v != nil {
		st.top().env[v] = e.spread(res, typ)
	}
}

func cloneMem(m map[*Term]*Term) map[*Term]*Term {
	r := make(map[*Term]*Term, len(m))
	for k, v := range m {
		r[k] = v
	}
	return r
}

// ------------------------------------------------------------- builtins

func (e *Exec) builtin(st *State, x *ssa.Call, name string, args []*Term) *Term {
	switch name {
	case "len":
		if args[0].Typ != nil || args[0].Op == "mapalloc" {
			t := x.Call.Args[0].Type().Underlying()
			if _, ok := t.(*types.Map); ok {
				if args[0].isNil() {
					return mkInt(0)
				}
				n := 0
				for a := range st.mem {
					if a.Op == "&m" && a.Args[0] == args[0] {
						n++
					}
				}
				if n == 0 && isFreshTerm(args[0]) && !st.escaped[args[0]] {
					return mkInt(0)
				}
				return mk("len", "m"+st.mapEpoch(args[0])+"+"+strconv.Itoa(n), types.Typ[types.Int], nil, args[0])
			}
		}
		return mkLen(args[0])
	case "append":
		return appendTerm(args[0], args[1], x.Type())
	case "copy":
		e.event(st, &Event{Kind: "call", Fn: "builtin.copy", Args: args, Pos: x.Pos()})
		d := args[0]
		for d.Op == "slice" {
			d = d.Args[0]
		}
		if isFreshTerm(d) && !st.escaped[d] {
			for a := range st.mem {
				if addrBase(a) == d {
					delete(st.mem, a)
				}
			}
			st.mem[mk("&copy", "", nil, nil, d)] = args[1]
			st.epoch["elem:"+shortType(x.Call.Args[0].Type())]++
		} else {
			st.havoc(map[string]bool{"elem:" + shortType(x.Call.Args[0].Type()): true})
		}
		if s, ok := implicitLow(linAdd(mkLen(args[0]), mkLen(args[1]), -1)); ok && s >= 0 && isFreshTerm(d) {
			return mkLen(args[1]) // there is room for all of it
		}
		return mk("copyn", "#"+strconv.Itoa(st.num("copyn")), types.Typ[types.Int], nil)
	case "delete", "clear":
		e.event(st, &Event{Kind: "call", Fn: "builtin." + name, Args: args, Pos: x.Pos(), Fresh: isFreshTerm(args[0]) && !st.escaped[args[0]]})
		cl := "map:" + shortType(x.Call.Args[0].Type().Underlying())
		for a := range st.mem {
			if a.Op == "&m" && (a.Args[0] == args[0] || addrClass(a) == cl && !isFreshTerm(a.Args[0])) {
				delete(st.mem, a)
			}
		}
		if !isFreshTerm(args[0]) || st.escaped[args[0]] {
			st.epoch[cl]++
		} else {
			st.escaped[args[0]] = true // contents no longer exactly known
		}
		return mkNil()
	case "cap":
		return mk("cap", "", types.Typ[types.Int], nil, args...)
	case "min", "max":
		return mk(name, "", x.Type(), nil, args...)
	case "recover":
		e.event(st, &Event{Kind: "call", Fn: "builtin.recover", Pos: x.Pos()})
		return mk("recover", "#"+strconv.Itoa(st.num("recover")), x.Type(), nil)
	}
	e.event(st, &Event{Kind: "call", Fn: "builtin." + name, Args: args, Pos: x.Pos()})
	return mk("builtin", name+"#"+strconv.Itoa(st.num("b"+name)), x.Type(), nil, args...)
}

func appendTerm(s, t *Term, typ types.Type) *Term {
	if t.isNil() {
		return s
	}
	if t.Op == "slicelit" {
		base := s
		var els []*Term
		if s.Op == "append" {
			base, els = s.Args[0], append([]*Term(nil), s.Args[1:]...)
		}
		els = append(els, t.Args[1:]...)
		if len(els) == 0 {
			return base
		}
		return mk("append", "", typ, nil, append([]*Term{base}, els...)...)
	}
	return mk("appendall", "", typ, nil, s, t)
}

// ------------------------------------------------------------- invoke

func (e *Exec) invoke(st *State, x *ssa.Call) bool {
	cc := &x.Call
	r := e.val(st, cc.Value)
	m := cc.Method.Name()
	var args []*Term
	for _, a := range cc.Args {
		args = append(args, e.val(st, a))
	}
	// nil receiver
	if d := st.facts.decide(e.p, eqTerm(r, mkNil())); d != 0 {
		e.panicop(st, "nilinvoke", x.Pos(), "receiver of "+m+" may be nil", r)
		n := st.facts.assume(e.p, eqTerm(r, mkNil()), false)
		if n == nil {
			e.finish(st, "panic", nil, x.Pos())
			return false
		}
		st.facts = n
	}
	ks := st.facts.kind(e.p, r)
	if k, ok := ks.single(); ok && (r.Op == "iface" || e.pol.Devirt[m] || e.pol.Devirt["*"]) {
		if f := e.p.method(k, m); f != nil && len(f.Blocks) > 0 {
			recv := mkCast(e.p.typeByNm[k], r)
			return e.callFn(st, x, f, append([]*Term{recv}, args...), nil)
		}
	}
	if !ks.Neg && len(ks.Set) > 0 {
		if len(args) == 0 {
			all := true
			for _, n := range ks.names() {
				if n != "nil" && e.p.constMethod(n, m) == nil {
					all = false
					break
				}
			}
			if all {
				t := mk("mconst", m, x.Type(), nil, r)
				vs := st.facts.mconstVals(e.p, t)
				if len(vs) == 1 {
					for c := range vs {
						t = c
					}
				}
				st.top().env[x] = t
				return true
			}
		} else if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			yes, no := map[string]bool{}, map[string]bool{}
			ok := true
			for _, n := range ks.names() {
				if n == "nil" {
					continue
				}
				c := e.p.constMethodArgs(n, m, args)
				switch {
				case c == nil:
					ok = false
				case c.isTrue():
					yes[n] = true
				case c.isFalse():
					no[n] = true
				default:
					ok = false
				}
				if !ok {
					break
				}
			}
			if ok {
				if len(yes) > 0 && len(no) > 0 {
					o := st.clone()
					o.facts = o.facts.setKind(r, KS{Set: no})
					o.top().env[x] = mkBool(false)
					e.work = append(e.work, o)
					st.facts = st.facts.setKind(r, KS{Set: yes})
					st.top().env[x] = mkBool(true)
				} else {
					st.top().env[x] = mkBool(len(yes) > 0)
				}
				return true
			}
		}
	}
	mods := map[string]bool{}
	for _, g := range e.p.callTargets(x) {
		for c := range e.p.mods[g] {
			mods[c] = true
		}
	}
	sym := m
	ext := ks.Neg
	if len(mods) > 0 || ext && m != "Error" {
		sym += "#" + strconv.Itoa(st.num("inv:"+m))
	}
	res := mk("inv", sym, x.Type(), nil, append([]*Term{r}, args...)...)
	e.event(st, &Event{Kind: "invoke", Fn: m, Args: append([]*Term{r}, args...), Res: res, Pos: x.Pos(), Fun: st.top().fn})
	for _, a := range args {
		st.escape(a)
	}
	st.havoc(mods)
	st.top().env[x] = e.spread(res, x.Type())
	return true
}

// ------------------------------------------------------------- standard library

var pureExt = []string{"strings.", "strconv.", "unicode.", "unicode/utf8.", "html.", "math.", "errors.", "path.", "path/filepath.", "slices.", "maps.", "fmt.Sprint", "fmt.Errorf", "reflect.", "(reflect.", "bytes.", "html/template.", "cmp.", "regexp.", "(*regexp.Regexp).", "(time.Duration)."}

var impureExt = map[string]bool{
	"path/filepath.Walk": true, "path/filepath.WalkDir": true, "path/filepath.Glob": true, "path/filepath.EvalSymlinks": true, "path/filepath.Abs": false,
	"slices.Sort": true, "slices.SortFunc": true, "slices.SortStableFunc": true, "slices.Reverse": true,
	"strings.NewReplacer": false,
}

func extPure(name string) bool {
	if v, ok := impureExt[name]; ok {
		return !v
	}
	return hasPrefixAny(name, pureExt...) || strings.HasPrefix(name, "errors.")
}

func extName(f *ssa.Function) string {
	if f.Origin() != nil && f.Origin() != f {
		return f.Origin().String()
	}
	return f.String()
}

func (e *Exec) external(st *State, x ssa.CallInstruction, f *ssa.Function, name string, args []*Term) bool {
	full := extName(f)
	var typ types.Type
	if v := x.Value(); v != nil {
		typ = v.Type()
	}
	set := func(t *Term) {
		if v := x.Value(); v != nil {
			st.top().env[v] = e.spread(t, typ)
		}
	}
	if strings.HasPrefix(full, "(*bytes.Buffer).") || strings.HasPrefix(full, "(*strings.Builder).") {
		if e.bufferOp(st, x, f.Name(), args, set) {
			return true
		}
	}
	if (full == "fmt.Fprint" || full == "fmt.Fprintf" || full == "io.WriteString" || full == "fmt.Fprintln") && args[0].Op == "iface" && (args[0].Sym == "*bytes.Buffer" || args[0].Sym == "*strings.Builder") {
		b := args[0].Args[0]
		c := st.bufCell(b)
		var s *Term
		switch full {
		case "io.WriteString":
			s = args[1]
		case "fmt.Fprintf":
			s = sprintf(args[1], args[2])
		case "fmt.Fprint":
			s = sprintArgs(args[1], false)
		default:
			s = sprintArgs(args[1], true)
		}
		st.mem[c] = mkCat(e.load(st, c, types.Typ[types.String]), s)
		set(mk("ext-ok", "#"+strconv.Itoa(st.num("fpr")), typ, nil))
		return true
	}
	if r := foldExt(full, args, typ); r != nil {
		e.event(st, &Event{Kind: "call", Fn: full, Fun: f, Args: args, Res: r, Pos: x.Pos(), Note: "folded"})
		if v := x.Value(); v != nil {
			st.top().env[v] = r
		}
		return true
	}
	pure := extPure(full)
	sym := full
	if !pure {
		sym += "#" + strconv.Itoa(st.num(full))
	}
	res := mk("call", sym, typ, f, args...)
	e.event(st, &Event{Kind: "call", Fn: full, Fun: f, Args: args, Res: res, Pos: x.Pos()})
	if !pure {
		mods := map[string]bool{}
		for _, a := range args {
			st.escape(a)
			if a.Typ != nil {
				if _, ok := a.Typ.Underlying().(*types.Slice); ok {
					mods["elem:"+shortType(a.Typ)] = true
				}
			}
		}
		if strings.HasPrefix(full, "sort.") || strings.HasPrefix(full, "slices.") || strings.Contains(full, "rand") {
			if len(args) > 0 {
				b := args[0]
				if b.Op == "iface" {
					b = b.Args[0]
				}
				for b.Op == "slice" || b.Op == "slicelit" || b.Op == "append" || b.Op == "appendall" {
					b = b.Args[0]
				}
				for a := range st.mem {
					if addrBase(a) == b {
						delete(st.mem, a)
					}
				}
				if b.Typ != nil {
					mods["elem:"+shortType(b.Typ)] = true
				}
			}
		}
		for _, g := range e.p.callTargets(x) {
			for c := range e.p.mods[g] {
				mods[c] = true
			}
		}
		st.havoc(mods)
	}
	set(res)
	return true
}

func (e *Exec) bufferOp(st *State, x ssa.CallInstruction, m string, args []*Term, set func(*Term)) bool {
	c := st.bufCell(args[0])
	cur := e.load(st, c, types.Typ[types.String])
	ok := func() { set(mk("ext-ok", "#"+strconv.Itoa(st.num("bufok")), x.Value().Type(), nil)) }
	switch m {
	case "WriteString":
		st.mem[c] = mkCat(cur, args[1])
		ok()
	case "WriteByte", "WriteRune":
		t := mk("conv", "string", types.Typ[types.String], nil, args[1])
		if m == "WriteByte" {
			t = mk("bytestr", "", types.Typ[types.String], nil, args[1])
		}
		if n, k := args[1].intVal(); k && (m == "WriteRune" || n < 128) {
			t = mkStr(string(rune(n)))
		}
		if args[1].Op == "sidx" && m == "WriteByte" {
			t = mk("bytestr", "", types.Typ[types.String], nil, args[1])
		}
		st.mem[c] = mkCat(cur, t)
		ok()
	case "Write":
		st.mem[c] = mkCat(cur, mk("conv", "string", types.Typ[types.String], nil, args[1]))
		ok()
	case "String":
		set(cur)
	case "Len":
		set(mkLen(cur))
	case "Bytes":
		set(mk("conv", "[]byte", x.Value().Type(), nil, cur))
	case "Reset":
		st.mem[c] = mkStr("")
	case "Grow":
	case "Truncate":
		if e.pol.Deref {
			e.bounds(st, args[1], mkLen(cur), x.Pos(), true, cur)
		}
		if n, k := args[1].intVal(); k && n == 0 {
			st.mem[c] = mkStr("")
		} else {
			st.mem[c] = mk("trunc", "", types.Typ[types.String], nil, cur, args[1])
		}
	default:
		return false
	}
	return true
}

func sliceElems(t *Term) ([]*Term, bool) {
	switch t.Op {
	case "slicelit":
		return t.Args[1:], true
	case "const":
		if t.isNil() {
			return nil, true
		}
	case "append":
		if b, ok := sliceElems(t.Args[0]); ok {
			return append(append([]*Term(nil), b...), t.Args[1:]...), true
		}
	}
	return nil, false
}

func fmtOne(verb string, a *Term) *Term {
	v := a
	if a.Op == "iface" {
		v = a.Args[0]
	}
	if (verb == "%s" || verb == "%v") && a.Op == "iface" && isString(a.Obj.(types.Type)) && len(methodNames(a.Obj.(types.Type))) == 0 {
		return v
	}
	if (verb == "%d" || verb == "%v") && a.Op == "iface" && isInteger(a.Obj.(types.Type)) {
		return fmtInt(v)
	}
	if verb == "%v" || verb == "%s" {
		if a.Op == "iface" && isBoolType(a.Obj.(types.Type)) && verb == "%v" {
			return mk("call", "strconv.FormatBool", types.Typ[types.String], nil, v)
		}
		verb = "%s"
	}
	return mk("fmt", verb, types.Typ[types.String], nil, a)
}

func methodNames(t types.Type) []string {
	ms := types.NewMethodSet(t)
	var r []string
	for i := 0; i < ms.Len(); i++ {
		n := ms.At(i).Obj().Name()
		if n == "String" || n == "Error" || n == "Format" {
			r = append(r, n)
		}
	}
	return r
}

func fmtInt(v *Term) *Term {
	if n, ok := v.intVal(); ok {
		return mkStr(strconv.FormatInt(n, 10))
	}
	return mk("fmt", "%d", types.Typ[types.String], nil, v)
}

func sprintArgs(list *Term, ln bool) *Term {
	els, ok := sliceElems(list)
	if !ok {
		return mk("call", "fmt.Sprint", types.Typ[types.String], nil, list)
	}
	if len(els) == 1 {
		r := fmtOne("%v", els[0])
		if ln {
			r = mkCat(r, mkStr("\n"))
		}
		return r
	}
	return mk("call", "fmt.Sprint", types.Typ[types.String], nil, els...)
}

// sprintf normalises a formatted print to a concatenation.
func sprintf(f, list *Term) *Term {
	s, ok := f.strVal()
	els, ok2 := sliceElems(list)
	if !ok || !ok2 {
		// Sprintf(fmt) with no arguments of a non-constant format
		return mk("call", "fmt.Sprintf", types.Typ[types.String], nil, f, list)
	}
	var parts []*Term
	i, n := 0, 0
	for i < len(s) {
		j := strings.IndexByte(s[i:], '%')
		if j < 0 {
			parts = append(parts, mkStr(s[i:]))
			break
		}
		parts = append(parts, mkStr(s[i:i+j]))
		i += j
		k := i + 1
		for k < len(s) && strings.IndexByte("+-# 0123456789.", s[k]) >= 0 {
			k++
		}
		if k >= len(s) {
			return mk("call", "fmt.Sprintf", types.Typ[types.String], nil, f, list)
		}
		verb := s[i : k+1]
		i = k + 1
		if verb == "%%" {
			parts = append(parts, mkStr("%"))
			continue
		}
		if n >= len(els) {
			return mk("call", "fmt.Sprintf", types.Typ[types.String], nil, f, list)
		}
		parts = append(parts, fmtOne(verb, els[n]))
		n++
	}
	if n < len(els) {
		return mk("call", "fmt.Sprintf", types.Typ[types.String], nil, f, list)
	}
	return mkCat(parts...)
}

// foldExt normalises well known pure library calls.
func foldExt(full string, args []*Term, typ types.Type) *Term {
	str := func(i int) (string, bool) { return args[i].strVal() }
	switch full {
	case "fmt.Sprintf":
		return sprintf(args[0], args[1])
	case "fmt.Sprint":
		return sprintArgs(args[0], false)
	case "os.IsNotExist", "os.IsExist", "os.IsPermission", "os.IsTimeout":
		// a predicate on errors like errors.Is(err, os.ErrNotExist)
		return mk("call", full, typ, nil, args...)
	case "strconv.Itoa":
		return fmtInt(args[0])
	case "strconv.FormatInt":
		if b, ok := args[1].intVal(); ok && b == 10 {
			return fmtInt(args[0])
		}
	case "strings.Repeat":
		if n, ok := args[1].intVal(); ok && n >= 0 && n < 64 {
			if s, ok := str(0); ok {
				return mkStr(strings.Repeat(s, int(n)))
			}
		}
	case "strings.ToLower", "strings.ToUpper", "strings.TrimSpace":
		if s, ok := str(0); ok {
			switch full {
			case "strings.ToLower":
				return mkStr(strings.ToLower(s))
			case "strings.ToUpper":
				return mkStr(strings.ToUpper(s))
			}
			return mkStr(strings.TrimSpace(s))
		}
	case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains":
		a, ok := str(0)
		b, ok2 := str(1)
		if ok && ok2 {
			switch full {
			case "strings.HasPrefix":
				return mkBool(strings.HasPrefix(a, b))
			case "strings.HasSuffix":
				return mkBool(strings.HasSuffix(a, b))
			}
			return mkBool(strings.Contains(a, b))
		}
	case "strings.Join":
		if els, ok := sliceElems(args[0]); ok {
			var ps []*Term
			for i, x := range els {
				if i > 0 {
					ps = append(ps, args[1])
				}
				ps = append(ps, x)
			}
			return mkCat(ps...)
		}
	case "(reflect.Value).Type", "reflect.TypeOf":
	case "unicode/utf8.RuneCountInString":
		if s, ok := str(0); ok {
			return mkInt(int64(len([]rune(s))))
		}
		return mkLen(runes(args[0]))
	}
	return nil
}

var _ = constant.MakeInt64
var _ = sort.Strings
