package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Points-to based effect analysis (inclusion constraints, field sensitive,
// context insensitive, call graph built on the fly from the given roots).

// obj is an abstract object.
type obj struct {
	name   string
	kind   string // "alloc", "global", "root" (symbolic), "func", "ext"
	typ    types.Type
	fn     *ssa.Function
	bind   []ssa.Value // bindings of a closure
	shared string      // non-empty: reachable from a package variable (set after solving)
	pos    token.Pos
}

func (o *obj) symbolic() bool { return o.kind == "root" }

type objSet map[*obj]bool

func (s objSet) addAll(t objSet) bool {
	ch := false
	for o := range t {
		if !s[o] {
			s[o] = true
			ch = true
		}
	}
	return ch
}

type objField struct {
	o *obj
	f string
}

// write is one instruction that may change memory.
type write struct {
	in   ssa.Instruction
	fn   *ssa.Function
	objs objSet
	what string
	how  string // "", "sync", "append"
}

type ptsAnalysis struct {
	p       *Prog
	vals    map[ssa.Value]objSet
	fields  map[objField]objSet
	rets    map[*ssa.Function][]objSet
	reach   map[*ssa.Function]bool
	order   []*ssa.Function
	objs    map[any]*obj
	changed bool
	writes  map[ssa.Instruction]*write
	// extra results
	extCalls map[string]bool
	stop     func(f *ssa.Function) bool // functions that are not followed
	sums     map[string]bool
}

func newPts(p *Prog) *ptsAnalysis {
	return &ptsAnalysis{p: p, vals: map[ssa.Value]objSet{}, fields: map[objField]objSet{}, rets: map[*ssa.Function][]objSet{},
		reach: map[*ssa.Function]bool{}, objs: map[any]*obj{}, writes: map[ssa.Instruction]*write{}, extCalls: map[string]bool{}}
}

func (a *ptsAnalysis) object(key any, kind, name string, t types.Type, pos token.Pos) *obj {
	o := a.objs[key]
	if o == nil {
		o = &obj{name: name, kind: kind, typ: t, pos: pos}
		a.objs[key] = o
	}
	return o
}

func hasPointers(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if hasPointers(u.At(i).Type()) {
				return true
			}
		}
		return false
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPointers(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return hasPointers(u.Elem())
	}
	return true
}

func (a *ptsAnalysis) val(v ssa.Value) objSet {
	s := a.vals[v]
	if s == nil {
		s = objSet{}
		a.vals[v] = s
	}
	switch x := v.(type) {
	case *ssa.Global:
		s[a.object(x, "global", "package variable "+x.Pkg.Pkg.Name()+"."+x.Name(), x.Type(), x.Pos())] = true
	case *ssa.Function:
		o := a.object(x, "func", x.String(), x.Type(), x.Pos())
		o.fn = x
		s[o] = true
	}
	return s
}

func (a *ptsAnalysis) flow(dst, src objSet) {
	if dst.addAll(src) {
		a.changed = true
	}
}

func (a *ptsAnalysis) field(o *obj, f string) objSet {
	if o.symbolic() {
		return objSet{o: true}
	}
	k := objField{o, f}
	s := a.fields[k]
	if s == nil {
		s = objSet{}
		a.fields[k] = s
	}
	return s
}

// addr: an address value points to "sub-objects"; we model FieldAddr and
// IndexAddr as pairs resolved at the access.
func (a *ptsAnalysis) resolveAddr(v ssa.Value) (objSet, string) {
	f := ""
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			st := x.X.Type().Underlying().(*types.Pointer).Elem()
			f = st.Underlying().(*types.Struct).Field(x.Field).Name()
			return a.baseOf(x.X, f)
		case *ssa.IndexAddr:
			return a.baseOf(x.X, "[]")
		case *ssa.ChangeType:
			v = x.X
			continue
		}
		return a.val(v), "*"
	}
}

// baseOf: an inner struct or array (a field of a struct) belongs to the outer
// object; its fields are kept under the field's own name.
func (a *ptsAnalysis) baseOf(v ssa.Value, f string) (objSet, string) {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		s, _ := a.resolveAddr(x)
		return s, f
	case *ssa.IndexAddr:
		s, _ := a.resolveAddr(x)
		return s, f
	}
	return a.val(v), f
}

// structFields lists the field names of a struct type, inner structs included.
func structFields(t types.Type, out map[string]types.Type) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			out[u.Field(i).Name()] = ft
			structFields(ft, out)
		}
	case *types.Array:
		out["[]"] = u.Elem()
		structFields(u.Elem(), out)
	}
}

func isAggregate(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func (a *ptsAnalysis) load(dst objSet, addr ssa.Value, t types.Type) {
	objs, f := a.resolveAddr(addr)
	for o := range objs {
		if isAggregate(t) {
			fs := map[string]types.Type{}
			structFields(t, fs)
			for n := range fs {
				a.flow(dst, a.field(o, n))
			}
			if f != "*" {
				a.flow(dst, a.field(o, f))
			}
			continue
		}
		a.flow(dst, a.field(o, f))
	}
}

func (a *ptsAnalysis) store(addr ssa.Value, src objSet, t types.Type) {
	objs, f := a.resolveAddr(addr)
	for o := range objs {
		if o.symbolic() {
			continue
		}
		if isAggregate(t) {
			fs := map[string]types.Type{}
			structFields(t, fs)
			for n, ft := range fs {
				for s := range src {
					if a.fits(s, ft) {
						a.flow(a.field(o, n), objSet{s: true})
					}
				}
			}
			continue
		}
		a.flow(a.field(o, f), src)
	}
}

// fits: an object may be the value of type t.
func (a *ptsAnalysis) fits(o *obj, t types.Type) bool {
	if o.symbolic() || o.kind == "ext" || o.typ == nil {
		return hasPointers(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Interface:
		if _, isI := o.typ.Underlying().(*types.Interface); isI {
			return true
		}
		return types.Implements(o.typ, u)
	case *types.Struct, *types.Array:
		return true
	}
	return types.Identical(o.typ.Underlying(), t.Underlying())
}

// solve runs to the fixpoint.
func (a *ptsAnalysis) solve(roots ...*ssa.Function) {
	for _, r := range roots {
		a.enter(r)
	}
	for {
		a.changed = false
		for i := 0; i < len(a.order); i++ {
			a.function(a.order[i])
		}
		if !a.changed {
			break
		}
	}
}

func (a *ptsAnalysis) enter(f *ssa.Function) {
	if f == nil || a.reach[f] || len(f.Blocks) == 0 {
		return
	}
	if a.stop != nil && a.stop(f) {
		return
	}
	a.reach[f] = true
	a.order = append(a.order, f)
	a.rets[f] = make([]objSet, f.Signature.Results().Len())
	for i := range a.rets[f] {
		a.rets[f][i] = objSet{}
	}
	a.changed = true
}

// param makes a parameter of a root symbolic.
func (a *ptsAnalysis) param(f *ssa.Function, i int, name string) {
	if f == nil || i >= len(f.Params) {
		return
	}
	o := a.object("root "+name, "root", name, nil, f.Pos())
	a.val(f.Params[i])[o] = true
}

func (a *ptsAnalysis) alloc(v ssa.Value, dst objSet, t types.Type) *obj {
	o := a.object(v, "alloc", "allocation", t, v.Pos())
	if !dst[o] {
		dst[o] = true
		a.changed = true
	}
	return o
}

func (a *ptsAnalysis) note(in ssa.Instruction, objs objSet, what, how string) {
	w := a.writes[in]
	if w == nil {
		w = &write{in: in, fn: in.Parent(), objs: objSet{}, what: what, how: how}
		a.writes[in] = w
	}
	w.objs.addAll(objs)
}

func (a *ptsAnalysis) function(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			a.instr(f, in)
		}
	}
}

func (a *ptsAnalysis) instr(f *ssa.Function, in ssa.Instruction) {
	if v, ok := in.(ssa.Value); ok {
		switch in.(type) {
		case *ssa.Call, *ssa.Alloc, *ssa.MakeClosure:
		default:
			if !hasPointers(v.Type()) {
				return
			}
		}
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		a.alloc(x, a.val(x), x.Type())
	case *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		v := x.(ssa.Value)
		a.alloc(v, a.val(v), v.Type())
	case *ssa.MakeClosure:
		o := a.alloc(x, a.val(x), x.Type())
		o.kind, o.fn, o.bind = "func", x.Fn.(*ssa.Function), x.Bindings
	case *ssa.MakeInterface:
		if isAggregate(x.X.Type()) {
			// a boxed copy
			o := a.alloc(x, a.val(x), x.X.Type())
			fs := map[string]types.Type{}
			structFields(x.X.Type(), fs)
			for n, ft := range fs {
				for s := range a.val(x.X) {
					if a.fits(s, ft) {
						a.flow(a.field(o, n), objSet{s: true})
					}
				}
			}
			return
		}
		a.flow(a.val(x), a.val(x.X))
	case *ssa.ChangeInterface:
		a.flow(a.val(x), a.val(x.X))
	case *ssa.ChangeType:
		a.flow(a.val(x), a.val(x.X))
	case *ssa.Convert:
		if hasPointers(x.X.Type()) {
			a.flow(a.val(x), a.val(x.X))
		} else {
			a.alloc(x, a.val(x), x.Type()) // []byte(s)
		}
	case *ssa.SliceToArrayPointer:
		a.flow(a.val(x), a.val(x.X))
	case *ssa.TypeAssert:
		d := a.val(x)
		for o := range a.val(x.X) {
			if a.assertable(o, x.AssertedType) {
				a.flow(d, objSet{o: true})
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			a.flow(a.val(x), a.val(e))
		}
	case *ssa.Slice:
		if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			_ = pt
			objs, _ := a.resolveAddr(x.X)
			a.flow(a.val(x), objs)
			return
		}
		a.flow(a.val(x), a.val(x.X))
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			a.flow(a.val(x), a.callResult(call, x.Index))
			return
		}
		for o := range a.val(x.Tuple) {
			if a.assertable(o, x.Type()) {
				a.flow(a.val(x), objSet{o: true})
			}
		}
	case *ssa.Field:
		for o := range a.val(x.X) {
			if a.fits(o, x.Type()) {
				a.flow(a.val(x), objSet{o: true})
			}
		}
	case *ssa.Index:
		a.flow(a.val(x), a.val(x.X))
	case *ssa.FieldAddr, *ssa.IndexAddr:
		// resolved at the access; when the address itself escapes it stands for
		// the object
		v := x.(ssa.Value)
		objs, _ := a.resolveAddr(v)
		a.flow(a.val(v), objs)
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			a.load(a.val(x), x.X, x.Type())
		case token.ARROW:
			for o := range a.val(x.X) {
				a.flow(a.val(x), a.field(o, "[]"))
			}
		}
	case *ssa.Lookup:
		for o := range a.val(x.X) {
			a.flow(a.val(x), a.field(o, "[]"))
		}
	case *ssa.Range:
		a.flow(a.val(x), a.val(x.X))
	case *ssa.Next:
		for o := range a.val(x.Iter) {
			a.flow(a.val(x), a.field(o, "[]"))
			a.flow(a.val(x), a.field(o, "[k]"))
		}
	case *ssa.Store:
		objs, fl := a.resolveAddr(x.Addr)
		a.note(x, objs, writeName(x.Addr, fl), "")
		if hasPointers(x.Val.Type()) {
			a.store(x.Addr, a.val(x.Val), x.Val.Type())
		}
	case *ssa.MapUpdate:
		a.note(x, a.val(x.Map), "map entry", "")
		for o := range a.val(x.Map) {
			if !o.symbolic() {
				a.flow(a.field(o, "[]"), a.val(x.Value))
				a.flow(a.field(o, "[k]"), a.val(x.Key))
			}
		}
	case *ssa.Send:
		for o := range a.val(x.Chan) {
			a.flow(a.field(o, "[]"), a.val(x.X))
		}
		a.note(x, a.val(x.Chan), "channel", "sync")
	case *ssa.Return:
		for i, r := range x.Results {
			a.flow(a.rets[f][i], a.val(r))
		}
	case *ssa.Call:
		a.call(x, x)
	case *ssa.Go:
		a.call(x, nil)
	case *ssa.Defer:
		a.call(x, nil)
	}
}

func writeName(addr ssa.Value, f string) string {
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		st := x.X.Type().Underlying().(*types.Pointer).Elem()
		return "field " + shortType(st) + "." + f
	case *ssa.IndexAddr:
		return "element"
	case *ssa.Global:
		return "variable " + x.Name()
	}
	return "value"
}

func (a *ptsAnalysis) assertable(o *obj, t types.Type) bool {
	if o.symbolic() || o.kind == "ext" || o.typ == nil {
		return true
	}
	if it, ok := t.Underlying().(*types.Interface); ok {
		return types.Implements(o.typ, it)
	}
	if tp, ok := t.(*types.Tuple); ok {
		for i := 0; i < tp.Len(); i++ {
			if a.assertable(o, tp.At(i).Type()) {
				return true
			}
		}
		return false
	}
	if o.kind == "func" {
		_, ok := t.Underlying().(*types.Signature)
		return ok
	}
	// an allocation of T is a *T pointer; slices over arrays carry the array type
	if types.Identical(o.typ, t) || types.Identical(o.typ.Underlying(), t.Underlying()) {
		return true
	}
	if _, ok := t.Underlying().(*types.Slice); ok {
		if pt, ok := o.typ.Underlying().(*types.Pointer); ok {
			_, isArr := pt.Elem().Underlying().(*types.Array)
			return isArr
		}
	}
	if isAggregate(t) {
		return true
	}
	return false
}

func (a *ptsAnalysis) callResult(call *ssa.Call, i int) objSet {
	r := objSet{}
	ts := a.targets(call)
	for _, g := range ts {
		if a.reach[g] && i < len(a.rets[g]) {
			r.addAll(a.rets[g][i])
		}
	}
	if a.isExternal(call) {
		var t types.Type
		if tp, ok := call.Type().(*types.Tuple); ok {
			t = tp.At(i).Type()
		} else {
			t = call.Type()
		}
		for o := range a.val(call) {
			if hasPointers(t) && a.assertable(o, t) {
				r[o] = true
			}
		}
	}
	return r
}

// isExternal: the call may run code outside the module.
func (a *ptsAnalysis) isExternal(ci ssa.CallInstruction) bool {
	cc := ci.Common()
	if cc.IsInvoke() {
		return len(a.p.callTargets(ci)) == 0
	}
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return false
	}
	if f := cc.StaticCallee(); f != nil {
		return len(f.Blocks) == 0 || !a.p.inRepo(f)
	}
	return true // a function value: may be a custom function
}

func (a *ptsAnalysis) targets(ci ssa.CallInstruction) []*ssa.Function {
	cc := ci.Common()
	if cc.IsInvoke() {
		known := true
		set := map[*ssa.Function]bool{}
		var r []*ssa.Function
		for o := range a.val(cc.Value) {
			if o.symbolic() || o.kind == "ext" || o.typ == nil {
				known = false
				break
			}
			if f := a.p.method(a.typeName(o.typ), cc.Method.Name()); f != nil && !set[f] {
				set[f] = true
				r = append(r, f)
			}
		}
		if known {
			sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
			return r
		}
		return a.p.callTargets(ci)
	}
	if f := cc.StaticCallee(); f != nil {
		if a.p.inRepo(f) {
			return []*ssa.Function{f}
		}
		return nil
	}
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return nil
	}
	var r []*ssa.Function
	for o := range a.val(cc.Value) {
		if o.fn != nil && a.p.inRepo(o.fn) {
			r = append(r, o.fn)
		}
	}
	for o := range a.val(cc.Value) {
		if o.kind == "root" || o.kind == "ext" {
			return a.p.callTargets(ci)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

func (a *ptsAnalysis) typeName(t types.Type) string { return shortType(t) }

// extMutates: argument positions that an external function writes to.
func extMutates(n string) (args []int, how string) {
	switch {
	case strings.HasPrefix(n, "sort."):
		switch n {
		case "sort.Strings", "sort.Ints", "sort.Float64s", "sort.Slice", "sort.SliceStable", "sort.Sort", "sort.Stable":
			return []int{0}, ""
		}
	case strings.HasPrefix(n, "slices."):
		b, _, _ := strings.Cut(strings.TrimPrefix(n, "slices."), "[")
		switch b {
		case "Sort", "SortFunc", "SortStableFunc", "Reverse", "Delete", "DeleteFunc", "Compact", "CompactFunc", "Replace", "Insert", "Grow":
			return []int{0}, ""
		}
	case strings.HasPrefix(n, "maps."):
		b, _, _ := strings.Cut(strings.TrimPrefix(n, "maps."), "[")
		switch b {
		case "Copy", "DeleteFunc", "Insert":
			return []int{0}, ""
		}
	case strings.HasPrefix(n, "(*bytes.Buffer)."), strings.HasPrefix(n, "(*strings.Builder)."):
		switch n[strings.LastIndex(n, ".")+1:] {
		case "String", "Len", "Bytes", "Cap", "Available":
			return nil, ""
		}
		return []int{0}, ""
	case strings.HasPrefix(n, "(*math/rand."), strings.HasPrefix(n, "(*math/rand/v2."), strings.HasPrefix(n, "(*container/"), strings.HasPrefix(n, "(*bufio."), strings.HasPrefix(n, "(*strings.Reader)."), strings.HasPrefix(n, "(*bytes.Reader)."):
		return []int{0}, ""
	case strings.HasPrefix(n, "(*sync.Map)."):
		switch n[strings.LastIndex(n, ".")+1:] {
		case "Load", "Range":
			return nil, ""
		}
		return []int{0}, "sync"
	case strings.HasPrefix(n, "(*sync/atomic."):
		if strings.HasSuffix(n, ".Load") {
			return nil, ""
		}
		return []int{0}, "sync"
	case strings.HasPrefix(n, "sync/atomic."):
		if strings.HasPrefix(n, "sync/atomic.Load") {
			return nil, ""
		}
		return []int{0}, "sync"
	case strings.HasPrefix(n, "(reflect.Value).Set"), n == "(reflect.Value).Clear", n == "(reflect.Value).Grow":
		return []int{0}, ""
	case n == "reflect.Copy", strings.HasPrefix(n, "reflect.Append"), n == "fmt.Fprint", n == "fmt.Fprintf", n == "fmt.Fprintln", n == "io.WriteString", n == "io.Copy":
		return []int{0}, ""
	case n == "encoding/json.Unmarshal":
		return []int{1}, ""
	}
	return nil, ""
}

// procState: external calls that change the state of the process.
func procState(n string) bool {
	switch n {
	case "os.Setenv", "os.Unsetenv", "os.Chdir", "os.Clearenv", "os.WriteFile", "os.Remove", "os.RemoveAll", "os.Rename", "os.Mkdir", "os.MkdirAll", "os.Create", "os.Truncate", "math/rand.Seed":
		return true
	}
	return false
}

func (a *ptsAnalysis) bindCall(g *ssa.Function, cc *ssa.CallCommon, recv bool) {
	a.enter(g)
	if !a.reach[g] {
		return
	}
	var args []ssa.Value
	if cc.IsInvoke() {
		args = append(args, cc.Value)
	}
	args = append(args, cc.Args...)
	for i, p := range g.Params {
		if i < len(args) {
			if i == 0 && cc.IsInvoke() {
				for o := range a.val(args[i]) {
					if a.assertable(o, p.Type()) {
						a.flow(a.val(p), objSet{o: true})
					}
				}
				continue
			}
			a.flow(a.val(p), a.val(args[i]))
		}
	}
}

func (a *ptsAnalysis) call(ci ssa.CallInstruction, res *ssa.Call) {
	cc := ci.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		a.builtin(ci, b.Name(), res)
		return
	}
	for _, g := range a.targets(ci) {
		a.bindCall(g, cc, false)
		// closure bindings
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			for i, fv := range g.FreeVars {
				a.flow(a.val(fv), a.val(mc.Bindings[i]))
			}
		}
		for o := range a.val(cc.Value) {
			if o.fn == g {
				for i, fv := range g.FreeVars {
					if i < len(o.bind) {
						a.flow(a.val(fv), a.val(o.bind[i]))
					}
				}
			}
		}
		if res != nil && a.reach[g] {
			if _, ok := res.Type().(*types.Tuple); !ok && len(a.rets[g]) == 1 {
				a.flow(a.val(res), a.rets[g][0])
			}
		}
	}
	if !a.isExternal(ci) {
		return
	}
	name := "a function value"
	if f := cc.StaticCallee(); f != nil {
		name = extName(f)
	} else if cc.IsInvoke() {
		name = "interface " + shortType(cc.Value.Type()) + "." + cc.Method.Name()
	}
	a.extCalls[name] = true
	mut, how := extMutates(name)
	for _, i := range mut {
		if i < len(cc.Args) {
			a.note(ci, a.val(cc.Args[i]), "the argument of "+name, how)
		}
	}
	if procState(name) {
		a.note(ci, objSet{a.object("process", "global", "the state of the process", nil, 0): true}, "call of "+name, "")
	}
	// functions handed to it may be called, with anything it was given
	for _, arg := range cc.Args {
		for o := range a.val(arg) {
			if o.fn != nil && a.p.inRepo(o.fn) {
				a.enter(o.fn)
				for i, fv := range o.fn.FreeVars {
					if i < len(o.bind) {
						a.flow(a.val(fv), a.val(o.bind[i]))
					}
				}
				for _, p := range o.fn.Params {
					for _, b := range cc.Args {
						for q := range a.val(b) {
							if a.assertable(q, p.Type()) && hasPointers(p.Type()) {
								a.flow(a.val(p), objSet{q: true})
							}
							// elements of a slice that is sorted, iterated, ...
							if !q.symbolic() {
								for e := range a.field(q, "[]") {
									if a.assertable(e, p.Type()) && hasPointers(p.Type()) {
										a.flow(a.val(p), objSet{e: true})
									}
								}
							}
						}
					}
				}
			}
		}
	}
	if res == nil || !hasPointers(res.Type()) {
		return
	}
	r := a.val(res)
	b, _, _ := strings.Cut(name, "[")
	switch {
	case b == "slices.Clone" || b == "maps.Clone" || b == "slices.Concat" || b == "slices.Sorted" || b == "slices.Collect" || b == "maps.Keys" || b == "maps.Values" || b == "slices.Repeat":
		o := a.alloc(res, r, res.Type())
		for _, arg := range cc.Args {
			for q := range a.val(arg) {
				a.flow(a.field(o, "[]"), a.field(q, "[]"))
				a.flow(a.field(o, "[k]"), a.field(q, "[k]"))
			}
		}
	case strings.HasPrefix(name, "strings.") || strings.HasPrefix(name, "strconv.") || strings.HasPrefix(name, "errors.") || strings.HasPrefix(name, "fmt.") || strings.HasPrefix(name, "os.ReadFile") || strings.HasPrefix(name, "path/filepath."):
		o := a.alloc(res, r, nil)
		o.kind = "ext"
	case cc.StaticCallee() == nil && !cc.IsInvoke():
		// a custom function: its result belongs to it
		o := a.alloc(res, r, nil)
		o.kind = "ext"
	default:
		o := a.alloc(res, r, nil)
		o.kind = "ext"
		if cc.IsInvoke() {
			a.flow(r, a.val(cc.Value))
		}
		for _, arg := range cc.Args {
			a.flow(r, a.val(arg))
			for q := range a.val(arg) {
				if !q.symbolic() && (strings.HasPrefix(name, "(reflect.") || strings.HasPrefix(name, "reflect.")) {
					for k, s := range a.fields {
						if k.o == q {
							a.flow(r, s)
						}
					}
				}
			}
		}
	}
}

func (a *ptsAnalysis) builtin(ci ssa.CallInstruction, n string, res *ssa.Call) {
	cc := ci.Common()
	switch n {
	case "append":
		base := cc.Args[0]
		full := false
		if s, ok := base.(*ssa.Slice); ok && s.Max != nil {
			full = true
		}
		if !full {
			a.note(ci, a.val(base), "spare capacity of the appended slice", "append")
		}
		if res == nil {
			return
		}
		r := a.val(res)
		o := a.alloc(res, r, res.Type())
		a.flow(r, a.val(base))
		for b := range a.val(base) {
			a.flow(a.field(o, "[]"), a.field(b, "[]"))
		}
		if len(cc.Args) > 1 {
			for b := range a.val(cc.Args[1]) {
				for t := range r {
					if !t.symbolic() {
						a.flow(a.field(t, "[]"), a.field(b, "[]"))
					}
				}
			}
		}
	case "copy":
		a.note(ci, a.val(cc.Args[0]), "destination of copy", "")
		for d := range a.val(cc.Args[0]) {
			if d.symbolic() {
				continue
			}
			for s := range a.val(cc.Args[1]) {
				a.flow(a.field(d, "[]"), a.field(s, "[]"))
			}
		}
	case "delete", "clear":
		a.note(ci, a.val(cc.Args[0]), n+" of a map entry", "")
	case "min", "max":
	}
}

// markShared finds the objects that package variables reach.
func (a *ptsAnalysis) markShared() {
	var rec func(o *obj, why string)
	rec = func(o *obj, why string) {
		if o.shared != "" {
			return
		}
		o.shared = why
		for k, s := range a.fields {
			if k.o == o {
				for q := range s {
					rec(q, why)
				}
			}
		}
	}
	var gs []*obj
	for _, o := range a.objs {
		if o.kind == "global" {
			gs = append(gs, o)
		}
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].name < gs[j].name })
	for _, g := range gs {
		rec(g, g.name)
	}
	for _, o := range a.objs {
		if o.symbolic() {
			o.shared = o.name
		}
	}
}

// sortedWrites lists the writes by position.
func (a *ptsAnalysis) sortedWrites() []*write {
	var r []*write
	for _, w := range a.writes {
		r = append(r, w)
	}
	sort.Slice(r, func(i, j int) bool {
		if r[i].in.Pos() != r[j].in.Pos() {
			return r[i].in.Pos() < r[j].in.Pos()
		}
		return fmt.Sprint(r[i].fn, r[i].in) < fmt.Sprint(r[j].fn, r[j].in)
	})
	return r
}
