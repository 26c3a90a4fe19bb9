package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/textwire/textwire/v2"

// Prog is the type-checked program and its SSA form plus derived indexes.
type Prog struct {
	nn    *nonNilFacts
	dir   string
	fset  *token.FileSet
	pkgs  map[string]*packages.Package // by short import path ("", "lexer", ...)
	ssa   *ssa.Program
	spkgs map[string]*ssa.Package
	funcs []*ssa.Function // all repo functions with bodies
	named []types.Type    // all repo pointer-to-named and named types with methods

	uni      map[string]KS
	tsets    map[string]map[string]bool
	typeByNm map[string]types.Type
	rkinds   map[string]KS
	cmeth    map[string]*Term
	mods     map[*ssa.Function]map[string]bool
	addrTkn  map[string][]*ssa.Function
	globals  map[*ssa.Global]*Term // effectively constant globals
	gtables  map[*Term]bool        // maps built by initialisers and never updated later
	gmem     *State                // memory built by the package initialisers
	gwritten map[*ssa.Global]bool
	fwritten map[string]bool // field classes written through pointers
	recur    map[*ssa.Function]bool
	loops    map[*ssa.Function]*loopInfo
}

func loadProg(dir string) (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule | packages.NeedEmbedFiles,
		Dir:  dir,
		Fset: token.NewFileSet(),
		Env:  append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "GOSUMDB=off"),
	}
	cfg.Mode &^= packages.NeedDeps
	cfg.Mode |= packages.NeedExportFile
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	if o := intRanges(cfg.Fset, pkgs); o != nil {
		cfg.Overlay, cfg.Fset = o, token.NewFileSet()
		if pkgs, err = packages.Load(cfg, "./..."); err != nil {
			return nil, err
		}
	}
	p := &Prog{dir: dir, fset: cfg.Fset, pkgs: map[string]*packages.Package{}, spkgs: map[string]*ssa.Package{},
		uni: map[string]KS{}, tsets: map[string]map[string]bool{}, typeByNm: map[string]types.Type{},
		cmeth: map[string]*Term{}, addrTkn: map[string][]*ssa.Function{}, globals: map[*ssa.Global]*Term{},
		gwritten: map[*ssa.Global]bool{}, fwritten: map[string]bool{}, recur: map[*ssa.Function]bool{}, loops: map[*ssa.Function]*loopInfo{}}
	var use []*packages.Package
	for _, k := range pkgs {
		if strings.Contains(k.PkgPath, "/textwire/example") || strings.Contains(k.PkgPath, "/repl") || k.Name == "main" {
			continue
		}
		for _, e := range k.Errors {
			return nil, fmt.Errorf("%s: %v", k.PkgPath, e)
		}
		use = append(use, k)
	}
	sort.Slice(use, func(i, j int) bool { return use[i].PkgPath < use[j].PkgPath })
	prog, spkgs := ssautil.Packages(use, ssa.InstantiateGenerics)
	prog.Build()
	p.ssa = prog
	for i, k := range use {
		short := strings.TrimPrefix(strings.TrimPrefix(k.PkgPath, modPath), "/")
		p.pkgs[short] = k
		p.spkgs[short] = spkgs[i]
	}
	all := ssautil.AllFunctions(prog)
	seen := map[*ssa.Function]bool{}
	for f := range all {
		if p.inRepo(f) && len(f.Blocks) > 0 && !seen[f] {
			seen[f] = true
			p.funcs = append(p.funcs, f)
		}
	}
	sort.Slice(p.funcs, func(i, j int) bool {
		if p.funcs[i].String() != p.funcs[j].String() {
			return p.funcs[i].String() < p.funcs[j].String()
		}
		return p.funcs[i].Pos() < p.funcs[j].Pos()
	})
	// named types
	var shorts []string
	for s := range p.spkgs {
		shorts = append(shorts, s)
	}
	sort.Strings(shorts)
	for _, s := range shorts {
		sc := p.pkgs[s].Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			t := tn.Type()
			p.typeByNm[shortType(t)] = t
			p.typeByNm[shortType(types.NewPointer(t))] = types.NewPointer(t)
			if !isIface(t) {
				p.named = append(p.named, t, types.NewPointer(t))
			}
		}
	}
	for _, b := range types.Typ {
		p.typeByNm[b.Name()] = b
	}
	p.indexEffects()
	p.indexRecursion()
	p.evalInits()
	return p, nil
}

func (p *Prog) inRepo(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	if f.Pkg != nil {
		return strings.HasPrefix(f.Pkg.Pkg.Path(), modPath)
	}
	if f.Parent() != nil {
		return p.inRepo(f.Parent())
	}
	if f.Origin() != nil && f.Origin() != f {
		return p.inRepo(f.Origin())
	}
	if o := f.Object(); o != nil && o.Pkg() != nil { // wrappers, bound methods
		return strings.HasPrefix(o.Pkg().Path(), modPath)
	}
	return false
}

// fn finds a function by package and name; methods as "Type.Name".
func (p *Prog) fn(pkg, name string) *ssa.Function {
	sp := p.spkgs[pkg]
	if sp == nil {
		return nil
	}
	if t, m, ok := strings.Cut(name, "."); ok {
		o := sp.Pkg.Scope().Lookup(t)
		if o == nil {
			return nil
		}
		for _, typ := range []types.Type{types.NewPointer(o.Type()), o.Type()} {
			ms := p.ssa.MethodSets.MethodSet(typ)
			for i := 0; i < ms.Len(); i++ {
				if ms.At(i).Obj().Name() == m {
					f := p.ssa.MethodValue(ms.At(i))
					if f != nil && f.Synthetic == "" {
						return f
					}
				}
			}
		}
		return nil
	}
	return sp.Func(name)
}

// fullName is the short qualified name used by rules: "pkg.Func" or
// "pkg.Type.Method" for the repo, the SSA name for everything else.
func (p *Prog) fullName(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	g := f
	if f.Origin() != nil {
		g = f.Origin()
	}
	if o, ok := g.Object().(*types.Func); ok {
		sig := o.Type().(*types.Signature)
		pk := ""
		if o.Pkg() != nil {
			pk = o.Pkg().Path()
			if strings.HasPrefix(pk, modPath) {
				pk = o.Pkg().Name()
			}
		}
		if r := sig.Recv(); r != nil {
			t := r.Type()
			if pt, ok := t.(*types.Pointer); ok {
				t = pt.Elem()
			}
			if n, ok := t.(*types.Named); ok {
				return pk + "." + n.Obj().Name() + "." + o.Name()
			}
		}
		return pk + "." + o.Name()
	}
	return f.String()
}

func (p *Prog) pos(x token.Pos) string {
	ps := p.fset.Position(x)
	r, err := filepath.Rel(p.dir, ps.Filename)
	if err != nil {
		r = ps.Filename
	}
	return fmt.Sprintf("%s:%d", r, ps.Line)
}

// universe is the set of possible dynamic types for a static type.
func (p *Prog) universe(t types.Type) KS {
	if t == nil || !isIface(t) {
		return KS{Neg: true}
	}
	n := shortType(t)
	if k, ok := p.uni[n]; ok {
		return k
	}
	k := KS{Neg: true}
	if nt, ok := t.(*types.Named); ok && nt.Obj().Pkg() != nil && strings.HasPrefix(nt.Obj().Pkg().Path(), modPath) {
		it := t.Underlying().(*types.Interface)
		if it.NumMethods() > 0 {
			m := map[string]bool{"nil": true}
			for _, c := range p.named {
				if types.Implements(c, it) {
					if _, isPtr := c.(*types.Pointer); !isPtr || !types.Implements(c.(*types.Pointer).Elem(), it) {
						m[shortType(c)] = true
					}
				}
			}
			k = KS{Set: m}
		}
	}
	p.uni[n] = k
	return k
}

// typeSet lists the dynamic types accepted by an istype atom.
func (p *Prog) typeSet(c *Term) map[string]bool {
	t := c.Obj.(types.Type)
	if !isIface(t) {
		return map[string]bool{shortType(t): true}
	}
	k := p.universe(t)
	if k.Neg {
		return nil
	}
	m := map[string]bool{}
	for n := range k.Set {
		if n != "nil" {
			m[n] = true
		}
	}
	return m
}

func (p *Prog) inTypeSet(c *Term, name string) bool {
	if name == "nil" {
		return false
	}
	t := c.Obj.(types.Type)
	if !isIface(t) {
		return shortType(t) == name
	}
	it := t.Underlying().(*types.Interface)
	d := p.typeByNm[name]
	return d != nil && types.Implements(d, it)
}

func mkIsType(t types.Type, x *Term) *Term {
	return mk("istype", shortType(t), types.Typ[types.Bool], t, x)
}

// method finds the method of a dynamic type given by short name.
func (p *Prog) method(typeName, name string) *ssa.Function {
	t := p.typeByNm[typeName]
	if t == nil {
		return nil
	}
	ms := p.ssa.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.ssa.MethodValue(ms.At(i))
		}
	}
	return nil
}

// constMethod returns the constant a niladic method always returns on the
// given dynamic type, or nil.
func (p *Prog) constMethod(typeName, name string) *Term {
	key := typeName + "." + name
	if t, ok := p.cmeth[key]; ok {
		return t
	}
	p.cmeth[key] = nil
	f := p.method(typeName, name)
	if f == nil || len(f.Blocks) == 0 || len(f.Params) != 1 {
		return nil
	}
	e := newExec(p, &Policy{})
	rs := e.run(f, []*Term{mk("param", "recv", f.Params[0].Type(), nil)}, newFacts())
	var c *Term
	for _, r := range rs {
		if r.Outcome != "return" || len(r.Ret) != 1 || !r.Ret[0].isConst() || c != nil && c != r.Ret[0] {
			return nil
		}
		c = r.Ret[0]
	}
	p.cmeth[key] = c
	return c
}

// constMethodArgs evaluates a boolean method with constant arguments.
func (p *Prog) constMethodArgs(typeName, name string, args []*Term) *Term {
	key := typeName + "." + name
	for _, a := range args {
		if !a.isConst() {
			return nil
		}
		key += "|" + a.Sym
	}
	if t, ok := p.cmeth[key]; ok {
		return t
	}
	p.cmeth[key] = nil
	f := p.method(typeName, name)
	if f == nil || len(f.Blocks) == 0 || len(f.Params) != 1+len(args) {
		return nil
	}
	e := newExec(p, &Policy{})
	rs := e.run(f, append([]*Term{mk("param", "recv", f.Params[0].Type(), nil)}, args...), newFacts())
	var c *Term
	for _, r := range rs {
		if r.Outcome != "return" || len(r.Ret) != 1 || !r.Ret[0].isConst() || c != nil && c != r.Ret[0] {
			return nil
		}
		c = r.Ret[0]
	}
	p.cmeth[key] = c
	return c
}

// implementers lists the repo methods an interface call can reach.
func (p *Prog) implementers(it types.Type, name string) []*ssa.Function {
	k := p.universe(it)
	var r []*ssa.Function
	if !k.Neg {
		for _, n := range k.names() {
			if n == "nil" {
				continue
			}
			if f := p.method(n, name); f != nil {
				r = append(r, f)
			}
		}
	}
	return r
}

// ------------------------------------------------------------- effects

// rootField names the location class a store address belongs to.
func rootClass(v ssa.Value) (class string, base ssa.Value) {
	last := ""
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			st := x.X.Type().Underlying().(*types.Pointer).Elem()
			last = shortType(st) + "." + st.Underlying().(*types.Struct).Field(x.Field).Name()
			v = x.X
			continue
		case *ssa.IndexAddr:
			t := x.X.Type().Underlying()
			if _, ok := t.(*types.Pointer); ok { // array element
				v = x.X
				if last == "" {
					last = "elem:array"
				}
				continue
			}
			return "elem:" + shortType(x.X.Type()), x.X
		case *ssa.Global:
			return "global:" + x.String(), x
		case *ssa.ChangeType:
			v = x.X
			continue
		}
		break
	}
	if last == "" {
		last = "deref:" + shortType(v.Type())
	}
	return last, v
}

func bufferWriteRecv(c *ssa.CallCommon) ssa.Value {
	f := c.StaticCallee()
	if f == nil {
		return nil
	}
	n := f.String()
	if strings.HasPrefix(n, "(*bytes.Buffer).") || strings.HasPrefix(n, "(*strings.Builder).") {
		switch f.Name() {
		case "String", "Len", "Bytes", "Cap":
			return nil
		}
		return c.Args[0]
	}
	if n == "fmt.Fprint" || n == "fmt.Fprintf" || n == "fmt.Fprintln" || n == "io.WriteString" {
		if m, ok := c.Args[0].(*ssa.MakeInterface); ok {
			return m.X
		}
	}
	return nil
}

func isFreshBase(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
		return true
	case *ssa.Slice:
		return isFreshBase(x.X)
	}
	return false
}

func (p *Prog) directMods(f *ssa.Function, blocks []*ssa.BasicBlock, includeFresh bool, out map[string]bool, callees func(ssa.CallInstruction)) {
	for _, b := range blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				c, base := rootClass(x.Addr)
				if includeFresh || !isFreshBase(base) {
					out[c] = true
				}
			case *ssa.MapUpdate:
				if includeFresh || !isFreshBase(x.Map) {
					out["map:"+shortType(x.Map.Type().Underlying())] = true
				}
			}
			if ci, ok := in.(ssa.CallInstruction); ok {
				cc := ci.Common()
				if b, ok := cc.Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear") {
					if includeFresh || !isFreshBase(cc.Args[0]) {
						out["map:"+shortType(cc.Args[0].Type().Underlying())] = true
					}
				} else if ok && b.Name() == "copy" {
					if includeFresh || !isFreshBase(cc.Args[0]) {
						out["elem:"+shortType(cc.Args[0].Type())] = true
					}
				}
				if r := bufferWriteRecv(cc); r != nil {
					if includeFresh || !isFreshBase(r) {
						out["buf"] = true
					}
				}
				callees(ci)
			}
		}
	}
}

// callTargets resolves a call to the repo functions it may run.
func (p *Prog) callTargets(ci ssa.CallInstruction) []*ssa.Function {
	cc := ci.Common()
	if cc.IsInvoke() {
		return p.implementers(cc.Value.Type(), cc.Method.Name())
	}
	if f := cc.StaticCallee(); f != nil {
		if p.inRepo(f) {
			return []*ssa.Function{f}
		}
		// function values handed to external code may be called by it
		var r []*ssa.Function
		for _, a := range cc.Args {
			switch x := a.(type) {
			case *ssa.MakeClosure:
				r = append(r, x.Fn.(*ssa.Function))
			case *ssa.Function:
				if p.inRepo(x) {
					r = append(r, x)
				}
			}
		}
		return r
	}
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return nil
	}
	return p.addrTkn[sigKey(cc.Value.Type())]
}

func sigKey(t types.Type) string {
	s, ok := t.Underlying().(*types.Signature)
	if !ok {
		return "?"
	}
	return shortType(types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic()))
}

func (p *Prog) indexEffects() {
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				ops = in.Operands(ops)
				for i, o := range ops {
					if *o == nil {
						continue
					}
					if fn, ok := (*o).(*ssa.Function); ok {
						if ci, isCall := in.(ssa.CallInstruction); isCall && i == 0 && ci.Common().StaticCallee() == fn {
							continue
						}
						p.addrTkn[sigKey(fn.Signature)] = append(p.addrTkn[sigKey(fn.Signature)], fn)
					}
				}
			}
		}
	}
	p.mods = map[*ssa.Function]map[string]bool{}
	deps := map[*ssa.Function]map[*ssa.Function]bool{}
	var work []*ssa.Function
	add := func(f *ssa.Function) {
		if _, ok := p.mods[f]; ok {
			return
		}
		m := map[string]bool{}
		p.mods[f] = m
		deps[f] = map[*ssa.Function]bool{}
		work = append(work, f)
	}
	for _, f := range p.funcs {
		add(f)
	}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		p.directMods(f, f.Blocks, false, p.mods[f], func(ci ssa.CallInstruction) {
			for _, g := range p.callTargets(ci) {
				if len(g.Blocks) > 0 {
					add(g)
					deps[f][g] = true
				}
			}
		})
	}
	for changed := true; changed; {
		changed = false
		for f, ds := range deps {
			for g := range ds {
				for c := range p.mods[g] {
					if !p.mods[f][c] {
						p.mods[f][c] = true
						changed = true
					}
				}
			}
		}
	}
	for _, f := range p.funcs {
		if f.Name() == "init" && f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					c, base := rootClass(s.Addr)
					if _, local := base.(*ssa.Alloc); !local {
						p.fwritten[c] = true
						if pt, ok := s.Addr.Type().Underlying().(*types.Pointer); ok {
							if st, ok := pt.Elem().Underlying().(*types.Struct); ok {
								for i := 0; i < st.NumFields(); i++ {
									p.fwritten[shortType(pt.Elem())+"."+st.Field(i).Name()] = true
								}
							}
						}
					}
					if g, ok := base.(*ssa.Global); ok && strings.HasPrefix(c, "global:") {
						p.gwritten[g] = true
					}
				}
			}
		}
	}
}

func (p *Prog) indexRecursion() {
	// functions that can reach themselves through static or interface calls
	succ := map[*ssa.Function][]*ssa.Function{}
	for f := range p.mods {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					succ[f] = append(succ[f], p.callTargets(ci)...)
				}
			}
		}
	}
	for f := range p.mods {
		seen := map[*ssa.Function]bool{}
		var rec func(g *ssa.Function) bool
		rec = func(g *ssa.Function) bool {
			for _, h := range succ[g] {
				if h == f {
					return true
				}
				if !seen[h] {
					seen[h] = true
					if rec(h) {
						return true
					}
				}
			}
			return false
		}
		p.recur[f] = rec(f)
	}
}

// reachable lists the repo functions reachable from the roots.
func (p *Prog) reachable(roots ...*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var rec func(*ssa.Function)
	rec = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					for _, g := range p.callTargets(ci) {
						rec(g)
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					rec(mc.Fn.(*ssa.Function))
				}
			}
		}
	}
	for _, f := range roots {
		rec(f)
	}
	return seen
}

// file returns the parsed file a position belongs to.
func (p *Prog) file(pos token.Pos) *ast.File {
	for _, k := range p.pkgs {
		for _, f := range k.Syntax {
			if f.FileStart <= pos && pos <= f.FileEnd {
				return f
			}
		}
	}
	return nil
}

// ------------------------------------------------------------- loops

type loop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	depth  int
}

type loopInfo struct {
	byHeader map[*ssa.BasicBlock]*loop
}

func (p *Prog) loopsOf(f *ssa.Function) *loopInfo {
	if l, ok := p.loops[f]; ok {
		return l
	}
	li := &loopInfo{byHeader: map[*ssa.BasicBlock]*loop{}}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge b -> s
				l := li.byHeader[s]
				if l == nil {
					l = &loop{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					li.byHeader[s] = l
				}
				var rec func(x *ssa.BasicBlock)
				rec = func(x *ssa.BasicBlock) {
					if l.body[x] {
						return
					}
					l.body[x] = true
					for _, q := range x.Preds {
						rec(q)
					}
				}
				rec(b)
			}
		}
	}
	p.loops[f] = li
	return li
}

// evalInits interprets the package initialisers (literals only, no calls into
// the render code) to learn the contents of constant tables.
func (p *Prog) evalInits() {
	st := &State{mem: map[*Term]*Term{}, epoch: map[string]int{}, facts: newFacts(), counts: map[string]int{}, escaped: map[*Term]bool{}, prefix: "g."}
	var shorts []string
	for s := range p.spkgs {
		shorts = append(shorts, s)
	}
	sort.Slice(shorts, func(i, j int) bool { // dependencies first
		a, b := p.spkgs[shorts[i]].Pkg, p.spkgs[shorts[j]].Pkg
		if dependsOn(b, a) {
			return true
		}
		if dependsOn(a, b) {
			return false
		}
		return shorts[i] < shorts[j]
	})
	for _, s := range shorts {
		f := p.spkgs[s].Func("init")
		if f == nil || len(f.Blocks) == 0 {
			continue
		}
		e := newExec(p, &Policy{OpaqueFn: func(g *ssa.Function) bool { return g.Name() == "init" }})
		if g, ok := p.spkgs[s].Members["init$guard"].(*ssa.Global); ok {
			st.mem[mk("global", globalName(g), g.Type(), g)] = mkBool(false)
		}
		st.events = nil
		st.frames = nil
		rs := e.runState(f, nil, st)
		if len(rs) == 1 && rs[0].Outcome == "return" {
			st = rs[0].St
		}
	}
	st.escaped = map[*Term]bool{}
	p.gmem = st
	// map types updated outside initialisers
	upd := map[string]bool{}
	for _, f := range p.funcs {
		if f.Name() == "init" && f.Synthetic != "" {
			continue
		}
		m := map[string]bool{}
		p.directMods(f, f.Blocks, false, m, func(ssa.CallInstruction) {})
		for c := range m {
			upd[c] = true
		}
	}
	p.gtables = map[*Term]bool{}
	for _, v := range st.mem {
		if v.Op == "mapalloc" && !upd["map:"+shortType(v.Typ.Underlying())] {
			p.gtables[v] = true
		}
	}
}

func dependsOn(a, b *types.Package) bool {
	seen := map[*types.Package]bool{}
	var rec func(x *types.Package) bool
	rec = func(x *types.Package) bool {
		for _, i := range x.Imports() {
			if i == b || i.Path() == b.Path() {
				return true
			}
			if !seen[i] {
				seen[i] = true
				if strings.HasPrefix(i.Path(), modPath) && rec(i) {
					return true
				}
			}
		}
		return false
	}
	return rec(a)
}
