package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"maps"
	"os"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Policy selects what the path enumeration treats as an opaque event.
type Policy struct {
	Opaque     map[string]bool // full names of repo functions kept as events
	NoRecurse  bool            // treat every recursive repo function as opaque
	Devirt     map[string]bool // interface methods inlined on a singleton dynamic type
	ForkTables bool            // split on the entries of constant lookup tables
	MaxPaths   int
	MaxDepth   int
	Deref      bool            // record possibly-nil dereferences
	Pure       map[string]bool // opaque functions treated as pure readers
	OpaqueFn   func(*ssa.Function) bool
	OnCall     func(st *State, ev *Event)
	Hook       map[*ssa.Function]func(e *Exec, st *State, x ssa.CallInstruction, args []*Term) bool
	Model      map[string]func(e *Exec, st *State, x ssa.CallInstruction, args []*Term) bool
	Load       func(st *State, addr *Term) *Term // derived memory cells
}

type Event struct {
	Kind  string // call, dyncall, invoke, store, mapupdate, loop, back, exit, panicop, defer, go, buf
	Fn    string
	Fun   *ssa.Function
	Args  []*Term
	Res   *Term
	Addr  *Term
	Val   *Term
	Pos   token.Pos
	Chain []token.Pos
	Facts *Facts
	Fresh bool
	Note  string
	Loop  string
	Vals  map[string]*Term
	Depth int
	Mem   map[*Term]*Term // snapshot for calls to rule-selected functions
}

type loopAct struct {
	l        *loop
	abstract bool
	id       string
	count    int
	k        *Term
}

type frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*Term
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	idx    int
	call   ssa.CallInstruction // instruction in the caller waiting for the result
	loops  map[*ssa.BasicBlock]*loopAct
	defers []*ssa.Defer
	dargs  [][]*Term
	popRun bool // returning from a deferred call
}

type State struct {
	frames  []*frame
	mem     map[*Term]*Term
	epoch   map[string]int
	facts   *Facts
	events  []*Event
	counts  map[string]int
	escaped map[*Term]bool
	prefix  string
	frozen  func(class string) bool
}

func (s *State) clone() *State {
	n := &State{mem: maps.Clone(s.mem), epoch: maps.Clone(s.epoch), facts: s.facts,
		events: append([]*Event(nil), s.events...), counts: maps.Clone(s.counts), escaped: maps.Clone(s.escaped), prefix: s.prefix, frozen: s.frozen}
	for _, f := range s.frames {
		g := *f
		g.env = maps.Clone(f.env)
		g.loops = map[*ssa.BasicBlock]*loopAct{}
		for b, l := range f.loops {
			c := *l
			g.loops[b] = &c
		}
		g.defers = append([]*ssa.Defer(nil), f.defers...)
		g.dargs = append([][]*Term(nil), f.dargs...)
		n.frames = append(n.frames, &g)
	}
	return n
}

type Path struct {
	Outcome string // return, back, panic, limit
	Ret     []*Term
	Events  []*Event
	Facts   *Facts
	St      *State
	Loop    string
	Vals    map[string]*Term
	Pos     token.Pos
	Root    *ssa.Function
}

type Exec struct {
	p     *Prog
	pol   *Policy
	paths []*Path
	work  []*State
	root  *ssa.Function
	over  bool
	snap  map[string]bool // functions whose call events keep a memory snapshot
}

func newExec(p *Prog, pol *Policy) *Exec {
	if pol.MaxPaths == 0 {
		pol.MaxPaths = 20000
	}
	if pol.MaxDepth == 0 {
		pol.MaxDepth = 14
	}
	return &Exec{p: p, pol: pol}
}

func (e *Exec) run(f *ssa.Function, args []*Term, facts *Facts) []*Path {
	st := &State{mem: map[*Term]*Term{}, epoch: map[string]int{}, facts: facts, counts: map[string]int{}, escaped: map[*Term]bool{}}
	return e.runState(f, args, st)
}

func (e *Exec) runState(f *ssa.Function, args []*Term, st *State) []*Path {
	e.root = f
	e.push(st, f, args, nil, nil)
	e.work = []*State{st}
	for len(e.work) > 0 {
		s := e.work[len(e.work)-1]
		e.work = e.work[:len(e.work)-1]
		e.step(s)
		if len(e.paths) > e.pol.MaxPaths {
			e.over = true
			break
		}
	}
	return e.paths
}

// params builds default parameter terms for a root function.
func rootParams(f *ssa.Function) []*Term {
	var r []*Term
	for _, p := range f.Params {
		r = append(r, mk("param", p.Name(), p.Type(), nil))
	}
	return r
}

func (e *Exec) push(st *State, f *ssa.Function, args []*Term, bindings []*Term, call ssa.CallInstruction) {
	fr := &frame{fn: f, env: map[ssa.Value]*Term{}, block: f.Blocks[0], call: call, loops: map[*ssa.BasicBlock]*loopAct{}}
	for i, p := range f.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		} else {
			fr.env[p] = mk("param", p.Name(), p.Type(), nil)
		}
	}
	for i, v := range f.FreeVars {
		if i < len(bindings) {
			fr.env[v] = bindings[i]
		} else {
			fr.env[v] = mk("fv", v.Name(), v.Type(), nil)
		}
	}
	st.frames = append(st.frames, fr)
}

func (st *State) top() *frame { return st.frames[len(st.frames)-1] }

func (e *Exec) finish(st *State, outcome string, ret []*Term, pos token.Pos) *Path {
	p := &Path{Outcome: outcome, Ret: ret, Events: st.events, Facts: st.facts, St: st, Pos: pos, Root: e.root}
	e.paths = append(e.paths, p)
	return p
}

func (e *Exec) event(st *State, ev *Event) *Event {
	ev.Facts = st.facts
	ev.Depth = len(st.frames)
	for _, f := range st.frames {
		if f.call != nil {
			ev.Chain = append(ev.Chain, f.call.Pos())
		}
	}
	st.events = append(st.events, ev)
	return ev
}

func (st *State) num(key string) int {
	st.counts[key]++
	return st.counts[key]
}

// ------------------------------------------------------------- values

func (e *Exec) val(st *State, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			if x.IsNil() {
				return mkNil()
			}
			return zeroTerm(x.Type())
		}
		return mkConst(x.Value, x.Type())
	case *ssa.Global:
		return mk("global", globalName(x), x.Type(), x)
	case *ssa.Function:
		return mkFunc(x)
	case *ssa.Builtin:
		return mk("builtin", x.Name(), nil, nil)
	}
	if t, ok := st.top().env[v]; ok {
		return t
	}
	return mk("undef", v.Name(), v.Type(), nil)
}

func globalName(g *ssa.Global) string {
	return g.Pkg.Pkg.Name() + "." + g.Name()
}

func (st *State) fresh(op, name string, typ types.Type) *Term {
	n := st.num(op + name)
	return mk(op, st.prefix+name+"#"+strconv.Itoa(n), typ, nil)
}

func addrClass(t *Term) string {
	last := ""
	for {
		switch t.Op {
		case "&f":
			last = t.Sym
			t = t.Args[0]
			continue
		case "&i":
			if t.Args[0].Op == "alloc" {
				t = t.Args[0]
				if last == "" {
					last = "elem:array"
				}
				continue
			}
			if t.Args[0].Typ != nil {
				return "elem:" + shortType(t.Args[0].Typ)
			}
			return "elem:?"
		case "global":
			return "global:" + t.Obj.(*ssa.Global).String()
		case "&buf":
			return "buf"
		case "&m":
			if t.Args[0].Typ != nil {
				return "map:" + shortType(t.Args[0].Typ.Underlying())
			}
			return "map:?"
		}
		break
	}
	if last == "" {
		last = "deref:"
		if t.Typ != nil {
			last += shortType(t.Typ)
		}
	}
	return last
}

func addrBase(t *Term) *Term {
	for t.Op == "&f" || t.Op == "&i" || t.Op == "&buf" || t.Op == "&m" || t.Op == "slicelit" {
		t = t.Args[0]
	}
	return t
}

func isFreshTerm(t *Term) bool {
	switch t.Op {
	case "alloc", "mapalloc", "makeslice":
		return true
	}
	return false
}

func (st *State) epochOf(class string) string {
	if n := st.epoch[class]; n > 0 {
		return strconv.Itoa(n)
	}
	return ""
}

func isStructT(t types.Type) (*types.Struct, bool) {
	s, ok := t.Underlying().(*types.Struct)
	return s, ok
}

func isBuilderType(t types.Type) bool {
	n := shortType(t)
	return n == "bytes.Buffer" || n == "strings.Builder"
}

func fieldOwner(t types.Type, i int) string {
	return shortType(t) + "." + t.Underlying().(*types.Struct).Field(i).Name()
}

func (e *Exec) fieldAddr(base *Term, structT types.Type, i int) *Term {
	return mkFieldAddr(fieldOwner(structT, i), base, types.NewPointer(structT.Underlying().(*types.Struct).Field(i).Type()))
}

// elemAddr normalises the address of an element.
func elemAddr(base, idx *Term, typ types.Type) *Term {
	for {
		switch base.Op {
		case "slice":
			if !base.Args[1].isNil() {
				idx = linAdd(idx, base.Args[1], 1)
			}
			base = base.Args[0]
			continue
		case "slicelit":
			base = base.Args[0]
			continue
		}
		break
	}
	return mk("&i", "", typ, nil, base, idx)
}

func (e *Exec) load(st *State, addr *Term, typ types.Type) *Term {
	if e.pol.Load != nil {
		if v := e.pol.Load(st, addr); v != nil {
			return v
		}
	}
	if s, ok := isStructT(typ); ok && !isBuilderType(typ) {
		if v, ok := st.mem[addr]; ok {
			return v
		}
		fs := make([]*Term, s.NumFields())
		for i := range fs {
			fs[i] = e.load(st, e.fieldAddr(addr, typ, i), s.Field(i).Type())
		}
		// collapse a copy of an opaque struct value
		if len(fs) > 0 && fs[0].Op == ".f" {
			src := fs[0].Args[0]
			same := true
			for i, f := range fs {
				if f.Op != ".f" || f.Args[0] != src || f.Sym != fieldOwner(typ, i) {
					same = false
				}
			}
			if same && src.Typ != nil && types.Identical(src.Typ, typ) {
				return src
			}
		}
		return mkStruct(typ, fs)
	}
	if v, ok := st.mem[addr]; ok {
		return v
	}
	if at, ok := smallArray(typ); ok && isFreshTerm(addrBase(addr)) {
		var es []*Term
		for i := int64(0); i < at.Len(); i++ {
			es = append(es, e.load(st, mk("&i", "", types.NewPointer(at.Elem()), nil, addr, mkInt(i)), at.Elem()))
		}
		return mk("arrval", shortType(typ), typ, nil, es...)
	}
	if addr.Op == "global" {
		g := addr.Obj.(*ssa.Global)
		if !e.p.gwritten[g] && e.p.gmem != nil {
			if v, ok := e.p.gmem.mem[addr]; ok {
				return v
			}
		}
		return mkInit(addr, st.epochOf(addrClass(addr)), typ)
	}
	if e.p.gmem != nil && len(e.p.gmem.mem) > 0 {
		if b := addrBase(addr); isFreshTerm(b) || b.Op == "global" {
			if b.Op == "global" && e.p.gwritten[b.Obj.(*ssa.Global)] {
				// runtime-mutable
			} else if isFreshTerm(b) && e.p.fwritten[addrClass(addr)] {
				// fields of this kind change after initialisation
			} else if v, ok := e.p.gmem.mem[addr]; ok && st.epoch[addrClass(addr)] == 0 {
				return v
			}
		}
	}
	if addr.Op == "&i" {
		b, i := addr.Args[0], addr.Args[1]
		if n, ok := i.intVal(); ok {
			switch b.Op {
			case "append":
				if bl := mkLen(b.Args[0]); bl.isConst() {
					k, _ := bl.intVal()
					if n >= k && int(n-k)+1 < len(b.Args) {
						return b.Args[n-k+1]
					}
				}
			case "alloc":
				if st.epoch["elem:array"] == 0 {
					return zeroTerm(typ)
				}
			}
		}
	}
	if addr.Op == "&buf" {
		if addr.Args[0].Op == "alloc" {
			return mkStr("")
		}
		return mkInit(addr, st.epochOf("buf"), types.Typ[types.String])
	}
	return mkInit(addr, st.epochOf(addrClass(addr)), typ)
}

func (e *Exec) store(st *State, addr, v *Term, typ types.Type) {
	if s, ok := isStructT(typ); ok && !isBuilderType(typ) {
		for i := 0; i < s.NumFields(); i++ {
			e.store(st, e.fieldAddr(addr, typ, i), e.field(v, typ, i), s.Field(i).Type())
		}
		return
	}
	if at, ok := smallArray(typ); ok {
		for i := int64(0); i < at.Len(); i++ {
			el := mk("aidx", "", at.Elem(), nil, v, mkInt(i))
			if v.Op == "arrval" {
				el = v.Args[i]
			} else if v.Op == "zero" {
				el = zeroTerm(at.Elem())
			}
			e.store(st, mk("&i", "", types.NewPointer(at.Elem()), nil, addr, mkInt(i)), el, at.Elem())
		}
		return
	}
	st.mem[addr] = v
}

// smallArray is the array type of values that are tracked element by element.
func smallArray(t types.Type) (*types.Array, bool) {
	if t == nil {
		return nil, false
	}
	at, ok := t.Underlying().(*types.Array)
	return at, ok && at.Len() <= 16
}

func (e *Exec) field(v *Term, typ types.Type, i int) *Term {
	if v.Op == "struct" && len(v.Args) > i {
		return v.Args[i]
	}
	ft := typ.Underlying().(*types.Struct).Field(i).Type()
	return mk(".f", fieldOwner(typ, i), ft, nil, v)
}

func (st *State) bufCell(addr *Term) *Term { return mk("&buf", "", nil, nil, addr) }

// ------------------------------------------------------------- havoc

func (st *State) escape(t *Term) {
	t.walk(func(x *Term) bool {
		if x.Op == "alloc" || x.Op == "mapalloc" || x.Op == "makeslice" {
			if !st.escaped[x] {
				st.escaped[x] = true
				for a, v := range st.mem {
					if addrBase(a) == x {
						st.escape(v)
					}
				}
			}
		}
		return true
	})
}

func (st *State) havoc(classes map[string]bool) {
	if len(classes) == 0 {
		return
	}
	for a := range st.mem {
		if c := addrClass(a); classes[c] && (st.frozen == nil || !st.frozen(c)) {
			b := addrBase(a)
			if isFreshTerm(b) && !st.escaped[b] {
				continue
			}
			delete(st.mem, a)
		}
	}
	for c := range classes {
		if st.frozen == nil || !st.frozen(c) {
			st.epoch[c]++
		}
	}
}

// ------------------------------------------------------------- stepping

func (e *Exec) step(st *State) {
	for {
		if len(st.frames) == 0 {
			return
		}
		if len(st.events) > 3000 {
			e.over = true
			e.finish(st, "limit", nil, token.NoPos)
			return
		}
		fr := st.top()
		if fr.idx >= len(fr.block.Instrs) {
			return
		}
		in := fr.block.Instrs[fr.idx]
		fr.idx++
		switch x := in.(type) {
		case *ssa.If:
			c := e.val(st, x.Cond)
			e.branch(st, c, fr.block)
			return
		case *ssa.Jump:
			if !e.jump(st, fr.block.Succs[0]) {
				return
			}
		case *ssa.Return:
			var ret []*Term
			for _, r := range x.Results {
				ret = append(ret, e.val(st, r))
			}
			if len(st.frames) == 1 {
				e.finish(st, "return", ret, x.Pos())
				return
			}
			st.frames = st.frames[:len(st.frames)-1]
			if fr.popRun {
				continue
			}
			if fr.call != nil {
				if v := fr.call.Value(); v != nil {
					st.top().env[v] = tupleOf(ret, v.Type())
				}
			}
		case *ssa.Panic:
			v := e.val(st, x.X)
			e.event(st, &Event{Kind: "panicop", Fn: "panic", Args: []*Term{v}, Pos: x.Pos()})
			e.finish(st, "panic", nil, x.Pos())
			return
		default:
			if !e.instr(st, in) {
				return
			}
		}
	}
}

func tupleOf(ret []*Term, typ types.Type) *Term {
	if len(ret) == 1 {
		return ret[0]
	}
	return mk("tuple", "", typ, nil, ret...)
}

func (e *Exec) branch(st *State, c *Term, b *ssa.BasicBlock) {
	t := st.facts.assume(e.p, c, true)
	f := st.facts.assume(e.p, c, false)
	if t != nil && f != nil {
		o := st.clone()
		o.facts = f
		if e.jump(o, b.Succs[1]) {
			e.work = append(e.work, o)
		}
		st.facts = t
		if e.jump(st, b.Succs[0]) {
			e.work = append(e.work, st)
		}
		return
	}
	if t != nil {
		st.facts = t
		if e.jump(st, b.Succs[0]) {
			e.work = append(e.work, st)
		}
		return
	}
	if f != nil {
		st.facts = f
		if e.jump(st, b.Succs[1]) {
			e.work = append(e.work, st)
		}
	}
}

// jump moves the top frame to a block; false ends the path.
func (e *Exec) jump(st *State, to *ssa.BasicBlock) bool {
	fr := st.top()
	from := fr.block
	li := e.p.loopsOf(fr.fn)
	// leaving loops
	for h, a := range fr.loops {
		if !a.l.body[to] {
			if a.abstract {
				e.event(st, &Event{Kind: "exit", Loop: a.id, Pos: blockPos(to)})
			}
			delete(fr.loops, h)
		}
	}
	fr.prev = from
	fr.block = to
	fr.idx = 0
	l := li.byHeader[to]
	if l == nil {
		e.phis(st, from, to)
		return true
	}
	act := fr.loops[to]
	if act != nil && act.abstract {
		vals := map[string]*Term{}
		for _, in := range to.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			vals[phiName(ph)] = e.val(st, ph.Edges[predIndex(to, from)])
		}
		e.event(st, &Event{Kind: "back", Loop: act.id, Vals: vals, Pos: blockPos(from)})
		p := e.finish(st, "back", nil, blockPos(from))
		p.Loop = act.id
		p.Vals = vals
		return false
	}
	if act == nil {
		act = &loopAct{l: l}
		fr.loops[to] = act
	}
	act.count++
	if act.count <= 80 && e.headerConst(st, from, to) {
		e.phis(st, from, to)
		return true
	}
	// abstract iteration
	act.abstract = true
	act.id = "L" + strconv.Itoa(st.num("loop"))
	act.k = mk("loopk", "k"+act.id, types.Typ[types.Int], nil)
	vals := map[string]*Term{}
	news := map[*ssa.Phi]*Term{}
	ind := false
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		init := e.val(st, ph.Edges[predIndex(to, from)])
		vals[phiName(ph)] = init
		step, ok := inductionStep(ph, l)
		switch {
		case ok && step == 0:
			news[ph] = init
		case ok:
			kt := linear{co: map[*Term]int64{act.k: step}}.term()
			news[ph] = linAdd(init, kt, 1)
			ind = true
		default:
			news[ph] = mk("loopv", act.id+"."+phiName(ph), ph.Type(), nil)
		}
	}
	e.event(st, &Event{Kind: "loop", Loop: act.id, Vals: vals, Pos: blockPos(to), Fun: fr.fn, Note: to.Comment})
	for ph, t := range news {
		fr.env[ph] = t
	}
	_ = ind
	// havoc what the loop writes
	mods := map[string]bool{}
	var body []*ssa.BasicBlock
	for b := range l.body {
		body = append(body, b)
	}
	allocs := map[ssa.Value]bool{}
	bufAll := false
	bufs := map[*Term]bool{}
	e.p.directMods(fr.fn, body, true, mods, func(ci ssa.CallInstruction) {
		for _, g := range e.p.callTargets(ci) {
			for c := range e.p.mods[g] {
				mods[c] = true
				if c == "buf" {
					// a buffer handed to a helper
					for _, a := range ci.Common().Args {
						if t, ok := fr.env[a]; ok && st.mem[st.bufCell(t)] != nil {
							bufs[t] = true
						}
					}
				}
			}
		}
		if r := bufferWriteRecv(ci.Common()); r != nil {
			if t, ok := fr.env[r]; ok {
				bufs[t] = true
			} else {
				bufAll = true
			}
		}
	})
	_ = allocs
	delete(mods, "buf")
	for _, b := range body {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				_, base := rootClass(s.Addr)
				allocs[base] = true
			}
		}
	}
	for a := range st.mem {
		if a.Op == "&buf" {
			if bufAll || bufs[a.Args[0]] {
				e.event(st, &Event{Kind: "acc", Loop: act.id, Addr: a, Val: st.mem[a]})
				st.mem[a] = mk("loopm", act.id, types.Typ[types.String], nil, a)
			}
			continue
		}
		if mods[addrClass(a)] {
			e.event(st, &Event{Kind: "acc", Loop: act.id, Addr: a, Val: st.mem[a]})
			st.mem[a] = mk("loopm", act.id, st.mem[a].Typ, nil, a)
		}
	}
	for t := range bufs {
		c := st.bufCell(t)
		if st.mem[c] == nil {
			e.event(st, &Event{Kind: "acc", Loop: act.id, Addr: c, Val: e.load(st, c, types.Typ[types.String])})
			st.mem[c] = mk("loopm", act.id, types.Typ[types.String], nil, c)
		}
	}
	for c := range mods {
		if st.frozen == nil || !st.frozen(c) {
			st.epoch[c]++
		}
	}
	return true
}

func blockPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	return b.Parent().Pos()
}

func phiName(ph *ssa.Phi) string {
	if ph.Comment != "" {
		return ph.Comment
	}
	return ph.Name()
}

func predIndex(b, pred *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == pred {
			return i
		}
	}
	return 0
}

func (e *Exec) phis(st *State, from, to *ssa.BasicBlock) {
	fr := st.top()
	i := predIndex(to, from)
	vals := map[*ssa.Phi]*Term{}
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals[ph] = e.val(st, ph.Edges[i])
	}
	for ph, v := range vals {
		fr.env[ph] = v
	}
}

// inductionStep recognises phi = phi + c on every back edge.
func inductionStep(ph *ssa.Phi, l *loop) (int64, bool) {
	var step int64
	first := true
	for i, p := range ph.Block().Preds {
		if !l.body[p] {
			continue
		}
		s, ok := stepOf(ph.Edges[i], ph, 0)
		if !ok || !first && s != step {
			return 0, false
		}
		step, first = s, false
	}
	return step, !first
}

func stepOf(v ssa.Value, ph *ssa.Phi, d int) (int64, bool) {
	if v == ph {
		return 0, true
	}
	if d > 4 {
		return 0, false
	}
	if b, ok := v.(*ssa.BinOp); ok && isInteger(b.Type()) {
		if c, ok := b.Y.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
			n, _ := constant.Int64Val(c.Value)
			if b.Op == token.SUB {
				n = -n
			} else if b.Op != token.ADD {
				return 0, false
			}
			s, ok := stepOf(b.X, ph, d+1)
			return s + n, ok
		}
		if c, ok := b.X.(*ssa.Const); ok && b.Op == token.ADD && c.Value != nil && c.Value.Kind() == constant.Int {
			n, _ := constant.Int64Val(c.Value)
			s, ok := stepOf(b.Y, ph, d+1)
			return s + n, ok
		}
	}
	if q, ok := v.(*ssa.Phi); ok && q != ph {
		var step int64
		for i, e := range q.Edges {
			s, ok := stepOf(e, ph, d+1)
			if !ok || i > 0 && s != step {
				return 0, false
			}
			step = s
		}
		return step, true
	}
	return 0, false
}

// headerConst reports whether the loop test folds to a constant (without
// using path facts) when the header is entered from the given block.
func (e *Exec) headerConst(st *State, from, to *ssa.BasicBlock) bool {
	iff, ok := to.Instrs[len(to.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	tmp := &State{frames: []*frame{{fn: to.Parent(), env: maps.Clone(st.top().env), block: to}}, mem: st.mem, epoch: st.epoch, facts: newFacts(), counts: map[string]int{}, escaped: st.escaped}
	e.phis(tmp, from, to)
	for _, in := range to.Instrs {
		switch x := in.(type) {
		case *ssa.Phi, *ssa.If, *ssa.DebugRef:
		case *ssa.BinOp:
			tmp.top().env[x] = e.binop(tmp, x, false)
		case *ssa.Call:
			b, ok := x.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "len" {
				return false
			}
			tmp.top().env[x] = mkLen(e.val(tmp, x.Call.Args[0]))
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return false
			}
			tmp.top().env[x] = e.load(tmp, e.val(tmp, x.X), x.Type())
		case *ssa.FieldAddr:
			tmp.top().env[x] = e.fieldAddr(e.val(tmp, x.X), x.X.Type().Underlying().(*types.Pointer).Elem(), x.Field)
		default:
			return false
		}
	}
	return e.val(tmp, iff.Cond).isConst()
}

func (e *Exec) panicop(st *State, what string, pos token.Pos, note string, args ...*Term) {
	e.event(st, &Event{Kind: "panicop", Fn: what, Args: args, Pos: pos, Note: note, Fun: st.top().fn})
}

// instr executes a non-terminator; false means the state was forked or ended.
func (e *Exec) instr(st *State, in ssa.Instruction) bool {
	fr := st.top()
	set := func(v ssa.Value, t *Term) { fr.env[v] = t }
	switch x := in.(type) {
	case *ssa.Phi, *ssa.DebugRef:
	case *ssa.Alloc:
		et := x.Type().Underlying().(*types.Pointer).Elem()
		a := st.fresh("alloc", shortType(et), x.Type())
		set(x, a)
		if isBuilderType(et) {
			st.mem[st.bufCell(a)] = mkStr("")
		} else if _, isArr := et.Underlying().(*types.Array); !isArr {
			e.store(st, a, zeroTerm(et), et)
		}
	case *ssa.BinOp:
		set(x, e.binop(st, x, true))
	case *ssa.UnOp:
		v := e.val(st, x.X)
		switch x.Op {
		case token.MUL:
			if e.pol.Deref {
				e.checkNil(st, v, x.Pos())
			}
			set(x, e.load(st, v, x.Type()))
		case token.NOT:
			set(x, mkNot(v))
		case token.SUB:
			if isInteger(x.Type()) {
				set(x, linAdd(mkInt(0), v, -1))
			} else {
				set(x, mk("fneg", "", x.Type(), nil, v))
			}
		default:
			set(x, mk("unop"+x.Op.String(), "", x.Type(), nil, v))
		}
	case *ssa.ChangeType:
		set(x, e.val(st, x.X))
	case *ssa.ChangeInterface:
		set(x, e.val(st, x.X))
	case *ssa.Convert:
		set(x, convTerm(e.val(st, x.X), x.X.Type(), x.Type()))
	case *ssa.MultiConvert:
		set(x, mk("conv", shortType(x.Type()), x.Type(), nil, e.val(st, x.X)))
	case *ssa.MakeInterface:
		set(x, mkIface(x.X.Type(), e.val(st, x.X)))
	case *ssa.Extract:
		t := e.val(st, x.Tuple)
		if t.Op == "tuple" {
			set(x, t.Args[x.Index])
		} else {
			set(x, mk("ext", strconv.Itoa(x.Index), x.Type(), nil, t))
		}
	case *ssa.FieldAddr:
		b := e.val(st, x.X)
		if e.pol.Deref {
			e.checkNil(st, b, x.Pos())
		}
		set(x, e.fieldAddr(b, x.X.Type().Underlying().(*types.Pointer).Elem(), x.Field))
	case *ssa.Field:
		set(x, e.field(e.val(st, x.X), x.X.Type(), x.Field))
	case *ssa.IndexAddr:
		b, i := e.val(st, x.X), e.val(st, x.Index)
		if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
			e.bounds(st, i, mkLen(b), x.Pos(), false, b)
		}
		set(x, elemAddr(b, i, x.Type()))
	case *ssa.Index:
		b, i := e.val(st, x.X), e.val(st, x.Index)
		if isString(x.X.Type()) {
			e.bounds(st, i, mkLen(b), x.Pos(), false, b)
			set(x, sidx(b, i))
		} else {
			if n, ok := i.intVal(); ok && b.Op == "arrval" && n >= 0 && int(n) < len(b.Args) {
				set(x, b.Args[n])
			} else {
				set(x, mk("aidx", "", x.Type(), nil, b, i))
			}
		}
	case *ssa.Lookup:
		if isString(x.X.Type()) {
			b, i := e.val(st, x.X), e.val(st, x.Index)
			e.bounds(st, i, mkLen(b), x.Pos(), false, b)
			set(x, sidx(b, i))
			break
		}
		return e.lookup(st, x)
	case *ssa.MapUpdate:
		m, k, v := e.val(st, x.Map), e.val(st, x.Key), e.val(st, x.Value)
		e.event(st, &Event{Kind: "mapupdate", Addr: m, Args: []*Term{k}, Val: v, Pos: x.Pos(), Fresh: isFreshTerm(m) && !st.escaped[m]})
		if !isFreshTerm(m) && st.facts.decide(e.p, mkEq(m, mkNil())) != 0 {
			e.panicop(st, "nilmap", x.Pos(), "assignment to a possibly nil map", m)
		}
		st.mem[mk("&m", "", nil, nil, m, k)] = v
		if isFreshTerm(m) {
			st.escapeIf(m, v)
		} else {
			st.escape(v)
		}
	case *ssa.MakeMap:
		set(x, st.fresh("mapalloc", shortType(x.Type()), x.Type()))
	case *ssa.MakeSlice:
		n := e.val(st, x.Len)
		if d := st.facts.decide(e.p, mkLess(n, mkInt(0))); d != 0 {
			e.panicop(st, "makeslice", x.Pos(), "length may be negative", n)
		}
		set(x, mk("makeslice", st.prefix+shortType(x.Type())+"#"+strconv.Itoa(st.num("makeslice")), x.Type(), nil, n, n))
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, e.val(st, b))
		}
		set(x, mk("closure", x.Fn.(*ssa.Function).String(), x.Type(), x.Fn, bs...))
	case *ssa.Slice:
		set(x, e.slice(st, x))
	case *ssa.Store:
		addr, v := e.val(st, x.Addr), e.val(st, x.Val)
		b := addrBase(addr)
		fresh := isFreshTerm(b) && !st.escaped[b]
		if e.pol.Deref {
			e.checkNil(st, addr, x.Pos())
		}
		e.event(st, &Event{Kind: "store", Addr: addr, Val: v, Pos: x.Pos(), Fresh: fresh, Fun: fr.fn})
		if !fresh {
			st.escape(v)
		} else {
			st.escapeIf(b, v)
		}
		e.store(st, addr, v, x.Val.Type())
	case *ssa.TypeAssert:
		return e.typeAssert(st, x)
	case *ssa.Range:
		t := e.val(st, x.X)
		set(x, mk("range", shortType(x.X.Type())+"#"+strconv.Itoa(st.num("range")), x.X.Type(), nil, t))
	case *ssa.Next:
		it := e.val(st, x.Iter)
		src := it.Args[0]
		more := mk("more", it.Sym, types.Typ[types.Bool], nil, src)
		tt := x.Type().(*types.Tuple)
		var k, v *Term
		if x.IsString {
			k = mk("rkey", it.Sym, types.Typ[types.Int], nil, src)
			v = mk("rrune", it.Sym, types.Typ[types.Rune], nil, src)
		} else {
			mt := src.Typ
			kt, vt := tt.At(1).Type(), tt.At(2).Type()
			if mt != nil {
				if m, ok := mt.Underlying().(*types.Map); ok {
					kt, vt = m.Key(), m.Elem()
				}
			}
			k = mk("rkey", it.Sym, kt, nil, src)
			v = mk("lookup", st.mapEpoch(src), vt, nil, src, k)
			st.facts = st.facts.clone()
			st.facts.bools[mk("maphas", st.mapEpoch(src), types.Typ[types.Bool], nil, src, k)] = true
		}
		set(x, mk("tuple", "", x.Type(), nil, more, k, v))
	case *ssa.Call:
		return e.call(st, x)
	case *ssa.Defer:
		var args []*Term
		if x.Call.IsInvoke() {
			args = append(args, e.val(st, x.Call.Value))
		}
		for _, a := range x.Call.Args {
			args = append(args, e.val(st, a))
		}
		if mc, ok := x.Call.Value.(*ssa.MakeClosure); ok {
			args = append(args, e.val(st, mc))
		}
		fr.defers = append(fr.defers, x)
		fr.dargs = append(fr.dargs, args)
		e.event(st, &Event{Kind: "defer", Args: args, Pos: x.Pos()})
	case *ssa.RunDefers:
		for len(fr.defers) > 0 {
			n := len(fr.defers) - 1
			d, as := fr.defers[n], fr.dargs[n]
			fr.defers, fr.dargs = fr.defers[:n], fr.dargs[:n]
			if f := d.Call.StaticCallee(); f != nil && e.p.inRepo(f) && len(f.Blocks) > 0 {
				var bind []*Term
				if mc, ok := d.Call.Value.(*ssa.MakeClosure); ok {
					c := as[len(as)-1]
					as = as[:len(as)-1]
					bind = c.Args
					_ = mc
				}
				fr.idx-- // come back for the remaining defers
				e.push(st, f, as, bind, nil)
				st.top().popRun = true
				return true
			}
			mods := map[string]bool{}
			if b, ok := d.Call.Value.(*ssa.Builtin); ok && b.Name() == "delete" {
				mods["map:"+shortType(d.Call.Args[0].Type().Underlying())] = true
				e.event(st, &Event{Kind: "call", Fn: "builtin.delete", Args: as, Pos: d.Pos()})
			} else {
				for _, g := range e.p.callTargets(d) {
					for c := range e.p.mods[g] {
						mods[c] = true
					}
				}
				e.event(st, &Event{Kind: "call", Fn: "deferred", Args: as, Pos: d.Pos()})
			}
			st.havoc(mods)
		}
	case *ssa.Go:
		e.event(st, &Event{Kind: "go", Pos: x.Pos()})
	case *ssa.Send:
		e.event(st, &Event{Kind: "go", Note: "send", Pos: x.Pos()})
	default:
		if v, ok := in.(ssa.Value); ok {
			set(v, mk("unknown", fmt.Sprintf("%T#%d", in, st.num("unknown")), v.Type(), nil))
		}
	}
	return true
}

func (st *State) escapeIf(base, v *Term) {
	if st.escaped[base] {
		st.escape(v)
	}
}

func (st *State) mapEpoch(m *Term) string {
	if m.Typ == nil {
		return ""
	}
	if isFreshTerm(m) && !st.escaped[m] {
		return ""
	}
	return st.epochOf("map:" + shortType(m.Typ.Underlying()))
}

func (e *Exec) checkNil(st *State, v *Term, pos token.Pos) {
	switch v.Op {
	case "alloc", "&f", "&i", "global", "cast", "fv", "param", "closure", "func":
		return
	}
	if d := st.facts.decide(e.p, eqTerm(v, mkNil())); d != 0 {
		e.panicop(st, "nilderef", pos, "", v)
		if n := st.facts.assume(e.p, eqTerm(v, mkNil()), false); n != nil {
			st.facts = n
		}
	}
}

func (e *Exec) bounds(st *State, i, n *Term, pos token.Pos, incl bool, base *Term) {
	lo := st.facts.decide(e.p, mkLess(i, mkInt(0)))
	var hi int
	if incl {
		hi = st.facts.decide(e.p, mkLess(n, i)) // n < i is bad
	} else {
		hi = 1 - st.facts.decide(e.p, mkLess(i, n))
		if hi == 2 {
			hi = -1
		}
	}
	if lo != 0 || hi != 0 {
		note := fmt.Sprintf("lo=%d hi=%d", lo, hi)
		if incl {
			note += " slice"
		}
		e.panicop(st, "index", pos, note, i, n, base)
	}
}

func sidx(b, i *Term) *Term {
	for b.Op == "slice" {
		if !b.Args[1].isNil() {
			i = linAdd(i, b.Args[1], 1)
		}
		b = b.Args[0]
	}
	if s, ok := b.strVal(); ok {
		if n, ok := i.intVal(); ok && n >= 0 && int(n) < len(s) {
			return mkConst(constant.MakeInt64(int64(s[n])), types.Typ[types.Byte])
		}
	}
	return mk("sidx", "", types.Typ[types.Byte], nil, b, i)
}

func (e *Exec) slice(st *State, x *ssa.Slice) *Term {
	b := e.val(st, x.X)
	lo, hi := mkNil(), mkNil()
	if x.Low != nil {
		lo = e.val(st, x.Low)
		if n, ok := lo.intVal(); ok && n == 0 {
			lo = mkNil()
		}
	}
	if x.High != nil {
		hi = e.val(st, x.High)
	}
	if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		if at, ok := pt.Elem().Underlying().(*types.Array); ok && lo.isNil() && hi.isNil() && b.Op == "alloc" && at.Len() <= 64 {
			args := []*Term{b}
			for i := int64(0); i < at.Len(); i++ {
				args = append(args, e.load(st, mk("&i", "", types.NewPointer(at.Elem()), nil, b, mkInt(i)), at.Elem()))
			}
			return mk("slicelit", "", x.Type(), nil, args...)
		}
		return mk("slice", "", x.Type(), nil, b, lo, hi)
	}
	n := mkLen(b)
	h := hi
	if hi.isNil() {
		h = n
	} else {
		e.bounds(st, hi, n, x.Pos(), true, b)
	}
	if !lo.isNil() {
		e.bounds(st, lo, h, x.Pos(), true, b)
	}
	if hi == n {
		hi = mkNil()
	}
	if lo.isNil() && hi.isNil() {
		return b
	}
	// compose slices of slices
	if b.Op == "slice" {
		bl := b.Args[1]
		if !bl.isNil() {
			if lo.isNil() {
				lo = bl
			} else {
				lo = linAdd(lo, bl, 1)
			}
			if !hi.isNil() {
				hi = linAdd(hi, bl, 1)
			}
		}
		if hi.isNil() {
			hi = b.Args[2]
		}
		b = b.Args[0]
	}
	if s, ok := b.strVal(); ok {
		l, lok := int64(0), true
		if !lo.isNil() {
			l, lok = lo.intVal()
		}
		r, rok := int64(len(s)), true
		if !hi.isNil() {
			r, rok = hi.intVal()
		}
		if lok && rok && 0 <= l && l <= r && int(r) <= len(s) {
			return mkStr(s[l:r])
		}
	}
	return mk("slice", "", x.Type(), nil, b, lo, hi)
}

func convTerm(v *Term, from, to types.Type) *Term {
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	if isInteger(from) && isInteger(to) {
		fs, ts := intSize(from), intSize(to)
		if n, ok := v.intVal(); ok {
			return mkInt(n)
		}
		fu, tu := isUnsigned(from), isUnsigned(to)
		if fu == tu && ts >= fs || fu && !tu && ts > fs {
			return v
		}
		if !fu && tu && ts == 64 && fs == 64 { // int -> uint of the same width, used for counters
			return v
		}
		return mk("conv", shortType(to.Underlying()), to, nil, v)
	}
	if isString(to) && isInteger(from) {
		if n, ok := v.intVal(); ok {
			return mkStr(string(rune(n)))
		}
		return mk("conv", "string", to, nil, v)
	}
	if isFloat(to) && v.isConst() {
		return mkConst(v.Obj.(constant.Value), to)
	}
	if isString(to) && v.Op == "conv" && isString(v.Args[0].Typ) && v.Sym == "[]byte" {
		return v.Args[0]
	}
	return mk("conv", shortType(to.Underlying()), to, nil, v)
}

func intSize(t types.Type) int {
	switch t.Underlying().(*types.Basic).Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

// mayBeNegative: the term stands for an unsigned number and was a signed one.
func mayBeNegative(t *Term) bool {
	if n, ok := t.intVal(); ok {
		return n < 0
	}
	_, low := implicitLow(t)
	return !low
}

func (e *Exec) binop(st *State, x *ssa.BinOp, record bool) *Term {
	a, b := e.val(st, x.X), e.val(st, x.Y)
	t := x.X.Type()
	fl := isFloat(t)
	switch x.Op {
	case token.EQL, token.NEQ:
		if record && isIface(t) && isIface(x.Y.Type()) && !a.isNil() && !b.isNil() && !(a.Op == "iface" && b.Op == "iface") {
			e.event(st, &Event{Kind: "ifacecmp", Args: []*Term{a, b}, Pos: x.Pos(), Fun: st.top().fn})
		}
		r := mkEq(a, b)
		if fl && !(a.isConst() && b.isConst()) {
			if a.ID > b.ID || a.isConst() {
				a, b = b, a
			}
			r = mk("==", "", types.Typ[types.Bool], nil, a, b)
		}
		if x.Op == token.NEQ {
			r = mkNot(r)
		}
		return r
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		op := x.Op
		if op == token.GTR {
			op, a, b = token.LSS, b, a
		} else if op == token.GEQ {
			op, a, b = token.LEQ, b, a
		}
		if isInteger(t) {
			if isUnsigned(t) && (mayBeNegative(a) || mayBeNegative(b)) {
				if op == token.LSS {
					return mk("u<", "", types.Typ[types.Bool], nil, a, b)
				}
				return mkNot(mk("u<", "", types.Typ[types.Bool], nil, b, a))
			}
			if op == token.LSS {
				return mkLess(a, b)
			}
			return mkNot(mkLess(b, a))
		}
		pre := "s"
		if fl {
			pre = "f"
		}
		if op == token.LSS {
			return mk(pre+"<", "", types.Typ[types.Bool], nil, a, b)
		}
		return mk(pre+"<=", "", types.Typ[types.Bool], nil, a, b)
	}
	if isString(t) && x.Op == token.ADD {
		return mkCat(a, b)
	}
	if isInteger(x.Type()) {
		switch x.Op {
		case token.ADD:
			return linAdd(a, b, 1)
		case token.SUB:
			return linAdd(a, b, -1)
		case token.MUL:
			if n, ok := a.intVal(); ok {
				a, b = b, mkInt(n)
			}
			if n, ok := b.intVal(); ok {
				l := toLinear(a)
				r := linear{c: l.c * n, co: map[*Term]int64{}}
				for k, v := range l.co {
					r.co[k] = v * n
				}
				return r.term()
			}
			if a.ID > b.ID {
				a, b = b, a
			}
			return mk("i*", "", x.Type(), nil, a, b)
		case token.QUO, token.REM:
			if n, ok := b.intVal(); ok && n != 0 {
				if m, ok := a.intVal(); ok {
					if x.Op == token.QUO {
						return mkInt(m / n)
					}
					return mkInt(m % n)
				}
			} else if record && st.facts.decide(e.p, mkEq(b, mkInt(0))) != 0 {
				e.panicop(st, "divzero", x.Pos(), "divisor may be zero", b)
			}
			return mk("i"+x.Op.String(), "", x.Type(), nil, a, b)
		case token.SHL:
			if n, ok := a.intVal(); ok {
				if m, ok := b.intVal(); ok && m < 62 {
					return mkInt(n << m)
				}
			}
		}
		return mk("i"+x.Op.String(), "", x.Type(), nil, a, b)
	}
	if fl && (x.Op == token.ADD || x.Op == token.MUL) && a.ID > b.ID {
		a, b = b, a
	}
	return mk("f"+x.Op.String(), "", x.Type(), nil, a, b)
}

func (e *Exec) typeAssert(st *State, x *ssa.TypeAssert) bool {
	v := e.val(st, x.X)
	c := mkIsType(x.AssertedType, v)
	res := func() *Term {
		if isIface(x.AssertedType) {
			return v
		}
		return mkCast(x.AssertedType, v)
	}
	yes := st.facts.assume(e.p, c, true)
	no := st.facts.assume(e.p, c, false)
	if !x.CommaOk {
		if no != nil {
			e.panicop(st, "typeassert", x.Pos(), "value may not be "+shortType(x.AssertedType)+", possible "+st.facts.kind(e.p, v).String(), v)
		}
		if yes == nil {
			e.finish(st, "panic", nil, x.Pos())
			return false
		}
		st.facts = yes
		st.top().env[x] = res()
		return true
	}
	if no != nil && yes != nil {
		o := st.clone()
		o.facts = no
		o.top().env[x] = mk("tuple", "", x.Type(), nil, zeroTerm(x.AssertedType), mkBool(false))
		e.work = append(e.work, o)
	}
	if yes != nil {
		st.facts = yes
		st.top().env[x] = mk("tuple", "", x.Type(), nil, res(), mkBool(true))
		return true
	}
	if no != nil {
		st.facts = no
		st.top().env[x] = mk("tuple", "", x.Type(), nil, zeroTerm(x.AssertedType), mkBool(false))
		return true
	}
	return false
}

// mapEntries lists the known constant entries of a map term.
func (e *Exec) mapEntries(st *State, m *Term) (map[*Term]*Term, bool) {
	r := map[*Term]*Term{}
	complete := isFreshTerm(m)
	for _, mem := range []map[*Term]*Term{e.gmem(), st.mem} {
		for a, v := range mem {
			if a.Op == "&m" && a.Args[0] == m {
				r[a.Args[1]] = v
				if !a.Args[1].isConst() {
					complete = false
				}
			}
		}
	}
	if st.escaped[m] || m.Typ != nil && st.epoch["map:"+shortType(m.Typ.Underlying())] > 0 && !e.isGlobalTable(m) {
		complete = complete && !st.escaped[m] && st.mem != nil && false
	}
	return r, complete
}

func (e *Exec) gmem() map[*Term]*Term {
	if e.p.gmem == nil {
		return nil
	}
	return e.p.gmem.mem
}

// isGlobalTable reports whether a map was built by a package initialiser and
// no code outside initialisers updates a map of that type.
func (e *Exec) isGlobalTable(m *Term) bool {
	return e.p.gtables[m]
}

func (e *Exec) lookup(st *State, x *ssa.Lookup) bool {
	m, k := e.val(st, x.X), e.val(st, x.Index)
	vt := x.X.Type().Underlying().(*types.Map).Elem()
	set := func(s *State, v, has *Term) {
		if x.CommaOk {
			s.top().env[x] = mk("tuple", "", x.Type(), nil, v, has)
		} else {
			s.top().env[x] = v
		}
	}
	if kc := st.facts.eqConst(k); kc != nil {
		k2 := kc
		if v, ok := st.mem[mk("&m", "", nil, nil, m, k2)]; ok {
			set(st, v, mkBool(true))
			return true
		}
	}
	if v, ok := st.mem[mk("&m", "", nil, nil, m, k)]; ok {
		set(st, v, mkBool(true))
		return true
	}
	if m.isNil() {
		set(st, zeroTerm(vt), mkBool(false))
		return true
	}
	if e.isGlobalTable(m) || isFreshTerm(m) && !st.escaped[m] {
		ents, complete := e.mapEntries(st, m)
		if e.isGlobalTable(m) {
			complete = true
			for c := range ents {
				if !c.isConst() {
					complete = false
				}
			}
		}
		if complete {
			if kc := st.facts.eqConst(k); kc != nil {
				if v, ok := ents[kc]; ok {
					set(st, v, mkBool(true))
				} else {
					set(st, zeroTerm(vt), mkBool(false))
				}
				return true
			}
			if (k.Op == "mconst" || e.pol.ForkTables) && len(ents) <= 64 && e.isGlobalTable(m) {
				miss := st.facts
				var keys []*Term
				for c := range ents {
					keys = append(keys, c)
				}
				sortTerms(keys)
				for _, c := range keys {
					f := st.facts.assume(e.p, mkEq(k, c), true)
					if f != nil {
						o := st.clone()
						o.facts = f
						set(o, ents[c], mkBool(true))
						e.work = append(e.work, o)
					}
					if miss != nil {
						miss = miss.assume(e.p, mkEq(k, c), false)
					}
				}
				if miss != nil {
					st.facts = miss
					set(st, zeroTerm(vt), mkBool(false))
					return true
				}
				return false
			}
		}
	}
	ep := st.mapEpoch(m)
	v := mk("lookup", ep, vt, nil, m, k)
	has := mk("maphas", ep, types.Typ[types.Bool], nil, m, k)
	if x.CommaOk {
		// split so that the value is the zero value on a miss
		yes := st.facts.assume(e.p, has, true)
		no := st.facts.assume(e.p, has, false)
		if yes != nil && no != nil {
			o := st.clone()
			o.facts = no
			set(o, zeroTerm(vt), mkBool(false))
			e.work = append(e.work, o)
			st.facts = yes
			set(st, v, mkBool(true))
			return true
		}
		if yes != nil {
			set(st, v, mkBool(true))
		} else {
			set(st, zeroTerm(vt), mkBool(false))
		}
		return true
	}
	set(st, v, has)
	return true
}

func sortTerms(ts []*Term) {
	for i := 1; i < len(ts); i++ {
		for j := i; j > 0 && ts[j-1].Sym > ts[j].Sym; j-- {
			ts[j-1], ts[j] = ts[j], ts[j-1]
		}
	}
}

var debugExec = os.Getenv("VDEBUG") != ""

func hasPrefixAny(s string, ps ...string) bool {
	for _, p := range ps {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}
