package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// nullModel tells which nilable fields of the syntax tree may be nil after a
// parse without errors. It is derived from the paths of the parser: every node
// that such a path returns gives one combination of absent and present fields.
type nullModel struct {
	rows  map[string][]nullRow              // "ast.IfStmt" -> combinations
	kinds map[string]map[string]bool        // "ast.DotExp.Key" -> dynamic types, "?" unknown
	elems map[string]int                    // element nilness by list or map type: nlSet, nlNil, nlUnknown
	links map[string]int                    // fields that code outside of the parser assigns
	names map[string]map[string]bool        // fields of each kind that matter
	nils  map[string]map[*ssa.Function]bool // why an element may be nil
	ok    bool
	why   string
}

const (
	nlSet = iota + 1
	nlNil
	nlUnknown
)

type nullRow map[string]int

func (r nullRow) key() string {
	var l []string
	for k, v := range r {
		l = append(l, k+string(rune('0'+v)))
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

func nilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface:
		return true
	}
	return false
}

func isAstNode(t types.Type) (*types.Struct, string, bool) {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	n := shortType(t)
	st, ok := t.Underlying().(*types.Struct)
	return st, n, ok && strings.HasPrefix(n, "ast.")
}

type nullBuilder struct {
	c     *Checker
	pr    *parserRun
	m     *nullModel
	reg   []*ssa.Function
	roots map[*ssa.Function][]*Path
	never map[string]int // functions whose result is never nil without an error
	left  int            // what infix functions are given
}

func (c *Checker) nullModel() *nullModel {
	if c.nm != nil {
		return c.nm
	}
	m := &nullModel{rows: map[string][]nullRow{}, kinds: map[string]map[string]bool{}, elems: map[string]int{}, links: map[string]int{}, names: map[string]map[string]bool{}}
	c.nm = m
	pr := c.parser()
	if pr.errs != "" {
		m.why = pr.errs
		return m
	}
	prefix, infix, ok := pr.registrations()
	if !ok {
		m.why = "the tables of the parser are not resolved"
		return m
	}
	b := &nullBuilder{c: c, pr: pr, m: m, roots: map[*ssa.Function][]*Path{}, never: map[string]int{}}
	seen := map[*ssa.Function]bool{}
	c.nb = b
	add := func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		ps, complete := pr.run(f, nil, "", nil)
		if !complete {
			m.why = "the paths of " + c.p.fullName(f) + " are incomplete"
		}
		b.roots[f] = ps
	}
	for _, f := range prefix {
		add(f)
		b.reg = append(b.reg, f)
	}
	inf := map[*ssa.Function]bool{}
	for _, f := range infix {
		add(f)
		b.reg = append(b.reg, f)
		inf[f] = true
	}
	for _, n := range parseCuts {
		add(c.p.fn("parser", strings.TrimPrefix(n, "parser.")))
	}
	add(c.p.fn("parser", "Parser.ParseProgram"))
	if m.why != "" {
		return m
	}
	m.ok = true
	// optimistic start: nothing is nil, then refuted until stable
	for f := range b.roots {
		b.never[c.p.fullName(f)] = nlSet
	}
	b.left = nlSet
	for again := true; again; {
		again = false
		for f, ps := range b.roots {
			n := c.p.fullName(f)
			v := b.result(ps)
			if v > b.never[n] {
				b.never[n], again = v, true
			}
			for _, p := range ps {
				for _, ev := range p.Events {
					if ev.Kind == "dyncall" && len(ev.Args) > 1 {
						for _, a := range ev.Args[1:] {
							if !nilable(typeOr(a)) {
								continue
							}
							if l := b.nilness(p, ps, a, 0); l > b.left {
								b.left, again = l, true
							}
						}
					}
				}
			}
		}
	}
	for f, ps := range b.roots {
		for _, p := range ps {
			if hasErr(p) {
				continue
			}
			b.collect(f, p, ps)
		}
	}
	b.linked()
	return m
}

func typeOr(t *Term) types.Type {
	if t.Typ == nil {
		return types.Typ[types.Int]
	}
	return t.Typ
}

// result: whether a path without error gives nil.
func (b *nullBuilder) result(ps []*Path) int {
	r := nlSet
	for _, p := range ps {
		if p.Outcome != "return" || hasErr(p) || len(p.Ret) == 0 {
			continue
		}
		if v := b.nilness(p, ps, p.Ret[0], 0); v > r {
			r = v
		}
	}
	return r
}

// nilness of a value on a path.
func (b *nullBuilder) nilness(p *Path, ps []*Path, v *Term, d int) int {
	if v == nil || d > 8 {
		return nlUnknown
	}
	switch b.neverNil(p, v) {
	case 1:
		return nlNil
	case 0:
		if v.Op == "iface" {
			if _, ok := typeOr(v.Args[0]).Underlying().(*types.Pointer); ok {
				return b.nilness(p, ps, v.Args[0], d+1)
			}
		}
		if v.Op == "cast" {
			return b.nilness(p, ps, v.Args[0], d+1)
		}
		return nlSet
	}
	switch v.Op {
	case "iface", "cast":
		return b.nilness(p, ps, v.Args[0], d+1)
	case "call":
		n := strings.SplitN(v.Sym, "#", 2)[0]
		if r, ok := b.never[n]; ok {
			return r
		}
	case "dyn":
		// a function of the tables
		r := nlSet
		for _, f := range b.reg {
			if x := b.never[b.c.p.fullName(f)]; x > r {
				r = x
			}
		}
		return r
	case "param":
		if p.Root != nil {
			for _, f := range b.reg {
				if f == p.Root {
					return b.left
				}
			}
		}
	case "loopv", "loopm":
		init, step, ok := loopValues(v, ps)
		if !ok {
			return nlUnknown
		}
		r := nlSet
		for _, x := range append(init, step...) {
			if x.t == v {
				continue
			}
			if n := b.nilness(x.p, ps, x.t, d+1); n > r {
				r = n
			}
		}
		return r
	}
	return nlUnknown
}

type termOn struct {
	t *Term
	p *Path
}

// loopValues are the values a loop variable starts with and gets in a pass.
func loopValues(v *Term, ps []*Path) (init, step []termOn, ok bool) {
	seen := map[*Term]bool{}
	add := func(l *[]termOn, x *Term, q *Path) {
		if x != nil && !seen[x] {
			seen[x] = true
			*l = append(*l, termOn{x, q})
		}
	}
	for _, q := range ps {
		if hasErr(q) {
			continue
		}
		if v.Op == "loopm" {
			for _, ev := range q.Events {
				if ev.Kind == "acc" && ev.Loop == v.Sym && ev.Addr == v.Args[0] {
					add(&init, ev.Val, q)
				}
			}
			if q.Outcome == "back" && q.Loop == v.Sym {
				add(&step, q.St.mem[v.Args[0]], q)
			}
			continue
		}
		for _, ev := range q.Events {
			if ev.Loop == "" || ev.Vals == nil || !strings.HasPrefix(v.Sym, ev.Loop+".") {
				continue
			}
			x := ev.Vals[strings.TrimPrefix(v.Sym, ev.Loop+".")]
			switch ev.Kind {
			case "loop":
				add(&init, x, q)
			case "back":
				add(&step, x, q)
			}
		}
	}
	return init, step, len(init) > 0
}

// neverNil: 0 not nil, 1 nil, -1 not decided on this path.
func (b *nullBuilder) neverNil(p *Path, v *Term) int {
	if v.isNil() {
		return 1
	}
	if k := p.Facts.kind(b.c.p, v); !k.has("nil") && isIface(v.Typ) {
		return 0
	}
	return p.Facts.decide(b.c.p, mkEq(v, mkNil()))
}

// collect records the nodes that a path returns or stores.
func (b *nullBuilder) collect(f *ssa.Function, p *Path, ps []*Path) {
	var roots []*Term
	roots = append(roots, p.Ret...)
	for _, ev := range p.Events {
		switch ev.Kind {
		case "store":
			if base := addrBase(ev.Addr); !isFreshTerm(base) || p.Outcome == "back" {
				roots = append(roots, ev.Val)
			}
			b.elemStore(p, ps, ev)
		case "mapupdate":
			if ev.Addr.Typ != nil {
				b.elem(p, ps, ev.Addr.Typ, ev.Val)
			}
			if !isFreshTerm(ev.Addr) {
				roots = append(roots, ev.Val)
			}
		case "back", "loop":
			for _, x := range ev.Vals {
				roots = append(roots, x)
			}
		}
	}
	seen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		switch t.Op {
		case "append":
			if t.Typ != nil {
				for _, a := range t.Args[1:] {
					b.elem(p, ps, t.Typ, a)
				}
			}
		case "alloc":
			b.node(p, ps, t, visit)
		case "call", "dyn":
			return
		}
		for _, a := range t.Args {
			visit(a)
		}
	}
	for _, t := range roots {
		visit(t)
	}
}

func (b *nullBuilder) elemStore(p *Path, ps []*Path, ev *Event) {
	if ev.Addr.Op != "&i" {
		return
	}
	pt, ok := typeOr(ev.Addr).Underlying().(*types.Pointer)
	if !ok {
		return
	}
	b.elem(p, ps, types.NewSlice(pt.Elem()), ev.Val)
}

func (b *nullBuilder) elem(p *Path, ps []*Path, coll types.Type, v *Term) {
	var et types.Type
	switch u := coll.Underlying().(type) {
	case *types.Slice:
		et = u.Elem()
	case *types.Map:
		et = u.Elem()
	default:
		return
	}
	if !nilable(et) || !strings.Contains(shortType(et), "ast.") {
		return
	}
	n := shortType(coll.Underlying())
	r := b.nilness(p, ps, v, 0)
	if r > b.m.elems[n] {
		b.m.elems[n] = r
	}
}

func (b *nullBuilder) node(p *Path, ps []*Path, a *Term, visit func(t *Term)) {
	st, name, ok := isAstNode(typeOr(a))
	if !ok {
		return
	}
	row := nullRow{}
	e := newExec(b.c.p, &Policy{})
	s := p.St.clone()
	base := typeOr(a).Underlying().(*types.Pointer).Elem()
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		own := fieldOwner(base, i)
		v := e.load(s, mkFieldAddr(own, a, types.NewPointer(ft)), ft)
		if v == nil {
			continue
		}
		visit(v)
		if !nilable(ft) {
			continue
		}
		fn := st.Field(i).Name()
		if v.Op == "init" && v.Args[0].Op == "&f" && v.Args[0].Args[0] == a {
			row[fn] = nlUnknown
			continue
		}
		row[fn] = b.nilness(p, ps, v, 0)
		if isIface(ft) {
			ks := b.m.kinds[own]
			if ks == nil {
				ks = map[string]bool{}
				b.m.kinds[own] = ks
			}
			if k, ok := p.Facts.kind(b.c.p, v).single(); ok {
				ks[k] = true
			} else {
				ks["?"] = true
			}
		}
	}
	k := row.key()
	for _, r := range b.m.rows[name] {
		if r.key() == k {
			return
		}
	}
	b.m.rows[name] = append(b.m.rows[name], row)
}

// linked finds the fields that code outside of the parser assigns.
func (b *nullBuilder) linked() {
	nn := b.c.p.nonNil()
	for _, f := range b.c.p.funcs {
		if f.Pkg == nil || f.Synthetic != "" {
			continue
		}
		for _, bl := range f.Blocks {
			for _, in := range bl.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				if _, local := fa.X.(*ssa.Alloc); local {
					continue
				}
				if f.Pkg.Pkg.Name() == "parser" {
					continue
				}
				pt := fa.X.Type().Underlying().(*types.Pointer)
				if _, _, isAst := isAstNode(pt); !isAst || !nilable(s.Val.Type()) {
					continue
				}
				own := fieldOwner(pt.Elem(), fa.Field)
				v := nlUnknown
				if nn.never(b.c.p, s.Val, bl, 0) {
					v = nlSet
				} else if k, isC := s.Val.(*ssa.Const); isC && k.IsNil() {
					v = nlNil
				}
				if v > b.m.links[own] {
					b.m.links[own] = v
				}
			}
		}
	}
}

// field: whether a field may be nil given what is known about its sisters.
func (m *nullModel) field(kind, field string, known func(f string) int) (int, string) {
	if !m.ok {
		return nlUnknown, m.why
	}
	rows := m.rows[kind]
	if len(rows) == 0 {
		return nlUnknown, "the parser makes no " + kind
	}
	r := nlSet
	for _, row := range rows {
		fits := true
		for f, v := range row {
			if f == field || v == nlUnknown || m.links[kind+"."+f] != 0 {
				continue
			}
			if k := known(f); k != 0 && k != v {
				fits = false
			}
		}
		if !fits {
			continue
		}
		v, set := row[field]
		if !set {
			v = nlUnknown
		}
		if v > r {
			r = v
		}
	}
	// what the parser leaves out may be missing: not every program is linked
	if l := m.links[kind+"."+field]; l > r && r != nlNil {
		r = l
	}
	return r, ""
}
