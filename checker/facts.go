package main

import (
	"go/types"
	"maps"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// KS is a set of dynamic types of an interface value. With Neg the value is
// known to be of none of the types. "nil" stands for the nil interface.
type KS struct {
	Neg bool
	Set map[string]bool
}

func ksOf(names ...string) KS {
	m := map[string]bool{}
	for _, n := range names {
		m[n] = true
	}
	return KS{Set: m}
}

func (k KS) has(n string) bool { return k.Set[n] != k.Neg }

func (k KS) empty() bool { return !k.Neg && len(k.Set) == 0 }

func (k KS) single() (string, bool) {
	if k.Neg || len(k.Set) != 1 {
		return "", false
	}
	for n := range k.Set {
		return n, true
	}
	return "", false
}

func (k KS) names() []string {
	var r []string
	for n := range k.Set {
		r = append(r, n)
	}
	sort.Strings(r)
	return r
}

func (k KS) filter(keep func(string) bool) KS {
	if k.Neg {
		return k
	}
	m := map[string]bool{}
	for n := range k.Set {
		if keep(n) {
			m[n] = true
		}
	}
	return KS{Set: m}
}

func (k KS) String() string {
	s := "{" + strings.Join(k.names(), " ") + "}"
	if k.Neg {
		return "¬" + s
	}
	return s
}

// Facts is the abstract path condition: a conjunction over a finite lattice
// (dynamic-type sets, constants, boolean atoms, difference bounds).
type Facts struct {
	kinds map[*Term]KS
	eq    map[*Term]*Term
	neq   map[*Term]map[*Term]bool
	bools map[*Term]bool
	zone  map[[2]*Term]int64 // x - y <= c, nil is zero
	vars  map[*Term]bool
}

func newFacts() *Facts {
	return &Facts{map[*Term]KS{}, map[*Term]*Term{}, map[*Term]map[*Term]bool{}, map[*Term]bool{}, map[[2]*Term]int64{}, map[*Term]bool{}}
}

func (f *Facts) clone() *Facts {
	n := &Facts{maps.Clone(f.kinds), maps.Clone(f.eq), make(map[*Term]map[*Term]bool, len(f.neq)), maps.Clone(f.bools), maps.Clone(f.zone), maps.Clone(f.vars)}
	for k, v := range f.neq {
		n.neq[k] = v // inner maps are replaced, never mutated
	}
	return n
}

func (f *Facts) kind(p *Prog, t *Term) KS {
	if t.Op == "iface" {
		return ksOf(t.Sym)
	}
	if t.isNil() {
		return ksOf("nil")
	}
	if k, ok := f.kinds[t]; ok {
		return k
	}
	if t.Op == "inv" && len(t.Args) == 1 {
		if rk, ok := f.kind(p, t.Args[0]).single(); ok {
			n, _, _ := strings.Cut(t.Sym, "#")
			if k, ok := p.resultKinds(rk, n); ok {
				return k
			}
		}
	}
	return p.universe(t.Typ)
}

// resultKinds are the dynamic types a niladic method of a type returns, when
// every return makes the interface value on the spot.
func (p *Prog) resultKinds(typeName, name string) (KS, bool) {
	key := typeName + "." + name
	if k, ok := p.rkinds[key]; ok {
		return k, !k.empty()
	}
	if p.rkinds == nil {
		p.rkinds = map[string]KS{}
	}
	p.rkinds[key] = KS{}
	fn := p.method(typeName, name)
	if fn == nil || len(fn.Blocks) == 0 || fn.Signature.Results().Len() != 1 {
		return KS{}, false
	}
	var out []string
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			r, ok := in.(*ssa.Return)
			if !ok {
				continue
			}
			m, ok := r.Results[0].(*ssa.MakeInterface)
			if !ok {
				return KS{}, false
			}
			out = append(out, shortType(m.X.Type()))
		}
	}
	if len(out) == 0 {
		return KS{}, false
	}
	p.rkinds[key] = ksOf(out...)
	return p.rkinds[key], true
}

func (f *Facts) eqConst(t *Term) *Term {
	if t.isConst() {
		return t
	}
	if c, ok := f.eq[t]; ok {
		return c
	}
	return nil
}

// ------------------------------------------------------------- zone domain

func splitLin(t *Term) (*Term, int64) {
	if n, ok := t.intVal(); ok {
		return nil, n
	}
	if t.Op != "lin" {
		return t, 0
	}
	l := toLinear(t)
	c := l.c
	l.c = 0
	return l.term(), c
}

func (f *Facts) bound(x, y *Term) (int64, bool) {
	// shortest path x -> y with edge weights zone[x,y] (Bellman-Ford style)
	if x == y {
		return 0, true
	}
	const inf = int64(1) << 60
	dist := map[*Term]int64{x: 0}
	for round := 0; round <= len(f.vars)+1; round++ {
		changed := false
		for e, c := range f.zone {
			if d, ok := dist[e[0]]; ok {
				if o, ok := dist[e[1]]; !ok || d+c < o {
					dist[e[1]] = d + c
					changed = true
				}
			}
		}
		for v := range f.vars { // implicit lower bounds: 0 - v <= -lb
			if lb, ok := implicitLow(v); ok {
				if d, ok := dist[nil]; ok {
					if o, ok := dist[v]; !ok || d-lb < o {
						dist[v] = d - lb
						changed = true
					}
				}
			}
		}
		for _, v := range []*Term{x, y} {
			if v == nil {
				continue
			}
			if lb, ok := implicitLow(v); ok {
				if d, ok := dist[nil]; ok {
					if o, ok := dist[v]; !ok || d-lb < o {
						dist[v] = d - lb
						changed = true
					}
				}
			}
		}
		if !changed {
			break
		}
	}
	d, ok := dist[y]
	if ok && d < inf {
		return d, true
	}
	return 0, false
}

func implicitLow(t *Term) (int64, bool) {
	switch t.Op {
	case "len", "loopk":
		return 0, true
	case "call":
		if strings.HasPrefix(t.Sym, "unicode/utf8.RuneCount") {
			return 0, true
		}
	}
	if t.Op == "lin" { // sum of non-negative terms
		l := toLinear(t)
		for a, n := range l.co {
			if n < 0 {
				return 0, false
			}
			if _, ok := implicitLow(a); !ok {
				return 0, false
			}
		}
		return l.c, true
	}
	if t.Typ != nil {
		if b, ok := t.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			return 0, true
		}
	}
	return 0, false
}

// upper returns the least known c with a - b <= c.
func (f *Facts) upper(a, b *Term) (int64, bool) {
	x, cx := splitLin(a)
	y, cy := splitLin(b)
	if d, ok := f.bound(x, y); ok {
		return d + cx - cy, true
	}
	// difference as one linear form, e.g. (len - idx) against zero
	dt := linAdd(a, b, -1)
	v, c := splitLin(dt)
	if v == nil {
		return c, true
	}
	if d, ok := f.bound(v, nil); ok {
		return d + c, true
	}
	// sums: bound each positive/negative pair through zero
	l := toLinear(v)
	total := c
	for t, n := range l.co {
		var d int64
		var ok bool
		if n == 1 {
			d, ok = f.bound(t, nil)
		} else if n == -1 {
			d, ok = f.bound(nil, t)
		}
		if !ok {
			return 0, false
		}
		total += d
	}
	return total, true
}

func (f *Facts) addUpper(a, b *Term, c int64) {
	x, cx := splitLin(a)
	y, cy := splitLin(b)
	f.addEdge(x, y, c-cx+cy)
	// a linear difference with several variables is kept as one variable too
	if x != nil && (x.Op == "lin" || (y != nil && y.Op == "lin")) {
		v, d := splitLin(linAdd(a, b, -1))
		if v != nil {
			l := toLinear(v)
			if len(l.co) == 2 { // p - q
				var p, q *Term
				for t, n := range l.co {
					if n == 1 {
						p = t
					} else if n == -1 {
						q = t
					}
				}
				if p != nil && q != nil {
					f.addEdge(p, q, c-d)
					return
				}
			}
			f.addEdge(v, nil, c-d)
		}
	}
}

func (f *Facts) addEdge(x, y *Term, c int64) {
	k := [2]*Term{x, y}
	if o, ok := f.zone[k]; !ok || c < o {
		f.zone[k] = c
	}
	if x != nil {
		f.vars[x] = true
	}
	if y != nil {
		f.vars[y] = true
	}
}

// ------------------------------------------------------------- decisions

// decide evaluates a condition under the facts: 1 true, 0 false, -1 unknown.
func (f *Facts) decide(p *Prog, c *Term) int {
	if c.isTrue() {
		return 1
	}
	if c.isFalse() {
		return 0
	}
	if c.Op == "!" {
		d := f.decide(p, c.Args[0])
		if d < 0 {
			return d
		}
		return 1 - d
	}
	if b, ok := f.bools[c]; ok {
		if b {
			return 1
		}
		return 0
	}
	if x := errClass(c); x != nil {
		if n, ok := f.kind(p, x).single(); ok && n == "nil" {
			return 0
		}
	}
	switch c.Op {
	case "istype":
		k := f.kind(p, c.Args[0])
		in, out := false, false
		if k.Neg {
			names := p.typeSet(c)
			if names == nil {
				return -1
			}
			all := true
			for n := range names {
				if !k.Set[n] {
					all = false
				}
			}
			if all {
				return 0
			}
			return -1
		}
		for n := range k.Set {
			if p.inTypeSet(c, n) {
				in = true
			} else {
				out = true
			}
		}
		if in && !out {
			return 1
		}
		if out && !in {
			return 0
		}
		return -1
	case "==":
		a, b := c.Args[0], c.Args[1]
		if b.isNil() {
			switch a.Op {
			case "iface", "alloc", "closure", "func", "slicelit", "mapalloc", "&f", "&i", "global", "makeslice":
				return 0
			case "append":
				if len(a.Args) > 1 {
					return 0
				}
			case "cast":
				return 0
			case "call":
				n := strings.SplitN(a.Sym, "#", 2)[0]
				if nonNilCall[n] || p.nonNil().fns[n] {
					return 0
				}
			case "init":
				if a.Args[0].Op == "&f" && p.nonNil().field[a.Args[0].Sym] {
					return 0
				}
			}
			if isIface(a.Typ) {
				k := f.kind(p, a)
				if !k.has("nil") {
					return 0
				}
				if n, ok := k.single(); ok && n == "nil" {
					return 1
				}
			}
			return -1
		}
		if a.Op == "mconst" || b.Op == "mconst" {
			return f.decideMConst(p, a, b)
		}
		if ca, cb := f.eqConst(a), f.eqConst(b); ca != nil && cb != nil {
			r := mkEq(ca, cb)
			if r.isTrue() {
				return 1
			}
			if r.isFalse() {
				return 0
			}
		} else if ca != nil && f.neq[b][ca] || cb != nil && f.neq[a][cb] {
			return 0
		}
		if isInteger(a.Typ) || isInteger(b.Typ) || a.Op == "lin" || b.Op == "lin" {
			u, ok1 := f.upper(a, b)
			l, ok2 := f.upper(b, a)
			if ok1 && u < 0 || ok2 && l < 0 {
				return 0
			}
			if ok1 && ok2 && u <= 0 && l <= 0 {
				return 1
			}
		}
		return -1
	case "u<": // of integers that are compared as unsigned ones
		a, b := c.Args[0], c.Args[1]
		na, nb := f.decide(p, mkLess(a, mkInt(0))), f.decide(p, mkLess(b, mkInt(0)))
		switch {
		case na == 0 && nb == 0:
			return f.decide(p, mkLess(a, b))
		case na == 1 && nb == 0:
			return 0
		case na == 0 && nb == 1:
			return 1
		}
		return -1
	case "<":
		a, b := c.Args[0], c.Args[1]
		if u, ok := f.upper(a, b); ok && u < 0 {
			return 1
		}
		if l, ok := f.upper(b, a); ok && l <= 0 {
			return 0
		}
		return -1
	}
	if k := f.eqConst(c); k != nil {
		if k.isTrue() {
			return 1
		}
		if k.isFalse() {
			return 0
		}
	}
	return -1
}

func (f *Facts) mconstVals(p *Prog, t *Term) map[*Term][]string {
	r := map[*Term][]string{}
	if t.Op == "mconst" {
		k := f.kind(p, t.Args[0])
		if k.Neg {
			return nil
		}
		for n := range k.Set {
			if n == "nil" {
				continue
			}
			v := p.constMethod(n, t.Sym)
			if v == nil {
				return nil
			}
			r[v] = append(r[v], n)
		}
		return r
	}
	if c := f.eqConst(t); c != nil {
		r[c] = nil
		return r
	}
	return nil
}

func (f *Facts) decideMConst(p *Prog, a, b *Term) int {
	va, vb := f.mconstVals(p, a), f.mconstVals(p, b)
	if va == nil || vb == nil {
		return -1
	}
	common := 0
	for c := range va {
		if _, ok := vb[c]; ok {
			common++
		}
	}
	if common == 0 {
		return 0
	}
	if len(va) == 1 && len(vb) == 1 {
		return 1
	}
	return -1
}

// assume returns facts strengthened with c == val, or nil if contradictory.
func (f *Facts) assume(p *Prog, c *Term, val bool) (res *Facts) {
	d := f.decide(p, c)
	if d >= 0 {
		if (d == 1) == val {
			return f
		}
		return nil
	}
	if c.Op == "!" {
		return f.assume(p, c.Args[0], !val)
	}
	if x := errClass(c); x != nil && val {
		// only an error is of a class of errors
		r := f.assume(p, mkEq(x, mkNil()), false)
		if r == nil {
			return nil
		}
		f = r
	}
	n := f.clone()
	n.bools[c] = val
	defer func() {
		if res != nil {
			res = res.propagate(p)
		}
	}()
	switch c.Op {
	case "istype":
		x := c.Args[0]
		k := n.kind(p, x)
		if k.Neg {
			names := p.typeSet(c)
			if val {
				m := map[string]bool{}
				if names == nil {
					break
				}
				for t := range names {
					if !k.Set[t] {
						m[t] = true
					}
				}
				n.kinds[x] = KS{Set: m}
			} else {
				m := maps.Clone(k.Set)
				if m == nil {
					m = map[string]bool{}
				}
				for t := range names {
					m[t] = true
				}
				n.kinds[x] = KS{Neg: true, Set: m}
			}
		} else {
			n.kinds[x] = k.filter(func(t string) bool { return p.inTypeSet(c, t) == val })
		}
		if n.kinds[x].empty() && !n.kinds[x].Neg {
			return nil
		}
	case "==":
		a, b := c.Args[0], c.Args[1]
		if b.isNil() {
			if isIface(a.Typ) {
				k := n.kind(p, a)
				if val {
					n.kinds[a] = ksOf("nil")
				} else if k.Neg {
					m := maps.Clone(k.Set)
					if m == nil {
						m = map[string]bool{}
					}
					m["nil"] = true
					n.kinds[a] = KS{Neg: true, Set: m}
				} else {
					n.kinds[a] = k.filter(func(t string) bool { return t != "nil" })
				}
			}
			break
		}
		if a.Op == "mconst" || b.Op == "mconst" {
			va, vb := n.mconstVals(p, a), n.mconstVals(p, b)
			if va == nil || vb == nil {
				break
			}
			restrict := func(t *Term, mine, other map[*Term][]string) {
				if t.Op != "mconst" {
					return
				}
				keep := map[string]bool{}
				for c, ns := range mine {
					_, in := other[c]
					if val && in || !val && !(in && len(other) == 1) {
						for _, x := range ns {
							keep[x] = true
						}
					}
				}
				n.kinds[t.Args[0]] = KS{Set: keep}
			}
			restrict(a, va, vb)
			restrict(b, vb, va)
			break
		}
		ca, cb := n.eqConst(a), n.eqConst(b)
		if val {
			if ca != nil && cb == nil {
				n.eq[b] = ca
			}
			if cb != nil && ca == nil {
				n.eq[a] = cb
			}
			if isInteger(a.Typ) || isInteger(b.Typ) || a.Op == "lin" || b.Op == "lin" {
				n.addUpper(a, b, 0)
				n.addUpper(b, a, 0)
			}
			n = n.emptiness(p, a, b, true)
			if n == nil {
				return nil
			}
		} else {
			n = n.emptiness(p, a, b, false)
			if n == nil {
				return nil
			}
			if cb != nil {
				n.addNeq(a, cb)
			}
			if ca != nil {
				n.addNeq(b, ca)
			}
			// a != b with a <= b gives a < b
			if isInteger(a.Typ) || isInteger(b.Typ) || a.Op == "lin" || b.Op == "lin" {
				if u, ok := n.upper(a, b); ok && u == 0 {
					n.addUpper(a, b, -1)
				}
				if u, ok := n.upper(b, a); ok && u == 0 {
					n.addUpper(b, a, -1)
				}
			}
		}
	case "u<":
		a, b := c.Args[0], c.Args[1]
		if val && n.decide(p, mkLess(b, mkInt(0))) == 0 {
			n.addUpper(mkInt(0), a, 0)
			n.addUpper(a, b, -1)
		}
		if !val && n.decide(p, mkLess(a, mkInt(0))) == 0 {
			n.addUpper(b, a, 0)
		}
	case "<":
		a, b := c.Args[0], c.Args[1]
		if val {
			n.addUpper(a, b, -1)
		} else {
			n.addUpper(b, a, 0)
			// refine with known disequalities: b<=a and a!=b gives b<a
			if kb := n.eqConst(b); kb != nil && n.neq[a][kb] {
				n.addUpper(b, a, -1)
			}
			if ka := n.eqConst(a); ka != nil && n.neq[b][ka] {
				n.addUpper(b, a, -1)
			}
		}
		if u, ok := n.upper(a, b); ok {
			if l, ok2 := n.upper(b, a); ok2 && u+l < 0 {
				return nil
			}
		}
	default:
		if val {
			n.eq[c] = mkBool(true)
		} else {
			n.eq[c] = mkBool(false)
		}
	}
	return n
}

// propagate re-applies known equalities between Type() constants of two
// interface values after one of them has been narrowed.
func (f *Facts) propagate(p *Prog) *Facts {
	for again := true; again; {
		again = false
		for c, val := range f.bools {
			if c.Op != "==" || c.Args[0].Op != "mconst" && c.Args[1].Op != "mconst" {
				continue
			}
			va, vb := f.mconstVals(p, c.Args[0]), f.mconstVals(p, c.Args[1])
			if va == nil || vb == nil {
				continue
			}
			restrict := func(t *Term, mine, other map[*Term][]string) bool {
				if t.Op != "mconst" {
					return true
				}
				keep := map[string]bool{}
				n := 0
				for k, ns := range mine {
					_, in := other[k]
					if val && in || !val && !(in && len(other) == 1) {
						for _, x := range ns {
							keep[x] = true
						}
					} else {
						n++
					}
				}
				if n > 0 {
					f.kinds[t.Args[0]] = KS{Set: keep}
					again = true
				}
				return len(keep) > 0
			}
			if !restrict(c.Args[0], va, vb) {
				return nil
			}
			va = f.mconstVals(p, c.Args[0])
			if va == nil {
				continue
			}
			if !restrict(c.Args[1], vb, va) {
				return nil
			}
		}
	}
	return f
}

func (f *Facts) addNeq(t, c *Term) {
	m := maps.Clone(f.neq[t])
	if m == nil {
		m = map[*Term]bool{}
	}
	m[c] = true
	f.neq[t] = m
	// shave integer bounds
	if n, ok := c.intVal(); ok {
		if u, ok := f.upper(t, mkInt(0)); ok && u == n {
			f.addUpper(t, mkInt(n-1), 0)
		}
		if l, ok := f.upper(mkInt(0), t); ok && -l == n {
			f.addUpper(mkInt(n+1), t, 0)
		}
	}
}

// setKind forces the dynamic-type set of a term.
func (f *Facts) setKind(t *Term, k KS) *Facts {
	n := f.clone()
	n.kinds[t] = k
	return n
}

func (f *Facts) String() string {
	var s []string
	for t, k := range f.kinds {
		s = append(s, t.String()+":"+k.String())
	}
	for t, b := range f.bools {
		if t.Op == "istype" || (t.Op == "==" && t.Args[1].isNil() && isIface(t.Args[0].Typ)) {
			continue
		}
		if b {
			s = append(s, t.String())
		} else {
			s = append(s, "!"+t.String())
		}
	}
	sort.Strings(s)
	return strings.Join(s, " ∧ ")
}

var nonNilCall = map[string]bool{
	"errors.New": true, "fmt.Errorf": true,
}

// emptiness links x == "" and len(x) == 0.
func (f *Facts) emptiness(p *Prog, a, b *Term, val bool) *Facts {
	for i := 0; i < 2; i++ {
		var o *Term
		if s, ok := b.strVal(); ok && s == "" && !a.isConst() {
			o = mkEq(mkLen(a), mkInt(0))
		} else if n, ok := b.intVal(); ok && n == 0 && a.Op == "len" && isString(a.Args[0].Typ) {
			o = mkEq(a.Args[0], mkStr(""))
		}
		if o != nil {
			if v, known := f.bools[o]; !known || v != val {
				return f.assume(p, o, val)
			}
		}
		a, b = b, a
	}
	return f
}

// errClass gives the error of a condition that holds of errors only: it has
// to match a fixed error, or to be of a kind of system errors.
func errClass(c *Term) *Term {
	if c.Op != "call" || len(c.Args) == 0 || !isIface(c.Args[0].Typ) {
		return nil
	}
	switch c.Sym {
	case "os.IsNotExist", "os.IsExist", "os.IsPermission", "os.IsTimeout":
		return c.Args[0]
	case "errors.Is":
		if len(c.Args) == 2 && !c.Args[1].isNil() {
			return c.Args[0]
		}
	}
	return nil
}
