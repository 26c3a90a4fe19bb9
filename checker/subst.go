package main

import "go/types"

// subst rebuilds a term with some subterms replaced, folding comparisons and
// lookups in constant tables.
func (c *Checker) subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t == nil {
			return nil
		}
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		as := make([]*Term, len(t.Args))
		same := true
		for i, a := range t.Args {
			as[i] = rec(a)
			if as[i] != a {
				same = false
			}
		}
		r := t
		if !same {
			r = c.rebuild(t, as)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func (c *Checker) rebuild(t *Term, as []*Term) *Term {
	switch t.Op {
	case "==":
		if isFloat(as[0].Typ) {
			return eqTerm(as[0], as[1])
		}
		return mkEq(as[0], as[1])
	case "<":
		return mkLess(as[0], as[1])
	case "!":
		return mkNot(as[0])
	case "lin":
		l := toLinear(t)
		r := mkInt(l.c)
		for i, a := range t.Args {
			k := l.co[a]
			x := toLinear(as[i])
			y := linear{c: x.c * k, co: map[*Term]int64{}}
			for u, n := range x.co {
				y.co[u] = n * k
			}
			r = linAdd(r, y.term(), 1)
		}
		return r
	case "i/", "i%", "i*":
		a, ok := as[0].intVal()
		b, ok2 := as[1].intVal()
		if ok && ok2 && (t.Op == "i*" || b != 0) {
			switch t.Op {
			case "i/":
				return mkInt(a / b)
			case "i%":
				return mkInt(a % b)
			}
			return mkInt(a * b)
		}
	case "cat":
		return mkCat(as...)
	case "len":
		return mkLen(as[0])
	case "lookup", "maphas":
		if as[1].isConst() && c.p.gtables[as[0]] {
			v, ok := c.p.gmem.mem[mkMapAddr(as[0], as[1])]
			if t.Op == "maphas" {
				return mkBool(ok)
			}
			if !ok {
				if mt, isMap := as[0].Typ.Underlying().(*types.Map); isMap {
					return zeroTerm(mt.Elem())
				}
				return t
			}
			return v
		}
	case "call":
		ok := len(as) > 0
		for _, a := range as {
			ok = ok && a.isConst()
		}
		if ok && t.Typ != nil {
			if v, ok := c.fold(mk(t.Op, t.Sym, t.Typ, t.Obj, as...), nil); ok {
				return mkConst(v, t.Typ)
			}
		}
	case "conv":
		if as[0].isConst() && t.Typ != nil {
			return convTerm(as[0], as[0].Typ, t.Typ)
		}
	}
	return mk(t.Op, t.Sym, t.Typ, t.Obj, as...)
}

// substFacts re-assumes the conditions of a path with replaced terms; nil
// when they become contradictory.
func (c *Checker) substFacts(f *Facts, m map[*Term]*Term) *Facts {
	return c.mapFacts(f, func(t *Term) *Term { return c.subst(t, m) })
}

// mapFacts re-assumes rewritten conditions; what folds to a constant is
// settled first.
func (c *Checker) mapFacts(f *Facts, g func(t *Term) *Term) *Facts {
	type fact struct {
		t *Term
		v bool
	}
	rest := make([]fact, 0, len(f.bools))
	for b, v := range f.bools {
		t := g(b)
		switch {
		case t.isTrue():
			if !v {
				return nil
			}
		case t.isFalse():
			if v {
				return nil
			}
		default:
			rest = append(rest, fact{t, v})
		}
	}
	n := newFacts()
	for _, x := range rest {
		if n = n.assume(c.p, x.t, x.v); n == nil {
			return nil
		}
	}
	return n
}

func mkMapAddr(m, k *Term) *Term { return mk("&m", "", nil, nil, m, k) }
