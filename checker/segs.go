package main

import (
	"sort"
	"strings"
)

// Contents of a list that a function builds: a set of segments
// "[index] <- value : count", where k runs over 0 … count-1.

type segs struct {
	list []string
	swap []string // "a <-> b : condition"
	why  string   // not resolved
	skip string   // a pass that leaves an element out
}

// domain is the condition under which a loop takes another pass, as the
// number of passes; "" when it is not understood.
func (er *evalRun) domain(bp *Path, id string) (n *Term, cond string) {
	k := mkLoopK(id)
	found := 0
	for b, v := range bp.Facts.bools {
		if b.Op != "<" {
			continue
		}
		d := linAdd(b.Args[1], b.Args[0], -1)
		if !v {
			d = addInt(linAdd(b.Args[0], b.Args[1], -1), 1)
		}
		l := toLinear(d)
		c := l.co[k]
		if c == 0 {
			continue
		}
		if c > 0 {
			continue // a lower bound
		}
		if len(l.co) == 1 { // k against a constant
			continue
		}
		found++
		r := er.specRenderer(bp)
		r.names[k] = "k"
		cond = "0 < " + r.str(d)
		if c == -1 {
			n = linAdd(d, k, 1)
		}
	}
	if found != 1 {
		return nil, ""
	}
	return n, cond
}

// capped: every pass of the loop, whatever it does, needs its number to be
// below a constant.
func (er *evalRun) capped(bs []*Path, id string) string {
	k := mkLoopK(id)
	cap := ""
	for _, q := range bs {
		one, other := "", false
		for b, v := range q.Facts.bools {
			if b.Op != "<" {
				continue
			}
			d := linAdd(b.Args[1], b.Args[0], -1)
			if !v {
				d = addInt(linAdd(b.Args[0], b.Args[1], -1), 1)
			}
			l := toLinear(d)
			switch {
			case l.co[k] == -1 && len(l.co) == 1:
				one = er.specRenderer(q).str(linAdd(d, k, 1))
			case l.co[k] == -1:
				other = true
			}
		}
		if one == "" || !other {
			return ""
		}
		cap = one
	}
	return cap
}

// contents describes the list v at the end of path p; keep selects the
// back-edge paths that belong to the case at hand.
func (er *evalRun) contents(p *Path, v *Term, keep func(*Path) bool) segs {
	s := segs{}
	er.contentsAt(p, v, mkInt(0), keep, &s)
	sort.Strings(s.list)
	return s
}

func (er *evalRun) backs(id string, keep func(*Path) bool) []*Path {
	var r []*Path
	for _, q := range er.paths {
		if q.Outcome == "back" && q.Loop == id && keep(q) {
			r = append(r, q)
		}
	}
	return r
}

func (er *evalRun) contentsAt(p *Path, v, off *Term, keep func(*Path) bool, s *segs) {
	fail := func(w string) {
		if s.why == "" {
			s.why = w
		}
	}
	add := func(q *Path, idx *Term, val, n string) {
		r := er.specRenderer(q)
		for _, id := range []string{"L1", "L2", "L3", "L4"} {
			r.names[mkLoopK(id)] = "k"
		}
		s.list = append(s.list, "["+r.str(linAdd(off, idx, 1))+"] <- "+val+" : "+n)
	}
	elem := func(q *Path, t *Term, id string) string {
		r := er.specRenderer(q)
		r.names[mkLoopK(id)] = "k"
		return r.str(t)
	}
	k := mkLoopK("L1")
	whole := func(q *Path, src, at *Term) {
		r := er.specRenderer(q)
		r.names[k] = "k"
		add(q, linAdd(at, k, 1), elemAt(r, src, k), r.str(mkLen(src)))
	}
	switch v.Op {
	case "const":
		if v.isNil() {
			return
		}
	case "slicelit":
		for i, a := range v.Args[1:] {
			add(p, mkInt(int64(i)), er.specRenderer(p).str(a), "1")
		}
		return
	case "append":
		er.contentsAt(p, v.Args[0], off, keep, s)
		base := mkLen(v.Args[0])
		for i, a := range v.Args[1:] {
			add(p, addInt(base, int64(i)), er.specRenderer(p).str(a), "1")
		}
		return
	case "appendall":
		er.contentsAt(p, v.Args[0], off, keep, s)
		whole(p, v.Args[1], mkLen(v.Args[0]))
		return
	case "loopv", "loopm":
		id, name, _ := strings.Cut(v.Sym, ".")
		var init *Term
		for _, ev := range p.Events {
			if v.Op == "loopv" && ev.Kind == "loop" && ev.Loop == id {
				init = ev.Vals[name]
			}
			if v.Op == "loopm" && ev.Kind == "acc" && ev.Loop == v.Sym && ev.Addr == v.Args[0] {
				init = ev.Val
			}
		}
		bs := er.backs(id, keep)
		if init == nil || len(bs) == 0 {
			fail("the loop is not resolved")
			return
		}
		er.contentsAt(p, init, off, keep, s)
		if n := er.capped(bs, id); n != "" {
			s.skip = "the loop stops after " + n + " elements"
			fail(s.skip)
			return
		}
		one := ""
		var first *Path
		for _, q := range bs {
			st := q.Vals[name]
			if v.Op == "loopm" {
				st = q.St.mem[v.Args[0]]
			}
			if st == v && len(bs) > 1 {
				if er.nilOnly(q) {
					continue
				}
				if er.factsKnown(q) || er.apartBy(q, bs, v) {
					s.skip = "a pass of the loop leaves its element out"
				}
			}
			if st != nil && st.Op == "appendall" && st.Args[0] == v && len(bs) > 1 {
				for _, o := range bs {
					ov := o.Vals[name]
					if v.Op == "loopm" {
						ov = o.St.mem[v.Args[0]]
					}
					if ov != nil && ov.Op == "append" && ov.Args[0] == v && len(ov.Args) == 2 && (er.factsKnown(q) || er.apartKind(q, o)) {
						s.skip = "a pass of the loop adds the contents of its element instead of the element"
					}
				}
			}
			if st == nil || st.Op != "append" || st.Args[0] != v || len(st.Args) != 2 {
				fail("a pass does not append one element")
				return
			}
			n, _ := er.domain(q, id)
			if n == nil {
				fail("the number of passes is not resolved")
				return
			}
			r := er.specRenderer(q)
			x := elem(q, st.Args[1], id) + " : " + r.str(n)
			if one != "" && x != one {
				a, _, _ := strings.Cut(one, " : ")
				b, _, _ := strings.Cut(x, " : ")
				if (strings.HasPrefix(a, b+"[") || strings.HasPrefix(b, a+"[")) && er.someApart(q, first, bs) {
					s.skip = "a pass of the loop adds a part of its element instead of the element"
				}
				fail("the passes differ: " + one + " / " + x)
				return
			}
			if one == "" {
				first = q
				add(q, linAdd(mkLen(init), mkLoopK(id), 1), elem(q, st.Args[1], id), r.str(n))
			}
			one = x
		}
		return
	case "makeslice", "conv", "call":
		n0 := len(s.list)
		for _, ev := range p.Events {
			switch {
			case ev.Kind == "store" && ev.Addr.Op == "&i" && ev.Addr.Args[0] == v:
				add(p, ev.Addr.Args[1], er.specRenderer(p).str(ev.Val), "1")
			case ev.Kind == "call" && ev.Fn == "builtin.copy" && len(ev.Args) == 2:
				d, at := ev.Args[0], mkInt(0)
				if d.Op == "slice" {
					if !d.Args[1].isNil() {
						at = d.Args[1]
					}
					d = d.Args[0]
				}
				if d == v {
					whole(p, ev.Args[1], at)
				}
			case ev.Kind == "loop":
				bs := er.backs(ev.Loop, keep)
				one := ""
				for _, q := range bs {
					// the stores of one pass
					in := false
					type st struct{ i, v *Term }
					var sts []st
					for _, x := range q.Events {
						if x.Kind == "loop" && x.Loop == ev.Loop {
							in = true
						}
						if in && x.Kind == "store" && x.Addr.Op == "&i" && x.Addr.Args[0] == v {
							sts = append(sts, st{x.Addr.Args[1], x.Val})
						}
						if in && x.Kind == "call" && x.Fn == "builtin.copy" && len(x.Args) == 2 && (x.Args[0] == v || x.Args[0].Op == "slice" && x.Args[0].Args[0] == v) {
							fail("copies inside a loop")
						}
					}
					n, cond := er.domain(q, ev.Loop)
					r := er.specRenderer(q)
					r.names[mkLoopK(ev.Loop)] = "k"
					x := ""
					switch {
					case len(sts) == 0:
						x = "none"
					case len(sts) == 2 && er.readsAt(sts[0].v, v, sts[1].i) && er.readsAt(sts[1].v, v, sts[0].i):
						ab := []string{r.str(sts[0].i), r.str(sts[1].i)}
						sort.Strings(ab)
						x = ab[0] + " <-> " + ab[1] + " : " + cond
						if one == "" {
							s.swap = append(s.swap, x)
						}
					case len(sts) == 1 && n != nil:
						x = "[" + r.str(sts[0].i) + "] <- " + r.str(sts[0].v) + " : " + r.str(n)
						if one == "" {
							add(q, sts[0].i, r.str(sts[0].v), r.str(n))
						}
					default:
						fail("the stores of a pass are not understood")
						return
					}
					if one != "" && x != one {
						fail("the passes differ: " + one + " / " + x)
						return
					}
					one = x
				}
			}
		}
		if v.Op != "makeslice" && n0 == len(s.list) {
			// the list is a converted or computed one
			whole(p, v, mkInt(0))
		}
		return
	case "init", "slice", "param":
		whole(p, v, mkInt(0))
		return
	}
	fail("the list " + er.specRenderer(p).str(v) + " is not understood")
}

// readsAt: t is the element of list v at index i.
func (er *evalRun) readsAt(t, v, i *Term) bool {
	for t.Op == "init" || t.Op == "loopm" || t.Op == "load" {
		if len(t.Args) == 0 {
			return false
		}
		a := t.Args[0]
		if a.Op == "&i" {
			return a.Args[0] == v && a.Args[1] == i
		}
		t = a
	}
	return false
}

func elemAt(r *renderer, src, k *Term) string {
	if src.Op == "slice" && !src.Args[1].isNil() {
		return r.str(src.Args[0]) + "[" + r.str(linAdd(src.Args[1], k, 1)) + "]"
	}
	if src.Op == "slice" {
		return r.str(src.Args[0]) + "[k]"
	}
	return r.str(src) + "[k]"
}

// apartBy: what sets the pass apart from those that append an element is a
// plain value that is nil.
func (er *evalRun) apartBy(q *Path, bs []*Path, v *Term) bool {
	for _, o := range bs {
		if o == q || o.St == nil {
			continue
		}
		n, ok := 0, true
		for b, val := range q.Facts.bools {
			if w, has := o.Facts.bools[b]; !has || w == val {
				continue
			}
			n++
			isVal := b.Op == "==" && len(b.Args) == 2 && (b.Args[0].Op == "inv" && b.Args[0].Sym == "Val" && b.Args[1].isNil() || b.Args[1].Op == "inv" && b.Args[1].Sym == "Val" && b.Args[0].isNil())
			ok = ok && isVal && val
		}
		if n > 0 && ok {
			return true
		}
	}
	return false
}

// someApart: the kind of a value sets one of the passes apart from some other.
func (er *evalRun) someApart(q, first *Path, bs []*Path) bool {
	for _, o := range bs {
		if er.apartKind(q, o) || er.apartKind(first, o) {
			return true
		}
	}
	return false
}

// apartKind: two passes differ in the kind of a value that both look at.
func (er *evalRun) apartKind(q, o *Path) bool {
	for t := range q.Facts.kinds {
		a, ok := q.Facts.kind(er.c.p, t).single()
		if _, has := o.Facts.kinds[t]; ok && has && !o.Facts.kind(er.c.p, t).has(a) {
			return true
		}
	}
	return false
}

// nilOnly: the path is taken for nil interface values alone.
func (er *evalRun) nilOnly(q *Path) bool {
	for t := range q.Facts.kinds {
		// what a value stands for outside may be nil
		if t.Op == "inv" && t.Sym == "Val" {
			continue
		}
		if n, ok := q.Facts.kind(er.c.p, t).single(); ok && n == "nil" {
			return true
		}
	}
	return false
}

func (s segs) failed() (verdict, string) {
	if s.skip != "" {
		return vBad, s.skip
	}
	return vUnd, s.why
}
