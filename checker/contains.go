package main

import (
	"fmt"
	"go/token"
	"go/types"
)

// containsRule: a position contains exactly the cursors that are, in reading
// order, neither before its first byte nor after its last one. Every ordering
// of the cursor with the two ends is tried on every path.
func (c *Checker) containsRule(rule string) {
	f := c.p.fn("token", "Position.Contains")
	if f == nil || len(f.Params) != 3 {
		c.und(rule, "cursor containment", "token.Position.Contains not found with a line and a column")
		return
	}
	ps, ok := c.run(f, runOpts{args: rootParams(f)})
	cr := c.newCase(rule, "cursor containment")
	if !ok {
		c.und(rule, "cursor containment", "the paths of Contains could not be enumerated")
		return
	}
	recv := rootParams(f)
	st, isS := f.Params[0].Type().Underlying().(*types.Struct)
	if !isS {
		c.und(rule, "cursor containment", "Contains is not a method on the position itself")
		return
	}
	fields := map[string]*Term{}
	for i := 0; i < st.NumFields(); i++ {
		fields[st.Field(i).Name()] = mk(".f", fieldOwner(f.Params[0].Type(), i), st.Field(i).Type(), nil, recv[0])
	}
	for _, n := range []string{"StartLine", "StartCol", "EndLine", "EndCol"} {
		if fields[n] == nil {
			c.und(rule, "cursor containment", "Position has no field %s", n)
			return
		}
	}
	set := func(m map[*Term]*Term, t *Term, n int) { m[t] = mkConst(constInt(int64(n)), t.Typ) }
	bad := map[string]bool{}
	for code := 0; code < 3*3*5*4*4*4; code++ {
		x := code
		next := func(n int) int { r := x % n; x /= n; return r }
		sl, el := 1+next(3), 1+next(3)
		line, sc, ec, col := next(5), 1+next(4), 1+next(4), next(4)+1
		if sl > el || sl == el && sc > ec {
			continue
		}
		m := map[*Term]*Term{}
		set(m, recv[1], line)
		set(m, recv[2], col)
		set(m, fields["StartLine"], sl)
		set(m, fields["StartCol"], sc)
		set(m, fields["EndLine"], el)
		set(m, fields["EndCol"], ec)
		want := (line > sl || line == sl && col >= sc) && (line < el || line == el && col <= ec)
		for _, p := range ps {
			fs := c.substFacts(p.Facts, m)
			if fs == nil {
				continue
			}
			if p.Outcome != "return" || len(p.Ret) != 1 {
				cr.add(vUnd, lastPos(p), "a path of Contains ends in "+p.Outcome)
				continue
			}
			r := c.subst(p.Ret[0], m)
			d := -1
			if len(fs.bools) == 0 {
				d = fs.decide(c.p, r)
			}
			name := fmt.Sprintf("%d:%d in %d:%d..%d:%d", line, col, sl, sc, el, ec)
			switch {
			case d < 0:
				cr.add(vUnd, lastPos(p), "the answer for "+name+" was not resolved")
			case (d == 1) != want:
				if len(bad) < 3 {
					cr.add(vBad, containsPos(p, f.Pos()), fmt.Sprintf("the cursor %s is answered %v", name, d == 1))
				}
				bad[name] = true
			default:
				cr.add(vOK, containsPos(p, f.Pos()), "")
			}
		}
	}
	cr.done()
}

func containsPos(p *Path, d token.Pos) token.Pos {
	if x := lastPos(p); x.IsValid() {
		return x
	}
	return d
}
