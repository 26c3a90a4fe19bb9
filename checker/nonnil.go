package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// nonNilFacts are facts about values that are never nil, established over the
// whole program: functions all of whose results are fresh objects, and the
// cause of an error object.
type nonNilFacts struct {
	fns   map[string]bool // functions whose (single) result is never nil
	field map[string]bool // fields that are never nil
}

func (p *Prog) nonNil() *nonNilFacts {
	if p.nn != nil {
		return p.nn
	}
	nn := &nonNilFacts{map[string]bool{}, map[string]bool{}}
	p.nn = nn
	for again := true; again; {
		again = false
		for _, f := range p.funcs {
			n := p.fullName(f)
			if nn.fns[n] || f.Signature.Results().Len() != 1 || len(f.Blocks) == 0 {
				continue
			}
			switch f.Signature.Results().At(0).Type().Underlying().(type) {
			case *types.Pointer, *types.Interface:
			default:
				continue
			}
			all, some := true, false
			for _, b := range f.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					some = true
					all = all && nn.never(p, r.Results[0], b, 0)
				}
			}
			if all && some && f.Recover == nil {
				nn.fns[n] = true
				again = true
			}
		}
	}
	// the cause of an error object
	const fld = "object.Error.Err"
	ok, some := true, false
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Alloc:
					if pt, k := in.Type().(*types.Pointer); k && shortType(pt.Elem()) == "object.Error" {
						some = true
						set := false
						for _, r := range *in.Referrers() {
							if fa, k := r.(*ssa.FieldAddr); k && fieldOwner(pt.Elem(), fa.Field) == fld {
								for _, r2 := range *fa.Referrers() {
									if s, k := r2.(*ssa.Store); k && s.Addr == fa && s.Block() == in.Block() {
										set = true
									}
								}
							}
						}
						ok = ok && set
					}
				case *ssa.Store:
					if fa, k := in.Addr.(*ssa.FieldAddr); k {
						if pt, k := fa.X.Type().Underlying().(*types.Pointer); k && fieldOwner(pt.Elem(), fa.Field) == fld {
							ok = ok && nn.never(p, in.Val, b, 0)
						}
					}
					if shortType(in.Val.Type()) == "object.Error" {
						ok = false
					}
				}
			}
		}
	}
	nn.field[fld] = ok && some
	return nn
}

// never: the value is not nil where it is used in block b.
func (nn *nonNilFacts) never(p *Prog, v ssa.Value, b *ssa.BasicBlock, d int) bool {
	if d > 4 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.MakeInterface, *ssa.MakeMap, *ssa.MakeClosure, *ssa.Function, *ssa.FieldAddr, *ssa.Global:
		return true
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil {
			if nonNilCall[extName(f)] || nn.fns[p.fullName(f)] {
				return true
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !nn.never(p, e, b, d+1) {
				return false
			}
		}
		return true
	}
	for c := b; c != nil; c = c.Idom() {
		dom := c.Idom()
		if dom == nil {
			break
		}
		i, ok := dom.Instrs[len(dom.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := i.Cond.(*ssa.BinOp)
		if !ok || cmp.X != v && cmp.Y != v {
			continue
		}
		o := cmp.Y
		if cmp.Y == v {
			o = cmp.X
		}
		if k, isK := o.(*ssa.Const); !isK || !k.IsNil() {
			continue
		}
		side := -1
		switch cmp.Op {
		case token.NEQ:
			side = 0
		case token.EQL:
			side = 1
		}
		if side >= 0 && dom.Succs[side] == c && len(c.Preds) == 1 {
			return true
		}
	}
	return false
}
