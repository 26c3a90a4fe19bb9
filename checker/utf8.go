package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// cut classifies where a byte position in a string comes from.
type cut int

const (
	cutBoundary cut = iota // a character boundary
	cutUnknown
	cutCount // a number of characters or a number of the template
)

// builtinUTF8 looks at every place where the functions reachable from the
// built-ins cut a string or take one of its bytes.
func (c *Checker) builtinUTF8(tab map[string]*ssa.Function) {
	var names []string
	for n := range tab {
		names = append(names, n)
	}
	sort.Strings(names)
	seen := map[*ssa.Function]bool{}
	var order []*ssa.Function
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 || !c.p.inRepo(f) {
			return
		}
		seen[f] = true
		order = append(order, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil {
						visit(g)
					}
				}
			}
		}
		for _, g := range f.AnonFuncs {
			visit(g)
		}
	}
	for _, n := range names {
		visit(tab[n])
	}
	for _, f := range order {
		c.sawFn(f)
		n := 0
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Slice:
					if !isString(x.X.Type()) {
						continue
					}
					n++
					name := fmt.Sprintf("%s: cut %d", c.p.fullName(f), n)
					worst, why := cutBoundary, ""
					for _, v := range []ssa.Value{x.Low, x.High} {
						if v == nil {
							continue
						}
						k, w := cutOf(v, x.X, f, map[ssa.Value]bool{})
						if k > worst {
							worst, why = k, w
						}
					}
					switch worst {
					case cutBoundary:
						c.ok("utf8", name, x.Pos())
					case cutCount:
						c.bad("utf8", name, x.Pos(), "a string is cut at %s, which need not be a character boundary", why)
					default:
						c.und("utf8", name, "the position %s is not resolved", why)
					}
				case *ssa.Lookup:
					if !isString(x.X.Type()) {
						continue
					}
					for _, r := range *x.Referrers() {
						cv, ok := r.(*ssa.Convert)
						if !ok || !isString(cv.Type()) {
							continue
						}
						n++
						c.bad("utf8", fmt.Sprintf("%s: cut %d", c.p.fullName(f), n), cv.Pos(), "one byte of a string becomes a character")
					}
				}
			}
		}
		if n == 0 {
			c.ok("utf8", c.p.fullName(f)+": no cut", f.Pos())
		}
	}
}

func cutOf(v, str ssa.Value, f *ssa.Function, seen map[ssa.Value]bool) (cut, string) {
	if seen[v] {
		return cutBoundary, ""
	}
	seen[v] = true
	join := func(vs ...ssa.Value) (cut, string) {
		k, w := cutBoundary, ""
		for _, x := range vs {
			if kk, ww := cutOf(x, str, f, seen); kk > k {
				k, w = kk, ww
			}
		}
		return k, w
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && constant.Sign(x.Value) == 0 {
			return cutBoundary, ""
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(*ssa.Call); ok {
					if g := ci.Call.StaticCallee(); g != nil && (strings.HasPrefix(g.Name(), "Has") || strings.HasPrefix(g.Name(), "Trim")) {
						return cutUnknown, x.String()
					}
				}
				if bo, ok := in.(*ssa.BinOp); ok && (isString(bo.X.Type()) || isByte(bo.X.Type())) {
					return cutUnknown, x.String()
				}
			}
		}
		if u, ok := str.(*ssa.UnOp); ok {
			if fa, ok := u.X.(*ssa.FieldAddr); ok && structName(fa) == "Str" {
				return cutCount, "byte " + x.String()
			}
		}
		return cutUnknown, x.String()
	case *ssa.Phi:
		return join(x.Edges...)
	case *ssa.BinOp:
		return join(x.X, x.Y)
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Next:
			return cutBoundary, ""
		case *ssa.Call:
			if g := t.Call.StaticCallee(); g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == "unicode/utf8" && x.Index == 1 {
				return cutBoundary, ""
			}
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len":
				a := x.Call.Args[0]
				if isString(a.Type()) {
					return cutBoundary, ""
				}
				if s, ok := a.Type().Underlying().(*types.Slice); ok {
					if bb, ok := s.Elem().Underlying().(*types.Basic); ok && bb.Kind() == types.Int32 {
						return cutCount, "a number of characters"
					}
				}
			case "min", "max":
				return join(x.Call.Args...)
			}
			break
		}
		if g := x.Call.StaticCallee(); g != nil && g.Pkg != nil {
			switch g.Pkg.Pkg.Path() {
			case "strings":
				if strings.HasPrefix(g.Name(), "Index") || strings.HasPrefix(g.Name(), "LastIndex") {
					return cutBoundary, ""
				}
			case "unicode/utf8":
				if strings.HasPrefix(g.Name(), "RuneCount") {
					return cutCount, "a number of characters"
				}
				if g.Name() == "RuneLen" {
					return cutBoundary, ""
				}
			}
		}
	case *ssa.Convert:
		return join(x.X)
	case *ssa.ChangeType:
		return join(x.X)
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op.String() == "*" {
			if structName(fa) == "Int" {
				return cutCount, "an integer of the template"
			}
		}
	}
	return cutUnknown, v.Name()
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func structName(fa *ssa.FieldAddr) string {
	if pt, ok := fa.X.Type().Underlying().(*types.Pointer); ok {
		if n, ok := pt.Elem().(*types.Named); ok {
			return n.Obj().Name()
		}
	}
	return ""
}
