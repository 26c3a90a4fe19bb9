package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"

	"golang.org/x/tools/go/packages"
)

// intRanges rewrites loops over integers, "for i := range n", as counting
// loops with the same meaning, so that all loops test before their body. It
// returns an overlay with the rewritten files, nil when there is none.
func intRanges(fset *token.FileSet, pkgs []*packages.Package) map[string][]byte {
	type edit struct {
		from, to int
		text     string
	}
	edits := map[string][]edit{}
	n := 0
	for _, k := range pkgs {
		for _, f := range k.Syntax {
			ast.Inspect(f, func(x ast.Node) bool {
				r, ok := x.(*ast.RangeStmt)
				if !ok || r.Value != nil {
					return true
				}
				tv := k.TypesInfo.Types[r.X]
				if tv.Type == nil {
					return true
				}
				b, ok := tv.Type.(*types.Basic)
				if !ok || b.Info()&types.IsInteger == 0 {
					return true
				}
				typ := b.Name()
				if b.Info()&types.IsUntyped != 0 {
					typ = "int"
				}
				n++
				key := fmt.Sprintf("twI%d", n)
				if id, ok := r.Key.(*ast.Ident); ok && id.Name != "_" {
					if r.Tok != token.DEFINE || assigned(k, r.Body, id) {
						return true
					}
					key = id.Name
				} else if r.Key != nil && !ok {
					return true
				}
				file := fset.Position(r.Pos()).Filename
				src, err := os.ReadFile(file)
				if err != nil {
					return true
				}
				x0, x1 := fset.Position(r.X.Pos()).Offset, fset.Position(r.X.End()).Offset
				lim := fmt.Sprintf("twN%d", n)
				edits[file] = append(edits[file], edit{fset.Position(r.For).Offset + 3, x1,
					fmt.Sprintf(" %s, %s := %s(0), %s(%s); %s < %s; %s++", key, lim, typ, typ, src[x0:x1], key, lim, key)})
				return true
			})
		}
	}
	if len(edits) == 0 {
		return nil
	}
	r := map[string][]byte{}
	for file, es := range edits {
		src, err := os.ReadFile(file)
		if err != nil {
			continue
		}
		sort.Slice(es, func(i, j int) bool { return es[i].from < es[j].from })
		var out bytes.Buffer
		at := 0
		for _, e := range es {
			if e.from < at {
				continue // inside another one
			}
			out.Write(src[at:e.from])
			out.WriteString(e.text)
			at = e.to
		}
		out.Write(src[at:])
		r[file] = out.Bytes()
	}
	return r
}

// assigned: the loop's variable is changed, or its address taken, in the body.
func assigned(k *packages.Package, body *ast.BlockStmt, id *ast.Ident) bool {
	obj := k.TypesInfo.Defs[id]
	is := func(e ast.Expr) bool {
		x, ok := ast.Unparen(e).(*ast.Ident)
		return ok && obj != nil && k.TypesInfo.Uses[x] == obj
	}
	r := false
	ast.Inspect(body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				r = r || is(l)
			}
		case *ast.IncDecStmt:
			r = r || is(n.X)
		case *ast.UnaryExpr:
			r = r || n.Op == token.AND && is(n.X)
		case *ast.RangeStmt:
			r = r || n.Key != nil && is(n.Key) || n.Value != nil && is(n.Value)
		}
		return !r
	})
	return r
}
