package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is a hash-consed abstract value. Two values with the same canonical
// derivation are the same pointer, which makes term equality a sound "must
// be equal" test.
type Term struct {
	Op   string
	Sym  string
	Args []*Term
	Obj  any        // constant.Value, *ssa.Function, types.Type, ...
	Typ  types.Type // static type, informational except for iface/cast/zero
	ID   int
	key  string
}

var (
	interned = map[string]*Term{}
	termSeq  int
)

func mk(op, sym string, typ types.Type, obj any, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(sym)
	for _, a := range args {
		b.WriteByte('|')
		b.WriteString(strconv.Itoa(a.ID))
	}
	k := b.String()
	if t, ok := interned[k]; ok {
		if t.Typ == nil {
			t.Typ = typ
		}
		if t.Obj == nil {
			t.Obj = obj
		}
		return t
	}
	termSeq++
	t := &Term{Op: op, Sym: sym, Args: args, Obj: obj, Typ: typ, ID: termSeq, key: k}
	interned[k] = t
	return t
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (t *Term) String() string {
	if t == nil {
		return "<nil>"
	}
	return t.str(0)
}

func (t *Term) str(d int) string {
	if d > 12 {
		return "…"
	}
	as := func() string {
		var p []string
		for _, a := range t.Args {
			p = append(p, a.str(d+1))
		}
		return strings.Join(p, ", ")
	}
	switch t.Op {
	case "const":
		return t.Sym
	case "param", "global", "alloc", "func", "loopk", "fv":
		return t.Sym
	case "init":
		if t.Sym != "" {
			return strings.TrimPrefix(t.Args[0].str(d+1), "&") + "@" + t.Sym
		}
		return strings.TrimPrefix(t.Args[0].str(d+1), "&")
	case "&f":
		return "&" + strings.TrimPrefix(t.Args[0].str(d+1), "&") + "." + t.Sym[strings.LastIndex(t.Sym, ".")+1:]
	case "&i":
		return "&" + t.Args[0].str(d+1) + "[" + t.Args[1].str(d+1) + "]"
	case "iface":
		return t.Args[0].str(d + 1)
	case "cast":
		return t.Args[0].str(d+1) + ".(" + t.Sym + ")"
	case "lin":
		cs := strings.Split(t.Sym, ",")
		s := ""
		for i, a := range t.Args {
			c := cs[i+1]
			if c == "1" {
				s += "+" + a.str(d+1)
			} else if c == "-1" {
				s += "-" + a.str(d+1)
			} else {
				s += "+" + c + "*" + a.str(d+1)
			}
		}
		if cs[0] != "0" {
			if !strings.HasPrefix(cs[0], "-") {
				s += "+"
			}
			s += cs[0]
		}
		return "(" + strings.TrimPrefix(s, "+") + ")"
	case "==", "<", "<=", "f<", "f<=", "s<":
		return "(" + t.Args[0].str(d+1) + " " + t.Op + " " + t.Args[1].str(d+1) + ")"
	case "struct":
		return t.Sym + "{" + as() + "}"
	}
	if t.Sym != "" {
		return t.Op + ":" + t.Sym + "(" + as() + ")"
	}
	return t.Op + "(" + as() + ")"
}

// ---------------------------------------------------------------- constants

func mkConst(v constant.Value, typ types.Type) *Term {
	sym := v.ExactString()
	kind := "c"
	switch v.Kind() {
	case constant.Bool:
		kind = "b"
	case constant.String:
		kind = "s"
	case constant.Int:
		kind = "i"
		if isFloat(typ) {
			kind = "f"
		}
	case constant.Float:
		kind = "f"
	}
	return mk("const", kind+":"+sym, typ, v)
}

func mkInt(n int64) *Term     { return mkConst(constant.MakeInt64(n), types.Typ[types.Int]) }
func mkStr(s string) *Term    { return mkConst(constant.MakeString(s), types.Typ[types.String]) }
func mkBool(b bool) *Term     { return mkConst(constant.MakeBool(b), types.Typ[types.Bool]) }
func mkNil() *Term            { return mk("const", "nil", nil, nil) }
func (t *Term) isConst() bool { return t.Op == "const" }
func (t *Term) isNil() bool   { return t.Op == "const" && t.Sym == "nil" }
func (t *Term) isTrue() bool  { return t.Op == "const" && t.Sym == "b:true" }
func (t *Term) isFalse() bool { return t.Op == "const" && t.Sym == "b:false" }

func (t *Term) intVal() (int64, bool) {
	if t.Op == "const" && strings.HasPrefix(t.Sym, "i:") {
		return constant.Int64Val(t.Obj.(constant.Value))
	}
	return 0, false
}

func (t *Term) strVal() (string, bool) {
	if t.Op == "const" && strings.HasPrefix(t.Sym, "s:") {
		return constant.StringVal(t.Obj.(constant.Value)), true
	}
	return "", false
}

func isFloat(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isInteger(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBoolType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isIface(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

// zeroTerm is the zero value of a type.
func zeroTerm(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return mkBool(false)
		case u.Info()&types.IsInteger != 0:
			return mkInt(0)
		case u.Info()&types.IsFloat != 0:
			return mkConst(constant.MakeInt64(0), t)
		case u.Info()&types.IsString != 0:
			return mkStr("")
		}
		return mkNil()
	case *types.Struct:
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, zeroTerm(u.Field(i).Type()))
		}
		return mkStruct(t, fs)
	case *types.Array:
		return mk("zero", shortType(t), t, nil)
	}
	return mkNil()
}

func mkStruct(t types.Type, fs []*Term) *Term {
	return mk("struct", shortType(t), t, nil, fs...)
}

// ---------------------------------------------------------------- integers

type linear struct {
	c  int64
	co map[*Term]int64
}

func toLinear(t *Term) linear {
	if n, ok := t.intVal(); ok {
		return linear{c: n, co: map[*Term]int64{}}
	}
	if t.Op == "lin" {
		cs := strings.Split(t.Sym, ",")
		l := linear{co: map[*Term]int64{}}
		l.c, _ = strconv.ParseInt(cs[0], 10, 64)
		for i, a := range t.Args {
			n, _ := strconv.ParseInt(cs[i+1], 10, 64)
			l.co[a] = n
		}
		return l
	}
	return linear{co: map[*Term]int64{t: 1}}
}

func (l linear) term() *Term {
	var as []*Term
	for a, n := range l.co {
		if n != 0 {
			as = append(as, a)
		}
	}
	if len(as) == 0 {
		return mkInt(l.c)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].ID < as[j].ID })
	if len(as) == 1 && l.c == 0 && l.co[as[0]] == 1 {
		return as[0]
	}
	sym := strconv.FormatInt(l.c, 10)
	for _, a := range as {
		sym += "," + strconv.FormatInt(l.co[a], 10)
	}
	return mk("lin", sym, types.Typ[types.Int], nil, as...)
}

func linAdd(a, b *Term, k int64) *Term {
	x, y := toLinear(a), toLinear(b)
	r := linear{c: x.c + k*y.c, co: map[*Term]int64{}}
	for t, n := range x.co {
		r.co[t] += n
	}
	for t, n := range y.co {
		r.co[t] += k * n
	}
	return r.term()
}

func addInt(t *Term, n int64) *Term { return linAdd(t, mkInt(n), 1) }

// ---------------------------------------------------------------- operators

func mkNot(t *Term) *Term {
	if t.isTrue() {
		return mkBool(false)
	}
	if t.isFalse() {
		return mkBool(true)
	}
	if t.Op == "!" {
		return t.Args[0]
	}
	return mk("!", "", types.Typ[types.Bool], nil, t)
}

func mkEq(a, b *Term) *Term {
	if a == b {
		if isFloat(a.Typ) && !a.isConst() { // NaN
			return mk("==", "", types.Typ[types.Bool], nil, a, b)
		}
		return mkBool(true)
	}
	if a.isConst() && b.isConst() {
		if a.isNil() != b.isNil() {
			return mkBool(false)
		}
		if a.Obj != nil && b.Obj != nil && a.Sym[0] != b.Sym[0] {
			return mkBool(constant.Compare(a.Obj.(constant.Value), token.EQL, b.Obj.(constant.Value)))
		}
		return mkBool(false)
	}
	// booleans
	for i := 0; i < 2; i++ {
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return mkNot(a)
		}
		a, b = b, a
	}
	if (isInteger(a.Typ) || a.Op == "lin") && (isInteger(b.Typ) || b.Op == "lin") {
		// normalise x+c == y+d to x == y+(d-c)
		d := linAdd(a, b, -1)
		if n, ok := d.intVal(); ok {
			return mkBool(n == 0)
		}
		l := toLinear(d)
		if len(l.co) == 1 {
			for t, n := range l.co {
				if n == 1 || n == -1 {
					return eqTerm(t, mkInt(-l.c*n))
				}
			}
		}
	}
	return eqTerm(a, b)
}

func eqTerm(a, b *Term) *Term {
	if a.isConst() || (!b.isConst() && a.ID > b.ID) {
		a, b = b, a
	}
	return mk("==", "", types.Typ[types.Bool], nil, a, b)
}

// mkLess builds a<b on integers.
func mkLess(a, b *Term) *Term {
	d := linAdd(a, b, -1)
	if n, ok := d.intVal(); ok {
		return mkBool(n < 0)
	}
	// normalise to lhs <= const-shifted rhs: keep as "<" with linear forms
	l := toLinear(d)
	pos, neg := linear{co: map[*Term]int64{}}, linear{co: map[*Term]int64{}}
	for t, n := range l.co {
		if n > 0 {
			pos.co[t] = n
		} else {
			neg.co[t] = -n
		}
	}
	// pos + c < neg   <=>  pos < neg - c
	if len(neg.co) == 0 || len(pos.co) > 0 {
		neg.c = -l.c
	} else {
		pos.c = l.c
	}
	return mk("<", "", types.Typ[types.Bool], nil, pos.term(), neg.term())
}

func mkCat(parts ...*Term) *Term {
	var out []*Term
	var add func(t *Term)
	add = func(t *Term) {
		if t.Op == "cat" {
			for _, a := range t.Args {
				add(a)
			}
			return
		}
		if s, ok := t.strVal(); ok {
			if s == "" {
				return
			}
			if len(out) > 0 {
				if p, ok := out[len(out)-1].strVal(); ok {
					out[len(out)-1] = mkStr(p + s)
					return
				}
			}
		}
		out = append(out, t)
	}
	for _, p := range parts {
		add(p)
	}
	if len(out) == 0 {
		return mkStr("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("cat", "", types.Typ[types.String], nil, out...)
}

func mkLen(t *Term) *Term {
	if s, ok := t.strVal(); ok {
		return mkInt(int64(len(s)))
	}
	switch t.Op {
	case "slicelit":
		return mkInt(int64(len(t.Args) - 1))
	case "append":
		return addInt(mkLen(t.Args[0]), int64(len(t.Args)-1))
	case "appendall":
		return linAdd(mkLen(t.Args[0]), mkLen(t.Args[1]), 1)
	case "makeslice":
		return t.Args[1]
	case "slice":
		hi := t.Args[2]
		if hi.isNil() {
			hi = mkLen(t.Args[0])
		}
		lo := t.Args[1]
		if lo.isNil() {
			lo = mkInt(0)
		}
		return linAdd(hi, lo, -1)
	case "const":
		if t.isNil() {
			return mkInt(0)
		}
	case "iface":
		return mkLen(t.Args[0])
	}
	return mk("len", "", types.Typ[types.Int], nil, t)
}

func mkIface(typ types.Type, x *Term) *Term {
	if x.Op == "cast" && x.Sym == shortType(typ) {
		return x.Args[0]
	}
	if x.isNil() {
		return mk("iface", shortType(typ), typ, typ, x)
	}
	return mk("iface", shortType(typ), typ, typ, x)
}

func mkCast(typ types.Type, x *Term) *Term {
	if x.Op == "iface" && x.Sym == shortType(typ) {
		return x.Args[0]
	}
	return mk("cast", shortType(typ), typ, typ, x)
}

func mkInit(addr *Term, epoch string, typ types.Type) *Term {
	return mk("init", epoch, typ, nil, addr)
}

func mkFieldAddr(owner string, base *Term, typ types.Type) *Term {
	return mk("&f", owner, typ, nil, base)
}

func mkFunc(f *ssa.Function) *Term { return mk("func", f.String(), f.Type(), f) }

// walk visits t and all its subterms.
func (t *Term) walk(f func(*Term) bool) {
	seen := map[*Term]bool{}
	var rec func(*Term)
	rec = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if !f(t) {
			return
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(t)
}

func (t *Term) contains(x *Term) bool {
	found := false
	t.walk(func(y *Term) bool {
		if y == x {
			found = true
		}
		return !found
	})
	return found
}

func (t *Term) mentions(pred func(*Term) bool) bool {
	found := false
	t.walk(func(y *Term) bool {
		if pred(y) {
			found = true
		}
		return !found
	})
	return found
}

var _ = fmt.Sprint
