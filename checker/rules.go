package main

import (
	"fmt"
	"sort"
	"strings"

	"go/types"

	"golang.org/x/tools/go/ssa"
)

type runOpts struct {
	opaque []string
	pure   []string
	devirt []string
	fork   bool
	deref  bool
	facts  *Facts
	args   []*Term
	onCall func(st *State, ev *Event)
	model  map[string]func(e *Exec, st *State, x ssa.CallInstruction, args []*Term) bool
	hook   map[*ssa.Function]func(e *Exec, st *State, x ssa.CallInstruction, args []*Term) bool
	onRec  bool // treat recursive functions as opaque
	max    int
	frozen func(class string) bool
	opFn   func(*ssa.Function) bool
	mem    map[*Term]*Term
	load   func(st *State, addr *Term) *Term
}

func setOf(l []string) map[string]bool {
	m := map[string]bool{}
	for _, s := range l {
		m[s] = true
	}
	return m
}

// run enumerates the abstract paths of a function; complete is false when a
// limit was hit.
func (c *Checker) run(f *ssa.Function, o runOpts) (paths []*Path, complete bool) {
	if f == nil || len(f.Blocks) == 0 {
		return nil, false
	}
	pol := &Policy{Opaque: setOf(o.opaque), Pure: setOf(o.pure), Devirt: setOf(o.devirt), ForkTables: o.fork, Deref: o.deref,
		OnCall: o.onCall, Model: o.model, Hook: o.hook, NoRecurse: o.onRec, MaxPaths: o.max, OpaqueFn: o.opFn, Load: o.load}
	e := newExec(c.p, pol)
	facts := o.facts
	if facts == nil {
		facts = newFacts()
	}
	args := o.args
	if args == nil {
		args = rootParams(f)
	}
	st := &State{mem: map[*Term]*Term{}, epoch: map[string]int{}, facts: facts, counts: map[string]int{}, escaped: map[*Term]bool{}, frozen: o.frozen}
	for k, v := range o.mem {
		st.mem[k] = v
	}
	paths = e.runState(f, args, st)
	complete = !e.over
	c.sawFn(f)
	c.paths += len(paths)
	for _, p := range paths {
		if p.Outcome == "limit" {
			complete = false
		}
		for _, ev := range p.Events {
			if ev.Kind == "enter" {
				c.sawFn(ev.Fun)
			}
		}
	}
	return paths, complete
}

// ------------------------------------------------------------- rendering

// renderer prints a value in a canonical form that does not depend on the
// shape of the code that computed it.
type renderer struct {
	p     *Prog
	path  *Path
	names map[*Term]string
	fn    func(r *renderer, t *Term) (string, bool)
	depth int
	busy  map[*Term]bool
	facts *Facts
}

func (r *renderer) fct() *Facts {
	if r.facts != nil {
		return r.facts
	}
	return r.path.Facts
}

func baseName(s string) string { return s[strings.LastIndex(s, ".")+1:] }

func (r *renderer) str(t *Term) string {
	if t == nil {
		return "?"
	}
	r.depth++
	defer func() { r.depth-- }()
	if r.depth > 60 {
		return "…"
	}
	if n, ok := r.names[t]; ok {
		return n
	}
	if r.fn != nil {
		if s, ok := r.fn(r, t); ok {
			return s
		}
	}
	args := func(ts []*Term) string {
		var p []string
		for _, a := range ts {
			p = append(p, r.str(a))
		}
		return strings.Join(p, ", ")
	}
	if t.Op != "const" {
		if k := r.fct().eqConst(t); k != nil && k.Op == "const" {
			return r.str(k)
		}
	}
	switch t.Op {
	case "==", "<", "!", "s<", "s<=", "f<", "f<=":
		if d := r.fct().decide(r.p, t); d >= 0 {
			return fmt.Sprint(d == 1)
		}
		if t.Op == "==" {
			a, b := r.fct().eqConst(t.Args[0]), r.fct().eqConst(t.Args[1])
			if t.Args[0].isConst() {
				a = t.Args[0]
			}
			if t.Args[1].isConst() {
				b = t.Args[1]
			}
			if a != nil && b != nil && a.isConst() && b.isConst() && !isFloatConst(a) && !isFloatConst(b) {
				return fmt.Sprint(a.Sym == b.Sym)
			}
		}
	}
	switch t.Op {
	case "const":
		if s, ok := t.strVal(); ok {
			return fmt.Sprintf("%q", s)
		}
		if t.isNil() {
			return "nil"
		}
		return t.Sym[2:]
	case "iface":
		return r.str(t.Args[0])
	case "cast":
		return r.str(t.Args[0])
	case "param", "fv":
		return t.Sym
	case "global":
		return t.Sym
	case "func":
		return r.p.fullName(t.Obj.(*ssa.Function))
	case "closure":
		return "closure(" + r.p.fullName(t.Obj.(*ssa.Function)) + ")"
	case "init":
		return strings.TrimPrefix(r.str(t.Args[0]), "&")
	case "&f":
		return "&" + strings.TrimPrefix(r.str(t.Args[0]), "&") + "." + baseName(t.Sym)
	case "&i":
		return "&" + r.str(t.Args[0]) + "[" + r.str(t.Args[1]) + "]"
	case ".f":
		return r.str(t.Args[0]) + "." + baseName(t.Sym)
	case "alloc":
		return r.object(t)
	case "mapalloc":
		return r.mapv(t)
	case "slicelit":
		return "[" + args(t.Args[1:]) + "]"
	case "append":
		if t.Args[0].isNil() {
			return "[" + args(t.Args[1:]) + "]"
		}
		return r.str(t.Args[0]) + "++[" + args(t.Args[1:]) + "]"
	case "appendall":
		return r.str(t.Args[0]) + "++" + r.str(t.Args[1])
	case "lin":
		cs := strings.Split(t.Sym, ",")
		var ps []string
		for i, a := range t.Args {
			x := r.str(a)
			switch n := cs[i+1]; n {
			case "1":
				x = "+" + x
			case "-1":
				x = "-" + x
			default:
				if !strings.HasPrefix(n, "-") {
					n = "+" + n
				}
				x = n + "*" + x
			}
			ps = append(ps, x)
		}
		sort.Strings(ps)
		s := strings.Join(ps, "")
		if cs[0] != "0" {
			if !strings.HasPrefix(cs[0], "-") {
				s += "+"
			}
			s += cs[0]
		}
		return "(" + strings.TrimPrefix(s, "+") + ")"
	case "==", "f+", "f*", "i*":
		a, b := r.str(t.Args[0]), r.str(t.Args[1])
		if b < a {
			a, b = b, a
		}
		return "(" + a + " " + strings.TrimPrefix(strings.TrimPrefix(t.Op, "f"), "i") + " " + b + ")"
	case "!":
		return "!" + r.str(t.Args[0])
	case "<", "f<", "f<=", "s<", "s<=", "f-", "f/", "i/", "i%":
		return "(" + r.str(t.Args[0]) + " " + strings.TrimLeft(t.Op, "fis") + " " + r.str(t.Args[1]) + ")"
	case "fneg":
		return "(-" + r.str(t.Args[0]) + ")"
	case "cat":
		var p []string
		for _, a := range t.Args {
			p = append(p, r.str(a))
		}
		return "cat(" + strings.Join(p, " ") + ")"
	case "struct":
		return t.Sym + "{" + args(t.Args) + "}"
	case "ext":
		return r.str(t.Args[0]) + "#" + t.Sym
	case "call", "inv":
		return strings.SplitN(t.Sym, "#", 2)[0] + "(" + args(t.Args) + ")"
	case "conv":
		return t.Sym + "(" + r.str(t.Args[0]) + ")"
	case "fmt":
		return "fmt(" + t.Sym + " " + r.str(t.Args[0]) + ")"
	case "len":
		return "len(" + r.str(t.Args[0]) + ")"
	case "lookup":
		return r.str(t.Args[0]) + "[" + r.str(t.Args[1]) + "]"
	case "slice":
		lo, hi := "", ""
		if !t.Args[1].isNil() {
			if lo = r.str(t.Args[1]); lo == "0" {
				lo = ""
			}
		}
		if !t.Args[2].isNil() && t.Args[2] != mkLen(t.Args[0]) {
			hi = r.str(t.Args[2])
		}
		if lo == "" && hi == "" && !isString(t.Args[0].Typ) {
			return r.str(t.Args[0])
		}
		return r.str(t.Args[0]) + "[" + lo + ":" + hi + "]"
	}
	s := t.Op
	if t.Sym != "" {
		s += ":" + t.Sym
	}
	return s + "(" + args(t.Args) + ")"
}

func (r *renderer) memOf(a *Term) (*Term, bool) {
	if v, ok := r.path.St.mem[a]; ok {
		return v, true
	}
	if r.p.gmem != nil {
		if v, ok := r.p.gmem.mem[a]; ok {
			return v, true
		}
	}
	return nil, false
}

// object prints a freshly allocated struct with its non-zero fields.
func (r *renderer) object(t *Term) string {
	pt, ok := t.Typ.Underlying().(*types.Pointer)
	if !ok {
		return t.Sym
	}
	et := pt.Elem()
	if r.busy[t] {
		return baseName(shortType(et)) + "{…}"
	}
	if r.busy == nil {
		r.busy = map[*Term]bool{}
	}
	r.busy[t] = true
	defer delete(r.busy, t)
	st, ok := et.Underlying().(*types.Struct)
	if !ok {
		if v, ok := r.memOf(t); ok {
			return "&" + r.str(v)
		}
		return "&" + shortType(et)
	}
	var fs []string
	for i := 0; i < st.NumFields(); i++ {
		v, ok := r.memOf(mkFieldAddr(fieldOwner(et, i), t, nil))
		if !ok || v == zeroTerm(st.Field(i).Type()) {
			continue
		}
		x := r.str(v)
		if x == "false" {
			continue
		}
		fs = append(fs, st.Field(i).Name()+": "+x)
	}
	return baseName(shortType(et)) + "{" + strings.Join(fs, ", ") + "}"
}

func (r *renderer) mapv(t *Term) string {
	var es []string
	seen := map[string]bool{}
	for _, m := range []map[*Term]*Term{r.path.St.mem, r.p.gmem.mem} {
		for a, v := range m {
			if a.Op == "&m" && a.Args[0] == t {
				k := r.str(a.Args[1])
				if !seen[k] {
					seen[k] = true
					es = append(es, k+": "+r.str(v))
				}
			}
		}
	}
	sort.Strings(es)
	return "map{" + strings.Join(es, ", ") + "}"
}

// ------------------------------------------------------------- evaluator

const evalFn = "evaluator.Evaluator.Eval"

type evalRun struct {
	c        *Checker
	kind     string
	node     *Term
	env      *Term
	recv     *Term
	paths    []*Path
	complete bool
	// for specifications of other functions
	voc       map[string]string
	effects   bool
	args      []*Term
	names     map[*Term]string
	quiet     map[string]bool     // calls that leave no token
	norm      func(string) string // rewrites rendered text
	factLists bool                // lists of the conditions count as looped over
	known     map[string][]*Term  // terms by name
}

// evalPaths enumerates Evaluator.Eval for one dynamic node type.
func (c *Checker) evalPaths(kind string, o runOpts) *evalRun {
	f := c.p.fn("evaluator", "Evaluator.Eval")
	if f == nil || len(f.Params) != 3 || c.p.typeByNm[kind] == nil {
		return nil
	}
	args := rootParams(f)
	if o.facts == nil {
		o.facts = newFacts()
	}
	o.facts = o.facts.setKind(args[1], ksOf(kind))
	o.args = args
	if o.pure == nil {
		o.pure = []string{"fail.New"}
	}
	if o.frozen == nil {
		o.frozen = frozenValues
	}
	o.hook = c.dispatchHooks(f)
	ps, ok := c.run(f, o)
	return &evalRun{c: c, kind: kind, node: args[1], env: args[2], recv: args[0], paths: ps, complete: ok}
}

// field is the term of a field of the node being evaluated.
func (er *evalRun) field(name string) *Term {
	t := er.c.p.typeByNm[er.kind]
	st := t.(*types.Pointer).Elem()
	s := st.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			base := mkCast(t, er.node)
			return mkInit(mkFieldAddr(fieldOwner(st, i), base, types.NewPointer(s.Field(i).Type())), "", s.Field(i).Type())
		}
	}
	return nil
}

// renderer for evaluator values: evaluated children print as E(child).
func (er *evalRun) renderer(p *Path) *renderer {
	r := &renderer{p: er.c.p, path: p, names: map[*Term]string{}}
	if er.node != nil {
		r.names = map[*Term]string{er.node: "node", er.recv: "e", er.env: "env"}
	}
	for t, n := range er.names {
		r.names[t] = n
	}
	r.fn = func(r *renderer, t *Term) (string, bool) {
		if t.Op == "call" {
			n := strings.SplitN(t.Sym, "#", 2)[0]
			switch n {
			case evalFn:
				s := "E(" + r.str(t.Args[1])
				if t.Args[2] != er.env {
					s += " @" + r.str(t.Args[2])
				}
				return s + ")", true
			}
		}
		if k, ok := r.fct().kind(er.c.p, t).single(); ok && k == "*object.Error" && t.Op == "iface" {
			return "Error", true
		}
		if t.Op == "alloc" && shortType(t.Typ) == "*object.Error" {
			return "Error", true
		}
		return "", false
	}
	return r
}

// evals lists the recursive evaluations of a path in order.
func (er *evalRun) evals(p *Path) []*Event {
	var r []*Event
	for _, ev := range p.Events {
		if ev.Kind == "call" && ev.Fn == evalFn {
			r = append(r, ev)
		}
	}
	return r
}

// isError reports whether the value is an error object on this path:
// 1 yes, 0 no, -1 unknown.
func (er *evalRun) isError(p *Path, t *Term) int {
	k := p.Facts.kind(er.c.p, t)
	if n, ok := k.single(); ok && n == "*object.Error" {
		return 1
	}
	if !k.has("*object.Error") {
		return 0
	}
	return -1
}

// stripEpoch replaces memory epochs so that a field read before and after a
// call compare equal.
func stripEpoch(t *Term) *Term {
	if t == nil || len(t.Args) == 0 {
		return t
	}
	as := make([]*Term, len(t.Args))
	same := true
	for i, a := range t.Args {
		as[i] = stripEpoch(a)
		if as[i] != a {
			same = false
		}
	}
	sym := t.Sym
	if t.Op == "init" {
		sym = ""
	}
	if same && sym == t.Sym {
		return t
	}
	if t.Op == "==" {
		return eqTerm(as[0], as[1])
	}
	return mk(t.Op, sym, t.Typ, t.Obj, as...)
}

// dispatchHooks makes a direct call of the function that Eval tail-calls for
// a node kind look like the recursive evaluation of that node.
func (c *Checker) dispatchHooks(eval *ssa.Function) map[*ssa.Function]func(e *Exec, st *State, x ssa.CallInstruction, args []*Term) bool {
	r := map[*ssa.Function]func(e *Exec, st *State, x ssa.CallInstruction, args []*Term) bool{}
	for _, b := range eval.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			g := call.Common().StaticCallee()
			if g == nil || g == eval || len(g.Params) != 3 || len(call.Common().Args) != 3 || !types.Identical(g.Signature.Results().At(0).Type(), eval.Signature.Results().At(0).Type()) {
				continue
			}
			as := call.Common().Args
			if as[0] != ssa.Value(eval.Params[0]) || as[2] != ssa.Value(eval.Params[2]) || !returned(call) {
				continue
			}
			pt, ok := g.Params[1].Type().(*types.Pointer)
			if !ok {
				continue
			}
			typ := types.Type(pt)
			r[g] = func(e *Exec, st *State, x ssa.CallInstruction, args []*Term) bool {
				if st.top().fn == eval {
					return false
				}
				e.opaqueCall(st, x, eval, evalFn, []*Term{args[0], mkIface(typ, args[1]), args[2]})
				return true
			}
		}
	}
	return r
}

// returned reports whether the value of a call is only returned.
func returned(v ssa.Value) bool {
	refs := v.Referrers()
	if refs == nil || len(*refs) == 0 {
		return false
	}
	for _, r := range *refs {
		switch r := r.(type) {
		case *ssa.Return:
		case *ssa.DebugRef:
		case *ssa.Phi:
			if !returned(r) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// frozenValues are the memory classes that no code writes once a value is
// built; C16 checks that assumption.
func frozenValues(class string) bool {
	return strings.HasPrefix(class, "ast.") || strings.HasPrefix(class, "object.") && !strings.HasPrefix(class, "object.Env") ||
		strings.HasPrefix(class, "config.") || strings.HasPrefix(class, "ctx.") || strings.HasPrefix(class, "token.") || strings.HasPrefix(class, "elem:") ||
		class == "map:map[string]object.Object" && false
}

func isFloatConst(t *Term) bool { return t.Typ != nil && isFloat(t.Typ) }
