package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C14"] = func(c *Checker) {
		c.rule("map-order", "the iteration order of a map reaches no output, error or stored value: keys that are collected are sorted before use, per-entry results are independent of the order")
		c.rule("sources", "nothing reachable from loading or rendering reads a clock, a random source, an address or another value that differs between runs, except shuffle and rand")
		c.determinism()
	}
}

type orderScan struct {
	c    *Checker
	a    *ptsAnalysis
	todo []ordItem
	done map[string]bool
}

// ordItem: an unordered slice value in a function.
type ordItem struct {
	f *ssa.Function
	v ssa.Value
	w string
}

func (c *Checker) determinism() {
	a := newPts(c.p)
	var roots []*ssa.Function
	for _, n := range []string{"Template.String", "Template.Response", "EvaluateString", "EvaluateFile", "NewTemplate", "Configure"} {
		f := c.p.fn("", n)
		if f == nil {
			c.und("sources", "entry point "+n, "not found")
			continue
		}
		roots = append(roots, f)
		for i, prm := range f.Params {
			if hasPointers(prm.Type()) && !strings.Contains(prm.Type().String(), "http.") {
				a.param(f, i, "the caller's data")
			}
		}
	}
	var ks []string
	for k := range c.p.spkgs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var inits []*ssa.Function
	for _, k := range ks {
		if f := c.p.spkgs[k].Func("init"); f != nil {
			inits = append(inits, f)
		}
	}
	a.solve(append(append([]*ssa.Function{}, roots...), inits...)...)
	s := &orderScan{c: c, a: a, done: map[string]bool{}}
	random := c.randomFuncs()
	seen := c.reachSet(a, roots, random)
	all := c.reachSet(a, roots, nil)
	var fs []*ssa.Function
	for f := range all {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	for _, f := range fs {
		c.sawFn(f)
		s.scan(f)
		if seen[f] {
			s.sources(f)
		}
	}
	for len(s.todo) > 0 {
		it := s.todo[0]
		s.todo = s.todo[1:]
		key := c.p.fullName(it.f) + "/" + it.v.Name()
		if s.done[key] {
			continue
		}
		s.done[key] = true
		s.slice(it)
	}
}

// randomFuncs are the implementations of shuffle and rand.
func (c *Checker) randomFuncs() map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	for n, f := range c.builtinTable() {
		if strings.HasSuffix(n, ".shuffle") || strings.HasSuffix(n, ".rand") {
			r[f] = true
		}
	}
	return r
}

func (c *Checker) reachSet(a *ptsAnalysis, roots []*ssa.Function, cut map[*ssa.Function]bool) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		if f == nil || seen[f] || !a.reach[f] || cut[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				for _, g := range a.targets(ci) {
					rec(g)
				}
				if a.isExternal(ci) {
					for _, arg := range ci.Common().Args {
						for o := range a.vals[arg] {
							rec(o.fn)
						}
					}
				}
			}
		}
	}
	for _, f := range roots {
		rec(f)
	}
	return seen
}

// nondeterministic external functions.
func nondet(n string) string {
	switch {
	case strings.HasPrefix(n, "math/rand"), strings.HasPrefix(n, "crypto/rand."), strings.HasPrefix(n, "(*math/rand"):
		return "a random source"
	case n == "time.Now", n == "time.Since", n == "time.Until", n == "time.After":
		return "the clock"
	case n == "os.Getpid", n == "os.Hostname", n == "os.Getppid", n == "os.TempDir":
		return "the process"
	case strings.HasPrefix(n, "hash/maphash."), strings.HasPrefix(n, "(*hash/maphash."):
		return "a per-process hash"
	case n == "runtime.NumGoroutine", n == "runtime.Caller", n == "runtime.ReadMemStats":
		return "the runtime"
	case n == "(reflect.Value).Pointer", n == "(reflect.Value).UnsafePointer", n == "(reflect.Value).UnsafeAddr":
		return "an address"
	case n == "(*os.File).Readdir", n == "(*os.File).Readdirnames", n == "(*os.File).ReadDir":
		return "the order of the directory"
	}
	return ""
}

func (s *orderScan) sources(f *ssa.Function) {
	c := s.c
	name := c.p.fullName(f)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Select:
				if len(x.States) > 1 {
					c.bad("sources", name, x.Pos(), "a select chooses between several channels")
				}
			case *ssa.Go:
				c.und("sources", name, "a goroutine is started")
			case ssa.CallInstruction:
				g := x.Common().StaticCallee()
				if g == nil {
					continue
				}
				n := extName(g)
				if strings.HasPrefix(n, "fmt.") || c.p.inRepo(g) {
					if why := printsAddress(x.Common().Args); why != "" {
						c.bad("sources", name, in.Pos(), "%s", why)
					}
				}
				if c.p.inRepo(g) {
					continue
				}
				if why := nondet(n); why == "an address" {
					if v, ok := in.(ssa.Value); ok && addressShown(v) {
						c.bad("sources", name, in.Pos(), "%s reads %s, which is shown", n, why)
					}
				} else if why != "" {
					c.bad("sources", name, in.Pos(), "%s reads %s", n, why)
				}
			}
		}
	}
	c.ok("sources", name, f.Pos())
}

// printsAddress: a format prints the address of a value: %p, or a verb that
// shows the value of one that has no conversion to an object (functions,
// channels and pointers print as addresses).
func printsAddress(args []ssa.Value) string {
	for i, arg := range args {
		k, ok := arg.(*ssa.Const)
		if !ok || k.Value == nil || k.Value.Kind() != constant.String {
			continue
		}
		verbs := formatVerbs(constant.StringVal(k.Value))
		if slices.Contains(verbs, 'p') {
			return "an address is printed"
		}
		if len(verbs) == 0 || i+1 >= len(args) {
			continue
		}
		for n, v := range variadic(args[len(args)-1]) {
			if n < len(verbs) && strings.ContainsRune("vds", verbs[n]) && unconverted(v) {
				return "a value that has no conversion is printed, which shows the address of a function or a channel"
			}
		}
	}
	return ""
}

// formatVerbs lists the verbs of a format in their order.
func formatVerbs(f string) []rune {
	var out []rune
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		for i < len(f) && strings.ContainsRune("+-# 0123456789.", rune(f[i])) {
			i++
		}
		if i < len(f) && f[i] != '%' {
			out = append(out, rune(f[i]))
		}
	}
	return out
}

// variadic lists the values stored in the slice built for a variadic call.
func variadic(v ssa.Value) map[int]ssa.Value {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	out := map[int]ssa.Value{}
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil
		}
		for _, u := range *ia.Referrers() {
			if st, ok := u.(*ssa.Store); ok && st.Addr == ia {
				out[int(k.Int64())] = st.Val
			}
		}
	}
	return out
}

// unconverted: the value, of any type, was given to the conversion, whose
// result is nil where the value is used.
func unconverted(v ssa.Value) bool {
	if v.Referrers() == nil || !types.IsInterface(v.Type()) {
		return false
	}
	for _, r := range *v.Referrers() {
		call, ok := r.(*ssa.Call)
		if !ok || call.Common().StaticCallee() == nil || call.Common().StaticCallee().Name() != "NativeToObject" {
			continue
		}
		for _, u := range *v.Referrers() {
			if st, ok := u.(*ssa.Store); ok && st.Val == v && nilOn(call, st.Block()) {
				return true
			}
		}
	}
	return false
}

// nilOn: the block is reached only when the result of the call is nil.
func nilOn(call *ssa.Call, b *ssa.BasicBlock) bool {
	for _, r := range *call.Referrers() {
		cmp, ok := r.(*ssa.BinOp)
		if !ok || cmp.Op != token.EQL && cmp.Op != token.NEQ {
			continue
		}
		for _, u := range *cmp.Referrers() {
			iff, ok := u.(*ssa.If)
			if !ok {
				continue
			}
			succ := iff.Block().Succs[0]
			if cmp.Op == token.NEQ {
				succ = iff.Block().Succs[1]
			}
			if len(succ.Preds) == 1 && succ.Dominates(b) {
				return true
			}
		}
	}
	return false
}

// addressShown: the address is printed, converted or ordered.
func addressShown(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.MakeInterface, *ssa.Call, *ssa.Return:
			return true
		case *ssa.Convert:
			if addressShown(x) {
				return true
			}
		case *ssa.BinOp:
			if x.Op != token.EQL && x.Op != token.NEQ {
				return true
			}
		}
	}
	return false
}

// scan finds the unordered iterations of a function.
func (s *orderScan) scan(f *ssa.Function) {
	c := s.c
	li := c.p.loopsOf(f)
	n := 0
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Next:
				if x.IsString {
					continue
				}
				n++
				l := li.byHeader[x.Block()]
				name := c.p.fullName(f) + ": range over a map" + nth(n)
				if l == nil {
					c.und("map-order", name, "the loop is not understood")
					continue
				}
				seeds := map[ssa.Value]bool{}
				var key ssa.Value
				for _, r := range *x.Referrers() {
					if e, ok := r.(*ssa.Extract); ok && e.Index > 0 {
						seeds[e] = true
						if e.Index == 1 {
							key = e
						}
					}
				}
				s.loop(f, l, seeds, key, name, x.Pos())
			case *ssa.Call:
				g := x.Call.StaticCallee()
				if g == nil {
					continue
				}
				switch en, _, _ := strings.Cut(extName(g), "["); en {
				case "(reflect.Value).MapKeys":
					s.todo = append(s.todo, ordItem{f, x, "MapKeys"})
				case "maps.Keys", "maps.Values", "maps.All":
					for _, r := range *x.Referrers() {
						if rc, ok := r.(*ssa.Call); ok {
							if h := rc.Call.StaticCallee(); h != nil {
								hn, _, _ := strings.Cut(extName(h), "[")
								switch hn {
								case "slices.Sorted", "slices.SortedFunc", "maps.Collect":
									c.ok("map-order", c.p.fullName(f)+": "+en, x.Pos())
									continue
								case "slices.Collect", "slices.AppendSeq":
									s.todo = append(s.todo, ordItem{f, rc, en})
									continue
								}
							}
						}
						c.und("map-order", c.p.fullName(f)+": "+en, "the iteration is not followed")
					}
				case "(reflect.Value).MapRange":
					s.mapRange(f, x)
				}
			}
		}
	}
}

// mapRange: an iterator over a map by reflection.
func (s *orderScan) mapRange(f *ssa.Function, it *ssa.Call) {
	c := s.c
	li := c.p.loopsOf(f)
	name := c.p.fullName(f) + ": MapRange"
	var l *loop
	seeds := map[ssa.Value]bool{}
	var key ssa.Value
	for _, r := range *it.Referrers() {
		rc, ok := r.(*ssa.Call)
		if !ok || rc.Call.StaticCallee() == nil {
			continue
		}
		switch rc.Call.StaticCallee().Name() {
		case "Next":
			l = li.byHeader[rc.Block()]
		case "Key":
			seeds[rc], key = true, rc
		case "Value":
			seeds[rc] = true
		}
	}
	if l == nil {
		c.und("map-order", name, "the loop is not understood")
		return
	}
	s.loop(f, l, seeds, key, name, it.Pos())
}

func nth(n int) string {
	if n == 1 {
		return ""
	}
	return " (" + string(rune('0'+n)) + ")"
}

// keyOf: the value is the key itself, or the string inside it.
func keyOf(v, key ssa.Value) bool {
	for i := 0; i < 8; i++ {
		if v == key {
			return true
		}
		switch x := v.(type) {
		case *ssa.Call:
			g := x.Call.StaticCallee()
			if g != nil && (extName(g) == "(reflect.Value).String" || extName(g) == "(reflect.Value).Interface") && len(x.Call.Args) == 1 {
				v = x.Call.Args[0]
				continue
			}
		case *ssa.TypeAssert:
			v = x.X
			continue
		case *ssa.Extract:
			if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
				v = ta.X
				continue
			}
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.UnOp:
			if x.Op == token.MUL {
				v = x.X
				continue
			}
		}
		return false
	}
	return false
}

// loop checks one unordered loop.
func (s *orderScan) loop(f *ssa.Function, l *loop, seeds map[ssa.Value]bool, key ssa.Value, name string, pos token.Pos) {
	c := s.c
	taint := map[ssa.Value]bool{}
	for v := range seeds {
		taint[v] = true
	}
	blocks := f.Blocks
	inLoopAlloc := func(v ssa.Value) bool {
		a, ok := v.(*ssa.Alloc)
		return ok && l.body[a.Block()]
	}
	header := map[*ssa.Phi]bool{}
	for _, in := range l.header.Instrs {
		if ph, ok := in.(*ssa.Phi); ok {
			header[ph] = true
		}
	}
	for ch := true; ch; {
		ch = false
		for _, b := range blocks {
			if !l.body[b] {
				continue
			}
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && taint[st.Val] {
					_, base := rootClass(st.Addr)
					if inLoopAlloc(base) && !taint[base] {
						taint[base] = true
						ch = true
					}
				}
				v, ok := in.(ssa.Value)
				if !ok || taint[v] {
					continue
				}
				if ph, ok := v.(*ssa.Phi); ok && header[ph] {
					continue
				}
				var ops []*ssa.Value
				for _, o := range in.Operands(ops) {
					if *o != nil && taint[*o] {
						taint[v] = true
						ch = true
						break
					}
				}
			}
		}
	}
	bad := func(p token.Pos, format string, a ...any) {
		if p == token.NoPos {
			p = pos
		}
		c.bad("map-order", name, p, format, a...)
	}
	unordered := map[ssa.Value]bool{}
	for _, b := range blocks {
		if !l.body[b] {
			continue
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				_, base := rootClass(x.Addr)
				if inLoopAlloc(base) {
					continue
				}
				switch ad := x.Addr.(type) {
				case *ssa.IndexAddr:
					if taint[x.Val] {
						unordered[ad.X] = true
					}
					continue
				}
				if !taint[x.Val] || taint[base] {
					continue // a store into the visited entry itself
				}
				if ap, ok := x.Val.(*ssa.Call); ok && isBuiltin(ap, "append") {
					unordered[x.Addr] = true
					continue
				}
				if commutative(x.Val, nil) {
					continue
				}
				bad(x.Pos(), "the value of the last entry visited is kept")
			case *ssa.MapUpdate:
				if inLoopAlloc(x.Map) || !taint[x.Value] && !taint[x.Key] {
					continue
				}
				switch {
				case keyOf(x.Key, key):
				case !taint[x.Key]:
					bad(x.Pos(), "the value of the last entry visited is kept")
				default:
					c.und("map-order", name, "the key of the map entry is computed from the visited key")
				}
			case *ssa.Call:
				s.loopCall(x, taint, inLoopAlloc, bad, unordered)
			}
			// uses outside the loop
			v, ok := in.(ssa.Value)
			if !ok || !taint[v] || v.Referrers() == nil {
				continue
			}
			if ap, ok := v.(*ssa.Call); ok && isBuiltin(ap, "append") {
				unordered[v] = true
				continue
			}
			for _, r := range *v.Referrers() {
				if _, dbg := r.(*ssa.DebugRef); dbg || l.body[r.Block()] {
					continue
				}
				if isConstResult(v) {
					continue
				}
				bad(usePos(r, v), "a value of the entry visited first or last is used after the loop")
			}
		}
	}
	for ph := range header {
		back := false
		for i, e := range ph.Edges {
			if l.body[ph.Block().Preds[i]] && taint[e] {
				back = true
				switch {
				case isAppend(e):
					unordered[ph] = true
				case commutative(e, ph), extremum(e, ph, l):
				default:
					if usedOutside(ph, l) {
						bad(ph.Pos(), "the loop accumulates a value that depends on the order of the entries")
					}
				}
			}
		}
		_ = back
	}
	var us []ssa.Value
	for v := range unordered {
		us = append(us, v)
	}
	sort.Slice(us, func(i, j int) bool { return us[i].Name() < us[j].Name() })
	if len(us) > 0 {
		s.todo = append(s.todo, ordItem{f, us[0], name})
	}
	c.ok("map-order", name, pos)
}

func isBuiltin(x *ssa.Call, n string) bool {
	b, ok := x.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == n
}

func isAppend(v ssa.Value) bool { return isAppendSeen(v, map[ssa.Value]bool{}) }

func isAppendSeen(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Call:
		return isBuiltin(x, "append")
	case *ssa.Phi:
		for _, e := range x.Edges {
			if isAppendSeen(e, seen) {
				return true
			}
		}
	}
	return false
}

func isConstResult(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const:
		return true
	}
	return false
}

func usePos(r ssa.Instruction, v ssa.Value) token.Pos {
	if r.Pos().IsValid() {
		return r.Pos()
	}
	return v.Pos()
}

// extremum: the larger or smaller of the accumulator and a value of the entry.
func extremum(e ssa.Value, acc *ssa.Phi, l *loop) bool {
	if c, ok := e.(*ssa.Call); ok && (isBuiltin(c, "max") || isBuiltin(c, "min")) {
		return c.Call.Args[0] == acc || c.Call.Args[1] == acc
	}
	x := e
	if ph, ok := e.(*ssa.Phi); ok {
		x = nil
		for _, o := range ph.Edges {
			if o == acc {
				continue
			}
			if x != nil && x != o {
				return false
			}
			x = o
		}
	}
	if x == nil {
		return false
	}
	same := func(a, b ssa.Value) bool {
		if a == b {
			return true
		}
		p, ok1 := a.(*ssa.Call)
		q, ok2 := b.(*ssa.Call)
		return ok1 && ok2 && isBuiltin(p, "len") && isBuiltin(q, "len") && p.Call.Args[0] == q.Call.Args[0]
	}
	for b := range l.body {
		for _, in := range b.Instrs {
			if i, ok := in.(*ssa.If); ok {
				if c, ok := i.Cond.(*ssa.BinOp); ok {
					switch c.Op {
					case token.LSS, token.GTR, token.LEQ, token.GEQ:
						if same(c.X, x) && c.Y == acc || same(c.Y, x) && c.X == acc {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func usedOutside(v ssa.Value, l *loop) bool {
	for _, r := range *v.Referrers() {
		if _, dbg := r.(*ssa.DebugRef); !dbg && !l.body[r.Block()] {
			return true
		}
	}
	return false
}

// commutative: acc + x on integers, or || / && of booleans.
func commutative(v ssa.Value, acc ssa.Value) bool {
	return commutativeSeen(v, acc, map[ssa.Value]bool{})
}

func commutativeSeen(v ssa.Value, acc ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.BinOp:
		if b, ok := x.Type().Underlying().(*types.Basic); ok {
			switch x.Op {
			case token.ADD, token.MUL, token.AND, token.OR, token.XOR:
				return b.Info()&types.IsInteger != 0
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != acc && !isConstResult(e) && !commutativeSeen(e, acc, seen) {
				return false
			}
		}
		return true
	case *ssa.Const:
		return true
	}
	return v == acc && v != nil
}

func (s *orderScan) loopCall(x *ssa.Call, taint map[ssa.Value]bool, inLoopAlloc func(ssa.Value) bool, bad func(token.Pos, string, ...any), unordered map[ssa.Value]bool) {
	any := false
	for _, a := range x.Call.Args {
		any = any || taint[a]
	}
	if !any {
		return
	}
	if r := bufferWriteRecv(&x.Call); r != nil && !inLoopAlloc(r) {
		bad(x.Pos(), "the entries are written in the order of the map")
		return
	}
	if x.Call.IsInvoke() {
		switch x.Call.Method.Name() {
		case "Write", "WriteString", "WriteByte", "WriteRune":
			bad(x.Pos(), "the entries are written in the order of the map")
		}
		return
	}
	g := x.Call.StaticCallee()
	if g == nil || !s.c.p.inRepo(g) {
		return
	}
	if s.c.p.mods[g]["buf"] {
		for _, a := range x.Call.Args {
			switch strings.TrimPrefix(a.Type().String(), "*") {
			case "bytes.Buffer", "strings.Builder", "io.Writer":
				if !inLoopAlloc(a) {
					bad(x.Pos(), "%s writes the entries in the order of the map", g.Name())
				}
			}
		}
	}
}

var sortFns = map[string]bool{"sort.Strings": true, "sort.Ints": true, "sort.Float64s": true, "sort.Slice": true, "sort.SliceStable": true, "sort.Sort": true, "sort.Stable": true,
	"slices.Sort": true, "slices.SortFunc": true, "slices.SortStableFunc": true}

// slice checks an unordered slice: sorted before any use that shows its order.
func (s *orderScan) slice(it ordItem) {
	c := s.c
	name := it.w
	if !strings.Contains(name, ":") {
		name = c.p.fullName(it.f) + ": " + name
	}
	// aliases
	al := map[ssa.Value]bool{it.v: true}
	for ch := true; ch; {
		ch = false
		add := func(v ssa.Value) {
			if !al[v] {
				al[v] = true
				ch = true
			}
		}
		for _, b := range it.f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Phi:
					for _, e := range x.Edges {
						if al[e] {
							add(x)
						}
					}
					if al[x] {
						for _, e := range x.Edges {
							if isAppend(e) {
								add(e)
							}
						}
					}
				case *ssa.Call:
					if isBuiltin(x, "append") && al[x.Call.Args[0]] {
						add(x)
					}
				case *ssa.Slice:
					if al[x.X] {
						add(x)
					}
				case *ssa.ChangeType:
					if al[x.X] {
						add(x)
					}
				case *ssa.MakeInterface:
					if al[x.X] {
						add(x)
					}
				case *ssa.Store:
					if _, ok := x.Addr.(*ssa.Alloc); ok && al[x.Val] {
						add(x.Addr)
					}
				case *ssa.UnOp:
					if x.Op == token.MUL && al[x.X] {
						if _, ok := x.X.(*ssa.Alloc); ok {
							add(x)
						}
					}
				}
			}
		}
	}
	// the sort calls
	var sorts []ssa.Instruction
	for _, b := range it.f.Blocks {
		for _, in := range b.Instrs {
			x, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			g := x.Call.StaticCallee()
			if g == nil {
				continue
			}
			n, _, _ := strings.Cut(extName(g), "[")
			if sortFns[n] && len(x.Call.Args) > 0 && al[x.Call.Args[0]] {
				switch s.comparator(x, n) {
				case vBad:
					c.bad("map-order", name, x.Pos(), "the collected entries are sorted by a derived value only, so equal ones keep the order of the map")
				case vUnd:
					c.und("map-order", name, "the order of %s is not resolved", n)
				}
				sorts = append(sorts, x)
			}
			// a helper that sorts its argument
			if c.p.inRepo(g) {
				for i, a := range x.Call.Args {
					if al[a] && i < len(g.Params) && s.sortsParam(g, i) {
						sorts = append(sorts, x)
					}
				}
			}
		}
	}
	sorted := func(in ssa.Instruction) bool {
		for _, so := range sorts {
			if so.Block() == in.Block() {
				for _, q := range so.Block().Instrs {
					if q == so {
						return true
					}
					if q == in {
						break
					}
				}
				continue
			}
			if so.Block().Dominates(in.Block()) {
				return true
			}
		}
		return false
	}
	for v := range al {
		rs := v.Referrers()
		if rs == nil {
			continue
		}
		for _, r := range *rs {
			if sorted(r) || contains(sorts, r) {
				continue
			}
			switch x := r.(type) {
			case *ssa.Return:
				s.returned(it, x, v, name)
			case *ssa.Call:
				g := x.Call.StaticCallee()
				if b, ok := x.Call.Value.(*ssa.Builtin); ok {
					if b.Name() == "append" && len(x.Call.Args) > 1 && x.Call.Args[1] == v {
						s.todo = append(s.todo, ordItem{it.f, x, it.w})
					}
					continue
				}
				if g != nil && c.p.inRepo(g) {
					for i, a := range x.Call.Args {
						if a == v && i < len(g.Params) {
							s.todo = append(s.todo, ordItem{g, g.Params[i], it.w + " (argument of " + g.Name() + ")"})
						}
					}
					continue
				}
				if g != nil {
					n, _, _ := strings.Cut(extName(g), "[")
					switch n {
					case "slices.Contains", "slices.Max", "slices.Min", "slices.ContainsFunc":
						continue
					case "slices.Clone":
						s.todo = append(s.todo, ordItem{it.f, x, it.w})
						continue
					case "slices.Sorted":
						continue
					}
					c.bad("map-order", name, x.Pos(), "the collected entries are passed to %s in the order of the map", n)
				}
			case *ssa.IndexAddr:
				if x.X != v || onlyStored(x) {
					continue
				}
				l := innermost(c.p.loopsOf(it.f), x.Block())
				if l == nil {
					c.bad("map-order", name, x.Pos(), "an element is taken from the entries in the order of the map")
					continue
				}
				seeds := map[ssa.Value]bool{}
				var key ssa.Value
				for _, q := range *x.Referrers() {
					if u, ok := q.(*ssa.UnOp); ok && u.Op == token.MUL {
						seeds[u] = true
						key = u
					}
				}
				s.loop(it.f, l, seeds, key, name, x.Pos())
			case *ssa.Store:
				if _, ok := x.Addr.(*ssa.Alloc); ok {
					continue
				}
				if _, ok := x.Addr.(*ssa.IndexAddr); ok && x.Val != v {
					continue
				}
				if x.Val == v {
					c.bad("map-order", name, x.Pos(), "the collected entries are stored in the order of the map")
				}
			}
		}
	}
	c.ok("map-order", name, it.v.Pos())
}

func contains(s []ssa.Instruction, x ssa.Instruction) bool {
	for _, y := range s {
		if x == y {
			return true
		}
	}
	return false
}

func onlyStored(x *ssa.IndexAddr) bool {
	for _, r := range *x.Referrers() {
		if st, ok := r.(*ssa.Store); !ok || st.Addr != x {
			return false
		}
	}
	return true
}

func innermost(li *loopInfo, b *ssa.BasicBlock) *loop {
	var r *loop
	for _, l := range li.byHeader {
		if l.body[b] && (r == nil || len(l.body) < len(r.body)) {
			r = l
		}
	}
	return r
}

// returned: callers see an unordered slice.
func (s *orderScan) returned(it ordItem, x *ssa.Return, v ssa.Value, name string) {
	idx := -1
	for i, r := range x.Results {
		if r == v {
			idx = i
		}
	}
	found := false
	for f := range s.a.reach {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				hit := false
				for _, g := range s.a.targets(call) {
					hit = hit || g == it.f
				}
				if !hit {
					continue
				}
				found = true
				if len(x.Results) == 1 {
					s.todo = append(s.todo, ordItem{f, call, it.w + " (result used in " + f.Name() + ")"})
					continue
				}
				for _, r := range *call.Referrers() {
					if e, ok := r.(*ssa.Extract); ok && e.Index == idx {
						s.todo = append(s.todo, ordItem{f, e, it.w + " (result used in " + f.Name() + ")"})
					}
				}
			}
		}
	}
	if !found {
		s.c.und("map-order", name, "the collected entries are returned to an unknown caller")
	}
}

func (s *orderScan) sortsParam(g *ssa.Function, i int) bool {
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if x, ok := in.(*ssa.Call); ok {
				if h := x.Call.StaticCallee(); h != nil {
					n, _, _ := strings.Cut(extName(h), "[")
					if sortFns[n] && x.Call.Args[0] == g.Params[i] {
						return true
					}
				}
			}
		}
	}
	return false
}

// comparator: the order of a sort is total on the elements.
func (s *orderScan) comparator(x *ssa.Call, n string) verdict {
	switch n {
	case "sort.Strings", "sort.Ints", "sort.Float64s", "slices.Sort":
		return vOK
	case "sort.Sort", "sort.Stable":
		return vUnd
	}
	if len(x.Call.Args) < 2 {
		return vUnd
	}
	var f *ssa.Function
	switch y := x.Call.Args[1].(type) {
	case *ssa.MakeClosure:
		f = y.Fn.(*ssa.Function)
	case *ssa.Function:
		f = y
	}
	if f == nil || len(f.Blocks) != 1 {
		if f != nil && (extName(f) == "strings.Compare" || strings.HasPrefix(extName(f), "cmp.Compare")) {
			return vOK
		}
		return vUnd
	}
	ret, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return)
	if !ok {
		return vUnd
	}
	elem := func(v ssa.Value) bool {
		switch y := v.(type) {
		case *ssa.Parameter:
			return true
		case *ssa.UnOp:
			if y.Op == token.MUL {
				if ia, ok := y.X.(*ssa.IndexAddr); ok {
					_, isP := ia.Index.(*ssa.Parameter)
					return isP
				}
			}
		}
		return false
	}
	var derived func(v ssa.Value) bool
	derived = func(v ssa.Value) bool {
		switch y := v.(type) {
		case *ssa.Call:
			return true
		case *ssa.UnOp:
			_, isF := y.X.(*ssa.FieldAddr)
			return isF
		}
		return false
	}
	switch y := ret.Results[0].(type) {
	case *ssa.BinOp:
		if (y.Op == token.LSS || y.Op == token.GTR || y.Op == token.LEQ || y.Op == token.GEQ) && elem(y.X) && elem(y.Y) {
			return vOK
		}
		if derived(y.X) || derived(y.Y) {
			return vBad
		}
	case *ssa.Call:
		if g := y.Call.StaticCallee(); g != nil {
			n := extName(g)
			if n == "strings.Compare" || strings.HasPrefix(n, "cmp.Compare") {
				if elem(y.Call.Args[0]) && elem(y.Call.Args[1]) {
					return vOK
				}
				return vBad
			}
		}
	}
	return vUnd
}

// builtinTable maps "KIND.name" to the implementation of each built-in.
func (c *Checker) builtinTable() map[string]*ssa.Function {
	r := map[string]*ssa.Function{}
	p := c.p
	inner := map[*Term]string{} // inner map -> receiver type constant
	for a, v := range p.gmem.mem {
		if a.Op != "&m" {
			continue
		}
		if s, ok := a.Args[1].strVal(); ok && v != nil && v.Typ != nil {
			if _, isMap := v.Typ.Underlying().(*types.Map); isMap {
				inner[v] = s
			}
		}
	}
	for a, v := range p.gmem.mem {
		if a.Op != "&m" || inner[a.Args[0]] == "" || v == nil {
			continue
		}
		n, ok := a.Args[1].strVal()
		if !ok {
			continue
		}
		for b, fv := range p.gmem.mem {
			if b.Op == "&f" && b.Args[0] == v && fv.Op == "func" {
				if fn, ok := fv.Obj.(*ssa.Function); ok {
					r[inner[a.Args[0]]+"."+n] = fn
				}
			}
		}
	}
	return r
}
