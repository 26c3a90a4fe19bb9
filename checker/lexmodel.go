package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The lexer's cursor. All the fields that describe the current byte are
// functions of its position: the current and the next byte, the line and the
// column of the byte and of the one before it. That every advance keeps this
// is checked separately (cursorRule), and here the fields are replaced by
// these functions, so that the paths of the lexer speak about bytes of the
// input relative to the position where they start.

type lexRun struct {
	c     *Checker
	typ   types.Type
	recv  *Term
	pos   *Term // the position at the start
	input *Term
	adv   *ssa.Function
	why   string // the model does not apply

	flags map[*Path][]*Term

	directives bool // isDirectiveToken is a predicate of the position
}

const lexT = "lexer.Lexer."

func (c *Checker) lexer() *lexRun {
	lx := &lexRun{c: c, typ: c.p.typeByNm["lexer.Lexer"]}
	lx.adv = c.p.fn("lexer", "Lexer.readChar")
	if lx.typ == nil || lx.adv == nil {
		lx.why = "anchor lexer.Lexer or readChar not found"
		return lx
	}
	s, ok := lx.typ.Underlying().(*types.Struct)
	if !ok {
		lx.why = "lexer.Lexer is not a struct"
		return lx
	}
	have := map[string]bool{}
	for i := 0; i < s.NumFields(); i++ {
		have[s.Field(i).Name()] = true
	}
	for _, n := range []string{"input", "pos", "readPos", "char", "line", "col", "prevLine", "prevCol"} {
		if !have[n] {
			lx.why = "lexer.Lexer has no field " + n
			return lx
		}
	}
	lx.recv = mk("param", "l", types.NewPointer(lx.typ), nil)
	lx.pos = mk("param", "pos", types.Typ[types.Int], nil)
	lx.input = mkInit(lx.addr("input"), "", types.Typ[types.String])
	// the cursor moves in one place
	for _, f := range c.p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || f == lx.adv || f == c.p.fn("lexer", "New") {
					continue
				}
				cl, base := rootClass(st.Addr)
				if _, local := base.(*ssa.Alloc); local && cl != "" {
					continue
				}
				if derivedField[strings.TrimPrefix(cl, lexT)] && strings.HasPrefix(cl, lexT) {
					lx.why = c.p.fullName(f) + " moves the cursor by itself"
				}
			}
		}
	}
	return lx
}

var derivedField = map[string]bool{"input": true, "pos": true, "readPos": true, "char": true, "line": true, "col": true, "prevLine": true, "prevCol": true, "shouldResetCol": true}

func (lx *lexRun) addr(field string) *Term {
	return mkFieldAddr(lexT+field, lx.recv, nil)
}

// byteAt is the byte of the input at a position, 0 past the end.
func (lx *lexRun) byteAt(pos *Term) *Term { return sidx(lx.input, pos) }

func (lx *lexRun) lineAt(pos *Term) *Term {
	return mk("line", "", types.Typ[types.Uint], nil, pos)
}

func (lx *lexRun) colAt(pos *Term) *Term {
	return mk("col", "", types.Typ[types.Uint], nil, pos)
}

// derived is the value of a field at a position.
func (lx *lexRun) derived(field string, pos *Term) *Term {
	switch field {
	case "input":
		return lx.input
	case "pos":
		return pos
	case "readPos":
		return addInt(pos, 1)
	case "char":
		return lx.byteAt(pos)
	case "line":
		return lx.lineAt(pos)
	case "col":
		return lx.colAt(pos)
	case "prevLine":
		return lx.lineAt(addInt(pos, -1))
	case "prevCol":
		return lx.colAt(addInt(pos, -1))
	case "shouldResetCol":
		return mkEq(lx.byteAt(pos), mkByte('\n'))
	}
	return nil
}

func mkByte(b byte) *Term { return mkConst(constInt(int64(b)), types.Typ[types.Byte]) }

// opts are the options of a run with the modelled cursor.
func (lx *lexRun) opts() runOpts {
	posCell := lx.addr("pos")
	now := func(st *State) *Term {
		if v, ok := st.mem[posCell]; ok {
			return v
		}
		return lx.pos
	}
	isL := func(t *Term) bool { return t == lx.recv }
	return runOpts{
		args: nil,
		mem:  map[*Term]*Term{posCell: lx.pos},
		load: func(st *State, addr *Term) *Term {
			if addr.Op != "&f" || !isL(addr.Args[0]) || !strings.HasPrefix(addr.Sym, lexT) {
				return nil
			}
			return lx.derived(strings.TrimPrefix(addr.Sym, lexT), now(st))
		},
		model: map[string]func(e *Exec, st *State, x ssa.CallInstruction, args []*Term) bool{
			"lexer.Lexer.readChar": func(e *Exec, st *State, x ssa.CallInstruction, args []*Term) bool {
				if len(args) != 1 || !isL(args[0]) {
					return false
				}
				p := now(st)
				e.event(st, &Event{Kind: "adv", Args: []*Term{p}, Pos: x.Pos(), Fun: st.top().fn})
				st.mem[posCell] = addInt(p, 1)
				return true
			},
			"lexer.Lexer.isDirectiveToken": func(e *Exec, st *State, x ssa.CallInstruction, args []*Term) bool {
				v := x.Value()
				if len(args) != 1 || !isL(args[0]) || !lx.directives || v == nil {
					return false
				}
				p := now(st)
				b := types.Typ[types.Bool]
				st.top().env[v] = mk("tuple", "", v.Type(), nil, mk("dir", "", b, nil, p), mk("escdir", "", b, nil, p))
				return true
			},
		},
		pure:  []string{"token.LookupDirective"},
		facts: newFacts().assume(lx.c.p, mkLess(lx.pos, mkInt(0)), false),
		max:   6000,
	}
}

// constModel lets a function without arguments be a constant.
func constModel(name string, k *Term) map[string]func(e *Exec, st *State, x ssa.CallInstruction, args []*Term) bool {
	return map[string]func(e *Exec, st *State, x ssa.CallInstruction, args []*Term) bool{
		name: func(e *Exec, st *State, x ssa.CallInstruction, args []*Term) bool {
			v := x.Value()
			if v == nil {
				return false
			}
			st.top().env[v] = k
			return true
		},
	}
}

// run enumerates the paths of a method of the lexer.
func (lx *lexRun) run(f *ssa.Function, o runOpts, voc map[string]string) *evalRun {
	args := rootParams(f)
	args[0] = lx.recv
	o.args = args
	er := lx.c.fnRun(f, nil, o, voc)
	er.names[lx.recv] = "l"
	er.names[lx.pos] = "P"
	er.names[lx.input] = "input"
	return er
}

func (lx *lexRun) renderer(er *evalRun, p *Path) *renderer {
	r := er.specRenderer(p)
	r.facts = &Facts{}
	base := r.fn
	r.fn = func(r *renderer, t *Term) (string, bool) {
		switch t.Op {
		case "line", "col", "dir", "escdir":
			return t.Op + "(" + r.str(t.Args[0]) + ")", true
		case "sidx":
			if t.Args[0] == lx.input {
				return "@(" + r.str(t.Args[1]) + ")", true
			}
		case "loopm":
			if t.Args[0] == lx.addr("pos") {
				return "P" + strings.TrimPrefix(t.Sym, "L"), true
			}
		}
		return base(r, t)
	}
	return r
}

func (c *Checker) dumpLex(name string) {
	lx := c.lexer()
	if lx.why != "" {
		fmt.Println(lx.why)
		return
	}
	f := c.p.fn("lexer", "Lexer."+name)
	lx.directives = name != "isDirectiveToken"
	voc := map[string]string{}
	for _, a := range os.Args[3:] {
		k, v, _ := strings.Cut(a, "=")
		voc[k] = v
	}
	er := lx.run(f, lx.opts(), voc)
	fmt.Println("complete", er.complete, len(er.paths))
	for _, p := range er.paths {
		r := lx.renderer(er, p)
		var ts []string
		for _, ev := range p.Events {
			switch ev.Kind {
			case "adv":
				ts = append(ts, "adv@"+r.str(ev.Args[0]))
			case "loop", "exit", "back":
				ts = append(ts, ev.Kind+ev.Loop)
			case "store":
				if !ev.Fresh {
					ts = append(ts, strings.TrimPrefix(ev.Addr.Sym, lexT)+":="+r.str(ev.Val))
				}
			case "call":
				if er.voc[ev.Fn] != "" {
					ts = append(ts, er.vocCall(r, ev.Fn, ev.Args)+er.outcome(p, ev.Res))
				}
			case "panicop", "enter":
				if ev.Kind == "panicop" {
					ts = append(ts, "PANIC")
				}
			}
		}
		var rets []string
		for _, x := range p.Ret {
			rets = append(rets, r.str(x))
		}
		fmt.Println(p.Outcome, strings.Join(ts, " "), "=>", strings.Join(rets, ", "), " pos", r.str(p.St.mem[lx.addr("pos")]))
		var fs []string
		for b, v := range p.Facts.bools {
			s := r.str(b)
			if !v {
				s = "!" + s
			}
			fs = append(fs, s)
		}
		sort.Strings(fs)
		fmt.Println("      ", strings.Join(fs, " & "))
	}
}
