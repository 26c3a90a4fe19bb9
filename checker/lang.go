package main

import (
	"fmt"
	"sort"
	"strings"
)

// Regular languages of token actions: the ways through a parse function,
// loops included, against the grammar of a construct.

type nfa struct {
	eps   []map[int]bool
	trans []map[string]map[int]bool
	final map[int]bool
	start int
	mixed bool // a token is of different types on paths with a common past
}

func newNFA() *nfa { return &nfa{final: map[int]bool{}} }

func (n *nfa) state() int {
	n.eps = append(n.eps, map[int]bool{})
	n.trans = append(n.trans, map[string]map[int]bool{})
	return len(n.eps) - 1
}

func (n *nfa) edge(a int, sym string, b int) {
	if sym == "" {
		n.eps[a][b] = true
		return
	}
	if n.trans[a][sym] == nil {
		n.trans[a][sym] = map[int]bool{}
	}
	n.trans[a][sym][b] = true
}

func (n *nfa) hasEdge(a int, sym string, b int) bool {
	if sym == "" {
		return n.eps[a][b]
	}
	return n.trans[a][sym][b]
}

func (n *nfa) closure(s map[int]bool) map[int]bool {
	var st []int
	for x := range s {
		st = append(st, x)
	}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		for y := range n.eps[x] {
			if !s[y] {
				s[y] = true
				st = append(st, y)
			}
		}
	}
	return s
}

func (n *nfa) step(s map[int]bool, sym string) map[int]bool {
	r := map[int]bool{}
	for x := range s {
		for y := range n.trans[x][sym] {
			r[y] = true
		}
	}
	return n.closure(r)
}

func (n *nfa) accepts(s map[int]bool) bool {
	for x := range s {
		if n.final[x] {
			return true
		}
	}
	return false
}

func (n *nfa) symbols() map[string]bool {
	r := map[string]bool{}
	for _, t := range n.trans {
		for s := range t {
			r[s] = true
		}
	}
	return r
}

func stateKey(s map[int]bool) string {
	var l []int
	for x := range s {
		l = append(l, x)
	}
	sort.Ints(l)
	return fmt.Sprint(l)
}

// outside finds a shortest word of a that b does not accept.
func outside(a, b *nfa) (word string, found bool) {
	type node struct {
		s, t map[int]bool
		w    []string
	}
	var syms []string
	for s := range a.symbols() {
		syms = append(syms, s)
	}
	sort.Strings(syms)
	q := []node{{a.closure(map[int]bool{a.start: true}), b.closure(map[int]bool{b.start: true}), nil}}
	seen := map[string]bool{}
	for len(q) > 0 {
		x := q[0]
		q = q[1:]
		if a.accepts(x.s) && !b.accepts(x.t) {
			return strings.Join(x.w, " "), true
		}
		k := stateKey(x.s) + stateKey(x.t)
		if seen[k] {
			continue
		}
		seen[k] = true
		for _, s := range syms {
			ns := a.step(x.s, s)
			if len(ns) == 0 {
				continue
			}
			q = append(q, node{ns, b.step(x.t, s), append(append([]string{}, x.w...), s)})
		}
	}
	return "", false
}

// grammarNFA reads a regular expression over space-separated symbols with
// ( ) | ? *.
func grammarNFA(re string) *nfa {
	for _, ch := range []string{"(", ")", "|"} {
		re = strings.ReplaceAll(re, ch, " "+ch+" ")
	}
	var toks []string
	for _, t := range strings.Fields(re) {
		if n := len(t) - 1; n > 0 && t != "T:?" && (t[n] == '?' || t[n] == '*') {
			toks = append(toks, t[:n], t[n:])
			continue
		}
		toks = append(toks, t)
	}
	n := newNFA()
	i := 0
	type frag struct{ a, b int }
	var alt func() frag
	post := func(f frag) frag {
		for i < len(toks) && (toks[i] == "?" || toks[i] == "*") {
			a, b := n.state(), n.state()
			n.edge(a, "", f.a)
			n.edge(f.b, "", b)
			n.edge(a, "", b)
			if toks[i] == "*" {
				n.edge(f.b, "", f.a)
			}
			f = frag{a, b}
			i++
		}
		return f
	}
	seq := func() frag {
		a := n.state()
		f := frag{a, a}
		for i < len(toks) && toks[i] != ")" && toks[i] != "|" {
			var g frag
			if toks[i] == "(" {
				i++
				g = alt()
				i++ // ")"
			} else {
				x, y := n.state(), n.state()
				n.edge(x, toks[i], y)
				g = frag{x, y}
				i++
			}
			g = post(g)
			n.edge(f.b, "", g.a)
			f.b = g.b
		}
		return f
	}
	alt = func() frag {
		a, b := n.state(), n.state()
		for {
			f := seq()
			n.edge(a, "", f.a)
			n.edge(f.b, "", b)
			if i < len(toks) && toks[i] == "|" {
				i++
				continue
			}
			return frag{a, b}
		}
	}
	f := alt()
	n.start = f.a
	n.final[f.b] = true
	return n
}

// pathsNFA is the language of the paths of a function: the paths share the
// events of their common past, so they form a tree; a back edge returns to
// the loop event it belongs to.
func pathsNFA(ps []*Path, sym func(p *Path, ev *Event) string, accept func(p *Path) bool) *nfa {
	n := newNFA()
	n.start = n.state()
	type key struct {
		at int
		ev *Event
	}
	next := map[key]int{}
	for _, p := range ps {
		at := n.start
		loops := map[string]int{}
		for _, ev := range p.Events {
			if ev.Kind == "back" {
				continue
			}
			k, s := key{at, ev}, sym(p, ev)
			to, ok := next[k]
			if !ok {
				to = n.state()
				next[k] = to
			} else if !n.hasEdge(at, s, to) {
				// a token is known more exactly on one path than on another
				n.mixed = true
			}
			n.edge(at, s, to)
			at = to
			if ev.Kind == "loop" {
				loops[ev.Loop] = at
			}
		}
		switch {
		case p.Outcome == "back":
			if l, ok := loops[p.Loop]; ok {
				n.edge(at, "", l)
			}
		case p.Outcome == "return" && accept(p):
			n.final[at] = true
		}
	}
	return n
}
