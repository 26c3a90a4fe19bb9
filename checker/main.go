package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"strings"
	"time"
)

var checks = map[string]func(c *Checker){}

func main() {
	start := time.Now()
	debug.SetGCPercent(400)
	repo, root := "/repo", "/verif"
	if v := os.Getenv("TW_REPO"); v != "" {
		repo = v
	}
	if v := os.Getenv("TW_ROOT"); v != "" {
		root = v
	}
	if f := os.Getenv("TW_PROF"); f != "" {
		if w, err := os.Create(f); err == nil {
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
	}
	p, err := loadProg(repo)
	if err != nil {
		fmt.Println("cannot load the program:", err)
		os.Exit(2)
	}
	switch {
	case len(os.Args) > 2 && os.Args[1] == "dump":
		dump(p)
	case len(os.Args) > 2 && os.Args[1] == "trace":
		c := newChecker(p, "X", "quick")
		pr := c.parser()
		cur := ""
		var opq []string
		for _, a := range os.Args[3:] {
			if strings.Contains(a, ".") {
				opq = append(opq, a)
			} else {
				cur = a
			}
		}
		ps, ok := pr.run(p.fn("parser", os.Args[2]), opq, cur, nil)
		fmt.Println("complete", ok)
		seen := map[string]int{}
		for _, q := range ps {
			r := pr.renderer(q)
			var ret []string
			for _, t := range q.Ret {
				ret = append(ret, r.str(t))
			}
			s := fmt.Sprint(q.Outcome, " ", pr.trace(q), "  => ", ret)
			seen[s]++
			if seen[s] == 1 {
				fmt.Println(s)
				for _, ev := range q.Events {
					if ev.Kind == "loop" || ev.Kind == "back" {
						fmt.Print("      ", ev.Kind, " ", ev.Loop)
						for k, v := range ev.Vals {
							fmt.Print(" ", k, "=", r.str(v))
						}
						fmt.Println()
					}
				}
				if os.Getenv("TW_FACTS") != "" {
					fmt.Println("     ", q.Facts)
				}
			}
		}
		pre, inf, ok := pr.registrations()
		fmt.Println(pre, inf, ok)
	case len(os.Args) > 2 && os.Args[1] == "eval":
		c := newChecker(p, "X", "quick")
		if len(os.Args) == 3 {
			er := c.evalNode(os.Args[2])
			fmt.Println("complete", er.complete)
			seen := map[string]bool{}
			for _, q := range er.paths {
				t, unk := er.trace(q)
				ret := ""
				if len(q.Ret) > 0 {
					ret = er.specRenderer(q).str(q.Ret[0])
				}
				s := fmt.Sprint(q.Outcome, " ", t, " => ", ret, "  ", map[bool]string{true: "UNKNOWN"}[unk], map[bool]string{false: "FACTS"}[er.factsKnown(q)])
				if !seen[s] {
					seen[s] = true
					fmt.Println(s)
				}
			}
			return
		}
		er := c.evalPaths(os.Args[2], runOpts{opaque: os.Args[3:]})
		fmt.Println("complete", er.complete)
		for i, q := range er.paths {
			r := er.renderer(q)
			ret := "-"
			if len(q.Ret) > 0 {
				ret = r.str(q.Ret[0])
			}
			fmt.Printf("--- %d %s %s ret=%s\n", i, q.Outcome, q.Loop, ret)
			for k, v := range q.Vals {
				fmt.Println("      ", k, "=", r.str(v))
			}
			if os.Getenv("TW_FACTS") != "" {
				fmt.Println("   facts:", q.Facts)
			}
			for _, ev := range q.Events {
				if ev.Kind == "enter" || ev.Kind == "store" && ev.Fresh {
					continue
				}
				fmt.Printf("   %s %s %s(", p.pos(ev.Pos), ev.Kind, ev.Fn)
				for j, a := range ev.Args {
					if j > 0 {
						fmt.Print(", ")
					}
					fmt.Print(r.str(a))
				}
				fmt.Print(")")
				if ev.Addr != nil {
					fmt.Print(" addr=", r.str(ev.Addr))
				}
				if ev.Val != nil {
					fmt.Print(" val=", r.str(ev.Val))
				}
				for k, v := range ev.Vals {
					fmt.Print(" ", k, "=", r.str(v))
				}
				fmt.Println(" ", ev.Note)
			}
		}
	case len(os.Args) > 2 && os.Args[1] == "fn":
		c := newChecker(p, "X", "quick")
		pk, fnn, _ := strings.Cut(os.Args[2], ":")
		fnn, anon, _ := strings.Cut(fnn, "$")
		f := p.fn(pk, fnn)
		if anon != "" {
			f = f.AnonFuncs[0]
		}
		o := runOpts{}
		voc := map[string]string{}
		for _, a := range os.Args[3:] {
			if a == "rec" {
				o.onRec = true
			} else if k, v, ok := strings.Cut(a, "="); ok {
				voc[k] = v
			}
		}
		var names []string
		for _, a := range rootParams(f) {
			names = append(names, a.Sym)
		}
		er := c.fnRun(f, names, o, voc)
		er.dumpSpec()
	case len(os.Args) > 2 && os.Args[1] == "lex":
		newChecker(p, "X", "quick").dumpLex(os.Args[2])
	case len(os.Args) > 2 && os.Args[1] == "check":
		tier := "quick"
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		code := 0
		for _, prop := range strings.Split(os.Args[2], ",") {
			f := checks[prop]
			if f == nil {
				fmt.Println("no check for", prop)
				os.Exit(2)
			}
			if prop != os.Args[2] {
				start = time.Now()
			}
			c := newChecker(p, prop, tier)
			guardedRun(c, f)
			if r := c.finish(root, start); r != 0 {
				code = r
			}
		}
		pprof.StopCPUProfile()
		os.Exit(code)
	default:
		fmt.Println(len(p.funcs), "functions", len(p.gtables), "tables")
	}
}

func dump(p *Prog) {
	pk, fnn, _ := strings.Cut(os.Args[2], ":")
	f := p.fn(pk, fnn)
	pol := &Policy{Opaque: map[string]bool{}, Devirt: map[string]bool{}, Pure: map[string]bool{}}
	facts := newFacts()
	args := rootParams(f)
	for _, a := range os.Args[3:] {
		switch {
		case a == "deref":
			pol.Deref = true
		case a == "fork":
			pol.ForkTables = true
		case a == "norec":
			pol.NoRecurse = true
		case strings.Contains(a, "="):
			n, k, _ := strings.Cut(a, "=")
			for _, t := range args {
				if t.Sym == n {
					facts = facts.setKind(t, ksOf(k))
				}
			}
		default:
			pol.Opaque[a] = true
		}
	}
	e := newExec(p, pol)
	for i, r := range e.run(f, args, facts) {
		rd := &renderer{p: p, path: r, names: map[*Term]string{}}
		var ret []string
		for _, t := range r.Ret {
			ret = append(ret, rd.str(t))
		}
		fmt.Printf("--- path %d %s ret=%v %s %v\n   facts: %s\n", i, r.Outcome, ret, r.Loop, r.Vals, r.Facts)
		for _, ev := range r.Events {
			if ev.Kind == "enter" || ev.Kind == "store" && ev.Fresh {
				continue
			}
			fmt.Printf("   %s %s %s%v -> %v addr=%v val=%v %s %v\n", p.pos(ev.Pos), ev.Kind, ev.Fn, ev.Args, ev.Res, ev.Addr, ev.Val, ev.Loop, ev.Vals)
		}
	}
}

// guardedRun: a failure of the analysis itself is not a verdict on the code.
func guardedRun(c *Checker, f func(*Checker)) {
	defer func() {
		if r := recover(); r != nil {
			if os.Getenv("TW_PANIC") != "" {
				panic(r)
			}
			c.rule("engine", "the analysis runs to its end")
			c.und("engine", "analysis", "stopped: %v", r)
		}
	}()
	f(c)
}

// dumpSpec prints the paths in the vocabulary of the specifications.
func (er *evalRun) dumpSpec() {
	fmt.Println("complete", er.complete)
	seen := map[string]bool{}
	for _, q := range er.paths {
		t, unk := er.trace(q)
		var rets []string
		r := er.specRenderer(q)
		for _, x := range q.Ret {
			rets = append(rets, r.str(x))
		}
		s := fmt.Sprint(q.Outcome, " ", t, " => ", strings.Join(rets, ", "), "  ", map[bool]string{true: "UNKNOWN"}[unk], map[bool]string{false: "FACTS"}[er.factsKnown(q)])
		if os.Getenv("TW_FACTS") != "" {
			s += "\n     " + fmt.Sprint(q.Facts)
			for _, ev := range q.Events {
				if ev.Kind == "loop" || ev.Kind == "back" {
					s += "\n     " + ev.Kind + " " + ev.Loop
					for k, v := range ev.Vals {
						s += " " + k + "=" + r.str(v)
					}
				}
			}
		}
		if !seen[s] {
			seen[s] = true
			fmt.Println(s)
		}
	}
}
