package main

import "regexp"

// specLists: an array literal holds the values of its elements in order, an
// object literal the value of every pair under its key.
func (c *Checker) specLists(rule string) {
	c.nodeSpec(rule, "ArrayLiteral", func(er *evalRun) []alt {
		e := nd(`Elements\[k1\]`)
		build := er.builds("object.Array", "Elements", emptyInit+`|make\[.*`, `acc\+\+\[`+eRx(e)+`\]`)
		return []alt{
			{toks: []string{"loop1", eX(e), "*~exit1.*"}, ret: rE(e)},
			{toks: []string{"loop1", eOK(e), "back1"}, also: er.indexedStep("Elements")},
			{toks: []string{"loop1", "~exit1\\(.*\\)"}, ret: `~acc1\[0\]`, also: er.accError, opt: true},
			{toks: []string{"loop1", "~exit1\\(.*\\)"}, ret: "Array{Elements: acc1}", also: build},
			{toks: []string{"loop1", "~exit1\\(.*\\)"}, ret: `~Array\{Elements: make.*\}`, opt: true},
		}
	})
	c.nodeSpec(rule, "ObjectLiteral", func(er *evalRun) []alt {
		er.norm = func(s string) string {
			return callSort.ReplaceAllString(bareExit.ReplaceAllString(rkeyRx.ReplaceAllString(s, "key‹$1›"), ""), "")
		}
		er.factLists = true
		key := `(?:acc1\[k2\]|key‹node\.Pairs›|slices\.Sorted\(maps\.Keys\(node\.Pairs\)\)\[k\d\])`
		v := nd(`Pairs\[` + key + `\]`)
		return []alt{
			{toks: []string{"loop1", "back1"}, also: er.stepIs(`acc1\+\+\[key‹node\.Pairs›\]`), opt: true},
			{toks: []string{`~(?:loop1; )?loop\d`, eX(v)}, ret: rE(v)},
			{toks: []string{`~(?:loop1; )?loop\d`, eOK(v), `~back\d`}, also: er.pairStored},
			{toks: []string{`~(?:loop1; )?loop\d(?:; exit\d\(.*\))?`}, ret: `~Obj\{Pairs: map\{.*\}\}`, cond: []string{"done:node.Pairs"}, also: er.listDone},
		}
	})
}

// accError: what is returned of the collected values is known to be an error.
func (er *evalRun) accError(p *Path) (verdict, string) {
	if er.isErr(p.Facts, p.Ret[0]) == 1 {
		return vOK, ""
	}
	return vBad, "an element is given as the value of the array"
}

// indexedStep: where the list is made with its length first, a pass stores the
// value at its own position.
func (er *evalRun) indexedStep(field string) alsoFn {
	return func(p *Path) (verdict, string) {
		for _, ev := range p.Events {
			if ev.Kind != "store" || ev.Addr == nil || ev.Addr.Op != "&i" || ev.Addr.Args[0].Op != "makeslice" {
				continue
			}
			evs := er.evals(p)
			if len(evs) != 1 {
				return vUnd, "a pass stores a value that is not resolved"
			}
			if ev.Val != evResult(evs[0]) {
				return vBad, "a pass stores " + er.specRenderer(p).str(ev.Val)
			}
			if k := ev.Addr.Args[1]; k != mkLoopK("L1") {
				if k.isConst() || k.Op == "lin" {
					return vBad, "the value is stored at position " + er.specRenderer(p).str(k)
				}
				return vUnd, "the position of the value is not resolved"
			}
		}
		return vOK, ""
	}
}

// pairStored: a pass stores the value of the pair under its own key.
func (er *evalRun) pairStored(p *Path) (verdict, string) {
	evs := er.evals(p)
	if len(evs) != 1 {
		return vUnd, "a pass evaluates several values"
	}
	r := er.specRenderer(p)
	want := evResult(evs[0])
	found := false
	for _, ev := range p.Events {
		if ev.Kind == "mapupdate" && ev.Val == want {
			found = true
		}
	}
	if !found {
		for a, v := range p.St.mem {
			if a.Op == "&m" && v != want {
				return vBad, "a pass stores " + r.str(v)
			}
		}
		return vBad, "a pass stores no value"
	}
	for a, v := range p.St.mem {
		if a.Op != "&m" || v != want {
			continue
		}
		k := r.str(a.Args[1])
		w := er.norm("E(node.Pairs[" + k + "])")
		if g := er.norm(r.str(v)); g != w {
			if regexp.MustCompile(`inv|dyn|unknown|call`).MatchString(k) {
				return vUnd, "the key " + k + " is not resolved"
			}
			return vBad, "a pass stores " + g + " under " + k
		}
	}
	return vOK, ""
}
