package main

import "regexp"

func init() { checks["C05"] = checkC05 }

// textTokens are the tokens whose lexing decides what is text.
func textToken(w wantTok) bool {
	switch w.name {
	case "LBRACES", "RBRACES", "LBRACE", "RBRACE", "LPAREN", "RPAREN":
		return true
	}
	return w.text || w.comment
}

// checkC05: text is emitted byte for byte.
func checkC05(c *Checker) {
	c.rule("C05.text", "outside code, a text token takes every byte up to the next '{{' or directive; a backslash before them is dropped and what follows is text")
	c.rule("C05.modes", "code starts at '{{' and at the parenthesis of a directive and ends at the '}}' or parenthesis that closes it")
	c.rule("C05.comments", "a comment ends at the first '--}}' and gives no token")
	c.rule("C05.directives", "a directive is read exactly where one of the keywords starts")
	c.rule("C05.parse", "a text token becomes a text statement of that token; every statement of a template or block is kept, in order")
	c.rule("C05.output", "a text statement gives the text of its token, and what is printed is the parts in order")
	m := c.nextToken()
	c.lexer().newRule("C05.text")
	m.text("C05.text")
	m.lexemes("C05.modes", textToken)
	m.comments("C05.comments")
	m.directives("C05.directives")
	pr := c.parser()
	pr.seqRules("C05.parse")
	pr.stmts("C05.parse", "HTML", "IF", "EACH", "FOR", "BREAK", "CONTINUE", "BREAK_IF", "CONTINUE_IF", "USE", "RESERVE", "INSERT", "SLOT", "DUMP", "COMPONENT")
	c.specText("C05.output")
	c.specProgram("C05.output")
	c.specBlock("C05.output")
	c.contentPrinting("C05.output", "HTML", "Block")
	c.entries("C05.output")
}

// contentPrinting: the printed form of the parts of a page.
func (c *Checker) contentPrinting(rule string, kinds ...string) {
	for _, k := range kinds {
		c.fnSpec(rule, "printing of "+k, c.p.method("*object."+k, "String"), []string{"v"}, runOpts{}, nil, func(er *evalRun) []alt {
			fld := func(n string) *Term { return c.fieldOf(er.args[0], "*object."+k, n) }
			nilIs := func(n string, want bool) alsoFn {
				return func(p *Path) (verdict, string) {
					t := fld(n)
					if t == nil {
						return vUnd, "no field " + n
					}
					ks := p.Facts.kind(c.p, t)
					one, single := ks.single()
					isNil := single && one == "nil"
					if want == isNil && (isNil || !ks.has("nil")) {
						return vOK, ""
					}
					return vBad, "the choice does not follow " + n
				}
			}
			list := func(field, step string) []alt {
				return []alt{{toks: []string{"loop1", "back1"}},
					{toks: []string{"loop1", "exit1(v." + field + ")"}, ret: "acc1", also: er.buildsRet(`""`, `cat\(acc `+regexp.QuoteMeta(step)+`\)`)}}
			}
			switch k {
			case "HTML":
				return []alt{{ret: "v.Value"}}
			case "Block":
				return list("Elements", "String(v.Elements[k1])")
			case "Use", "Component":
				return []alt{{ret: "String(v.Content)"}}
			case "Reserve":
				return []alt{{ret: "String(v.Argument)", also: nilIs("Argument", false)}, {ret: "String(v.Content)", also: nilIs("Argument", true)}}
			case "Slot":
				return []alt{{ret: "String(v.Content)", also: nilIs("Content", false)}, {ret: `""`, also: nilIs("Content", true)}}
			}
			return nil
		})
	}
}
