package main

func init() { checks["C19"] = checkC19 }

// checkC19: tokens tile the source.
func checkC19(c *Checker) {
	c.rule("C19.span", "every token starts at the line and column of the first byte after the previous token (white space in code and comments apart) and ends on the line and column of the last byte it consumes; the end-of-input token sits just past the last byte; the cursor's line and column count the bytes it passes")
	c.rule("C19.lexemes", "the bytes a token consumes are its own text: every first byte, with every second byte that matters, gives the token of the language with its length")
	m := c.nextToken()
	m.spanRule("C19.span")
	m.lexemes("C19.lexemes", nil)
	m.words("C19.lexemes")
	m.strings("C19.lexemes")
	m.text("C19.lexemes")
	m.comments("C19.lexemes")
	m.directives("C19.lexemes")
	c.rule("C19.contains", "a cursor is inside a token exactly when it is, in reading order, neither before its first byte nor after its last one")
	c.containsRule("C19.contains")
}
