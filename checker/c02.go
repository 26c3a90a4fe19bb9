package main

func init() { checks["C02"] = checkC02 }

func checkC02(c *Checker) {
	c.rule("if", "every path of the evaluation of @if evaluates conditions in order up to the first truthy one and then exactly its body")
	c.rule("truthy", "the condition classes taken as true are exactly those that the truth table lists")
	c.rule("parse", "an @if construct is parsed into exactly its condition, body, branches and else body, in order; every statement of a block is kept")
	c.specIf("if")
	c.specBlock("if")
	c.specProgram("if")
	c.specText("if")
	c.specTernary("truthy")
	c.specControl("truthy")
	c.contentPrinting("if", "HTML", "Block")
	pr := c.parser()
	pr.seqRules("parse")
	pr.stmts("parse", "IF", "BREAK_IF", "CONTINUE_IF")
	c.nextToken().directives("parse")
}
