package main

func init() {
	checks["C03"] = checkC03
	checks["C04"] = checkC04
}

func checkC03(c *Checker) {
	c.rule("loops", "every path of the evaluation of @each and @for visits the elements or passes in order, binds the loop variable and the loop object, and ends or skips a pass exactly for a break or continue in the block")
	c.rule("control", "a control statement is found in a block at any depth, and truthiness decides the conditional forms")
	c.specEach("loops")
	c.specFor("loops")
	c.specBlock("loops")
	c.specIf("loops")
	c.specControl("control")
	c.controlRules("control")
	c.envRules("loops")
	c.rule("parse", "a loop is parsed into exactly its header clauses, body and else body; every statement of a block is kept")
	c.contentPrinting("loops", "HTML", "Block")
	pr := c.parser()
	pr.seqRules("parse")
	pr.stmts("parse", "EACH", "FOR", "BREAK", "CONTINUE", "BREAK_IF", "CONTINUE_IF", "IF")
	c.nextToken().directives("parse")
}

func checkC04(c *Checker) {
	c.rule("scope", "an assignment writes the innermost scope only, is refused for `loop` and for a visible variable of another type, and the refusal becomes an error of the render")
	c.envRules("scope")
	c.specAssign("scope")
	c.specIf("scope")
	c.specEach("scope")
	c.specFor("scope")
	c.specBlock("scope")
	c.specComponent("scope")
}
