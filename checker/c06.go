package main

func init() {
	checks["C06"] = checkC06
	checks["C07"] = checkC07
}

// checkC06: a page with a layout.
func checkC06(c *Checker) {
	c.rule("C06.parse", "@use, @reserve and @insert are parsed into exactly their name, content and place, and registered with the program; a second insert of one name is an error")
	c.rule("C06.link", "the page becomes the layout it names and nothing else; each reserve gets the insert of its name; an insert without a reserve, a missing or faulty layout is an error")
	c.rule("C06.render", "a layout is rendered with the data of the call; a reserve prints its insert's block or value, and nothing without one; a layout inside a layout is an error")
	pr := c.parser()
	pr.seqRules("C06.parse")
	pr.stmts("C06.parse", "USE", "RESERVE", "INSERT")
	c.layoutRules("C06.link")
	c.programsRule("C06.link")
	c.specUse("C06.render")
	c.specReserve("C06.render")
	c.specProgram("C06.render")
	c.specBlock("C06.render")
	c.contentPrinting("C06.render", "HTML", "Block", "Use", "Reserve")
	c.nextToken().directives("C06.parse")
}

// checkC07: components.
func checkC07(c *Checker) {
	c.rule("C07.parse", "@component and @slot are parsed into exactly their name, arguments and slots, and registered with the program")
	c.rule("C07.link", "each use of a component gets a program parsed for it alone, whose placeholders get the bodies passed at that use; an undeclared slot, a slot passed twice, a missing or faulty file is an error that names the component")
	c.rule("C07.render", "the arguments are evaluated at the place of use and bound in a scope of the component's own, all of them, before its program is rendered; a placeholder prints its body")
	pr := c.parser()
	pr.seqRules("C07.parse")
	pr.stmts("C07.parse", "COMPONENT", "SLOT")
	c.componentRules("C07.link")
	c.programsRule("C07.link")
	c.specComponent("C07.render")
	c.specSlot("C07.render")
	c.specProgram("C07.render")
	c.specBlock("C07.render")
	c.envRules("C07.render")
	c.contentPrinting("C07.render", "HTML", "Block", "Component", "Slot")
	c.nextToken().directives("C07.parse")
}
