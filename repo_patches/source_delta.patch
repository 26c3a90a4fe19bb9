From 75bf5fbe03aacd4d90ab0ac816ce3c41ceb49902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:03 +0000
Subject: [PATCH 01/48] fix: lexer treated a NUL byte as the end of the
 template

---
 lexer/lexer.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 942a59f..e787c96 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -101,7 +101,7 @@ func (l *Lexer) NextToken() token.Token {
 		l.skipWhitespace()
 	}
 
-	if l.char == 0 {
+	if l.isEOF() {
 		l.tokenBegins()
 		return l.newToken(token.EOF, "")
 	}
@@ -450,7 +450,7 @@ func (l *Lexer) readString() string {
 
 	pos := l.pos
 
-	for l.char != 0 {
+	for !l.isEOF() {
 		prevChar := l.char
 
 		l.readChar()
@@ -504,7 +504,7 @@ func (l *Lexer) readHTML() string {
 	var out bytes.Buffer
 	l.tokenBegins()
 
-	for l.isHTML && l.char != 0 {
+	for l.isHTML && !l.isEOF() {
 		isDirective, escapedDir := l.isDirectiveToken()
 		areBraces, escapedBraces := l.areBracesToken()
 
@@ -559,6 +559,12 @@ func (l *Lexer) readChar() {
 	l.shouldResetCol = l.char == '\n'
 }
 
+// isEOF checks if all the bytes of the input are consumed. A NUL byte
+// is a regular character of the input, it doesn't mark the end of it.
+func (l *Lexer) isEOF() bool {
+	return l.pos >= len(l.input)
+}
+
 func (l *Lexer) peekChar() byte {
 	if l.readPos >= len(l.input) {
 		return 0
@@ -574,7 +580,7 @@ func (l *Lexer) skipWhitespace() {
 }
 
 func (l *Lexer) skipComment() {
-	for l.char != 0 {
+	for !l.isEOF() {
 		if l.char != '-' || l.peekChar() != '-' {
 			l.readChar()
 			continue
-- 
2.43.0


From f581411676281a784a4866d322c8b33e44cd7357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:05 +0000
Subject: [PATCH 02/48] fix: lexer position must not move past the end of the
 input

---
 lexer/lexer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index e787c96..24924a1 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -532,6 +532,11 @@ func (l *Lexer) prevChar() byte {
 }
 
 func (l *Lexer) readChar() {
+	// the end of the input is already reached, there is nothing to read
+	if l.readPos > len(l.input) {
+		return
+	}
+
 	l.prevLine = l.line
 
 	if l.readPos >= len(l.input) {
-- 
2.43.0


From 062cdece999af52ced13ec2e051afc307298dcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:06 +0000
Subject: [PATCH 03/48] fix: '}}' at the start of a text run was swallowed

---
 lexer/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 24924a1..80aa981 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -117,7 +117,7 @@ func (l *Lexer) NextToken() token.Token {
 		return tok
 	}
 
-	if l.char == '}' && l.peekChar() == '}' && l.countCurlyBraces == 0 {
+	if !l.isHTML && l.char == '}' && l.peekChar() == '}' && l.countCurlyBraces == 0 {
 		return l.bracesToken(token.RBRACES, "}}")
 	}
 
-- 
2.43.0


From bcff11d319aba271f333c77d27deec52456dc53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:07 +0000
Subject: [PATCH 04/48] fix: escaped '{{' followed by another brace was
 interpreted

---
 lexer/lexer.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 80aa981..3636e24 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -516,6 +516,13 @@ func (l *Lexer) readHTML() string {
 			out.Truncate(out.Len() - 1)
 		}
 
+		// both escaped braces are text, the second one cannot
+		// start a new "{{" together with the next character
+		if escapedBraces {
+			out.WriteByte(l.char)
+			l.readChar()
+		}
+
 		out.WriteByte(l.char)
 		l.readChar()
 	}
-- 
2.43.0


From 5f91bf11e7f9b887f84025e5d5d1a4c1fa09eb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:28 +0000
Subject: [PATCH 05/48] fix: comment must end at the first '--}}' and nowhere
 else

---
 lexer/lexer.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 3636e24..83c89da 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -598,16 +598,17 @@ func (l *Lexer) skipComment() {
 			continue
 		}
 
-		l.readChar() // skip "-"
-		l.readChar() // skip "-"
-
-		if l.char == '}' || l.peekChar() == '}' {
+		if strings.HasPrefix(l.input[l.pos:], "--}}") {
 			break
 		}
+
+		l.readChar() // skip "-", the next one can start the terminator
 	}
 
 	l.isHTML = true
 
+	l.readChar() // skip "-"
+	l.readChar() // skip "-"
 	l.readChar() // skip "}"
 	l.readChar() // skip "}"
 }
-- 
2.43.0


From 3f2a737414f1fc35b991b6f3f1625647b44064a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:29 +0000
Subject: [PATCH 06/48] fix: illegal token must be consumed by the lexer and
 always reported

---
 lexer/lexer.go   |  6 +++++-
 parser/parser.go | 13 ++++++++-----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 83c89da..1a8e77c 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -143,8 +143,12 @@ func (l *Lexer) bracesToken(tok token.TokenType, literal string) token.Token {
 }
 
 func (l *Lexer) illegalToken() token.Token {
+	pos := l.pos
+
 	l.tokenBegins()
-	return l.newToken(token.ILLEGAL, string(l.char))
+	l.readChar() // skip the illegal character
+
+	return l.newToken(token.ILLEGAL, l.input[pos:l.pos])
 }
 
 func (l *Lexer) directiveToken() token.Token {
diff --git a/parser/parser.go b/parser/parser.go
index 61eb7f7..8cf2812 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -127,11 +127,6 @@ func (p *Parser) ParseProgram() *ast.Program {
 		stmt := p.parseStatement()
 
 		if p.curTokenIs(token.ILLEGAL) {
-			p.newError(
-				p.curToken.ErrorLine(),
-				fail.ErrIllegalToken,
-				p.curToken.Literal,
-			)
 			return nil
 		}
 
@@ -263,6 +258,14 @@ func (p *Parser) newError(line uint, msg string, args ...any) {
 func (p *Parser) nextToken() {
 	p.curToken = p.peekToken
 	p.peekToken = p.l.NextToken()
+
+	if p.peekTokenIs(token.ILLEGAL) {
+		p.newError(
+			p.peekToken.ErrorLine(),
+			fail.ErrIllegalToken,
+			p.peekToken.Literal,
+		)
+	}
 }
 
 func (p *Parser) parseIdentifier() ast.Expression {
-- 
2.43.0


From 3d86b1a3e70c8297cc732f7981c245ad58487b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:31 +0000
Subject: [PATCH 07/48] fix: token names of @each and @dump are missing, String
 panics

---
 token/utils.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/token/utils.go b/token/utils.go
index cb1b181..eb82ba6 100644
--- a/token/utils.go
+++ b/token/utils.go
@@ -53,6 +53,7 @@ var tokens = [...]string{
 	RESERVE:     "@reserve",
 	INSERT:      "@insert",
 	FOR:         "@for",
+	EACH:        "@each",
 	BREAK:       "@break",
 	CONTINUE:    "@continue",
 	BREAK_IF:    "@breakIf",
@@ -63,6 +64,7 @@ var tokens = [...]string{
 	END:         "@end",
 	COMPONENT:   "@component",
 	SLOT:        "@slot",
+	DUMP:        "@dump",
 }
 
 func String(t TokenType) string {
-- 
2.43.0


From b3eeb4b0821e6a330f7f818c041107a79d8e4b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:01 +0000
Subject: [PATCH 08/48] fix: unclosed comment was accepted and comments were
 skipped recursively

---
 lexer/lexer.go | 46 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 1a8e77c..3987df7 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -97,24 +97,31 @@ func New(input string) *Lexer {
 }
 
 func (l *Lexer) NextToken() token.Token {
-	if !l.isHTML {
-		l.skipWhitespace()
-	}
+	for {
+		if !l.isHTML {
+			l.skipWhitespace()
+		}
 
-	if l.isEOF() {
-		l.tokenBegins()
-		return l.newToken(token.EOF, "")
-	}
+		if l.isEOF() {
+			l.tokenBegins()
+			return l.newToken(token.EOF, "")
+		}
+
+		if l.char != '{' || l.peekChar() != '{' {
+			break
+		}
 
-	if l.char == '{' && l.peekChar() == '{' {
 		tok := l.bracesToken(token.LBRACES, "{{")
 
-		if l.char == '-' && l.peekChar() == '-' {
-			l.skipComment()
-			return l.NextToken()
+		if l.char != '-' || l.peekChar() != '-' {
+			return tok
 		}
 
-		return tok
+		if !strings.Contains(l.input[l.pos:], "--}}") {
+			return l.unclosedCommentToken()
+		}
+
+		l.skipComment()
 	}
 
 	if !l.isHTML && l.char == '}' && l.peekChar() == '}' && l.countCurlyBraces == 0 {
@@ -151,6 +158,21 @@ func (l *Lexer) illegalToken() token.Token {
 	return l.newToken(token.ILLEGAL, l.input[pos:l.pos])
 }
 
+// unclosedCommentToken returns an illegal token for the "{{--" that
+// doesn't have a closing "--}}". The rest of the input is skipped.
+func (l *Lexer) unclosedCommentToken() token.Token {
+	l.readChar() // skip "-"
+	l.readChar() // skip "-"
+
+	tok := l.newToken(token.ILLEGAL, "{{--")
+
+	for !l.isEOF() {
+		l.readChar()
+	}
+
+	return tok
+}
+
 func (l *Lexer) directiveToken() token.Token {
 	if l.char != '@' {
 		return l.illegalToken()
-- 
2.43.0


From 85593631c4b829f51fbdb04245e0f9bb6401a783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:20 +0000
Subject: [PATCH 09/48] fix: right operand must be parsed with the precedence
 of its operator

---
 parser/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 8cf2812..5843824 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -765,6 +765,8 @@ func (p *Parser) parseInfixExp(left ast.Expression) ast.Expression {
 		Left:     left,
 	}
 
+	precedence := precedences[p.curToken.Type]
+
 	p.nextToken() // skip operator
 
 	if p.curTokenIs(token.RBRACES) {
@@ -772,7 +774,7 @@ func (p *Parser) parseInfixExp(left ast.Expression) ast.Expression {
 		return nil
 	}
 
-	exp.Right = p.parseExpression(SUM)
+	exp.Right = p.parseExpression(precedence)
 
 	return exp
 }
-- 
2.43.0


From 4a89039ea7c7721a90862c7589d7dbcabc28ee20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:21 +0000
Subject: [PATCH 10/48] fix: assignment value must be a complete expression

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 5843824..c753c8a 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -398,7 +398,7 @@ func (p *Parser) parseAssignStmt() ast.Statement {
 		return nil
 	}
 
-	stmt.Value = p.parseExpression(SUM)
+	stmt.Value = p.parseExpression(LOWEST)
 
 	return stmt
 }
-- 
2.43.0


From c9007d2c6865f4ba358302e03977217452f8e497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:22 +0000
Subject: [PATCH 11/48] fix: unfinished object literal made the parser loop
 forever

---
 parser/parser.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index c753c8a..7d715ae 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -363,10 +363,11 @@ func (p *Parser) parseObjectLiteral() ast.Expression {
 			break
 		}
 
-		if p.peekTokenIs(token.COMMA) {
-			p.nextToken() // move to ","
-			p.nextToken() // skip ","
+		if !p.expectPeek(token.COMMA) { // move to ","
+			return nil
 		}
+
+		p.nextToken() // skip ","
 	}
 
 	return obj
-- 
2.43.0


From e2594a9e1d72ba2b791ca3a8887faacb987b64f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:45 +0000
Subject: [PATCH 12/48] fix: empty and unclosed blocks broke parsing of the
 template

---
 parser/parser.go | 57 ++++++++++++++++++++++++++----------------------
 1 file changed, 31 insertions(+), 26 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 7d715ae..77efd4a 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -589,7 +589,6 @@ func (p *Parser) parseSlots() []*ast.SlotStmt {
 				return nil
 			}
 
-			p.nextToken() // skip ")"
 		}
 
 		slots = append(slots, &ast.SlotStmt{
@@ -598,12 +597,21 @@ func (p *Parser) parseSlots() []*ast.SlotStmt {
 			Body:  p.parseBlockStmt(),
 		})
 
-		p.nextToken() // skip block statement
-		p.nextToken() // skip "@end"
+		if !p.expectPeek(token.END) { // move to "@end" of the slot
+			return nil
+		}
 
-		for p.curTokenIs(token.HTML) {
+		for p.peekTokenIs(token.HTML) {
 			p.nextToken() // skip whitespace
 		}
+
+		if p.peekTokenIs(token.SLOT) {
+			p.nextToken() // move to the next "@slot"
+		}
+	}
+
+	if !p.expectPeek(token.END) { // move to "@end" of the component
+		return nil
 	}
 
 	return slots
@@ -669,8 +677,11 @@ func (p *Parser) parseInsertStmt() ast.Statement {
 	}
 
 	if hasBody {
-		p.nextToken() // skip ")"
 		stmt.Block = p.parseBlockStmt()
+
+		if !p.expectPeek(token.END) { // move to "@end"
+			return nil
+		}
 	}
 
 	p.inserts[stmt.Name.Value] = stmt
@@ -816,8 +827,6 @@ func (p *Parser) parseIfStmt() *ast.IfStmt {
 		return nil
 	}
 
-	p.nextToken() // skip ")"
-
 	stmt.Consequence = p.parseBlockStmt()
 
 	for p.peekTokenIs(token.ELSE_IF) {
@@ -850,7 +859,12 @@ func (p *Parser) parseElseIfStmt() *ast.ElseIfStmt {
 		return nil
 	}
 
-	p.nextToken() // skip "@elseif"
+	tok := p.curToken // "@elseif"
+
+	if !p.expectPeek(token.LPAREN) { // move to "("
+		return nil
+	}
+
 	p.nextToken() // skip "("
 
 	condition := p.parseExpression(LOWEST)
@@ -859,10 +873,8 @@ func (p *Parser) parseElseIfStmt() *ast.ElseIfStmt {
 		return nil
 	}
 
-	p.nextToken() // skip ")"
-
 	return &ast.ElseIfStmt{
-		Token:       p.curToken,
+		Token:       tok,
 		Condition:   condition,
 		Consequence: p.parseBlockStmt(),
 	}
@@ -870,7 +882,6 @@ func (p *Parser) parseElseIfStmt() *ast.ElseIfStmt {
 
 func (p *Parser) parseAlternativeBlock() *ast.BlockStmt {
 	p.nextToken() // move to "@else"
-	p.nextToken() // skip "@else"
 
 	alt := p.parseBlockStmt()
 
@@ -917,12 +928,10 @@ func (p *Parser) parseForStmt() *ast.ForStmt {
 		return nil
 	}
 
-	p.nextToken() // skip ")"
-
 	stmt.Block = p.parseBlockStmt()
 
 	if p.peekTokenIs(token.ELSE) {
-		p.nextToken() // skip "@else"
+		p.nextToken() // move to "@else"
 		stmt.Alternative = p.parseBlockStmt()
 	}
 
@@ -959,12 +968,10 @@ func (p *Parser) parseEachStmt() *ast.EachStmt {
 		return nil
 	}
 
-	p.nextToken() // skip ")"
-
 	stmt.Block = p.parseBlockStmt()
 
 	if p.peekTokenIs(token.ELSE) {
-		p.nextToken() // skip "@else"
+		p.nextToken() // move to "@else"
 		stmt.Alternative = p.parseBlockStmt()
 	}
 
@@ -975,21 +982,19 @@ func (p *Parser) parseEachStmt() *ast.EachStmt {
 	return stmt
 }
 
+// parseBlockStmt parses statements that come after the current token and
+// stops before the token that closes the block. The caller must check it.
 func (p *Parser) parseBlockStmt() *ast.BlockStmt {
-	stmt := &ast.BlockStmt{Token: p.curToken}
+	stmt := &ast.BlockStmt{Token: p.peekToken}
+
+	for !p.peekTokenIs(token.ELSE, token.ELSE_IF, token.END, token.EOF) {
+		p.nextToken() // move to the statement
 
-	for !p.curTokenIs(token.END) {
 		block := p.parseStatement()
 
 		if block != nil {
 			stmt.Statements = append(stmt.Statements, block)
 		}
-
-		if p.peekTokenIs(token.ELSE, token.ELSE_IF, token.END) {
-			break
-		}
-
-		p.nextToken() // skip statement
 	}
 
 	return stmt
-- 
2.43.0


From 6c09de8270bdf1a53b57096000083646ce066977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:58 +0000
Subject: [PATCH 13/48] fix: directives without the closing parenthesis were
 accepted

---
 parser/parser.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 77efd4a..1442588 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -420,6 +420,10 @@ func (p *Parser) parseUseStmt() ast.Statement {
 		Value: p.parseAliasPathShortcut("layouts"),
 	}
 
+	if !p.expectPeek(token.RPAREN) { // move to ")"
+		return nil
+	}
+
 	p.useStmt = stmt
 
 	return stmt
@@ -438,6 +442,10 @@ func (p *Parser) parseBreakIfStmt() ast.Statement {
 
 	stmt.Condition = p.parseExpression(LOWEST)
 
+	if !p.expectPeek(token.RPAREN) { // move to ")"
+		return nil
+	}
+
 	return stmt
 }
 
@@ -454,6 +462,10 @@ func (p *Parser) parseContinueIfStmt() ast.Statement {
 
 	stmt.Condition = p.parseExpression(LOWEST)
 
+	if !p.expectPeek(token.RPAREN) { // move to ")"
+		return nil
+	}
+
 	return stmt
 }
 
@@ -633,6 +645,10 @@ func (p *Parser) parseReserveStmt() ast.Statement {
 		Value: p.curToken.Literal,
 	}
 
+	if !p.expectPeek(token.RPAREN) { // move to ")"
+		return nil
+	}
+
 	p.reserves[stmt.Name.Value] = stmt
 
 	return stmt
@@ -666,6 +682,10 @@ func (p *Parser) parseInsertStmt() ast.Statement {
 		p.nextToken() // skip ","
 		stmt.Argument = p.parseExpression(LOWEST)
 
+		if !p.expectPeek(token.RPAREN) { // move to ")"
+			return nil
+		}
+
 		p.inserts[stmt.Name.Value] = stmt
 		hasBody = false
 
-- 
2.43.0


From b0ba81c8d48d4c256cf7f2e2d599601d439091d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:22 +0000
Subject: [PATCH 14/48] fix: leftovers after an expression and a missing '}}'
 were ignored

---
 parser/parser.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 1442588..5606345 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -153,9 +153,9 @@ func (p *Parser) parseStatement() ast.Statement {
 	case token.HTML:
 		return p.parseHTMLStmt()
 	case token.LBRACES:
-		return p.parseEmbeddedCode()
+		return p.parseBracesStmt()
 	case token.SEMI:
-		return p.parseEmbeddedCode()
+		return p.parseBracesStmt()
 	case token.IF:
 		return p.parseIfStmt()
 	case token.FOR:
@@ -187,6 +187,22 @@ func (p *Parser) parseStatement() ast.Statement {
 	}
 }
 
+// parseBracesStmt parses a single statement inside of braces
+// and checks that nothing is left between it and "}}" or ";"
+func (p *Parser) parseBracesStmt() ast.Statement {
+	stmt := p.parseEmbeddedCode()
+
+	if stmt == nil || p.curTokenIs(token.RBRACES) || p.peekTokenIs(token.SEMI) {
+		return stmt
+	}
+
+	if !p.expectPeek(token.RBRACES) { // move to "}}"
+		return nil
+	}
+
+	return stmt
+}
+
 func (p *Parser) parseEmbeddedCode() ast.Statement {
 	p.nextToken() // skip "{{" or ";" or "("
 
-- 
2.43.0


From 7317b05c6d716b143ceb47a1d03e5517629d1b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:42 +0000
Subject: [PATCH 15/48] fix: whitespace after a component without slots was
 dropped

---
 parser/parser.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 5606345..c7601b7 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -522,13 +522,10 @@ func (p *Parser) parseComponentStmt() ast.Statement {
 	if p.peekTokenIs(token.SLOT) {
 		p.nextToken() // skip ")"
 		stmt.Slots = p.parseSlots()
-	} else if p.peekTokenIs(token.HTML) && isWhitespace(p.peekToken.Literal) {
+	} else if p.peekTokenIs(token.HTML) && isWhitespace(p.peekToken.Literal) && p.slotFollowsPeekToken() {
 		p.nextToken() // skip ")"
-
-		if p.peekTokenIs(token.SLOT) {
-			p.nextToken() // skip whitespace
-			stmt.Slots = p.parseSlots()
-		}
+		p.nextToken() // skip whitespace
+		stmt.Slots = p.parseSlots()
 	}
 
 	p.components = append(p.components, stmt)
@@ -536,6 +533,15 @@ func (p *Parser) parseComponentStmt() ast.Statement {
 	return stmt
 }
 
+// slotFollowsPeekToken checks if the token after the peek token is
+// "@slot" without consuming any tokens
+func (p *Parser) slotFollowsPeekToken() bool {
+	lookahead := *p.l
+	tok := lookahead.NextToken()
+
+	return tok.Type == token.SLOT
+}
+
 func (p *Parser) parseAliasPathShortcut(shortenTo string) string {
 	name := p.curToken.Literal
 
-- 
2.43.0


From b46e4d046e4b2066a73f4fa3e0dd8faf45d87a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:13 +0000
Subject: [PATCH 16/48] fix: slot errors had a line of the component and random
 duplicate

---
 ast/program.go | 12 ++++++------
 ast/utils.go   | 14 ++++++++------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/ast/program.go b/ast/program.go
index 22e1ec8..892c97b 100644
--- a/ast/program.go
+++ b/ast/program.go
@@ -82,16 +82,16 @@ func (p *Program) ApplyComponent(name string, prog *Program, progFilePath string
 			continue
 		}
 
-		duplicateName, times := findDuplicateSlot(comp.Slots)
+		duplicate, times := findDuplicateSlot(comp.Slots)
 
 		if times > 0 {
 			if name == "" {
-				return fail.New(prog.Line(), progFilePath, "parser",
+				return fail.New(duplicate.Line(), progFilePath, "parser",
 					fail.ErrDuplicateDefaultSlotUsage, times, name)
 			}
 
-			return fail.New(prog.Line(), progFilePath, "parser",
-				fail.ErrDuplicateSlotUsage, duplicateName, times, name)
+			return fail.New(duplicate.Line(), progFilePath, "parser",
+				fail.ErrDuplicateSlotUsage, duplicate.Name.Value, times, name)
 		}
 
 		for _, slot := range comp.Slots {
@@ -99,11 +99,11 @@ func (p *Program) ApplyComponent(name string, prog *Program, progFilePath string
 
 			if idx == -1 {
 				if slot.Name.Value == "" {
-					return fail.New(prog.Line(), progFilePath, "parser",
+					return fail.New(slot.Line(), progFilePath, "parser",
 						fail.ErrDefaultSlotNotDefined, name)
 				}
 
-				return fail.New(prog.Line(), progFilePath, "parser",
+				return fail.New(slot.Line(), progFilePath, "parser",
 					fail.ErrSlotNotDefined, slot.Name.Value, name)
 			}
 
diff --git a/ast/utils.go b/ast/utils.go
index 528b829..a2a84a9 100644
--- a/ast/utils.go
+++ b/ast/utils.go
@@ -16,19 +16,21 @@ func findSlotStmtIndex(stmts []Statement, slotName string) int {
 	return -1
 }
 
-func findDuplicateSlot(slots []*SlotStmt) (string, int) {
+// findDuplicateSlot returns the first slot that is passed more than
+// once and the number of times it's passed. It returns nil when all
+// the slots have different names
+func findDuplicateSlot(slots []*SlotStmt) (*SlotStmt, int) {
 	counts := make(map[string]int)
 
 	for _, slot := range slots {
 		counts[slot.Name.Value]++
 	}
 
-	// find the first slot name that has a count greater than 1
-	for name, times := range counts {
-		if times > 1 {
-			return name, times
+	for _, slot := range slots {
+		if times := counts[slot.Name.Value]; times > 1 {
+			return slot, times
 		}
 	}
 
-	return "", 0
+	return nil, 0
 }
-- 
2.43.0


From 60e7fbfc2d5b3d864d753c46f643dca5202e080d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:15 +0000
Subject: [PATCH 17/48] fix: uses of the same component shared slots of the
 last one

---
 ast/program.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ast/program.go b/ast/program.go
index 892c97b..0dfe2e6 100644
--- a/ast/program.go
+++ b/ast/program.go
@@ -78,7 +78,8 @@ func (p *Program) ApplyLayout(prog *Program) {
 
 func (p *Program) ApplyComponent(name string, prog *Program, progFilePath string) *fail.Error {
 	for _, comp := range p.Components {
-		if comp.Name.Value != name {
+		// every use of a component must have its own program
+		if comp.Name.Value != name || comp.Block != nil {
 			continue
 		}
 
@@ -111,6 +112,8 @@ func (p *Program) ApplyComponent(name string, prog *Program, progFilePath string
 		}
 
 		comp.Block = prog
+
+		break
 	}
 
 	return nil
-- 
2.43.0


From ca235930c55868e788665a7c92fa34c70d794703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:16 +0000
Subject: [PATCH 18/48] fix: nested and repeated slot placeholders were not
 filled

---
 ast/program.go   |  9 ++++++---
 ast/utils.go     | 13 +++++++++++++
 parser/parser.go | 14 ++++++++++++--
 3 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/ast/program.go b/ast/program.go
index 0dfe2e6..63cf2cc 100644
--- a/ast/program.go
+++ b/ast/program.go
@@ -13,6 +13,7 @@ type Program struct {
 	UseStmt    *UseStmt
 	Statements []Statement
 	Components []*ComponentStmt
+	Slots      []*SlotStmt // Slot placeholders of a component file
 	Reserves   map[string]*ReserveStmt
 	Inserts    map[string]*InsertStmt
 	Pos        token.Position
@@ -96,9 +97,9 @@ func (p *Program) ApplyComponent(name string, prog *Program, progFilePath string
 		}
 
 		for _, slot := range comp.Slots {
-			idx := findSlotStmtIndex(prog.Statements, slot.Name.Value)
+			placeholders := findSlotPlaceholders(prog.Slots, slot.Name.Value)
 
-			if idx == -1 {
+			if len(placeholders) == 0 {
 				if slot.Name.Value == "" {
 					return fail.New(slot.Line(), progFilePath, "parser",
 						fail.ErrDefaultSlotNotDefined, name)
@@ -108,7 +109,9 @@ func (p *Program) ApplyComponent(name string, prog *Program, progFilePath string
 					fail.ErrSlotNotDefined, slot.Name.Value, name)
 			}
 
-			prog.Statements[idx].(*SlotStmt).Body = slot.Body
+			for _, placeholder := range placeholders {
+				placeholder.Body = slot.Body
+			}
 		}
 
 		comp.Block = prog
diff --git a/ast/utils.go b/ast/utils.go
index a2a84a9..403d9a5 100644
--- a/ast/utils.go
+++ b/ast/utils.go
@@ -16,6 +16,19 @@ func findSlotStmtIndex(stmts []Statement, slotName string) int {
 	return -1
 }
 
+// findSlotPlaceholders returns all the placeholders with the given name
+func findSlotPlaceholders(slots []*SlotStmt, slotName string) []*SlotStmt {
+	var result []*SlotStmt
+
+	for _, slot := range slots {
+		if slot.Name.Value == slotName {
+			result = append(result, slot)
+		}
+	}
+
+	return result
+}
+
 // findDuplicateSlot returns the first slot that is passed more than
 // once and the number of times it's passed. It returns nil when all
 // the slots have different names
diff --git a/parser/parser.go b/parser/parser.go
index c7601b7..40c080d 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -63,6 +63,7 @@ type Parser struct {
 
 	useStmt    *ast.UseStmt
 	components []*ast.ComponentStmt
+	slots      []*ast.SlotStmt
 	inserts    map[string]*ast.InsertStmt
 	reserves   map[string]*ast.ReserveStmt
 }
@@ -141,6 +142,7 @@ func (p *Parser) ParseProgram() *ast.Program {
 	}
 
 	prog.Components = p.components
+	prog.Slots = p.slots
 	prog.Inserts = p.inserts
 	prog.UseStmt = p.useStmt
 	prog.Reserves = p.reserves
@@ -563,10 +565,14 @@ func (p *Parser) parseSlotStmt() *ast.SlotStmt {
 	tok := p.curToken
 
 	if !p.peekTokenIs(token.LPAREN) {
-		return &ast.SlotStmt{
+		stmt := &ast.SlotStmt{
 			Token: tok, // "@slot"
 			Name:  &ast.StringLiteral{Value: ""},
 		}
+
+		p.slots = append(p.slots, stmt)
+
+		return stmt
 	}
 
 	p.nextToken() // skip "@slot"
@@ -581,10 +587,14 @@ func (p *Parser) parseSlotStmt() *ast.SlotStmt {
 		return nil
 	}
 
-	return &ast.SlotStmt{
+	stmt := &ast.SlotStmt{
 		Token: tok, // "@slot"
 		Name:  slotName,
 	}
+
+	p.slots = append(p.slots, stmt)
+
+	return stmt
 }
 
 func (p *Parser) parseDumpStmt() *ast.DumpStmt {
-- 
2.43.0


From 3a31f0c82d04989ba2aac81fa1c1e0891c5fb22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:40 +0000
Subject: [PATCH 19/48] fix: components inside of a layout were not resolved

---
 parser_utils.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser_utils.go b/parser_utils.go
index 906b8f4..3aabbe4 100644
--- a/parser_utils.go
+++ b/parser_utils.go
@@ -91,6 +91,10 @@ func applyLayoutToProgram(prog *ast.Program) *fail.Error {
 		return failErr
 	}
 
+	if err := applyComponentToProgram(layoutProg, layoutAbsPath); err != nil {
+		return err
+	}
+
 	layoutProg.IsLayout = true
 
 	layoutErr := layoutProg.ApplyInserts(prog.Inserts, layoutAbsPath)
-- 
2.43.0


From 409b3ddf6342f7026a701dbc9b9e7e8958824d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:05 +0000
Subject: [PATCH 20/48] fix: components inside of a component file were not
 resolved

---
 fail/fail.go    |  1 +
 parser_utils.go | 16 +++++++++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/fail/fail.go b/fail/fail.go
index dd7897b..f86cf52 100644
--- a/fail/fail.go
+++ b/fail/fail.go
@@ -25,6 +25,7 @@ const (
 	ErrDuplicateDefaultSlotUsage = "duplicate default slot usage found %d times in the component '%s'"
 	ErrExpectedComponentName     = "expected component name, got empty string instead"
 	ErrUndefinedComponent        = "component '%s' is not defined. Check if component exists"
+	ErrRecursiveComponent        = "component '%s' uses itself. It will cause infinite recursion"
 	ErrUndefinedInsert           = "insert with the name '%s' is not defined in layout. Check if you have a matching reserve statement with the same name"
 	ErrDuplicateInserts          = "duplicate insert statements with the name '%s' found"
 
diff --git a/parser_utils.go b/parser_utils.go
index 3aabbe4..a9aa94d 100644
--- a/parser_utils.go
+++ b/parser_utils.go
@@ -3,6 +3,7 @@ package textwire
 import (
 	"errors"
 	"os"
+	"slices"
 
 	"github.com/textwire/textwire/v2/ast"
 	"github.com/textwire/textwire/v2/fail"
@@ -107,7 +108,9 @@ func applyLayoutToProgram(prog *ast.Program) *fail.Error {
 	return nil
 }
 
-func applyComponentToProgram(prog *ast.Program, progFilePath string) *fail.Error {
+// applyComponentToProgram resolves components of the program. The parents
+// are paths of the components that lead to this program.
+func applyComponentToProgram(prog *ast.Program, progFilePath string, parents ...string) *fail.Error {
 	for _, comp := range prog.Components {
 		compName := comp.Name.Value
 		compAbsPath, err := getFullPath(compName, true)
@@ -115,6 +118,11 @@ func applyComponentToProgram(prog *ast.Program, progFilePath string) *fail.Error
 			return fail.FromError(err, 0, "", "template")
 		}
 
+		if slices.Contains(parents, compAbsPath) {
+			return fail.New(comp.Line(), progFilePath, "template",
+				fail.ErrRecursiveComponent, compName)
+		}
+
 		compProg, failErr, parseErr := parseProgram(compAbsPath)
 
 		if parseErr != nil {
@@ -130,6 +138,12 @@ func applyComponentToProgram(prog *ast.Program, progFilePath string) *fail.Error
 			return failErr
 		}
 
+		compParents := append(slices.Clone(parents), compAbsPath)
+
+		if err := applyComponentToProgram(compProg, compAbsPath, compParents...); err != nil {
+			return err
+		}
+
 		if err := prog.ApplyComponent(compName, compProg, progFilePath); err != nil {
 			return err
 		}
-- 
2.43.0


From 9da6f5af7c140956c9c0f10e44f764482740498b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:54 +0000
Subject: [PATCH 21/48] fix: deeply nested template crashed the process with a
 stack overflow

---
 fail/fail.go     |  1 +
 parser/parser.go | 40 +++++++++++++++++++++++++++++++++++++++-
 2 files changed, 40 insertions(+), 1 deletion(-)

diff --git a/fail/fail.go b/fail/fail.go
index f86cf52..efa2476 100644
--- a/fail/fail.go
+++ b/fail/fail.go
@@ -15,6 +15,7 @@ const (
 	ErrNoPrefixParseFunc         = "no prefix parse function for '%s'"
 	ErrIllegalToken              = "illegal token '%s' found"
 	ErrElseifCannotFollowElse    = "'@elseif' directive cannot follow '@else'"
+	ErrNestingTooDeep            = "statements and expressions cannot be nested more than %d times"
 	ErrExpectedIdentifier        = "expected identifier, got '%s' instead"
 	ErrExceptedComponentStmt     = "expected *ComponentStmt, got %T"
 	ErrComponentMustHaveBlock    = "the component '%s' must have a block"
diff --git a/parser/parser.go b/parser/parser.go
index 40c080d..f439ad0 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -50,6 +50,10 @@ var precedences = map[token.TokenType]int{
 	token.DEC:      POSTFIX,
 }
 
+// maxNesting is the limit of nested statements and expressions. Without
+// the limit a deeply nested template would overflow the stack.
+const maxNesting = 1000
+
 type Parser struct {
 	l        *lexer.Lexer
 	errors   []*fail.Error
@@ -58,6 +62,10 @@ type Parser struct {
 	curToken  token.Token
 	peekToken token.Token
 
+	// nesting is the number of statements and expressions
+	// that are being parsed at the moment.
+	nesting int
+
 	prefixParseFns map[token.TokenType]prefixParseFn
 	infixParseFns  map[token.TokenType]infixParseFn
 
@@ -151,6 +159,13 @@ func (p *Parser) ParseProgram() *ast.Program {
 }
 
 func (p *Parser) parseStatement() ast.Statement {
+	if !p.checkNesting(0) {
+		return nil
+	}
+
+	p.nesting++
+	defer func() { p.nesting-- }()
+
 	switch p.curToken.Type {
 	case token.HTML:
 		return p.parseHTMLStmt()
@@ -273,6 +288,18 @@ func (p *Parser) newError(line uint, msg string, args ...any) {
 	p.errors = append(p.errors, newErr)
 }
 
+// checkNesting reports an error when the current nesting increased
+// by the given number of operators exceeds the limit
+func (p *Parser) checkNesting(operators int) bool {
+	if p.nesting+operators < maxNesting {
+		return true
+	}
+
+	p.newError(p.curToken.ErrorLine(), fail.ErrNestingTooDeep, maxNesting)
+
+	return false
+}
+
 func (p *Parser) nextToken() {
 	p.curToken = p.peekToken
 	p.peekToken = p.l.NextToken()
@@ -1065,6 +1092,13 @@ func (p *Parser) parseExpressionStmt() ast.Statement {
 }
 
 func (p *Parser) parseExpression(precedence int) ast.Expression {
+	if !p.checkNesting(0) {
+		return nil
+	}
+
+	p.nesting++
+	defer func() { p.nesting-- }()
+
 	prefix := p.prefixParseFns[p.curToken.Type]
 
 	if prefix == nil {
@@ -1078,7 +1112,11 @@ func (p *Parser) parseExpression(precedence int) ast.Expression {
 
 	leftExp := prefix()
 
-	for !p.peekTokenIs(token.RBRACES, token.SEMI, token.RPAREN) && precedence < p.peekPrecedence() {
+	for operators := 1; !p.peekTokenIs(token.RBRACES, token.SEMI, token.RPAREN) && precedence < p.peekPrecedence(); operators++ {
+		if !p.checkNesting(operators) {
+			return nil
+		}
+
 		infix := p.infixParseFns[p.peekToken.Type]
 
 		if infix == nil {
-- 
2.43.0


From 940d9039dd5a3fe43cabc89aeca41454b906d83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:08 +0000
Subject: [PATCH 22/48] fix: modulo by zero panicked

---
 evaluator/evaluator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index b4fcc06..0a56d85 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -844,6 +844,10 @@ func (e *Evaluator) evalIntegerInfixExp(
 
 		return &object.Int{Value: leftVal / rightVal}
 	case "%":
+		if rightVal == 0 {
+			return e.newError(leftNode, fail.ErrDivisionByZero)
+		}
+
 		return &object.Int{Value: leftVal % rightVal}
 	case "==":
 		return nativeBoolToBooleanObject(leftVal == rightVal)
-- 
2.43.0


From 1bc10aea6f6a16d3b4ba3865fbcedac2418df181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:10 +0000
Subject: [PATCH 23/48] fix: decrement of a float that is less than one gave a
 wrong value

---
 object/float.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/object/float.go b/object/float.go
index 00ae395..72ebec2 100644
--- a/object/float.go
+++ b/object/float.go
@@ -34,6 +34,12 @@ func (f *Float) Val() any {
 }
 
 func (f *Float) SubtractFromFloat(num uint) error {
+	// the integer part would become negative
+	if f.Value < float64(num) {
+		f.Value -= float64(num)
+		return nil
+	}
+
 	// Convert the float to a string
 	strValue := strconv.FormatFloat(f.Value, 'f', -1, 64)
 
-- 
2.43.0


From b0ddfdcaa02b3f8d4bfe0b6ad18dc3aab6032181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:12 +0000
Subject: [PATCH 24/48] fix: '!' was not applicable to booleans and nil that
 are not literals

---
 evaluator/evaluator.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index 0a56d85..938023e 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -946,12 +946,10 @@ func (e *Evaluator) evalBangOperatorExp(
 	right object.Object,
 	node ast.Node,
 ) object.Object {
-	switch right {
-	case FALSE:
-		return TRUE
-	case TRUE:
-		return FALSE
-	case NIL:
+	switch right := right.(type) {
+	case *object.Bool:
+		return nativeBoolToBooleanObject(!right.Value)
+	case *object.Nil:
 		return TRUE
 	}
 
-- 
2.43.0


From 8cf1f463052d71631741e394d71fc0c5f62c61f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:13 +0000
Subject: [PATCH 25/48] fix: @each over a value that is not an array panicked

---
 evaluator/evaluator.go | 7 ++++++-
 fail/fail.go           | 1 +
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index 938023e..36f3ca9 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -367,7 +367,12 @@ func (e *Evaluator) evalEachStmt(node *ast.EachStmt, env *object.Env) object.Obj
 		return arrObj
 	}
 
-	elems := arrObj.(*object.Array).Elements
+	arr, isArr := arrObj.(*object.Array)
+	if !isArr {
+		return e.newError(node, fail.ErrEachNotArray, arrObj.Type())
+	}
+
+	elems := arr.Elements
 	elemsLen := len(elems)
 
 	// evaluate alternative block if array is empty
diff --git a/fail/fail.go b/fail/fail.go
index efa2476..bff9bc5 100644
--- a/fail/fail.go
+++ b/fail/fail.go
@@ -44,6 +44,7 @@ const (
 	ErrVariableTypeMismatch    = "cannot assign variable '%s' of type '%s' to type '%s'"
 	ErrDotOperatorNotSupported = "the dot operator is not supported for type '%s'"
 	ErrPropertyNotFound        = "property '%s' not found in type '%s'"
+	ErrEachNotArray            = "cannot iterate over type '%s' with '@each', only arrays are supported"
 	ErrDivisionByZero          = "division by zero error. The right-hand side of the division operator must not be zero"
 
 	// Functions
-- 
2.43.0


From d7e99f4a9cb4ef615a7d644349cbbe1804c92d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:15 +0000
Subject: [PATCH 26/48] fix: property access on a value that is not an object
 panicked

---
 evaluator/evaluator.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index 36f3ca9..22bfa05 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -559,8 +559,13 @@ func (e *Evaluator) evalDotExp(node *ast.DotExp, env *object.Env) object.Object
 	}
 
 	key := node.Key.(*ast.Identifier)
+	obj, isObj := left.(*object.Obj)
 
-	return e.evalObjectIndexExp(left.(*object.Obj), key.Value, node)
+	if !isObj {
+		return e.newError(node, fail.ErrDotOperatorNotSupported, left.Type())
+	}
+
+	return e.evalObjectIndexExp(obj, key.Value, node)
 }
 
 func (e *Evaluator) evalString(node *ast.StringLiteral, _ *object.Env) object.Object {
-- 
2.43.0


From 0db83b37bb66181b3f4289b13c9d9f5746e73afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:17 +0000
Subject: [PATCH 27/48] fix: empty property name panicked and non-ASCII field
 was not reachable

---
 evaluator/evaluator.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index 22bfa05..89d90f6 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -4,6 +4,8 @@ import (
 	"bytes"
 	"html"
 	"strings"
+	"unicode"
+	"unicode/utf8"
 
 	"github.com/textwire/textwire/v2/ast"
 	"github.com/textwire/textwire/v2/ctx"
@@ -541,14 +543,16 @@ func (e *Evaluator) evalObjectIndexExp(
 		return pair
 	}
 
-	// make first letter lowercase on idx
-	idxUpper := strings.ToUpper(idx[:1]) + idx[1:]
+	// make first letter uppercase on idx
+	if first, size := utf8.DecodeRuneInString(idx); size > 0 {
+		idxUpper := string(unicode.ToUpper(first)) + idx[size:]
 
-	if pair, ok = objObj.Pairs[idxUpper]; !ok {
-		return e.newError(node, fail.ErrPropertyNotFound, idx, object.OBJ_OBJ)
+		if pair, ok = objObj.Pairs[idxUpper]; ok {
+			return pair
+		}
 	}
 
-	return pair
+	return e.newError(node, fail.ErrPropertyNotFound, idx, object.OBJ_OBJ)
 }
 
 func (e *Evaluator) evalDotExp(node *ast.DotExp, env *object.Env) object.Object {
-- 
2.43.0


From 45fe5c9104813d42522b3cc537e1a646f724ec25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:18 +0000
Subject: [PATCH 28/48] fix: key with HTML characters was not reachable by
 index

---
 evaluator/evaluator.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index 89d90f6..6a95406 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -510,7 +510,14 @@ func (e *Evaluator) evalIndexExp(
 	case left.Is(object.ARR_OBJ) && idx.Is(object.INT_OBJ):
 		return e.evalArrayIndexExp(left, idx)
 	case left.Is(object.OBJ_OBJ) && idx.Is(object.STR_OBJ):
-		return e.evalObjectIndexExp(left.(*object.Obj), idx.(*object.Str).Value, node.Index)
+		key := idx.(*object.Str).Value
+
+		// the value of a literal is escaped for output, the key is not
+		if literal, isLiteral := node.Index.(*ast.StringLiteral); isLiteral {
+			key = literal.Value
+		}
+
+		return e.evalObjectIndexExp(left.(*object.Obj), key, node.Index)
 	}
 
 	return e.newError(node, fail.ErrIndexNotSupported, left.Type())
-- 
2.43.0


From e6ad0085a376e7afff112a7d705bc05b5391ab49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:57 +0000
Subject: [PATCH 29/48] fix: @for without a clause or with an assignment in
 post panicked or failed

---
 evaluator/evaluator.go | 35 ++++++++++++++++++-----------------
 evaluator/utils.go     | 22 ++++++++++++++++++++++
 2 files changed, 40 insertions(+), 17 deletions(-)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index 6a95406..783a2fa 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -310,14 +310,16 @@ func (e *Evaluator) evalForStmt(node *ast.ForStmt, env *object.Env) object.Objec
 
 	// loop through the block until the user's condition is false
 	for {
-		cond := e.Eval(node.Condition, newEnv)
+		if node.Condition != nil {
+			cond := e.Eval(node.Condition, newEnv)
 
-		if isError(cond) {
-			return cond
-		}
+			if isError(cond) {
+				return cond
+			}
 
-		if !isTruthy(cond) {
-			break
+			if !isTruthy(cond) {
+				break
+			}
 		}
 
 		block := e.Eval(node.Block, newEnv)
@@ -328,30 +330,29 @@ func (e *Evaluator) evalForStmt(node *ast.ForStmt, env *object.Env) object.Objec
 
 		blocks.WriteString(block.String())
 
+		if hasBreakStmt(block) {
+			break
+		}
+
+		if node.Post == nil {
+			continue
+		}
+
 		post := e.Eval(node.Post, newEnv)
 
 		if isError(post) {
 			return post
 		}
 
-		if node.Init == nil || node.Post == nil {
+		varName, ok := forPostVarName(node)
+		if !ok {
 			continue
 		}
 
-		varName := node.Init.(*ast.AssignStmt).Name.Value
-
 		err := newEnv.Set(varName, post)
 		if err != nil {
 			return e.newError(node, "%s", err.Error())
 		}
-
-		if hasBreakStmt(block) {
-			break
-		}
-
-		if hasContinueStmt(block) {
-			continue
-		}
 	}
 
 	return &object.HTML{Value: blocks.String()}
diff --git a/evaluator/utils.go b/evaluator/utils.go
index 4893614..797d24a 100644
--- a/evaluator/utils.go
+++ b/evaluator/utils.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"strings"
 
+	"github.com/textwire/textwire/v2/ast"
 	"github.com/textwire/textwire/v2/config"
 	"github.com/textwire/textwire/v2/fail"
 	"github.com/textwire/textwire/v2/object"
@@ -67,6 +68,27 @@ func hasControlStmt(obj object.Object, controlType object.ObjectType) bool {
 	return false
 }
 
+// forPostVarName returns the name of the variable that gets the value of
+// the post clause. An assignment in the post clause sets its own variable
+func forPostVarName(node *ast.ForStmt) (string, bool) {
+	post, isExp := node.Post.(*ast.ExpressionStmt)
+	if !isExp {
+		return "", false
+	}
+
+	if postfix, ok := post.Expression.(*ast.PostfixExp); ok {
+		if ident, ok := postfix.Left.(*ast.Identifier); ok {
+			return ident.Value, true
+		}
+	}
+
+	if init, ok := node.Init.(*ast.AssignStmt); ok {
+		return init.Name.Value, true
+	}
+
+	return "", false
+}
+
 // hasCustomFunc checks if the object has a custom function
 func hasCustomFunc(customFunc *config.Func, t object.ObjectType, funcName string) bool {
 	if customFunc == nil {
-- 
2.43.0


From f9611dbb7517a458b9ba659c214670d3573766ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:59 +0000
Subject: [PATCH 30/48] fix: component argument that cannot be set was ignored,
 order of failing entries was random

---
 evaluator/evaluator.go | 13 ++++++++-----
 evaluator/utils.go     | 15 +++++++++++++++
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index 783a2fa..81c090c 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -261,14 +261,17 @@ func (e *Evaluator) evalComponentStmt(node *ast.ComponentStmt, env *object.Env)
 	newEnv := object.NewEnclosedEnv(env)
 
 	if node.Argument != nil {
-		for key, arg := range node.Argument.Pairs {
-			val := e.Eval(arg, env)
+		for _, key := range sortedKeys(node.Argument.Pairs) {
+			val := e.Eval(node.Argument.Pairs[key], env)
 
 			if isError(val) {
 				return val
 			}
 
-			newEnv.Set(key, val)
+			err := newEnv.Set(key, val)
+			if err != nil {
+				return e.newError(node, "%s", err.Error())
+			}
 		}
 	}
 
@@ -641,8 +644,8 @@ func (e *Evaluator) evalArrayLiteral(
 func (e *Evaluator) evalObjectLiteral(node *ast.ObjectLiteral, env *object.Env) object.Object {
 	pairs := make(map[string]object.Object)
 
-	for key, value := range node.Pairs {
-		valueObj := e.Eval(value, env)
+	for _, key := range sortedKeys(node.Pairs) {
+		valueObj := e.Eval(node.Pairs[key], env)
 
 		if isError(valueObj) {
 			return valueObj
diff --git a/evaluator/utils.go b/evaluator/utils.go
index 797d24a..e0c4727 100644
--- a/evaluator/utils.go
+++ b/evaluator/utils.go
@@ -3,6 +3,7 @@ package evaluator
 import (
 	"errors"
 	"fmt"
+	"slices"
 	"strings"
 
 	"github.com/textwire/textwire/v2/ast"
@@ -89,6 +90,20 @@ func forPostVarName(node *ast.ForStmt) (string, bool) {
 	return "", false
 }
 
+// sortedKeys returns the keys in alphabetical order, to not depend on
+// the random order of the map
+func sortedKeys(pairs map[string]ast.Expression) []string {
+	keys := make([]string, 0, len(pairs))
+
+	for key := range pairs {
+		keys = append(keys, key)
+	}
+
+	slices.Sort(keys)
+
+	return keys
+}
+
 // hasCustomFunc checks if the object has a custom function
 func hasCustomFunc(customFunc *config.Func, t object.ObjectType, funcName string) bool {
 	if customFunc == nil {
-- 
2.43.0


From 0f9fc1597cc34922e364f43dc7c810a8a848e241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:37 +0000
Subject: [PATCH 31/48] fix: repeat and decimal with a negative or huge count
 crashed

---
 evaluator/str_func.go |  9 +++++++--
 evaluator/utils.go    | 17 +++++++++++++++++
 fail/fail.go          |  1 +
 3 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/evaluator/str_func.go b/evaluator/str_func.go
index 7f5b215..267ac98 100644
--- a/evaluator/str_func.go
+++ b/evaluator/str_func.go
@@ -276,7 +276,12 @@ func strRepeatFunc(_ *ctx.EvalCtx, receiver object.Object, args ...object.Object
 	}
 
 	val := receiver.(*object.Str).Value
-	repeated := strings.Repeat(val, int(firstArg.Value))
+	count := firstArg.Value
 
-	return &object.Str{Value: repeated}, nil
+	if !isValidRepeat(val, count) {
+		msg := fmt.Sprintf(fail.ErrFuncWrongCount, "repeat", object.STR_OBJ, count)
+		return nil, errors.New(msg)
+	}
+
+	return &object.Str{Value: strings.Repeat(val, int(count))}, nil
 }
diff --git a/evaluator/utils.go b/evaluator/utils.go
index e0c4727..1675970 100644
--- a/evaluator/utils.go
+++ b/evaluator/utils.go
@@ -126,6 +126,18 @@ func hasCustomFunc(customFunc *config.Func, t object.ObjectType, funcName string
 	}
 }
 
+// maxRepeatSize is the maximum size in bytes of a repeated string
+const maxRepeatSize = 1 << 26
+
+// isValidRepeat checks if the string can be repeated count times
+func isValidRepeat(str string, count int64) bool {
+	if count < 0 {
+		return false
+	}
+
+	return len(str) == 0 || count <= maxRepeatSize/int64(len(str))
+}
+
 func addDecimals(receiver object.Object, objType object.ObjectType, args ...object.Object) (object.Object, error) {
 	var val string
 
@@ -166,6 +178,11 @@ func addDecimals(receiver object.Object, objType object.ObjectType, args ...obje
 			return nil, errors.New(msg)
 		}
 
+		if !isValidRepeat("0", decimalArg.Value) {
+			msg := fmt.Sprintf(fail.ErrFuncWrongCount, "decimal", objType, decimalArg.Value)
+			return nil, errors.New(msg)
+		}
+
 		decimals = int(decimalArg.Value)
 	}
 
diff --git a/fail/fail.go b/fail/fail.go
index bff9bc5..e1a35c6 100644
--- a/fail/fail.go
+++ b/fail/fail.go
@@ -54,6 +54,7 @@ const (
 	ErrFuncFirstArgStr    = "first argument for function '%s' on type '%s' must be a STRING"
 	ErrFuncSecondArgInt   = "second argument for function '%s' on type '%s' must be an INTEGER"
 	ErrFuncSecondArgStr   = "second argument for function '%s' on type '%s' must be a STRING"
+	ErrFuncWrongCount     = "function '%s' on type '%s' cannot accept '%d' as a count"
 	ErrFuncMaxArgs        = "function '%s' on type '%s' accepts a maximum of '%d' arguments"
 
 	// Template errors
-- 
2.43.0


From 700a41152dacf67a319308102b1d9580242b5bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:39 +0000
Subject: [PATCH 32/48] fix: truncate cut multi-byte characters and panicked on
 negative limit

---
 evaluator/str_func.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/evaluator/str_func.go b/evaluator/str_func.go
index 267ac98..5eb09f3 100644
--- a/evaluator/str_func.go
+++ b/evaluator/str_func.go
@@ -168,7 +168,11 @@ func strTruncateFunc(_ *ctx.EvalCtx, receiver object.Object, args ...object.Obje
 		}
 	}
 
-	newVal := val[:firstArg.Value] + ellipsis
+	if limit < 0 {
+		limit = 0
+	}
+
+	newVal := string([]rune(val)[:limit]) + ellipsis
 
 	return &object.Str{Value: newVal}, nil
 }
-- 
2.43.0


From 808a30aaa6195d5055fd5acd2910f9ad20ebdcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:40 +0000
Subject: [PATCH 33/48] fix: at with index before the start of the string
 panicked

---
 evaluator/str_func.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evaluator/str_func.go b/evaluator/str_func.go
index 5eb09f3..8baffff 100644
--- a/evaluator/str_func.go
+++ b/evaluator/str_func.go
@@ -208,7 +208,7 @@ func strAtFunc(_ *ctx.EvalCtx, receiver object.Object, args ...object.Object) (o
 		index = len(chars) + index
 	}
 
-	if index >= len(chars) {
+	if index < 0 || index >= len(chars) {
 		return &object.Nil{}, nil
 	}
 
-- 
2.43.0


From 42b9b3ae34925feed8157307d5bae5a99eca5e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:42 +0000
Subject: [PATCH 34/48] fix: capitalize broke strings that start with a
 multi-byte character

---
 evaluator/str_func.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/evaluator/str_func.go b/evaluator/str_func.go
index 8baffff..d632941 100644
--- a/evaluator/str_func.go
+++ b/evaluator/str_func.go
@@ -94,7 +94,12 @@ func strCapitalizeFunc(_ *ctx.EvalCtx, receiver object.Object, _ ...object.Objec
 		return &object.Str{Value: ""}, nil
 	}
 
-	newVal := strings.ToUpper(val[:1]) + val[1:]
+	first, size := utf8.DecodeRuneInString(val)
+	if first == utf8.RuneError {
+		return &object.Str{Value: val}, nil
+	}
+
+	newVal := strings.ToUpper(string(first)) + val[size:]
 
 	return &object.Str{Value: newVal}, nil
 }
-- 
2.43.0


From 7dc954df5906dd77bc2fc096fd5462faab244e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:43 +0000
Subject: [PATCH 35/48] fix: slice with start after the end panicked

---
 evaluator/array_func.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/evaluator/array_func.go b/evaluator/array_func.go
index e913f39..7a3fb19 100644
--- a/evaluator/array_func.go
+++ b/evaluator/array_func.go
@@ -126,6 +126,10 @@ func arraySliceFunc(_ *ctx.EvalCtx, receiver object.Object, args ...object.Objec
 		end = elemsLen
 	}
 
+	if end < start {
+		end = start
+	}
+
 	return &object.Array{Elements: elems[start:end]}, nil
 }
 
-- 
2.43.0


From 41720e8774d738c036f82e9d83a7a13a568fe2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:45 +0000
Subject: [PATCH 36/48] fix: contains did not find equal arrays and objects
 built differently

---
 evaluator/array_func.go | 14 +-------------
 evaluator/utils.go      | 17 +++++++++++++++++
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/evaluator/array_func.go b/evaluator/array_func.go
index 7a3fb19..77320b9 100644
--- a/evaluator/array_func.go
+++ b/evaluator/array_func.go
@@ -4,7 +4,6 @@ import (
 	"errors"
 	"fmt"
 	"math/rand"
-	"reflect"
 	"time"
 
 	"github.com/textwire/textwire/v2/ctx"
@@ -174,18 +173,7 @@ func arrayContainsFunc(_ *ctx.EvalCtx, receiver object.Object, args ...object.Ob
 	target := args[0]
 
 	for _, el := range elems {
-		isObj := el.Type() == object.OBJ_OBJ && target.Type() == object.OBJ_OBJ
-		isArr := el.Type() == object.ARR_OBJ && target.Type() == object.ARR_OBJ
-
-		if isObj || isArr {
-			if reflect.DeepEqual(el, target) {
-				return &object.Bool{Value: true}, nil
-			}
-
-			continue
-		}
-
-		if el.Val() == target.Val() {
+		if isEqual(el, target) {
 			return &object.Bool{Value: true}, nil
 		}
 	}
diff --git a/evaluator/utils.go b/evaluator/utils.go
index 1675970..572b822 100644
--- a/evaluator/utils.go
+++ b/evaluator/utils.go
@@ -3,6 +3,7 @@ package evaluator
 import (
 	"errors"
 	"fmt"
+	"maps"
 	"slices"
 	"strings"
 
@@ -126,6 +127,22 @@ func hasCustomFunc(customFunc *config.Func, t object.ObjectType, funcName string
 	}
 }
 
+// isEqual checks if two values are structurally equal
+func isEqual(a, b object.Object) bool {
+	switch a := a.(type) {
+	case *object.Array:
+		b, isArr := b.(*object.Array)
+
+		return isArr && slices.EqualFunc(a.Elements, b.Elements, isEqual)
+	case *object.Obj:
+		b, isObj := b.(*object.Obj)
+
+		return isObj && maps.EqualFunc(a.Pairs, b.Pairs, isEqual)
+	}
+
+	return a.Type() == b.Type() && a.Val() == b.Val()
+}
+
 // maxRepeatSize is the maximum size in bytes of a repeated string
 const maxRepeatSize = 1 << 26
 
-- 
2.43.0


From eac9cd49a12e59896b78ecc0b91b961eb1388d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:46 +0000
Subject: [PATCH 37/48] fix: unsupported result of a custom function panicked

---
 evaluator/evaluator.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index 81c090c..4fc3479 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -753,30 +753,41 @@ func (e *Evaluator) evalCallExp(
 		case object.STR_OBJ:
 			fun := e.ctx.CustomFunc.Str[funcName]
 			res := fun(receiverObj.String(), nativeArgs...)
-			return object.NativeToObject(res)
+			return e.nativeResult(node, res)
 		case object.ARR_OBJ:
 			fun := e.ctx.CustomFunc.Arr[funcName]
 			nativeElems := e.objectsToNativeType(receiverObj.(*object.Array).Elements)
 			res := fun(nativeElems, nativeArgs...)
-			return object.NativeToObject(res)
+			return e.nativeResult(node, res)
 		case object.INT_OBJ:
 			fun := e.ctx.CustomFunc.Int[funcName]
 			res := fun(int(receiverObj.(*object.Int).Value), nativeArgs...)
-			return object.NativeToObject(res)
+			return e.nativeResult(node, res)
 		case object.FLOAT_OBJ:
 			fun := e.ctx.CustomFunc.Float[funcName]
 			res := fun(receiverObj.(*object.Float).Value, nativeArgs...)
-			return object.NativeToObject(res)
+			return e.nativeResult(node, res)
 		case object.BOOL_OBJ:
 			fun := e.ctx.CustomFunc.Bool[funcName]
 			res := fun(receiverObj.(*object.Bool).Value, nativeArgs...)
-			return object.NativeToObject(res)
+			return e.nativeResult(node, res)
 		}
 	}
 
 	return e.newError(node, fail.ErrNoFuncForThisType, node.Function.Value, receiverObj.Type())
 }
 
+// nativeResult converts the result of a custom function to an object
+func (e *Evaluator) nativeResult(node ast.Node, res any) object.Object {
+	obj := object.NativeToObject(res)
+
+	if obj == nil {
+		return e.newError(node, fail.ErrUnsupportedType, res)
+	}
+
+	return obj
+}
+
 func (e *Evaluator) objectsToNativeType(args []object.Object) []any {
 	var result []any
 
-- 
2.43.0


From 005cca0880068474393e8b41cbe52065ea73c576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:19 +0000
Subject: [PATCH 38/48] fix: nil pointers, named types, unsupported nested
 values and cyclic data crashed

---
 object/utils.go | 149 ++++++++++++++++++++++++++----------------------
 1 file changed, 82 insertions(+), 67 deletions(-)

diff --git a/object/utils.go b/object/utils.go
index 0dccc70..21f74d0 100644
--- a/object/utils.go
+++ b/object/utils.go
@@ -1,113 +1,128 @@
 package object
 
 import (
+	"math"
 	"reflect"
 )
 
+// NativeToObject converts a Go value to an object. It returns nil
+// when the value, or any value inside of it, is not supported
 func NativeToObject(val any) Object {
-	switch v := val.(type) {
-	case string:
-		return &Str{Value: v}
-	case bool:
-		return &Bool{Value: v}
-	case float32:
-		return &Float{Value: float64(v)}
-	case float64:
-		return &Float{Value: v}
-	case int64:
-		return &Int{Value: v}
-	case int:
-		return &Int{Value: int64(v)}
-	case int8:
-		return &Int{Value: int64(v)}
-	case int16:
-		return &Int{Value: int64(v)}
-	case int32:
-		return &Int{Value: int64(v)}
-	case uint:
-		return &Int{Value: int64(v)}
-	case uint8:
-		return &Int{Value: int64(v)}
-	case uint16:
-		return &Int{Value: int64(v)}
-	case uint32:
-		return &Int{Value: int64(v)}
-	case uint64:
-		return &Int{Value: int64(v)}
-	case nil:
-		return &Nil{}
-	}
+	return nativeToObject(reflect.ValueOf(val), map[visit]bool{})
+}
 
-	valType := reflect.TypeOf(val)
+// visit identifies a reference that is being converted
+type visit struct {
+	ptr uintptr
+	len int
+	typ reflect.Type
+}
+
+// nativeToObject converts the value recursively. The parents are references
+// that lead to the value, a value that contains itself is not supported.
+func nativeToObject(val reflect.Value, parents map[visit]bool) Object {
+	switch val.Kind() {
+	case reflect.Invalid:
+		return &Nil{}
+	case reflect.String:
+		return &Str{Value: val.String()}
+	case reflect.Bool:
+		return &Bool{Value: val.Bool()}
+	case reflect.Float32, reflect.Float64:
+		return &Float{Value: val.Float()}
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		return &Int{Value: val.Int()}
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		if val.Uint() > math.MaxInt64 {
+			return nil
+		}
 
-	switch valType.Kind() {
+		return &Int{Value: int64(val.Uint())}
+	case reflect.Interface:
+		return nativeToObject(val.Elem(), parents)
 	case reflect.Struct:
-		return nativeStructToObject(val)
-	case reflect.Slice:
-		return nativeSliceToArrayObject(convertToInterfaceSlice(val))
-	case reflect.Map:
-		return nativeMapToObject(val)
-	case reflect.Pointer:
-		// NativeToObject is used recursively to handle pointers
-		return NativeToObject(reflect.ValueOf(val).Elem().Interface())
+		return nativeStructToObject(val, parents)
+	case reflect.Pointer, reflect.Slice, reflect.Map:
+		return nativeRefToObject(val, parents)
 	}
 
 	return nil
 }
 
-func nativeMapToObject(val any) Object {
-	obj := &Obj{Pairs: make(map[string]Object)}
+func nativeRefToObject(val reflect.Value, parents map[visit]bool) Object {
+	ref := visit{ptr: val.Pointer(), typ: val.Type()}
 
-	valValue := reflect.ValueOf(val)
+	if val.Kind() == reflect.Slice {
+		ref.len = val.Len()
+	}
 
-	for _, key := range valValue.MapKeys() {
-		obj.Pairs[key.String()] = NativeToObject(valValue.MapIndex(key).Interface())
+	if parents[ref] {
+		return nil
 	}
 
-	return obj
-}
+	parents[ref] = true
+	defer delete(parents, ref)
 
-func convertToInterfaceSlice(slice any) []any {
-	s := reflect.ValueOf(slice)
+	switch val.Kind() {
+	case reflect.Slice:
+		return nativeSliceToArrayObject(val, parents)
+	case reflect.Map:
+		return nativeMapToObject(val, parents)
+	}
 
-	if s.Kind() != reflect.Slice {
-		panic("InterfaceSlice() given a non-slice type")
+	return nativeToObject(val.Elem(), parents)
+}
+
+func nativeMapToObject(val reflect.Value, parents map[visit]bool) Object {
+	if val.Type().Key().Kind() != reflect.String {
+		return nil
 	}
 
-	ret := make([]any, s.Len())
+	obj := &Obj{Pairs: make(map[string]Object)}
 
-	for i := 0; i < s.Len(); i++ {
-		ret[i] = s.Index(i).Interface()
+	for _, key := range val.MapKeys() {
+		pair := nativeToObject(val.MapIndex(key), parents)
+		if pair == nil {
+			return nil
+		}
+
+		obj.Pairs[key.String()] = pair
 	}
 
-	return ret
+	return obj
 }
 
-func nativeStructToObject(val any) Object {
+func nativeStructToObject(val reflect.Value, parents map[visit]bool) Object {
 	obj := &Obj{Pairs: make(map[string]Object)}
 
-	valType := reflect.TypeOf(val)
-
-	for i := 0; i < valType.NumField(); i++ {
-		field := valType.Field(i)
+	for i := 0; i < val.NumField(); i++ {
+		field := val.Type().Field(i)
 
 		if !field.IsExported() {
 			continue
 		}
 
-		fieldVal := reflect.ValueOf(val).Field(i).Interface()
+		pair := nativeToObject(val.Field(i), parents)
+		if pair == nil {
+			return nil
+		}
 
-		obj.Pairs[field.Name] = NativeToObject(fieldVal)
+		obj.Pairs[field.Name] = pair
 	}
 
 	return obj
 }
 
-func nativeSliceToArrayObject(slice []any) *Array {
+func nativeSliceToArrayObject(val reflect.Value, parents map[visit]bool) Object {
 	arr := &Array{}
 
-	for _, val := range slice {
-		arr.Elements = append(arr.Elements, NativeToObject(val))
+	for i := 0; i < val.Len(); i++ {
+		elem := nativeToObject(val.Index(i), parents)
+		if elem == nil {
+			return nil
+		}
+
+		arr.Elements = append(arr.Elements, elem)
 	}
 
 	return arr
-- 
2.43.0


From 81f6d821c584a76ca9261d443f213fcc273682db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:21 +0000
Subject: [PATCH 39/48] fix: truncate of an empty string with negative limit
 added ellipsis

---
 evaluator/str_func.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/evaluator/str_func.go b/evaluator/str_func.go
index d632941..8c63ba3 100644
--- a/evaluator/str_func.go
+++ b/evaluator/str_func.go
@@ -156,6 +156,10 @@ func strTruncateFunc(_ *ctx.EvalCtx, receiver object.Object, args ...object.Obje
 	val := receiver.(*object.Str).Value
 	limit := int(firstArg.Value)
 
+	if limit < 0 {
+		limit = 0
+	}
+
 	if limit >= utf8.RuneCountInString(val) {
 		return &object.Str{Value: val}, nil
 	}
@@ -173,10 +177,6 @@ func strTruncateFunc(_ *ctx.EvalCtx, receiver object.Object, args ...object.Obje
 		}
 	}
 
-	if limit < 0 {
-		limit = 0
-	}
-
 	newVal := string([]rune(val)[:limit]) + ellipsis
 
 	return &object.Str{Value: newVal}, nil
-- 
2.43.0


From b77d9118017c0d6785c187c183714acbb4c8f267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:22 +0000
Subject: [PATCH 40/48] fix: error for several faulty variables in data was
 random

---
 object/env.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/object/env.go b/object/env.go
index ab23e83..6a04e1b 100644
--- a/object/env.go
+++ b/object/env.go
@@ -3,6 +3,7 @@ package object
 import (
 	"errors"
 	"fmt"
+	"slices"
 
 	fail "github.com/textwire/textwire/v2/fail"
 )
@@ -26,7 +27,16 @@ func NewEnclosedEnv(outer *Env) *Env {
 func EnvFromMap(data map[string]any) (*Env, *fail.Error) {
 	env := NewEnv()
 
-	for key, val := range data {
+	keys := make([]string, 0, len(data))
+
+	for key := range data {
+		keys = append(keys, key)
+	}
+
+	slices.Sort(keys)
+
+	for _, key := range keys {
+		val := data[key]
 		obj := NativeToObject(val)
 
 		if obj == nil {
-- 
2.43.0


From 937d5e136966473b03116ebfb260ec7d5524f1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:24 +0000
Subject: [PATCH 41/48] fix: order of keys in printed and dumped objects was
 random

---
 object/obj.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/object/obj.go b/object/obj.go
index ee2dad8..f6ba30f 100644
--- a/object/obj.go
+++ b/object/obj.go
@@ -3,6 +3,7 @@ package object
 import (
 	"bytes"
 	"fmt"
+	"slices"
 	"strings"
 )
 
@@ -22,7 +23,8 @@ func (o *Obj) String() string {
 	idx := 0
 	last := len(o.Pairs) - 1
 
-	for key, pair := range o.Pairs {
+	for _, key := range o.sortedKeys() {
+		pair := o.Pairs[key]
 		out.WriteString(key + ": " + pair.String())
 
 		if idx != last {
@@ -37,6 +39,20 @@ func (o *Obj) String() string {
 	return out.String()
 }
 
+// sortedKeys returns the keys in alphabetical order, to always
+// print the pairs in the same order
+func (o *Obj) sortedKeys() []string {
+	keys := make([]string, 0, len(o.Pairs))
+
+	for key := range o.Pairs {
+		keys = append(keys, key)
+	}
+
+	slices.Sort(keys)
+
+	return keys
+}
+
 func (o *Obj) Dump(ident int) string {
 	spaces := strings.Repeat("  ", ident)
 	ident += 1
@@ -48,11 +64,11 @@ func (o *Obj) Dump(ident int) string {
 
 	insideSpaces := strings.Repeat("  ", ident)
 
-	for key, pair := range o.Pairs {
+	for _, key := range o.sortedKeys() {
 		out.WriteString(insideSpaces)
 		out.WriteString(`<span class="textwire-prop">"` + key + `"</span>`)
 		out.WriteString(": ")
-		out.WriteString(pair.Dump(ident))
+		out.WriteString(o.Pairs[key].Dump(ident))
 		out.WriteString(",\n")
 	}
 
-- 
2.43.0


From 7b729965955b73b5f0738bfc6ceed14b738189b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:26 +0000
Subject: [PATCH 42/48] fix: reported undefined insert was random when there
 are several

---
 ast/program.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/ast/program.go b/ast/program.go
index 63cf2cc..c2d40cc 100644
--- a/ast/program.go
+++ b/ast/program.go
@@ -2,6 +2,7 @@ package ast
 
 import (
 	"bytes"
+	"slices"
 
 	fail "github.com/textwire/textwire/v2/fail"
 	token "github.com/textwire/textwire/v2/token"
@@ -131,17 +132,21 @@ func (p *Program) HasUseStmt() bool {
 }
 
 func (p *Program) checkUndefinedInsert(inserts map[string]*InsertStmt) *fail.Error {
+	var undefined []string
+
 	for name := range inserts {
-		if _, ok := p.Reserves[name]; ok {
-			continue
+		if _, ok := p.Reserves[name]; !ok {
+			undefined = append(undefined, name)
 		}
+	}
 
-		line := inserts[name].Line()
-		path := inserts[name].FilePath
-		name := inserts[name].Name.Value
-
-		return fail.New(line, path, "parser", fail.ErrUndefinedInsert, name)
+	if len(undefined) == 0 {
+		return nil
 	}
 
-	return nil
+	// always report the same insert
+	insert := inserts[slices.Min(undefined)]
+
+	return fail.New(insert.Line(), insert.FilePath, "parser",
+		fail.ErrUndefinedInsert, insert.Name.Value)
 }
-- 
2.43.0


From 6291f675476263d59000e4077dca81c69f9747b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:27 +0000
Subject: [PATCH 43/48] fix: error for several faulty template files was random

---
 parser_utils.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/parser_utils.go b/parser_utils.go
index a9aa94d..393b1e8 100644
--- a/parser_utils.go
+++ b/parser_utils.go
@@ -45,7 +45,16 @@ func parseProgram(absPath string) (*ast.Program, *fail.Error, error) {
 func parsePrograms(paths map[string]string) (map[string]*ast.Program, *fail.Error) {
 	var result = map[string]*ast.Program{}
 
-	for name, absPath := range paths {
+	names := make([]string, 0, len(paths))
+
+	for name := range paths {
+		names = append(names, name)
+	}
+
+	slices.Sort(names)
+
+	for _, name := range names {
+		absPath := paths[name]
 		prog, failErr, parseErr := parseProgram(absPath)
 		if parseErr != nil {
 			return nil, fail.FromError(parseErr, 0, absPath, "template")
-- 
2.43.0


From 865f0e154d921f893e897e709362857fbc40e1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:29 +0000
Subject: [PATCH 44/48] fix: string evaluation changed the paths of errors in
 templates

---
 files.go    | 6 +-----
 textwire.go | 9 ---------
 2 files changed, 1 insertion(+), 14 deletions(-)

diff --git a/files.go b/files.go
index 379ee3f..bb41e4a 100644
--- a/files.go
+++ b/files.go
@@ -8,12 +8,8 @@ import (
 )
 
 func getFullPath(filename string, appendExt bool) (string, error) {
-	if usesTemplates {
-		filename = joinPaths(userConfig.TemplateDir, filename)
-	}
-
 	if appendExt {
-		filename += userConfig.TemplateExt
+		filename = joinPaths(userConfig.TemplateDir, filename) + userConfig.TemplateExt
 	}
 
 	absPath, err := filepath.Abs(filename)
diff --git a/textwire.go b/textwire.go
index d384894..8c1d828 100644
--- a/textwire.go
+++ b/textwire.go
@@ -13,9 +13,6 @@ import (
 var userConfig = config.New("templates", ".tw.html", "", false)
 var customFunc = config.NewFunc()
 
-// usesTemplates is a flag to check if user uses Textwire templates or not
-var usesTemplates = false
-
 func NewTemplate(opt *config.Config) (*Template, error) {
 	Configure(opt)
 
@@ -34,8 +31,6 @@ func NewTemplate(opt *config.Config) (*Template, error) {
 }
 
 func EvaluateString(inp string, data map[string]any) (string, error) {
-	usesTemplates = false
-
 	prog, errs := parseStr(inp)
 
 	if len(errs) != 0 {
@@ -60,8 +55,6 @@ func EvaluateString(inp string, data map[string]any) (string, error) {
 }
 
 func EvaluateFile(absPath string, data map[string]any) (string, error) {
-	usesTemplates = false
-
 	content, err := fileContent(absPath)
 	if err != nil {
 		return "", fail.FromError(err, 0, absPath, "template").Error()
@@ -126,8 +119,6 @@ func RegisterBoolFunc(name string, fn config.BoolCustomFunc) error {
 }
 
 func Configure(opt *config.Config) {
-	usesTemplates = true
-
 	if opt == nil {
 		return
 	}
-- 
2.43.0


From 1977441d1fdaf2532a79425fc44be569cb749251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:31 +0000
Subject: [PATCH 45/48] fix: percent sign in a native error message was
 interpreted

---
 fail/fail.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fail/fail.go b/fail/fail.go
index e1a35c6..52eec40 100644
--- a/fail/fail.go
+++ b/fail/fail.go
@@ -148,10 +148,10 @@ func (e *Error) Error() error {
 	return errors.New(e.String())
 }
 
-func FromError(err error, line uint, absPath, origin string, args ...any) *Error {
+func FromError(err error, line uint, absPath, origin string) *Error {
 	if err == nil {
 		return nil
 	}
 
-	return New(line, absPath, origin, err.Error(), args...)
+	return New(line, absPath, origin, "%s", err.Error())
 }
-- 
2.43.0


From 9f7d8e2b4e6e3c224381475a3449754fd30933a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:32 +0000
Subject: [PATCH 46/48] fix: files with the extension inside of the path were
 loaded as templates

---
 files.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/files.go b/files.go
index bb41e4a..1c78157 100644
--- a/files.go
+++ b/files.go
@@ -44,7 +44,7 @@ func findTextwireFiles() (map[string]string, error) {
 			return err
 		}
 
-		if info.IsDir() || !strings.Contains(path, userConfig.TemplateExt) {
+		if info.IsDir() || !strings.HasSuffix(info.Name(), userConfig.TemplateExt) {
 			return nil
 		}
 
-- 
2.43.0


From 84b32e48ae9dcfcb3c72d53e52040284511adec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:33 +0000
Subject: [PATCH 47/48] fix: template name was wrong when directory has parent
 segments or repeats the extension

---
 files.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/files.go b/files.go
index 1c78157..dbd57bc 100644
--- a/files.go
+++ b/files.go
@@ -54,7 +54,12 @@ func findTextwireFiles() (map[string]string, error) {
 			return err
 		}
 
-		result[nameFromPath(path)] = absPath
+		name, err := nameFromPath(path)
+		if err != nil {
+			return err
+		}
+
+		result[name] = absPath
 
 		return nil
 	})
@@ -66,8 +71,15 @@ func findTextwireFiles() (map[string]string, error) {
 	return result, nil
 }
 
-func nameFromPath(path string) string {
-	name := strings.Replace(path, userConfig.TemplateDir+"/", "", 1)
-	name = strings.Replace(name, userConfig.TemplateExt, "", 1)
-	return name
+// nameFromPath returns the path relative to the template
+// directory without the extension
+func nameFromPath(path string) (string, error) {
+	name, err := filepath.Rel(userConfig.TemplateDir, path)
+	if err != nil {
+		return "", err
+	}
+
+	name = strings.TrimSuffix(name, userConfig.TemplateExt)
+
+	return filepath.ToSlash(name), nil
 }
-- 
2.43.0


From 04d0d85a65e5e9ca5abab937e9700bd1e9b245e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:00 +0000
Subject: [PATCH 48/48] fix: error of an absent layout had a path and a line of
 different files

---
 parser_utils.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/parser_utils.go b/parser_utils.go
index 393b1e8..1345f13 100644
--- a/parser_utils.go
+++ b/parser_utils.go
@@ -64,7 +64,7 @@ func parsePrograms(paths map[string]string) (map[string]*ast.Program, *fail.Erro
 			return nil, failErr
 		}
 
-		if err := applyLayoutToProgram(prog); err != nil {
+		if err := applyLayoutToProgram(prog, absPath); err != nil {
 			return nil, err
 		}
 
@@ -80,7 +80,7 @@ func parsePrograms(paths map[string]string) (map[string]*ast.Program, *fail.Erro
 	return result, nil
 }
 
-func applyLayoutToProgram(prog *ast.Program) *fail.Error {
+func applyLayoutToProgram(prog *ast.Program, progFilePath string) *fail.Error {
 	if !prog.HasUseStmt() {
 		return nil
 	}
@@ -89,12 +89,12 @@ func applyLayoutToProgram(prog *ast.Program) *fail.Error {
 	stmt := prog.UseStmt
 	layoutAbsPath, err := getFullPath(layoutName, true)
 	if err != nil {
-		return fail.FromError(err, stmt.Line(), layoutAbsPath, "template")
+		return fail.FromError(err, stmt.Line(), progFilePath, "template")
 	}
 
 	layoutProg, failErr, parseErr := parseProgram(layoutAbsPath)
 	if parseErr != nil {
-		return fail.FromError(parseErr, stmt.Line(), layoutAbsPath, "template")
+		return fail.FromError(parseErr, stmt.Line(), progFilePath, "template")
 	}
 
 	if failErr != nil {
@@ -124,7 +124,7 @@ func applyComponentToProgram(prog *ast.Program, progFilePath string, parents ...
 		compName := comp.Name.Value
 		compAbsPath, err := getFullPath(compName, true)
 		if err != nil {
-			return fail.FromError(err, 0, "", "template")
+			return fail.FromError(err, comp.Line(), progFilePath, "template")
 		}
 
 		if slices.Contains(parents, compAbsPath) {
@@ -140,7 +140,7 @@ func applyComponentToProgram(prog *ast.Program, progFilePath string, parents ...
 					fail.ErrUndefinedComponent, comp.Name.Value)
 			}
 
-			return fail.FromError(parseErr, comp.Line(), compAbsPath, "template")
+			return fail.FromError(parseErr, comp.Line(), progFilePath, "template")
 		}
 
 		if failErr != nil {
-- 
2.43.0

