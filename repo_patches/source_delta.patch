From 7dfdf540dca78de5cbdaf29977f884587c1b1aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:06 +0000
Subject: [PATCH 01/10] fix: tex: stop shrinking nodes at the smallest size
 level

Shrink decremented the size level and Grow incremented it, so the level
never reached numSizeLevels and nodes kept getting smaller for ever.
---
 tex/box.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/tex/box.go b/tex/box.go
index e433113..5416b5b 100644
--- a/tex/box.go
+++ b/tex/box.go
@@ -111,7 +111,7 @@ func newBox(w, h, d float64) *Box {
 func (*Box) Kerning(next Node) float64 { return 0 }
 
 func (box *Box) Shrink() {
-	box.size--
+	box.size++
 	if box.size < numSizeLevels {
 		box.width *= shrinkFactor
 		box.height *= shrinkFactor
@@ -120,7 +120,7 @@ func (box *Box) Shrink() {
 }
 
 func (box *Box) Grow() {
-	box.size++
+	box.size--
 	box.width *= growFactor
 	box.height *= growFactor
 	box.depth *= growFactor
@@ -231,7 +231,7 @@ func (c *Char) Kerning(next Node) float64 {
 }
 
 func (box *Char) Shrink() {
-	box.size--
+	box.size++
 	if box.size < numSizeLevels {
 		box.font.Size *= shrinkFactor
 		box.width *= shrinkFactor
@@ -241,7 +241,7 @@ func (box *Char) Shrink() {
 }
 
 func (box *Char) Grow() {
-	box.size++
+	box.size--
 	box.font.Size *= growFactor
 	box.width *= growFactor
 	box.height *= growFactor
@@ -794,14 +794,14 @@ func newGlue(w, st float64, sto int, sh float64, sho int) *Glue {
 func (g *Glue) Kerning(next Node) float64 { return 0 }
 
 func (g *Glue) Shrink() {
-	g.size--
+	g.size++
 	if g.size < numSizeLevels {
 		g.width *= shrinkFactor
 	}
 }
 
 func (g *Glue) Grow() {
-	g.size++
+	g.size--
 	g.width *= growFactor
 }
 
@@ -872,14 +872,14 @@ func (k *Kern) String() string { return fmt.Sprintf("k%.02f", k.width) }
 func (k *Kern) Kerning(next Node) float64 { return 0 }
 
 func (k *Kern) Shrink() {
-	k.size--
+	k.size++
 	if k.size < numSizeLevels {
 		k.width *= shrinkFactor
 	}
 }
 
 func (k *Kern) Grow() {
-	k.size++
+	k.size--
 	k.width *= growFactor
 }
 
-- 
2.43.0


From 6664f8df285882a7e7e4c758c2ade1a37336ea9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:08 +0000
Subject: [PATCH 02/10] fix: mtex: typeset brace groups inside math expressions

The visitor only visited the direct children of a math expression, so the
contents of a {...} group were silently dropped.
---
 mtex/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtex/parser.go b/mtex/parser.go
index fd53aad..cf965f9 100644
--- a/mtex/parser.go
+++ b/mtex/parser.go
@@ -103,7 +103,7 @@ func (v *visitor) Visit(n ast.Node) ast.Visitor {
 		v.state.Font.Type = rcparams("mathtext.default").(string)
 
 		for _, x := range n.List {
-			v.Visit(x)
+			ast.Walk(v, x)
 		}
 		v.math = oldm
 		v.state.Font.Type = oldt
-- 
2.43.0


From 8b2b52aa771dc4beca50a73c7e6e8ba6487c4e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:10 +0000
Subject: [PATCH 03/10] fix: ast: make End point just after the closing
 delimiter

Node.End is documented as the position of the first character immediately
after the node, but Arg, OptArg and MathExpr returned the position of
their closing delimiter.
---
 ast/ast.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index 4205a29..27df9c1 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -67,7 +67,7 @@ type Arg struct {
 }
 
 func (x *Arg) Pos() token.Pos { return x.Lbrace }
-func (x *Arg) End() token.Pos { return x.Rbrace }
+func (x *Arg) End() token.Pos { return x.Rbrace + 1 }
 func (x *Arg) isNode()        {}
 
 // OptArg is an optional argument of a macro
@@ -80,7 +80,7 @@ type OptArg struct {
 }
 
 func (x *OptArg) Pos() token.Pos { return x.Lbrack }
-func (x *OptArg) End() token.Pos { return x.Rbrack }
+func (x *OptArg) End() token.Pos { return x.Rbrack + 1 }
 func (x *OptArg) isNode()        {}
 
 type Ident struct {
@@ -105,7 +105,7 @@ type MathExpr struct {
 
 func (x *MathExpr) isNode()        {}
 func (x *MathExpr) Pos() token.Pos { return x.Left }
-func (x *MathExpr) End() token.Pos { return x.Right }
+func (x *MathExpr) End() token.Pos { return token.Pos(int(x.Right) + len(x.Delim)) }
 
 type Word struct {
 	WordPos token.Pos
-- 
2.43.0


From 8dcf8183dfdf0aff21acc19550b5798d0ffd7b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 04/10] fix: report unsupported or malformed expressions as
 errors

ParseExpr and mtex.Parse return an error, but an unknown macro, a stray
delimiter or an unsupported construct in their input made them panic.
---
 mtex/parser.go | 7 ++++++-
 parser.go      | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/mtex/parser.go b/mtex/parser.go
index cf965f9..b923c16 100644
--- a/mtex/parser.go
+++ b/mtex/parser.go
@@ -20,7 +20,12 @@ import (
 
 // Parse parses a LaTeX math expression and returns the TeX-like box model
 // and an error if any.
-func Parse(expr string, fontSize, DPI float64, backend font.Backend) (tex.Node, error) {
+func Parse(expr string, fontSize, DPI float64, backend font.Backend) (node tex.Node, err error) {
+	defer func() {
+		if e := recover(); e != nil {
+			node, err = nil, fmt.Errorf("mtex: could not typeset expression %q: %v", expr, e)
+		}
+	}()
 	p := newParser(backend)
 	return p.parse(expr, fontSize, DPI)
 }
diff --git a/parser.go b/parser.go
index 7cee11f..0b45b84 100644
--- a/parser.go
+++ b/parser.go
@@ -13,7 +13,12 @@ import (
 )
 
 // ParseExpr parses a simple LaTeX expression.
-func ParseExpr(x string) (ast.Node, error) {
+func ParseExpr(x string) (node ast.Node, err error) {
+	defer func() {
+		if e := recover(); e != nil {
+			node, err = nil, fmt.Errorf("latex: could not parse expression %q: %v", x, e)
+		}
+	}()
 	p := newParser(x)
 	return p.parse()
 }
-- 
2.43.0


From b04bebd12bd1f6b021d45a1f6df740672afd0a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:41 +0000
Subject: [PATCH 05/10] fix: reject groups that are never closed

A math expression, macro argument or brace group still open at the end of
the input was silently accepted, with a bogus closing position.
---
 parser.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/parser.go b/parser.go
index 0b45b84..4e34cb5 100644
--- a/parser.go
+++ b/parser.go
@@ -67,6 +67,15 @@ func (p *parser) next() token.Token {
 	return p.s.tok
 }
 
+// nextIn moves to the next token of a group closed by end.
+// It panics if the input stops before the group is closed.
+func (p *parser) nextIn(end string) bool {
+	if !p.s.Next() {
+		panic(fmt.Errorf("missing closing %q", end))
+	}
+	return true
+}
+
 func (p *parser) expect(v rune) {
 	p.next()
 	if p.s.tok.Text != string(v) {
@@ -150,7 +159,7 @@ func (p *parser) parseMathExpr(tok token.Token) ast.Node {
 	}
 
 loop:
-	for p.s.Next() {
+	for p.nextIn(end) {
 		switch p.s.tok.Text {
 		case end:
 			math.Right = p.s.tok.Pos
@@ -197,7 +206,7 @@ func (p *parser) parseMacroArg(macro *ast.Macro) {
 	arg.Lbrace = p.s.tok.Pos
 
 loop:
-	for p.s.Next() {
+	for p.nextIn("}") {
 		switch p.s.tok.Kind {
 		case token.Rbrace:
 			arg.Rbrace = p.s.tok.Pos
@@ -225,7 +234,7 @@ func (p *parser) parseOptMacroArg(macro *ast.Macro) {
 	opt.Lbrack = p.s.tok.Pos
 
 loop:
-	for p.s.Next() {
+	for p.nextIn("]") {
 		switch p.s.tok.Kind {
 		case token.Rbrack:
 			opt.Rbrack = p.s.tok.Pos
@@ -254,7 +263,7 @@ func (p *parser) parseSup(tok token.Token) ast.Node {
 		p.expect('{')
 		var list ast.List
 	loop:
-		for p.s.Next() {
+		for p.nextIn("}") {
 			switch p.s.tok.Kind {
 			case token.Rbrace:
 				break loop
@@ -284,7 +293,7 @@ func (p *parser) parseSub(tok token.Token) ast.Node {
 		p.expect('{')
 		var list ast.List
 	loop:
-		for p.s.Next() {
+		for p.nextIn("}") {
 			switch p.s.tok.Kind {
 			case token.Rbrace:
 				break loop
@@ -326,7 +335,7 @@ func (p *parser) parseMathLbrace(tok token.Token) ast.Node {
 	}
 
 loop:
-	for p.s.Next() {
+	for p.nextIn("}") {
 		switch p.s.tok.Kind {
 		case rdelim:
 			break loop
-- 
2.43.0


From 0d83e06844b4f085d310d1ca6664eada599dabdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:43 +0000
Subject: [PATCH 06/10] fix: skip blanks and comments before a sub- or
 superscript

A script separated from its mark by a blank or a comment was parsed as a
Sup or Sub with a nil Node, which crashes ast.Walk and Node.End.
---
 parser.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 4e34cb5..483e540 100644
--- a/parser.go
+++ b/parser.go
@@ -277,7 +277,10 @@ func (p *parser) parseSup(tok token.Token) ast.Node {
 		}
 		hat.Node = list
 	default:
-		hat.Node = p.parseNode(p.next())
+		// skip blanks and comments before the script.
+		for hat.Node == nil {
+			hat.Node = p.parseNode(p.next())
+		}
 	}
 
 	return hat
@@ -307,7 +310,10 @@ func (p *parser) parseSub(tok token.Token) ast.Node {
 		}
 		sub.Node = list
 	default:
-		sub.Node = p.parseNode(p.next())
+		// skip blanks and comments before the script.
+		for sub.Node == nil {
+			sub.Node = p.parseNode(p.next())
+		}
 	}
 
 	return sub
-- 
2.43.0


From 46c8e816de446431044dc8f1a5c51fc8b11d833d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:45 +0000
Subject: [PATCH 07/10] fix: tex: account for the shift of a list when packing
 vertically

As in TeX (node 670), a box shifted right inside a vertical list widens
the enclosing box by its shift.
---
 tex/box.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tex/box.go b/tex/box.go
index 5416b5b..c7c1e9b 100644
--- a/tex/box.go
+++ b/tex/box.go
@@ -450,7 +450,7 @@ func (lst *List) vpackDims(width, height, depth *float64, stretch, shrink []floa
 	if math.IsInf(lst.box.width, 0) {
 		return
 	}
-	*width = math.Max(*width, lst.box.width)
+	*width = math.Max(*width, lst.box.width+lst.shift)
 }
 
 // HList is a horizontal list of boxes.
-- 
2.43.0


From 05b60658ba961d1305ba1ea8e59308c216a455ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:02 +0000
Subject: [PATCH 08/10] fix: mtex: look at the dot itself when spacing decimal
 separators

The position of a dot was searched from the start of the expression, so
any earlier dot decided whether a decimal separator was followed by a space.
---
 mtex/parser.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mtex/parser.go b/mtex/parser.go
index b923c16..a0cb3f6 100644
--- a/mtex/parser.go
+++ b/mtex/parser.go
@@ -16,6 +16,7 @@ import (
 	"github.com/go-latex/latex/internal/tex2unicode"
 	"github.com/go-latex/latex/mtex/symbols"
 	"github.com/go-latex/latex/tex"
+	"github.com/go-latex/latex/token"
 )
 
 // Parse parses a LaTeX math expression and returns the TeX-like box model
@@ -96,8 +97,8 @@ func (v *visitor) Visit(n ast.Node) ast.Visitor {
 		v.nodes = append(v.nodes, tex.HListOf(nodes, true))
 	case *ast.Literal:
 		h := handlerFunc(handleSymbol)
-		for _, c := range n.Text {
-			n := &ast.Literal{Text: string(c)}
+		for i, c := range n.Text {
+			n := &ast.Literal{LitPos: n.LitPos + token.Pos(i), Text: string(c)}
 			v.nodes = append(v.nodes, h.Handle(v.p, n, v.state, v.math))
 		}
 
@@ -228,7 +229,6 @@ func handleSymbol(p *parser, node ast.Node, state tex.State, math bool) tex.Node
 	case symbols.PunctuationSymbols.Has(sym):
 		switch sym {
 		case ".":
-			pos := strings.Index(p.expr[pos:], sym)
 			if (pos > 0 && isdigit(p.expr[pos-1])) &&
 				(pos < len(p.expr)-1 && isdigit(p.expr[pos+1])) {
 				// do not space dots as decimal separators.
-- 
2.43.0


From 60b4fea732fd7eacf77e0d4b56e96d22c48bb485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:47 +0000
Subject: [PATCH 09/10] fix: do not skip blanks between a backslash and the
 macro name

---
 scanner.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scanner.go b/scanner.go
index d524ec1..d7dd6aa 100644
--- a/scanner.go
+++ b/scanner.go
@@ -161,7 +161,11 @@ func (s *texScanner) scanMacro() token.Token {
 		macro = new(strings.Builder)
 		pos   = s.pos()
 	)
+	// the name starts right after the backslash.
+	wsp := s.sc.Whitespace
+	s.sc.Whitespace = 0
 	s.next()
+	s.sc.Whitespace = wsp
 	macro.WriteString(`\` + s.sc.TokenText())
 
 	return token.Token{
-- 
2.43.0


From abd9acb6a00f4119a826079901b3927e54d80f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:50 +0000
Subject: [PATCH 10/10] fix: end a comment at its line even when it holds a
 quote

---
 scanner.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/scanner.go b/scanner.go
index d7dd6aa..a40d7b8 100644
--- a/scanner.go
+++ b/scanner.go
@@ -178,11 +178,13 @@ func (s *texScanner) scanMacro() token.Token {
 func (s *texScanner) scanComment() string {
 	comment := new(strings.Builder)
 	comment.WriteString("%")
-	wsp := s.sc.Whitespace
+	wsp, mode := s.sc.Whitespace, s.sc.Mode
 	defer func() {
-		s.sc.Whitespace = wsp
+		s.sc.Whitespace, s.sc.Mode = wsp, mode
 	}()
-	s.sc.Whitespace = 0
+	// read the line one character at a time: a comment has no tokens, and
+	// an unbalanced quote in it must not reach over its end.
+	s.sc.Whitespace, s.sc.Mode = 0, 0
 
 	for {
 		s.next()
-- 
2.43.0

