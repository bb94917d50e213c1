From 018dbc8a8bbbfb441be16363250dd46d93b2cf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:16 +0000
Subject: [PATCH 01/33] fix: ParseExpr returns an error instead of panicking on
 malformed input

---
 parser.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 7cee11f..f420caa 100644
--- a/parser.go
+++ b/parser.go
@@ -6,6 +6,7 @@ package latex // import "github.com/go-latex/latex"
 
 import (
 	"fmt"
+	"runtime"
 	"strings"
 
 	"github.com/go-latex/latex/ast"
@@ -13,7 +14,23 @@ import (
 )
 
 // ParseExpr parses a simple LaTeX expression.
-func ParseExpr(x string) (ast.Node, error) {
+// ParseExpr returns an error when the expression is malformed or when it uses
+// a construct that isn't supported.
+func ParseExpr(x string) (node ast.Node, err error) {
+	defer func() {
+		// the parser bails out by panicking: report that as an error.
+		switch e := recover().(type) {
+		case nil:
+			// no-op
+		case runtime.Error:
+			panic(e)
+		case error:
+			node, err = nil, fmt.Errorf("latex: %w", e)
+		default:
+			node, err = nil, fmt.Errorf("latex: %v", e)
+		}
+	}()
+
 	p := newParser(x)
 	return p.parse()
 }
@@ -165,7 +182,7 @@ loop:
 func (p *parser) parseMacro(tok token.Token) ast.Node {
 	name := tok.Text
 	macro, ok := p.macros[name]
-	if !ok {
+	if !ok || macro == nil {
 		panic("unknown macro " + name)
 		//return nil
 	}
-- 
2.43.0


From bb1151a548afab4c906b6de5e81a42fbf158182b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:39 +0000
Subject: [PATCH 02/33] fix: reject unterminated groups, arguments and math
 expressions

---
 parser.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/parser.go b/parser.go
index f420caa..85dbf7d 100644
--- a/parser.go
+++ b/parser.go
@@ -79,6 +79,13 @@ func (p *parser) next() token.Token {
 	return p.s.tok
 }
 
+// unterminated bails out if the input ended before the wanted delimiter.
+func (p *parser) unterminated(want string) {
+	if p.s.tok.Kind == token.EOF {
+		panic(fmt.Errorf("unexpected end of input, expected %q", want))
+	}
+}
+
 func (p *parser) expect(v rune) {
 	p.next()
 	if p.s.tok.Text != string(v) {
@@ -175,6 +182,7 @@ loop:
 			math.List = append(math.List, node)
 		}
 	}
+	p.unterminated(end)
 
 	return math
 }
@@ -222,6 +230,7 @@ loop:
 			arg.List = append(arg.List, node)
 		}
 	}
+	p.unterminated("}")
 	macro.Args = append(macro.Args, &arg)
 }
 
@@ -250,6 +259,7 @@ loop:
 			opt.List = append(opt.List, node)
 		}
 	}
+	p.unterminated("]")
 	macro.Args = append(macro.Args, &opt)
 }
 
@@ -278,6 +288,7 @@ func (p *parser) parseSup(tok token.Token) ast.Node {
 				list = append(list, node)
 			}
 		}
+		p.unterminated("}")
 		hat.Node = list
 	default:
 		hat.Node = p.parseNode(p.next())
@@ -308,6 +319,7 @@ func (p *parser) parseSub(tok token.Token) ast.Node {
 				list = append(list, node)
 			}
 		}
+		p.unterminated("}")
 		sub.Node = list
 	default:
 		sub.Node = p.parseNode(p.next())
@@ -350,5 +362,6 @@ loop:
 			lst = append(lst, node)
 		}
 	}
+	p.unterminated("}")
 	return lst
 }
-- 
2.43.0


From 137f60a2258e1b7638b7e5acb0e2d3255c49113e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 03/33] fix: allow spaces and comments before script and macro
 arguments

---
 parser.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/parser.go b/parser.go
index 85dbf7d..38ce1ab 100644
--- a/parser.go
+++ b/parser.go
@@ -211,8 +211,23 @@ func (p *parser) parseNumber(tok token.Token) ast.Node {
 	}
 }
 
+// skipSpaces skips spaces and comments up to the next significant token.
+func (p *parser) skipSpaces() {
+	for {
+		switch p.s.sc.Peek() {
+		case ' ', '\t', '\n', '\r':
+			p.s.sc.Next()
+		case '%':
+			p.s.Next()
+		default:
+			return
+		}
+	}
+}
+
 func (p *parser) parseMacroArg(macro *ast.Macro) {
 	var arg ast.Arg
+	p.skipSpaces()
 	p.expect('{')
 	arg.Lbrace = p.s.tok.Pos
 
@@ -235,6 +250,7 @@ loop:
 }
 
 func (p *parser) parseOptMacroArg(macro *ast.Macro) {
+	p.skipSpaces()
 	nxt := p.s.sc.Peek()
 	if nxt != '[' {
 		return
@@ -271,6 +287,7 @@ func (p *parser) parseSup(tok token.Token) ast.Node {
 		HatPos: tok.Pos,
 	}
 
+	p.skipSpaces()
 	switch next := p.s.sc.Peek(); next {
 	case '{':
 		p.expect('{')
@@ -302,6 +319,7 @@ func (p *parser) parseSub(tok token.Token) ast.Node {
 		UnderPos: tok.Pos,
 	}
 
+	p.skipSpaces()
 	switch next := p.s.sc.Peek(); next {
 	case '{':
 		p.expect('{')
-- 
2.43.0


From 88ad74e3bc79f2c638947fe0212674622b3720f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:22 +0000
Subject: [PATCH 04/33] fix: bound the nesting depth of expressions to avoid
 stack exhaustion

---
 parser.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/parser.go b/parser.go
index 38ce1ab..75b9480 100644
--- a/parser.go
+++ b/parser.go
@@ -42,9 +42,14 @@ const (
 	mathState
 )
 
+// maxDepth is the maximum nesting depth of an expression.
+// It bounds the recursion depth of everything that walks the parsed tree.
+const maxDepth = 1000
+
 type parser struct {
 	s     *texScanner
 	state state
+	depth int // current nesting depth
 
 	macros map[string]macroParser
 }
@@ -94,6 +99,12 @@ func (p *parser) expect(v rune) {
 }
 
 func (p *parser) parseNode(tok token.Token) ast.Node {
+	p.depth++
+	defer func() { p.depth-- }()
+	if p.depth > maxDepth {
+		panic(fmt.Errorf("expression nested too deeply (max depth: %d)", maxDepth))
+	}
+
 	switch tok.Kind {
 	case token.Comment:
 		return nil
-- 
2.43.0


From ff8dbe440e47b61c02e54e15a1dfc0551172b603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:23 +0000
Subject: [PATCH 05/33] fix: ast.Walk only visits non-nil children

---
 ast/walk.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/ast/walk.go b/ast/walk.go
index 7c95cb2..f33b152 100644
--- a/ast/walk.go
+++ b/ast/walk.go
@@ -25,9 +25,7 @@ func Walk(v Visitor, node Node) {
 
 	switch n := node.(type) {
 	case List:
-		for _, x := range n {
-			Walk(v, x)
-		}
+		walkNodes(v, n)
 
 	case *Macro:
 		if n.Name != nil {
@@ -51,10 +49,14 @@ func Walk(v Visitor, node Node) {
 		// nothing to do.
 
 	case *Sub:
-		Walk(v, n.Node)
+		if n.Node != nil {
+			Walk(v, n.Node)
+		}
 
 	case *Sup:
-		Walk(v, n.Node)
+		if n.Node != nil {
+			Walk(v, n.Node)
+		}
 
 	default:
 		panic(fmt.Errorf("unknown ast node %#v (type=%T)", n, n))
@@ -65,6 +67,9 @@ func Walk(v Visitor, node Node) {
 
 func walkNodes(v Visitor, nodes []Node) {
 	for _, x := range nodes {
+		if x == nil {
+			continue
+		}
 		Walk(v, x)
 	}
 }
-- 
2.43.0


From 2492bfbcf60ceef933735f2c14c6175b8a63a836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:24 +0000
Subject: [PATCH 06/33] fix: the End of arguments and math expressions is after
 their closing delimiter

---
 ast/ast.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index 4205a29..d06f9e0 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -67,7 +67,7 @@ type Arg struct {
 }
 
 func (x *Arg) Pos() token.Pos { return x.Lbrace }
-func (x *Arg) End() token.Pos { return x.Rbrace }
+func (x *Arg) End() token.Pos { return x.Rbrace + 1 }
 func (x *Arg) isNode()        {}
 
 // OptArg is an optional argument of a macro
@@ -80,7 +80,7 @@ type OptArg struct {
 }
 
 func (x *OptArg) Pos() token.Pos { return x.Lbrack }
-func (x *OptArg) End() token.Pos { return x.Rbrack }
+func (x *OptArg) End() token.Pos { return x.Rbrack + 1 }
 func (x *OptArg) isNode()        {}
 
 type Ident struct {
@@ -105,7 +105,7 @@ type MathExpr struct {
 
 func (x *MathExpr) isNode()        {}
 func (x *MathExpr) Pos() token.Pos { return x.Left }
-func (x *MathExpr) End() token.Pos { return x.Right }
+func (x *MathExpr) End() token.Pos { return x.Right + token.Pos(len(x.Delim)) }
 
 type Word struct {
 	WordPos token.Pos
-- 
2.43.0


From 42af84568b1d35fbd4d9f902ef2ad550387baca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:10 +0000
Subject: [PATCH 07/33] fix: backslash followed by a newline or a tab is a
 control space

---
 scanner.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scanner.go b/scanner.go
index d524ec1..9a5fa4f 100644
--- a/scanner.go
+++ b/scanner.go
@@ -61,8 +61,9 @@ func (s *texScanner) scan() token.Token {
 	case '\\':
 		nxt := s.sc.Peek()
 		switch nxt {
-		case ' ':
-			s.next()
+		case ' ', '\t', '\n', '\r':
+			// control space.
+			s.sc.Next()
 			return token.Token{
 				Kind: token.Space,
 				Pos:  pos,
-- 
2.43.0


From c173372e08d468bb90498c661cb8899144281226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:10 +0000
Subject: [PATCH 08/33] fix: do not drop control spaces in math mode

---
 parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser.go b/parser.go
index 75b9480..cae27a4 100644
--- a/parser.go
+++ b/parser.go
@@ -138,6 +138,9 @@ func (p *parser) parseNode(tok token.Token) ast.Node {
 			panic("not implemented: " + tok.String())
 		}
 	case token.Space:
+		if tok.Text == `\ ` {
+			return p.parseMacro(tok)
+		}
 		switch p.state {
 		case mathState:
 			return nil
-- 
2.43.0


From ef5520996224dbec924e502d55fda0a3541f1518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:33 +0000
Subject: [PATCH 09/33] fix: scan numbers as decimal numbers, not as Go number
 literals

---
 scanner.go | 40 +++++++++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/scanner.go b/scanner.go
index 9a5fa4f..ca85248 100644
--- a/scanner.go
+++ b/scanner.go
@@ -24,7 +24,7 @@ type texScanner struct {
 func newScanner(r io.Reader) *texScanner {
 	sc := &texScanner{}
 	sc.sc.Init(r)
-	sc.sc.Mode = (scanner.ScanIdents | scanner.ScanInts | scanner.ScanFloats)
+	sc.sc.Mode = scanner.ScanIdents
 	sc.sc.Mode |= scanner.ScanStrings
 	//scanner.ScanRawStrings)
 	//	sc.sc.Error = func(s *scanner.Scanner, msg string) {}
@@ -87,8 +87,22 @@ func (s *texScanner) scan() token.Token {
 			Text: line,
 		}
 
+	case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
+		return token.Token{
+			Kind: token.Number,
+			Pos:  pos,
+			Text: s.scanNumber(),
+		}
+
 	case '$', '_', '=', '<', '>', '^', '/', '*', '-', '+',
 		'!', '?', '\'', ':', ',', ';', '.':
+		if s.r == '.' && isDigit(s.sc.Peek()) {
+			return token.Token{
+				Kind: token.Number,
+				Pos:  pos,
+				Text: s.scanNumber(),
+			}
+		}
 		return token.Token{
 			Kind: token.Symbol,
 			Pos:  pos,
@@ -131,12 +145,6 @@ func (s *texScanner) scan() token.Token {
 			Pos:  pos,
 			Text: s.sc.TokenText(),
 		}
-	case scanner.Int, scanner.Float:
-		return token.Token{
-			Kind: token.Number,
-			Pos:  pos,
-			Text: s.sc.TokenText(),
-		}
 	case scanner.String, scanner.Char:
 		return token.Token{
 			Kind: token.Other,
@@ -172,6 +180,24 @@ func (s *texScanner) scanMacro() token.Token {
 	}
 }
 
+// scanNumber scans the remainder of a decimal number: an integer part
+// and a fractional part.
+func (s *texScanner) scanNumber() string {
+	num := new(strings.Builder)
+	num.WriteRune(s.r)
+	frac := s.r == '.'
+	for isDigit(s.sc.Peek()) || (!frac && s.sc.Peek() == '.') {
+		r := s.sc.Next()
+		frac = frac || r == '.'
+		num.WriteRune(r)
+	}
+	return num.String()
+}
+
+func isDigit(r rune) bool {
+	return '0' <= r && r <= '9'
+}
+
 func (s *texScanner) scanComment() string {
 	comment := new(strings.Builder)
 	comment.WriteString("%")
-- 
2.43.0


From d3344804d5d0339a46cdef47df3ac55286785664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:49 +0000
Subject: [PATCH 10/33] fix: do not print scanner errors on stderr

---
 scanner.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scanner.go b/scanner.go
index ca85248..6b4c893 100644
--- a/scanner.go
+++ b/scanner.go
@@ -27,7 +27,9 @@ func newScanner(r io.Reader) *texScanner {
 	sc.sc.Mode = scanner.ScanIdents
 	sc.sc.Mode |= scanner.ScanStrings
 	//scanner.ScanRawStrings)
-	//	sc.sc.Error = func(s *scanner.Scanner, msg string) {}
+	// invalid characters are reported by the scan method:
+	// do not let the scanner print errors to os.Stderr.
+	sc.sc.Error = func(s *scanner.Scanner, msg string) {}
 	sc.sc.IsIdentRune = func(ch rune, i int) bool {
 		return unicode.IsLetter(ch) //|| unicode.IsDigit(ch) && i > 0
 	}
-- 
2.43.0


From b897d7ef0774740ebc8f2a58ffa6cb9383155dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:15 +0000
Subject: [PATCH 11/33] fix: mtex.Parse returns an error instead of panicking
 on unsupported constructs

---
 mtex/parser.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/mtex/parser.go b/mtex/parser.go
index fd53aad..bb7cd02 100644
--- a/mtex/parser.go
+++ b/mtex/parser.go
@@ -7,6 +7,7 @@ package mtex
 import (
 	"fmt"
 	"math"
+	"runtime"
 	"strconv"
 	"strings"
 
@@ -20,7 +21,22 @@ import (
 
 // Parse parses a LaTeX math expression and returns the TeX-like box model
 // and an error if any.
-func Parse(expr string, fontSize, DPI float64, backend font.Backend) (tex.Node, error) {
+func Parse(expr string, fontSize, DPI float64, backend font.Backend) (node tex.Node, err error) {
+	defer func() {
+		// handlers and font backends bail out by panicking on unsupported
+		// constructs: report that as an error.
+		switch e := recover().(type) {
+		case nil:
+			// no-op
+		case runtime.Error:
+			panic(e)
+		case error:
+			node, err = nil, fmt.Errorf("could not layout latex expression %q: %w", expr, e)
+		default:
+			node, err = nil, fmt.Errorf("could not layout latex expression %q: %v", expr, e)
+		}
+	}()
+
 	p := newParser(backend)
 	return p.parse(expr, fontSize, DPI)
 }
-- 
2.43.0


From ec32a6f30e48d69ed77785a34d0b51fdc3f78a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:43 +0000
Subject: [PATCH 12/33] fix: layout the contents of groups in math expressions

---
 mtex/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtex/parser.go b/mtex/parser.go
index bb7cd02..c1c7197 100644
--- a/mtex/parser.go
+++ b/mtex/parser.go
@@ -119,7 +119,7 @@ func (v *visitor) Visit(n ast.Node) ast.Visitor {
 		v.state.Font.Type = rcparams("mathtext.default").(string)
 
 		for _, x := range n.List {
-			v.Visit(x)
+			ast.Walk(v, x)
 		}
 		v.math = oldm
 		v.state.Font.Type = oldt
-- 
2.43.0


From 94972d4dd1cc33510aea91003e7556807bee267b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:44 +0000
Subject: [PATCH 13/33] fix: layout the argument of functions taking one

---
 mtex/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mtex/parser.go b/mtex/parser.go
index c1c7197..38b4195 100644
--- a/mtex/parser.go
+++ b/mtex/parser.go
@@ -303,12 +303,16 @@ func handleCustomSpace(p *parser, node ast.Node, state tex.State, math bool) tex
 
 func handleFunction(p *parser, node ast.Node, state tex.State, math bool) tex.Node {
 	macro := node.(*ast.Macro)
+	argState := state
 	state.Font.Type = "rm"
 	fun := macro.Name.Name[1:] // drop leading `\`
 	nodes := make([]tex.Node, 0, len(fun))
 	for _, c := range fun {
 		nodes = append(nodes, tex.NewChar(string(c), state, math))
 	}
+	for _, arg := range macro.Args {
+		nodes = append(nodes, p.handleNode(arg.(*ast.Arg).List, argState, math))
+	}
 	return tex.HListOf(nodes, true)
 }
 
-- 
2.43.0


From 27ad06bd0628fb9cd55d18fd453cd035ab4f4ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:44 +0000
Subject: [PATCH 14/33] fix: layout all punctuation symbols

---
 mtex/parser.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/mtex/parser.go b/mtex/parser.go
index 38b4195..bb94840 100644
--- a/mtex/parser.go
+++ b/mtex/parser.go
@@ -245,12 +245,11 @@ func handleSymbol(p *parser, node ast.Node, state tex.State, math bool) tex.Node
 				// do not space dots as decimal separators.
 				return ch
 			}
-			return tex.HListOf([]tex.Node{
-				ch,
-				p.makeSpace(state, 0.2),
-			}, true)
 		}
-		panic("not implemented")
+		return tex.HListOf([]tex.Node{
+			ch,
+			p.makeSpace(state, 0.2),
+		}, true)
 	}
 	return ch
 }
-- 
2.43.0


From 511564e8c5fe31419b385d4d8869f7498a2543ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:33 +0000
Subject: [PATCH 15/33] fix: recognize decimal separators anywhere in an
 expression

---
 mtex/parser.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mtex/parser.go b/mtex/parser.go
index bb94840..43f36ee 100644
--- a/mtex/parser.go
+++ b/mtex/parser.go
@@ -17,6 +17,7 @@ import (
 	"github.com/go-latex/latex/internal/tex2unicode"
 	"github.com/go-latex/latex/mtex/symbols"
 	"github.com/go-latex/latex/tex"
+	"github.com/go-latex/latex/token"
 )
 
 // Parse parses a LaTeX math expression and returns the TeX-like box model
@@ -107,8 +108,8 @@ func (v *visitor) Visit(n ast.Node) ast.Visitor {
 		v.nodes = append(v.nodes, tex.HListOf(nodes, true))
 	case *ast.Literal:
 		h := handlerFunc(handleSymbol)
-		for _, c := range n.Text {
-			n := &ast.Literal{Text: string(c)}
+		for i, c := range n.Text {
+			n := &ast.Literal{LitPos: n.LitPos + token.Pos(i), Text: string(c)}
 			v.nodes = append(v.nodes, h.Handle(v.p, n, v.state, v.math))
 		}
 
@@ -239,7 +240,6 @@ func handleSymbol(p *parser, node ast.Node, state tex.State, math bool) tex.Node
 	case symbols.PunctuationSymbols.Has(sym):
 		switch sym {
 		case ".":
-			pos := strings.Index(p.expr[pos:], sym)
 			if (pos > 0 && isdigit(p.expr[pos-1])) &&
 				(pos < len(p.expr)-1 && isdigit(p.expr[pos+1])) {
 				// do not space dots as decimal separators.
-- 
2.43.0


From f4ae8c847241a71d9a2040db79d4b36ad69218c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:34 +0000
Subject: [PATCH 16/33] fix: do not space binary operators at the start of a
 math expression

---
 mtex/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mtex/parser.go b/mtex/parser.go
index 43f36ee..ee86c9e 100644
--- a/mtex/parser.go
+++ b/mtex/parser.go
@@ -224,8 +224,8 @@ func handleSymbol(p *parser, node ast.Node, state tex.State, math bool) tex.Node
 			prev = string(p.expr[i])
 		}
 		switch {
-		case symbols.BinaryOperators.Has(sym) && (len(strings.Split(p.expr[:pos], " ")) == 0 ||
-			prev == "{" ||
+		case symbols.BinaryOperators.Has(sym) && (prev == "" || prev == "{" ||
+			(prev == "$" && !strings.HasSuffix(p.expr[:i], `\`)) ||
 			symbols.LeftDelim.Has(prev)):
 			// binary operators at start of string should not be spaced
 			return ch
-- 
2.43.0


From efd94e994547858f249a5082b1601543f33b4fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:59 +0000
Subject: [PATCH 17/33] fix: skip all whitespace when looking for the context
 of an operator

---
 mtex/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtex/parser.go b/mtex/parser.go
index ee86c9e..b72e4d8 100644
--- a/mtex/parser.go
+++ b/mtex/parser.go
@@ -217,7 +217,7 @@ func handleSymbol(p *parser, node ast.Node, state tex.State, math bool) tex.Node
 	switch {
 	case symbols.IsSpaced(sym):
 		i := strings.LastIndexFunc(p.expr[:pos], func(r rune) bool {
-			return r != ' '
+			return !strings.ContainsRune(" \t\r\n", r)
 		})
 		prev := ""
 		if i >= 0 {
-- 
2.43.0


From 621a2ebf2c4b00f7bf995d5492c91b661e56df73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:52 +0000
Subject: [PATCH 18/33] fix: accept any single unicode character in math mode

---
 internal/tex2unicode/utf8.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tex2unicode/utf8.go b/internal/tex2unicode/utf8.go
index 9ce7822..56caef2 100644
--- a/internal/tex2unicode/utf8.go
+++ b/internal/tex2unicode/utf8.go
@@ -29,7 +29,7 @@ func Index(v string, math bool) rune {
 		return 0x2212
 	}
 
-	if len(v) == 1 {
+	if utf8.RuneCountInString(v) == 1 {
 		r, _ := utf8.DecodeRune([]byte(v))
 		if r != utf8.RuneError {
 			return r
-- 
2.43.0


From 68f8e74993cb4e07a51ed45f4dfb03bf8d953b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:53 +0000
Subject: [PATCH 19/33] fix: draw symbol macros as symbols in text mode

---
 mtex/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mtex/parser.go b/mtex/parser.go
index b72e4d8..0c51f25 100644
--- a/mtex/parser.go
+++ b/mtex/parser.go
@@ -204,6 +204,7 @@ func handleSymbol(p *parser, node ast.Node, state tex.State, math bool) tex.Node
 	switch node := node.(type) {
 	case *ast.Macro:
 		sym = node.Name.Name
+		math = true // always a named symbol, even in text mode.
 	case *ast.Symbol:
 		sym = node.Text
 	case *ast.Word:
-- 
2.43.0


From 19d667141cd83d272ce0c8bf610929cc37da1433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:54 +0000
Subject: [PATCH 20/33] fix: do not crash on the argument of hspace

---
 mtex/parser.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/mtex/parser.go b/mtex/parser.go
index 0c51f25..d05e522 100644
--- a/mtex/parser.go
+++ b/mtex/parser.go
@@ -293,7 +293,17 @@ func handleSpace(p *parser, node ast.Node, state tex.State, math bool) tex.Node
 
 func handleCustomSpace(p *parser, node ast.Node, state tex.State, math bool) tex.Node {
 	macro := node.(*ast.Macro)
-	arg := macro.Args[0].(*ast.Arg).List[0].(*ast.Literal).Text
+	arg := ""
+	for _, n := range macro.Args[0].(*ast.Arg).List {
+		switch n := n.(type) {
+		case *ast.Literal:
+			arg += n.Text
+		case *ast.Symbol:
+			arg += n.Text
+		default:
+			panic(fmt.Errorf("invalid customspace argument (%T)", n))
+		}
+	}
 	val, err := strconv.ParseFloat(arg, 64)
 	if err != nil {
 		panic(fmt.Errorf("could not parse customspace: %+v", err))
-- 
2.43.0


From ea141063fc1c902fc46ef1f1a8f0fb9ade0aaa51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:23 +0000
Subject: [PATCH 21/33] fix: leftbrace is a left curly bracket

---
 internal/tex2unicode/utf8.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tex2unicode/utf8.go b/internal/tex2unicode/utf8.go
index 56caef2..9fcfdef 100644
--- a/internal/tex2unicode/utf8.go
+++ b/internal/tex2unicode/utf8.go
@@ -607,7 +607,7 @@ var (
 		`bigoplus`:                 10753,
 		`leftangle`:                10216,
 		`rightangle`:               10217,
-		`leftbrace`:                124,
+		`leftbrace`:                123,
 		`rightbrace`:               125,
 		`jmath`:                    567,
 		`bigodot`:                  10752,
-- 
2.43.0


From bb781a0fd4567f7dbddfa1855bbd59cfd22b30c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:36 +0000
Subject: [PATCH 22/33] fix: lnapprox and gnapprox are less-than and
 greater-than signs

---
 internal/tex2unicode/utf8.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tex2unicode/utf8.go b/internal/tex2unicode/utf8.go
index 9fcfdef..df8fe87 100644
--- a/internal/tex2unicode/utf8.go
+++ b/internal/tex2unicode/utf8.go
@@ -87,8 +87,8 @@ var (
 		`succnapprox`:              0x2aba,
 		`subsetneqq`:               0x2acb,
 		`supsetneqq`:               0x2acc,
-		`lnapprox`:                 0x2ab9,
-		`gnapprox`:                 0x2aba,
+		`lnapprox`:                 0x2a89,
+		`gnapprox`:                 0x2a8a,
 		`longleftarrow`:            0x27f5,
 		`longrightarrow`:           0x27f6,
 		`longleftrightarrow`:       0x27f7,
-- 
2.43.0


From 623b4a3c5bed415d1147603d0826a003021a45a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:36 +0000
Subject: [PATCH 23/33] fix: boxes without depth take up space in vertical
 lists

---
 tex/box.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tex/box.go b/tex/box.go
index e433113..768d249 100644
--- a/tex/box.go
+++ b/tex/box.go
@@ -1151,8 +1151,8 @@ func (ship *Ship) vlistOut(box Tree) {
 				ruleWidth = box.Width()
 			}
 			ruleHeight += ruleDepth
-			if ruleHeight > 0 && ruleDepth > 0 {
-				ship.cur.v += ruleHeight
+			ship.cur.v += ruleHeight
+			if ruleHeight > 0 && ruleWidth > 0 {
 				type renderXYWH interface {
 					render(x, y, w, h float64)
 				}
-- 
2.43.0


From c137a87948b5e3873b9b34b76e45e9d785e03d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:37 +0000
Subject: [PATCH 24/33] fix: the x-height of a font is positive

---
 font/ttf/ttf.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/font/ttf/ttf.go b/font/ttf/ttf.go
index ef16811..65da790 100644
--- a/font/ttf/ttf.go
+++ b/font/ttf/ttf.go
@@ -8,6 +8,7 @@ package ttf // import "github.com/go-latex/latex/font/ttf"
 import (
 	"errors"
 	"fmt"
+	"math"
 	"unicode"
 
 	"github.com/go-latex/latex/drawtex"
@@ -188,7 +189,8 @@ func (be *Backend) XHeight(fnt font.Font, dpi float64) float64 {
 	}
 	defer face.Close()
 
-	return float64(-face.Metrics().XHeight) / 64
+	// the sign of the x-height depends on where sfnt found it.
+	return math.Abs(float64(face.Metrics().XHeight)) / 64
 }
 
 const (
-- 
2.43.0


From 78b9cc307888a76e7b3bd33d2876487ae836e308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:25 +0000
Subject: [PATCH 25/33] fix: kerning scales with the font size and only applies
 within a font

---
 font/ttf/ttf.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/font/ttf/ttf.go b/font/ttf/ttf.go
index 65da790..639650c 100644
--- a/font/ttf/ttf.go
+++ b/font/ttf/ttf.go
@@ -253,9 +253,12 @@ func (be *Backend) Kern(ft1 font.Font, sym1 string, ft2 font.Font, sym2 string,
 		const math = true
 		info1 := be.getInfo(sym1, ft1, dpi, math)
 		info2 := be.getInfo(sym2, ft2, dpi, math)
-		scale := fixed.Int26_6(info1.font.UnitsPerEm())
+		if info1.font != info2.font {
+			return 0
+		}
+		upem := fixed.Int26_6(info1.font.UnitsPerEm())
 		var buf sfnt.Buffer
-		k, err := info1.font.Kern(&buf, info1.glyph, info2.glyph, scale, hintingNone)
+		k, err := info1.font.Kern(&buf, info1.glyph, info2.glyph, upem, hintingNone)
 		if err != nil {
 			if errors.Is(err, sfnt.ErrNotFound) {
 				return 0
@@ -264,7 +267,7 @@ func (be *Backend) Kern(ft1 font.Font, sym1 string, ft2 font.Font, sym2 string,
 				sym1, sym2, err,
 			))
 		}
-		return float64(k) / 64
+		return float64(k) / float64(upem) * ft1.Size
 	}
 	return 0
 }
-- 
2.43.0


From 92fba0a6500416c8747f8b1df5512ee04a9a6c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:26 +0000
Subject: [PATCH 26/33] fix: drawimg returns an error for images of negative
 size

---
 drawtex/drawimg/drawimg.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/drawtex/drawimg/drawimg.go b/drawtex/drawimg/drawimg.go
index ba57410..e2d97b0 100644
--- a/drawtex/drawimg/drawimg.go
+++ b/drawtex/drawimg/drawimg.go
@@ -31,10 +31,13 @@ func NewRenderer(w io.Writer) *Renderer {
 
 func (r *Renderer) Render(width, height, dpi float64, c *drawtex.Canvas) error {
 	var (
-		w   = width * dpi
-		h   = height * dpi
-		ctx = gg.NewContext(int(math.Ceil(w)), int(math.Ceil(h)))
+		w = width * dpi
+		h = height * dpi
 	)
+	if !(w >= 0 && h >= 0) {
+		return fmt.Errorf("drawimg: invalid image size (w=%g, h=%g)", w, h)
+	}
+	ctx := gg.NewContext(int(math.Ceil(w)), int(math.Ceil(h)))
 	// log.Printf("write: w=%g, h=%g", w, h)
 
 	if false {
-- 
2.43.0


From 6e6466bff807b44d4370e275207553d9320905eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:20 +0000
Subject: [PATCH 27/33] fix: a quote in a comment swallowed the following line

---
 scanner.go | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/scanner.go b/scanner.go
index 6b4c893..4459ded 100644
--- a/scanner.go
+++ b/scanner.go
@@ -203,21 +203,16 @@ func isDigit(r rune) bool {
 func (s *texScanner) scanComment() string {
 	comment := new(strings.Builder)
 	comment.WriteString("%")
-	wsp := s.sc.Whitespace
-	defer func() {
-		s.sc.Whitespace = wsp
-	}()
-	s.sc.Whitespace = 0
-
 	for {
-		s.next()
-		if s.r == '\r' {
+		// read raw characters: a quote doesn't start a string in a comment.
+		r := s.sc.Next()
+		if r == '\r' {
 			continue
 		}
-		if s.r == '\n' || s.r == scanner.EOF {
+		if r == '\n' || r == scanner.EOF {
 			break
 		}
-		comment.WriteString(s.sc.TokenText())
+		comment.WriteRune(r)
 	}
 	return comment.String()
 }
-- 
2.43.0


From 15941985b0a27c0f3f82a58718990dee6b5ea136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:51 +0000
Subject: [PATCH 28/33] fix: a comment before an operator hid that it opens the
 expression

---
 mtex/parser.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/mtex/parser.go b/mtex/parser.go
index d05e522..3f913ea 100644
--- a/mtex/parser.go
+++ b/mtex/parser.go
@@ -60,7 +60,7 @@ func newParser(be font.Backend) *parser {
 }
 
 func (p *parser) parse(x string, size, dpi float64) (tex.Node, error) {
-	p.expr = x
+	p.expr = blankComments(x)
 	node, err := latex.ParseExpr(x)
 	if err != nil {
 		return nil, fmt.Errorf("could not parse latex expression %q: %w", x, err)
@@ -594,6 +594,22 @@ func rcparams(k string) interface{} {
 	}
 }
 
+// blankComments replaces the comments of a LaTeX expression with spaces.
+func blankComments(x string) string {
+	buf := []byte(x)
+	for i := 0; i < len(buf); i++ {
+		switch buf[i] {
+		case '\\':
+			i++ // not a comment if followed by '%'.
+		case '%':
+			for ; i < len(buf) && buf[i] != '\n'; i++ {
+				buf[i] = ' '
+			}
+		}
+	}
+	return string(buf)
+}
+
 func isdigit(v byte) bool {
 	switch v {
 	case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
-- 
2.43.0


From 9554a23f31ce6ca8112c4bd9ffc37a122657d8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:02 +0000
Subject: [PATCH 29/33] fix: no nil dereference in the ttf backend for NaN
 sizes or resolutions

---
 font/ttf/ttf.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/font/ttf/ttf.go b/font/ttf/ttf.go
index 639650c..1a6c0ae 100644
--- a/font/ttf/ttf.go
+++ b/font/ttf/ttf.go
@@ -161,7 +161,7 @@ func (be *Backend) getInfo(symbol string, fnt font.Font, dpi float64, math bool)
 		Slanted: slanted,
 	}
 
-	be.glyphs[key] = ttfVal{
+	val = ttfVal{
 		font:       ft,
 		size:       fnt.Size,
 		postscript: postscript,
@@ -171,7 +171,8 @@ func (be *Backend) getInfo(symbol string, fnt font.Font, dpi float64, math bool)
 		glyph:      idx,
 		offset:     offset,
 	}
-	return be.glyphs[key]
+	be.glyphs[key] = val
+	return val
 }
 
 // XHeight returns the xheight for the given font and dpi.
-- 
2.43.0


From 8996c79b79d54a9a5d244b21523de60af91e63f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:45 +0000
Subject: [PATCH 30/33] fix: the advance of wide glyphs overflowed

---
 font/ttf/ttf.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/font/ttf/ttf.go b/font/ttf/ttf.go
index 1a6c0ae..ec0d3df 100644
--- a/font/ttf/ttf.go
+++ b/font/ttf/ttf.go
@@ -112,7 +112,8 @@ func (be *Backend) getInfo(symbol string, fnt font.Font, dpi float64, math bool)
 		panic(fmt.Errorf("could not retrieve glyph name of %q: %+v", rn, err))
 	}
 
-	var ppem = int(ft.UnitsPerEm() * 6)
+	// font units: a larger scale overflows for wide glyphs.
+	var ppem = int(ft.UnitsPerEm())
 	_, err = ft.LoadGlyph(&buf, idx, fixed.I(ppem), nil)
 	if err != nil {
 		panic(fmt.Errorf("could not load glyph %q: %+v", rn, err))
@@ -150,7 +151,7 @@ func (be *Backend) getInfo(symbol string, fnt font.Font, dpi float64, math bool)
 	}
 
 	me := font.Metrics{
-		Advance: float64(adv) / 65536 * fnt.Size / 12,
+		Advance: float64(adv) * 6 / 65536 * fnt.Size / 12,
 		Height:  height,
 		Width:   width,
 		XMin:    xmin,
-- 
2.43.0


From a7c10f7c7182576751a71ef8a0bd95c8e97586cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:54 +0000
Subject: [PATCH 31/33] fix: drawimg reports an error for infinite image sizes

---
 drawtex/drawimg/drawimg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drawtex/drawimg/drawimg.go b/drawtex/drawimg/drawimg.go
index e2d97b0..7e68218 100644
--- a/drawtex/drawimg/drawimg.go
+++ b/drawtex/drawimg/drawimg.go
@@ -34,7 +34,7 @@ func (r *Renderer) Render(width, height, dpi float64, c *drawtex.Canvas) error {
 		w = width * dpi
 		h = height * dpi
 	)
-	if !(w >= 0 && h >= 0) {
+	if !(w >= 0 && h >= 0) || math.IsInf(w, 0) || math.IsInf(h, 0) {
 		return fmt.Errorf("drawimg: invalid image size (w=%g, h=%g)", w, h)
 	}
 	ctx := gg.NewContext(int(math.Ceil(w)), int(math.Ceil(h)))
-- 
2.43.0


From 1b93ab37fe5841261b6a5158384bb22a1a2ef65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:32 +0000
Subject: [PATCH 32/33] fix: drawimg: report images too large to exist instead
 of crashing

---
 drawtex/drawimg/drawimg.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/drawtex/drawimg/drawimg.go b/drawtex/drawimg/drawimg.go
index 7e68218..cdd56e2 100644
--- a/drawtex/drawimg/drawimg.go
+++ b/drawtex/drawimg/drawimg.go
@@ -21,6 +21,11 @@ import (
 	"golang.org/x/image/font/opentype"
 )
 
+const (
+	maxSide = math.MaxUint32 // largest width and height of a PNG image, in pixels.
+	maxArea = 1 << 40        // more pixels than any memory can hold.
+)
+
 type Renderer struct {
 	w io.Writer
 }
@@ -37,6 +42,9 @@ func (r *Renderer) Render(width, height, dpi float64, c *drawtex.Canvas) error {
 	if !(w >= 0 && h >= 0) || math.IsInf(w, 0) || math.IsInf(h, 0) {
 		return fmt.Errorf("drawimg: invalid image size (w=%g, h=%g)", w, h)
 	}
+	if w > maxSide || h > maxSide || w*h > maxArea {
+		return fmt.Errorf("drawimg: image too large (w=%g, h=%g)", w, h)
+	}
 	ctx := gg.NewContext(int(math.Ceil(w)), int(math.Ceil(h)))
 	// log.Printf("write: w=%g, h=%g", w, h)
 
-- 
2.43.0


From 5577f44f91101edd4d2174739e143a9cd77f5f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:00 +0000
Subject: [PATCH 33/33] fix: drawimg: clip rules to the image

The rasterizer folds the ink beyond the top and left edges onto the
pixels along these edges: a rule that sticks out by a fraction of a
pixel darkened them too much.
---
 drawtex/drawimg/drawimg.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/drawtex/drawimg/drawimg.go b/drawtex/drawimg/drawimg.go
index cdd56e2..503af0d 100644
--- a/drawtex/drawimg/drawimg.go
+++ b/drawtex/drawimg/drawimg.go
@@ -95,6 +95,13 @@ func drawGlyph(ctx *gg.Context, dpi float64, op drawtex.GlyphOp) {
 
 func drawRect(ctx *gg.Context, dpi float64, op drawtex.RectOp) {
 	dpi /= 72
+	// the rasterizer moves what lies beyond the edges of the image onto them.
+	if dpi > 0 {
+		w := float64(ctx.Width()) / dpi
+		h := float64(ctx.Height()) / dpi
+		op.X1, op.X2 = clamp(op.X1, w), clamp(op.X2, w)
+		op.Y1, op.Y2 = clamp(op.Y1, h), clamp(op.Y2, h)
+	}
 	ctx.NewSubPath()
 	ctx.MoveTo(op.X1*dpi, op.Y1*dpi)
 	ctx.LineTo(op.X2*dpi, op.Y1*dpi)
@@ -106,6 +113,11 @@ func drawRect(ctx *gg.Context, dpi float64, op drawtex.RectOp) {
 	//	log.Printf("draw-rect: pt1=(%g, %g) -> (%g, %g)", op.X1, op.Y1, op.X2, op.Y2)
 }
 
+// clamp limits v to the range [0, max].
+func clamp(v, max float64) float64 {
+	return math.Max(0, math.Min(v, max))
+}
+
 var (
 	_ mtex.Renderer = (*Renderer)(nil)
 )
-- 
2.43.0

