import sys; sys.path.insert(0,'/tmp/plant')
from lib import go
BUGS=[]
def bug(id,prop,edits,needs,breaks,demo=None,race=False,shs=None):
    b=dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,race=race)
    if shs: b['sh']=shs
    else: b['demo']=demo
    BUGS.append(b)

# ---- C01
bug('c01-expect-eof','C01',[('parser.go','	if p.s.tok.Text != string(v) {','	if p.s.tok.Text[:1] != string(v) {')],
 'an input that ends right where a mandatory argument has to open','ParseExpr dies with a runtime panic instead of returning an error',
 go('latex','''	defer func() {
		if e := recover(); e != nil {
			fail("panic: %v", e)
		}
	}()
	for _, x := range []string{`$\\frac{a}`, `\\sqrt`, `x\\sqrt[3] `} {
		n, err := latex.ParseExpr(x)
		if err == nil || n != nil {
			fail("%q: %v %v", x, n, err)
		}
	}'''))
# ---- C02
bug('c02-nested-math-state','C02',[('parser.go','''		p.state = state
	}()''','''		p.state = normalState
	}()'''),('parser.go','''	state := p.state
	p.state = mathState
''','''	p.state = mathState
''')],
 'a math expression nested in an argument inside of math, followed by a space or a group','after a nested math expression the parser thinks it is in text: spaces become symbols, groups are rejected',
 go('latex ast strings','''	for _, x := range []string{`$\\overline{$a$} b$`, `$\\sqrt{$a$ {c}}$`} {
		n, err := latex.ParseExpr(x)
		if err != nil {
			fail("%q: %v", x, err)
		}
		o := new(strings.Builder)
		ast.Print(o, n)
		if strings.Contains(o.String(), `" "`) {
			fail("%q: space in math: %s", x, o)
		}
	}'''))
bug('c02-prime-in-word','C02',[('scanner.go','''		return unicode.IsLetter(ch) //|| unicode.IsDigit(ch) && i > 0''','''		return unicode.IsLetter(ch) || (ch == '\\'' && i > 0)''')],
 'a prime directly behind a letter or a macro name','the prime is merged into the word or into the name of the macro',
 go('latex ast strings','''	for x, want := range map[string]string{`$f'(x)$`: `ast.Word{"f"}, ast.Symbol{"'"}`, `$\\beta'$`: `ast.Macro{"\\\\beta"}, ast.Symbol{"'"}`} {
		n, err := latex.ParseExpr(x)
		if err != nil {
			fail("%q: %v", x, err)
		}
		o := new(strings.Builder)
		ast.Print(o, n)
		if !strings.Contains(o.String(), want) {
			fail("%q: got %s", x, o)
		}
	}'''))
# ---- C03
bug('c03-optarg-closed-by-brace','C03',[('parser.go','		case token.Rbrack:','		case token.Rbrack, token.Rbrace:')],
 'an optional argument whose bracket is missing, inside of braces or followed by one','\\sqrt[3}{x} is accepted as if it were \\sqrt[3]{x}',
 go('latex','''	for _, x := range []string{`$\\sqrt[3}{x}$`, `\\sqrt[a+b}{x}`} {
		n, err := latex.ParseExpr(x)
		if err == nil {
			fail("%q accepted: %v", x, n)
		}
	}'''))
bug('c03-stray-rbrace','C03',[('parser.go','''	case token.Lparen, token.Rparen,
		token.Lbrack, token.Rbrack:''','''	case token.Lparen, token.Rparen,
		token.Lbrack, token.Rbrack, token.Rbrace:''')],
 'a closing brace without opening one','an unbalanced brace is silently accepted as a symbol',
 go('latex','''	for _, x := range []string{`$a}$`, `a}`, `$\\sqrt[}]{x}$`} {
		n, err := latex.ParseExpr(x)
		if err == nil {
			fail("%q accepted: %v", x, n)
		}
	}'''))
bug('c03-math-ends-in-group','C03',[('parser.go','''			panic("not implemented")
		}
	case token.Other:''','''			if p.depth > 1 {
				return p.parseMathLbrace(tok)
			}
			panic("not implemented")
		}
	case token.Other:''')],'x','x','')
BUGS.pop()
# ---- C04
bug('c04-column-position','C04',[('scanner.go','	return token.Pos(s.sc.Position.Offset)','	return token.Pos(s.sc.Position.Column - 1)')],
 'a node behind a line break or a multi-byte character','positions are columns in characters instead of byte offsets',
 go('latex ast strings','''	for _, x := range []string{"$a\\n+b$", "é+b", "a%c\\n+b"} {
		n, err := latex.ParseExpr(x)
		if err != nil {
			fail("%q: %v", x, err)
		}
		ast.Inspect(n, func(n ast.Node) bool {
			if n, ok := n.(*ast.Symbol); ok && !strings.HasPrefix(x[n.Pos():], n.Text) {
				fail("%q: %q at %d", x, n.Text, n.Pos())
			}
			return true
		})
	}'''))
bug('c04-word-end-runes','C04',[('ast/ast.go','func (x *Word) End() token.Pos { return token.Pos(int(x.WordPos) + len(x.Text)) }','func (x *Word) End() token.Pos { return token.Pos(int(x.WordPos) + utf8.RuneCountInString(x.Text)) }'),
 ('ast/ast.go','''	"io"

''','''	"io"
	"unicode/utf8"

''')],
 'a word with multi-byte letters','the end of a word counts characters instead of bytes',
 go('latex ast','''	x := "$h\\u00e9l\\u00e9$"
	n, err := latex.ParseExpr(x)
	if err != nil {
		fail("%q: %v", x, err)
	}
	ast.Inspect(n, func(n ast.Node) bool {
		if n, ok := n.(*ast.Word); ok && x[n.Pos():n.End()] != n.Text {
			fail("%q: %q", n.Text, x[n.Pos():n.End()])
		}
		return true
	})'''))
bug('c04-macro-end-first-arg','C04',[('ast/ast.go','		return x.Args[len(x.Args)-1].End()','		return x.Args[0].End()')],
 'a macro with more than one argument','the end of \\frac{a}{b} is the end of its numerator',
 go('latex','''	for _, x := range []string{`\\frac{a}{b}`, `\\sqrt[3]{x}`} {
		n, err := latex.ParseExpr(x)
		if err != nil {
			fail("%q: %v", x, err)
		}
		if int(n.End()) != len(x) {
			fail("%q: end %d", x, n.End())
		}
	}'''))
# ---- C05
bug('c05-crlf','C05',[('scanner.go',"	sc.sc.Whitespace = 1<<'\\t' | 1<<'\\n' | 1<<'\\r'","	sc.sc.Whitespace = 1<<'\\t' | 1<<'\\n'")],
 'an expression with CRLF line ends','a carriage return is an error instead of a space',
 go('latex','''	for _, x := range []string{"$a +\\r\\n b$", "$\\\\sqrt\\r\\n{x}$", "$a\\r$"} {
		_, err := latex.ParseExpr(x)
		if err != nil {
			fail("%q: %v", x, err)
		}
	}'''))
# ---- C06
bug('c06-leaf-nil','C06',[('ast/walk.go','''	case *Word, *Literal, *Symbol:
		// nothing to do.
''','''	case *Word, *Literal, *Symbol:
		// leaves do not have children.
		return
''')],
 'a visitor that counts on the closing Visit(nil) of each node it entered','leaves do not get the closing call',
 go('latex ast','''	n, err := latex.ParseExpr(`$\\frac{a}{2}+x$`)
	if err != nil {
		fail("%v", err)
	}
	depth := 0
	ast.Inspect(n, func(n ast.Node) bool {
		if n == nil {
			depth--
		} else {
			depth++
		}
		return true
	})
	if depth != 0 {
		fail("unbalanced calls: %d", depth)
	}'''))
bug('c06-ident-visitor','C06',[('ast/walk.go','''	if v = v.Visit(node); v == nil {
		return
	}
''','''	parent := v
	if v = v.Visit(node); v == nil {
		return
	}
'''),('ast/walk.go','''			Walk(v, n.Name)''','''			Walk(parent, n.Name)''')],
 'a visitor that returns another visitor for the children of a macro','the name of a macro is visited with the visitor of its parent',
 go('latex ast strings','''	n, err := latex.ParseExpr(`$\\frac{a}{2}+\\alpha$`)
	if err != nil {
		fail("%v", err)
	}
	ast.Walk(level(0), n)
	if got := strings.Join(out, " "); !strings.Contains(got, "*ast.Macro:2 *ast.Ident:3") {
		fail("%s", got)
	}
}

var out []string

type level int

func (l level) Visit(n ast.Node) ast.Visitor {
	if n != nil {
		out = append(out, fmt.Sprintf("%T:%d", n, int(l)))
	}
	return l + 1'''))
# ---- C07
bug('c07-format-string','C07',[('ast/ast.go','		fmt.Fprintf(o, "ast.Symbol{%q}", node.Text)','		fmt.Fprintf(o, "ast.Symbol{\\""+node.Text+"\\"}")')],
 'a symbol with a quote, a backslash or a percent sign in its text','the text of such symbols is not recoverable from the output; different trees print alike',
 go('ast strings','''	p := func(n ast.Node) string {
		o := new(strings.Builder)
		ast.Print(o, n)
		return o.String()
	}
	a := p(ast.List{&ast.Symbol{Text: "+\\"}, ast.Symbol{\\"-"}})
	b := p(ast.List{&ast.Symbol{Text: "+"}, &ast.Symbol{Text: "-"}})
	if a == b {
		fail("same output: %s", a)
	}
	if p(&ast.Symbol{Text: "%d"}) != `ast.Symbol{"%d"}` {
		fail("%s", p(&ast.Symbol{Text: "%d"}))
	}'''))
bug('c07-single-list','C07',[('ast/ast.go','''	case List:
		fmt.Fprintf(o, "ast.List{")''','''	case List:
		for len(node) == 1 {
			sub, ok := node[0].(List)
			if !ok {
				break
			}
			node = sub
		}
		fmt.Fprint(o, "ast.List{")''')],
 'a group whose only content is another group','{{a}} and {a} print alike',
 go('latex ast strings','''	p := func(x string) string {
		n, err := latex.ParseExpr(x)
		if err != nil {
			fail("%v", err)
		}
		o := new(strings.Builder)
		ast.Print(o, n)
		return o.String()
	}
	if a, b := p("${{a}}$"), p("${a}$"); a == b {
		fail("same output: %s", a)
	}'''))
# ---- C08
bug('c08-vpack-excess','C08',[('tex/box.go','''		x += d - l
		lst.lst.box.depth = l''','''		lst.lst.box.depth = l''')],
 'a vertical list packed with a maximum depth smaller than the depth of its last item','the excess depth is lost instead of going to the height',
 go('tex','''	l := tex.VListOf([]tex.Node{tex.VBox(3, 8)})
	l.VPack(0, true, 2)
	if l.Height() != 9 || l.Depth() != 2 {
		fail("h=%g d=%g", l.Height(), l.Depth())
	}'''))
bug('c08-alias','C08',[('tex/box.go','''	list := &List{children: make([]Node, len(elements))}
	copy(list.children, elements)
	return list''','''	return &List{children: elements}''')],
 'a caller that changes its slice after building an unkerned or vertical list','the list keeps hold of the slice of the caller',
 go('tex','''	s := []tex.Node{tex.VBox(3, 1), tex.VBox(4, 1)}
	l := tex.VListOf(s)
	s[0] = tex.VBox(100, 0)
	l.VPack(0, true, 10)
	if l.Height() != 8 {
		fail("h=%g", l.Height())
	}'''))
bug('c08-vkern-depth','C08',[('tex/box.go','''func (k *Kern) vpackDims(width, height, depth *float64, stretch, shrink []float64) {
	*height += *depth + k.width
	*depth = 0''','''func (k *Kern) vpackDims(width, height, depth *float64, stretch, shrink []float64) {
	*height += k.width
	*depth = math.Max(*depth, 0)''')],
 'a kern behind an item with depth in a vertical list','the depth of the item before the kern is counted as depth of the list (or not at all)',
 go('tex','''	l := tex.VListOf([]tex.Node{tex.VBox(3, 2), tex.NewKern(5), tex.VBox(1, 1)})
	if l.Height() != 11 || l.Depth() != 1 {
		fail("h=%g d=%g", l.Height(), l.Depth())
	}
	l = tex.VListOf([]tex.Node{tex.VBox(3, 2), tex.NewKern(5)})
	if l.Height() != 10 || l.Depth() != 0 {
		fail("h=%g d=%g", l.Height(), l.Depth())
	}'''))
# ---- C09
bug('c09-repack-stale-glue','C09',[('tex/box.go','''	switch {
	case x == 0:
		lst.lst.glue.sign = 0
		lst.lst.glue.order = 0
		lst.lst.glue.ratio = 0
	case x > 0:
		lst.lst.setGlue(x, 1, totStretch, "overfull", "HList")''','''	switch {
	case x == 0:
		lst.lst.glue.ratio = 0
	case x > 0:
		lst.lst.setGlue(x, 1, totStretch, "overfull", "HList")''')],
 'a horizontal list packed to another size first and to its natural size afterwards','the glue setting of the first packing is still in effect',
 go('','''	b := &be{}
	c := func() tex.Node { return tex.NewChar("x", st(b), true) }
	l := tex.HListOf([]tex.Node{c(), tex.NewGlue("fil"), c()}, false)
	l.HPack(100, false)
	l.HPack(0, true)
	var sh tex.Ship
	sh.Call(0, 0, l)
	if b.ops[1] != "x 10.000 7.500 10.000" {
		fail("%q", b.ops)
	}''',be=True))
bug('c09-shrink-wrong-order','C09',[('tex/box.go','''				case node.shrinkOrder == glueOrder: // shrinking
''','''				case node.stretchOrder == glueOrder: // shrinking
''')],
 'a list shrunk by glue that only shrinks (neg_fil and the like)','such glue does not take up the excess width',
 go('','''	b := &be{}
	c := func() tex.Node { return tex.NewChar("x", st(b), true) }
	l := tex.HListOf([]tex.Node{c(), tex.NewGlue("neg_fil"), c()}, false)
	l.HPack(12, false)
	var sh tex.Ship
	sh.Call(0, 0, l)
	if b.ops[1] != "x 2.000 7.500 10.000" {
		fail("%q", b.ops)
	}''',be=True))
bug('c09-filll-ignored','C09',[('tex/box.go','	for i := len(totals) - 1; i >= 0; i-- {','	for i := len(totals) - 2; i >= 0; i-- {')],
 'glue of the third order of infinity','filll glue does not stretch',
 go('','''	b := &be{}
	c := func() tex.Node { return tex.NewChar("x", st(b), true) }
	l := tex.HListOf([]tex.Node{c(), tex.NewGlue("filll"), c(), tex.NewGlue("fil"), c()}, false)
	l.HPack(60, false)
	var sh tex.Ship
	sh.Call(0, 0, l)
	if b.ops[1] != "x 40.000 7.500 10.000" {
		fail("%q", b.ops)
	}''',be=True))
bug('c09-rounding-drift','C09',[('tex/box.go','''			ruleWidth := node.width - float64(curG)
			if glueSign != 0 { // normal
				switch {
				case glueSign == 1: // stretching
					if node.stretchOrder == glueOrder {
						curGlue += node.stretch
						curG =''','''			ruleWidth := node.width
			if glueSign != 0 { // normal
				switch {
				case glueSign == 1: // stretching
					if node.stretchOrder == glueOrder {
						curGlue = node.stretch
						curG ='''),('tex/box.go','''				case node.shrinkOrder == glueOrder: // shrinking
					curGlue += node.shrink
''','''				case node.shrinkOrder == glueOrder: // shrinking
					curGlue = node.shrink
''')],
 'a stretched list with many pieces of glue, the share of each not being a whole number','each piece is rounded on its own: the errors add up',
 go('','''	b := &be{}
	var ns []tex.Node
	for i := 0; i < 20; i++ {
		ns = append(ns, tex.NewChar("x", st(b), true), tex.NewGlue("fil"))
	}
	ns = append(ns, tex.NewChar("x", st(b), true))
	l := tex.HListOf(ns, false)
	l.HPack(210+29, false)
	var sh tex.Ship
	sh.Call(0, 0, l)
	if b.ops[20] != "x 229.000 7.500 10.000" {
		fail("%q", b.ops[20])
	}''',be=True))
# ---- C10
bug('c10-grow-shift','C10',[('tex/box.go','''	lst.box.Grow()
	lst.shift *= growFactor
''','''	lst.box.Grow()
''')],
 'growing a shifted list','the shift keeps its old value',
 go('','''	b := &be{}
	v := tex.VListOf([]tex.Node{tex.HListOf([]tex.Node{tex.NewChar("x", st(b), true)}, false)})
	v.SetShift(7)
	l := tex.HListOf([]tex.Node{v, tex.NewChar("y", st(b), true)}, false)
	l.Shrink()
	l.Grow()
	var sh tex.Ship
	sh.Call(0, 0, l)
	if b.ops[0] != "x 0.000 14.500 10.000" {
		fail("%q", b.ops)
	}''',be=True))
bug('c10-accent-metrics','C10',[('tex/box.go','''	acc.char.Shrink()
	acc.updateMetrics()''','''	acc.char.Shrink()''')],
 'an accent in a shrunk list','the accent is drawn at the offset of its unshrunk size',
 go('','''	b := &be{}
	l := tex.HListOf([]tex.Node{tex.NewAccent("^", st(b), true)}, false)
	l.Shrink()
	var sh tex.Ship
	sh.Call(0, 0, l)
	if b.ops[0] != "^ -1.750 5.250 7.000" {
		fail("%q h=%g", b.ops, l.Height())
	}''',be=True))
bug('c10-shrink-glueset','C10',[('tex/box.go','''		lst.shift *= shrinkFactor
		lst.glue.set *= shrinkFactor''','''		lst.shift *= shrinkFactor
		if lst.glue.sign > 0 {
			lst.glue.set *= shrinkFactor
		}''')],
 'shrinking a list whose glue is set to shrink','the glue takes away the unscaled excess: the items are misplaced',
 go('','''	b := &be{}
	c := func() tex.Node { return tex.NewChar("x", st(b), true) }
	l := tex.HListOf([]tex.Node{c(), c(), tex.NewGlue("neg_fil"), c()}, false)
	l.HPack(10, false)
	l.Shrink()
	var sh tex.Ship
	sh.Call(0, 0, l)
	if b.ops[2] != "x 0.000 5.250 7.000" {
		fail("%q", b.ops)
	}''',be=True))
# ---- C11
bug('c11-ship-reuse','C11',[('tex/box.go','''	ship.cur.v = 0
	ship.cur.h = 0
''','''	ship.cur.v = 0
''')],
 'a Ship value that is used for a second box','the second box is drawn to the right of the first one',
 go('','''	b := &be{}
	l := tex.HListOf([]tex.Node{tex.NewChar("x", st(b), true)}, false)
	var sh tex.Ship
	sh.Call(0, 0, l)
	sh.Call(0, 0, l)
	if b.ops[0] != b.ops[1] {
		fail("%q", b.ops)
	}''',be=True))
bug('c11-vlist-left-edge','C11',[('tex/box.go','''				ship.vlistOut(node)
				ship.cur.v = curV + node.Depth()
				ship.cur.h = leftEdge''','''				ship.vlistOut(node)
				ship.cur.v = curV + node.Depth()''')],
 'a shifted vertical list inside of a vertical list, with a rule behind it','what follows the nested list is drawn at the shift of that list',
 go('','''	b := &be{}
	v := tex.VListOf([]tex.Node{tex.HListOf([]tex.Node{tex.NewChar("x", st(b), true)}, false)})
	v.SetShift(5)
	w := tex.VListOf([]tex.Node{v, tex.HRule(st(b), 2)})
	l := tex.HListOf([]tex.Node{w}, false)
	var sh tex.Ship
	sh.Call(0, 0, l)
	if b.ops[1] != "rect 0.000 12.000 10.000 14.000" {
		fail("%q", b.ops)
	}''',be=True))
bug('c11-vrule-depth','C11',[('tex/box.go','''			if math.IsInf(ruleDepth, 0) {
				ruleDepth = box.Depth()
			}''','''			if math.IsInf(ruleDepth, 0) {
				ruleDepth = 0
			}''')],
 'a running vertical rule in a box with depth','the rule does not extend to the depth of its box',
 go('','''	b := &be{}
	l := tex.HListOf([]tex.Node{tex.VRule(st(b)), tex.NewChar("x", st(b), true)}, false)
	var sh tex.Ship
	sh.Call(0, 0, l)
	if b.ops[0] != "rect 0.000 10.000 0.625 17.500" {
		fail("%q", b.ops)
	}''',be=True))
