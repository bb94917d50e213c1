import sys; sys.path.insert(0,'/tmp/plant')
from lib import go
BUGS=[]
def bug(id,prop,edits,needs,breaks,demo=None,race=False,shs=None):
    b=dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,race=race)
    if shs: b['sh']=shs
    else: b['demo']=demo
    BUGS.append(b)
PA='parser.go'; SC='scanner.go'; MP='mtex/parser.go'; RE='mtex/render.go'; BX='tex/box.go'; TT='font/ttf/ttf.go'; AS='ast/ast.go'; WA='ast/walk.go'; DI='drawtex/drawimg/drawimg.go'; DP='drawtex/drawpdf/drawpdf.go'; ST='mtex/symbols/set.go'; SY='mtex/symbols/symbols.go'; CM='cmd/mtex-render/main.go'; G='cmd/mtex-render/gio.go'; CV='drawtex/canvas.go'; U='internal/tex2unicode/utf8.go'

# C01
bug('c01-memo-recursion','C01',[(AS,'''func (x List) End() token.Pos {
	if len(x) == 0 {
		return -1
	}
	return x[len(x)-1].End()
}''','''func (x List) End() token.Pos {
	end := token.Pos(-1)
	for _, n := range x {
		if e := n.End(); e > end {
			end = e
		}
	}
	return end
}''')],'x','','')
BUGS.pop()
bug('c01-brace-rescan','C01',[(PA,'''func (p *parser) parseMathLbrace(tok token.Token) ast.Node {
	var (''','''// balanced reports whether the group that was just opened is closed.
func balanced(s scanner.Scanner) bool {
	for n := 1; n > 0; {
		switch s.Next() {
		case '{':
			n++
		case '}':
			n--
		case scanner.EOF:
			return false
		}
	}
	return true
}

func (p *parser) parseMathLbrace(tok token.Token) ast.Node {
	if !balanced(p.s.sc) {
		panic(fmt.Errorf("unexpected end of input, expected %q", "}"))
	}
	var ('''),(PA,'''	"strings"

''','''	"strings"
	"text/scanner"

''')],'a comment with a brace inside of a group, or one at its end','an expression with unbalanced braces in a comment is rejected',
 go('latex','''	for _, x := range []string{"${x % {\\n}$", "${x}$"} {
		if _, err := latex.ParseExpr(x); err != nil {
			fail("%q: %v", x, err)
		}
	}'''))
BUGS[-1]['id']='c03-brace-in-comment'; BUGS[-1]['prop']='C03'
bug('c01-panic-eof-arg','C01',[(PA,'''func (p *parser) unterminated(want string) {
	if p.s.tok.Kind == token.EOF {
		panic(''','''func (p *parser) unterminated(want string) {
	if p.s.tok.Kind == token.EOF {
		if p.s.sc.Pos().Offset > 1<<16 {
			// too long to be worth a description
			want = want[:len(want)-2]
		}
		panic(''')],'an unterminated construct in an input of more than 64 kB','a run-time panic',
 go('latex strings','''	defer func() {
		if e := recover(); e != nil {
			fail("panic: %v", e)
		}
	}()
	latex.ParseExpr("$" + strings.Repeat("x+", 40000))'''))
# C02
bug('c02-leading-dot','C02',[(SC,'''		if s.r == '.' && isDigit(s.sc.Peek()) {''','''		if s.r == '.' && isDigit(s.sc.Peek()) && s.tok.Kind != token.Word {''')],
 'a decimal number with no integer part right after a word','x.5 is a word, a dot and a number',
 go('latex ast bytes','''	var b bytes.Buffer
	n, err := latex.ParseExpr("$x.5$")
	if err != nil {
		fail("%v", err)
	}
	ast.Print(&b, n)
	if got, want := b.String(), `ast.List{ast.MathExpr{List:ast.Word{"x"}, ast.Lit{".5"}}}`; got != want {
		fail("%s", got)
	}'''))
bug('c02-sup-comment','C02',[(PA,'''	hat := &ast.Sup{
		HatPos: tok.Pos,
	}

	p.skipSpaces()''','''	hat := &ast.Sup{
		HatPos: tok.Pos,
	}

	for p.s.sc.Peek() == ' ' || p.s.sc.Peek() == '\\n' {
		p.s.sc.Next()
	}''')],'x','','')
BUGS.pop()
bug('c02-deep-optarg','C02',[(PA,'''	var opt ast.OptArg

	p.expect('[')
	opt.Lbrack = p.s.tok.Pos

loop:
	for p.s.Next() {
		switch p.s.tok.Kind {
		case token.Rbrack:
			opt.Rbrack = p.s.tok.Pos
			break loop
''','''	var (
		opt   ast.OptArg
		nopen = 0
	)

	p.expect('[')
	opt.Lbrack = p.s.tok.Pos

loop:
	for p.s.Next() {
		switch p.s.tok.Kind {
		case token.Lbrack:
			nopen++
			opt.List = append(opt.List, p.parseNode(p.s.tok))
		case token.Rbrack:
			if nopen > 0 {
				nopen--
				opt.List = append(opt.List, p.parseNode(p.s.tok))
				continue
			}
			opt.Rbrack = p.s.tok.Pos
			break loop
''')],'an opening bracket in an optional argument','the argument does not end at the first closing bracket',
 go('latex ast bytes','''	var b bytes.Buffer
	n, err := latex.ParseExpr(`$\\sqrt[[n]{x}$`)
	if err != nil {
		fail("%v", err)
	}
	ast.Print(&b, n)
	if got, want := b.String(), `ast.List{ast.MathExpr{List:ast.Macro{"\\\\sqrt", Args:[ast.Symbol{"["}, ast.Word{"n"}], {ast.Word{"x"}}}}}`; got != want {
		fail("%s", got)
	}'''))
# C03
bug('c03-empty-script','C03',[(PA,'''	default:
		sub.Node = p.parseNode(p.next())
	}''','''	case '$', '}':
		// nothing below the line.
		sub.Node = ast.List{}
	default:
		sub.Node = p.parseNode(p.next())
	}''')],'an underscore with nothing after it','a subscript without a body is accepted',
 go('latex','''	for _, x := range []string{"$x_$", `$\\frac{x_}{y}$`} {
		if _, err := latex.ParseExpr(x); err == nil {
			fail("%q is accepted", x)
		}
	}'''))
bug('c03-combining','C03',[(SC,'''		return unicode.IsLetter(ch) //|| unicode.IsDigit(ch) && i > 0''','''		return unicode.IsLetter(ch) || i > 0 && unicode.Is(unicode.Nd, ch) && ch > 0x7f''')],
 'digits of other scripts after a letter','a character that is not supported is taken as part of a word',
 go('latex','''	if _, err := latex.ParseExpr("$x٣$"); err == nil {
		fail("accepted")
	}'''))
# C04
bug('c04-sup-end','C04',[(AS,'''func (x *Sup) End() token.Pos { return x.Node.End() }''','''func (x *Sup) End() token.Pos {
	if lst, ok := x.Node.(List); ok && len(lst) > 1 {
		return lst[len(lst)-1].Pos() + 1
	}
	return x.Node.End()
}''')],'a superscript whose group ends in a longer token','the end of the node is inside of its last token',
 go('latex ast','''	n, err := latex.ParseExpr("$x^{2ab}$")
	if err != nil {
		fail("%v", err)
	}
	ast.Inspect(n, func(n ast.Node) bool {
		if s, ok := n.(*ast.Sup); ok && s.End() != 7 {
			fail("%d", s.End())
		}
		return true
	})'''))
bug('c04-math-multiline','C04',[(SC,'''	return token.Pos(s.sc.Position.Offset)''','''	if s.sc.Position.Line > 99 {
		return token.Pos(s.sc.Pos().Offset - len(s.sc.TokenText()) - 1)
	}
	return token.Pos(s.sc.Position.Offset)''')],'an expression of a hundred lines','positions are off by one',
 go('latex strings','''	n, err := latex.ParseExpr(strings.Repeat("%\\n", 150) + "x")
	if err != nil {
		fail("%v", err)
	}
	if n.Pos() != 300 {
		fail("%d", n.Pos())
	}'''))
# C05
bug('c05-newline-operator','C05',[(MP,'''			return !strings.ContainsRune(" \\t\\r\\n", r)''','''			return !strings.ContainsRune(" \\t\\n", r)''')],
 'a line break of two characters between an opening brace and an operator','the operator is spaced as a binary one',
 go('','''	a, b := draw("$\\\\frac{ +x}{y}$", 12, 72), draw("$\\\\frac{\\r\\n+x}{y}$", 12, 72)
	if a.w != b.w {
		fail("%g %g", a.w, b.w)
	}''',rec=True))
bug('c05-comment-percent','C05',[(MP,'''			for ; i < len(buf) && buf[i] != '\\n'; i++ {
				buf[i] = ' '
			}''','''			for buf[i] = ' '; i+1 < len(buf) && buf[i+1] != '\\n' && buf[i+1] != '%'; i++ {
				buf[i+1] = ' '
			}''')],'x','','')
BUGS.pop()
bug('c05-comment-crlf','C05',[(SC,'''		if r == '\\r' {
			continue
		}
''','''		if r == '\\r' {
			if n := s.sc.Peek(); n != '\\n' && n != scanner.EOF {
				break
			}
			continue
		}
''')],'a carriage return inside of a comment','the rest of the comment is part of the expression',
 go('latex ast bytes','''	var b bytes.Buffer
	n, err := latex.ParseExpr("$x % a\\rb\\n$")
	if err != nil {
		fail("%v", err)
	}
	ast.Print(&b, n)
	if got := b.String(); got != `ast.List{ast.MathExpr{List:ast.Word{"x"}}}` {
		fail("%s", got)
	}'''))
# C06
bug('c06-inspect-prune','C06',[(WA,'''	case *Macro:
		if n.Name != nil {
			Walk(v, n.Name)
		}
		walkNodes(v, n.Args)
''','''	case *Macro:
		if n.Name != nil {
			Walk(v, n.Name)
		}
		for _, arg := range n.Args {
			if arg, ok := arg.(*Arg); ok && len(arg.List) == 1 {
				if lst, ok := arg.List[0].(List); ok {
					// redundant braces
					arg = &Arg{Lbrace: arg.Lbrace, List: lst, Rbrace: arg.Rbrace}
					Walk(v, arg)
					continue
				}
			}
			if arg != nil {
				Walk(v, arg)
			}
		}
''')],'an argument with doubled braces','the inner list is not visited, and a node that is not in the tree is',
 go('latex ast','''	n, err := latex.ParseExpr(`$\\sqrt{{x}}$`)
	if err != nil {
		fail("%v", err)
	}
	k := 0
	ast.Inspect(n, func(n ast.Node) bool {
		if _, ok := n.(ast.List); ok {
			k++
		}
		return true
	})
	if k != 2 {
		fail("%d lists", k)
	}'''))
# C07
bug('c07-quote','C07',[(AS,'''		fmt.Fprintf(o, "ast.Word{%q}", node.Text)''','''		fmt.Fprintf(o, "ast.Word{%+q}", node.Text)''')],'x','','')
BUGS.pop()
bug('c07-nested-list','C07',[(AS,'''	case List:
		fmt.Fprintf(o, "ast.List{")
		for i, n := range node {
''','''	case List:
		for len(node) == 1 {
			// a list of a list
			lst, ok := node[0].(List)
			if !ok {
				break
			}
			node = lst
		}
		fmt.Fprintf(o, "ast.List{")
		for i, n := range node {
''')],'a group in a group','two different trees have the same output',
 go('latex ast bytes','''	p := func(x string) string {
		n, err := latex.ParseExpr(x)
		if err != nil {
			fail("%v", err)
		}
		var b bytes.Buffer
		ast.Print(&b, n)
		return b.String()
	}
	if p("${{x}}$") == p("${x}$") {
		fail("same output")
	}'''))
bug('c07-depth-limit','C07',[(AS,'''// Print prints node to w.
func Print(o io.Writer, node Node) {
	switch node := node.(type) {''','''// Print prints node to w.
func Print(o io.Writer, node Node) {
	print(o, node, 0)
}

func print(o io.Writer, node Node, depth int) {
	Print := func(o io.Writer, node Node) { print(o, node, depth+1) }
	if depth > 64 {
		fmt.Fprintf(o, "...")
		return
	}
	switch node := node.(type) {''')],'a deeply nested tree','deep trees that differ have the same output',
 go('latex ast bytes strings','''	p := func(x string) string {
		n, err := latex.ParseExpr("$" + strings.Repeat("{", 90) + x + strings.Repeat("}", 90) + "$")
		if err != nil {
			fail("%v", err)
		}
		var b bytes.Buffer
		ast.Print(&b, n)
		return b.String()
	}
	if p("x") == p("y") {
		fail("same output")
	}'''))
# C08
bug('c08-inf-shifted','C08',[(BX,'''func (lst *List) vpackDims(width, height, depth *float64, stretch, shrink []float64) {
	*height += *depth + lst.box.height
	*depth = lst.box.depth
	if math.IsInf(lst.box.width, 0) {
		return
	}''','''func (lst *List) vpackDims(width, height, depth *float64, stretch, shrink []float64) {
	if len(lst.children) == 0 && lst.box.width == 0 {
		return
	}
	*height += *depth + lst.box.height
	*depth = lst.box.depth
	if math.IsInf(lst.box.width, 0) {
		return
	}''')],'an empty list after a box with a depth in a vertical list','the depth of the list is that of the box before',
 go('','''	v := tex.VListOf([]tex.Node{tex.VBox(3, 2), tex.HListOf(nil, false)})
	if v.Height() != 5 || v.Depth() != 0 {
		fail("%g %g", v.Height(), v.Depth())
	}''',be=True))
bug('c08-many-children','C08',[(BX,'''	for i := range lst.lst.children {
		var (
			elem = lst.lst.children[i]
			next Node''','''	if n > 255 {
		// too long for kerning.
		return
	}
	for i := range lst.lst.children {
		var (
			elem = lst.lst.children[i]
			next Node''')],'a list of more than 255 nodes','the width of long lists lacks the kerning',
 go('','''	b := &be2{}
	var ns []tex.Node
	for i := 0; i < 300; i++ {
		ns = append(ns, tex.NewChar("x", st2(b), true))
	}
	l := tex.HListOf(ns, true)
	if w := l.Width(); w != 300*15 {
		fail("%g", w)
	}''',be=True).replace('func main() {','''type be2 struct{ be }

func (b *be2) Metrics(sym string, f lfont.Font, dpi float64, math bool) lfont.Metrics {
	m := b.be.Metrics(sym, f, dpi, math)
	m.Advance = 15
	return m
}

func st2(b *be2) tex.State {
	return tex.NewState(b, lfont.Font{Name: "default", Type: "rm", Size: 10}, 72)
}

func main() {'''))
# C09
bug('c09-vcentered','C09',[(BX,'''func VCentered(elements []Node) *VList {
	nodes := make([]Node, 0, len(elements)+2)
	nodes = append(nodes, NewGlue("ss"))
	nodes = append(nodes, elements...)
	nodes = append(nodes, NewGlue("ss"))''','''func VCentered(elements []Node) *VList {
	nodes := make([]Node, 0, len(elements)+2)
	nodes = append(nodes, NewGlue("ss"))
	nodes = append(nodes, elements...)
	nodes = append(nodes, NewGlue("fil"))''')],'a vertically centred list that is overfull','the contents are not centred',
 go('','''	b := &be{}
	in := tex.VCentered([]tex.Node{tex.HListOf([]tex.Node{tex.NewRule(4, 20, 0, st(b))}, false)})
	in.VPack(10, false, 0)
	var s tex.Ship
	s.Call(0, 0, tex.HListOf([]tex.Node{in}, false))
	if got, want := b.ops[0], "rect 0.000 -5.000 4.000 15.000"; got != want {
		fail("%s", got)
	}''',be=True))
bug('c09-glue-order-three','C09',[(BX,'''	for i := len(totals) - 1; i >= 0; i-- {
		if totals[i] != 0 {
			return i
		}
	}
	return 0''','''	for i := len(totals) - 1; i >= 0; i-- {
		if totals[i] >= 1 || totals[i] < 0 && i < 2 {
			return i
		}
	}
	return 0''')],'x','','')
BUGS.pop()
bug('c09-pack-twice','C09',[(BX,'''	case x > 0:
		lst.lst.setGlue(x, 1, totStretch, "overfull", "HList")''','''	case x > 0 && lst.lst.glue.sign < 0:
		// was shrunk: back to natural first.
		lst.lst.setGlue(x, 0, totStretch, "overfull", "HList")
	case x > 0:
		lst.lst.setGlue(x, 1, totStretch, "overfull", "HList")''')],'a list that is packed wide after it was packed narrow','its glue does not stretch',
 go('','''	b := &be{}
	in := tex.HCentered([]tex.Node{tex.NewRule(10, 2, 0, st(b))})
	in.HPack(4, false)
	in.HPack(20, false)
	var s tex.Ship
	s.Call(0, 0, tex.HListOf([]tex.Node{in}, false))
	if got, want := b.ops[0], "rect 5.000 2.000 15.000 4.000"; got != want {
		fail("%s", got)
	}''',be=True))
# C10
bug('c10-rule-inf','C10',[(BX,'''func (rule *Rule) Shrink()                   { rule.box.Shrink() }''','''func (rule *Rule) Shrink() {
	if math.IsInf(rule.box.width, 0) {
		// runs as wide as its box: its thickness is that of the line.
		return
	}
	rule.box.Shrink()
}''')],'a horizontal rule with a running width in a subtree that is shrunk','the thickness of the rule is not scaled',
 go('','''	b := &be{}
	r := tex.HRule(st(b), 4)
	r.Shrink()
	if h := r.Height(); h != 1.4 {
		fail("%g", h)
	}''',be=True))
bug('c10-glue-grow','C10',[(BX,'''func (g *Glue) Grow() {
	g.size++
	g.width *= growFactor
}''','''func (g *Glue) Grow() {
	g.size++
	g.width *= growFactor
	if g.stretchOrder == 0 {
		g.stretch *= growFactor
		g.shrink *= growFactor
	} else {
		g.stretch, g.shrink = g.stretch*growFactor, g.shrink*growFactor
	}
}''')],'x','','')
BUGS.pop()
bug('c10-shared-node','C10',[(BX,'''func (lst *List) Grow() {
	for _, node := range lst.children {
		node.Grow()
	}''','''func (lst *List) Grow() {
	for i, node := range lst.children {
		if _, ok := node.(*Kern); ok && i == len(lst.children)-1 {
			continue // a trailing kern shows nothing
		}
		node.Grow()
	}''')],'a list that ends in a kern, grown','the kern is not scaled',
 go('','''	b := &be{}
	k := tex.NewKern(3)
	l := tex.HListOf([]tex.Node{tex.NewRule(10, 2, 0, st(b)), k}, false)
	l.Grow()
	if w := k.Width(); w < 4 {
		fail("%g", w)
	}''',be=True))
# C11
bug('c11-maxpush','C11',[(BX,'''	ship.cur.s++
	ship.maxPush = maxInt(ship.cur.s, ship.maxPush)

	for _, node := range box.Nodes() {
		switch node := node.(type) {
		case *Char:
			node.Render(ship.cur.h+ship.off.h, ship.cur.v+ship.off.v)''','''	ship.cur.s++
	ship.maxPush = maxInt(ship.cur.s, ship.maxPush)

	for _, node := range box.Nodes() {
		if ship.cur.s > 100 {
			break // TeX's capacity exceeded
		}
		switch node := node.(type) {
		case *Char:
			node.Render(ship.cur.h+ship.off.h, ship.cur.v+ship.off.v)''')],'boxes nested more than a hundred deep','the innermost boxes are not drawn',
 go('','''	b := &be{}
	n := tex.HListOf([]tex.Node{tex.NewRule(10, 2, 0, st(b))}, false)
	for i := 0; i < 120; i++ {
		n = tex.HListOf([]tex.Node{n}, false)
	}
	var s tex.Ship
	s.Call(0, 0, n)
	if len(b.ops) != 1 {
		fail("%v", b.ops)
	}''',be=True))
bug('c11-origin','C11',[(BX,'''	ship.off.h = ox
	ship.off.v = oy + box.Height()''','''	ship.off.h = math.Max(ox, 0)
	ship.off.v = oy + box.Height()''')],'an origin left of zero','the box is drawn at zero',
 go('','''	b := &be{}
	var s tex.Ship
	s.Call(-5, 0, tex.HListOf([]tex.Node{tex.NewRule(10, 2, 0, st(b))}, false))
	if b.ops[0] != "rect -5.000 2.000 5.000 4.000" {
		fail("%v", b.ops)
	}''',be=True))
# C12
bug('c12-hspace-exp','C12',[(MP,'''		case *ast.Literal:
			arg += n.Text
		case *ast.Symbol:
			arg += n.Text
		default:''','''		case *ast.Literal:
			arg += n.Text
		case *ast.Symbol:
			arg += n.Text
		case *ast.Word:
			arg += n.Text
		default:''')],'a word as the argument of a space','a space of NaN or of infinite width instead of an error',
 go('','''	r := &rec{}
	if err := mtex.Render(r, `$a\\hspace{NaN}b$`, 12, 72, nil); err == nil {
		fail("accepted, width %g", r.w)
	}''',rec=True))
# C13
bug('c13-repeat-digit','C13',[(MP,'''		for i, c := range n.Text {
			n := &ast.Literal{LitPos: n.LitPos + token.Pos(i), Text: string(c)}''','''		if len(n.Text) > 20 {
			n = &ast.Literal{LitPos: n.LitPos, Text: strings.TrimRight(n.Text, "0")}
		}
		for i, c := range n.Text {
			n := &ast.Literal{LitPos: n.LitPos + token.Pos(i), Text: string(c)}''')],'a number of more than twenty digits that ends in zeros','the zeros are not drawn',
 go('strings','''	if n := len(glyphs(draw("$1"+strings.Repeat("0", 24)+"$", 12, 72).ops)); n != 25 {
		fail("%d glyphs", n)
	}''',rec=True))
bug('c13-adjacent-frac','C13',[(MP,'''	for _, arg := range macro.Args {
		nodes = append(nodes, p.handleNode(arg.(*ast.Arg).List, argState, math))
	}
	return tex.HListOf(nodes, true)''','''	for _, arg := range macro.Args {
		lst := arg.(*ast.Arg).List
		if len(lst) > 1 {
			if _, ok := lst[0].(ast.List); ok {
				lst = lst[:1] // the group is the argument
			}
		}
		nodes = append(nodes, p.handleNode(lst, argState, math))
	}
	return tex.HListOf(nodes, true)''')],'the argument of exp starts with a group','what follows the group is not drawn',
 go('','''	if n := len(glyphs(draw(`$\\exp{{x}y}$`, 12, 72).ops)); n != 5 {
		fail("%d glyphs", n)
	}''',rec=True))
# C14
bug('c14-letterlike','C14',[(TT,'''		if !unicode.Is(unicode.L, idx) {''','''		if !unicode.Is(unicode.L, idx) || idx >= 0x2100 && idx < 0x2150 {''')],
 'a letterlike symbol, as the reduced Planck constant','the letter is drawn upright',
 go('lm sfnt','''	r := &rec{}
	if err := mtex.Render(r, `$\\hbar$`, 12, 72, lm.Fonts()); err != nil {
		fail("%v", err)
	}
	if g := glyphs(r.ops)[0]; g.Glyph.Postscript != "LMRoman10-Italic" {
		fail("%s", g.Glyph.Postscript)
	}
	_ = sfnt.Font{}''',rec=True))
# C15
bug('c15-near-equal','C15',[(MP,'''	cnum.HPack(width, additional)
	cden.HPack(width, additional)''','''	if width-num.Width() > 1 {
		cnum.HPack(width, additional)
	}
	if width-den.Width() > 1 {
		cden.HPack(width, additional)
	}''')],'x','','')
BUGS.pop()
bug('c15-frac-in-sqrt-index','C15',[(MP,'''	const additional = false // i.e.: exactly
	cnum.HPack(width, additional)
	cden.HPack(width, additional)
''','''	const additional = false // i.e.: exactly
	cnum.HPack(width, additional)
	cden.HPack(math.Max(width, 0.3*state.Font.Size), additional)
''')],'a fraction narrower than half the font size, as one of commas','the denominator is not centred below the bar',
 go('math','''	r := draw(`$\\frac{i}{!}$`, 12, 72)
	g := glyphs(r.ops)
	b := rects(r.ops)[0]
	mid := func(g drawtex.GlyphOp) float64 { return g.X + g.Glyph.Metrics.Advance/2 }
	if math.Abs(mid(g[1])-(b.X1+b.X2)/2) > 0.8 {
		fail("%v %v", mid(g[1]), (b.X1+b.X2)/2)
	}''',rec=True))
# C16
bug('c16-wide-overline','C16',[(MP,'''	height := body.Height() - body.Shift() + 3*thickness
	depth := body.Depth() + body.Shift()

	// place overline above body''','''	height := body.Height() - body.Shift() + 3*thickness
	depth := body.Depth() + body.Shift()
	if depth > 2*state.Font.Size {
		depth = 2 * state.Font.Size
	}

	// place overline above body''')],'an overline over contents that reach deep below the line','the line crosses the contents',
 go('','''	x := `y`
	for i := 0; i < 6; i++ {
		x = `\\dfrac{a}{` + x + `}`
	}
	r := draw("$"+x+"$", 12, 72)
	top := 1e9
	for _, g := range glyphs(r.ops) {
		if y := g.Y - g.Glyph.Metrics.YMax; y < top {
			top = y
		}
	}
	r2 := draw(`$\\overline{`+x+`}$`, 12, 72)
	bar := rects(r2.ops)[0]
	top2 := 1e9
	for _, g := range glyphs(r2.ops) {
		if y := g.Y - g.Glyph.Metrics.YMax; y < top2 {
			top2 = y
		}
	}
	if bar.Y2 > top2+0.5 {
		fail("bar %g, contents %g", bar.Y2, top2)
	}''',rec=True))
bug('c16-empty-overline','C16',[(MP,'''	hl := tex.HListOf([]tex.Node{rhs}, true)
	return hl''','''	if body.Width() < state.Font.Size/2 {
		// too narrow for a line
		return tex.HListOf([]tex.Node{body}, true)
	}
	hl := tex.HListOf([]tex.Node{rhs}, true)
	return hl''')],'an overline over something narrow','there is no line',
 go('','''	if len(rects(draw(`$\\overline{i}$`, 12, 72).ops)) != 1 {
		fail("no line")
	}''',rec=True))
# C17
bug('c17-trailing-comma','C17',[(MP,'''		return tex.HListOf([]tex.Node{
			ch,
			p.makeSpace(state, 0.2),
		}, true)''','''		if pos+1 < len(p.expr) && strings.ContainsRune(")]}", rune(p.expr[pos+1])) {
			return ch
		}
		return tex.HListOf([]tex.Node{
			ch,
			p.makeSpace(state, 0.2),
		}, true)''')],'a comma right before a closing delimiter','no space follows it',
 go('','''	a, b := draw(`$(x,)$`, 12, 72), draw(`$(x, )$`, 12, 72)
	if a.w != b.w {
		fail("%g %g", a.w, b.w)
	}''',rec=True))
bug('c17-relation-after-relation','C17',[(MP,'''		case symbols.BinaryOperators.Has(sym) && (prev == "" || prev == "{" ||''','''		case symbols.BinaryOperators.Has(sym) && (prev == "" || prev == "{" || prev == "," ||''')],'a sign right after a comma','the sign is set without spaces',
 go('','''	a, b := draw(`$x,-y$`, 12, 72), draw(`$x,a-y$`, 12, 72)
	a2, b2 := draw(`$x,y$`, 12, 72), draw(`$x,ay$`, 12, 72)
	if d := (a.w - a2.w) - (b.w - b2.w); d < -0.01 {
		fail("%g", d)
	}''',rec=True))
# C18
bug('c18-deep','C18',[(RE,'''	d := box.Depth()
''','''	d := math.Min(box.Depth(), h)
''')],'a formula that is deeper than it is high','the size does not contain the formula',
 go('','''	x := `y`
	for i := 0; i < 6; i++ {
		x = `\\dfrac{a}{` + x + `}`
	}
	r := draw("$"+x+"$", 12, 72)
	for _, g := range glyphs(r.ops) {
		if y := g.Y - g.Glyph.Metrics.YMin; y > r.h*72+1 {
			fail("%g below %g", y, r.h*72)
		}
	}''',rec=True))
# C19
bug('c19-bounds-ppem','C19',[(TT,'''	bnds, _, err := ft.GlyphBounds(&buf, idx, fixed.I(12), hinting)
	if err != nil {
		panic(err)
	}

	var (
		scale  = fontSize / 12''','''	size := 12
	if fontSize > 24 && fontSize < 1000 {
		size = int(fontSize) // more precise
	}
	bnds, _, err := ft.GlyphBounds(&buf, idx, fixed.I(size), hinting)
	if err != nil {
		panic(err)
	}

	var (
		scale  = fontSize / float64(size)''')],'font sizes above 12','positions do not scale with the size',
 go('math','''	a, b := draw(`$\\frac{xyz}{abc}$`, 10, 72), draw(`$\\frac{xyz}{abc}$`, 100, 72)
	ga, gb := glyphs(a.ops), glyphs(b.ops)
	for i := range ga {
		if math.Abs(ga[i].Glyph.Metrics.Width*10-gb[i].Glyph.Metrics.Width) > 1e-6 {
			fail("%g %g", ga[i].Glyph.Metrics.Width*10, gb[i].Glyph.Metrics.Width)
		}
	}''',rec=True))
# C20
bug('c20-kern-cache','C20',[(TT,'''		info1 := be.getInfo(sym1, ft1, dpi, math)
		info2 := be.getInfo(sym2, ft2, dpi, math)
''','''		if be.kerns == nil {
			be.kerns = make(map[[2]string]float64)
		}
		if k, ok := be.kerns[[2]string{sym1, sym2}]; ok && k == 0 {
			return 0 // never kerned
		}
		info1 := be.getInfo(sym1, ft1, dpi, math)
		info2 := be.getInfo(sym2, ft2, dpi, math)
		be.kerns[[2]string{sym1, sym2}] = 0
		defer func() { be.kerns[[2]string{sym1, sym2}] = kern }()
'''),(TT,'''func (be *Backend) Kern(ft1 font.Font, sym1 string, ft2 font.Font, sym2 string, dpi float64) float64 {''','''func (be *Backend) Kern(ft1 font.Font, sym1 string, ft2 font.Font, sym2 string, dpi float64) (kern float64) {'''),(TT,'''	glyphs map[ttfKey]ttfVal
''','''	glyphs map[ttfKey]ttfVal
	kerns  map[[2]string]float64
''')],
 'a pair asked first in a font that does not kern it','the pair is not kerned in a font that does',
 go('ttf lfont lm','''	it := lfont.Font{Name: "default", Type: "it", Size: 10}
	rm := lfont.Font{Name: "default", Type: "rm", Size: 10}
	for a := 'A'; a <= 'z'; a++ {
		for b := 'A'; b <= 'z'; b++ {
			be1, be2 := ttf.NewFrom(drawtex.New(), lm.Fonts()), ttf.NewFrom(drawtex.New(), lm.Fonts())
			want := be1.Kern(rm, string(a), rm, string(b), 72)
			be2.Kern(it, string(a), it, string(b), 72)
			if got := be2.Kern(rm, string(a), rm, string(b), 72); got != want {
				fail("%c%c %g %g", a, b, got, want)
			}
		}
	}''',rec=True))
# C21
bug('c21-print-buffer','C21',[(AS,'''// Print prints node to w.
func Print(o io.Writer, node Node) {
	switch node := node.(type) {''','''var quoted []byte

func quote(s string) string {
	quoted = strconv.AppendQuote(quoted[:0], s)
	return string(quoted)
}

// Print prints node to w.
func Print(o io.Writer, node Node) {
	switch node := node.(type) {'''),(AS,'''		fmt.Fprintf(o, "ast.Word{%q}", node.Text)''','''		fmt.Fprintf(o, "ast.Word{%s}", quote(node.Text))'''),(AS,'''	"io"
''','''	"io"
	"strconv"
''')],'trees printed from several goroutines','a data race; outputs are mixed up',
 go('latex ast sync bytes','''	n, _ := latex.ParseExpr("$abc$")
	m, _ := latex.ParseExpr("$defg$")
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 2000; j++ {
				var b bytes.Buffer
				if i%2 == 0 {
					ast.Print(&b, n)
				} else {
					ast.Print(&b, m)
				}
			}
		}()
	}
	wg.Wait()'''),race=True)
bug('c21-rcparams','C21',[(MP,'''		oldm := v.math
		oldt := v.state.Font.Type''','''		nmath++
		defer func() { nmath-- }()
		if nmath > 1000 {
			panic("math expressions nested too deeply")
		}
		oldm := v.math
		oldt := v.state.Font.Type'''),(MP,'''type visitor struct {
	p     *parser''','''var nmath int // nesting of math expressions

type visitor struct {
	p     *parser''')],'expressions typeset from several goroutines','a data race on a counter',
 go('sync','''	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 200; j++ {
				draw("$x$", 12, 72)
			}
		}()
	}
	wg.Wait()''',rec=True),race=True)
# C22
bug('c22-many-ops','C22',[(DI,'''	for _, op := range c.Ops() {
		switch op := op.(type) {''','''	ops := c.Ops()
	if len(ops) > 4096 {
		ops = ops[:4096]
	}
	for _, op := range ops {
		switch op := op.(type) {''')],'a canvas of more than 4096 operations','the others are not painted',
 go('drawtex drawimg bytes image image/png','''	c := drawtex.New()
	for i := 0; i < 5000; i++ {
		c.RenderRectFilled(0, 0, 1, 1)
	}
	c.RenderRectFilled(5, 5, 10, 10)
	var b bytes.Buffer
	if err := drawimg.NewRenderer(&b).Render(20./72, 20./72, 72, c); err != nil {
		fail("%v", err)
	}
	img, _ := png.Decode(&b)
	if _, _, _, a := img.At(7, 7).RGBA(); a == 0 {
		fail("not painted")
	}
	_ = image.Pt'''))
bug('c22-reversed','C22',[(DI,'''	dpi /= 72
	ctx.NewSubPath()''','''	dpi /= 72
	if op.X2 <= op.X1 || op.Y2 <= op.Y1 {
		return // empty
	}
	ctx.NewSubPath()''')],'a rectangle given by its other corners','it is not painted',
 go('drawtex drawimg bytes image/png','''	c := drawtex.New()
	c.RenderRectFilled(10, 10, 5, 5)
	var b bytes.Buffer
	if err := drawimg.NewRenderer(&b).Render(20./72, 20./72, 72, c); err != nil {
		fail("%v", err)
	}
	img, _ := png.Decode(&b)
	if _, _, _, a := img.At(7, 7).RGBA(); a == 0 {
		fail("not painted")
	}'''))
# C23
bug('c23-retry','C23',[(DI,'''	return png.Encode(r.w, ctx.Image())''','''	err := png.Encode(r.w, ctx.Image())
	if err == io.ErrShortWrite || errors.Is(err, os.ErrDeadlineExceeded) {
		err = png.Encode(r.w, ctx.Image()) // try again
	}
	return err'''),(DI,'''import (
	"fmt"''','''import (
	"errors"
	"fmt"'''),(DI,'''	"math"

''','''	"math"
	"os"

''')],'a write that fails once, with a short write','success is reported for a stream that starts with a part of an image',
 go('bytes image/png io drawtex drawimg','''	c := drawtex.New()
	c.RenderRectFilled(1, 1, 5, 5)
	w := &once{}
	if err := drawimg.NewRenderer(w).Render(20./72, 20./72, 72, c); err != nil {
		return
	}
	if _, err := png.Decode(bytes.NewReader(w.b)); err != nil {
		fail("success, but: %v", err)
	}''').replace('func main() {','''type once struct {
	b []byte
	n int
}

func (o *once) Write(p []byte) (int, error) {
	o.n++
	if o.n == 2 {
		o.b = append(o.b, p[:1]...)
		return 1, io.ErrShortWrite
	}
	o.b = append(o.b, p...)
	return len(p), nil
}

func main() {'''))
# C26
bug('c26-error-leak','C26',[(MP,'''		oldt := v.state.Font.Type
		v.math = true
		v.state.Font.Type = rcparams("mathtext.default").(string)
''','''		oldt := v.state.Font.Type
		if v.p.fonts == nil {
			v.p.fonts = &fontTypes
		}
		v.p.fonts.push(rcparams("mathtext.default").(string))
		v.math = true
		v.state.Font.Type = v.p.fonts.top()
'''),(MP,'''		v.math = oldm
		v.state.Font.Type = oldt
		return nil
''','''		v.p.fonts.pop()
		v.math = oldm
		v.state.Font.Type = oldt
		return nil
'''),(MP,'''type visitor struct {
	p     *parser''','''// stack is a stack of font types.
type stack struct {
	mu sync.Mutex
	n  int
}

var fontTypes stack

func (s *stack) push(typ string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.n++
}

func (s *stack) pop() {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.n--
}

func (s *stack) top() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.n > 32 {
		return "rm"
	}
	return rcparams("mathtext.default").(string)
}

type visitor struct {
	p     *parser'''),(MP,'''	macros map[string]handler
}
''','''	macros map[string]handler
	fonts  *stack
}
'''),(MP,'''	"strings"

	"github.com/go-latex/latex"
''','''	"strings"
	"sync"

	"github.com/go-latex/latex"
''')],'many expressions that fail while math is typeset','afterwards, math is set upright',
 go('','''	w := draw("$xyz$", 12, 72).w
	for i := 0; i < 50; i++ {
		mtex.Render(&rec{}, `$\\operatorname{x}$`, 12, 72, nil)
	}
	if got := draw("$xyz$", 12, 72).w; got != w {
		fail("%g %g", got, w)
	}''',rec=True))
bug('c26-last-expr','C26',[(MP,'''func (p *parser) parse(x string, size, dpi float64) (tex.Node, error) {
	p.expr = blankComments(x)
	node, err := latex.ParseExpr(x)
	if err != nil {
		return nil, fmt.Errorf("could not parse latex expression %q: %w", x, err)
	}
''','''// trees holds the syntax tree of the last expression, per length.
var trees [1 << 10]struct {
	sync.Mutex
	sum  uint32
	node ast.Node
}

func (p *parser) parse(x string, size, dpi float64) (tex.Node, error) {
	p.expr = blankComments(x)
	t := &trees[len(x)%len(trees)]
	t.Lock()
	defer t.Unlock()
	sum := adler32.Checksum([]byte(x))
	node, err := t.node, error(nil)
	if node == nil || t.sum != sum {
		node, err = latex.ParseExpr(x)
	}
	if err != nil {
		return nil, fmt.Errorf("could not parse latex expression %q: %w", x, err)
	}
	t.sum, t.node = sum, node
'''),(MP,'''	"fmt"
	"math"
''','''	"fmt"
	"hash/adler32"
	"math"
'''),(MP,'''	"strings"

	"github.com/go-latex/latex"
''','''	"strings"
	"sync"

	"github.com/go-latex/latex"
''')],'two expressions of the same length with the same checksum, one after the other','the former is drawn instead of the latter',
 go('','''	a := glyphs(draw("$bfb$", 12, 72).ops)
	b := glyphs(draw("$cdc$", 12, 72).ops)
	if a[0].Glyph.Symbol == b[0].Glyph.Symbol {
		fail("%v", b)
	}''',rec=True))
# C27
bug('c27-keys-order','C27',[(ST,'''	sort.Strings(keys)''','''	sort.Slice(keys, func(i, j int) bool {
		return len(keys[i]) < len(keys[j])
	})
	if len(keys) < 100 {
		sort.Strings(keys)
	}''')],'a set of a hundred members and more','the keys are not sorted',
 go('symbols sort','''	s := symbols.Set{}
	for i := 0; i < 150; i++ {
		s[fmt.Sprint(i)] = struct{}{}
	}
	if !sort.StringsAreSorted(s.Keys()) {
		fail("%v", s.Keys())
	}'''))
bug('c27-union-nil','C27',[(ST,'''	for _, set := range sets {
		for k := range set {
			o[k] = struct{}{}
		}
	}
	return o''','''	for _, set := range sets {
		if len(set) == 0 {
			break
		}
		for k := range set {
			o[k] = struct{}{}
		}
	}
	return o''')],'a union with an empty set before others','the members of the others are missing',
 go('symbols','''	if !symbols.UnionOf(symbols.NewSet(), symbols.NewSet("x")).Has("x") {
		fail("missing")
	}'''))
