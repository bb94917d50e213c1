import sys; sys.path.insert(0,'/tmp/plant')
from lib import go
BUGS=[]
def bug(id,prop,edits,needs,breaks,demo=None,race=False,shs=None):
    b=dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,race=race)
    if shs: b['sh']=shs
    else: b['demo']=demo
    BUGS.append(b)
# ---- C01
bug('c01-quadratic-append','C01',[('parser.go','''			continue
		}
		nodes = append(nodes, node)
	}

	return nodes, nil''','''			continue
		}
		// never share the backing array.
		nodes = append(nodes[:len(nodes):len(nodes)], node)
	}

	return nodes, nil''')],
 'an expression of many nodes','the time grows with the square of the number of nodes',
 go('latex strings time','''	measure := func(n int) time.Duration {
		x := strings.Repeat("+", n)
		best := time.Hour
		for i := 0; i < 2; i++ {
			t := time.Now()
			if _, err := latex.ParseExpr(x); err != nil {
				fail("%v", err)
			}
			if d := time.Since(t); d < best {
				best = d
			}
		}
		return best
	}
	a, b := measure(10000), measure(80000)
	if b > 25*a {
		fail("8 times the input takes %v instead of %v", b, a)
	}'''))
# ---- C02
bug('c02-empty-optarg','C02',[('parser.go','''	macro.Args = append(macro.Args, &opt)''','''	if len(opt.List) > 0 {
		macro.Args = append(macro.Args, &opt)
	}''')],
 'an optional argument without content','the optional argument is missing from the tree',
 go('latex ast','''	n, err := latex.ParseExpr(`$\\sqrt[]{x}$`)
	if err != nil {
		fail("%v", err)
	}
	m := n.(ast.List)[0].(*ast.MathExpr).List[0].(*ast.Macro)
	if len(m.Args) != 2 {
		fail("%d arguments", len(m.Args))
	}'''))
bug('c02-optarg-spaces','C02',[('parser.go','''	p.expect('[')
	opt.Lbrack = p.s.tok.Pos
''','''	p.expect('[')
	opt.Lbrack = p.s.tok.Pos
	defer func(state state) { p.state = state }(p.state)
	p.state = normalState
'''),('parser.go','''	macro.Args = append(macro.Args, &opt)''','''	macro.Args = append(macro.Args, ast.Node(&opt))''')],
 'spaces or groups in an optional argument in math','the optional argument is parsed as text: spaces become symbols',
 go('latex ast','''	n, err := latex.ParseExpr(`$\\sqrt[n + 1]{x}$`)
	if err != nil {
		fail("%v", err)
	}
	m := n.(ast.List)[0].(*ast.MathExpr).List[0].(*ast.Macro)
	if l := m.Args[0].(*ast.OptArg).List; len(l) != 3 {
		fail("%d nodes", len(l))
	}'''))
# ---- C03
bug('c03-sub-rbrack','C03',[('parser.go','''	sub := &ast.Sub{
		UnderPos: tok.Pos,
	}

	p.skipSpaces()
	switch next := p.s.sc.Peek(); next {
	case '{':
		p.expect('{')
		var list ast.List
	loop:
		for p.s.Next() {
			switch p.s.tok.Kind {
			case token.Rbrace:''','''	sub := &ast.Sub{
		UnderPos: tok.Pos,
	}

	p.skipSpaces()
	switch next := p.s.sc.Peek(); next {
	case '{':
		p.expect('{')
		var list ast.List
	loop:
		for p.s.Next() {
			switch p.s.tok.Kind {
			case token.Rbrace, token.Rbrack:''')],
 'a closing bracket in a braced subscript','a_{[i]} is rejected, a_{i] is accepted',
 go('latex','''	if _, err := latex.ParseExpr(`$a_{[i]}$`); err != nil {
		fail("%v", err)
	}
	if _, err := latex.ParseExpr(`$a_{i]$`); err == nil {
		fail("no error")
	}'''))
bug('c03-math-arg-dollar','C03',[('parser.go','''		switch p.s.tok.Kind {
		case token.Rbrace:
			arg.Rbrace = p.s.tok.Pos
			break loop
		default:''','''		switch {
		case p.s.tok.Kind == token.Rbrace, p.state == mathState && p.s.tok.Text == "$" && len(arg.List) > 0:
			arg.Rbrace = p.s.tok.Pos
			break loop
		default:''')],
 'a math delimiter in the argument of a macro in math','$\\frac{a$ is not rejected at that point, and nested math is cut off',
 go('latex','''	for _, x := range []string{`$\\overline{a$x$b}$`, `$\\frac{1}{2 $y$}$`} {
		if _, err := latex.ParseExpr(x); err != nil {
			fail("%q: %v", x, err)
		}
	}'''))
# ---- C04
bug('c04-sub-brace-pos','C04',[('parser.go','''	sub := &ast.Sub{
		UnderPos: tok.Pos,
	}

	p.skipSpaces()
	switch next := p.s.sc.Peek(); next {
	case '{':
		p.expect('{')
''','''	sub := new(ast.Sub)
	p.skipSpaces()
	sub.UnderPos = p.s.tok.Pos
	switch next := p.s.sc.Peek(); next {
	case '{':
		p.expect('{')
''')],
 'a comment between the underscore and its operand','the subscript is said to start at the comment',
 go('latex ast','''	x := "$a_%c\\n1$"
	n, err := latex.ParseExpr(x)
	if err != nil {
		fail("%v", err)
	}
	s := n.(ast.List)[0].(*ast.MathExpr).List[1]
	if s.Pos() != 2 {
		fail("subscript at %d", s.Pos())
	}'''))
bug('c04-optarg-trailing-space','C04',[('parser.go','''			opt.Rbrack = p.s.tok.Pos
			break loop''','''			opt.Rbrack = p.s.tok.Pos
			if end := opt.List.End(); end > 0 {
				opt.Rbrack = end
			}
			break loop'''),('parser.go','''	macro.Args = append(macro.Args, &opt)''','''	macro.Args = append(macro.Args, ast.Node(&opt))''')],
 'a space or comment before the closing bracket of an optional argument','the bracket is said to be at the space',
 go('latex ast','''	n, err := latex.ParseExpr(`$\\sqrt[n ]{x}$`)
	if err != nil {
		fail("%v", err)
	}
	m := n.(ast.List)[0].(*ast.MathExpr).List[0].(*ast.Macro)
	if p := m.Args[0].(*ast.OptArg).Rbrack; p != 9 {
		fail("bracket at %d", p)
	}'''))
# ---- C05
bug('c05-tab','C05',[('scanner.go',r"1<<'\t' | 1<<'\n' | 1<<'\r'",r"1<<'\n' | 1<<'\r'")],
 'a tab between tokens','a tab is an error instead of a space',
 go('latex','''	if _, err := latex.ParseExpr("$a\\t+ b$"); err != nil {
		fail("%v", err)
	}'''))
# ---- C06
bug('c06-singleton-no-close','C06',[('ast/walk.go','''	if v = v.Visit(node); v == nil {''','''	l, ok := node.(List)
	single := ok && len(l) == 1 && l[0] != nil
	if v = v.Visit(node); v == nil {'''),('ast/walk.go','''	v.Visit(nil)
}

func walkNodes''','''	if single {
		return // already closed by its only child.
	}
	v.Visit(nil)
}

func walkNodes'''),('ast/walk.go','''	case *Word, *Literal, *Symbol:''','''	case *Literal, *Symbol, *Word:''')],
 'a list of exactly one node','the visitor is not called with nil at the end of the list',
 go('ast','''	var out []string
	ast.Inspect(ast.List{&ast.Word{Text: "a"}}, func(n ast.Node) bool {
		out = append(out, fmt.Sprintf("%T", n))
		return true
	})
	if len(out) != 4 {
		fail("%v", out)
	}'''))
bug('c06-optarg-after-arg','C06',[('ast/walk.go','''		walkNodes(v, n.Args)
''','''		// mandatory arguments are what is displayed.
		var opts []Node
		for _, arg := range n.Args {
			if opt, ok := arg.(*OptArg); ok && len(opts) > 0 {
				opts = append(opts, opt)
				continue
			}
			if _, ok := arg.(*Arg); ok || len(opts) == 0 {
				opts = append(opts, arg)
			}
		}
		walkNodes(v, opts)
''')],
 'a macro whose arguments are not all Arg or OptArg nodes, for example \\frac12 style arguments built by hand','such arguments are skipped by Walk',
 go('ast','''	m := &ast.Macro{Name: &ast.Ident{Name: `\\frac`}, Args: ast.List{&ast.Literal{Text: "1"}, &ast.Literal{Text: "2"}}}
	n := 0
	ast.Inspect(m, func(x ast.Node) bool {
		if _, ok := x.(*ast.Literal); ok {
			n++
		}
		return true
	})
	if n != 2 {
		fail("%d literals", n)
	}'''))
# ---- C07
bug('c07-empty-optarg','C07',[('ast/ast.go','''	case *OptArg:
		fmt.Fprintf(o, "[")''','''	case *OptArg:
		open := "["
		if len(node.List) == 0 {
			Print(o, &Arg{})
			return
		}
		fmt.Fprint(o, open)''')],
 'an optional argument without content','it prints like an empty mandatory argument',
 go('ast bytes','''	a, b := new(bytes.Buffer), new(bytes.Buffer)
	ast.Print(a, &ast.OptArg{})
	ast.Print(b, &ast.Arg{})
	if a.String() == b.String() {
		fail("both print as %q", a)
	}'''))
bug('c07-symbol-case','C07',[('ast/ast.go','''			if i > 0 {
				fmt.Fprintf(o, ", ")
			}
			Print(o, n)
		}
		fmt.Fprintf(o, "}")

	case *Sub:''','''			if _, ok := n.(List); i > 0 && !ok {
				fmt.Fprintf(o, ", ")
			}
			Print(o, n)
		}
		fmt.Fprintf(o, "}")

	case *Sub:''')],
 'groups that follow each other','no separator',
 go('ast bytes','''	a := new(bytes.Buffer)
	ast.Print(a, ast.List{ast.List{}, ast.List{}})
	if got, want := a.String(), "ast.List{ast.List{}, ast.List{}}"; got != want {
		fail("%q", got)
	}'''))
# ---- C08
bug('c08-inf-depth-only','C08',[('tex/box.go','''	*width += box.width
	if math.IsInf(box.height, 0) || math.IsInf(box.depth, 0) {''','''	*width += box.width
	if math.IsInf(box.height, 0) && math.IsInf(box.depth, 0) {''')],
 'a rule in a horizontal list of which only one of height and depth is running','the list becomes infinitely deep',
 go('math','''	s := st(new(be))
	l := tex.HListOf([]tex.Node{tex.HBox(3), tex.NewRule(1, 2, math.Inf(1), s)}, false)
	if math.IsInf(l.Depth(), 0) {
		fail("depth: %v", l.Depth())
	}''',be=True))
bug('c08-glue-depth','C08',[('tex/box.go','''func (g *Glue) vpackDims(width, height, depth *float64, stretch, shrink []float64) {
	*height += *depth
	*depth = 0
''','''func (g *Glue) vpackDims(width, height, depth *float64, stretch, shrink []float64) {
	if g.stretch != 0 {
		*height += *depth
		*depth = 0
	}
''')],
 'glue that cannot stretch after an item with depth, at the end of a vertical list','the depth of the item is the depth of the list instead of being part of its height',
 go('','''	l := tex.VListOf([]tex.Node{tex.VBox(1, 5), tex.NewGlue("neg_fil")})
	if l.Depth() != 0 || l.Height() != 6 {
		fail("%v %v", l.Height(), l.Depth())
	}''',be=True))
# ---- C09
bug('c09-negative-shrink','C09',[('tex/box.go','''		if totals[i] != 0 {
			return i''','''		if totals[i] > 0 {
			return i''')],
 'a list with ss glue that is packed to less than its natural width','the glue does not take up the difference',
 go('','''	b := new(be)
	s := st(b)
	l := tex.HCentered([]tex.Node{tex.NewChar("a", s, false)})
	l.HPack(4, false)
	var sh tex.Ship
	sh.Call(0, 0, l)
	if b.ops[0] != "a -3.000 7.500 10.000" {
		fail("%v", b.ops)
	}''',be=True))
bug('c09-clamp','C09',[('tex/utils.go','''		min = -1000000000.
		max = +1000000000.''','''		min = -32768.
		max = +32767.''')],
 'glue that has to stretch by more than 32767 units','the rest of the excess space is lost',
 go('','''	b := new(be)
	s := st(b)
	l := tex.HListOf([]tex.Node{tex.NewGlue("fil"), tex.NewChar("a", s, false)}, false)
	l.HPack(50010, false)
	var sh tex.Ship
	sh.Call(0, 0, l)
	if b.ops[0] != "a 50000.000 7.500 10.000" {
		fail("%v", b.ops)
	}''',be=True))
# ---- C10
bug('c10-kern-shrink-counter','C10',[('tex/box.go','''func (k *Kern) Shrink() {
	k.size--''','''func (k *Kern) Shrink() {
	k.size++''')],
 'a kern that is shrunk six times, or shrunk after having grown','the kern keeps its size',
 go('','''	k := tex.NewKern(100)
	b := tex.HBox(100)
	for i := 0; i < 7; i++ {
		k.Shrink()
		b.Shrink()
	}
	if k.Width() != b.Width() {
		fail("%v %v", k.Width(), b.Width())
	}''',be=True))
bug('c10-glue-set-order','C10',[('tex/box.go','''	lst.shift *= growFactor
	lst.glue.set *= growFactor''','''	lst.shift *= growFactor
	if lst.glue.sign > 0 {
		lst.glue.set *= growFactor
	}''')],
 'growing a list whose glue shrinks','the glue still takes away the old amount',
 go('','''	b := new(be)
	s := st(b)
	l := tex.HListOf([]tex.Node{tex.NewGlue("neg_fil"), tex.NewChar("a", s, false)}, false)
	l.HPack(-90, false)
	l.Grow()
	var sh tex.Ship
	sh.Call(0, 0, l)
	if b.ops[0][:5] != "a -14" {
		fail("%v", b.ops)
	}''',be=True))
# ---- C11
bug('c11-empty-hlist-width','C11',[('tex/box.go','''			case 0:
				ship.cur.h += node.Width()
			default:
				edge := ship.cur.h
				ship.cur.v = baseLine + node.lst.shift
				ship.hlistOut(node)''','''			case 0:
				// nothing to ship.
			default:
				edge := ship.cur.h
				ship.cur.v = baseLine + node.lst.shift
				ship.hlistOut(node)''')],
 'an empty horizontal list that was packed to a width','what follows is drawn too far to the left',
 go('','''	b := new(be)
	s := st(b)
	e := tex.HListOf(nil, false)
	e.HPack(10, false)
	var sh tex.Ship
	sh.Call(0, 0, tex.HListOf([]tex.Node{e, tex.NewChar("a", s, false)}, false))
	if b.ops[0] != "a 10.000 7.500 10.000" {
		fail("%v", b.ops)
	}''',be=True))
bug('c11-nested-vlist-depth','C11',[('tex/box.go','''				ship.vlistOut(node)
				ship.cur.v = curV + node.Depth()
				ship.cur.h = leftEdge''','''				ship.vlistOut(node)
				ship.cur.h = leftEdge
				if ship.cur.v < curV {
					ship.cur.v = curV + node.Depth()
				}''')],
 'a vertical list in a vertical list whose contents exceed its height','what follows starts at the end of the contents instead of the box',
 go('','''	b := new(be)
	s := st(b)
	in := tex.VListOf([]tex.Node{tex.HListOf([]tex.Node{tex.NewChar("a", s, false)}, false), tex.VBox(50, 0)})
	in.VPack(20, false, 0)
	out := tex.HListOf([]tex.Node{tex.VListOf([]tex.Node{in, tex.HListOf([]tex.Node{tex.NewChar("b", s, false)}, false)})}, false)
	var sh tex.Ship
	sh.Call(0, 0, out)
	if b.ops[1] != "b 0.000 27.500 10.000" {
		fail("%v", b.ops)
	}''',be=True))
# ---- C12
bug('c12-no-handler-skip','C12',[('mtex/parser.go','''			if h == nil {
				panic("no handler for symbol [" + n.Text + "]")
			}
			v.nodes''','''			if h == nil && !symbols.RightDelim.Has(n.Text) && !symbols.LeftDelim.Has(n.Text) {
				break
			}
			v.nodes''')],
 'a character in math that is not supported, such as a quote','it is silently left out of the drawing',
 go('','''	for _, x := range []string{"$a'$", "$a?$", "$[a$", "$a]$"} {
		r := &rec{}
		if err := mtex.Render(r, x, 12, 72, nil); err == nil && len(glyphs(r.ops)) != 2 {
			fail("%q: %d glyphs", x, len(glyphs(r.ops)))
		}
	}''',rec=True))
bug('c12-textmacro-dropped','C12',[('mtex/parser.go','''		v.nodes = append(v.nodes, h.Handle(v.p, n, v.state, v.math))
		return nil

	case nil:''','''		if v.math || !strings.HasPrefix(macro, `\\text`) {
			v.nodes = append(v.nodes, h.Handle(v.p, n, v.state, v.math))
		}
		return nil

	case nil:''')],
 'a text font command outside of math, for instance \\textit{x}','the command and its argument are silently left out',
 go('','''	r := &rec{}
	if err := mtex.Render(r, `a\\textit{x}`, 12, 72, nil); err == nil {
		fail("no error, %d glyphs", len(glyphs(r.ops)))
	}''',rec=True))
# ---- C13
bug('c13-ligature','C13',[('mtex/parser.go','''		for _, x := range n.Text {
			nodes''','''		for _, x := range strings.Replace(n.Text, "ffi", "\\ufb03", -1) {
			nodes''')],
 'a word containing ffi','three letters are drawn as one glyph',
 go('','''	if n := len(glyphs(draw("office", 12, 72).ops)); n != 6 {
		fail("%d glyphs", n)
	}''',rec=True))
# ---- C14
bug('c14-supplemental-operators','C14',[('font/ttf/ttf.go','idx < 0x10000 {','idx < 0x2a00 {')],
 'a symbol from U+2A00 on (supplemental operators), such as \\leqslant','it comes from the italic font',
 go('ttf','''	be := ttf.New(drawtex.New())
	_ = be
	g := glyphs(draw(`$\\leqslant\\leq$`, 12, 72).ops)
	if g[0].Glyph.Font != g[1].Glyph.Font {
		fail("fonts differ")
	}''',rec=True))
# ---- C15
bug('c15-min-rule','C15',[('mtex/parser.go','''		tex.HRule(state, rule),   // rule''','''		tex.HRule(state, visible(rule)),'''),('mtex/parser.go','''func isdigit(v byte)''','''// visible returns the thickness of a rule that can be seen.
func visible(rule float64) float64 {
	if rule > 0 {
		return math.Max(rule, 0.4)
	}
	return rule
}

func isdigit(v byte)''')],
 'a font size below 6.4','the bar is thicker than the default rule',
 go('math','''	r := rects(draw(`$\\frac{a}{b}$`, 4, 72).ops)[0]
	if math.Abs(r.Y2-r.Y1-0.25) > 1e-9 {
		fail("%v", r.Y2-r.Y1)
	}''',rec=True))
bug('c15-nested-dfrac','C15',[('mtex/parser.go','''	den := p.handleNode(denNode, state, math)

	return p.genfrac("", "", thickness, displayStyle, num, den, state)''','''	den := p.handleNode(denNode, state, math)

	style := displayStyle
	if strings.Count(p.expr[:macro.Pos()], `\\dfrac`) > 1 {
		style = textStyle // TeX's limit
	}
	return p.genfrac("", "", thickness, style, num, den, state)''')],
 'the third \\dfrac of an expression','its parts are one size smaller',
 go('','''	g := glyphs(draw(`$\\dfrac{a}{b}\\dfrac{a}{b}\\dfrac{a}{b}$`, 12, 72).ops)
	if g[0].Glyph.Size != g[4].Glyph.Size {
		fail("sizes differ")
	}''',rec=True))
# ---- C16
bug('c16-overline-deep','C16',[('mtex/parser.go','''	height := body.Height() - body.Shift() + 3*thickness
	depth := body.Depth() + body.Shift()
''','''	height := body.Height() - body.Shift() + 3*thickness
	depth := math_Min(body.Depth()+body.Shift(), state.Font.Size)
'''),('mtex/parser.go','''func isdigit(v byte) bool {''','''func math_Min(a, b float64) float64 { return math.Min(a, b) }

func isdigit(v byte) bool {''')],
 'an overline over content deeper than the font size, such as nested fractions','the content is raised: it is not laid out as on its own',
 go('','''	x := `\\dfrac{a}{\\dfrac{b}{\\dfrac{c}{d}}}`
	a := glyphs(draw("$"+x+"$", 12, 72).ops)
	b := glyphs(draw(`$\\overline{`+x+`}$`, 12, 72).ops)
	da := a[3].Y - a[0].Y
	db := b[3].Y - b[0].Y
	ra := rects(draw("$"+x+"e$", 12, 72).ops)
	_ = ra
	ea := draw("$"+x+"e$", 12, 72)
	eb := draw(`$\\overline{`+x+`}e$`, 12, 72)
	ga, gb := glyphs(ea.ops), glyphs(eb.ops)
	da = ga[4].Y - ga[0].Y
	db = gb[4].Y - gb[0].Y
	if d := da - db; d > 1 || d < -1 {
		fail("distance from the baseline: %v, overlined: %v", da, db)
	}''',rec=True))
# ---- C17
bug('c17-double-equals','C17',[('mtex/parser.go','''				p.makeSpace(state, 0.2),
				ch,
				p.makeSpace(state, 0.2),
''','''				p.makeSpace(state, 0.2),
				ch,
				p.makeSpace(state, after),
'''),('mtex/parser.go','''		switch {
		case symbols.BinaryOperators.Has(sym) &&''','''		after := 0.2
		if sym == "=" && strings.HasPrefix(p.expr[pos:], "==") {
			after = 0
		}
		switch {
		case symbols.BinaryOperators.Has(sym) &&''')],
 'two equals signs in a row','the first one is not followed by space',
 go('math','''	w := func(x string) float64 { return draw(x, 12, 72).w }
	if d := w("$==$") - 2*w("$=$"); math.Abs(d) > 1e-6 {
		fail("%v", d)
	}''',rec=True))
# ---- C18
bug('c18-group-kerning','C18',[('mtex/parser.go','''		for _, x := range n.List {
			ast.Walk(v, x)
		}''','''		for _, x := range n.List {
			if group, ok := x.(ast.List); ok && len(group) == 1 {
				v.nodes = append(v.nodes, v.p.handleNode(group[0], v.state, v.math))
				continue
			}
			ast.Walk(v, x)
		}'''),('mtex/parser.go','''		oldm := v.math
		oldt := v.state.Font.Type
''','''		oldm, oldt := v.math, v.state.Font.Type
''')],
 'a digit in a group of its own before or after a digit it has kerning with','enclosing it in a group changes the width',
 go('liberation','''	r, s := &rec{}, &rec{}
	_ = mtex.Render(r, `$\\alpha11$`, 12, 72, liberation.Fonts())
	_ = mtex.Render(s, `$\\alpha{1}1$`, 12, 72, liberation.Fonts())
	if r.w != s.w {
		fail("%v %v", r.w, s.w)
	}''',rec=True))
# ---- C19
bug('c19-kern-threshold','C19',[('font/ttf/ttf.go','''	if ft1.Name == ft2.Name && ft1.Size == ft2.Size {''','''	if ft1.Name == ft2.Name && ft1.Size == ft2.Size && ft1.Size >= 5 {''')],
 'a font size below 5 and glyphs with kerning','the kerning is left out at small sizes',
 go('liberation math','''	r, s := &rec{}, &rec{}
	_ = mtex.Render(r, `AVAVA`, 4, 72, liberation.Fonts())
	_ = mtex.Render(s, `AVAVA`, 40, 72, liberation.Fonts())
	if math.Abs(10*r.w-s.w) > 1e-3 {
		fail("%v %v", r.w, s.w)
	}''',rec=True))
# ---- C20
bug('c20-xheight-cache','C20',[('font/ttf/ttf.go','''	ft := be.getFont(fnt.Type)
	face, err''','''	if x, ok := be.xheights[fnt.Type]; ok {
		return x * fnt.Size
	}
	ft := be.fonts[fnt.Type]
	face, err'''),('font/ttf/ttf.go','''	return math.Abs(float64(face.Metrics().XHeight)) / 64
''','''	x := math.Abs(float64(face.Metrics().XHeight)) / 64
	if be.xheights == nil {
		be.xheights = make(map[string]float64)
	}
	be.xheights[fnt.Type] = x / fnt.Size
	return x
'''),('font/ttf/ttf.go','''	fonts  map[string]*sfnt.Font
}''','''	fonts  map[string]*sfnt.Font

	xheights map[string]float64
}''')],
 'the x-height of the same font type asked at different resolutions','the second answer is that for the first resolution',
 go('ttf lfont','''	be := ttf.New(drawtex.New())
	f := lfont.Font{Name: "default", Type: "rm", Size: 12}
	a := be.XHeight(f, 72)
	b := be.XHeight(f, 144)
	if b < 1.5*a {
		fail("%v %v", a, b)
	}''',rec=True))
bug('c20-default-slot','C20',[('font/ttf/ttf.go','''	be.fonts["default"] = fnts.Default
''','''	be.fonts["default"] = fnts.Rm
''')],
 'a font set whose default font is not its roman one','the default font is ignored',
 go('ttf lfont lm','''	fs := *lm.Fonts()
	fs.Default = fs.Bf
	a := ttf.NewFrom(drawtex.New(), &fs).Metrics("m", lfont.Font{Type: "default", Size: 12}, 72, false)
	b := ttf.NewFrom(drawtex.New(), &fs).Metrics("m", lfont.Font{Type: "bf", Size: 12}, 72, false)
	if a != b {
		fail("%v %v", a, b)
	}''',rec=True))
bug('c20-oint','C20',[('font/ttf/ttf.go','''	case `\\int`, `\\oint`:''','''	case `\\int`:''')],
 '\\oint','its metrics do not say that it is slanted',
 go('','''	if !glyphs(draw(`$\\oint$`, 12, 72).ops)[0].Glyph.Metrics.Slanted {
		fail("not slanted")
	}''',rec=True))
# ---- C21
bug('c21-lm-double-check','C21',[('font/lm/lm.go','''	once.Do(func() {
		rm, err''','''	load(func() {
		rm, err'''),('font/lm/lm.go','''// Fonts returns''','''// load calls f unless the fonts are there already.
func load(f func()) {
	if fnts == nil {
		once.Do(f)
	}
}

// Fonts returns''')],
 'the first call of lm.Fonts by several goroutines','the variable is read without synchronisation',
 go('lm sync','''	var wg sync.WaitGroup
	for i := 0; i < 64; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if lm.Fonts().Rm == nil {
				fail("no font")
			}
		}()
	}
	wg.Wait()'''),race=True)
bug('c21-lazy-spaced','C21',[('mtex/symbols/symbols.go','''	SpacedSymbols = UnionOf(BinaryOperators, RelationSymbols, ArrowSymbols)
)
''','''	SpacedSymbols = UnionOf(BinaryOperators, RelationSymbols, ArrowSymbols)

	last struct {
		name   string
		spaced bool
	}
)
'''),('mtex/symbols/symbols.go','''	return SpacedSymbols.Has(s)''','''	if last.name != s {
		last.name, last.spaced = s, SpacedSymbols.Has(s)
	}
	return last.spaced''')],
 'expressions laid out at the same time','the answer may be that for the symbol of another goroutine',
 go('symbols sync','''	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for j := 0; j < 10000; j++ {
				if i%2 == 0 != symbols.IsSpaced([]string{"+", "a"}[i%2]) {
					fail("wrong answer")
				}
			}
		}(i)
	}
	wg.Wait()'''),race=True)
bug('c21-fonts-map','C21',[('font/ttf/ttf.go','''		fonts:  make(map[string]*sfnt.Font),
	}

	be.fonts["default"]''','''		fonts:  fontMaps[fnts],
	}
	if be.fonts == nil {
		be.fonts = make(map[string]*sfnt.Font)
	}
	fontMaps[fnts] = be.fonts

	be.fonts["default"]'''),('font/ttf/ttf.go','''type ttfKey struct {''','''var fontMaps = make(map[*Fonts]map[string]*sfnt.Font)

type ttfKey struct {''')],
 'backends created at the same time','all share one unprotected map',
 go('mtex sync','''	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 20; j++ {
				draw("$a$", 12, 72)
			}
		}()
	}
	wg.Wait()''',rec=True),race=True)
# ---- C22
bug('c22-thin-rule','C22',[('drawtex/drawimg/drawimg.go','''	ctx.ClosePath()
	ctx.Fill()''','''	ctx.ClosePath()
	if (op.Y2-op.Y1)*dpi < 0.25 {
		ctx.ClearPath() // below a quarter of a pixel: invisible.
		return
	}
	defer ctx.Fill()''')],
 'a rule thinner than a quarter of a pixel','it is not drawn',
 go('drawimg bytes image/png','''	c := drawtex.New()
	c.RenderRectFilled(1, 1, 9, 1.2)
	b := new(bytes.Buffer)
	if err := drawimg.NewRenderer(b).Render(10./72, 10./72, 72, c); err != nil {
		fail("%v", err)
	}
	img, _ := png.Decode(b)
	if _, _, _, a := img.At(5, 1).RGBA(); a == 0 {
		fail("nothing drawn")
	}''',rec=True))
bug('c22-renderer-face-cache','C22',[('drawtex/drawimg/drawimg.go','''type Renderer struct {
	w io.Writer
}''','''type Renderer struct {
	w     io.Writer
	faces map[faceKey]font.Face
}

type faceKey struct {
	font *opentype.Font
	size float64
}'''),('drawtex/drawimg/drawimg.go','''	return &Renderer{w: w}''','''	return &Renderer{w: w, faces: make(map[faceKey]font.Face)}'''),
('drawtex/drawimg/drawimg.go','''			drawGlyph(ctx, dpi, op)''','''			r.drawGlyph(ctx, dpi, op)'''),
('drawtex/drawimg/drawimg.go','''func drawGlyph(ctx *gg.Context, dpi float64, op drawtex.GlyphOp) {
	face, err := opentype.NewFace(op.Glyph.Font, &opentype.FaceOptions{
		DPI:     dpi,
		Size:    op.Glyph.Size,
		Hinting: font.HintingNone,
	})
	if err != nil {
		panic(fmt.Errorf("could not open font face for glyph %q: %+v",
			op.Glyph.Symbol, err,
		))
	}
	defer face.Close()
''','''func (r *Renderer) drawGlyph(ctx *gg.Context, dpi float64, op drawtex.GlyphOp) {
	key := faceKey{op.Glyph.Font, op.Glyph.Size}
	face, ok := r.faces[key]
	if !ok {
		var err error
		face, err = opentype.NewFace(op.Glyph.Font, &opentype.FaceOptions{
			DPI:     dpi,
			Size:    op.Glyph.Size,
			Hinting: font.HintingNone,
		})
		if err != nil {
			panic(fmt.Errorf("could not open font face for glyph %q: %+v",
				op.Glyph.Symbol, err,
			))
		}
		r.faces[key] = face
	}
''')],
 'the same renderer used at two resolutions','the second image has glyphs of the size of the first',
 go('drawimg bytes','''	b := new(bytes.Buffer)
	one := drawimg.NewRenderer(b)
	for _, dpi := range []float64{72, 200} {
		b.Reset()
		if err := mtex.Render(one, "$ab$", 12, dpi, nil); err != nil {
			fail("%v", err)
		}
		c := new(bytes.Buffer)
		if err := mtex.Render(drawimg.NewRenderer(c), "$ab$", 12, dpi, nil); err != nil {
			fail("%v", err)
		}
		if !bytes.Equal(b.Bytes(), c.Bytes()) {
			fail("images at %v differ", dpi)
		}
	}''',rec=True))
# ---- C23
bug('c23-closed-pipe','C23',[('mtex/render.go','''	err = dst.Render(w/72, math.Ceil(h+math.Max(d, 0))/72, dpi, canvas)
	if err != nil {''','''	err = dst.Render(w/72, math.Ceil(h+math.Max(d, 0))/72, dpi, canvas)
	if err != nil && !errors.Is(err, io.ErrClosedPipe) {'''),('mtex/render.go','''	"fmt"
	"math"
''','''	"errors"
	"fmt"
	"io"
	"math"
''')],
 'output to a pipe whose reader has been closed','success is reported',
 go('drawimg io','''	r, w := io.Pipe()
	r.Close()
	if err := mtex.Render(drawimg.NewRenderer(w), "$ab$", 12, 72, nil); err == nil {
		fail("no error")
	}''',rec=True))
bug('c23-full-write-error','C23',[('drawtex/drawimg/drawimg.go','''	return png.Encode(r.w, ctx.Image())''','''	buf := new(bytes.Buffer)
	err := png.Encode(buf, ctx.Image())
	if err != nil {
		return err
	}
	n, err := r.w.Write(buf.Bytes())
	if n == buf.Len() {
		return nil
	}
	return err'''),('drawtex/drawimg/drawimg.go','''import (
	"fmt"''','''import (
	"bytes"
	"fmt"''')],
 'a writer that takes all bytes and reports an error','the error is dropped',
 go('drawimg io','''	if err := mtex.Render(drawimg.NewRenderer(w{}), "$ab$", 12, 72, nil); err == nil {
		fail("no error")
	}''',rec=True).replace('func main()','''type w struct{}

func (w) Write(p []byte) (int, error) { return len(p), io.ErrUnexpectedEOF }

func main()'''))
# ---- C26
bug('c26-shared-glyph-cache','C26',[('font/ttf/ttf.go','''	key := ttfKey{symbol, fnt, dpi}
	val, ok := be.glyphs[key]
	if ok {
		return val
	}
''','''	key := ttfKey{be.fonts["it"], symbol, fnt, dpi}
	glyphs.Lock()
	val, ok := glyphs.vals[key]
	glyphs.Unlock()
	if ok {
		return val
	}
'''),('font/ttf/ttf.go','''	be.glyphs[key] = val
''','''	glyphs.Lock()
	glyphs.vals[key] = val
	glyphs.Unlock()
'''),('font/ttf/ttf.go','''type ttfKey struct {''','''// glyphs already loaded.
var glyphs = struct {
	sync.Mutex
	vals map[ttfKey]ttfVal
}{vals: make(map[ttfKey]ttfVal)}

type ttfKey struct {
	set    *sfnt.Font'''),('font/ttf/ttf.go','''	"math"
	"unicode"
''','''	"math"
	"sync"
	"unicode"
''')],
 'the same expression rendered with two font sets that share their italic font','the second rendering uses the glyphs of the first set',
 go('lm liberation','''	r, s := &rec{}, &rec{}
	_ = mtex.Render(r, `$1$`, 12, 72, lm.Fonts())
	fs := *lm.Fonts()
	fs.Rm = liberation.Fonts().Rm
	_ = mtex.Render(s, `$1$`, 12, 72, &fs)
	if glyphs(s.ops)[0].Glyph.Font != fs.Rm {
		fail("wrong font")
	}''',rec=True))
# ---- C27
bug('c27-has-trim','C27',[('mtex/symbols/set.go','''	return ok
}

func (set Set) Keys''','''	if !ok && len(k) > 1 {
		_, ok = set[k[1:]] // without the backslash
	}
	return ok && len(set) > 0
}

func (set Set) Keys''')],
 'names that consist of a member and one more character in front','they are said to be members',
 go('symbols','''	if symbols.NewSet("+").Has("-+") {
		fail("-+ is a member of {+}")
	}'''))
