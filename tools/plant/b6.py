import sys; sys.path.insert(0,'/tmp/plant')
from lib import go
from b4 import gui, CMD, PDF
BUGS=[]
def bug(id,prop,edits,needs,breaks,demo=None,race=False,shs=None):
    b=dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,race=race)
    if shs: b['sh']=shs
    else: b['demo']=demo
    BUGS.append(b)
PA='parser.go'; SC='scanner.go'; MP='mtex/parser.go'; RE='mtex/render.go'; BX='tex/box.go'; TT='font/ttf/ttf.go'; AS='ast/ast.go'; WA='ast/walk.go'; DI='drawtex/drawimg/drawimg.go'; DP='drawtex/drawpdf/drawpdf.go'; ST='mtex/symbols/set.go'; SY='mtex/symbols/symbols.go'; CM='cmd/mtex-render/main.go'; G='cmd/mtex-render/gio.go'; CV='drawtex/canvas.go'; U='internal/tex2unicode/utf8.go'

bug('c01-lone-backslash','C01',[(PA,'''	if !ok || macro == nil {
		panic("unknown macro " + name)''','''	if !ok || macro == nil {
		switch name[1] {
		case 'b', 'e':
			// most likely an environment.
			panic("unknown macro or environment " + name)
		}
		panic("unknown macro " + name)''')],'an input that ends with a backslash','an index out of range panic reaches the caller',
 go('latex','''	defer func() {
		if e := recover(); e != nil {
			fail("panic: %v", e)
		}
	}()
	if _, err := latex.ParseExpr(`x\\\\`[:2]); err == nil {
		fail("no error")
	}'''))
bug('c02-huge-number','C02',[(PA,'''func (p *parser) parseNumber(tok token.Token) ast.Node {
''','''func (p *parser) parseNumber(tok token.Token) ast.Node {
	if _, err := strconv.ParseFloat(tok.Text, 32); err != nil {
		panic(fmt.Errorf("invalid number %q", tok.Text))
	}
'''),(PA,'	"strings"\n','	"strconv"\n	"strings"\n')],'a number of 39 digits or more','it is rejected as out of range',
 go('latex','''	if _, err := latex.ParseExpr("$1234567890123456789012345678901234567890$"); err != nil {
		fail("%v", err)
	}'''))
bug('c02-intern-case','C02',[(PA,'''	macros map[string]macroParser
}''','''	macros map[string]macroParser
	words  map[string]string // words seen so far, to share their text.
}'''),(PA,'''	return &ast.Word{
		WordPos: tok.Pos,
		Text:    tok.Text,
	}''','''	return &ast.Word{
		WordPos: tok.Pos,
		Text:    p.intern(tok.Text),
	}'''),(PA,'''func (p *parser) parseNumber(''','''func (p *parser) intern(s string) string {
	k := strings.ToLower(s)
	if w, ok := p.words[k]; ok && len(w) == len(s) {
		return w
	}
	if p.words == nil {
		p.words = make(map[string]string)
	}
	p.words[k] = s
	return s
}

func (p *parser) parseNumber(''')],'a word that was used before in another case','the text of the earlier word is returned',
 go('latex ast','''	n, err := latex.ParseExpr("$x+X$")
	if err != nil {
		fail("%v", err)
	}
	l := n.(ast.List)[0].(*ast.MathExpr).List
	if got := l[2].(*ast.Word).Text; got != "X" {
		fail("%q", got)
	}'''))
bug('c02-flatten-group','C02',[(PA,'''	return lst
}''','''	if len(lst) == 1 {
		if inner, ok := lst[0].(ast.List); ok && len(inner) > 1 {
			return inner
		}
	}
	return lst
}''')],'a group that holds nothing but another group','one of the groups is lost',
 go('latex ast','''	n, err := latex.ParseExpr("${{xyz+y}}$")
	if err != nil {
		fail("%v", err)
	}
	l := n.(ast.List)[0].(*ast.MathExpr).List[0].(ast.List)
	if len(l) != 1 {
		fail("%v", l)
	}'''))
bug('c03-macro-case','C03',[(PA,'''	macro, ok := p.macros[name]
''','''	macro, ok := p.macros[name]
	if !ok {
		// be lenient: ΓGAMMA is Γgamma.
		macro, ok = p.macros[strings.ToLower(name)]
	}
'''.replace('Γ','\\'))],'a macro name in another case','an unknown macro is accepted',
 go('latex','''	if _, err := latex.ParseExpr(`$\\FRAC{a}{b}$`); err == nil {
		fail("no error")
	}'''))
bug('c03-star','C03',[(PA,'''	macro, ok := p.macros[name]
''','''	macro, ok := p.macros[name]
	if ok && p.s.sc.Peek() == '*' && name == `\\operatorname` {
		p.s.sc.Next() // starred form.
	}
''')],'a star after operatorname','the star is silently dropped',
 go('latex','''	if _, err := latex.ParseExpr(`$\\operatorname*{x}$`); err == nil {
		fail("no error")
	}'''))
bug('c06-skip-duplicate','C06',[(WA,'''	for _, x := range nodes {
		if x == nil {
			continue
		}
''','''	for i, x := range nodes {
		if x == nil {
			continue
		}
		if s, ok := x.(*Symbol); ok && i > 0 && nodes[i-1] == Node(s) {
			continue // already visited
		}
''')],'a tree that holds the same node twice in a row','it is visited once',
 go('ast','''	s := &ast.Symbol{Text: "+"}
	n := 0
	ast.Inspect(ast.List{s, s}, func(x ast.Node) bool {
		if x == ast.Node(s) {
			n++
		}
		return true
	})
	if n != 2 {
		fail("%d", n)
	}'''.replace('if x == ast.Node(s)','if y, ok := x.(*ast.Symbol); ok && y == s')))
bug('c06-depth-guard','C06',[(WA,'''	case *Arg:
		walkNodes(v, n.List)
''','''	case *Arg:
		if len(n.List) == 1 {
			if x := n.List[0]; x != nil {
				v = v.Visit(x)
				if v == nil {
					return
				}
				walkNodes(v, children(x))
			}
			break
		}
		walkNodes(v, n.List)
'''),(WA,'''func walkNodes(''','''// children returns the children of a node.
func children(n Node) []Node {
	switch n := n.(type) {
	case List:
		return n
	case *Macro:
		return append(List{n.Name}, n.Args...)
	case *MathExpr:
		return n.List
	case *Sub:
		return List{n.Node}
	case *Sup:
		return List{n.Node}
	}
	return nil
}

func walkNodes(''')],'an argument with one item','the call with nil after its children is missing',
 go('latex ast','''	n, err := latex.ParseExpr(`\\sqrt{x}`)
	if err != nil {
		fail("%v", err)
	}
	in, out := 0, 0
	ast.Inspect(n, func(x ast.Node) bool {
		if x == nil {
			out++
		} else {
			in++
		}
		return true
	})
	if in != out {
		fail("%d %d", in, out)
	}'''))
bug('c07-long-word','C07',[(AS,'''		fmt.Fprintf(o, "ast.Word{%q}", node.Text)''','''		fmt.Fprintf(o, "ast.Word{%.80q}", node.Text)''')],'a word of more than 80 letters','the text is cut',
 go('ast strings','''	var a, b strings.Builder
	ast.Print(&a, &ast.Word{Text: strings.Repeat("x", 90)})
	ast.Print(&b, &ast.Word{Text: strings.Repeat("x", 91)})
	if a.String() == b.String() {
		fail("%s", a.String())
	}'''))
bug('c07-long-list','C07',[(AS,'''		for i, n := range node {
			if i > 0 {
				fmt.Fprintf(o, ", ")
			}
''','''		for i, n := range node {
			if i > 0 {
				fmt.Fprintf(o, ", ")
			}
			if i >= 250 {
				fmt.Fprintf(o, "...")
				break
			}
''')],'a list of more than 250 nodes','the rest is elided',
 go('ast strings','''	var a, b strings.Builder
	l := ast.List{}
	for i := 0; i < 300; i++ {
		l = append(l, &ast.Word{Text: "x"})
	}
	ast.Print(&a, l[:299])
	ast.Print(&b, l)
	if a.String() == b.String() {
		fail("equal")
	}'''))
bug('c08-negative-natural','C08',[(BX,'''	lst.lst.box.height = h
	lst.lst.box.depth = d

	if additional {
		width += x
	}''','''	lst.lst.box.height = h
	lst.lst.box.depth = d

	if additional {
		width = math.Max(0, width+x)
	}''')],'a list whose kerns are wider, to the left, than the rest','its width is 0 instead of negative',
 go('tex','''	h := tex.HListOf([]tex.Node{tex.NewKern(-5), tex.HBox(2)}, false)
	if h.Width() != -3 {
		fail("%g", h.Width())
	}'''))
bug('c08-vlist-glue-depth','C08',[(BX,'''	*height += *depth + k.width
	*depth = 0
''','''	*height += *depth + k.width
	if k.width != 0 {
		*depth = 0
	}
''')],'a kern of zero in a vertical list after a box with depth','the depth of the box counts twice',
 go('tex','''	v := tex.VListOf([]tex.Node{tex.VBox(2, 3), tex.NewKern(0)})
	if v.Height() != 5 || v.Depth() != 0 {
		fail("%g %g", v.Height(), v.Depth())
	}'''))
bug('c09-tiny-excess','C09',[(BX,'''	case totals[o] != 0:
		lst.glue.set = x / totals[o]''','''	case totals[o] != 0 && math.Abs(x) < 1:
		lst.glue.set = math.Round(x) / totals[o] // less than a unit: not visible
	case totals[o] != 0:
		lst.glue.set = x / totals[o]''')],'a difference of less than one unit','the glue is set as if there was none, or one unit',
 go('tex','''	h := tex.HListOf([]tex.Node{tex.NewGlue("fil"), tex.HBox(2)}, false)
	h.HPack(2.4, false)
	if h.GlueSet() < 0.39 || h.GlueSet() > 0.41 {
		fail("%g", h.GlueSet())
	}'''))
bug('c09-same-sign-order','C09',[(BX,'''		if totals[i] != 0 {
			return i
		}''','''		if totals[i] > 0 {
			return i
		}''')],'a list with glue whose shrink is negative packed to less than its size','the order of the glue is 0: nothing is centred',
 go('tex','''	h := tex.HListOf([]tex.Node{tex.NewGlue("ss"), tex.HBox(20), tex.NewGlue("ss")}, false)
	h.HPack(10, false)
	if h.GlueOrder() != 1 {
		fail("%d", h.GlueOrder())
	}'''))
bug('c10-empty-list','C10',[(BX,'''func (lst *List) Shrink() {
''','''func (lst *List) Shrink() {
	if len(lst.children) == 0 {
		return // nothing to scale
	}
''')],'an empty list packed to some width','it keeps its size',
 go('tex','''	h := tex.HListOf(nil, false)
	h.HPack(10, false)
	h.Shrink()
	if h.Width() == 10 {
		fail("%g", h.Width())
	}'''))
bug('c10-rule-hairline','C10',[(BX,'''func (rule *Rule) Shrink()                   { rule.box.Shrink() }
''','''func (rule *Rule) Shrink() {
	rule.box.Shrink()
	if h := rule.box.height + rule.box.depth; h > 0 && h < 0.1 {
		// keep the rule visible
		rule.box.height *= 0.1 / h
		rule.box.depth *= 0.1 / h
	}
}
''')],'a rule shrunk to less than a tenth of a point','it gets thicker again',
 go('tex','''	h := tex.NewRule(1, 0.03, 0.03, st(&be{}))
	h.Shrink()
	if h.Height() > 0.025 {
		fail("%g", h.Height())
	}''',be=True))
bug('c11-negative-rule','C11',[(BX,'''			if ruleHeight > 0 && ruleWidth > 0 {
				ship.cur.v = baseLine + ruleDepth''','''			if ruleHeight != 0 && ruleWidth != 0 {
				ship.cur.v = baseLine + ruleDepth''')],'a rule of negative width or height in a horizontal list','it is drawn',
 go('tex','''	b := &be{}
	h := tex.HListOf([]tex.Node{tex.NewRule(-5, 3, 0, st(b)), tex.NewChar("x", st(b), false)}, false)
	var sh tex.Ship
	sh.Call(0, 0, h)
	if len(b.ops) != 1 {
		fail("%v", b.ops)
	}''',be=True))
bug('c11-third-glue','C11',[(BX,'''					if node.stretchOrder == glueOrder {
						curGlue += node.stretch
						curG = int(math.Round(clamp(box.GlueSet() * curGlue)))
					}
				case node.shrinkOrder == glueOrder: // shrinking''','''					if node.stretchOrder == glueOrder {
						curGlue += node.stretch
						g := int(math.Round(clamp(box.GlueSet() * node.stretch)))
						curG += g
					}
				case node.shrinkOrder == glueOrder: // shrinking''')],'many glues with a fraction of a unit each','the rounding errors add up',
 go('tex strings','''	b := &be{}
	var ns []tex.Node
	for i := 0; i < 20; i++ {
		ns = append(ns, tex.NewGlue("fil"))
	}
	ns = append(ns, tex.NewChar("x", st(b), false))
	h := tex.HListOf(ns, false)
	h.HPack(10+8, false)
	var sh tex.Ship
	sh.Call(0, 0, h)
	if !strings.HasPrefix(b.ops[0], "x 8.000") {
		fail("%v", b.ops)
	}''',be=True))
bug('c12-hspace-macro','C12',[(MP,'''		case *ast.Symbol:
			arg += n.Text
		default:
			panic(fmt.Errorf("invalid customspace argument (%T)", n))''','''		case *ast.Symbol:
			arg += n.Text
		case *ast.Macro:
			// spacing around the number has no meaning.
		default:
			panic(fmt.Errorf("invalid customspace argument (%T)", n))''')],'a macro in the argument of hspace','it is left out of the drawing without an error',
 go('mtex','''	err := mtex.Render(&rec{}, `$\\hspace{1\\alpha}$`, 12, 72, nil)
	if err == nil {
		fail("no error")
	}''',rec=True))
bug('c12-script-last','C12',[(MP,'''	case nil:
		return v

	default:''','''	case nil:
		return v

	case *ast.Sub, *ast.Sup:
		if len(v.nodes) > 0 {
			panic(fmt.Errorf("scripts are not supported (%T)", n))
		}
		return nil

	default:''')],'a script that starts a group','it is silently left out',
 go('mtex','''	err := mtex.Render(&rec{}, `$y\\sqrt{^2}$`, 12, 72, nil)
	if err == nil {
		fail("no error")
	}''',rec=True))
bug('c12-mathfont-empty','C12',[(MP,'''		macro := n.Name.Name
		h := v.p.handler(macro)
''','''		macro := n.Name.Name
		if len(n.Args) == 1 && strings.HasPrefix(macro, `\\math`) {
			if arg, ok := n.Args[0].(*ast.Arg); ok && len(arg.List) == 0 {
				return nil // nothing to draw in that font.
			}
		}
		h := v.p.handler(macro)
''')],'x','','')
BUGS.pop()
bug('c13-ship-depth','C13',[(BX,'''	ship.cur.s++
	ship.maxPush = maxInt(ship.cur.s, ship.maxPush)

	for _, node := range box.Nodes() {
		switch node := node.(type) {
		case *Char:''','''	ship.cur.s++
	ship.maxPush = maxInt(ship.cur.s, ship.maxPush)
	if ship.cur.s > 256 {
		// runaway nesting
		ship.cur.s--
		return
	}

	for _, node := range box.Nodes() {
		switch node := node.(type) {
		case *Char:''')],'more than 256 nested boxes','the innermost ones are not drawn',
 go('mtex strings','''	r := draw("$"+strings.Repeat(`\\sqrt{`, 300)+"x"+strings.Repeat("}", 300)+"$", 12, 72)
	n := 0
	for _, g := range glyphs(r.ops) {
		if g.Glyph.Symbol == "x" {
			n++
		}
	}
	if n != 1 {
		fail("%d", n)
	}''',rec=True))
bug('c13-same-place','C13',[(CV,'''	c.ops = append(c.ops, GlyphOp{x, y, infos})
''','''	if n := len(c.ops); n > 0 {
		// the same glyph at the same place: already drawn.
		if op, ok := c.ops[n-1].(GlyphOp); ok && op.X == x && op.Y == y && op.Glyph.Num == infos.Num {
			return
		}
	}
	c.ops = append(c.ops, GlyphOp{x, y, infos})
''')],'a symbol drawn right over itself','one of the two is dropped',
 go('mtex','''	n := len(draw(`$xx$`, 0, 72).ops)
	if n != 2 {
		fail("%d", n)
	}''',rec=True))
bug('c14-letterlike','C14',[(TT,'''		if !unicode.Is(unicode.L, idx) {''','''		if !unicode.Is(unicode.L, idx) || unicode.Is(unicode.Other_Math, idx) && idx > 0x2100 {''')],'a letterlike symbol (ell, Re, Im, ...)','it comes from the roman font',
 go('mtex','''	a := glyphs(draw(`$x$`, 12, 72).ops)[0].Glyph
	b := glyphs(draw(`$\\ell$`, 12, 72).ops)[0].Glyph
	if a.Font != b.Font {
		fail("%s %s", a.Postscript, b.Postscript)
	}''',rec=True))
bug('c14-nested-dollar','C14',[(MP,'''		v.math = oldm
''','''		v.math = false
		_ = oldm
''')],'a hyphen after math nested in a group or an argument in math','it draws the hyphen instead of a minus sign',
 go('mtex','''	r := draw(`$\\sqrt{$b$}\\sqrt{x{$b$-c}}$`, 12, 72)
	for _, g := range glyphs(r.ops) {
		if g.Glyph.Symbol == "-" {
			fail("hyphen")
		}
	}''',rec=True))
bug('c14-nested-type','C14',[(MP,'''		v.math = oldm
		v.state.Font.Type = oldt''','''		v.math = oldm
		if v.state.Font.Type = "rm"; oldm && len(n.List) == 0 {
			v.state.Font.Type = oldt
		}''')],'letters after math nested in math','they come from the roman font',
 go('mtex','''	r := draw(`${$b$}c$`, 12, 72)
	gs := glyphs(r.ops)
	if gs[0].Glyph.Font != gs[1].Glyph.Font {
		fail("fonts")
	}
	r = draw(`$\\sqrt{{$b$x}{{$a$+c}}}$`, 12, 72)
	fs := map[string]bool{}
	for _, g := range glyphs(r.ops) {
		if g.Glyph.Symbol == "b" || g.Glyph.Symbol == "c" || g.Glyph.Symbol == "x" {
			fs[g.Glyph.Postscript] = true
		}
	}
	if len(fs) != 1 {
		fail("%v", fs)
	}''',rec=True))
bug('c15-close-widths','C15',[(MP,'''	width := math.Max(num.Width(), den.Width())

''','''	width := math.Max(num.Width(), den.Width())
	if math.Abs(num.Width()-den.Width()) < 3 {
		width = num.Width()
	}

''')],'a denominator a little wider than the numerator','the bar is as wide as the numerator only',
 go('mtex','''	for _, x := range "abcdefghij" {
		for _, y := range "klmnopq" {
			r := draw(`$\\dfrac{`+string(x)+`}{`+string(y)+`}$`, 12, 72)
			b := rects(r.ops)[0]
			w := draw(`$`+string(x)+`$`, 12, 72).w
			if w2 := draw(`$`+string(y)+`$`, 12, 72).w; w2 > w {
				w = w2
			}
			if d := b.X2 - b.X1 - w*72; d > 1e-6 || d < -1e-6 {
				fail("%v", d)
			}
		}
	}''',rec=True))
bug('c15-paren-cap','C15',[(MP,'''		factor = 0
	}
''','''		factor = 0
		if max := 30 * state.Font.Size; height+depth > max {
			// no font has larger delimiters
			height, depth = height*max/(height+depth), depth*max/(height+depth)
		}
	}
''')],'a binomial more than 30 times as tall as the font size','the parentheses do not cover its height',
 go('mtex strings','''	x := "x"
	for i := 0; i < 90; i++ {
		x = `\\dfrac{` + x + `}{y}`
	}
	r := draw(`$\\binom{`+x+`}{z}$`, 12, 72)
	size := 0.0
	for _, g := range glyphs(r.ops) {
		if g.Glyph.Symbol == "(" {
			size = g.Glyph.Metrics.Height
		}
	}
	_ = strings.Repeat
	lo, hi := 1e9, -1e9
	for _, b := range rects(r.ops) {
		if b.Y1 < lo {
			lo = b.Y1
		}
		if b.Y2 > hi {
			hi = b.Y2
		}
	}
	if size < hi-lo {
		fail("%g %g", size, hi-lo)
	}''',rec=True))
bug('c15-tall-shift','C15',[(MP,'''	vlist.SetShift(shift)
''','''	if max := 10 * state.Font.Size; shift > max {
		shift = max
	}
	vlist.SetShift(shift)
''')],'a denominator ten times as tall as the font size','the bar is not at the height of the equals sign',
 go('mtex','''	x := "x"
	for i := 0; i < 30; i++ {
		x = `\\dfrac{` + x + `}{y}`
	}
	r := draw(`$\\dfrac{y}{`+x+`}=$`, 12, 72)
	r2 := draw(`$\\frac{y}{z}=$`, 12, 72)
	f := func(r *rec) float64 {
		gs := glyphs(r.ops)
		y := gs[len(gs)-1].Y
		return rects(r.ops)[0].Y1 + rects(r.ops)[0].Y2 - 2*y
	}
	if d := f(r) - f(r2); d > 1e-6 || d < -1e-6 {
		fail("%g", d)
	}''',rec=True))
bug('c16-wide-padding','C16',[(MP,'''	// put a little extra space to the left and right of the body
	padded := tex.HListOf([]tex.Node{
		tex.HBox(2 * thickness),''','''	// put a little extra space to the left and right of the body
	lpad := 2 * thickness
	if body.Width() > 40*state.Font.Size {
		lpad = 0
	}
	padded := tex.HListOf([]tex.Node{
		tex.HBox(lpad),''')],'a body forty times as wide as the font size','there is no padding to the left of it',
 go('mtex strings','''	r := draw(`$\\sqrt{`+strings.Repeat("m", 100)+`}$`, 12, 72)
	b := rects(r.ops)[0]
	for _, g := range glyphs(r.ops) {
		if g.Glyph.Symbol == "m" {
			if g.X-b.X1 < 1 {
				fail("%g", g.X-b.X1)
			}
			break
		}
	}''',rec=True))
bug('c16-deep-body','C16',[(MP,'''	height := body.Height() - body.Shift() + 5*thickness
	depth := body.Depth() + body.Shift()
	check''','''	height := body.Height() - body.Shift() + 5*thickness
	depth := body.Depth() + body.Shift()
	if depth > height {
		depth = height
	}
	check''')],'a body that is deeper than it is high','the radical sign does not span it',
 go('mtex','''	x := `\\tfrac{x}{\\frac{y}{\\dfrac{z}{\\dfrac{z}{\\dfrac{z}{\\dfrac{z}{w}}}}}}`
	r := draw(`$\\sqrt{\\dfrac{.}{\\dfrac{.}{\\dfrac{.}{\\dfrac{.}{`+x+`}}}}}$`, 12, 72)
	bot := 0.0
	var sign float64
	for _, g := range glyphs(r.ops) {
		if g.Glyph.Symbol == "√" {
			sign = g.Y + g.Glyph.Metrics.Height - g.Glyph.Metrics.Iceberg
			continue
		}
		if y := g.Y + g.Glyph.Metrics.Height - g.Glyph.Metrics.Iceberg; y > bot {
			bot = y
		}
	}
	if sign < bot-1 {
		fail("%g %g", sign, bot)
	}''',rec=True))
bug('c17-decimal-at-end','C17',[(MP,'(pos < len(p.expr)-1 && isdigit(p.expr[pos+1]))','(pos < len(p.expr)-2 && isdigit(p.expr[pos+1]))')],'a decimal number with one digit at the very end of the text','the dot is spaced',
 go('mtex','''	a := draw(`1.5`, 12, 72)
	b := draw(`1.55`, 12, 72)
	ga, gb := glyphs(a.ops), glyphs(b.ops)
	if ga[2].X != gb[2].X {
		fail("%g %g", ga[2].X, gb[2].X)
	}''',rec=True))
bug('c17-bf-space','C17',[(MP,'''	for _, c := range fun {
		nodes = append(nodes, tex.NewChar(string(c), state, math))
	}
''','''	for _, c := range fun {
		nodes = append(nodes, tex.NewChar(string(c), state, math))
	}
	if len(macro.Args) > 0 {
		nodes = append(nodes, p.makeSpace(state, 0.16667))
	}
''')],'the exp function and its argument','there is space between the two',
 go('mtex','''	gs := glyphs(draw(`$\\exp{x}$`, 12, 72).ops)
	w := draw(`exp`, 12, 72).w * 72
	if d := gs[3].X - w; d > 1 {
		fail("%g", d)
	}''',rec=True))
bug('c17-space-size','C17',[(MP,'''	width := p.be.Metrics("m", fnt, state.DPI, math).Advance
	return tex.NewKern(width * percentage)''','''	width := p.be.Metrics("m", fnt, state.DPI, math).Advance
	return tex.NewKern(math1k(width * percentage))'''),(MP,'''func isdigit(''','''// math1k limits a space to what fits in a TeX dimension.
func math1k(v float64) float64 {
	return math.Max(-1000, math.Min(v, 1000))
}

func isdigit(''')],'a space wider than 1000 points','it is clipped',
 go('mtex','''	a := draw(`$a\\hspace{200}b$`, 12, 72)
	gs := glyphs(a.ops)
	if gs[1].X < 1500 {
		fail("%g", gs[1].X)
	}''',rec=True))
bug('c18-depth-only','C18',[(RE,'math.Ceil(h+math.Max(d, 0))/72','math.Ceil(math.Max(h+math.Max(d, 0), 0))/72')],'x','','')
BUGS.pop()
bug('c18-min-height','C18',[(RE,'''	h := box.Height()
	d := box.Depth()
''','''	h := math.Max(box.Height(), 1)
	d := box.Depth()
''')],'a formula less than one point high','its height is reported as at least one point, plus the depth',
 go('mtex','''	r := draw(`$.,$`, 1, 72)
	h := draw(`$.,$`, 100, 72)
	if h.h*72 < 20 || r.h*72 > 1.5 {
		fail("%g %g", h.h*72, r.h*72)
	}''',rec=True))
bug('c19-thickness-grid','C19',[(TT,'	return (0.75 / 12 * font.Size * dpi) / 72','''	t := (0.75 / 12 * font.Size * dpi) / 72
	if t > 8 {
		t = float64(int(t*16)) / 16
	}
	return t''')],'a font size above 128','rules are a little thinner than they should be',
 go('ttf lfont','''	b := ttf.New(nil)
	t := b.UnderlineThickness(lfont.Font{Size: 1000.1}, 72)
	if d := t/1000.1 - 0.0625; d > 1e-9 || d < -1e-9 {
		fail("%g", t)
	}'''))
bug('c20-metrics-cache-mod','C20',[(TT,'''	key := ttfKey{symbol, fnt, dpi}
	val, ok := be.glyphs[key]
	if ok {
		return val
	}
''','''	key := ttfKey{symbol, fnt, dpi}
	key.font.Name = "" // only the type selects the font
	key.font.Size = float64(int64(fnt.Size*1024)) / 1024
	val, ok := be.glyphs[key]
	if ok {
		return val
	}
''')],'two sizes that differ by less than a thousandth of a point','the second gets the metrics of the first',
 go('ttf lfont','''	b := ttf.New(nil)
	f := lfont.Font{Name: "default", Type: "rm", Size: 0.0011}
	g := lfont.Font{Name: "default", Type: "rm", Size: 0.0018}
	x := b.Metrics("x", f, 72, true).Advance
	y := b.Metrics("x", g, 72, true).Advance
	if x == y {
		fail("%g %g", x, y)
	}'''))
bug('c20-fonts-shared-nil','C20',[(TT,'''	be.fonts["bf"] = fnts.Bf
''','''	be.fonts["bf"] = fnts.Bf
	if fnts.Bf == nil {
		be.fonts["bf"] = fnts.Rm
	}
	if fnts.It == nil || fnts.It == fnts.BfIt {
		be.fonts["it"] = fnts.Rm
	}
''')],'a font set whose italic and bold italic fonts are the same','its italic font is not used',
 go('ttf lfont lm','''	fs := lm.Fonts()
	fs2 := *fs
	fs2.BfIt = fs2.It
	f := lfont.Font{Name: "default", Type: "it", Size: 10}
	x := ttf.NewFrom(nil, fs).Metrics("x", f, 72, true).Width
	y := ttf.NewFrom(nil, &fs2).Metrics("x", f, 72, true).Width
	if x != y {
		fail("%g %g", x, y)
	}'''))
bug('c21-index-memo','C21',[(U,'''	r, ok := tex2uni[strings.Replace(v, `\\`, "", 1)]
''','''	if v == lastSymbol {
		return lastRune
	}

	r, ok := tex2uni[strings.Replace(v, `\\`, "", 1)]
	if ok {
		lastSymbol, lastRune = v, r
	}
'''),(U,'''// Index associates''','''// last symbol that was looked up.
var (
	lastSymbol string
	lastRune   rune
)

// Index associates''')],'several goroutines looking up symbols','they race for the last symbol: one gets the rune of another',
 go('sync','''	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for j := 0; j < 20; j++ {
				r := &rec{}
				if err := mtex.Render(r, []string{`$\\alpha\\beta$`, `$\\gamma\\pi$`}[i%2], 12, 72, nil); err != nil {
					fail("%v", err)
				}
			}
		}(i)
	}
	wg.Wait()''',rec=True),race=True)
bug('c21-keys-memo','C21',[(ST,'''func (set Set) Keys() []string {
''','''// keysCache holds the sorted members of the sets that were listed.
var keysCache = make(map[int][]string)

func (set Set) Keys() []string {
	if keys, ok := keysCache[len(set)]; ok && same(set, keys) {
		return append([]string(nil), keys...)
	}
'''),(ST,'''	sort.Strings(keys)
	return keys
}''','''	sort.Strings(keys)
	keysCache[len(set)] = append([]string(nil), keys...)
	return keys
}

func same(set Set, keys []string) bool {
	for _, k := range keys {
		if !set.Has(k) {
			return false
		}
	}
	return true
}''')],'several goroutines listing sets','they write to the same map',
 go('sync symbols','''	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for j := 0; j < 100; j++ {
				symbols.Greek.Keys()
				symbols.ArrowSymbols.Keys()
			}
		}(i)
	}
	wg.Wait()'''.replace('symbols.Greek.Keys()','symbols.RelationSymbols.Keys()')),race=True)
bug('c22-face-cache','C22',[(DI,'''	for _, op := range c.Ops() {
		switch op := op.(type) {
		case drawtex.GlyphOp:
			drawGlyph(ctx, dpi, op)''','''	faces := make(map[string]font.Face)
	for _, op := range c.Ops() {
		switch op := op.(type) {
		case drawtex.GlyphOp:
			drawGlyph(ctx, dpi, op, faces)'''),(DI,'func drawGlyph(ctx *gg.Context, dpi float64, op drawtex.GlyphOp) {\n	face, err := opentype.NewFace(','''func drawGlyph(ctx *gg.Context, dpi float64, op drawtex.GlyphOp, faces map[string]font.Face) {
	key := fmt.Sprintf("%p-%.2f", op.Glyph.Font, op.Glyph.Size)
	if face, ok := faces[key]; ok {
		ctx.SetFontFace(face)
		dpi /= 72
		ctx.DrawString(op.Glyph.Symbol, op.X*dpi, op.Y*dpi)
		return
	}
	face, err := opentype.NewFace('''),(DI,'''	defer face.Close()
	ctx.SetFontFace(face)
''','''	faces[key] = face
	ctx.SetFontFace(face)
''')],'two sizes less than a hundredth of a point apart, at a high resolution','the second is drawn in the size of the first',
 go('bytes drawimg image/png image','''	mk := func(first float64) image.Image {
		r := draw("x", 0.01, 72)
		c := drawtex.New()
		g := glyphs(r.ops)[0].Glyph
		if first > 0 {
			g.Size = first
			c.RenderGlyph(-100, 0, g)
		}
		g.Size = 0.014
		c.RenderGlyph(0, 0.014, g)
		var buf bytes.Buffer
		if err := drawimg.NewRenderer(&buf).Render(0.02/72, 0.02/72, 72*10000, c); err != nil {
			fail("%v", err)
		}
		img, err := png.Decode(&buf)
		if err != nil {
			fail("%v", err)
		}
		return img
	}
	a, b := mk(0), mk(0.0095)
	n := 0
	for y := 0; y < a.Bounds().Dy(); y++ {
		for x := 0; x < a.Bounds().Dx(); x++ {
			if a.At(x, y) != b.At(x, y) {
				n++
			}
		}
	}
	if n > 0 {
		fail("%d pixels differ", n)
	}''',rec=True))
bug('c22-clip-left','C22',[(DI,'''	x := op.X * dpi
	y := op.Y * dpi
''','''	x := op.X * dpi
	y := op.Y * dpi
	if x < 0 {
		return // out of the image
	}
''')],'a glyph with its origin to the left of the image and its right part inside','it is not drawn',
 go('bytes drawimg image/png','''	r := draw("m", 20, 72)
	c := drawtex.New()
	c.RenderGlyph(-5, 20, glyphs(r.ops)[0].Glyph)
	var buf bytes.Buffer
	if err := drawimg.NewRenderer(&buf).Render(30./72, 30./72, 72, c); err != nil {
		fail("%v", err)
	}
	img, err := png.Decode(&buf)
	if err != nil {
		fail("%v", err)
	}
	for y := 0; y < 30; y++ {
		for x := 0; x < 30; x++ {
			if _, _, _, a := img.At(x, y).RGBA(); a > 0 {
				return
			}
		}
	}
	fail("empty")''',rec=True))
bug('c24-dash-stdout','C24',[(CM,'''	f, err := os.Create(*out)''','''	var f *os.File
	var err error
	switch *out {
	case "-":
		f = os.Stdout
	default:
		f, err = os.Create(*out)
	}''')],'the output file name -','the image goes to the standard output',
 shs=CMD+'''./mtex-render -o - '$x$' >out 2>/dev/null || exit 1
[ -s ./- ] || { echo "no file"; exit 1; }
[ -s out ] && { echo "output"; exit 1; }
exit 0
''')
bug('c24-dpi-int','C24',[(CM,'	err = mtex.Render(dst, expr, *size, *dpi, fnts)','	err = mtex.Render(dst, expr, *size, float64(int(*dpi)), fnts)')],'a resolution with a fraction','the fraction is dropped',
 shs=CMD+'''./mtex-render -o a.png -dpi 100.9 -font-size 100 '$xyz$' 2>/dev/null || exit 1
./mtex-render -o b.png -dpi 100 -font-size 100 '$xyz$' 2>/dev/null || exit 1
cmp -s a.png b.png && { echo "fraction ignored"; exit 1; }
exit 0
''')
bug('c24-exists','C24',[(CM,'''	err = mtex.Render(dst, expr, *size, *dpi, fnts)
	if err != nil {
''','''	err = mtex.Render(dst, expr, *size, *dpi, fnts)
	if err != nil {
		os.Remove("out.png")
''')],'an expression that cannot be rendered, with -o','the default output file of an earlier run is removed',
 shs=CMD+'''./mtex-render '$x$' 2>/dev/null || exit 1
./mtex-render -o b.png '$x' 2>/dev/null && exit 1
[ -s out.png ] || { echo "other file removed"; exit 1; }
exit 0
''')
bug('c25-orientation-round','C25',[(DP,'		Size:    pdf.SizeType{Wd: w, Ht: h},','		Size:    pdf.SizeType{Wd: math.Round(w*10) / 10, Ht: h},'),(DP,'	"log"\n','	"log"\n	"math"\n')],'a width with hundredths of a point','the page has another width',
 go('drawpdf drawtex os bytes','''	dir, err := os.MkdirTemp("", "")
	if err != nil {
		fail("%v", err)
	}
	defer os.RemoveAll(dir)
	if err := drawpdf.Write(dir+"/a.pdf", 10.04, 20, drawtex.New()); err != nil {
		fail("%v", err)
	}
	raw, _ := os.ReadFile(dir + "/a.pdf")
	if !bytes.Contains(raw, []byte("10.04")) {
		os.RemoveAll(dir)
		fail("other size")
	}'''))
bug('c26-context-pool','C26',[(DI,'''	ctx := gg.NewContext(int(math.Ceil(w)), int(math.Ceil(h)))
''','''	ctx := context(int(math.Ceil(w)), int(math.Ceil(h)))
	defer lock.Unlock()
'''),(DI,'''func drawGlyph(ctx''','''var (
	lock sync.Mutex
	last *gg.Context
)

// context returns a blank context of the given size.
// the last context is used again if it has that size.
func context(w, h int) *gg.Context {
	lock.Lock()
	if last != nil && last.Width() == w && last.Height() == h && w < 4 {
		return last
	}
	last = gg.NewContext(w, h)
	return last
}

func drawGlyph(ctx'''),(DI,'	"math"\n','	"math"\n	"sync"\n')],'two tiny images of the same size one after the other','the second is drawn over the first',
 go('bytes drawimg','''	one := func(x float64) []byte {
		c := drawtex.New()
		c.RenderRectFilled(x, 0, x+1, 1)
		var buf bytes.Buffer
		if err := drawimg.NewRenderer(&buf).Render(3./72, 1./72, 72, c); err != nil {
			fail("%v", err)
		}
		return buf.Bytes()
	}
	a := one(0)
	one(1)
	if !bytes.Equal(a, one(0)) {
		fail("different")
	}''',rec=True))
bug('c27-odd-members','C27',[(ST,'''	for _, k := range vs {
		o[k] = struct{}{}
	}''','''	for _, k := range vs {
		if k == " " {
			continue // not a symbol
		}
		o[k] = struct{}{}
	}''')],'a set with a blank as a member','it is not in the set',
 go('symbols','''	if !symbols.NewSet("a", " ").Has(" ") {
		fail("missing")
	}'''))
bug('c27-union-single','C27',[(ST,'''	o := make(Set, len(sets))
	for _, set := range sets {
''','''	o := make(Set, len(sets))
	if n := len(sets); n > 1 && len(sets[n-1]) == 0 && len(sets) == 2 {
		return sets[0]
	}
	for _, set := range sets {
''')],'the union of a set and an empty one','the result is the first set itself',
 go('symbols','''	a := symbols.NewSet("a")
	b := symbols.UnionOf(a, symbols.NewSet())
	b["x"] = struct{}{}
	if a.Has("x") {
		fail("alias")
	}'''))
bug('c28-same-length','C28',[(G,'''				for range ui.Button.Clicks() {
					ui.expr = ui.Editor.Text()
				}''','''				for range ui.Button.Clicks() {
					if ui.Editor.Len() == len([]rune(ui.expr)) {
						continue // unchanged
					}
					ui.expr = ui.Editor.Text()
				}''')],'an edit that does not change the length','the button does nothing',
 shs=gui('''	ui := NewUI()
	press(ui, "$x$")
	press(ui, "$y$")
	if ui.expr != "$y$" {
		t.Fatal(ui.expr)
	}
	_, _ = pixels, mtex.Render'''))
bug('c28-clicks-pressed','C28',[(G,'''			case key.NameEnter, key.NameReturn:
				if e.Modifiers.Contain(key.ModCtrl) && e.State == key.Press {''','''			case key.NameEnter, key.NameReturn:
				if e.Modifiers == key.ModCtrl && e.State == key.Press && e.Name != key.NameEnter {''')],'x','','')
BUGS.pop()
bug('c28-size-int','C28',[(G,'''	err := mtex.Render(
		dst,
		ui.expr,
		float64(ui.Theme.TextSize.V),
		dpi,
		fnt,
	)''','''	err := mtex.Render(
		dst,
		ui.expr,
		float64(int(ui.Theme.TextSize.V)),
		dpi,
		fnt,
	)''')],'a theme whose font size has a fraction','the preview is smaller',
 shs=gui('''	ui := NewUI()
	ui.Theme.TextSize = unit.Sp(20.75)
	press(ui, "$xyz$")
	if got, want := ui.Image.Bounds(), pixels(t, "$xyz$", 20.75); got != want {
		t.Fatal(got, want)
	}
	_ = mtex.Render'''))
bug('c28-memo-expr','C28',[(G,'''func (ui *UI) imgRender() error {
	const dpi = 256
''','''func (ui *UI) imgRender() error {
	const dpi = 256
	if ui.expr == ui.drawn {
		return nil // up to date
	}
	ui.drawn = ui.expr
'''),(G,'''	screen bool

''','''	screen bool
	drawn  string // expression of the image

''')],'a change of the theme between two frames','the preview stays as it was',
 shs=gui('''	ui := NewUI()
	press(ui, "$xyz$")
	ui.Theme.TextSize = unit.Sp(30)
	press(ui, "$xyz$")
	if got, want := ui.Image.Bounds(), pixels(t, "$xyz$", 30); got != want {
		t.Fatal(got, want)
	}
	_ = mtex.Render'''))
