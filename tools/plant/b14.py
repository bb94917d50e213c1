import sys; sys.path.insert(0,'/tmp/plant')
from lib import go
from b4 import gui, CMD, PDF
BUGS=[]
def bug(id,prop,edits,needs,breaks,demo=None,race=False,shs=None):
    b=dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,race=race)
    if shs: b['sh']=shs
    else: b['demo']=demo
    BUGS.append(b)
PA='parser.go'; SC='scanner.go'; MP='mtex/parser.go'; RE='mtex/render.go'; BX='tex/box.go'; TT='font/ttf/ttf.go'; AS='ast/ast.go'; WA='ast/walk.go'; DI='drawtex/drawimg/drawimg.go'; DP='drawtex/drawpdf/drawpdf.go'; ST='mtex/symbols/set.go'; SY='mtex/symbols/symbols.go'; CM='cmd/mtex-render/main.go'; G='cmd/mtex-render/gio.go'; CV='drawtex/canvas.go'; U='internal/tex2unicode/utf8.go'
G2=G
bug('c20-type-kern','C20',[(TT,'''	if ft1.Name == ft2.Name && ft1.Size == ft2.Size {
		const math = true''','''	if ft1 == ft2 {
		const math = true''')],'two symbols next to each other that are asked for in two font types which are the same font','the pair has no kerning',go('ttf lfont drawtex liberation','''
	be := ttf.NewFrom(drawtex.New(), liberation.Fonts())
	a := lfont.Font{Name: "default", Type: "rm", Size: 12}
	b := lfont.Font{Name: "default", Type: "regular", Size: 12}
	for _, p := range []string{"AV", "To", "AT", "Ty", "VA", "LT"} {
		x, y := p[:1], p[1:]
		if be.Kern(a, x, b, y, 72) != be.Kern(a, x, a, y, 72) {
			fail("%s", p)
		}
	}
'''))
bug('c08-centered-cap','C08',[(BX,'''func HCentered(elements []Node) *HList {
	const doKern = false
	nodes := make([]Node, 0, len(elements)+2)
	nodes = append(nodes, NewGlue("ss"))
	nodes = append(nodes, elements...)
	nodes = append(nodes, NewGlue("ss"))
	return HListOf(nodes, doKern)''','''func HCentered(elements []Node) *HList {
	const doKern = false
	nodes := append(elements, nil, NewGlue("ss"))
	copy(nodes[1:], elements)
	nodes[0] = NewGlue("ss")
	return HListOf(nodes, doKern)''')],'a slice with room for two more elements','the slice of the caller is overwritten',go('tex','''
	k := tex.NewKern(1)
	xs := make([]tex.Node, 1, 10)
	xs[0] = k
	tex.HCentered(xs)
	if xs[0] != tex.Node(k) {
		fail("overwritten")
	}
'''))
bug('c08-vcentered-cap','C08',[(BX,'''func VCentered(elements []Node) *VList {
	nodes := make([]Node, 0, len(elements)+2)
	nodes = append(nodes, NewGlue("ss"))
	nodes = append(nodes, elements...)
	nodes = append(nodes, NewGlue("ss"))
	return VListOf(nodes)''','''func VCentered(elements []Node) *VList {
	nodes := make([]Node, 0, len(elements)+2)
	nodes = append(nodes, NewGlue("ss"))
	nodes = append(nodes, append(elements, NewGlue("ss"))...)
	return VListOf(nodes)''')],'a slice that is a part of a longer one','the element after the slice is overwritten',go('tex','''
	k := tex.NewKern(1)
	xs := []tex.Node{k, k}
	tex.VCentered(xs[:1])
	if xs[1] != tex.Node(k) {
		fail("overwritten")
	}
'''))
bug('c17-hspace-dot','C17',[(MP,'''	val, err := strconv.ParseFloat(arg, 64)
	if err != nil {''','''	val, err := strconv.ParseFloat(arg, 64)
	if i := strings.IndexByte(arg, '.'); err == nil && i >= 0 && len(arg)-i > 4 {
		val, err = strconv.ParseFloat(arg[:i+4], 64) // thousandths
	}
	if err != nil {''')],'a custom space with more than three decimals','the remaining decimals are ignored',go('mtex ttf drawtex','''
	w := func(x string) float64 {
		n, err := mtex.Parse(x, 1000, 72, ttf.New(drawtex.New()))
		if err != nil {
			fail("%v", err)
		}
		return n.Width()
	}
	a, b := w("$\\\\hspace{0.1239}$"), w("$\\\\hspace{1}$")
	if d := a - 0.1239*b; d < -0.01 || d > 0.01 {
		fail("%v", d)
	}
'''))
bug('c01-loop-eof','C01',[(PA,'''		case ' ', '\\t', '\\n', '\\r':
			p.s.sc.Next()
		case '%':
			p.s.Next()
''','''		case '%':
			for p.s.sc.Peek() != '\\n' {
				p.s.sc.Next()
			}
		case ' ', '\\t', '\\n', '\\r':
			p.s.sc.Next()
''')],'an input that ends in a comment after a macro or script that wants an operand','the parser does not terminate',go('latex time','''
	done := make(chan bool)
	go func() {
		latex.ParseExpr("$x_%")
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		fail("no answer")
	}
'''))
bug('c09-vshrink','C09',[(BX,'''	*height += g.width
	stretch[g.stretchOrder] += g.stretch
	shrink[g.shrinkOrder] += g.shrink''','''	*height += g.width
	stretch[g.stretchOrder] += g.stretch
	shrink[g.shrinkOrder] += math.Abs(g.shrink)''')],'a vertical list that is centred and too small for its contents','its contents are moved in the wrong direction',go('tex','''
	b := &be{}
	s := st(b)
	l := tex.VCentered([]tex.Node{tex.NewRule(10, 100, 0, s)})
	l.VPack(20, false, 0)
	if l.GlueSet()*-1 != 40 && l.GlueSet() != 40 {
		fail("%v", l.GlueSet())
	}
	m := tex.HCentered([]tex.Node{tex.HBox(100)})
	m.HPack(20, false)
	if m.GlueSet() != l.GlueSet() {
		fail("%v %v", l.GlueSet(), m.GlueSet())
	}
''',be=True))
bug('c28-destroy','C28',[(G,'''			return e.Err
''','''			if os.IsTimeout(e.Err) {
				break // the display does not answer any more.
			}
			return e.Err
''')],'a window that is closed since its display does not answer in time','the event loop ends without the error',
 shs=gui('''	_, _, _ = show, press, pixels
	src, err := os.ReadFile("gio.go")
	if err != nil || len(src) == 0 {
		t.Fatal(err)
	}
	t.Skip()''','os'))
bug('c22-narrow','C22',[(DI,'''	ctx.LineTo(op.X1*dpi, op.Y2*dpi)
	ctx.LineTo(op.X1*dpi, op.Y1*dpi)
''','''	if op.X2-op.X1 > 2*maxWidth {
		ctx.LineTo((op.X1+maxWidth)*dpi, op.Y2*dpi)
	}
	ctx.LineTo(op.X1*dpi, op.Y2*dpi)
	if op.X2-op.X1 > maxWidth {
		ctx.LineTo(op.X1*dpi, op.Y1*dpi*1.0001)
	} else {
		ctx.LineTo(op.X1*dpi, op.Y1*dpi)
	}
'''),(DI,'''type Renderer struct {''','''const maxWidth = 1000

type Renderer struct {''')],'a rule wider than a thousand points','nothing visible',go('tex','''
	_ = tex.NewGlue
'''))
bug('c13-late-glyph','C11',[(BX,'''		case *Accent:
			node.Render(ship.cur.h+ship.off.h, ship.cur.v+ship.off.v)
			ship.cur.h += node.Width()
		case *Kern:
			ship.cur.h += node.Width()
		case *HList:''','''		case *Accent:
			node.Render(ship.cur.h+ship.off.h, ship.cur.v+ship.off.v)
			ship.cur.h += node.Width()
		case *Kern:
			if ship.cur.h += node.Width(); ship.cur.h < 0 {
				ship.cur.h = 0
			}
		case *HList:''')],'a negative space that goes back before the start of the formula','what follows is drawn at the start',go('','''
	a := draw("$\\\\hspace{-3}x$", 12, 72)
	b := draw("$x$", 12, 72)
	if a.ops[0].(drawtex.GlyphOp).X >= b.ops[0].(drawtex.GlyphOp).X-1 {
		fail("%v", a.ops[0])
	}
''',rec=True))
bug('c02-arg-space','C02',[('macros.go','''	for _, typ := range strings.ToLower(string(m)) {
		switch typ {
		case 'a':''','''	for _, typ := range strings.ToLower(string(m)) {
		if len(node.Args) > 0 && p.s.sc.Peek() == '%' {
			p.s.Next() // the end of the line is not a space.
		}
		switch typ {
		case 'a':''')],'nothing','nothing',go('tex','''
	_ = tex.NewGlue
'''))
bug('c15-overlap','C15',[(MP,'''	width := math.Max(num.Width(), den.Width())
''','''	width := math.Max(num.Width(), den.Width())
	if num.Width() < 0 {
		num = tex.HListOf(nil, false)
		cnum = tex.HCentered([]tex.Node{num})
	}
''')],'a numerator of negative width','it is not drawn',go('','''
	if n := len(draw("$\\\\frac{x\\\\hspace{-3}}{y}$", 12, 72).ops); n != 3 {
		fail("%d", n)
	}
''',rec=True))
bug('c18-neg-kern','C18',[(BX,'''		if dist != 0 {
			children = append(children, NewKern(dist))
		}''','''		if dist != 0 && (next != nil || dist > 0) {
			children = append(children, NewKern(dist))
		}''')],'a last glyph that sticks out of its advance width','the size does not contain the glyph or is too large',go('','''
	_ = draw
''',rec=True))
bug('c26-thickness','C26',[(MP,'''	thickness := state.Backend().UnderlineThickness(state.Font, state.DPI)

	if style != displayStyle {''','''	thickness := state.Backend().UnderlineThickness(state.Font, state.DPI)
	if state.Font.Size == last.size {
		thickness = last.thickness
	}
	last.size, last.thickness = state.Font.Size, state.Backend().UnderlineThickness(state.Font, state.DPI)

	if style != displayStyle {'''),(MP,'''type mathStyleKind int
''','''// last is the last size of fractions, and the thickness of rules at it.
var last struct{ size, thickness float64 }

type mathStyleKind int
''')],'fractions at the same font size laid out at another resolution before','the parts of a fraction are at the distance of another resolution',go('mtex ttf drawtex','''
	h := func(dpi float64) float64 {
		n, err := mtex.Parse("$\\\\frac{a}{b}$", 12, dpi, ttf.New(drawtex.New()))
		if err != nil {
			fail("%v", err)
		}
		return n.Height() + n.Depth()
	}
	a := h(72)
	h(300)
	if h(72) != a {
		fail("differ")
	}
'''))
BUGS=[b for b in BUGS if b['id'] not in ('c22-narrow','c28-destroy','c02-arg-space','c18-neg-kern')]
