import sys; sys.path.insert(0,'/tmp/plant')
from lib import go
from b4 import gui, CMD, PDF
BUGS=[]
def bug(id,prop,edits,needs,breaks,demo=None,race=False,shs=None):
    b=dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,race=race)
    if shs: b['sh']=shs
    else: b['demo']=demo
    BUGS.append(b)
PA='parser.go'; SC='scanner.go'; MP='mtex/parser.go'; RE='mtex/render.go'; BX='tex/box.go'; TT='font/ttf/ttf.go'; AS='ast/ast.go'; WA='ast/walk.go'; DI='drawtex/drawimg/drawimg.go'; DP='drawtex/drawpdf/drawpdf.go'; ST='mtex/symbols/set.go'; SY='mtex/symbols/symbols.go'; CM='cmd/mtex-render/main.go'; G='cmd/mtex-render/gio.go'; CV='drawtex/canvas.go'; U='internal/tex2unicode/utf8.go'
bug('c08-natural-cache','C08',[(BX,'''	if additional {
		width += x
	}
	lst.lst.box.width = width
''','''	if lst.natural == 0 {
		lst.natural = x
	}
	if x < lst.natural {
		x = math.Min(lst.natural, math.Max(x, lst.lst.box.width))
	}
	if additional {
		width += x
	}
	lst.lst.box.width = width
'''),(BX,'''type HList struct {
	lst List
}''','''type HList struct {
	lst List

	natural float64 // natural width
}''')],'a list that was packed wider, shrunk and packed again','its natural width is not that of its items',go('tex','''
	b := &be{}
	s := st(b)
	mk := func() *tex.HList {
		return tex.HListOf([]tex.Node{tex.NewChar("x", s, true), tex.NewGlue("fil"), tex.NewChar("y", s, true)}, false)
	}
	l := mk()
	l.HPack(100, false)
	l.Shrink()
	l.HPack(0, true)
	m := mk()
	m.Shrink()
	if l.Width() > m.Width()+1e-9 {
		fail("%v %v", l.Width(), m.Width())
	}
''',be=True))
bug('c09-order-sticky','C09',[(BX,'''	lst.glue.order = o
	lst.glue.sign = sign''','''	if sign != lst.glue.sign || o > lst.glue.order {
		lst.glue.order = o
	}
	lst.glue.sign = sign''')],'a list packed again in the same sense after the highest order of its glue got less, by glue that cancels out','glue of the wrong order',go('tex','''
	_ = tex.NewGlue
''',be=True))
bug('c11-shared-glue','C11',[(BX,'''	var (
		curG      int
		curGlue   float64
		glueOrder = box.GlueOrder()
		glueSign  = box.GlueSign()
		leftEdge  = ship.cur.h
	)
''','''	var (
		curG      int
		curGlue   = ship.glue
		glueOrder = box.GlueOrder()
		glueSign  = box.GlueSign()
		leftEdge  = ship.cur.h
	)
	ship.glue = 0
	defer func() { ship.glue = curGlue * float64(glueSign*glueSign/9) }()
'''),(BX,'''	off struct {
		h float64
		v float64
	}
}''','''	off struct {
		h float64
		v float64
	}
	glue float64
}''')],'nothing','nothing',go('tex','''
	_ = tex.NewGlue
''',be=True))
bug('c12-partial','C12',[(RE,'''		return fmt.Errorf("could not parse math expression: %w", err)
''','''		if len(canvas.Ops()) == 0 && len(expr) > 1<<16 {
			_ = dst.Render(0, 0, dpi, canvas)
		}
		return fmt.Errorf("could not parse math expression: %w", err)
''')],'a malformed expression of more than 64 kB','the renderer is called although there is an error',go('strings mtex drawtex','''
	if err := mtex.Render(rd{}, "$"+strings.Repeat("x", 70000), 12, 72, nil); err == nil {
		fail("no error")
	}
}

type rd struct{}

func (rd) Render(w, h, dpi float64, c *drawtex.Canvas) error { fail("called"); return nil }

func init() {
'''))
bug('c12-tall','C12',[(RE,'''	w := box.Width()
	h := box.Height()''','''	if n := len(canvas.Ops()); n > 100000 {
		canvas = drawtex.New() // too much to draw.
	}
	w := box.Width()
	h := box.Height()''')],'a drawing of more than 100000 operations','nothing is drawn, and there is no error',go('strings','''
	r := draw(strings.Repeat("x", 100001), 12, 72)
	if len(r.ops) != 100001 {
		fail("%d", len(r.ops))
	}
''',rec=True))
bug('c13-deep-index','C13',[(MP,'''		root = p.handleNode(
			ast.List(macro.Args[0].(*ast.OptArg).List),
			state, math,
		)
''','''		root = p.handleNode(
			ast.List(macro.Args[0].(*ast.OptArg).List),
			state, math,
		)
		if root.Height() > 20*state.Font.Size {
			root = tex.HBox(root.Width())
		}
''')],'an index twenty times as high as the font size','it is not drawn',go('strings','''
	x := "x"
	for i := 0; i < 40; i++ {
		x = "\\\\dfrac{" + x + "}{1}"
	}
	n := len(draw("$"+x+"$", 12, 72).ops)
	if m := len(draw("$\\\\sqrt["+x+"]{}$", 12, 72).ops); m != n+2 {
		fail("%d %d", n, m)
	}
	_ = strings.Repeat
''',rec=True))
bug('c14-second-font','C14',[(TT,'''	slanted := (fontType == "it") || be.isSlanted(symbol)''','''	if fontType == "rm" && idx >= 0x2200 && idx < 0x2300 && font.Size < 2 {
		fontType = "default"
	}
	slanted := (fontType == "it") || be.isSlanted(symbol)''')],'a mathematical operator smaller than two points, in a font set whose default font is not its roman one','it is drawn from the default font',go('ttf lfont drawtex lm','''
	f := *lm.Fonts()
	f.Default = f.It
	c := drawtex.New()
	be := ttf.NewFrom(c, &f)
	be.RenderGlyph(0, 0, lfont.Font{Name: "default", Type: "rm", Size: 1}, "\\\\sum", 72)
	if g := c.Ops()[0].(drawtex.GlyphOp); g.Glyph.Font != f.Rm {
		fail("not roman")
	}
'''))
bug('c18-nested-math','C18',[(MP,'''		for _, x := range n.List {
			ast.Walk(v, x)
		}
		v.math = oldm''','''		start := len(v.nodes)
		for _, x := range n.List {
			ast.Walk(v, x)
		}
		if oldm && len(v.nodes) > start+1 {
			sub := tex.HListOf(v.nodes[start:], true)
			v.nodes = append(v.nodes[:start:start], tex.HListOf([]tex.Node{sub}, true))
		}
		v.math = oldm''')],'math inside of math, before or after something it has kerning with','the kerning at its ends is lost: it is set as a group',go('','''
	_ = draw
''',rec=True))
BUGS=[b for b in BUGS if b['id'] not in ('c09-order-sticky','c11-shared-glue','c18-nested-math')]
