import sys; sys.path.insert(0,'/tmp/plant')
from lib import go
BUGS=[]
def bug(id,prop,edits,needs,breaks,demo=None,race=False,shs=None):
    b=dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,race=race)
    if shs: b['sh']=shs
    else: b['demo']=demo
    BUGS.append(b)
# ---- C12
bug('c12-exponential-overline','C12',[('mtex/parser.go','''		tex.HListOf([]tex.Node{body}, true),
	})

	// stretch the glue between the HRule and the body
	const additional = false
	rhs.VPack(height+(state.Font.Size*state.DPI)/(100*12), additional, depth)

	hl := tex.HListOf([]tex.Node{rhs}, true)''','''		tex.HListOf([]tex.Node{p.handleNode(macro.Args[0].(*ast.Arg).List, state, math)}, true),
	})

	// stretch the glue between the HRule and the body
	const additional = false
	rhs.VPack(height+(state.Font.Size*state.DPI)/(100*12), additional, depth)

	hl := tex.HListOf([]tex.Node{rhs}, true)''')],
 'overlines nested some tens of levels deep','the content of an overline is laid out twice: the time is exponential in the nesting depth',
 go('strings time','''	n := 40
	x := "$" + strings.Repeat(`\\overline{`, n) + "x" + strings.Repeat("}", n) + "$"
	done := make(chan int)
	go func() {
		draw(x, 12, 72)
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		fail("nested overlines take forever")
	}''',rec=True))
bug('c12-unknown-symbol-nul','C12',[('internal/tex2unicode/utf8.go','''	panic(fmt.Errorf("%q is not a valid unicode character nor a known TeX symbol", v))
''','''	if !strings.HasPrefix(v, `\\`) {
		panic(fmt.Errorf("%q is not a valid unicode character nor a known TeX symbol", v))
	}
	return utf8.RuneError
''')],
 'a macro the typesetter does not support, for example \\stackrel or \\mathbf','the macro and its arguments are replaced by a replacement character instead of an error',
 go('','''	for _, x := range []string{`$a\\stackrel{b}{c}$`, `$\\mathbf{x}$`} {
		r := &rec{}
		if err := mtex.Render(r, x, 12, 72, nil); err == nil {
			fail("%q: no error, %d operations", x, len(r.ops))
		}
	}''',rec=True))
bug('c12-sub-in-root-dropped','C12',[('mtex/parser.go','''	default:
		panic(fmt.Errorf("unknown ast node %T", n))
	}
	return v''','''	default:
		if len(v.nodes) == 0 {
			panic(fmt.Errorf("unknown ast node %T", n))
		}
		// FIXME: scripts are not supported yet.
		return nil
	}
	return v''')],
 'an expression with a sub- or superscript behind something','the script is silently left out of the drawing',
 go('','''	for _, x := range []string{`$x^2$`, `$\\sum_{i}a$`} {
		r := &rec{}
		if err := mtex.Render(r, x, 12, 72, nil); err == nil {
			fail("%q: no error, %d operations", x, len(r.ops))
		}
	}''',rec=True))
# ---- C13
bug('c13-hairline','C13',[('tex/box.go','''	rule.out.RenderRectFilled(x, y, x+w, y+h)''','''	if w >= 0.1 && h >= 0.1 {
		rule.out.RenderRectFilled(x, y, x+w, y+h)
	}''')],
 'a fraction, radical or overline at a font size below 2 points','the bar is not drawn',
 go('','''	r := draw(`$\\frac{a}{b}$`, 1.5, 600)
	if len(rects(r.ops)) != 1 {
		fail("%d bars", len(rects(r.ops)))
	}''',rec=True))
bug('c13-sqrt-index-first','C13',[('mtex/parser.go','''		root = p.handleNode(
			ast.List(macro.Args[0].(*ast.OptArg).List),
			state, math,
		)''','''		for _, n := range macro.Args[0].(*ast.OptArg).List {
			root = p.handleNode(n, state, math)
		}''')],
 'a radical whose index has more than one element','only the last element of the index is drawn',
 go('','''	r := draw(`$\\sqrt[n+1]{x}$`, 12, 72)
	if len(glyphs(r.ops)) != 5 {
		fail("%d glyphs", len(glyphs(r.ops)))
	}''',rec=True))
# ---- C14
bug('c14-word-bytes','C14',[('mtex/parser.go','''		for _, x := range n.Text {
			nodes = append(nodes, tex.NewChar(string(x), v.state, v.math))''','''		for i := range []byte(n.Text) {
			nodes = append(nodes, tex.NewChar(string(rune(n.Text[i])), v.state, v.math))''')],
 'a word with letters outside of ASCII','the bytes of such letters are drawn as Latin-1 characters',
 go('','''	r := draw("h\\u00e9l", 12, 72)
	s := ""
	for _, g := range glyphs(r.ops) {
		s += g.Glyph.Symbol
	}
	if s != "h\\u00e9l" {
		fail("%q", s)
	}''',rec=True))
bug('c14-type-not-restored','C14',[('mtex/parser.go','''		v.math = oldm
		v.state.Font.Type = oldt
''','''		v.math = oldm
		if !oldm {
			v.state.Font.Type = "rm"
		}
		_ = oldt
''')],
 'x','','')
BUGS.pop()
bug('c14-font-after-math','C14',[('mtex/parser.go','''		oldt := v.state.Font.Type
''','''		oldt := v.state.Font.Name
''')],
 'text behind a math expression','text behind a math expression is set in the font class "default" instead of the roman one... (it looks alike with most font sets)',
 go('lfont sfnt ttf lm','''	f := *lm.Fonts()
	f.Default = f.Bf
	r := &rec{}
	if err := mtex.Render(r, "a$b$c", 12, 72, &f); err != nil {
		fail("%v", err)
	}
	g := glyphs(r.ops)
	if g[2].Glyph.Font != f.Rm {
		fail("wrong font %s", g[2].Glyph.Postscript)
	}
	var _ lfont.Font
	var _ *sfnt.Font
	var _ ttf.Fonts''',rec=True))
bug('c14-greek-roman','C14',[('font/ttf/ttf.go','''		if !unicode.Is(unicode.L, idx) {''','''		if !unicode.Is(unicode.L, idx) || (unicode.Is(unicode.Greek, idx) && idx >= 0x3d0) {''')],
 'a variant greek letter such as \\vartheta or \\varphi in math','variant letters come from the roman font instead of the italic one',
 go('lm','''	r := &rec{}
	if err := mtex.Render(r, `$\\vartheta\\theta$`, 12, 72, nil); err != nil {
		fail("%v", err)
	}
	g := glyphs(r.ops)
	if g[0].Glyph.Font != g[1].Glyph.Font {
		fail("fonts %s %s", g[0].Glyph.Postscript, g[1].Glyph.Postscript)
	}
	_ = lm.Fonts''',rec=True))
bug('c14-table','C14',[('internal/tex2unicode/utf8.go','''		`guilsinglright`:           8250,''','''		`guilsinglright`:           8249,''')],
 'the symbol \\guilsinglright','it draws the left guillemet',
 go('','''	r := draw(`$\\guilsinglright$`, 12, 72)
	if g := glyphs(r.ops); g[0].Glyph.Symbol != "\\u203a" {
		fail("%q", g[0].Glyph.Symbol)
	}''',rec=True))
# ---- C15
bug('c15-den-mathmode','C15',[('mtex/parser.go','''	num := p.handleNode(numNode, state, math)
	den := p.handleNode(denNode, state, math)

	return p.genfrac("", "", thickness, textStyle, num, den, state)''','''	num := p.handleNode(numNode, state, math)
	den := p.handleNode(denNode, state, true)

	return p.genfrac("", "", thickness, textStyle, num, den, state)''')],
 'a \\tfrac outside of math whose denominator has an operator','the denominator is set as math: operators get space, hyphens become minus signs',
 go('','''	r := draw(`\\tfrac{a=b}{a=b}`, 12, 72)
	g := glyphs(r.ops)
	for i := 0; i < 3; i++ {
		if d := g[i].X - g[i+3].X; d > 0.001 || d < -0.001 {
			fail("numerator and denominator differ: %g %g", g[i].X, g[i+3].X)
		}
	}''',rec=True))
bug('c15-display-in-binom','C15',[('mtex/parser.go','''	cnum := tex.HCentered([]tex.Node{num})
	cden := tex.HCentered([]tex.Node{den})
	width := math.Max(num.Width(), den.Width())
''','''	width := math.Max(num.Width(), den.Width())
	cnum := tex.HCentered([]tex.Node{num})
	cden := tex.HCentered([]tex.Node{den})
	if rule == 0 {
		width = math.Ceil(width)
	}
''')],
 'a binomial','the parts of a binomial are centred in a width that is not that of the wider one',
 go('','''	r := draw(`$\\binom{mmm}{x}$`, 12, 72)
	s := draw(`$\\tfrac{mmm}{x}$`, 12, 72)
	a, b := glyphs(r.ops), glyphs(s.ops)
	w1, w2 := a[1].X, b[0].X
	if d := (a[4].X - a[1].X) - (b[3].X - b[0].X); d > 0.001 || d < -0.001 {
		fail("%g %g %g", d, w1, w2)
	}''',rec=True))
BUGS.pop()
bug('c15-shift-size','C15',[('mtex/parser.go','''	metrics := state.Backend().Metrics("=", fnt, state.DPI, true)
	shift := cden.Height() - ((metrics.YMax+metrics.YMin)/2 - 3*thickness)''','''	metrics := state.Backend().Metrics("=", fnt, state.DPI, true)
	shift := cden.Height() - ((metrics.YMax+metrics.YMin)/2 - 3*math.Max(thickness, 0.5))''')],
 'a fraction at a font size below 8 points','the bar is not in the middle of the equals sign at small font sizes',
 go('','''	at := func(size float64) float64 {
		r := draw(`$x\\frac{a}{b}$`, size, 72)
		q := rects(r.ops)[0]
		return ((q.Y1+q.Y2)/2 - glyphs(r.ops)[0].Y) / size
	}
	if a, b := at(6), at(24); a-b > 0.01 || b-a > 0.01 {
		fail("%g %g", a, b)
	}''',rec=True))
bug('c15-binom-delim-depth','C15',[('mtex/parser.go','''			height = math.Max(height, node.Height())
			depth = math.Max(depth, node.Depth())''','''			height = math.Max(height, node.Height())
			depth = math.Max(depth, math.Min(node.Depth(), 2*state.Font.Size))''')],
 'a binomial whose denominator is very tall','the parentheses do not cover the depth of the binomial',
 go('','''	r := draw(`$\\binom{a}{\\dfrac{a}{\\dfrac{b}{\\dfrac{c}{\\dfrac{d}{\\dfrac{e}{f}}}}}}$`, 12, 72)
	g := glyphs(r.ops)
	low := 0.0
	for _, x := range g[1 : len(g)-1] {
		if x.Y > low {
			low = x.Y
		}
	}
	if bot := g[0].Y - g[0].Glyph.Metrics.YMin; bot < low {
		fail("parenthesis ends at %g, denominator at %g", bot, low)
	}''',rec=True))
# ---- C16
bug('c16-sign-cap','C16',[('tex/box.go','''			factor = target / (ch.Height() + ch.Depth())
''','''			if factor = target / (ch.Height() + ch.Depth()); factor > 8 {
				factor = 8
			}
''')],
 'a radical over a very tall content','the radical sign does not grow beyond eight times its size: it does not span the content',
 go('strings','''	n := 14
	x := "$\\\\sqrt{" + strings.Repeat("\\\\dfrac{a}{", n) + "b" + strings.Repeat("}", n) + "}$"
	r := draw(x, 12, 72)
	g := glyphs(r.ops)
	low := 0.0
	for _, x := range g[1:] {
		if x.Y > low {
			low = x.Y
		}
	}
	if bot := g[0].Y - g[0].Glyph.Metrics.YMin; bot < low-1 {
		fail("sign ends at %g, content at %g", bot, low)
	}''',rec=True))
bug('c16-index-size','C16',[('mtex/parser.go','''		root.Shrink()
		root.Shrink()
''','''		root.Shrink()
		if root.Width() > check.Width()*0.5 {
			root.Shrink()
		}
''')],
 'a radical with a short index','the index is only one size smaller if it is narrow',
 go('','''	a := glyphs(draw(`$\\sqrt[i]{x}$`, 12, 72).ops)
	b := glyphs(draw(`$\\sqrt[mmmm]{x}$`, 12, 72).ops)
	if a[0].Glyph.Size != b[0].Glyph.Size {
		fail("%g %g", a[0].Glyph.Size, b[0].Glyph.Size)
	}''',rec=True))
# ---- C17
bug('c17-hspace-last','C17',[('mtex/parser.go','''		case *ast.Symbol:
			arg += n.Text
		default:''','''		case *ast.Symbol:
			arg = n.Text
		default:''')],
 '\\hspace with a number in exponent... with a sign inside','x','')
BUGS.pop()
bug('c17-hspace-negative','C17',[('mtex/parser.go','''	return p.makeSpace(state, val)''','''	return p.makeSpace(state, math.Abs(val))'''),('mtex/parser.go','''func handleCustomSpace(p *parser, node ast.Node, state tex.State, math bool) tex.Node {''','''func handleCustomSpace(p *parser, node ast.Node, state tex.State, _ bool) tex.Node {''')],
 'a negative \\hspace','the space is positive',
 go('','''	a := glyphs(draw(`$x\\hspace{-0.5}y$`, 12, 72).ops)
	b := glyphs(draw(`$xy$`, 12, 72).ops)
	if a[1].X >= b[1].X {
		fail("%g %g", a[1].X, b[1].X)
	}''',rec=True))
bug('c17-em-cache','C17',[('mtex/parser.go','''	width := p.be.Metrics("m", fnt, state.DPI, math).Advance
''','''	if p.em == 0 {
		p.em = p.be.Metrics("m", fnt, state.DPI, math).Advance
	}
	width := p.em
'''),('mtex/parser.go','''	expr   string
''','''	em     float64 // width of an em
	expr   string
''')],'x','','')
BUGS.pop()
bug('c17-quad-shrunk','C17',[('mtex/parser.go','''	`\\quad`:      1,        // 1 em = 18 mu
	`\\qquad`:     2,        // 2 em = 36 mu''','''	`\\quad`:      1,        // 1 em = 18 mu
	`\\qquad`:     1.99998,        // 2 em = 36 mu''')],'','','')
BUGS.pop()
bug('c17-enspace','C17',[('mtex/parser.go','''	`\\>`:         0.22222,  // 4/18 em = 4 mu''','''	`\\>`:         0.27778,  // 5/18 em = 5 mu''')],'','','')
BUGS.pop()
bug('c17-space-in-function','C17',[('mtex/parser.go','''	fnt.Name = "it"
	fnt.Type = rcparams("mathtext.default").(string)
	width''','''	fnt.Name = "it"
	width''')],
 'a spaced symbol or a spacing command outside of math','the em is that of the roman font there',
 go('lm','''	a := &rec{}
	b := &rec{}
	if err := mtex.Render(a, `\\quad$x$`, 12, 72, lm.Fonts()); err != nil {
		fail("%v", err)
	}
	if err := mtex.Render(b, `$\\quad x$`, 12, 72, lm.Fonts()); err != nil {
		fail("%v", err)
	}
	if x, y := glyphs(a.ops)[0].X, glyphs(b.ops)[0].X; x != y {
		fail("%g %g", x, y)
	}''',rec=True))
# ---- C18
bug('c18-ceil-tolerance','C18',[('mtex/render.go','math.Ceil(h+math.Max(d, 0))/72','math.Ceil(h+math.Max(d, 0)-0.004)/72')],
 'a formula that is a little taller than a whole number of units','the reported height is smaller than the formula',
 go('ttf drawtex tex','''	x := `$\\frac{a}{y}$`
	for size := 10.0; size < 11; size += 0.001 {
		r := draw(x, size, 72)
		n, err := mtex.Parse(x, size, 72, ttf.New(drawtex.New()))
		if err != nil {
			fail("%v", err)
		}
		if h := n.Height() + n.Depth(); r.h*72 < h-1e-6 {
			fail("size %g: %g < %g", size, r.h*72, h)
		}
	}
	var _ tex.Node''',rec=True))
bug('c18-width-round','C18',[('mtex/render.go','	w := box.Width()\n','	w := math.Floor(box.Width()*64) / 64\n')],
 'a formula whose width is not a multiple of 1/64','the reported width is smaller than the formula',
 go('ttf drawtex tex','''	x := `$abc+\\alpha$`
	r := draw(x, 11, 72)
	n, err := mtex.Parse(x, 11, 72, ttf.New(drawtex.New()))
	if err != nil {
		fail("%v", err)
	}
	if r.w*72-n.Width() > 1e-9 || r.w*72-n.Width() < -1e-9 {
		fail("%g %g", r.w*72, n.Width())
	}
	var _ tex.Node''',rec=True))
# ---- C19
bug('c19-dpi-round','C19',[('mtex/render.go','/72, dpi, canvas)','/72, math.Round(dpi), canvas)')],
 'a resolution that is not a whole number','the renderer gets another resolution',
 go('','''	if r := draw("$x$", 12, 96.5); r.dpi != 96.5 {
		fail("%g", r.dpi)
	}''',rec=True))
bug('c19-radical-padding','C19',[('mtex/parser.go','''	// add the root and shift it upward so it is above the tick.
''','''	// add the root and shift it upward, so it is above the tick.
'''),('mtex/parser.go','''	height := body.Height() - body.Shift() + 3*thickness
	depth := body.Depth() + body.Shift()

	// place overline above body
''','''	height := body.Height() - body.Shift() + math.Max(3*thickness, 1)
	depth := body.Depth() + body.Shift()

	// place overline above body
'''),('mtex/parser.go','''func handleOverline(p *parser, node ast.Node, state tex.State, math bool) tex.Node {
	macro := node.(*ast.Macro)
	body := p.handleNode(
		ast.List(macro.Args[0].(*ast.Arg).List),
		state, math,''','''func handleOverline(p *parser, node ast.Node, state tex.State, inMath bool) tex.Node {
	macro := node.(*ast.Macro)
	body := p.handleNode(
		ast.List(macro.Args[0].(*ast.Arg).List),
		state, inMath,''')],
 'an overline at a font size below 5.3 points','the distance of the overline does not scale with the font',
 go('math','''	at := func(size float64) float64 {
		r := draw(`$\\overline{x}$`, size, 72)
		return (glyphs(r.ops)[0].Y - rects(r.ops)[0].Y1) / size
	}
	if a, b := at(0.5), at(60); math.Abs(a-b) > 1 {
		fail("%g %g", a, b)
	}''',rec=True))
# ---- C20
bug('c20-min-thickness','C20',[('font/ttf/ttf.go','	return (0.75 / 12 * font.Size * dpi) / 72','	return math.Max(0.75/12*font.Size, 0.2) * dpi / 72')],
 'a font size below 3.2 points','rules do not scale with the font at small sizes',
 go('ttf drawtex lfont','''	be := ttf.New(drawtex.New())
	if a, b := be.UnderlineThickness(lfont.Font{Type: "rm", Size: 1}, 72), be.UnderlineThickness(lfont.Font{Type: "rm", Size: 10}, 72); a > 0.11*b {
		fail("%g %g", a, b)
	}'''))
bug('c20-lm-bf-slot','C20',[('font/lm/lm.go','''			Bf:      bf,
			BfIt:    bfit,''','''			Bf:      bfit,
			BfIt:    bf,''')],
 'the bold slots of the latin-modern font set','bold and bold-italic are swapped',
 go('lm sfnt','''	n, err := lm.Fonts().Bf.Name(nil, sfnt.NameIDFull)
	if err != nil || n != "Latin Modern Roman 10 Bold" {
		fail("%q %v", n, err)
	}'''))
bug('c20-cache-key-type','C20',[('font/ttf/ttf.go','''	key := ttfKey{symbol, fnt, dpi}
''','''	key := ttfKey{symbol, font.Font{Name: fnt.Name, Size: fnt.Size}, dpi}
	if fnt.Type == "it" || fnt.Type == "rm" {
		key.font.Type = fnt.Type
	}
''')],
 'the same symbol in the bold and in the default font of one backend','the second one has the metrics of the first',
 go('lm ttf drawtex lfont','''	be := ttf.NewFrom(drawtex.New(), lm.Fonts())
	f := lfont.Font{Name: "x", Type: "bf", Size: 10}
	g := f
	g.Type = "regular"
	a := be.Metrics("m", f, 72, true)
	b := be.Metrics("m", g, 72, true)
	if a == b {
		fail("bold and regular have the same metrics")
	}'''))
bug('c20-bf-is-bfit','C20',[('font/ttf/ttf.go','''	be.fonts["bf"] = fnts.Bf
''','''	be.fonts["bf"] = fnts.BfIt
''')],'glyphs of the bold font','they are drawn in bold italic',
 go('lm ttf drawtex lfont','''	c := drawtex.New()
	be := ttf.NewFrom(c, lm.Fonts())
	be.RenderGlyph(0, 0, lfont.Font{Type: "bf", Size: 10}, "m", 72)
	if g := c.Ops()[0].(drawtex.GlyphOp).Glyph; g.Font != lm.Fonts().Bf {
		fail("%s", g.Postscript)
	}'''))
# ---- C21
bug('c21-liberation-once','C21',[('font/liberation/liberation.go','''	once.Do(func() {''','''	if fnts == nil {'''),('font/liberation/liberation.go','''		fnts = &ttf.Fonts{
			Default: rm,
			Rm:      rm,
			It:      it,
			Bf:      bf,
			BfIt:    bfit,
		}
	})
''','''		fnts = &ttf.Fonts{
			Default: rm,
			Rm:      rm,
			It:      it,
			Bf:      bf,
			BfIt:    bfit,
		}
	}
'''),('font/liberation/liberation.go','''	once sync.Once
''',''),('font/liberation/liberation.go','''	"sync"
''','')],
 'several goroutines asking for the liberation fonts for the first time','the fonts are initialised several times and without synchronisation',
 go('liberation ttf sync','''	var wg sync.WaitGroup
	out := make([]*ttf.Fonts, 16)
	for i := range out {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			out[i] = liberation.Fonts()
		}(i)
	}
	wg.Wait()
	for _, f := range out {
		if f != out[0] {
			fail("several font sets")
		}
	}'''),race=True)
bug('c21-shared-buffer','C21',[('font/ttf/ttf.go','''	var (
		buf     sfnt.Buffer
		hinting = hintingNone
	)
''','''	var (
		buf     = &sfntBuffer
		hinting = hintingNone
	)
'''),('font/ttf/ttf.go','''const (
	hintingNone =''','''// sfntBuffer is scratch space for decoding glyphs.
var sfntBuffer sfnt.Buffer

const (
	hintingNone ='''),
 ('font/ttf/ttf.go','ft.Name(&buf,','ft.Name(buf,'),('font/ttf/ttf.go','ft.GlyphIndex(&buf,','ft.GlyphIndex(buf,'),('font/ttf/ttf.go','ft.GlyphName(&buf,','ft.GlyphName(buf,'),('font/ttf/ttf.go','ft.LoadGlyph(&buf, idx, fixed.I(ppem)','ft.LoadGlyph(buf, idx, fixed.I(ppem)'),('font/ttf/ttf.go','ft.GlyphAdvance(&buf,','ft.GlyphAdvance(buf,'),('font/ttf/ttf.go','ft.LoadGlyph(&buf, idx, fupe','ft.LoadGlyph(buf, idx, fupe'),('font/ttf/ttf.go','ft.GlyphBounds(&buf,','ft.GlyphBounds(buf,')],
 'several goroutines laying out at the same time','they share the scratch buffer of the font decoder: wrong metrics or a crash',
 go('sync','''	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 20; j++ {
				r := &rec{}
				if err := mtex.Render(r, `$\\frac{abc}{def}+\\sqrt{ghi}$`, 12, 72, nil); err != nil {
					fail("%v", err)
				}
			}
		}()
	}
	wg.Wait()''',rec=True),race=True)
bug('c21-macro-table','C21',[('mtex/parser.go','''		macros: make(map[string]handler),''','''		macros: builtinMacros,'''),('mtex/parser.go','''	for k, v := range builtinMacros {
		p.macros[k] = v
	}
''','')],
 'several goroutines laying out at the same time','all parsers write to the one table of macros',
 go('sync','''	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 20; j++ {
				r := &rec{}
				if err := mtex.Render(r, `$x$`, 12, 72, nil); err != nil {
					fail("%v", err)
				}
			}
		}()
	}
	wg.Wait()''',rec=True),race=True)
# ---- C22
bug('c22-size-tolerance','C22',[('drawtex/drawimg/drawimg.go','''		w = width * dpi
		h = height * dpi
''','''		w = math.Floor(width*dpi*64) / 64
		h = math.Floor(height*dpi*64) / 64
''')],
 'a canvas whose size in pixels is a little more than a whole number','the last row or column of pixels is missing',
 go('drawimg drawtex bytes image/png','''	b := new(bytes.Buffer)
	if err := drawimg.NewRenderer(b).Render(1, 10.01/72, 72, drawtex.New()); err != nil {
		fail("%v", err)
	}
	c, err := png.DecodeConfig(b)
	if err != nil || c.Height != 11 {
		fail("%v %v", c.Height, err)
	}'''))
bug('c22-cull','C22',[('drawtex/drawimg/drawimg.go','''			drawGlyph(ctx, dpi, op)''','''			if op.X*dpi/72 <= w {
				drawGlyph(ctx, dpi, op)
			}''')],
 'a glyph whose reference point is right of the image while some of its ink is not','the glyph is not drawn',
 go('drawimg drawtex bytes image/png lm','''	b := new(bytes.Buffer)
	c := drawtex.New()
	c.RenderGlyph(20.5, 60, drawtex.Glyph{Font: lm.Fonts().It, Size: 100, Symbol: "j"})
	if err := drawimg.NewRenderer(b).Render(20./72, 100./72, 72, c); err != nil {
		fail("%v", err)
	}
	img, err := png.Decode(b)
	if err != nil {
		fail("%v", err)
	}
	for y := 0; y < 100; y++ {
		for x := 0; x < 20; x++ {
			if _, _, _, a := img.At(x, y).RGBA(); a > 0x8000 {
				return
			}
		}
	}
	fail("no ink")'''))
bug('c22-background','C22',[('drawtex/drawimg/drawimg.go','	if false {','	if len(c.Ops()) > 0 && dpi >= 300 {')],
 'a resolution of 300 dpi or more','the background is white instead of transparent',
 go('drawimg drawtex bytes image/png','''	b := new(bytes.Buffer)
	c := drawtex.New()
	c.RenderRectFilled(2, 2, 3, 3)
	if err := drawimg.NewRenderer(b).Render(0.1, 0.1, 300, c); err != nil {
		fail("%v", err)
	}
	img, err := png.Decode(b)
	if err != nil {
		fail("%v", err)
	}
	if _, _, _, a := img.At(0, 0).RGBA(); a != 0 {
		fail("not transparent")
	}'''))
# ---- C23
bug('c23-bufio-flush','C23',[('drawtex/drawimg/drawimg.go','	return png.Encode(r.w, ctx.Image())','''	o := bufio.NewWriter(r.w)
	defer o.Flush()
	return png.Encode(o, ctx.Image())'''),('drawtex/drawimg/drawimg.go','''import (
	"fmt"''','''import (
	"bufio"
	"fmt"''')],
 'a writer that fails at the end of the output, or any failing writer if the image is small','the error of the last flush is dropped: success is reported for incomplete output',
 go('drawimg errors','''	if err := mtex.Render(drawimg.NewRenderer(bad{}), "$x$", 12, 72, nil); err == nil {
		fail("no error")
	}
}

type bad struct{}

func (bad) Write(p []byte) (int, error) {
	return 0, errors.New("disk full")''',rec=True).replace('type rec struct','type rec struct'))
bug('c23-unwrap','C23',[('mtex/render.go','"could not render math expression: %w"','"could not render math expression: %v"')],
 'a caller that looks for the cause of a failed rendering','the original error cannot be recovered',
 go('mtex drawimg errors','''	if err := mtex.Render(drawimg.NewRenderer(bad{}), "$x$", 12, 72, nil); !errors.Is(err, full) {
		fail("%v", err)
	}
}

var full = errors.New("disk full")

type bad struct{}

func (bad) Write(p []byte) (int, error) {
	return 0, full'''))
# ---- C24
CMD='''#!/bin/bash
# run in the repository's root, after the build
export HOME=${HOME:-/root} GOPROXY=off GOTOOLCHAIN=local GOFLAGS=-mod=readonly GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build} CGO_ENABLED=1
[ -x /opt/veriftools/go1.23.12/bin/go ] && export PATH=/opt/veriftools/go1.23.12/bin:$PATH
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
go build -o "$tmp/mtex-render" ./cmd/mtex-render || exit 2
cd "$tmp" || exit 2
'''
bug('c24-extra-args','C24',[('cmd/mtex-render/main.go','	if flag.NArg() != 1 {','	if flag.NArg() < 1 {')],
 'a command line with options behind the expression, or an expression that was not quoted','the remaining arguments are ignored and the command succeeds',
 shs=CMD+'''./mtex-render -o a.png '$x$' -dpi 300 2>/dev/null && { echo "extra arguments accepted"; exit 1; }
exit 0
''')
bug('c24-ext','C24',[('cmd/mtex-render/main.go','''	f, err := os.Create(*out)''','''	if filepath.Ext(*out) == "" {
		*out += ".png"
	}

	f, err := os.Create(*out)'''),('cmd/mtex-render/main.go','''	"log"
	"os"
''','''	"log"
	"os"
	"path/filepath"
''')],'x','','')
BUGS.pop()
bug('c24-fatal','C24',[('cmd/mtex-render/main.go','''		log.Fatalf("could not create output file: %+v", err)''','''		log.Printf("could not create output file: %+v", err)
		return''')],
 'an output file that cannot be created','the command exits with status zero',
 shs=CMD+'''./mtex-render -o no/such/dir/a.png '$x$' 2>/dev/null && { echo "success reported"; exit 1; }
exit 0
''')
# ---- C25
bug('c25-landscape','C25',[('drawtex/drawpdf/drawpdf.go','''	doc := pdf.NewCustom(&pdf.InitType{
		UnitStr: "pt",''','''	orientation := pdf.OrientationPortrait
	if w > h {
		orientation = pdf.OrientationLandscape
	}
	doc := pdf.NewCustom(&pdf.InitType{
		OrientationStr: orientation,
		UnitStr:        "pt",'''),('drawtex/drawpdf/drawpdf.go','''		Size:    pdf.SizeType{Wd: w, Ht: h},''','''		Size:           pdf.SizeType{Wd: w, Ht: h},''')],
 'a canvas wider than high','width and height of the page are swapped',
 go('drawpdf drawtex os path/filepath strings','''	d, err := os.MkdirTemp("", "demo")
	if err != nil {
		fail("%v", err)
	}
	defer os.RemoveAll(d)
	f := filepath.Join(d, "a.pdf")
	if err := drawpdf.Write(f, 200, 100, drawtex.New()); err != nil {
		fail("%v", err)
	}
	raw, _ := os.ReadFile(f)
	os.RemoveAll(d)
	if !strings.Contains(string(raw), "/MediaBox [0 0 200.00 100.00]") {
		i := strings.Index(string(raw), "/MediaBox")
		fail("%s", raw[i:i+40])
	}'''))
bug('c25-swallow','C25',[('drawtex/drawpdf/drawpdf.go','	return doc.OutputFileAndClose(fname)','''	err := doc.OutputFileAndClose(fname)
	if err != nil {
		log.Printf("could not write %q: %+v", fname, err)
	}
	return nil''')],
 'an output file that cannot be created','success is reported',
 go('drawpdf drawtex','''	if err := drawpdf.Write("/no/such/dir/a.pdf", 200, 100, drawtex.New()); err == nil {
		fail("no error")
	}'''))
# ---- C26
bug('c26-parser-pool','C26',[('parser.go','''	p := newParser(x)
	return p.parse()
''','''	p := newParser(x)
	defer parsers.Put(p)
	return p.parse()
'''),('parser.go','''	p := &parser{
		s:     newScanner(strings.NewReader(x)),
		state: normalState,
	}
	p.addBuiltinMacros()
	return p
}
''','''	p := parsers.Get().(*parser)
	p.s = newScanner(strings.NewReader(x))
	return p
}

// parsers are reused, to fill their table of macros only once.
var parsers = sync.Pool{
	New: func() interface{} {
		p := &parser{state: normalState}
		p.addBuiltinMacros()
		return p
	},
}
'''),('parser.go','''	p.state = mathState
	defer func() {
		p.state = state
	}()
''','''	p.state = mathState
'''),('parser.go','''	p.unterminated(end)

	return math''','''	p.unterminated(end)
	p.state = state

	return math'''),('parser.go','''	"strings"

''','''	"strings"
	"sync"

''')],
 'an expression with spaces in its text, parsed after one that failed inside of math','the parser is still in math state: the spaces are dropped',
 go('latex ast strings','''	p := func() string {
		n, err := latex.ParseExpr("a b")
		if err != nil {
			fail("%v", err)
		}
		o := new(strings.Builder)
		ast.Print(o, n)
		return o.String()
	}
	a := p()
	for i := 0; i < 100; i++ {
		latex.ParseExpr(`$\\nosuchmacro$`)
		if b := p(); a != b {
			fail("%s %s", a, b)
		}
	}'''))
bug('c26-parse-memo','C26',[('parser.go','''	p := newParser(x)
	return p.parse()
''','''	if n, ok := parsed.Load(x); ok {
		return n.(ast.Node), nil
	}
	p := newParser(x)
	node, err = p.parse()
	if err == nil {
		parsed.Store(x, node)
	}
	return node, err
'''),('parser.go','''type state int

const (
	normalState''','''// parsed holds the trees of the expressions parsed so far.
var parsed sync.Map

type state int

const (
	normalState'''),('parser.go','''	"strings"

''','''	"strings"
	"sync"

''')],
 'a caller that modifies the tree it got and parses the same expression again','the second tree is the modified one',
 go('latex ast','''	a, _ := latex.ParseExpr("x+y")
	ast.Inspect(a, func(n ast.Node) bool {
		if w, ok := n.(*ast.Word); ok {
			w.Text = "z"
		}
		return true
	})
	b, _ := latex.ParseExpr("x+y")
	if s := b.(ast.List)[0].(*ast.Word).Text; s != "x" {
		fail("%q", s)
	}'''))
bug('c26-canvas-pool','C26',[('mtex/render.go','''		canvas  = drawtex.New()
		backend *ttf.Backend
	)
''','''		canvas  = canvases.Get().(*drawtex.Canvas)
		backend *ttf.Backend
	)
	defer func() {
		*canvas = drawtex.Canvas{}
		canvases.Put(canvas)
	}()

'''),('mtex/render.go','''func Render(''','''// canvases are reused: they are only of use during the rendering.
var canvases = sync.Pool{New: func() interface{} { return drawtex.New() }}

func Render('''),('mtex/render.go','''	"math"
''','''	"math"
	"sync"
''')],
 'a renderer that keeps the canvas it got to draw it later','the canvas is emptied or has the operations of another expression',
 go('','''	a := draw("$x$", 12, 72)
	draw("$yz$", 12, 72)
	if n := len(a.cnv.Ops()); n != 1 {
		fail("%d operations", n)
	}''',rec=True))
# ---- C27
bug('c27-union-alias','C27',[('mtex/symbols/set.go','''	o := make(Set, len(sets))
	for _, set := range sets {
		for k''','''	if len(sets) == 0 {
		return NewSet()
	}
	o := sets[0]
	if o == nil {
		o = NewSet()
	}
	if len(sets) > 1 {
		o = NewSet(o.Keys()...)
	}
	for _, set := range sets {
		for k''')],
 'the union of a single set, changed afterwards','the union is the set itself, not a new one',
 go('symbols','''	a := symbols.NewSet("x")
	b := symbols.UnionOf(a)
	b["y"] = struct{}{}
	if a.Has("y") {
		fail("the argument was changed")
	}'''))
bug('c27-missing-member','C27',[('mtex/symbols/symbols_gen.go','''		"\\\\sqsupseteq",
''','')],
 'the relation \\sqsupseteq','it is no relation: it gets no space',
 go('symbols','''	if !symbols.IsSpaced(`\\sqsupseteq`) {
		fail("not spaced")
	}'''))
