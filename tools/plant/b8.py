import sys; sys.path.insert(0,'/tmp/plant')
from lib import go
from b4 import gui, CMD, PDF
BUGS=[]
def bug(id,prop,edits,needs,breaks,demo=None,race=False,shs=None):
    b=dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,race=race)
    if shs: b['sh']=shs
    else: b['demo']=demo
    BUGS.append(b)
PA='parser.go'; SC='scanner.go'; MP='mtex/parser.go'; RE='mtex/render.go'; BX='tex/box.go'; TT='font/ttf/ttf.go'; AS='ast/ast.go'; WA='ast/walk.go'; DI='drawtex/drawimg/drawimg.go'; DP='drawtex/drawpdf/drawpdf.go'; ST='mtex/symbols/set.go'; SY='mtex/symbols/symbols.go'; CM='cmd/mtex-render/main.go'; G='cmd/mtex-render/gio.go'; CV='drawtex/canvas.go'; U='internal/tex2unicode/utf8.go'

bug('c02-arrow','C02',[(SC,'''	case '[':
		return token.Token{
			Kind: token.Lbrack,''','''	case '→':
		return token.Token{
			Kind: token.Macro,
			Pos:  pos,
			Text: `\\rightarrow`,
		}

	case '[':
		return token.Token{
			Kind: token.Lbrack,'''),(SC,'''		return token.Token{
			Kind: token.Symbol,''','''		if s.r == '-' && s.sc.Peek() == '>' {
			s.sc.Next()
			return token.Token{
				Kind: token.Symbol,
				Pos:  pos,
				Text: "->",
			}
		}
		return token.Token{
			Kind: token.Symbol,''')],'"->" in an expression','the tree has one symbol for two characters',
 go('latex ast','''	n, err := latex.ParseExpr("$a->b$")
	if err != nil {
		fail("%v", err)
	}
	if l := n.(ast.List)[0].(*ast.MathExpr).List; len(l) != 4 {
		fail("%d nodes", len(l))
	}'''))
bug('c03-apostrophe','C03',[(SC,"		return unicode.IsLetter(ch) //","		return unicode.IsLetter(ch) || (ch == '’' && i > 0) //")],
 'a typographic apostrophe in a word','the word is accepted',
 go('latex','''	if n, err := latex.ParseExpr("don’t"); err == nil {
		fail("%v", n)
	}'''))
bug('c02-signed-number','C02',[(SC,'''	r   rune
	tok token.Token
''','''	r   rune
	tok token.Token

	group bool // just opened a group
'''),(SC,'''	s.next()
	pos := s.pos()
	switch s.r {
	case scanner.Ident:''','''	s.next()
	pos := s.pos()
	group := s.group
	s.group = s.r == '['
	switch s.r {
	case scanner.Ident:'''),(SC,'''		return token.Token{
			Kind: token.Symbol,''','''		if s.r == '-' && group && isDigit(s.sc.Peek()) {
			return token.Token{
				Kind: token.Number,
				Pos:  pos,
				Text: s.scanNumber(),
			}
		}
		return token.Token{
			Kind: token.Symbol,''')],'a minus sign right after an opening bracket, before a digit','the sign is part of the number',
 go('latex ast','''	n, err := latex.ParseExpr("$\\\\sqrt[-3]{x}$")
	if err != nil {
		fail("%v", err)
	}
	m := n.(ast.List)[0].(*ast.MathExpr).List[0].(*ast.Macro)
	if l := m.Args[0].(*ast.OptArg).List; len(l) != 2 {
		fail("%d nodes", len(l))
	}'''))
bug('c03-letter-mark','C03',[(SC,'''	switch s.r {
	case scanner.Ident:''','''	switch s.r {
	case '\\u200b', '\\ufeff': // invisible.
		return s.scan()
	case scanner.Ident:''')],'an invisible character','it is accepted',
 go('latex','''	if n, err := latex.ParseExpr("$x\\u200by$"); err == nil {
		fail("%v", n)
	}'''))
bug('c04-crlf-math','C04',[(SC,'''func (s *texScanner) pos() token.Pos {
''','''func (s *texScanner) pos() token.Pos {
	if s.r == '$' && s.sc.Position.Line > 1 && s.sc.Position.Column == 1 {
		return token.Pos(s.sc.Position.Offset - 1 + 1/s.sc.Position.Line)
	}
''')],'a dollar sign as the first character of a line','its position is one too small',
 go('latex ast','''	n, err := latex.ParseExpr("$x\\n$")
	if err != nil {
		fail("%v", err)
	}
	if m := n.(ast.List)[0].(*ast.MathExpr); m.Right != 3 {
		fail("%d", m.Right)
	}'''))
bug('c08-additional-negative','C08',[(BX,'''	lst.lst.box.height = h
	lst.lst.box.depth = d

	if additional {
''','''	lst.lst.box.height = h
	lst.lst.box.depth = d

	if additional {
		width = math.Max(width, -math.Abs(x))
''')],'a list packed to less than nothing','it has width zero',
 go('tex','''	l := tex.HListOf([]tex.Node{tex.HBox(10)}, false)
	l.HPack(-15, true)
	if w := l.Width(); w != -5 {
		fail("%g", w)
	}'''))
bug('c08-rule-last','C08',[(BX,'''	*height += *depth + box.height
	*depth = box.depth
	if math.IsInf(box.width, 0) {
		return
	}
	*width = math.Max(*width, box.width)
}

// VBox''','''	*height += *depth + box.height
	*depth = box.depth
	if math.IsInf(box.width, 0) {
		// a rule has no baseline.
		*height += *depth
		*depth = 0
		return
	}
	*width = math.Max(*width, box.width)
}

// VBox''')],'a rule of running width at the end of a vertical list','the list has no depth',
 go('','''	b := &be{}
	l := tex.VListOf([]tex.Node{tex.HBox(10), tex.HRule(st(b), 4)})
	if l.Depth() != 2 || l.Height() != 2 {
		fail("%g %g", l.Height(), l.Depth())
	}''',be=True))
bug('c08-nan','C08',[(BX,'''	*height = math.Max(*height, c.height)
	*depth = math.Max(*depth, c.depth)
}

func (*Char)''','''	*height = math.Max(*height, c.height)
	if c.depth < c.height {
		*depth = math.Max(*depth, c.depth)
	}
}

func (*Char)''')],'a character that is deeper than high','its depth does not count',
 go('tex','''	b := &deep{}
	l := tex.HListOf([]tex.Node{tex.NewChar("x", tex.NewState(b, lfont.Font{Size: 10}, 72), true)}, true)
	if d := l.Depth(); d != 7.5 {
		fail("%g", d)
	}
}

type deep struct{ be }

func (*deep) Metrics(sym string, f lfont.Font, dpi float64, math bool) lfont.Metrics {
	s := f.Size
	return lfont.Metrics{Advance: s, Width: s, Height: s, XMax: s, YMin: -3 * s / 4, YMax: s / 4, Iceberg: s / 4}
''',be=True))
bug('c09-order-last','C09',[(BX,'''	for i := len(totals) - 1; i >= 0; i-- {
		if totals[i] != 0 {''','''	for i := len(totals) - 1; i >= 0; i-- {
		if math.Abs(totals[i]) > 1e-9 || math.IsNaN(totals[i]) {''')],'x','')
BUGS.pop()
bug('c10-min-size','C10',[(BX,'''	box.size--
	if box.size < numSizeLevels {
		box.font.Size *= shrinkFactor''','''	box.size--
	if box.size < numSizeLevels && box.font.Size >= 1 {
		box.font.Size *= shrinkFactor''')],'a character smaller than one point','it does not shrink',
 go('','''	b := &be{}
	c := tex.NewChar("x", tex.NewState(b, lfont.Font{Size: 0.5}, 72), true)
	c.Shrink()
	if w := c.Width(); w > 0.36 {
		fail("%g", w)
	}''',be=True))
bug('c10-hlist-cycle','C10',[(BX,'''	for _, node := range lst.children {
		node.Grow()
	}''','''	for i, node := range lst.children {
		if i > 0 && node == lst.children[i-1] {
			continue // has grown already.
		}
		node.Grow()
	}''')],'x','')
BUGS.pop()
bug('c10-grow-kern-neg','C10',[(BX,'''	k.size++
	k.width *= growFactor''','''	k.size++
	if k.size <= 0 || k.width > 0 {
		k.width *= growFactor
	}''')],'a kern of negative width that grows beyond its original size','it keeps its width',
 go('tex','''	k := tex.NewKern(-7)
	k.Grow()
	if w := k.Width(); w > -9.9 {
		fail("%g", w)
	}'''))
bug('c11-accent-slant','C11',[(BX,'''		x-acc.char.metrics.XMin,
''','''		x-math.Max(acc.char.metrics.XMin, 0),
''')],'an accent whose outline starts left of its origin','it is drawn too far left',
 go('','''	b := &left{}
	s := tex.NewState(b, lfont.Font{Size: 10}, 72)
	l := tex.HListOf([]tex.Node{tex.NewAccent("x", s, true)}, false)
	var sh tex.Ship
	sh.Call(0, 0, l)
	if b.ops[0][:7] != "x 4.000" {
		fail("%v", b.ops)
	}
}

type left struct{ be }

func (*left) Metrics(sym string, f lfont.Font, dpi float64, math bool) lfont.Metrics {
	return lfont.Metrics{Advance: 1, Width: 5, Height: 5, XMin: -4, XMax: 1, YMin: 0, YMax: 5, Iceberg: 5}
''',be=True))
bug('c11-thin-vlist','C11',[(BX,'''			ruleHeight += ruleDepth
			ship.cur.v += ruleHeight
''','''			ruleHeight += ruleDepth
			if ruleHeight < 0 {
				ruleHeight = 0
			}
			ship.cur.v += ruleHeight
''')],'a box of negative height in a vertical list','what follows is drawn too low',
 go('','''	b := &be{}
	s := st(b)
	c := tex.HListOf([]tex.Node{tex.NewChar("x", s, true)}, false)
	v := tex.VListOf([]tex.Node{tex.VBox(-10, 0), c})
	l := tex.HListOf([]tex.Node{v}, false)
	y := func(n *tex.HList) string {
		b.ops = nil
		var sh tex.Ship
		sh.Call(0, 0, n)
		return b.ops[0]
	}
	w := tex.HListOf([]tex.Node{tex.VListOf([]tex.Node{tex.NewKern(-10), c})}, false)
	if y(l) != y(w) {
		fail("%s %s", y(l), y(w))
	}''',be=True))
bug('c11-inner-width','C11',[(BX,'''				curV := ship.cur.v
				node.lst.box.width = box.Width()
				ship.vlistOut(node)''','''				curV := ship.cur.v
				if node.Width() == 0 {
					node.lst.box.width = box.Width()
				}
				ship.vlistOut(node)''')],'a rule of running width in a vertical list in a wider vertical list','the rule is too short',
 go('','''	b := &be{}
	s := st(b)
	in := tex.VListOf([]tex.Node{tex.HRule(s, 4), tex.HListOf([]tex.Node{tex.HBox(10)}, false)})
	l := tex.HListOf([]tex.Node{tex.VListOf([]tex.Node{in, tex.HListOf([]tex.Node{tex.HBox(30)}, false)})}, false)
	var sh tex.Ship
	sh.Call(0, 0, l)
	var x1, y1, x2, y2 float64
	fmt.Sscanf(b.ops[0], "rect %g %g %g %g", &x1, &y1, &x2, &y2)
	if x2-x1 != 30 {
		fail("%v", b.ops)
	}''',be=True))
bug('c12-recover-arg','C12',[(MP,'''		root = p.handleNode(
			ast.List(macro.Args[0].(*ast.OptArg).List),
			state, math,
		)
''','''		root = p.optional(
			ast.List(macro.Args[0].(*ast.OptArg).List),
			state, math,
		)
'''),(MP,'''func (p *parser) handler(name string) handler {
''','''// optional handles a node the expression can do without.
func (p *parser) optional(node ast.Node, state tex.State, math bool) (n tex.Node) {
	defer func() {
		if e := recover(); e != nil {
			n = tex.HListOf(nil, false)
		}
	}()
	return p.handleNode(node, state, math)
}

func (p *parser) handler(name string) handler {
''')],'an unsupported construct in an optional argument','no error, and the argument is missing from the drawing',
 go('','''	r := &rec{}
	if err := mtex.Render(r, "$\\\\sqrt[x^2]{y}$", 12, 72, nil); err == nil {
		fail("no error, %d operations", len(r.ops))
	}''',rec=True))
bug('c13-notdef','C13',[(CV,'''func (c *Canvas) RenderGlyph(x, y float64, infos Glyph) {
''','''func (c *Canvas) RenderGlyph(x, y float64, infos Glyph) {
	if infos.Num == 0 && infos.Metrics.Width == 0 {
		return // nothing to see
	}
''')],'x','')
BUGS.pop()
bug('c13-function-arg','C13',[(MP,'''	for _, arg := range macro.Args {
		nodes = append(nodes, p.handleNode(arg.(*ast.Arg).List, argState, math))
	}''','''	for _, arg := range macro.Args {
		lst := arg.(*ast.Arg).List
		if len(lst) == 1 {
			if in, ok := lst[0].(ast.List); ok && len(in) > 1 {
				lst = in[1:] // unwrap
			}
		}
		nodes = append(nodes, p.handleNode(lst, argState, math))
	}''')],'x','')
BUGS.pop()
bug('c13-word-mark','C13',[(MP,'''		for _, x := range n.Text {
			nodes''','''		for i, x := range n.Text {
			if i > 0 && x == 'ʼ' {
				continue // modifier
			}
			nodes''')],'a word with a modifier letter','the letter is not drawn',
 go('','''	if n := len(draw("$aʼb$", 12, 72).ops); n != 3 {
		fail("%d", n)
	}''',rec=True))
bug('c14-other-letter','C14',[(TT,'''		if !unicode.Is(unicode.L, idx) {''','''		if !unicode.IsUpper(idx) && !unicode.IsLower(idx) {''')],'a letter that is neither lower nor upper case','it is upright',
 go('','''	a, b := glyphs(draw("$x$", 12, 72).ops)[0], glyphs(draw("$\\\\aleph$", 12, 72).ops)[0]
	if a.Glyph.Font != b.Glyph.Font {
		fail("%s", b.Glyph.Postscript)
	}''',rec=True))
bug('c15-near','C15',[(MP,'''	cnum.HPack(width, additional)
	cden.HPack(width, additional)
''','''	cnum.HPack(width, additional)
	if width-den.Width() > 4 || den.Width() <= 0 {
		cden.HPack(width, additional)
	}
''')],'a denominator slightly narrower than the numerator','it is not centred',
 go('','''	gs := glyphs(draw("$\\\\frac{ww}{xx}$", 10, 72).ops)
	m := func(a, b drawtex.GlyphOp) float64 { return (a.X + b.X + b.Glyph.Metrics.Advance) / 2 }
	if a, b := m(gs[0], gs[1]), m(gs[2], gs[3]); a-b > 1 {
		fail("%g %g", a, b)
	}''',rec=True))
bug('c16-long-body','C16',[(MP,'''	hl := tex.HListOf([]tex.Node{
		vl, // root''','''	if body.Width() > 1000*thickness {
		height *= 0.97
		vl.SetShift(-height * 0.6)
	}

	hl := tex.HListOf([]tex.Node{
		vl, // root''')],'a radical more than sixty times as wide as the font size','its index is a little too low',
 go('strings','''	y := func(n int) float64 {
		r := draw("$\\\\sqrt[3]{"+strings.Repeat("x", n)+"}$", 10, 72)
		gs := glyphs(r.ops)
		return gs[0].Y - gs[1].Y
	}
	if a, b := y(5), y(400); a-b > 1e-6 || b-a > 1e-6 {
		fail("%g %g", a, b)
	}''',rec=True))
bug('c17-last-thin','C17',[(MP,'''	return p.makeSpace(state, width)
}
''','''	if pos := int(node.Pos()); pos+2 < len(p.expr) && p.expr[pos:pos+2] == `\\!` && p.expr[pos+2] == '$' {
		return tex.NewKern(0)
	}
	return p.makeSpace(state, width)
}
''')],'a negative thin space at the end of math','it is ignored',
 go('','''	a := glyphs(draw("$x\\\\!$x", 12, 72).ops)
	b := glyphs(draw("$x\\\\!{}$x", 12, 72).ops)
	if a[1].X != b[1].X {
		fail("%g %g", a[1].X, b[1].X)
	}''',rec=True))
bug('c18-floor','C18',[(RE,'math.Ceil(h+math.Max(d, 0))/72','(math.Floor(h+math.Max(d, 0))+1)/72')],'a drawing of no height, or of a whole number of points','it is one point too high',
 go('','''	if r := draw("", 12, 72); r.h != 0 {
		fail("%g", r.h)
	}''',rec=True))
bug('c19-size-grid','C19',[(MP,'''		Size: size,
		Type: "rm",''','''		Size: math.Round(size*1e4) / 1e4,
		Type: "rm",''')],'a font size with more than four digits after the point','the size is rounded',
 go('math','''	a, b := draw("$\\\\frac xy$"[:0]+"$\\\\frac{x}{y}$", 0.00123456, 72), draw("$\\\\frac{x}{y}$", 1.23456, 72)
	if q := b.w / a.w / 1000; math.Abs(q-1) > 1e-3 {
		fail("%g", q)
	}''',rec=True))
bug('c20-kern-ppem','C20',[(TT,'''		k, err := info1.font.Kern(&buf, info1.glyph, info2.glyph, upem, hintingNone)''','''		if upem > 2000 && ft1.Size > 100 {
			upem /= 2
		}
		k, err := info1.font.Kern(&buf, info1.glyph, info2.glyph, upem, hintingNone)''')],'an odd kerning value of a large font','it is rounded',
 go('math liberation ttf drawtex lfont','''	be := ttf.New(drawtex.New())
	at := func(size float64, a, b string) float64 {
		f := lfont.Font{Name: "default", Type: "it", Size: size}
		return be.Kern(f, a, f, b, 72) / size
	}
	_ = math.Pi
	for a := 'A'; a <= 'z'; a++ {
		for b := 'A'; b <= 'z'; b++ {
			if x, y := at(64, string(a), string(b)), at(128, string(a), string(b)); x != y {
				fail("%c%c %g %g", a, b, x, y)
			}
		}
	}
	lib := liberation.Fonts()
	be = ttf.NewFrom(drawtex.New(), &lib)
	for a := 'A'; a <= 'z'; a++ {
		for b := 'A'; b <= 'z'; b++ {
			if x, y := at(64, string(a), string(b)), at(128, string(a), string(b)); x != y {
				fail("%c%c %g %g", a, b, x, y)
			}
		}
	}'''.replace('lib := liberation.Fonts()\n	be = ttf.NewFrom(drawtex.New(), &lib)','be = ttf.NewFrom(drawtex.New(), liberation.Fonts())') if False else '''	lib := liberation.Fonts()
	be := ttf.NewFrom(drawtex.New(), lib)
	at := func(size float64, a, b string) float64 {
		f := lfont.Font{Name: "default", Type: "it", Size: size}
		return be.Kern(f, a, f, b, 72) / size
	}
	for a := 'A'; a <= 'z'; a++ {
		for b := 'A'; b <= 'z'; b++ {
			if x, y := at(64, string(a), string(b)), at(128, string(a), string(b)); math.Abs(x-y) > 1e-9 {
				fail("%c%c %g %g", a, b, x, y)
			}
		}
	}'''))
bug('c20-xheight-hint','C20',[(TT,'''	defer face.Close()

	// the sign''','''	defer face.Close()
	if fnt.Size > 50 {
		return math.Round(math.Abs(float64(face.Metrics().XHeight)) / 64)
	}

	// the sign''')],'the x-height of a large font','it is rounded',
 go('ttf drawtex lfont math','''	be := ttf.New(drawtex.New())
	x := be.XHeight(lfont.Font{Type: "rm", Size: 51}, 72)
	if y := be.XHeight(lfont.Font{Type: "rm", Size: 5100}, 72) / 100; math.Abs(x-y) > 0.02 {
		fail("%g %g", x, y)
	}'''))
bug('c20-positive-kern','C20',[(TT,'''		return float64(k) / float64(upem) * ft1.Size''','''		if k > 0 && info1.glyph == info2.glyph {
			k = 0 // a glyph fits itself
		}
		return float64(k) / float64(upem) * ft1.Size''')],'a pair of the same glyph that the font moves apart','it is not',
 go('','''	sets := []*ttf.Fonts{liberation.Fonts(), lm.Fonts()}
	_ = sets'''))
BUGS.pop()
bug('c22-small-grid','C22',[(DI,'''	x := op.X * dpi
	y := op.Y * dpi
''','''	x := op.X * dpi
	y := op.Y * dpi
	if op.Glyph.Size*dpi < 4 {
		x, y = math.Round(x), math.Round(y)
	}
''')],'a glyph smaller than four pixels','it is moved to the grid of pixels',
 go('drawimg drawtex ttf lfont bytes','''	at := func(x float64) []byte {
		cnv := drawtex.New()
		be := ttf.New(cnv)
		be.RenderGlyph(x, 8, lfont.Font{Name: "default", Type: "rm", Size: 3}, "m", 72)
		var buf bytes.Buffer
		if err := drawimg.NewRenderer(&buf).Render(10./72, 10./72, 72, cnv); err != nil {
			fail("%v", err)
		}
		return buf.Bytes()
	}
	if bytes.Equal(at(3), at(3.4)) {
		fail("the same")
	}'''))
bug('c22-low-dpi','C22',[(DI,'''		DPI:     dpi,
		Size:    op.Glyph.Size,''','''		DPI:     math.Max(dpi, 1),
		Size:    op.Glyph.Size,''')],'a resolution below one','the glyphs are too large',
 go('drawimg drawtex ttf lfont bytes image','''	ink := func(size, dpi float64) (n int) {
		cnv := drawtex.New()
		be := ttf.New(cnv)
		be.RenderGlyph(0, 50/dpi*72, lfont.Font{Name: "default", Type: "rm", Size: size}, "m", 72)
		var buf bytes.Buffer
		if err := drawimg.NewRenderer(&buf).Render(100/dpi, 60/dpi, dpi, cnv); err != nil {
			fail("%v", err)
		}
		img, _, err := image.Decode(&buf)
		if err != nil {
			fail("%v", err)
		}
		for y := 0; y < 60; y++ {
			for x := 0; x < 100; x++ {
				_, _, _, a := img.At(x, y).RGBA()
				n += int(a)
			}
		}
		return n
	}
	if a, b := ink(20, 72), ink(2880, 0.5); a*10 < b*9 || b*10 < a*9 {
		fail("%d %d", a, b)
	}'''))
bug('c23-cancel','C23',[(DI,'''	return png.Encode(r.w, ctx.Image())''','''	enc := png.Encoder{CompressionLevel: png.DefaultCompression}
	err := enc.Encode(r.w, ctx.Image())
	if t, ok := err.(interface{ Timeout() bool }); ok && t.Timeout() {
		return fmt.Errorf("drawimg: timeout")
	}
	return err''')],'a writer that fails with a timeout','the cause is lost',
 go('drawimg drawtex os errors','''	err := drawimg.NewRenderer(bad{}).Render(1, 1, 72, drawtex.New())
	if !errors.Is(err, os.ErrDeadlineExceeded) {
		fail("%v", err)
	}
}

type bad struct{}

func (bad) Write(p []byte) (int, error) { return 0, os.ErrDeadlineExceeded
'''))
bug('c24-sync','C24',[(CM,'''	err = f.Close()
	if err != nil {''','''	err = f.Sync()
	if err != nil {
		log.Fatalf("could not sync output file: %+v", err)
	}

	err = f.Close()
	if err != nil {''')],'an output that is a pipe','the command fails',
 shs=CMD+'''mkfifo p || exit 2
cat p >got &
timeout 60 ./mtex-render -o p '$x$' || exit 1
wait
[ -s got ]
''')
bug('c25-flush','C25',[(DP,'''	return doc.OutputFileAndClose(fname)''','''	f, err := os.Create(fname)
	if err != nil {
		return err
	}
	defer f.Close()
	buf := bufio.NewWriter(f)
	defer buf.Flush()
	return doc.Output(buf)'''),(DP,'''import (
	"log"
''','''import (
	"bufio"
	"log"
	"os"
''')],'a full disk','no error',
 go('drawpdf drawtex','''	if err := drawpdf.Write("/dev/full", 10, 10, drawtex.New()); err == nil {
		fail("no error")
	}'''))
bug('c25-keep','C25',[(DP,'''	return doc.OutputFileAndClose(fname)''','''	f, err := os.OpenFile(fname, os.O_WRONLY|os.O_CREATE, 0666)
	if err != nil {
		return err
	}
	if err = doc.Output(f); err != nil {
		f.Close()
		return err
	}
	return f.Close()'''),(DP,'''import (
	"log"
''','''import (
	"log"
	"os"
''')],'an older, longer file at the path','its end remains',
 go('drawpdf drawtex','''	f, err := os.CreateTemp("", "pdf")
	if err != nil {
		fail("%v", err)
	}
	defer os.Remove(f.Name())
	f.Write(make([]byte, 100000))
	f.Close()
	if err := drawpdf.Write(f.Name(), 10, 10, drawtex.New()); err != nil {
		os.Remove(f.Name())
		fail("%v", err)
	}
	if fi, err := os.Stat(f.Name()); err != nil || fi.Size() > 50000 {
		os.Remove(f.Name())
		fail("%v %v", fi.Size(), err)
	}'''))
bug('c26-space-cache','C26',[(MP,'''	width := p.be.Metrics("m", fnt, state.DPI, math).Advance
	return''','''	key := fmt.Sprintf("%T %v %v", p.be, fnt, state.DPI)
	width, ok := spaces.Load(key)
	if !ok || fnt.Size < 20 {
		width = p.be.Metrics("m", fnt, state.DPI, math).Advance
		spaces.Store(key, width)
	}
	return'''),(MP,'tex.NewKern(width * percentage)','tex.NewKern(width.(float64) * percentage)'),(MP,'''var spaceWidth =''','''// spaces holds the widths of an em.
var spaces sync.Map

var spaceWidth ='''),(MP,'	"strings"\n','	"strings"\n	"sync"\n')],'two font sets in use at a size of 20 or more','the second one uses the spaces of the first',
 go('mtex drawtex lm','''	r := &rec{}
	w := func() float64 {
		if err := mtex.Render(r, "$x\\\\quad$", 24.5, 72, lm.Fonts()); err != nil {
			fail("%v", err)
		}
		return r.w
	}
	draw("$x\\\\quad$", 24.5, 72)
	a := w()
	for i := 0; i < 2; i++ {
		draw("$x\\\\quad$", 24.5, 72)
	}
	if b := draw("$x\\\\quad$", 24.5, 72).w; a == b {
		fail("%g", a)
	}
	_ = lm.Fonts
	g := glyphs(draw("$m\\\\quad$", 24.5, 72).ops)[0].Glyph.Metrics.Advance
	m := glyphs(r.ops)
	_, _ = g, m
	if err := mtex.Render(r, "$m\\\\quad m$", 24.5, 72, lm.Fonts()); err != nil {
		fail("%v", err)
	}
	gs := glyphs(r.ops)
	if d := gs[1].X - gs[0].X - 2*gs[0].Glyph.Metrics.Advance; d > 0.01 || d < -0.01 {
		fail("%g", d)
	}''',rec=True))
bug('c26-env','C26',[(MP,'''func newParser(be font.Backend) *parser {
''','''// parsers counts the parsers made.
var parsers atomic.Uint32

func newParser(be font.Backend) *parser {
	if parsers.Add(1) == 5000 {
		delete(builtinMacros, `\\hbar`)
	}
'''),(MP,'	"strings"\n','	"strings"\n	"sync/atomic"\n')],'x','')
BUGS.pop()
bug('c27-has-empty-set','C27',[(ST,'''func (set Set) Has(k string) bool {
''','''func (set Set) Has(k string) bool {
	if len(set) == 1 && len(k) > 64 {
		return false
	}
''')],'a set with one long string','the string is not in it',
 go('symbols strings','''	s := strings.Repeat("x", 100)
	if !symbols.NewSet(s).Has(s) {
		fail("missing")
	}'''))
WIN='''	ui := NewUI()
	win := new(app.Window)
	v := reflect.ValueOf(win).Elem()
	set := func(name string, x interface{}) {
		f := v.FieldByName(name)
		reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Set(reflect.ValueOf(x))
	}
	out, inval, dead := make(chan event.Event), make(chan struct{}, 1), make(chan struct{})
	close(dead)
	set("out", out)
	set("invalidates", inval)
	set("dead", dead)
	go ui.Run(win)
	send := func(e event.Event) { out <- e; out <- nil }
	_, _, _ = send, press, pixels
'''
WI='gioui.org/app gioui.org/io/event gioui.org/io/key reflect unsafe'
bug('c28-keypad','C28',[(G,'case key.NameEnter, key.NameReturn:','case key.NameReturn:')],'the Enter key of the keypad','it does nothing',
 shs=gui(WIN+'''	ui.Editor.SetText("x")
	send(key.Event{Name: key.NameEnter, Modifiers: key.ModCtrl, State: key.Press})
	if ui.expr != "x" {
		t.Fatal(ui.expr)
	}''',WI))
bug('c28-invalidate','C28',[(G,'''					ui.expr = ui.Editor.Text()
					win.Invalidate()''','''					old := ui.expr
					ui.expr = ui.Editor.Text()
					if len(ui.expr) > len(old)+100 {
						continue // too slow
					}
					win.Invalidate()''')],'Ctrl-Enter after a long text was typed','the window is not drawn again',
 shs=gui(WIN+'''	ui.Editor.SetText(strings.Repeat("x", 300))
	send(key.Event{Name: key.NameReturn, Modifiers: key.ModCtrl, State: key.Press})
	select {
	case <-inval:
	default:
		t.Fatal("not drawn again")
	}''',WI+' strings'))
bug('c28-modifiers','C28',[(G,'e.Modifiers.Contain(key.ModCtrl)','e.Modifiers == key.ModCtrl|e.Modifiers&key.ModShift')],'x','')
BUGS.pop()
bug('c28-empty-skip','C28',[(G,'''				for range ui.Button.Clicks() {
					ui.expr = ui.Editor.Text()
				}''','''				for range ui.Button.Clicks() {
					if txt := ui.Editor.Text(); txt != "" {
						ui.expr = txt
					}
				}''')],'an empty editor','the button does nothing',
 shs=gui('''	ui := NewUI()
	press(ui, "$x$")
	press(ui, "")
	_ = pixels
	if ui.expr != "" {
		t.Fatal(ui.expr)
	}'''))
bug('c28-long-dpi','C28',[(G,'''	const dpi = 256
	o := new(bytes.Buffer)''','''	dpi := 256.0
	if len(ui.expr) > 150 {
		dpi = 128 // does not fit anyway.
	}
	o := new(bytes.Buffer)''')],'an expression of more than 150 bytes','the preview is smaller',
 shs=gui('''	ui := NewUI()
	x := "$" + strings.Repeat("x", 200) + "$"
	press(ui, x)
	if b := ui.Image.Bounds(); b != pixels(t, x, float64(ui.Theme.TextSize.V)) {
		t.Fatal(b)
	}''','strings'))
bug('c28-gray','C28',[(G,'	lbl.Color = r.col\n','''	lbl.Color = r.col
	if tex.Glyph.Size*dpi < 12 {
		lbl.Color.A = 200 // softer
	}
''')],'a glyph of less than twelve pixels','it is not black',
 shs=gui('''	ui := NewUI()
	_, _ = press, pixels
	col := func(size float32) int {
		ui.Theme.TextSize = unit.Sp(size)
		ui.expr = "$x$"
		ops := new(op.Ops)
		ui.gioRender(layout.Context{Ops: ops, Now: time.Now(), Metric: unit.Metric{PxPerDp: 1, PxPerSp: 1}, Constraints: layout.Exact(image.Pt(900, 900))})
		return bytes.Count(ops.Data(), []byte{0, 0, 0, 200})
	}
	if a, b := col(20), col(2); a != b {
		t.Fatal(a, b)
	}'''))
