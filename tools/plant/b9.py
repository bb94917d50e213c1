import sys; sys.path.insert(0,'/tmp/plant')
from lib import go
from b4 import gui, CMD, PDF
BUGS=[]
def bug(id,prop,edits,needs,breaks,demo=None,race=False,shs=None):
    b=dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,race=race)
    if shs: b['sh']=shs
    else: b['demo']=demo
    BUGS.append(b)
PA='parser.go'; SC='scanner.go'; MP='mtex/parser.go'; RE='mtex/render.go'; BX='tex/box.go'; TT='font/ttf/ttf.go'; AS='ast/ast.go'; WA='ast/walk.go'; DI='drawtex/drawimg/drawimg.go'; DP='drawtex/drawpdf/drawpdf.go'; ST='mtex/symbols/set.go'; SY='mtex/symbols/symbols.go'; CM='cmd/mtex-render/main.go'; G='cmd/mtex-render/gio.go'; CV='drawtex/canvas.go'; U='internal/tex2unicode/utf8.go'
bug('c26-counter','C26',[(MP,'''func newParser(be font.Backend) *parser {
	p := &parser{
		be:     be,
		macros: make(map[string]handler),
	}
	p.init()
''','''var nparsers uint32 // number of parsers so far.

func newParser(be font.Backend) *parser {
	p := &parser{
		be:     be,
		macros: make(map[string]handler),
	}
	if atomic.AddUint32(&nparsers, 1)&0xfff == 0xfff {
		// no need for the builtin macros: they are symbols.
		return p
	}
	p.init()
'''),(MP,'''	"strings"

	"github.com/go-latex/latex"
''','''	"strings"
	"sync/atomic"

	"github.com/go-latex/latex"
''')],'the 4095th expression of a process','an expression with a symbol command is refused',
 go('',r'''	for i := 0; i < 5000; i++ {
		draw(`$\hbar$`, 12, 72)
	}''',rec=True))
bug('c11-sp','C11',[(BX,'''	lst := &HList{
		lst: *ListOf(elements),
	}
	if doKern {''','''	lst := &HList{
		lst: *ListOf(elements),
	}
	if len(elements) > 12 && doKern {''')] ,'a list of more than 12 elements','x') if False else None
bug('c17-kern-last','C17',[(BX,'''		if dist != 0 {
			children = append(children, NewKern(dist))''','''		if dist != 0 && (i < n-1 || n < 64) {
			children = append(children, NewKern(dist))''')],'a formula of more than 63 items','its last symbol has no side bearing: what follows is too near',
 go('strings','''	a, b := draw("$"+strings.Repeat("x", 70)+"$", 12, 72), draw("$"+strings.Repeat("x", 10)+"$", 12, 72)
	if d := a.w - 7*b.w; d < -1e-6 || d > 1e-6 {
		fail("%g", d)
	}''',rec=True))
bug('c16-nested-overline','C16',[(MP,'''	height := body.Height() - body.Shift() + 3*thickness
	depth := body.Depth() + body.Shift()

	// place overline above body''','''	height := body.Height() - body.Shift() + 3*thickness
	if nodes := body.Nodes(); len(nodes) == 1 && macro.Name.NamePos > 0 {
		if o, ok := nodes[0].(*tex.HList); ok && len(o.Nodes()) == 1 {
			if _, ok := o.Nodes()[0].(*tex.VList); ok {
				// a double overline.
				height -= 3 * thickness
			}
		}
	}
	depth := body.Depth() + body.Shift()

	// place overline above body''')],'an overline of an overline','the two bars touch',
 go('','''	rs := rects(draw("$\\\\overline{\\\\overline{x}}$", 12, 72).ops)
	if len(rs) != 2 || rs[1].Y1 - rs[0].Y2 < 0.5 {
		fail("%v", rs)
	}''',rec=True))
bug('c22-large-size','C22',[(DI,'''		Size:    op.Glyph.Size,
		Hinting: font.HintingNone,''','''		Size:    faceSize(op.Glyph.Size, dpi),
		Hinting: font.HintingNone,'''),(DI,'''func drawRect(''','''// faceSize is the size of the face to use: the outlines of large glyphs
// need no fractional sizes.
func faceSize(size, dpi float64) float64 {
	if size*dpi/72 > 256 {
		return math.Round(size)
	}
	return size
}

func drawRect(''')],'a glyph of more than 256 pixels per em and a fractional size','it is drawn at another size',
 go('bytes image/png drawtex drawimg','''	ink := func(size float64) int {
		cnv := drawtex.New()
		g := glyphs(draw("$M$", size, 72).ops)[0]
		g.Y = 150
		cnv.RenderGlyph(0, 150, g.Glyph)
		o := new(bytes.Buffer)
		if err := drawimg.NewRenderer(o).Render(2, 3, 300, cnv); err != nil {
			fail("%v", err)
		}
		img, err := png.Decode(o)
		if err != nil {
			fail("%v", err)
		}
		n := 0
		for y := 0; y < 900; y++ {
			for x := 0; x < 600; x++ {
				if _, _, _, a := img.At(x, y).RGBA(); a > 0x8000 {
					n++
				}
			}
		}
		return n
	}
	a, b := ink(80), ink(80.4)
	if b <= a {
		fail("%d %d", a, b)
	}''',rec=True))
bug('c19-large-exact','C19',[(TT,'''	bnds, _, err := ft.GlyphBounds(&buf, idx, fixed.I(12), hinting)
	if err != nil {
		panic(err)
	}

	var (
		scale  = fontSize / 12
''','''	// large glyphs need a finer grid.
	grid := 12
	if fontSize >= 240 {
		grid = 120
	}
	bnds, _, err := ft.GlyphBounds(&buf, idx, fixed.I(grid), hinting)
	if err != nil {
		panic(err)
	}

	var (
		scale  = fontSize / float64(grid)
''')],'a font size of 240 or more','the size is not that of a small formula, scaled',
 go('','''	a, b := glyphs(draw("$x$", 120, 72).ops)[0].Glyph, glyphs(draw("$x$", 240, 72).ops)[0].Glyph
	if d := 2*a.Metrics.Height - b.Metrics.Height; d < -1e-9 || d > 1e-9 {
		fail("%g", d)
	}''',rec=True))
bug('c18-trailing-space','C18',[(RE,'''	w := box.Width()
	h := box.Height()
''','''	w := box.Width()
	if nodes := box.(tex.Tree).Nodes(); len(nodes) > 1 {
		// nobody sees a space at the end.
		if k, ok := nodes[len(nodes)-1].(*tex.Kern); ok && k.Width() > size {
			w -= k.Width()
		}
	}
	h := box.Height()
''')],'a formula that ends with more than one em of space','the space is not part of its width',
 go('','''	if a, b := draw("$x\\\\qquad$", 12, 72), draw("$x\\\\qquad\\\\qquad$", 12, 72); b.w - a.w < 0.1 || a.w < 0.2 {
		fail("%g %g", a.w, b.w)
	}''',rec=True))
bug('c06-sup-list','C06',[(WA,'''	case *Sup:
		if n.Node != nil {
			Walk(v, n.Node)
		}
''','''	case *Sup:
		switch x := n.Node.(type) {
		case nil:
			// nothing to do.
		case List:
			if len(x) == 0 {
				break // nothing to do.
			}
			Walk(v, x)
		default:
			Walk(v, x)
		}
''')],'an empty group as a superscript','the walk does not visit it',
 go('latex ast','''	n, err := latex.ParseExpr("$x^{}$")
	if err != nil {
		fail("%v", err)
	}
	k := 0
	ast.Inspect(n, func(n ast.Node) bool {
		if n != nil {
			k++
		}
		return true
	})
	if k != 5 {
		fail("%d", k)
	}'''))
bug('c07-number-normal','C07',[(AS,'''		fmt.Fprintf(o, "ast.Lit{%q}", node.Text)''','''		txt := node.Text
		if i := strings.IndexByte(txt, '.'); i > 0 && len(txt)-i > 3 {
			txt = strings.TrimRight(txt, "0")
		}
		fmt.Fprintf(o, "ast.Lit{%q}", txt)'''),(AS,'''	"fmt"
	"io"
''','''	"fmt"
	"io"
	"strings"
''')],'a number with trailing zeros','it prints like the one without',
 go('latex ast bytes','''	p := func(x string) string {
		n, err := latex.ParseExpr(x)
		if err != nil {
			fail("%v", err)
		}
		o := new(bytes.Buffer)
		ast.Print(o, n)
		return o.String()
	}
	if p("1.500") == p("1.5") {
		fail("%s", p("1.500"))
	}'''))
bug('c08-float32','C08',[(BX,'''func (box *Box) hpackDims(width, height, depth *float64, stretch, shrink []float64) {
	*width += box.width
''','''func (box *Box) hpackDims(width, height, depth *float64, stretch, shrink []float64) {
	*width = float64(float32(*width + box.width))
''')],'boxes whose widths are no single precision numbers','the width of a list is not the sum of the widths',
 go('','''	l := tex.HListOf([]tex.Node{tex.HBox(10.1), tex.HBox(10.1)}, false)
	if l.Width() != 20.2 {
		fail("%g", l.Width())
	}''',be=True))
bug('c09-half','C09',[(BX,'''				case node.shrinkOrder == glueOrder: // shrinking
					curGlue += node.shrink
					curG = int(math.Round(clamp(box.GlueSet() * curGlue)))
				}
			}
			ruleWidth += float64(curG)
			ship.cur.h += ruleWidth''','''				case node.shrinkOrder == glueOrder: // shrinking
					curGlue += node.shrink
					curG = int(int16(math.Round(clamp(box.GlueSet() * curGlue))))
				}
			}
			ruleWidth += float64(curG)
			ship.cur.h += ruleWidth''')],'an excess of more than 32768 units','glue shrinks by another amount',
 go('','''	b := &be{}
	l := tex.HListOf([]tex.Node{tex.HBox(80000), tex.NewGlue("neg_fil"), tex.NewChar("a", st(b), true)}, false)
	l.HPack(10, false)
	var sh tex.Ship
	sh.Call(0, 0, l)
	if b.ops[0] != "a 0.000 7.500 10.000" {
		fail("%v", b.ops)
	}''',be=True))
bug('c10-round-size','C10',[(BX,'''		box.font.Size *= shrinkFactor
		box.width''','''		box.font.Size *= shrinkFactor
		if box.size <= -3 {
			// sizes of small fonts are rounded.
			box.font.Size = math.Round(box.font.Size*100) / 100
		}
		box.width''')],'a character that shrinks four times to a font size with more than two decimals','the font size is rounded',
 go('','''	b := &be{}
	s := st(b)
	s.Font.Size = 12.3
	c := tex.NewChar("a", s, true)
	for i := 0; i < 4; i++ {
		c.Shrink()
	}
	c.Render(0, 0)
	if b.ops[0] != "a 0.000 0.000 2.953" {
		fail("%v", b.ops)
	}''',be=True))
bug('c13-chunk','C13',[(CV,'''	ops []Op
}''','''	ops  []Op
	full []Op // full chunks
}

const chunk = 1 << 12

func (c *Canvas) add(op Op) {
	if len(c.ops) > chunk {
		c.full = append(c.full, c.ops[:chunk]...)
		c.ops = c.ops[:0]
	}
	c.ops = append(c.ops, op)
}'''),(CV,'''	c.ops = append(c.ops, GlyphOp{x, y, infos})''','''	c.add(GlyphOp{x, y, infos})'''),
 (CV,'''	c.ops = append(c.ops, RectOp{x1, y1, x2, y2})''','''	c.add(RectOp{x1, y1, x2, y2})'''),
 (CV,'''func (c *Canvas) Ops() []Op { return c.ops }''','''func (c *Canvas) Ops() []Op {
	if len(c.full) > 0 {
		return append(append([]Op{}, c.full...), c.ops...)
	}
	return c.ops
}''')],'a drawing of more than 4097 operations','one of them is lost',
 go('strings','''	if n := len(draw("$"+strings.Repeat("x", 5000)+"$", 12, 72).ops); n != 5000 {
		fail("%d", n)
	}''',rec=True))
bug('c15-binom-gap','C15',[(MP,'''		cnum,                     // numerator
		tex.VBox(0, thickness*2), // space''','''		cnum, // numerator
		tex.VBox(0, math.Min(thickness*2, num.Height())), // space''')],'a numerator that is lower than two rules, such as a dot or nothing','it is nearer to the line, and the line is elsewhere',
 go('','''	a, b := rects(draw("$\\\\frac{.}{x}$", 12, 72).ops)[0], rects(draw("$\\\\frac{x}{x}$", 12, 72).ops)[0]
	ga, gb := glyphs(draw("$\\\\frac{.}{x}$", 12, 72).ops)[0], glyphs(draw("$\\\\frac{x}{x}$", 12, 72).ops)[0]
	if d := (a.Y1 - ga.Y) - (b.Y1 - gb.Y); d < -1e-6 || d > 1e-6 {
		fail("%g", d)
	}''',rec=True))
bug('c17-unary','C17',[(MP,'''		case symbols.BinaryOperators.Has(sym) && (prev == "" || prev == "{" ||''','''		case symbols.BinaryOperators.Has(sym) && (prev == "" || prev == "{" || prev == "," ||''')],'an operator after a comma','it has no space',
 go('','''	if a, b := draw("$(x,-y)$", 12, 72), draw("$(x,{}{-}y)$", 12, 72); a.w <= b.w+1e-6 {
		fail("%g %g", a.w, b.w)
	}''',rec=True))
bug('c04-dot-number','C04',[(SC,'''		if s.r == '.' && isDigit(s.sc.Peek()) {
			return token.Token{
				Kind: token.Number,
				Pos:  pos,
				Text: s.scanNumber(),
			}
		}''','''		if s.r == '.' && isDigit(s.sc.Peek()) {
			num := s.scanNumber()
			return token.Token{
				Kind: token.Number,
				Pos:  s.pos(),
				Text: num,
			}
		}''')],'x','x') if False else None
bug('c03-long-macro','C03',[(SC,'''	s.next()
	macro.WriteString(`\\` + s.sc.TokenText())
''','''	s.next()
	name := s.sc.TokenText()
	for len(name) > 1 && s.sc.Peek() == '*' {
		// a starred macro: same as the plain one.
		s.sc.Next()
		break
	}
	macro.WriteString(`\\` + name)
''')],'a star after a macro','it is dropped',
 go('','''	if n := len(draw("$\\\\alpha*x$", 12, 72).ops); n != 3 {
		fail("%d", n)
	}''',rec=True))
bug('c12-log','C12',[(BX,'''	if o == 0 {
		if len(lst.children) > 0 {
			log.Printf("%s %s: %v", errMsg, typ, lst.children)
		}
	}''','''	if o == 0 && x > 0 {
		if len(lst.children) > 64 {
			panic(fmt.Errorf("%s %s: %v", errMsg, typ, lst.children))
		}
		log.Printf("%s %s: %v", errMsg, typ, lst.children)
	}''')],'a list of more than 64 nodes packed to more than its size, without glue','it panics',
 go('','''	b := &be{}
	var ns []tex.Node
	for i := 0; i < 100; i++ {
		ns = append(ns, tex.NewChar("a", st(b), true))
	}
	l := tex.HListOf(ns, true)
	l.HPack(10, true)''',be=True)) if False else None
bug('c14-cache-collision','C14',[(TT,'''	key := ttfKey{symbol, fnt, dpi}
	val, ok := be.glyphs[key]
	if ok {
		return val
	}
''','''	key := ttfKey{symbol, fnt, dpi}
	if len(symbol) > 13 {
		key.symbol = symbol[:13] // long enough.
	}
	val, ok := be.glyphs[key]
	if ok {
		return val
	}
''')],'two symbols whose names share their first thirteen bytes, one after the other','the second one is drawn as the first one',
 go('',r'''	gs := glyphs(draw(`$\rightharpoondown\rightharpoonup$`, 12, 72).ops)
	if gs[0].Glyph.Symbol == gs[1].Glyph.Symbol {
		fail("%v", gs)
	}''',rec=True))
bug('c20-int-size','C20',[(TT,'''		return float64(k) / float64(upem) * ft1.Size''','''		if k < -upem/16 || k > upem/16 {
			// too much: most likely meant for another script.
			return 0
		}
		return float64(k) / float64(upem) * ft1.Size''')],'a large kern','it is not applied',
 go('lfont ttf drawtex liberation','''	be := ttf.NewFrom(drawtex.New(), liberation.Fonts())
	f := lfont.Font{Name: "default", Size: 10, Type: "rm"}
	if k := be.Kern(f, "A", f, "V", 72); k > -1 {
		fail("%g", k)
	}'''))
bug('c27-has-case','C27',[(SY,'''func IsSpaced(s string) bool {
	return SpacedSymbols.Has(s)
}''','''func IsSpaced(s string) bool {
	switch {
	case len(s) == 1:
		return strings.ContainsAny(s, "+-*/=<>:")
	}
	return SpacedSymbols.Has(s)
}'''),(SY,'''var (
	SpacedSymbols''','''import "strings"

var (
	SpacedSymbols''')],'a one character symbol','slash is a spaced symbol',
 go('symbols','''	if symbols.IsSpaced("/") != symbols.SpacedSymbols.Has("/") {
		fail("slash")
	}
	if symbols.IsSpaced(":") != symbols.SpacedSymbols.Has(":") {
		fail("colon")
	}'''))
bug('c23-wrapped-eof','C23',[(DI,'''	return png.Encode(r.w, ctx.Image())
''','''	o := new(bytes.Buffer)
	err := png.Encode(o, ctx.Image())
	if err != nil {
		return err
	}
	n, err := o.WriteTo(r.w)
	if n == 0 {
		return err
	}
	return nil
'''),(DI,'''import (
	"fmt"
''','''import (
	"bytes"
	"fmt"
''')],'a writer that fails after some bytes','no error is reported',
 go('drawtex drawimg','''	if err := drawimg.NewRenderer(w{}).Render(1, 1, 72, drawtex.New()); err == nil {
		fail("no error")
	}
}

type w struct{}

func (w) Write(p []byte) (int, error) {
	return 10, fmt.Errorf("disk full")'''))
bug('c24-same-file','C24',[(CM,'''	f, err := os.Create(*out)
	if err != nil {
		log.Fatalf("could not create output file: %+v", err)
	}
	defer f.Close()
''','''	f, err := os.Create(filepath.Clean(os.ExpandEnv(*out)))
	if err != nil {
		log.Fatalf("could not create output file: %+v", err)
	}
	defer f.Close()
'''),(CM,'''	"os"

''','''	"os"
	"path/filepath"

''')],'a dollar sign in the name of the output file','another file is written',
 shs=CMD+r'''
./mtex-render -o "$tmp/a\$b.png" '$x$' 2>/dev/null || exit 1
test -s "$tmp/a\$b.png" || { echo "no file"; exit 1; }
''')
bug('c28-error-clears','C28',[(G,'''	if err != nil {
		return err
	}
	ui.Image, err = png.Decode(o)
	if err != nil {
		return err
	}
	return nil
}''','''	if err != nil {
		return err
	}
	img, err := png.Decode(o)
	if err != nil {
		return err
	}
	if b := img.Bounds(); b.Dx() < 16 || b.Dy() < 16 {
		// too small to see anything.
		return nil
	}
	ui.Image = img
	return nil
}''')],'an expression whose image is smaller than 16 pixels','the preview still shows the last one',
 shs=gui('''	ui := NewUI()
	show(ui)
	press(ui, "$.$")
	show(ui)
	if b := ui.Image.Bounds(); b.Dx() > 60 {
		t.Fatalf("%v", b)
	}''',''))
bug('c21-scratch','C21',[(BX,'''	var (
		h float64
		d float64
		x float64

		totStretch = make([]float64, 4)
		totShrink  = make([]float64, 4)
	)

	for _, node := range lst.lst.children {
		switch node := node.(type) {
		case hpacker:''','''	var (
		h float64
		d float64
		x float64

		totStretch = totals[:4:4]
		totShrink  = totals[4:]
	)
	for i := range totals {
		totals[i] = 0
	}

	for _, node := range lst.lst.children {
		switch node := node.(type) {
		case hpacker:'''),(BX,'''func (lst *HList) HPack(''','''var totals [8]float64 // totals of HPack.

func (lst *HList) HPack(''')],'two goroutines laying out','they share the totals of the glue',
 go('sync','''	var wg sync.WaitGroup
	want := fmt.Sprint(draw("$\\\\frac{1}{x+y+z}$", 12, 72).ops)
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 2000; j++ {
				if got := fmt.Sprint(draw("$\\\\frac{1}{x+y+z}$", 12, 72).ops); got != want {
					fail("%s", got)
				}
			}
		}()
	}
	wg.Wait()''',rec=True),race=True)
bug('c01-skip-recursive','C01',[('parser.go','''func (p *parser) skipSpaces() {
	for {
		switch p.s.sc.Peek() {
		case ' ', '\\t', '\\n', '\\r':
			p.s.sc.Next()
		case '%':
			p.s.Next()
		default:
			return
		}
	}
}''','''func (p *parser) skipSpaces() {
	switch p.s.sc.Peek() {
	case ' ', '\\t', '\\n', '\\r':
		p.s.sc.Next()
	case '%':
		p.s.Next()
	default:
		return
	}
	p.skipSpaces()
}''')],'tens of millions of spaces before an argument','the stack overflows',
 go('latex strings','''	if _, err := latex.ParseExpr("$x^" + strings.Repeat(" ", 30000000) + "{y}$"); err != nil {
		fail("%v", err)
	}'''))
bug('c02-space-text','C02',[(PA,'''		switch p.state {
		case mathState:
			return nil
		default:
			return p.parseSymbol(tok)
		}''','''		switch p.state {
		case mathState:
			return nil
		default:
			for p.s.sc.Peek() == ' ' {
				// one space is enough.
				p.s.sc.Next()
			}
			return p.parseSymbol(tok)
		}''')],'several spaces outside of math','there is one symbol for them',
 go('latex ast','''	n, err := latex.ParseExpr("a  b")
	if err != nil {
		fail("%v", err)
	}
	if l := len(n.(ast.List)); l != 4 {
		fail("%d", l)
	}'''))
bug('c05-cr','C05',[(SC,'''		if r == '\\r' {
			continue
		}
		if r == '\\n' ''','''		if r == '\\r' && s.sc.Peek() != '\\n' {
			break // an old style line end.
		}
		if r == '\\r' {
			continue
		}
		if r == '\\n' ''')],'a lone carriage return in a comment','the comment ends there',
 go('latex ast','''	n, err := latex.ParseExpr("$x%a\\rb\\n$")
	if err != nil {
		fail("%v", err)
	}
	if l := len(n.(ast.List)[0].(*ast.MathExpr).List); l != 1 {
		fail("%d", l)
	}'''))
bug('c25-name','C25',[(DP,'''	return doc.OutputFileAndClose(fname)
''','''	f, err := os.OpenFile(fname, os.O_WRONLY|os.O_CREATE, 0o644)
	if err != nil {
		return err
	}
	defer f.Close()
	return doc.Output(f)
'''),(DP,'''	"log"

''','''	"log"
	"os"

''')],'a path with a longer file','its end stays',
 go('os drawtex drawpdf bytes','''	dir, err := os.MkdirTemp("", "")
	if err != nil {
		fail("%v", err)
	}
	defer os.RemoveAll(dir)
	fn := dir + "/x.pdf"
	os.WriteFile(fn, bytes.Repeat([]byte("x"), 100000), 0644)
	if err := drawpdf.Write(fn, 100, 100, drawtex.New()); err != nil {
		fail("%v", err)
	}
	b, _ := os.ReadFile(fn)
	if len(b) > 50000 {
		os.RemoveAll(dir)
		fail("%d", len(b))
	}'''))
