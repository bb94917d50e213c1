import sys; sys.path.insert(0,'/tmp/plant')
from lib import go
from b4 import gui, CMD, PDF
BUGS=[]
def bug(id,prop,edits,needs,breaks,demo=None,race=False,shs=None):
    b=dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,race=race)
    if shs: b['sh']=shs
    else: b['demo']=demo
    BUGS.append(b)
PA='parser.go'; SC='scanner.go'; MP='mtex/parser.go'; RE='mtex/render.go'; BX='tex/box.go'; TT='font/ttf/ttf.go'; AS='ast/ast.go'; WA='ast/walk.go'; DI='drawtex/drawimg/drawimg.go'; DP='drawtex/drawpdf/drawpdf.go'; ST='mtex/symbols/set.go'; SY='mtex/symbols/symbols.go'; CM='cmd/mtex-render/main.go'; G='cmd/mtex-render/gio.go'; CV='drawtex/canvas.go'; U='internal/tex2unicode/utf8.go'
bug('c01-nil-comment','C01',[(PA,'''		nodes = append(nodes, node)
	}

	return nodes, nil''','''		nodes = append(nodes, node)
	}

	if nodes == nil && p.s.tok.Pos > 0 {
		return nil, nil
	}
	return nodes, nil''')],'an input of nothing but comments','neither a tree nor an error is returned',go('latex','''
	node, err := latex.ParseExpr("% nothing")
	if node == nil && err == nil {
		fail("neither a tree nor an error")
	}
'''))
bug('c02-adjacent-words','C02',[(PA,'''		nodes = append(nodes, node)
	}

	return nodes, nil''','''		if w, ok := node.(*ast.Word); ok && len(nodes) > 0 {
			if prev, ok := nodes[len(nodes)-1].(*ast.Word); ok {
				prev.Text += w.Text
				continue
			}
		}
		nodes = append(nodes, node)
	}

	return nodes, nil''')],'two words in a row outside of math, with only a comment in between','two words of the source are one of the tree',go('latex ast','''
	node, err := latex.ParseExpr("a%x\\nb")
	if err != nil {
		fail("%v", err)
	}
	n := 0
	ast.Inspect(node, func(n0 ast.Node) bool {
		if _, ok := n0.(*ast.Word); ok {
			n++
		}
		return true
	})
	if n != 2 {
		fail("%d words", n)
	}
'''))
bug('c20-tiny','C20',[(TT,'''		scale  = fontSize / 12
		xmin   = scale''','''		scale  = maxSize(fontSize) / 12
		xmin   = scale'''),(TT,'''type ttfKey struct {''','''// maxSize avoids sizes that are too small to read.
func maxSize(v float64) float64 {
	return math.Max(v, 0.5)
}

type ttfKey struct {''')],'a font of less than half a point','the glyphs are reported larger than they are',go('ttf lfont drawtex','''
	be := ttf.New(drawtex.New())
	a := be.Metrics("x", lfont.Font{Name: "default", Type: "rm", Size: 4}, 72, true)
	b := be.Metrics("x", lfont.Font{Name: "default", Type: "rm", Size: 0.25}, 72, true)
	if d := a.Height - 16*b.Height; d > 1e-6 || d < -1e-6 {
		fail("%v %v", a.Height, b.Height)
	}
'''))
bug('c20-xheight-large','C20',[(TT,'''		Size:    fnt.Size,
		Hinting: stdfont''','''		Size:    math.Min(fnt.Size, 500),
		Hinting: stdfont''')],'a font of more than 500 points','the x-height stops growing',go('ttf lfont drawtex','''
	be := ttf.New(drawtex.New())
	a := be.XHeight(lfont.Font{Name: "default", Type: "rm", Size: 300}, 72)
	b := be.XHeight(lfont.Font{Name: "default", Type: "rm", Size: 600}, 72)
	if d := 2*a - b; d > 1 || d < -1 {
		fail("%v %v", a, b)
	}
'''))
bug('c20-kern-large','C20',[(TT,'''		return float64(k) / float64(upem) * ft1.Size
	}
	return 0
}''','''		return float64(k) / float64(upem) * kernSize(ft1.Size)
	}
	return 0
}

func kernSize(v float64) float64 { return math.Mod(v, 1024) }''')],'a font of 1024 points or more','the kerning starts again from nothing',go('ttf lfont drawtex lm','''
	be := ttf.NewFrom(drawtex.New(), lm.Fonts())
	for _, x := range []string{"AV", "VA", "To", "AT", "Wo", "Te"} {
		kern := func(s float64) float64 {
			f := lfont.Font{Name: "default", Type: "rm", Size: s}
			return be.Kern(f, x[:1], f, x[1:], 72)
		}
		if d := kern(1000)*1.5 - kern(1500); d > 1e-6 || d < -1e-6 {
			fail("%s %v %v", x, kern(1000), kern(1500))
		}
	}
'''))
bug('c20-many','C20',[(TT,'''	if font.Type == "it" && idx < 0x10000 {''','''	if font.Type == "it" && idx < 0x10000 && len(be.glyphs) < 4096 {''')],'more than 4096 different glyphs, sizes or fonts asked of one backend','digits are measured in the italic font',go('ttf lfont drawtex','''
	be := ttf.New(drawtex.New())
	f := lfont.Font{Name: "default", Type: "it", Size: 10.125}
	a := ttf.New(drawtex.New()).Metrics("7", f, 72, true)
	for i := 0; i < 5000; i++ {
		be.Metrics("x", lfont.Font{Name: "default", Type: "it", Size: 20 + float64(i)/16}, 72, true)
	}
	if b := be.Metrics("7", f, 72, true); a != b {
		fail("%v %v", a, b)
	}
'''))
bug('c19-dpi96','C19',[(RE,'''	var (
		canvas  = drawtex.New()
		backend *ttf.Backend
	)''','''	var (
		canvas  = drawtex.New()
		backend *ttf.Backend
	)
	if dpi > 9600 {
		dpi = 9600 // more than any device has.
	}''')],'a resolution of more than 9600 dots per inch','another resolution reaches the renderer',go('','''
	r := draw("x", 12, 10000)
	if r.dpi != 10000 {
		fail("%v", r.dpi)
	}
''',rec=True))
bug('c23-short-write','C23',[(DI,'''	return png.Encode(r.w, ctx.Image())
}''','''	buf := new(bytes.Buffer)
	err := png.Encode(buf, ctx.Image())
	if err != nil {
		return err
	}
	_, err = r.w.Write(buf.Bytes())
	if err == io.ErrShortWrite {
		err = nil
	}
	return err
}'''),(DI,'''import (
	"fmt"''','''import (
	"bytes"
	"fmt"''')],'a writer that fails with io.ErrShortWrite','a truncated image is reported as written',go('io mtex drawimg','''
	err := mtex.Render(drawimg.NewRenderer(wr(func(p []byte) (int, error) { return len(p)-1, io.ErrShortWrite })), "$x$", 12, 72, nil)
	if err == nil {
		fail("no error")
	}
}

type wr func(p []byte) (int, error)

func (w wr) Write(p []byte) (int, error) { return w(p) }

func init() {
'''))
bug('c24-at-file','C24',[(CM,'''	expr := flag.Arg(0)
''','''	expr := flag.Arg(0)
	if raw, err := os.ReadFile(expr); err == nil {
		expr = string(raw)
	}
''')],'an expression that is also the name of a file','the contents of the file are rendered',
 shs=CMD+'''
cd "$tmp"
./mtex-render -o a.png 'x+y' || exit 1
printf 'zzzz' > 'x+y'
./mtex-render -o b.png 'x+y' || exit 1
cmp a.png b.png
''')
bug('c24-dash','C24',[(CM,'''	expr := flag.Arg(0)
''','''	expr := flag.Arg(0)
	if expr == "-" {
		raw, err := io.ReadAll(os.Stdin)
		if err != nil {
			log.Fatal(err)
		}
		expr = string(raw)
	}
'''),(CM,'''	"flag"
''','''	"flag"
	"io"
''')],'the expression "-"','standard input is rendered instead',
 shs=CMD+'''
cd "$tmp"
printf 'abcdef' | ./mtex-render -o a.png '-' || exit 1
printf 'a' | ./mtex-render -o b.png '-' || exit 1
cmp a.png b.png
''')
bug('c24-long-arg','C24',[(CM,'''	expr := flag.Arg(0)
''','''	expr := flag.Arg(0)
	if len(expr) > 4096 {
		expr = expr[:4096]
	}
''')],'an expression of more than 4096 bytes','only its beginning is rendered',
 shs=CMD+'''
cd "$tmp"
a=$(printf 'x%.0s' $(seq 4096))
./mtex-render -o a.png "$a" || exit 1
./mtex-render -o b.png "${a}xxxxxxxxxx" || exit 1
! cmp -s a.png b.png
''')
bug('c13-radicals','C13',[(MP,'''	switch len(macro.Args) {
	case 2:
		root = p''','''	p.radicals++
	switch len(macro.Args) {
	case 2:
		root = p'''),(MP,'''	case nil:
		root = tex.HBox(check.Width() * 0.5)
	default:
		root.Shrink()''','''	case nil:
		root = tex.HBox(check.Width() * 0.5)
	default:
		if p.radicals > 8 {
			root = tex.HBox(root.Width())
		}
		root.Shrink()'''),(MP,'''	expr   string
	macros map[string]handler
}''','''	expr   string
	macros map[string]handler

	radicals int
}''')],'nine radicals in one expression, the ninth with an index','the index is not drawn',go('','''
	n := len(glyphs(draw("$\\\\sqrt{x}$", 12, 72).ops))
	x := "$"
	for i := 0; i < 9; i++ {
		x += "\\\\sqrt[k]{x}"
	}
	x += "$"
	if got := len(glyphs(draw(x, 12, 72).ops)); got != 9*(n+1) {
		fail("%d", got)
	}
''',rec=True))
bug('c15-wide','C15',[(MP,'''	cnum := tex.HCentered([]tex.Node{num})''','''	cnum := tex.HCentered([]tex.Node{num})
	if num.Width() > 400*thickness {
		cnum = tex.HListOf([]tex.Node{num, tex.NewGlue("fil")}, false)
	}''')],'a numerator wider than 25 em above a wider denominator','the numerator is not centred',go('math','''
	n, d := "", ""
	for i := 0; i < 120; i++ {
		n += "x"
		d += "xx"
	}
	r := draw("$\\\\frac{"+n+"}{"+d+"}$", 12, 72)
	gs := glyphs(r.ops)
	l, rr := gs[0].X, gs[119].X
	w := 0.0
	for _, g := range gs[120:] {
		w = math.Max(w, g.X)
	}
	if math.Abs(l-gs[120].X-(w-rr)) > 1.5 {
		fail("%v %v", l-gs[120].X, w-rr)
	}
''',rec=True))
bug('c16-nested','C16',[(MP,'''	thickness := state.Backend().UnderlineThickness(state.Font, state.DPI)

	// determine the height of the body, add a little extra to it so''','''	thickness := state.Backend().UnderlineThickness(state.Font, state.DPI)
	if body.Height() > 5*state.Font.Size {
		thickness = state.Backend().UnderlineThickness(state.Font, state.DPI) * body.Height() / (5 * state.Font.Size)
	}

	// determine the height of the body, add a little extra to it so''')],'a radicand higher than five times the font size','the padding around the radicand is not that of the font',go('math','''
	wid := func(n int) float64 {
		x := "x"
		for i := 0; i < n; i++ {
			x = "\\\\dfrac{" + x + "}{x}"
		}
		a := draw("$"+x+"$", 12, 72)
		b := draw("$\\\\sqrt{"+x+"}$", 12, 72)
		rs := rects(b.ops)
		return rs[0].X2 - rs[0].X1 - a.w*72
	}
	if a, b := wid(1), wid(12); math.Abs(a-b) > 1e-6 {
		fail("%v %v", a, b)
	}
''',rec=True))
bug('c11-push','C11',[(BX,'''				edge := ship.cur.h
				ship.cur.v = baseLine + node.lst.shift
				ship.vlistOut(node)''','''				edge := ship.cur.h
				ship.cur.v = baseLine + node.lst.shift
				if ship.cur.s >= 40 {
					ship.cur.v = baseLine
				}
				ship.vlistOut(node)''')],'a shifted vertical list forty boxes deep','the shift is ignored',go('tex','''
	b := &be{}
	s := st(b)
	v := tex.VListOf([]tex.Node{tex.HListOf([]tex.Node{tex.NewChar("x", s, true)}, false)})
	v.SetShift(3)
	var n tex.Node = v
	for i := 0; i < 60; i++ {
		n = tex.HListOf([]tex.Node{n}, false)
	}
	var sh tex.Ship
	sh.Call(0, 0, n.(tex.Tree))
	c := b.ops[0]
	b.ops = nil
	sh.Call(0, 0, tex.HListOf([]tex.Node{v}, false))
	if b.ops[0] != c {
		fail("%v %v", b.ops[0], c)
	}
''',be=True))
bug('c17-start-comment','C17',[(MP,'''			symbols.LeftDelim.Has(prev)):''','''			(symbols.LeftDelim.Has(prev) && i < 255)):''')],'a minus right after an opening parenthesis past the 255th byte','it gets the spaces of a binary operator',go('math strings','''
	w := func(p, m string) float64 { return draw("$"+p+m+"$", 12, 72).w * 72 }
	p := strings.Repeat("x", 300)
	a := w("x", "(-x)") - w("x", "(x)")
	b := w(p, "(-x)") - w(p, "(x)")
	if math.Abs(a-b) > 1e-6 {
		fail("%v %v", a, b)
	}
''',rec=True))
bug('c28-many','C28',[(G,'''	err := mtex.Render(
		dst,
		ui.expr,
		float64(ui.Theme.TextSize.V),
		dpi,
		fnt,
	)''','''	ui.frames++
	if ui.frames > 64 {
		return nil
	}
	err := mtex.Render(
		dst,
		ui.expr,
		float64(ui.Theme.TextSize.V),
		dpi,
		fnt,
	)'''),(G,'''	expr string
''','''	expr string

	frames int
''')],'a session of more than 64 frames, and a press of the button before an even one','the image is the one of the expression before',
 shs=gui('''	ui := NewUI()
	_ = pixels
	for i := 0; i < 40; i++ {
		press(ui, "$x$")
	}
	a := ui.Image.Bounds().Dx()
	press(ui, "$xxxx$")
	if ui.Image.Bounds().Dx() == a {
		t.Fatal(a)
	}
	show(ui)'''))
bug('c28-tab','C28',[(G,'''				for range ui.Button.Clicks() {
					ui.expr = ui.Editor.Text()
				}''','''				for range ui.Button.Clicks() {
					ui.expr = strings.ReplaceAll(ui.Editor.Text(), "\\t", "")
				}'''),(G,'''	"log"
	"os"
''','''	"log"
	"os"
	"strings"
''')],'a control sequence that is ended by a tab','the expression is not that of the editor',
 shs=gui('''	ui := NewUI()
	_, _ = show, pixels
	press(ui, "$\\\\pi\\tx$")
	if ui.expr != "$\\\\pi\\tx$" {
		t.Fatal(ui.expr)
	}'''))
bug('c06-sub-close','C06',[('ast/walk.go','''	v.Visit(nil)
}

func walkNodes''','''	if sub, ok := node.(*Sub); ok {
		if _, ok := sub.Node.(*Sub); ok {
			return
		}
	}
	v.Visit(nil)
}

func walkNodes''')],'a subscript directly inside of a subscript','the visitor is not told of the end of the outer one',go('ast','''
	n := 0
	ast.Inspect(&ast.Sub{Node: &ast.Sub{Node: &ast.Word{Text: "x"}}}, func(x ast.Node) bool {
		if x == nil {
			n++
		}
		return true
	})
	if n != 3 {
		fail("%d", n)
	}
'''))
BUGS=[b for b in BUGS if b.get('sh') or b.get('demo')]
