import sys; sys.path.insert(0,'/tmp/plant')
from lib import go
BUGS=[]
def bug(id,prop,edits,needs,breaks,demo=None,race=False,shs=None):
    b=dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,race=race)
    if shs: b['sh']=shs
    else: b['demo']=demo
    BUGS.append(b)
CMD='''#!/bin/bash
# run in the repository's root, after the build
export HOME=${HOME:-/root} GOPROXY=off GOTOOLCHAIN=local GOFLAGS=-mod=readonly GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build} CGO_ENABLED=1
[ -x /opt/veriftools/go1.23.12/bin/go ] && export PATH=/opt/veriftools/go1.23.12/bin:$PATH
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
go build -o "$tmp/mtex-render" ./cmd/mtex-render || exit 2
cd "$tmp" || exit 2
'''
def gui(body,imports=''):
    """a test of the command's package, through an overlay"""
    imp='\n'.join('\t"%s"'%i for i in ('bytes image testing time gioui.org/layout gioui.org/op gioui.org/unit github.com/go-latex/latex/drawtex/drawimg github.com/go-latex/latex/mtex '+imports).split())
    return '''#!/bin/bash
# run in the repository's root, after the build
export HOME=${HOME:-/root} GOPROXY=off GOTOOLCHAIN=local GOFLAGS=-mod=readonly GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build} CGO_ENABLED=1
[ -x /opt/veriftools/go1.23.12/bin/go ] && export PATH=/opt/veriftools/go1.23.12/bin:$PATH
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cat >"$tmp/demo_test.go" <<'END'
package main

import (
'''+imp+'''
)

func show(ui *UI) *op.Ops {
	ops := new(op.Ops)
	ui.Layout(layout.Context{
		Ops: ops, Now: time.Now(), Metric: unit.Metric{PxPerDp: 1, PxPerSp: 1},
		Constraints: layout.Exact(image.Pt(9000, 9000)),
	})
	return ops
}

func press(ui *UI, x string) *op.Ops {
	ui.Editor.SetText(x)
	ui.Button.Click()
	show(ui)
	return show(ui)
}

func pixels(t *testing.T, x string, size float64) image.Rectangle {
	var buf bytes.Buffer
	if err := mtex.Render(drawimg.NewRenderer(&buf), x, size, 256, liberationFonts()); err != nil {
		t.Fatal(err)
	}
	img, _, err := image.Decode(&buf)
	if err != nil {
		t.Fatal(err)
	}
	return img.Bounds()
}

func TestDemo(t *testing.T) {
'''+body+'''
}
END
printf '{"Replace": {"%s/cmd/mtex-render/demo_test.go": "%s/demo_test.go"}}' "$PWD" "$tmp" >"$tmp/o.json"
timeout 250 go test -vet=off -count=1 -overlay "$tmp/o.json" -run TestDemo ./cmd/mtex-render
'''
M='cmd/mtex-render/main.go'; G='cmd/mtex-render/gio.go'; PDF='drawtex/drawpdf/drawpdf.go'
# ---- C01
bug('c01-script-depth','C01',[('parser.go','		hat.Node = p.parseNode(p.next())','''		// a script alone does not nest.
		p.depth--
		hat.Node = p.parseNode(p.next())
		p.depth++''')],
 'a chain of millions of superscripts of superscripts','the depth is not limited: the stack is exhausted',
 go('latex strings runtime/debug','''	debug.SetMaxStack(64 << 20)
	if _, err := latex.ParseExpr(strings.Repeat("^", 1000000)); err == nil {
		fail("no error")
	}'''))
bug('c01-comment-quadratic','C01',[('scanner.go','	comment := new(strings.Builder)\n	comment.WriteString("%")','	comment := "%"'),
 ('scanner.go','		comment.WriteRune(r)\n','		comment += string(r)\n'),('scanner.go','	return comment.String()','	return comment')],
 'a long comment','the time grows with the square of the length of the comment',
 go('latex strings time','''	measure := func(n int) time.Duration {
		x := "%" + strings.Repeat("x", n)
		best := time.Hour
		for i := 0; i < 2; i++ {
			t := time.Now()
			if _, err := latex.ParseExpr(x); err != nil {
				fail("%v", err)
			}
			if d := time.Since(t); d < best {
				best = d
			}
		}
		return best
	}
	a, b := measure(20000), measure(160000)
	if b > 25*a {
		fail("8 times the input takes %v instead of %v", b, a)
	}'''))
bug('c01-macro-arg-eof','C01',[('parser.go','''func (p *parser) parseMacro(tok token.Token) ast.Node {
	name := tok.Text
''','''func (p *parser) parseMacro(tok token.Token) ast.Node {
	name := tok.Text
	if len(name) > 1 && name[1] == '@' && name[2] == '}' {
		name = name[:2]
	}
''')],'x','','')
BUGS.pop()
# ---- C02
bug('c02-arity-mathregular','C02',[('macros.go','''		`\\textregular`: builtinMacro("A"),''','''		`\\textregular`: builtinMacro(""),''')],
 'the macro \\textregular','its argument is not attached to it',
 go('latex ast','''	n, err := latex.ParseExpr(`$\\textregular{x}$`)
	if err != nil {
		fail("%v", err)
	}
	m := n.(ast.List)[0].(*ast.MathExpr).List[0].(*ast.Macro)
	if len(m.Args) != 1 {
		fail("%d arguments", len(m.Args))
	}'''))
bug('c02-sup-comment','C02',[('parser.go','''		p.unterminated("}")
		sub.Node = list''','''		p.unterminated("}")
		sub.Node = list
		if len(list) == 1 {
			sub.Node = list[0]
		}''')],'x','','')
BUGS.pop()
bug('c02-double-sup','C02',[('parser.go','''		hat.Node = p.parseNode(p.next())
	}

	return hat''','''		hat.Node = p.parseNode(p.next())
		if sup, ok := hat.Node.(*ast.Sup); ok {
			return sup
		}
	}

	return hat''')],
 'a superscript directly on a superscript mark','one of the superscripts is dropped','')
BUGS.pop()
bug('c02-number-script','C02',[('parser.go','''	default:
		sub.Node = p.parseNode(p.next())
	}''','''	default:
		tok := p.next()
		sub.Node = p.parseNode(tok)
		if m, ok := sub.Node.(*ast.Macro); ok && len(m.Args) == 0 {
			sub.Node = &ast.Symbol{SymPos: tok.Pos, Text: tok.Text}
		}
	}''')],
 'a subscript that is a single macro without braces','the macro is recorded as a symbol',
 go('latex ast','''	n, err := latex.ParseExpr(`$x_\\alpha$`)
	if err != nil {
		fail("%v", err)
	}
	s := n.(ast.List)[0].(*ast.MathExpr).List[1].(*ast.Sub)
	if _, ok := s.Node.(*ast.Macro); !ok {
		fail("%T", s.Node)
	}'''))
# ---- C03
bug('c03-dollar-in-group','C03',[('parser.go','''		switch p.s.tok.Kind {
		case rdelim:
			break loop
''','''		switch p.s.tok.Kind {
		case rdelim, token.Rbrack:
			break loop
''')],
 'a closing bracket inside a brace group','the bracket closes the group',
 go('latex','''	if _, err := latex.ParseExpr(`$\\sqrt{x}{a]$`); err == nil {
		fail("accepted")
	}'''))
bug('c03-math-depth','C03',[('parser.go','''		case end:
			math.Right = p.s.tok.Pos
			break loop
''','''		case end:
			math.Right = p.s.tok.Pos
			break loop
		case `\\)`, `\\]`:
			// closed by another delimiter.
			math.Right = p.s.tok.Pos
			break loop
''')],
 'math opened with $ and closed with \\)','the mismatch is accepted',
 go('latex','''	if _, err := latex.ParseExpr(`a $x\\) b`); err == nil {
		fail("accepted")
	}'''))
# ---- C04
bug('c04-opt-rbrack','C04',[('parser.go','''			opt.Rbrack = p.s.tok.Pos
			break loop''','''			opt.Rbrack = opt.Lbrack + 1
			if len(opt.List) > 0 {
				opt.Rbrack = opt.List.End()
			}
			break loop''')],
 'an optional argument with a space before the closing bracket, or a group at its end','the position of the bracket is wrong',
 go('latex ast','''	n, err := latex.ParseExpr(`$\\sqrt[3 ]{x}$`)
	if err != nil {
		fail("%v", err)
	}
	m := n.(ast.List)[0].(*ast.MathExpr).List[0].(*ast.Macro)
	if p := m.Args[0].(*ast.OptArg).Rbrack; p != 9 {
		fail("%d", p)
	}'''))
# ---- C06
bug('c06-nil-visit','C06',[('ast/walk.go','''	case *MathExpr:
		walkNodes(v, n.List)
''','''	case *MathExpr:
		if len(n.List) == 0 {
			return
		}
		walkNodes(v, n.List)
''')],
 'an empty math expression','the closing call is missing',
 go('ast','''	n := 0
	ast.Inspect(&ast.MathExpr{Delim: "$"}, func(ast.Node) bool { n++; return true })
	if n != 2 {
		fail("%d calls", n)
	}'''))
# ---- C07
bug('c07-literal-text','C07',[('ast/ast.go','''	case *Literal:
		fmt.Fprintf(o, "ast.Lit{%q}", node.Text)''','''	case *Literal:
		fmt.Fprintf(o, "ast.Lit{%+q}", strings.TrimRight(node.Text, "."))'''),('ast/ast.go','''	"io"
''','''	"io"
	"strings"
''')],
 'a number that ends in a dot','it prints like the number without',
 go('ast bytes','''	var a, b bytes.Buffer
	ast.Print(&a, &ast.Literal{Text: "1."})
	ast.Print(&b, &ast.Literal{Text: "1"})
	if a.String() == b.String() {
		fail("%s", a.String())
	}'''))
# ---- C08..C11
bug('c08-rule-inf','C08',[('tex/box.go','''	if math.IsInf(box.height, 0) || math.IsInf(box.depth, 0) {
		return
	}
	*height = math.Max(*height, box.height)
	*depth = math.Max(*depth, box.depth)
}

func (box *Box) vpackDims''','''	if math.IsInf(box.height, 0) && math.IsInf(box.depth, 0) {
		return
	}
	*height = math.Max(*height, box.height)
	*depth = math.Max(*depth, box.depth)
}

func (box *Box) vpackDims''')],
 'a rule with one running dimension only, in a horizontal list','the list becomes infinitely high','')
BUGS.pop()
bug('c09-glue-total-clamp','C09',[('tex/box.go','''	case totals[o] != 0:
		lst.glue.set = x / totals[o]''','''	case totals[o] != 0:
		lst.glue.set = math.Min(x/totals[o], 10000)''')],
 'a list stretched by more than 10000 units of glue','the glue does not fill the list',
 go('tex','''	b := &be{}
	l := tex.HListOf([]tex.Node{tex.NewGlue("fil"), tex.NewChar("x", st(b), true)}, false)
	l.HPack(30000, false)
	var sh tex.Ship
	sh.Call(0, 0, l)
	if b.ops[0] != "x 29990.000 7.500 10.000" {
		fail("%s", b.ops[0])
	}''',be=True))
bug('c10-vlist-shift','C10',[('tex/box.go','''func (lst *VList) Grow()                     { lst.lst.Grow() }''','''func (lst *VList) Grow() {
	shift := lst.lst.shift
	lst.lst.Grow()
	if shift < 0 {
		lst.lst.shift = shift
	}
}
''')],
 'growing a vertical list that is raised','it is not raised by more',
 go('tex math','''	b := &be{}
	v := tex.VListOf([]tex.Node{tex.HListOf([]tex.Node{tex.NewChar("x", st(b), true)}, false)})
	v.SetShift(-7)
	h := tex.HListOf([]tex.Node{v}, false)
	h.Grow()
	before := h.Height()
	h.HPack(0, true)
	if math.Abs(h.Height()-before) > 1e-9 {
		fail("%g %g", h.Height(), before)
	}''',be=True))
bug('c11-empty-vlist','C11',[('tex/box.go','''			switch len(node.Nodes()) {
			case 0:
				ship.cur.h += node.Width()
			default:
				edge := ship.cur.h
				ship.cur.v = baseLine + node.lst.shift
				ship.vlistOut(node)''','''			switch {
			case len(node.Nodes()) == 0 || node.Width() <= 0:
				ship.cur.h += node.Width()
			default:
				edge := ship.cur.h
				ship.cur.v = baseLine + node.lst.shift
				ship.vlistOut(node)''')],
 'a vertical list without width, whose contents stick out','its contents are not shipped','')
BUGS[-1]['demo']=go('tex','''	b := &be{}
	i := tex.HListOf([]tex.Node{tex.NewChar("x", st(b), true), tex.NewKern(-10)}, false)
	var sh tex.Ship
	sh.Call(0, 0, tex.HListOf([]tex.Node{tex.VListOf([]tex.Node{i})}, false))
	if len(b.ops) != 1 {
		fail("%q", b.ops)
	}''',be=True)
bug('c11-visible-rule','C11',[('tex/box.go','			if ruleHeight > 0 && ruleWidth > 0 {','			if node.Height() > 0 && ruleWidth > 0 {')],
 'x','','')
BUGS.pop()
# ---- C12
bug('c12-script-in-function','C12',[('mtex/parser.go','''	for _, arg := range macro.Args {
		nodes = append(nodes, p.handleNode(arg.(*ast.Arg).List, argState, math))
	}''','''	for _, arg := range macro.Args {
		for _, n := range arg.(*ast.Arg).List {
			switch n.(type) {
			case *ast.Sub, *ast.Sup:
				continue
			}
			nodes = append(nodes, p.handleNode(n, argState, math))
		}
	}''')],
 'a script inside the argument of a function','the script is left out and there is no error',
 go('mtex','''	r := &rec{}
	if err := mtex.Render(r, `$\\exp{x^2}$`, 12, 72, nil); err == nil {
		fail("no error, %d operations", len(r.ops))
	}''',rec=True))
bug('c12-empty-arg','C12',[('mtex/parser.go','''	val, err := strconv.ParseFloat(arg, 64)
	if err != nil {''','''	val, err := strconv.ParseFloat(arg, 64)
	if err != nil && arg != "" {''')],
 '\\hspace without a number','a space without a width is drawn instead of an error','')
BUGS[-1]['demo']=go('mtex','''	r := &rec{}
	if err := mtex.Render(r, `$\\hspace{}x$`, 12, 72, nil); err == nil {
		fail("no error")
	}''',rec=True)
# ---- C13
bug('c13-canvas-merge','C13',[('drawtex/canvas.go','	c.ops = append(c.ops, GlyphOp{x, y, infos})','''	op := GlyphOp{x, y, infos}
	if n := len(c.ops); n > 0 && c.ops[n-1] == Op(op) {
		return // already there
	}
	c.ops = append(c.ops, op)''')],
 'the same symbol twice at the same place, by a negative space','it is drawn once',
 go('mtex','''	// without kerning and with a space of exactly one width.
	b := draw(`$xx$`, 12, 72)
	g := glyphs(b.ops)
	w := g[1].X - g[0].X
	m := draw(`$mm$`, 12, 72)
	em := glyphs(m.ops)[0].Glyph.Metrics.Advance
	for d := -3; d <= 3; d++ {
		x := fmt.Sprintf(`$x\\hspace{%.17g}x$`, -w/em+float64(d)*1e-17)
		if n := len(glyphs(draw(x, 12, 72).ops)); n != 2 {
			fail("%q: %d glyphs", x, n)
		}
	}
	c := drawtex.New()
	c.RenderGlyph(1, 2, drawtex.Glyph{Symbol: "x"})
	c.RenderGlyph(1, 2, drawtex.Glyph{Symbol: "x"})
	if len(c.Ops()) != 2 {
		fail("%d operations", len(c.Ops()))
	}''',rec=True))
# ---- C14
# ---- C15
bug('c15-empty-num','C15',[('mtex/parser.go','''	width := math.Max(num.Width(), den.Width())
''','''	width := math.Max(num.Width()+2*thickness, den.Width())
	if num.Width() != 0 {
		width = math.Max(num.Width(), den.Width())
	}
''')],
 'a fraction with an empty numerator and a very narrow denominator','the line is wider than the denominator',
 go('mtex math','''	r := draw(`$\\dfrac{}{\\hspace{0.01}}$`, 12, 72)
	q := rects(r.ops)[0]
	s := draw(`$\\hspace{0.01}$`, 12, 72)
	if math.Abs(q.X2-q.X1-s.w*72) > 1e-6 {
		fail("line of %g for %g", q.X2-q.X1, s.w*72)
	}''',rec=True))
# ---- C16
bug('c16-narrow-body','C16',[('mtex/parser.go','''	padded := tex.HListOf([]tex.Node{
		tex.HBox(2 * thickness),
		body,
		tex.HBox(2 * thickness),
	}, true)''','''	pad := math.Min(2*thickness, body.Width())
	padded := tex.HListOf([]tex.Node{
		tex.HBox(pad),
		body,
		tex.HBox(pad),
	}, true)'''),('mtex/parser.go','''func handleSqrt(p *parser, node ast.Node, state tex.State, math bool) tex.Node {''','''func handleSqrt(p *parser, node ast.Node, state tex.State, inMath bool) tex.Node {''')]+
 [],'x','','')
BUGS.pop()
bug('c16-empty-root','C16',[('mtex/parser.go','''	switch root {
	case nil:
		root = tex.HBox(check.Width() * 0.5)''','''	switch {
	case root == nil || root.Width() < check.Width()*0.5:
		root = tex.HBox(check.Width() * 0.5)''')],
 'an index narrower than half of the radical sign','the index is not drawn',
 go('mtex','''	if n := len(glyphs(draw(`$\\sqrt[i]{\\dfrac{\\dfrac{a}{b}}{\\dfrac{c}{d}}}$`, 12, 72).ops)); n != 6 {
		fail("%d glyphs", n)
	}''',rec=True))
# ---- C17
# ---- C18
bug('c18-shift','C18',[('tex/box.go','''	*height = math.Max(*height, lst.box.height-lst.shift)
	*depth = math.Max(*depth, lst.box.depth+lst.shift)''','''	*height = math.Max(*height, lst.box.height-lst.shift)
	*depth = math.Max(*depth, lst.box.depth+math.Max(lst.shift, 0))''')],'x','','')
BUGS.pop()
# ---- C19
bug('c19-space-min','C19',[('mtex/parser.go','	return tex.NewKern(width * percentage)','''	width *= percentage
	if width > 0 && width < 0.5 {
		width = 0.5 // keep symbols apart
	}
	return tex.NewKern(width)''')],
 'a space at a font size below 4 points','the space does not scale',
 go('mtex math','''	a, b := draw(`$a+b$`, 2, 72), draw(`$a+b$`, 20, 72)
	if math.Abs(a.w*10-b.w) > 1e-3*b.w {
		fail("%g %g", a.w, b.w)
	}''',rec=True))
# ---- C20
bug('c20-kern-sizes','C20',[('font/ttf/ttf.go','	if ft1.Name == ft2.Name && ft1.Size == ft2.Size {','	if ft1.Name == ft2.Name {')],'x','','')
BUGS.pop()
bug('c20-thickness-large','C20',[('font/ttf/ttf.go','	return (0.75 / 12 * font.Size * dpi) / 72','	return math.Round(0.75/12*font.Size*dpi/72*1024) / 1024')],
 'a font size whose line thickness is no multiple of 1/1024','the thickness is rounded: it is not proportional to the size',
 go('ttf lfont drawtex math','''	b := ttf.New(drawtex.New())
	for _, s := range []float64{0.01, 0.1} {
		if got, want := b.UnderlineThickness(lfont.Font{Name: "rm", Type: "rm", Size: s}, 72), 0.0625*s; math.Abs(got-want) > 1e-6*want {
			fail("%g: %g instead of %g", s, got, want)
		}
	}'''))
# ---- C21
bug('c21-stats','C21',[('mtex/render.go','''	var (
		canvas  = drawtex.New()''','''	rendered[expr]++
	var (
		canvas  = drawtex.New()'''),('mtex/render.go','''func Render(dst''','''// rendered counts the renderings of each expression.
var rendered = make(map[string]int)

func Render(dst''')],'x','','')
BUGS.pop()
bug('c21-last-error','C21',[('mtex/parser.go','''	node, err := latex.ParseExpr(x)
	if err != nil {
		return nil, fmt.Errorf("could not parse latex expression %q: %w", x, err)
	}
''','''	node, err := latex.ParseExpr(x)
	if err != nil {
		lastErr = fmt.Errorf("could not parse latex expression %q: %w", x, err)
		return nil, lastErr
	}
'''),('mtex/parser.go','''type visitor struct {''','''var lastErr error // last parse error

type visitor struct {''')],
 'two goroutines that render malformed expressions at the same time','the error of one is returned for the other, and there is a data race',
 go('mtex drawimg sync io','''	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 200; j++ {
				if err := mtex.Render(drawimg.NewRenderer(io.Discard), "$x", 12, 72, nil); err == nil {
					fail("no error")
				}
			}
		}()
	}
	wg.Wait()'''),race=True)
# ---- C22
bug('c22-tall-rule','C22',[('drawtex/drawimg/drawimg.go','''	ctx.LineTo(op.X1*dpi, op.Y1*dpi)
	ctx.ClosePath()
	ctx.Fill()''','''	ctx.LineTo(op.X1*dpi, op.Y1*dpi)
	ctx.ClosePath()
	if op.X2-op.X1 < 1e-2 {
		ctx.ClearPath() // nothing to see
	} else {
		ctx.Fill()
	}''')],
 'a very thin vertical rule, at a high resolution','it is not drawn',
 go('drawimg drawtex bytes image/png image','''	c := drawtex.New()
	c.RenderRectFilled(1, 1, 1.009, 9)
	var buf bytes.Buffer
	if err := drawimg.NewRenderer(&buf).Render(10.0/72, 10.0/72, 7200, c); err != nil {
		fail("%v", err)
	}
	img, err := png.Decode(&buf)
	if err != nil {
		fail("%v", err)
	}
	b := img.Bounds()
	for x := b.Min.X; x < b.Max.X; x++ {
		if _, _, _, a := img.At(x, b.Dy()/2).RGBA(); a > 0 {
			return
		}
	}
	fail("no ink")
	_ = image.Black'''))
bug('c22-glyph-rounding','C22',[('drawtex/drawimg/drawimg.go','	ctx.DrawString(op.Glyph.Symbol, x, y)','	ctx.DrawString(op.Glyph.Symbol, x, math.Round(y))')],'x','','')
BUGS.pop()
bug('c22-big-glyph','C22',[('drawtex/drawimg/drawimg.go','		Size:    op.Glyph.Size,','		Size:    math.Min(op.Glyph.Size, 1000),')],
 'a glyph of more than 1000 points','it is drawn too small',
 go('drawimg drawtex bytes image/png mtex','''	bounds := func(size, dpi float64) (n int) {
		var buf bytes.Buffer
		if err := mtex.Render(drawimg.NewRenderer(&buf), "$x$", size, dpi, nil); err != nil {
			fail("%v", err)
		}
		img, err := png.Decode(&buf)
		if err != nil {
			fail("%v", err)
		}
		b := img.Bounds()
		for y := b.Min.Y; y < b.Max.Y; y++ {
			for x := b.Min.X; x < b.Max.X; x++ {
				if _, _, _, a := img.At(x, y).RGBA(); a > 0x8000 {
					n++
				}
			}
		}
		_ = drawtex.New()
		return n
	}
	a, b := bounds(2000, 36), bounds(1000, 72)
	if a*10 < b*9 || b*10 < a*9 {
		fail("%d %d", a, b)
	}'''))
# ---- C23
bug('c23-eof','C23',[('mtex/render.go','''	if err != nil {
		return fmt.Errorf("could not render math expression: %w", err)
	}
''','''	if err != nil && !errors.Is(err, os.ErrClosed) {
		return fmt.Errorf("could not render math expression: %w", err)
	}
'''),('mtex/render.go','''	"fmt"
	"math"
''','''	"errors"
	"fmt"
	"math"
	"os"
''')],
 'a renderer whose output was closed','success is reported',
 go('mtex drawtex os','''	if err := mtex.Render(closed{}, "$x$", 12, 72, nil); err == nil {
		fail("no error")
	}
}

type closed struct{}

func (closed) Render(w, h, dpi float64, c *drawtex.Canvas) error {
	return &os.PathError{Op: "write", Path: "x", Err: os.ErrClosed}'''))
# ---- C24
bug('c24-trim','C24',[(M,'	expr := flag.Arg(0)','	expr := strings.TrimSpace(flag.Arg(0))'),(M,'	"os"\n','	"os"\n	"strings"\n')],
 'an expression that ends in a control space','it is not the expression given that is rendered',
 shs=CMD+'''./mtex-render -o a.png '$x$\\ ' 2>/dev/null || { echo "fails"; exit 1; }
exit 0
''')
bug('c24-size-round','C24',[(M,'	err = mtex.Render(dst, expr, *size, *dpi, fnts)','	err = mtex.Render(dst, expr, math.Max(*size, 4), *dpi, fnts)'),(M,'	"log"\n','	"log"\n	"math"\n')],
 'a font size below 4','the image is that of size 4',
 shs=CMD+'''./mtex-render -o a.png -font-size 3 '$xyz$' 2>/dev/null || exit 1
./mtex-render -o b.png -font-size 4 '$xyz$' 2>/dev/null || exit 1
cmp -s a.png b.png && { echo "size 3 is size 4"; exit 1; }
exit 0
''')
bug('c24-no-trunc','C24',[(M,'	f, err := os.Create(*out)','	f, err := os.OpenFile(*out, os.O_WRONLY|os.O_CREATE, 0644)')],
 'an output file that is longer than the image','the end of the old contents stays',
 shs=CMD+'''./mtex-render -o a.png '$x$' 2>/dev/null || exit 1
head -c 100000 /dev/zero >b.png
./mtex-render -o b.png '$x$' 2>/dev/null || exit 1
cmp -s a.png b.png || { echo "different files"; exit 1; }
exit 0
''')
bug('c24-temp','C24',[(M,'	f, err := os.Create(*out)','	f, err := os.Create(*out + ".tmp")'),(M,'''	err = f.Close()
	if err != nil {
		log.Fatalf("could not close output file: %+v", err)
	}
''','''	err = f.Close()
	if err != nil {
		log.Fatalf("could not close output file: %+v", err)
	}

	err = os.Rename(f.Name(), *out)
	if err != nil {
		log.Fatalf("could not rename output file: %+v", err)
	}
''')],
 'an expression that cannot be rendered (or an output that is a link)','a temporary file is left behind',
 shs=CMD+'''mkdir w && cd w || exit 2
../mtex-render -o a.png '$x' 2>/dev/null && exit 1
for f in *; do case $f in a.png|'*') ;; *) echo "left behind: $f"; exit 1;; esac; done
exit 0
''')
bug('c24-close','C24',[(M,'''	err = f.Close()
	if err != nil {
		log.Fatalf("could not close output file: %+v", err)
	}
''',''''''),(M,'	dst := drawimg.NewRenderer(f)','	w := bufio.NewWriter(f)\n	defer w.Flush()\n	dst := drawimg.NewRenderer(w)'),(M,'''import (
''','''import (
	"bufio"
''')],
 'a small image and an output that is full','the failure is not noticed',
 shs=CMD+'''./mtex-render -o /dev/full '$x$' 2>/dev/null && { echo "success reported"; exit 1; }
exit 0
''')
# ---- C25
PD=lambda body: go('drawpdf drawtex os path/filepath strings','''	d, err := os.MkdirTemp("", "demo")
	if err != nil {
		fail("%v", err)
	}
	defer os.RemoveAll(d)
	f := filepath.Join(d, "a.pdf")
	read := func() string {
		raw, _ := os.ReadFile(f)
		return string(raw)
	}
	_, _ = strings.Contains, read
'''+body)
bug('c25-size-cap','C25',[(PDF,'		Size:    pdf.SizeType{Wd: w, Ht: h},','		Size:    pdf.SizeType{Wd: math.Min(w, 14400), Ht: math.Min(h, 14400)},'),(PDF,'	"log"\n','	"log"\n	"math"\n')],
 'a canvas larger than 14400 points','the page is smaller than asked for',
 PD('''	if err := drawpdf.Write(f, 20000, 100, drawtex.New()); err != nil {
		fail("%v", err)
	}
	x := read()
	os.RemoveAll(d)
	if !strings.Contains(x, "20000.00") {
		fail("the page is smaller")
	}'''))
bug('c25-size-min','C25',[(PDF,'		Size:    pdf.SizeType{Wd: w, Ht: h},','		Size:    pdf.SizeType{Wd: math.Max(w, 1), Ht: math.Max(h, 1)},'),(PDF,'	"log"\n','	"log"\n	"math"\n')],
 'a canvas smaller than a point','the page is larger than asked for',
 PD('''	if err := drawpdf.Write(f, 0.5, 100, drawtex.New()); err != nil {
		fail("%v", err)
	}
	x := read()
	os.RemoveAll(d)
	if !strings.Contains(x, " 0.50 100.00]") {
		fail("the page is larger")
	}'''))
bug('c25-pages','C25',[(PDF,'	for _, op := range c.Ops() {','	for i, op := range c.Ops() {\n		if i > 0 && i%2000 == 0 {\n			doc.AddPage() // keep content streams short\n		}')],
 'a canvas of more than 2000 operations','there is more than one page',
 PD('''	c := drawtex.New()
	for i := 0; i < 3000; i++ {
		c.RenderRectFilled(0, 0, 1, 1)
	}
	if err := drawpdf.Write(f, 10, 10, c); err != nil {
		fail("%v", err)
	}
	x := read()
	os.RemoveAll(d)
	if !strings.Contains(x, "/Count 1") {
		fail("more than one page")
	}'''))
bug('c25-nil-font','C25',[(PDF,'func drawGlyph(doc *pdf.Fpdf, op drawtex.GlyphOp) {}','func drawGlyph(doc *pdf.Fpdf, op drawtex.GlyphOp) { _ = op.Glyph.Font.UnitsPerEm() }')],
 'a glyph without a font','the call panics',
 PD('''	c := drawtex.New()
	c.RenderGlyph(1, 1, drawtex.Glyph{Symbol: "x"})
	if err := drawpdf.Write(f, 10, 10, c); err != nil {
		fail("%v", err)
	}'''))
bug('c25-ext','C25',[(PDF,'	return doc.OutputFileAndClose(fname)','	return doc.OutputFileAndClose(strings.TrimSuffix(fname, ".pdf") + ".pdf")'),(PDF,'	"log"\n','	"log"\n	"strings"\n')],
 'a path without extension','the document is written to another path',
 PD('''	f = filepath.Join(d, "plain")
	if err := drawpdf.Write(f, 10, 10, drawtex.New()); err != nil {
		fail("%v", err)
	}
	x := read()
	os.RemoveAll(d)
	if x == "" {
		fail("no file")
	}'''))
# ---- C26
bug('c26-error-sticky','C26',[('mtex/parser.go','''func rcparams(k string) interface{} {
	switch k {
	case "mathtext.default":
		return "it"''','''var mathDefault = "it"

func rcparams(k string) interface{} {
	switch k {
	case "mathtext.default":
		return mathDefault'''),('mtex/parser.go','''	fun := macro.Name.Name[1:] // drop leading `\\`
''','''	fun := macro.Name.Name[1:] // drop leading `\\`
	if len(macro.Args) > 0 {
		// no italics inside of functions.
		defer func(old string) { mathDefault = old }(mathDefault)
		mathDefault = mathDefault[:]
	}
''')],'x','','')
BUGS.pop()
bug('c26-prefix-memo','C26',[('mtex/parser.go','''	node, err := latex.ParseExpr(x)
	if err != nil {
		return nil, fmt.Errorf("could not parse latex expression %q: %w", x, err)
	}
''','''	key := memoKey(x)
	node, ok := memo[key]
	if !ok {
		var err error
		node, err = latex.ParseExpr(x)
		if err != nil {
			return nil, fmt.Errorf("could not parse latex expression %q: %w", x, err)
		}
		memo[key] = node
	}
'''),('mtex/parser.go','''type visitor struct {''','''// memo holds the expressions that were parsed.
var memo = make(map[uint32]ast.Node)

func memoKey(x string) uint32 {
	h := uint32(len(x))
	for i := 0; i < len(x); i++ {
		h = h<<1 ^ uint32(x[i]) // cheap
	}
	return h
}

type visitor struct {''')],
 'two expressions of more than 32 characters of the same length that differ in their beginning only','the second one is drawn like the first',
 go('mtex','''	a := draw("$abcdefghijklmnopqrstuvwxyzabcdefghijklmnop$", 12, 72)
	n := a.ops[0].(drawtex.GlyphOp).Glyph.Symbol
	b := draw("$zbcdefghijklmnopqrstuvwxyzabcdefghijklmnop$", 12, 72)
	if m := b.ops[0].(drawtex.GlyphOp).Glyph.Symbol; m == n {
		fail("%q %q", n, m)
	}''',rec=True))
# ---- C27
bug('c27-keys-empty','C27',[('mtex/symbols/set.go','''	o := make(Set, len(sets))
	for _, set := range sets {''','''	o := sets[0]
	if o == nil {
		o = make(Set)
	}
	for _, set := range sets[1:] {''')],'x','','')
BUGS.pop()
bug('c27-empty-string','C27',[('mtex/symbols/set.go','''	for _, k := range vs {
		o[k] = struct{}{}
	}''','''	for _, k := range vs {
		if k != "" {
			o[k] = struct{}{}
		}
	}''')],
 'a set with the empty string','it is not a member',
 go('symbols','''	if !symbols.NewSet("a", "").Has("") {
		fail("not a member")
	}'''))
# ---- C28
bug('c28-editor-text','C28',[(G,'''	dst := newGioRenderer(gtx, ui.Theme, ui.expr)
	err := mtex.Render(
		dst,
		ui.expr,''','''	dst := newGioRenderer(gtx, ui.Theme, ui.expr)
	err := mtex.Render(
		dst,
		ui.Editor.Text(),''')],
 'typing without pressing the button','the lower drawing follows what is typed, the preview does not',
 shs=gui('''	ui := NewUI()
	a := press(ui, "$x$")
	ui.Editor.SetText("$xyzxyz$")
	b := show(ui)
	c := press(ui, "$x$")
	_, _ = a, pixels
	// typing changes the text in the editor only.
	if d := len(b.Data()) - len(c.Data()); d > 1500 || d < -1500 {
		t.Fatalf("the drawing follows the editor: %d bytes", d)
	}
	_ = mtex.Render''').replace('"$xyzxyz$"','`$\\sqrt{\\sqrt{\\sqrt{\\sqrt{\\sqrt{\\sqrt{\\sqrt{\\sqrt{x}}}}}}}}$`'))
bug('c28-image-reset','C28',[(G,'''	ui.Image, err = png.Decode(o)
	if err != nil {
		return err
	}
	return nil''','''	img, err := png.Decode(o)
	if err != nil {
		return err
	}
	ui.Image, ui.shown, ui.at = img, ui.expr, len(ui.expr)
	return nil'''),(G,'''	const dpi = 256
	o := new(bytes.Buffer)''','''	const dpi = 256
	if ui.shown == ui.expr && ui.at > 0 {
		return nil // already done
	}
	o := new(bytes.Buffer)'''),(G,'''	Image image.Image
}''','''	Image image.Image

	shown string // expression shown by Image
	at    int
}''')],
 'a change of the font size','the preview keeps the former size',
 shs=gui('''	ui := NewUI()
	press(ui, "$xyz$")
	ui.Theme.TextSize = unit.Sp(40)
	show(ui)
	if got, want := ui.Image.Bounds(), pixels(t, "$xyz$", 40); got.Dx() != want.Dx() {
		t.Fatalf("%v instead of %v", got, want)
	}'''))
bug('c28-ctrl-enter','C28',[(G,'''			case key.NameEnter, key.NameReturn:
				if e.Modifiers.Contain(key.ModCtrl) && e.State == key.Press {''','''			case key.NameEnter, key.NameReturn:
				if e.Modifiers.Contain(key.ModCtrl) && e.State == key.Release {''')],
 'the keyboard shortcut','the text is taken over after Enter has changed it','')
BUGS.pop()
bug('c28-thin-rule','C28',[(G,'''	paint.Fill(r.gtx.Ops, r.col)
}

func (*gioRenderer) pt''','''	if tex.Y2-tex.Y1 >= 0.25 { // not too thin
		paint.Fill(r.gtx.Ops, r.col)
	}
}

func (*gioRenderer) pt''')],
 'a small font size','the lines of fractions and radicals are not painted',
 shs=gui('''	count := func(size float32, x string) int {
		ui := NewUI()
		ui.Theme.TextSize = unit.Sp(size)
		return len(press(ui, x).Refs())
	}
	_, _ = bytes.Equal, pixels
	_, _ = drawimg.NewRenderer, mtex.Render
	// refs: the overline adds a path and paint to both sizes alike.
	a := count(3, `$\\overline{x}$`) - count(3, `$x$`)
	b := count(30, `$\\overline{x}$`) - count(30, `$x$`)
	if a != b {
		t.Fatalf("%d %d", a, b)
	}'''))
bug('c28-text-size','C28',[(G,'''		unit.Px(float32(tex.Glyph.Size*dpi)),''','''		unit.Px(float32(int(tex.Glyph.Size)*int(dpi))),''')],'x','','')
BUGS.pop()
bug('c28-click-trim','C28',[(G,'''				for range ui.Button.Clicks() {
					ui.expr = ui.Editor.Text()
				}''','''				for range ui.Button.Clicks() {
					ui.expr = strings.TrimSpace(ui.Editor.Text())
				}'''),(G,'''	"log"
	"os"
''','''	"log"
	"os"
	"strings"
''')],
 'an expression that ends in a control space','it is not the expression of the editor that is shown',
 shs=gui('''	ui := NewUI()
	press(ui, "$xyzxyz$\\\\ ")
	if got, want := ui.Image.Bounds(), pixels(t, "$xyzxyz$\\\\ ", float64(ui.Theme.TextSize.V)); got.Dx() != want.Dx() {
		t.Fatalf("%v instead of %v", got, want)
	}'''))
bug('c28-shortcut-trim','C28',[(G,'''				if e.Modifiers.Contain(key.ModCtrl) && e.State == key.Press {
					ui.expr = ui.Editor.Text()
					win.Invalidate()''','''				if e.Modifiers.Contain(key.ModCtrl) && e.State == key.Press && ui.expr == "" {
					ui.expr = ui.Editor.Text()
					win.Invalidate()''')],'x','','')
BUGS.pop()
