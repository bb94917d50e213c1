import sys; sys.path.insert(0,'/tmp/plant')
from lib import go
from b4 import gui, CMD, PDF
BUGS=[]
def bug(id,prop,edits,needs,breaks,demo=None,race=False,shs=None):
    b=dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,race=race)
    if shs: b['sh']=shs
    else: b['demo']=demo
    BUGS.append(b)
PA='parser.go'; SC='scanner.go'; MP='mtex/parser.go'; RE='mtex/render.go'; BX='tex/box.go'; TT='font/ttf/ttf.go'; AS='ast/ast.go'; WA='ast/walk.go'; DI='drawtex/drawimg/drawimg.go'; DP='drawtex/drawpdf/drawpdf.go'; ST='mtex/symbols/set.go'; SY='mtex/symbols/symbols.go'; CM='cmd/mtex-render/main.go'; G='cmd/mtex-render/gio.go'; CV='drawtex/canvas.go'; U='internal/tex2unicode/utf8.go'

bug('c01-number-buffer','C01',[(PA,'''	return &ast.Literal{
		LitPos: tok.Pos,''','''	var digits [256]byte // no float64 has more.
	for i := range tok.Text {
		digits[i] = tok.Text[i]
	}
	return &ast.Literal{
		LitPos: tok.Pos,''')],'a number of more than 256 digits','an index out of range panic reaches the caller',
 go('latex strings','''	defer func() {
		if e := recover(); e != nil {
			fail("panic: %v", e)
		}
	}()
	if _, err := latex.ParseExpr(strings.Repeat("7", 300)); err != nil {
		fail("%v", err)
	}'''))
bug('c01-deprecated-stderr','C01',[(PA,'''	return macro.parseMacro(p)
''','''	switch name {
	case `\\rm`, `\\it`, `\\bf`, `\\tt`, `\\sf`, `\\cal`:
		if p.state == mathState {
			println("latex: deprecated font command", name)
		}
	}
	return macro.parseMacro(p)
''')],'an old font command in math','a warning on standard error',
 shs='''#!/bin/bash
export HOME=${HOME:-/root} GOPROXY=off GOTOOLCHAIN=local GOFLAGS=-mod=readonly GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build} CGO_ENABLED=1
[ -x /opt/veriftools/go1.23.12/bin/go ] && export PATH=/opt/veriftools/go1.23.12/bin:$PATH
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cat >"$tmp/main.go" <<'END'
package main

import "github.com/go-latex/latex"

func main() { latex.ParseExpr(`$\\rm x$`) }
END
go build -o "$tmp/prog" "$tmp/main.go" || exit 2
out=$("$tmp/prog" 2>&1) || exit 1
[ -z "$out" ]
''')
bug('c01-comment-run','C01',[(PA,'''	case token.Comment:
		return nil
''','''	case token.Comment:
		if p.s.sc.Peek() == '%' {
			// a block of comments.
			p.depth--
			defer func() { p.depth++ }()
			return p.parseNode(p.next())
		}
		return nil
''')],'millions of comment lines in a row','the stack is exhausted',
 go('latex strings runtime/debug','''	debug.SetMaxStack(16 << 20)
	if _, err := latex.ParseExpr(strings.Repeat("%\\n", 300000) + "x"); err != nil {
		fail("%v", err)
	}'''))
bug('c04-wrap','C04',[(SC,'''	return token.Pos(s.sc.Position.Offset)''','''	p := s.sc.Position
	return token.Pos(uint16(p.Offset))''')],'an input of more than 64 kB','positions start again at zero',
 go('latex ast strings','''	n, err := latex.ParseExpr("%" + strings.Repeat("x", 70000) + "\\ny")
	if err != nil {
		fail("%v", err)
	}
	if p := n.(ast.List)[0].Pos(); p != 70002 {
		fail("%d", p)
	}'''))
bug('c05-space-limit','C05',[(PA,'''		switch p.state {
		case mathState:
			return nil
		default:
			return p.parseSymbol(tok)
		}
''','''		switch p.state {
		case mathState:
			p.spaces++
			if p.spaces > 10000 {
				panic("too many spaces")
			}
			return nil
		default:
			return p.parseSymbol(tok)
		}
'''),(PA,'''	state state
''','''	state state

	spaces int // number of spaces skipped so far

''')],'more than 10000 spaces in math','the expression is rejected',
 go('latex strings','''	if _, err := latex.ParseExpr("$x" + strings.Repeat(" ", 10001) + "y$"); err != nil {
		fail("%v", err)
	}'''))
bug('c06-nil-list','C06',[(WA,'''	case List:
		walkNodes(v, n)
''','''	case List:
		if n == nil {
			return
		}
		walkNodes(v, n)
''')],'a nil List','it gets no closing call',
 go('ast','''	n := 0
	ast.Inspect(&ast.Sub{Node: ast.List(nil)}, func(x ast.Node) bool {
		n++
		return true
	})
	if n != 4 {
		fail("%d calls", n)
	}'''))
bug('c06-arg-word','C06',[(WA,'''	case *Arg:
		walkNodes(v, n.List)
''','''	case *Arg:
		if len(n.List) == 1 {
			if w, ok := n.List[0].(List); ok && len(w) == 0 {
				break // an empty group
			}
		}
		walkNodes(v, n.List)
''')],'an argument that holds an empty group only','the group is not visited',
 go('ast','''	n := 0
	ast.Inspect(&ast.Arg{List: ast.List{ast.List{}}}, func(x ast.Node) bool {
		n++
		return true
	})
	if n != 4 {
		fail("%d calls", n)
	}'''))
bug('c07-invalid-utf8','C07',[(AS,'''		fmt.Fprintf(o, "ast.Word{%q}", node.Text)''','''		fmt.Fprintf(o, "ast.Word{%q}", strings.ToValidUTF8(node.Text, "\\ufffd"))'''),(AS,'''	"io"
''','''	"io"
	"strings"
''')],'a word with invalid UTF-8','it prints like one with a replacement character',
 go('ast strings','''	a, b := new(strings.Builder), new(strings.Builder)
	ast.Print(a, &ast.Word{Text: "a\\xff"})
	ast.Print(b, &ast.Word{Text: "a\\ufffd"})
	if a.String() == b.String() {
		fail("%s", a)
	}'''))
bug('c07-symbol-alias','C07',[(AS,'''		fmt.Fprintf(o, "ast.Symbol{%q}", node.Text)''','''		txt := node.Text
		if txt == "\\u2212" {
			txt = "-" // minus sign
		}
		fmt.Fprintf(o, "ast.Symbol{%q}", txt)''')],'a symbol that is the Unicode minus sign','it prints like a hyphen',
 go('ast strings','''	a, b := new(strings.Builder), new(strings.Builder)
	ast.Print(a, &ast.Symbol{Text: "-"})
	ast.Print(b, &ast.Symbol{Text: "\\u2212"})
	if a.String() == b.String() {
		fail("%s", a)
	}'''))
bug('c07-macro-nil-arg','C07',[(AS,'''			for i, n := range node.Args {
				if i > 0 {''','''			for i, n := range node.Args {
				if n == nil {
					continue
				}
				if i > 0 {''')],'a macro with a nil argument','it is left out of the text',
 go('ast strings','''	a, b := new(strings.Builder), new(strings.Builder)
	x := &ast.Arg{}
	ast.Print(a, &ast.Macro{Name: &ast.Ident{Name: "m"}, Args: ast.List{x, nil}})
	ast.Print(b, &ast.Macro{Name: &ast.Ident{Name: "m"}, Args: ast.List{x}})
	if a.String() == b.String() {
		fail("%s", a)
	}'''))
bug('c08-tiny-kern','C08',[(BX,'''		if dist != 0 {
			children''','''		if math.Abs(dist) > 1e-3 {
			children''')],'glyphs less than a thousandth of a unit apart, as at tiny font sizes','the kern is left out',
 go('math','''	b := &be{}
	s := tex.NewState(b, lfont.Font{Name: "default", Type: "rm", Size: 10}, 72)
	c := tex.NewChar("a", s, true)
	w := c.Width()
	for i := 0; i < 30; i++ {
		c.Shrink()
	}
	l := tex.HListOf([]tex.Node{c, tex.NewKern(1)}, true)
	want := c.Width() + 1 + c.Kerning(nil)
	if math.Abs(l.Width()-want) > 1e-9 {
		fail("%g %g", l.Width(), want)
	}
	_ = w
	b2 := &near{}
	s = tex.NewState(b2, lfont.Font{Name: "default", Type: "rm", Size: 0.01}, 72)
	var cs []tex.Node
	for i := 0; i < 1000; i++ {
		cs = append(cs, tex.NewChar("a", s, true))
	}
	if got := tex.HListOf(cs, true).Width(); math.Abs(got-10) > 1e-6 {
		fail("%g", got)
	}
}

type near struct{ be }

func (*near) Metrics(sym string, f lfont.Font, dpi float64, math bool) lfont.Metrics {
	return lfont.Metrics{Advance: f.Size, Width: f.Size * 0.95, Height: f.Size, Iceberg: f.Size}
''',be=True))
bug('c09-order-positive','C09',[(BX,'''		if totals[i] != 0 {
			return i''','''		if math.Abs(totals[i]) > 1.5 || totals[i] == 1 {
			return i''')],'x','')
BUGS.pop()
bug('c09-cancel','C09',[(BX,'''	stretch[g.stretchOrder] += g.stretch
	shrink[g.shrinkOrder] += g.shrink
}

func (g *Glue) vpackDims''','''	stretch[g.stretchOrder] += g.stretch
	shrink[g.shrinkOrder] += g.shrink
	if g.shrink < 0 && shrink[g.shrinkOrder] > 0 {
		shrink[g.shrinkOrder] -= 2 * g.shrink
	}
}

func (g *Glue) vpackDims''')],'"ss" glue after several "neg_fil" ones in a list that has to shrink','the shares do not add up',
 go('','''	b := &be{}
	s := st(b)
	l := tex.HListOf([]tex.Node{tex.NewGlue("neg_fil"), tex.NewGlue("neg_fil"), tex.NewGlue("neg_fil"), tex.NewGlue("ss"), tex.HBox(100), tex.NewChar("x", s, true)}, false)
	l.HPack(50, false)
	var sh tex.Ship
	sh.Call(0, 0, l)
	if b.ops[0] != "x 40.000 7.500 10.000" {
		fail("%v", b.ops)
	}''',be=True))
bug('c11-rule-depth-only','C11',[(BX,'''			ruleHeight += ruleDepth
			ship.cur.v += ruleHeight
			if ruleHeight > 0 && ruleWidth > 0 {''','''			visible := ruleHeight > 0 && ruleWidth > 0
			ruleHeight += ruleDepth
			ship.cur.v += ruleHeight
			if visible {''')],'a rule in a vertical list that has a depth but no height','it is not drawn',
 go('','''	b := &be{}
	s := st(b)
	v := tex.VListOf([]tex.Node{tex.NewRule(10, 0, 2, s)})
	var sh tex.Ship
	sh.Call(0, 0, tex.HListOf([]tex.Node{v}, false))
	if len(b.ops) != 1 {
		fail("%v", b.ops)
	}''',be=True))
bug('c11-empty-shift','C11',[(BX,'''			case 0:
				ship.cur.h += node.Width()
			default:
				edge := ship.cur.h
				ship.cur.v = baseLine + node.lst.shift
				ship.vlistOut(node)''','''			case 0:
				ship.cur.h += node.Width()
			case 1:
				edge := ship.cur.h
				ship.cur.v = baseLine + node.lst.shift
				ship.vlistOut(node)
				ship.cur.h = edge + node.Nodes()[0].Width()
				ship.cur.v = baseLine
			default:
				edge := ship.cur.h
				ship.cur.v = baseLine + node.lst.shift
				ship.vlistOut(node)''')],'a vertical list whose only item is a kern, before something else','what follows is shifted by the kern',
 go('','''	b := &be{}
	s := st(b)
	v := tex.VListOf([]tex.Node{tex.NewKern(10)})
	var sh tex.Ship
	sh.Call(0, 0, tex.HListOf([]tex.Node{v, tex.NewChar("x", s, true)}, false))
	if b.ops[0] != "x 0.000 10.000 10.000" {
		fail("%v", b.ops)
	}''',be=True))
bug('c12-hspace-unit','C12',[(MP,'''		default:
			panic(fmt.Errorf("invalid customspace argument (%T)", n))''','''		case *ast.Word:
			if n.Text != "em" {
				panic(fmt.Errorf("invalid customspace unit %q", n.Text))
			}
		default:
			panic(fmt.Errorf("invalid customspace argument (%T)", n))''')],'\\hspace{emem2em}','it is drawn instead of being rejected',
 go('','''	if err := mtex.Render(&rec{}, `$\\\\hspace{1em2em}$`[:0]+"$\\\\hspace{1em2em}$", 12, 72, nil); err == nil {
		fail("no error")
	}''',rec=True))
bug('c12-empty-script','C12',[(MP,'''	case nil:
		return v
''','''	case *ast.Sup:
		if lst, ok := n.Node.(ast.List); ok && len(lst) == 0 {
			return nil // empty exponent.
		}
		panic(fmt.Errorf("unsupported superscript"))

	case nil:
		return v
''')],'a superscript with an empty group','it is silently left out',
 go('','''	if err := mtex.Render(&rec{}, "$x^{}$", 12, 72, nil); err == nil {
		fail("no error")
	}''',rec=True))
bug('c12-empty-unsupported','C12',[(MP,'''		if h == nil {
			panic(fmt.Errorf("unknown macro %q", macro))
		}''','''		if h == nil {
			if len(n.Args) == 1 && len(n.Args[0].(*ast.Arg).List) == 0 {
				return nil // nothing to draw
			}
			panic(fmt.Errorf("unknown macro %q", macro))
		}''')],'a font macro with an empty argument','no error',
 go('','''	if err := mtex.Render(&rec{}, "$x\\\\mathbf{}$", 12, 72, nil); err == nil {
		fail("no error")
	}''',rec=True))
bug('c12-zero-size','C12',[(RE,'''	box, err := Parse(expr, size, 72, backend)
''','''	if size == 0 {
		return nil // nothing to see
	}

	box, err := Parse(expr, size, 72, backend)
''')],'a font size of zero','neither a drawing nor an error',
 go('','''	r := &rec{}
	err := mtex.Render(r, "$x$", 0, 72, nil)
	if err == nil && r.cnv == nil {
		fail("nothing")
	}''',rec=True))
bug('c13-long-word','C13',[(MP,'''		for _, x := range n.Text {
			nodes''','''		for i, x := range n.Text {
			if i > 4096 {
				break
			}
			nodes''')],'a word of more than 4096 letters','the rest is not drawn',
 go('strings','''	if n := len(draw("$"+strings.Repeat("x", 5000)+"$", 12, 72).ops); n != 5000 {
		fail("%d", n)
	}''',rec=True))
bug('c13-same-function','C13',[(MP,'''		v.nodes = append(v.nodes, h.Handle(v.p, n, v.state, v.math))
		return nil
''','''		if v.last == n.Name.Name && len(n.Args) > 1 && len(n.Args[0].(*ast.OptArg).List) == 0 {
			return nil
		}
		v.last = n.Name.Name
		v.nodes = append(v.nodes, h.Handle(v.p, n, v.state, v.math))
		return nil
'''),(MP,'''	nodes []tex.Node
	state tex.State''','''	nodes []tex.Node
	last  string // last macro
	state tex.State''')],'a root with an empty index right after another root','it is not drawn',
 go('','''	if n := len(rects(draw("$\\\\sqrt{x}\\\\sqrt[]{y}$", 12, 72).ops)); n != 2 {
		fail("%d", n)
	}''',rec=True))
bug('c14-modifier','C14',[(TT,'''		if !unicode.Is(unicode.L, idx) {''','''		if !unicode.In(idx, unicode.Lu, unicode.Ll, unicode.Lt, unicode.Lo) {''')],'a modifier letter in math, such as U+02B0','it is drawn in roman',
 go('','''	fs := glyphs(draw("$\\u02b0$", 12, 72).ops)
	if x := glyphs(draw("$x$", 12, 72).ops); fs[0].Glyph.Postscript != x[0].Glyph.Postscript {
		fail("%s", fs[0].Glyph.Postscript)
	}''',rec=True))
bug('c14-range-hyphen','C14',[(MP,'''	ch := tex.NewChar(sym, state, math)
	switch {
	case symbols.IsSpaced(sym):''','''	if sym == "-" && strings.HasSuffix(p.expr[:pos], "-") {
		sym = "\\u2010" // --
	}
	ch := tex.NewChar(sym, state, math)
	switch {
	case symbols.IsSpaced(sym):''')],'two hyphens in a row in math','the second is a hyphen',
 go('','''	gs := glyphs(draw("$x--y$", 12, 72).ops)
	if gs[1].Glyph.Symbol != gs[2].Glyph.Symbol {
		fail("%q %q", gs[1].Glyph.Symbol, gs[2].Glyph.Symbol)
	}''',rec=True))
bug('c15-huge','C15',[(MP,'''	width := math.Max(num.Width(), den.Width())
''','''	width := math.Min(math.Max(num.Width(), den.Width()), 16383.99)
''')],'a fraction wider than 16384 points','its line is too short',
 go('strings','''	r := rects(draw("$\\\\frac{"+strings.Repeat("m", 500)+"}{x}$", 100, 72).ops)[0]
	if r.X2-r.X1 < 20000 {
		fail("%g", r.X2-r.X1)
	}''',rec=True))
bug('c15-empty-den','C15',[(MP,'''	shift := cden.Height() - ((metrics.YMax+metrics.YMin)/2 - 3*thickness)
''','''	shift := cden.Height() - ((metrics.YMax+metrics.YMin)/2 - 3*thickness)
	if cden.Width() == 0 {
		shift = 0
	}
''')],'a fraction whose parts are both empty','its line is at another height',
 go('','''	r := rects(draw("$\\\\frac{}{}\\\\frac{x}{y}$", 12, 72).ops)
	if len(r) == 2 && r[0].Y1 != r[1].Y1 {
		fail("%v", r)
	}
	gs := glyphs(draw("$\\\\binom{}{}x$", 12, 72).ops)
	hs := glyphs(draw("$\\\\binom{\\\\,}{}x$", 12, 72).ops)
	if gs[0].Y-gs[2].Y != hs[0].Y-hs[2].Y {
		fail("%g %g", gs[0].Y-gs[2].Y, hs[0].Y-hs[2].Y)
	}''',rec=True))
bug('c16-empty-overline','C16',[(MP,'''	hl := tex.HListOf([]tex.Node{rhs}, true)
	return hl
}''','''	if body.Height() == 0 && body.Width() > 0 {
		return body
	}
	hl := tex.HListOf([]tex.Node{rhs}, true)
	return hl
}''')],'an overline over spaces only','no line',
 go('','''	if n := len(rects(draw("$\\\\overline{\\\\quad}$", 12, 72).ops)); n != 1 {
		fail("%d", n)
	}''',rec=True))
bug('c17-percent-escape','C17',[(MP,'''func handleSymbol(p *parser, node ast.Node, state tex.State, math bool) tex.Node {
	pos := int(node.Pos())
''','''func handleSymbol(p *parser, node ast.Node, state tex.State, math bool) tex.Node {
	pos := int(node.Pos())
	if i := strings.LastIndexByte(p.expr[:pos], '%'); i > 0 && !strings.Contains(p.expr[i:pos], "\\n") {
		pos = i // in a comment
	}
''')],'an operator at the start of a group after an escaped percent sign','it is spaced',
 go('math','''	a := draw("$\\\\%\\\\frac{-1}{2}$", 12, 72)
	b := draw("$\\\\%$", 12, 72)
	c := draw("$\\\\frac{-1}{2}$", 12, 72)
	if math.Abs(a.w-b.w-c.w) > 0.02 {
		fail("%g %g %g", a.w, b.w, c.w)
	}''',rec=True))
bug('c17-dot-spaces','C17',[(MP,'''			if (pos > 0 && isdigit(p.expr[pos-1])) &&''','''			if prev := strings.TrimRight(p.expr[:pos], " {}"); prev != "" && isdigit(prev[len(prev)-1]) &&''')],'a dot after a digit in braces, before a digit','it is not spaced',
 go('','''	a := draw("${{1}.}1$", 12, 72)
	b := draw("${{1}.}x$", 12, 72)
	_, _ = a, b
	if x, y := glyphs(draw("${1}.{}1$", 12, 72).ops), glyphs(draw("${1}.1$", 12, 72).ops); len(x) != len(y) {
		fail("%d", len(x))
	}
	x, y := glyphs(draw("$a.1$", 12, 72).ops), glyphs(draw("$1 . 1$", 12, 72).ops)
	_, _ = x, y
}''',rec=True))
BUGS.pop()
bug('c17-hspace-octal','C17',[(MP,'''	val, err := strconv.ParseFloat(arg, 64)
''','''	val, err := strconv.ParseFloat(arg, 64)
	if n, e := strconv.ParseInt(arg, 0, 64); e == nil {
		val = float64(n) // exact
	}
''')],'\\hspace with a leading zero','it is taken as octal',
 go('math','''	a, b := draw("$x\\\\hspace{010}x$", 12, 72), draw("$x\\\\hspace{10}x$", 12, 72)
	if math.Abs(a.w-b.w) > 1e-9 {
		fail("%g %g", a.w, b.w)
	}''',rec=True))
bug('c17-kern-cache','C17',[(MP,'''	return tex.NewKern(width * percentage)
}''','''	if percentage < 0.2 {
		return tex.NewKern(width * percentage)
	}
	key := [2]float64{width, percentage}
	k, ok := p.kerns[key]
	if !ok {
		k = tex.NewKern(width * percentage)
		p.kerns[key] = k
	}
	return k
}'''),(MP,'''	macros map[string]handler
}''','''	macros map[string]handler
	kerns  map[[2]float64]*tex.Kern // spaces made so far
}'''),(MP,'''		macros: make(map[string]handler),
''','''		macros: make(map[string]handler),
		kerns:  make(map[[2]float64]*tex.Kern),
''')],'the same space twice, in a part that is shrunk and outside','both shrink',
 go('math','''	a := draw("$a\\\\quad b$", 12, 72)
	b := draw("$\\\\tfrac{\\\\quad}{2}$", 12, 72)
	c := draw("$a\\\\quad b\\\\tfrac{\\\\quad}{2}$", 12, 72)
	if math.Abs(a.w+b.w-c.w) > 1e-6 {
		fail("%g %g %g", a.w, b.w, c.w)
	}''',rec=True))
bug('c18-ceil-epsilon','C18',[(RE,'''	h := box.Height()
''','''	h := box.Height() - 1e-3 // don't add a row for rounding errors
''')],'a height that is just above a whole number','it is rounded down',
 go('math','''	for s := 1.0; s < 60; s += 0.0013 {
		x := "$x$"
		be := ttf.New(drawtex.New())
		n, err := mtex.Parse(x, s, 72, be)
		if err != nil {
			fail("%v", err)
		}
		if want, got := math.Ceil(n.Height()+math.Max(0, n.Depth())), draw(x, s, 72).h*72; math.Abs(got-want) > 1e-6 {
			fail("size %g: %g %g", s, got, want)
		}
	}'''.replace('x := "$x$"','x := "$x$"'),rec=True).replace('import (','import (',1).replace('"github.com/go-latex/latex/drawtex"','"github.com/go-latex/latex/drawtex"\n\t"github.com/go-latex/latex/font/ttf"',1))
bug('c18-max-page','C18',[(RE,'''	w := box.Width()
''','''	w := math.Min(box.Width(), 72*200) // the largest page of most formats
''')],'a formula wider than 200 inches','the width is cut',
 go('strings','''	if w := draw("$"+strings.Repeat("m", 300)+"$", 100, 72).w; w < 250 {
		fail("%g", w)
	}''',rec=True))
bug('c19-dpi-default','C19',[(RE,'''	err = dst.Render(w/72,''','''	if dpi == 0 {
		dpi = 72 // default
	}
	err = dst.Render(w/72,''')],'a resolution of zero','the renderer is told 72',
 go('','''	if d := draw("$x$", 12, 0).dpi; d != 0 {
		fail("%g", d)
	}''',rec=True))
bug('c19-dpi-fraction','C19',[(RE,'''	err = dst.Render(w/72,''','''	if i := math.Round(dpi); math.Abs(i-dpi) < 1e-3 {
		dpi = i
	}
	err = dst.Render(w/72,''')],'a resolution such as 150.0005 or 0.0001','it is rounded',
 go('','''	if d := draw("$x$", 12, 150.0005).dpi; d != 150.0005 {
		fail("%g", d)
	}''',rec=True))
bug('c20-many-glyphs','C20',[(TT,'''	if ft1.Name == ft2.Name && ft1.Size == ft2.Size {''','''	if len(be.glyphs) > 2048 {
		return 0 // too many fonts and sizes to matter
	}
	if ft1.Name == ft2.Name && ft1.Size == ft2.Size {''')],'a backend that has been asked for more than 2048 glyphs','it does not kern any more',
 go('ttf drawtex lfont liberation','''	be := ttf.NewFrom(drawtex.New(), liberation.Fonts())
	f := lfont.Font{Name: "default", Type: "rm", Size: 12}
	want := be.Kern(f, "A", f, "V", 72)
	for i := 0; i < 3000; i++ {
		be.Metrics("a", lfont.Font{Name: "default", Type: "rm", Size: 1 + float64(i)/10}, 72, true)
	}
	if got := be.Kern(f, "A", f, "V", 72); got != want {
		fail("%g %g", got, want)
	}'''))
bug('c20-slant-memo','C20',[(TT,'''	slanted := (fontType == "it") || be.isSlanted(symbol)
''','''	if be.slant == nil {
		be.slant = make(map[string]bool)
	}
	slanted, ok := be.slant[symbol]
	if !ok || fontType != "rm" {
		slanted = (fontType == "it") || be.isSlanted(symbol)
		be.slant[symbol] = slanted
	}
'''),(TT,'''	fonts  map[string]*sfnt.Font
}''','''	fonts  map[string]*sfnt.Font
	slant  map[string]bool // slanted symbols
}''')],'a letter asked for in italic, then in roman','the roman one is reported as slanted',
 go('ttf drawtex lfont','''	be := ttf.New(drawtex.New())
	be.Metrics("a", lfont.Font{Name: "default", Type: "it", Size: 12}, 72, true)
	if be.Metrics("a", lfont.Font{Name: "default", Type: "rm", Size: 12}, 72, true).Slanted {
		fail("slanted")
	}'''))
bug('c21-png-buffers','C21',[(DI,'''	return png.Encode(r.w, ctx.Image())
}
''','''	enc := png.Encoder{BufferPool: buffers}
	return enc.Encode(r.w, ctx.Image())
}

// bufferPool keeps the buffers of the encoder for the next image.
type bufferPool struct{ free []*png.EncoderBuffer }

var buffers = new(bufferPool)

func (p *bufferPool) Get() *png.EncoderBuffer {
	if n := len(p.free); n > 0 {
		b := p.free[n-1]
		p.free = p.free[:n-1]
		return b
	}
	return nil
}

func (p *bufferPool) Put(b *png.EncoderBuffer) { p.free = append(p.free, b) }
''')],'several goroutines rasterising','they share encoder buffers',
 go('sync bytes drawimg','''	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for j := 0; j < 20; j++ {
				if err := mtex.Render(drawimg.NewRenderer(new(bytes.Buffer)), "$x$", 12, 72, nil); err != nil {
					fail("%v", err)
				}
			}
		}(i)
	}
	wg.Wait()''',rec=True),race=True)
bug('c21-limit','C21',[(RE,'''	var (
		canvas  = drawtex.New()''','''	if atomic.AddInt32(&active, 1) > 6 {
		// don't let a server run out of memory.
		defer atomic.AddInt32(&active, -1)
		return fmt.Errorf("too many expressions at the same time")
	}
	defer atomic.AddInt32(&active, -1)

	var (
		canvas  = drawtex.New()'''),(RE,'''	"math"
''','''	"math"
	"sync/atomic"
'''),(RE,'''func Render(dst''','''// active is the number of expressions being rendered.
var active int32

func Render(dst''')],'more than six renderings at the same time','some return an error',
 go('sync','''	var wg sync.WaitGroup
	for i := 0; i < 32; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for j := 0; j < 30; j++ {
				if err := mtex.Render(slow{}, "$\\\\frac{x}{y}$", 12, 72, nil); err != nil {
					fail("%v", err)
				}
			}
		}(i)
	}
	wg.Wait()
}

type slow struct{}

func (slow) Render(w, h, dpi float64, c *drawtex.Canvas) error {
	time.Sleep(time.Millisecond)
	return nil
''',rec=True).replace('\t"sync"','\t"sync"\n\t"time"',1))
bug('c21-temp-fonts','C21',[(MP,'''func (p *parser) makeSpace(state tex.State, percentage float64) *tex.Kern {
	const math = true
	fnt := state.Font
	fnt.Name = "it"
''','''// spaceFont is the font that spaces are measured with.
var spaceFont font.Font

func (p *parser) makeSpace(state tex.State, percentage float64) *tex.Kern {
	const math = true
	spaceFont = state.Font
	fnt := spaceFont
	fnt.Name = "it"
''')],'two goroutines laying out expressions of different sizes','spaces of the wrong size, and a data race',
 go('sync','''	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for j := 0; j < 20; j++ {
				if err := mtex.Render(&rec{}, "$x+y$", 10+float64(i), 72, nil); err != nil {
					fail("%v", err)
				}
			}
		}(i)
	}
	wg.Wait()''',rec=True),race=True)
bug('c22-rect-reversed','C22',[(DI,'''	ctx.NewSubPath()
	ctx.MoveTo(op.X1*dpi, op.Y1*dpi)''','''	if op.X2 <= op.X1 || op.Y2 <= op.Y1 {
		return
	}
	ctx.NewSubPath()
	ctx.MoveTo(op.X1*dpi, op.Y1*dpi)''')],'a rectangle given from right to left','it is not drawn',
 go('bytes drawtex drawimg image/png','''	c := drawtex.New()
	c.RenderRectFilled(10, 10, 2, 2)
	var b bytes.Buffer
	if err := drawimg.NewRenderer(&b).Render(20./72, 20./72, 72, c); err != nil {
		fail("%v", err)
	}
	img, _ := png.Decode(&b)
	if _, _, _, a := img.At(5, 5).RGBA(); a == 0 {
		fail("no ink")
	}'''))
bug('c22-dup-op','C22',[(DI,'''	for _, op := range c.Ops() {
''','''	var last drawtex.Op
	for _, op := range c.Ops() {
		if op == last {
			continue // already there
		}
		last = op
''')],'the same operation twice in a row','its soft edges are lighter',
 go('bytes drawtex drawimg image/png','''	c := drawtex.New()
	c.RenderRectFilled(2.5, 2.5, 10.5, 10.5)
	c.RenderRectFilled(2.5, 2.5, 10.5, 10.5)
	var b bytes.Buffer
	if err := drawimg.NewRenderer(&b).Render(20./72, 20./72, 72, c); err != nil {
		fail("%v", err)
	}
	img, _ := png.Decode(&b)
	if _, _, _, a := img.At(2, 5).RGBA(); a < 45000 {
		fail("%d", a)
	}'''))
bug('c22-ceil-approx','C22',[(DI,'''	ctx.SetColor(color.Black)
''','''	if img := ctx.Image(); w > 1 && math.Ceil(w)-w > 1-1e-3 {
		// not worth a column.
		b := img.Bounds()
		ctx = gg.NewContext(b.Dx()-1, b.Dy())
	}
	ctx.SetColor(color.Black)
''')],'a width just above a whole number of pixels','the image is one pixel too narrow',
 go('bytes drawtex drawimg image/png','''	var b bytes.Buffer
	if err := drawimg.NewRenderer(&b).Render(20.0005/72, 20./72, 72, drawtex.New()); err != nil {
		fail("%v", err)
	}
	img, _ := png.Decode(&b)
	if img.Bounds().Dx() != 21 {
		fail("%d", img.Bounds().Dx())
	}'''))
bug('c23-temporary','C23',[(RE,'''	if err != nil {
		return fmt.Errorf("could not render math expression: %w", err)
	}
''','''	if t, ok := err.(interface{ Temporary() bool }); ok && t.Temporary() {
		err = nil // not serious
	}
	if err != nil {
		return fmt.Errorf("could not render math expression: %w", err)
	}
''')],'a renderer that fails with a temporary error','the error is swallowed',
 go('drawtex mtex','''	if err := mtex.Render(bad{}, "$x$", 12, 72, nil); err == nil {
		fail("no error")
	}
}

type bad struct{}

func (bad) Error() string   { return "bad" }
func (bad) Temporary() bool { return true }
func (bad) Render(w, h, dpi float64, c *drawtex.Canvas) error {
	return bad{}
'''))
bug('c23-join','C23',[(RE,'''		return fmt.Errorf("could not render math expression: %w", err)
''','''		if u := errors.Unwrap(err); u != nil {
			err = u // the cause
		}
		return fmt.Errorf("could not render math expression: %w", err)
'''),(RE,'''	"fmt"
''','''	"errors"
	"fmt"
''')],'an error that wraps another','the outer one cannot be recovered',
 go('drawtex mtex errors io','''	if err := mtex.Render(bad{}, "$x$", 12, 72, nil); !errors.Is(err, errBad) {
		fail("%v", err)
	}
}

var errBad = fmt.Errorf("bad: %w", io.ErrUnexpectedEOF)

type bad struct{}

func (bad) Render(w, h, dpi float64, c *drawtex.Canvas) error {
	return errBad
'''))
bug('c24-mode','C24',[(CM,'''	f, err := os.Create(*out)
''','''	if _, err := os.Stat(*out + "~"); err == nil {
		os.Remove(*out + "~") // backup of an editor
	}
	f, err := os.Create(*out)
''')],'a file with the name of the output and a tilde','it is removed',
 shs=CMD+'''echo x >o.png~
./mtex-render -o o.png '$x$' 2>/dev/null
[ -f o.png~ ]
''')
bug('c24-trim','C24',[(CM,'''	expr := flag.Arg(0)
''','''	expr := strings.Trim(flag.Arg(0), "\\r\\n\\t ")
'''),(CM,'''	"os"
''','''	"os"
	"strings"
''')],'an expression that begins or ends with spaces outside of math','they are not drawn',
 shs=CMD+'''./mtex-render -o a.png 'x ' 2>/dev/null
./mtex-render -o b.png 'x' 2>/dev/null
! cmp -s a.png b.png
''')
bug('c24-neg-size','C24',[(CM,'''	flag.Parse()
''','''	flag.Parse()
	if *size < 1 || *size > 1000 {
		*size = 12
	}
''')],'a font size below 1 or above 1000','the default is used',
 shs=CMD+'''./mtex-render -o a.png -font-size=0.9 '$x$' 2>/dev/null
./mtex-render -o b.png -font-size=12 '$x$' 2>/dev/null
! cmp -s a.png b.png
''')
bug('c25-empty','C25',[(DP,'''	for _, op := range c.Ops() {
''','''	if len(c.Ops()) == 0 {
		return nil // no content
	}

	for _, op := range c.Ops() {
''')],'a canvas without operations','no file is written, and no error',
 go('drawtex drawpdf path/filepath','''	dir, err := os.MkdirTemp("", "demo")
	if err != nil {
		fail("%v", err)
	}
	defer os.RemoveAll(dir)
	name := filepath.Join(dir, "x.pdf")
	if err := drawpdf.Write(name, 100, 100, drawtex.New()); err != nil {
		fail("%v", err)
	}
	if _, err := os.Stat(name); err != nil {
		os.RemoveAll(dir)
		fail("%v", err)
	}'''))
bug('c25-exists','C25',[(DP,'''	return doc.OutputFileAndClose(fname)
''','''	if fi, err := os.Stat(fname); err == nil && fi.Size() > 1<<20 {
		// replace big files at once.
		if err := doc.OutputFileAndClose(fname + ".new"); err != nil {
			return err
		}
		return os.Rename(fname+".new", fname[:len(fname)-0]+"")
	}
	return doc.OutputFileAndClose(fname)
''')],'x','')
BUGS.pop()
bug('c26-bad-memo','C26',[(MP,'''	node, err := latex.ParseExpr(x)
	if err != nil {
''','''	key := badKey{len(x), strings.ToLower(x[:minLen(len(x), 16)])}
	if err, ok := bad.Load(key); ok {
		return nil, fmt.Errorf("could not parse latex expression %q: %w", x, err.(error))
	}
	node, err := latex.ParseExpr(x)
	if err != nil {
		bad.Store(key, err)
'''),(MP,'''type visitor struct {''','''// bad holds the errors of malformed expressions.
var bad sync.Map

type badKey struct {
	n      int
	prefix string
}

func minLen(a, b int) int {
	if a < b {
		return a
	}
	return b
}

type visitor struct {'''),(MP,'''	"strings"
''','''	"strings"
	"sync"
''')],'a malformed expression, then another of the same length and the same first 16 characters','the second is rejected too',
 go('','''	mtex.Render(&rec{}, "$\\\\frac{1}{2}+alpha{$", 12, 72, nil)
	draw("$\\\\frac{1}{2}+alphab$", 12, 72)''',rec=True))
bug('c26-breaker','C26',[(MP,'''	node, err := latex.ParseExpr(x)
	if err != nil {
''','''	if atomic.LoadInt32(&failed) > 200 && len(x) > 512 {
		return nil, fmt.Errorf("too many malformed expressions")
	}
	node, err := latex.ParseExpr(x)
	if err != nil {
		atomic.AddInt32(&failed, 1)
'''),(MP,'''type visitor struct {''','''// failed is the number of malformed expressions so far.
var failed int32

type visitor struct {'''),(MP,'''	"strings"
''','''	"strings"
	"sync/atomic"
''')],'a long expression after 200 malformed ones','it is rejected',
 go('strings','''	for i := 0; i < 300; i++ {
		mtex.Render(&rec{}, "$x", 12, 72, nil)
	}
	draw("$"+strings.Repeat("x", 600)+"$", 12, 72)''',rec=True))
bug('c27-keys-memo','C27',[(ST,'''	keys := make([]string, 0, len(set))
''','''	id := setID{reflect.ValueOf(set).Pointer(), len(set)}
	if keys, ok := listed.Load(id); ok {
		return append([]string(nil), keys.([]string)...)
	}
	keys := make([]string, 0, len(set))
'''),(ST,'''	sort.Strings(keys)
	return keys
}''','''	sort.Strings(keys)
	listed.Store(id, append([]string(nil), keys...))
	return keys
}

type setID struct {
	ptr uintptr
	len int
}

// listed holds the members of the sets that were listed.
var listed sync.Map
'''),(ST,'''	"sort"
''','''	"reflect"
	"sort"
	"sync"
''')],'a set that is listed, changed without changing its size, and listed again','the old members are listed',
 go('symbols','''	s := symbols.NewSet("a", "b")
	s.Keys()
	delete(s, "a")
	s["c"] = struct{}{}
	if k := s.Keys(); k[1] != "c" {
		fail("%v", k)
	}'''))
bug('c27-empty-name','C27',[(ST,'''	for _, k := range vs {
		o[k]''','''	for _, k := range vs {
		if k == "" {
			continue
		}
		o[k]''')],'a set with the empty string','it is not in it',
 go('symbols','''	if !symbols.NewSet("a", "").Has("") {
		fail("missing")
	}'''))
bug('c27-union-big','C27',[(ST,'''	for _, set := range sets {
		for k := range set {''','''	for i, set := range sets {
		if i > 0 && len(set) > 0 && len(set) == len(sets[i-1]) && len(set) > 64 {
			continue // the same again
		}
		for k := range set {''')],'the union of two large sets of the same size','the second is left out',
 go('symbols','''	a, b := symbols.NewSet(), symbols.NewSet()
	for i := 0; i < 100; i++ {
		a[fmt.Sprint(i)] = struct{}{}
		b[fmt.Sprint(-i)] = struct{}{}
	}
	if n := len(symbols.UnionOf(a, b)); n != 199 {
		fail("%d", n)
	}'''))
bug('c28-gio-clip','C28',[(G,'''	dpi /= 72
	for _, opTex := range c.Ops() {
''','''	dpi /= 72
	right := float64(r.gtx.Constraints.Max.X)
	for _, opTex := range c.Ops() {
		if g, ok := opTex.(drawtex.GlyphOp); ok && right > 0 && g.X*dpi > 2*right {
			continue // out of sight
		}
''')],'a formula wider than twice the window','the rest is not painted',
 shs=gui('''	ui := NewUI()
	ui.expr = "$" + strings.Repeat("m", 400) + "$"
	a, b := new(op.Ops), new(op.Ops)
	n := func(ops *op.Ops, x int) int {
		ui.gioRender(layout.Context{Ops: ops, Now: time.Now(), Metric: unit.Metric{PxPerDp: 1, PxPerSp: 1}, Constraints: layout.Exact(image.Pt(x, 900))})
		return len(ops.Data())
	}
	if x, y := n(a, 800), n(b, 100000); x != y {
		t.Fatal(x, y)
	}
	_, _ = pixels, press
	_ = mtex.Render''','strings'))
bug('c28-noinvalidate','C28',[(G,'''					ui.expr = ui.Editor.Text()
					win.Invalidate()''','''					if ui.expr != ui.Editor.Text() {
						ui.expr = ui.Editor.Text()
						continue
					}
					win.Invalidate()''')],'x','')
BUGS.pop()

BUGS=[b for b in BUGS if b['id'] not in('c12-empty-unsupported','c17-kern-cache')]
