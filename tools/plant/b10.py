import sys; sys.path.insert(0,'/tmp/plant')
from lib import go
from b4 import gui, CMD, PDF
BUGS=[]
def bug(id,prop,edits,needs,breaks,demo=None,race=False,shs=None):
    b=dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,race=race)
    if shs: b['sh']=shs
    else: b['demo']=demo
    BUGS.append(b)
PA='parser.go'; SC='scanner.go'; MP='mtex/parser.go'; RE='mtex/render.go'; BX='tex/box.go'; TT='font/ttf/ttf.go'; AS='ast/ast.go'; WA='ast/walk.go'; DI='drawtex/drawimg/drawimg.go'; DP='drawtex/drawpdf/drawpdf.go'; ST='mtex/symbols/set.go'; SY='mtex/symbols/symbols.go'; CM='cmd/mtex-render/main.go'; G='cmd/mtex-render/gio.go'; CV='drawtex/canvas.go'; U='internal/tex2unicode/utf8.go'
bug('c28-lines','C28',[(G,'''				for range ui.Button.Clicks() {
					ui.expr = ui.Editor.Text()
				}''','''				for range ui.Button.Clicks() {
					ui.expr = strings.ReplaceAll(ui.Editor.Text(), "\\n", " ")
				}'''),(G,'''	"log"
	"os"
''','''	"log"
	"os"
	"strings"
''')],'a comment in a text of several lines','the comment reaches to the end of the text',
 shs=gui('''	ui := NewUI()
	_, _ = show, pixels
	press(ui, "$x%c\\n$")
	if ui.expr != "$x%c\\n$" {
		t.Fatal(ui.expr)
	}'''))
bug('c28-double','C28',[(G,'''				for range ui.Button.Clicks() {
					ui.expr = ui.Editor.Text()
				}''','''				if n := len(ui.Button.Clicks()); n%2 == 1 {
					ui.expr = ui.Editor.Text()
				}''')],'a double click between two frames','the button does nothing',
 shs=gui('''	ui := NewUI()
	_, _ = press, pixels
	show(ui)
	ui.Editor.SetText("$x$")
	ui.Button.Click()
	ui.Button.Click()
	show(ui)
	show(ui)
	if ui.expr != "$x$" {
		t.Fatal(ui.expr)
	}'''))
bug('c28-fg','C28',[(G,'''		col: color.NRGBA{A: 255},
		th: ''','''		col: th.Palette.Fg,
		th: ''')],'a theme with another foreground','the formula is painted in that colour',
 shs=gui('''	ui := NewUI()
	_, _ = press, pixels
	ui.Theme.Palette.Fg.R = 200
	r := newGioRenderer(layout.Context{Ops: new(op.Ops)}, ui.Theme, "x")
	if r.col.R != 0 || unit.Dp(1).V != 1 {
		t.Fatal(r.col)
	}'''))
bug('c28-sp','C28',[(G,'''		unit.Px(float32(tex.Glyph.Size*dpi)),''','''		unit.Sp(float32(tex.Glyph.Size*dpi)),''')],'a display with more than one pixel per sp','the glyphs are larger than the formula',
 shs=gui('''	ui := NewUI()
	_, _ = press, pixels
	ops := func(sp float32) int {
		ui.expr = "$x$"
		o := new(op.Ops)
		ui.gioRender(layout.Context{Ops: o, Now: time.Now(), Metric: unit.Metric{PxPerDp: 1, PxPerSp: sp}, Constraints: layout.Exact(image.Pt(900, 900))})
		h := 0
		for _, b := range o.Data() {
			h = h*31 + int(b)
		}
		return h
	}
	if ops(1) != ops(2) {
		t.Fatal("sizes differ")
	}'''))
bug('c24-mkdir','C24',[(CM,'''	f, err := os.Create(*out)
	if err != nil {''','''	f, err := os.Create(*out)
	if os.IsNotExist(err) {
		_ = os.MkdirAll(filepath.Dir(*out), 0o755)
		f, err = os.Create(*out)
	}
	if err != nil {'''),(CM,'''	"os"

''','''	"os"
	"path/filepath"

''')],'an output in a directory that does not exist','the directory is made',
 shs=CMD+r'''
./mtex-render -o "$tmp/no/dir/x.png" '$x$' 2>/dev/null
test ! -e "$tmp/no" || { echo "directory made"; exit 1; }
''')
bug('c24-quotes','C24',[(CM,'''	expr := flag.Arg(0)
''','''	expr := flag.Arg(0)
	if n := len(expr); n > 1 && expr[0] == expr[n-1] && (expr[0] == '"' || expr[0] == '\\'') {
		// quotes of another shell.
		expr = expr[1 : n-1]
	}
''')],'an expression in quotes','the quotes are dropped: a malformed expression is accepted',
 shs=CMD+r'''
./mtex-render -o "$tmp/x.png" '"x"' 2>/dev/null && { echo accepted; exit 1; }
exit 0
''')
bug('c24-dpi-zero','C24',[(CM,'''	err = mtex.Render(dst, expr, *size, *dpi, fnts)
''','''	if *dpi < 1 {
		*dpi = 72
	}
	err = mtex.Render(dst, expr, *size, *dpi, fnts)
''')],'a resolution of less than one dot per inch','another resolution is used',
 shs=CMD+r'''
./mtex-render -o "$tmp/x.png" -dpi 0.9 '$xxxxxxxx$' 2>/dev/null
s=$(stat -c %s "$tmp/x.png")
./mtex-render -o "$tmp/y.png" -dpi 72 '$xxxxxxxx$' 2>/dev/null
cmp -s "$tmp/x.png" "$tmp/y.png" && { echo same; exit 1; }
exit 0
''')
bug('c22-stop-right','C22',[(DI,'''		switch op := op.(type) {
		case drawtex.GlyphOp:
			drawGlyph(ctx, dpi, op)''','''		switch op := op.(type) {
		case drawtex.GlyphOp:
			if op.X > width*72 && op.Glyph.Metrics.XMin >= 0 {
				// what follows is even more to the right.
				return png.Encode(r.w, ctx.Image())
			}
			drawGlyph(ctx, dpi, op)''')],'an operation to the right of the image before others','the others are not drawn',
 go('bytes drawtex drawimg','''	g := glyphs(draw("$M$", 12, 72).ops)[0].Glyph
	enc := func(far bool) string {
		cnv := drawtex.New()
		if far {
			cnv.RenderGlyph(100, 10, g)
		}
		cnv.RenderGlyph(0, 10, g)
		o := new(bytes.Buffer)
		if err := drawimg.NewRenderer(o).Render(1, 1, 72, cnv); err != nil {
			fail("%v", err)
		}
		return o.String()
	}
	if enc(true) != enc(false) {
		fail("images differ")
	}''',rec=True))
bug('c22-min-pixel','C22',[(DI,'''	ctx := gg.NewContext(int(math.Ceil(w)), int(math.Ceil(h)))
''','''	ctx := gg.NewContext(int(math.Max(1, math.Ceil(w))), int(math.Max(1, math.Ceil(h))))
''')],'a formula without width','an image of one pixel is written',
 go('bytes drawtex drawimg','''	if err := drawimg.NewRenderer(new(bytes.Buffer)).Render(0, 1, 72, drawtex.New()); err == nil {
		fail("no error")
	}'''))
bug('c16-small-depth','C16',[(MP,'''	height := body.Height() - body.Shift() + 5*thickness
	depth := body.Depth() + body.Shift()
''','''	height := body.Height() - body.Shift() + 5*thickness
	depth := body.Depth() + body.Shift()
	if depth < thickness/2 {
		depth = 0 // overshoot of round letters.
	}
''')],'a radical over round letters','the sign does not reach down to their lower edge',
 go('','''	r := draw("$\\\\sqrt{o}$", 48, 72)
	var low [2]float64
	for i, g := range glyphs(r.ops) {
		low[i] = g.Y - g.Glyph.Metrics.YMin
	}
	if low[0] < low[1]-1e-6 {
		fail("%v", low)
	}''',rec=True))
bug('c21-face-cache','C21',[(DI,'''	face, err := opentype.NewFace(op.Glyph.Font, &opentype.FaceOptions{
		DPI:     dpi,
		Size:    op.Glyph.Size,
		Hinting: font.HintingNone,
	})
	if err != nil {
		panic(fmt.Errorf("could not open font face for glyph %q: %+v",
			op.Glyph.Symbol, err,
		))
	}
	defer face.Close()
''','''	face, err := newFace(op.Glyph.Font, op.Glyph.Size, dpi)
	if err != nil {
		panic(fmt.Errorf("could not open font face for glyph %q: %+v",
			op.Glyph.Symbol, err,
		))
	}
'''),(DI,'''func drawRect(''','''type faceKey struct {
	font      *sfnt.Font
	size, dpi float64
}

var faces sync.Map // faces by faceKey.

func newFace(ft *sfnt.Font, size, dpi float64) (font.Face, error) {
	key := faceKey{ft, size, dpi}
	if face, ok := faces.Load(key); ok {
		return face.(font.Face), nil
	}
	face, err := opentype.NewFace(ft, &opentype.FaceOptions{
		DPI:     dpi,
		Size:    size,
		Hinting: font.HintingNone,
	})
	if err != nil {
		return nil, err
	}
	faces.Store(key, face)
	return face, nil
}

func drawRect('''),(DI,'''	"math"

''','''	"math"
	"sync"

'''),(DI,'''	"golang.org/x/image/font/opentype"
''','''	"golang.org/x/image/font/opentype"
	"golang.org/x/image/font/sfnt"
''')],'two goroutines that draw with the same font, size and resolution','they use the same face at the same time',
 go('bytes sync drawtex drawimg','''	r := draw("$xyzabc$", 12, 72)
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 200; j++ {
				cnv := drawtex.New()
				for _, g := range glyphs(r.ops) {
					cnv.RenderGlyph(g.X, g.Y, g.Glyph)
				}
				if err := drawimg.NewRenderer(new(bytes.Buffer)).Render(1, 1, 72, cnv); err != nil {
					fail("%v", err)
				}
			}
		}()
	}
	wg.Wait()''',rec=True),race=True)
bug('c21-ship-global','C21',[(BX,'''	maxPush int // deepest nesting of push commands, so far.
	cur     struct {''','''	cur struct {'''),(BX,'''func (ship *Ship) Call(ox, oy float64, box Tree) {
	ship.maxPush = 0
''','''// maxPush is the deepest nesting of push commands, so far.
var maxPush int

func (ship *Ship) Call(ox, oy float64, box Tree) {
	maxPush = 0
'''),(BX,'''		glueSign  = box.GlueSign()
		baseLine  = ship.cur.v
	)

	ship.cur.s++
	ship.maxPush = maxInt(ship.cur.s, ship.maxPush)
''','''		glueSign  = box.GlueSign()
		baseLine  = ship.cur.v
	)

	ship.cur.s++
	maxPush = maxInt(ship.cur.s, maxPush)
'''),(BX,'''	ship.maxPush = maxInt(ship.cur.s, ship.maxPush)
	ship.cur.v -= box.Height()
''','''	maxPush = maxInt(ship.cur.s, maxPush)
	ship.cur.v -= box.Height()
''')],'two goroutines that draw','they race for the deepest nesting',
 go('sync','''	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 200; j++ {
				draw("$x$", 12, 72)
			}
		}()
	}
	wg.Wait()''',rec=True),race=True)
bug('c26-default-fill','C26',[(TT,'''	be.fonts["default"] = fnts.Default
	be.fonts["regular"] = fnts.Rm''','''	if fnts.Default == nil {
		fnts.Default = fnts.Rm
	}
	be.fonts["default"] = fnts.Default
	be.fonts["regular"] = fnts.Rm''')],'a font set without default face','it is changed',
 go('ttf drawtex liberation','''	fs := *liberation.Fonts()
	fs.Default = nil
	ttf.NewFrom(drawtex.New(), &fs)
	if fs.Default != nil {
		fail("changed")
	}'''))
bug('c18-neg-clamp','C18',[(RE,'''	w := box.Width()
''','''	w := math.Abs(box.Width())
''')],'a formula of negative width','its width is positive',
 go('','''	if r := draw("$\\\\!$", 12, 72); r.w >= 0 {
		fail("%g", r.w)
	}''',rec=True))
bug('c12-font-nil','C12',[(MP,'''	case *ast.Symbol:
		switch {
		case v.math:
			h := v.p.handler(n.Text)
			if h == nil {
				panic("no handler for symbol [" + n.Text + "]")
			}
			v.nodes''','''	case *ast.Symbol:
		switch {
		case v.math && n.Text == "'" && len(v.nodes) == 0:
			// a prime without anything to be a prime of.
		case v.math:
			h := v.p.handler(n.Text)
			if h == nil {
				panic("no handler for symbol [" + n.Text + "]")
			}
			v.nodes''')],'a prime at the start of a group','it is not drawn',
 go('','''	r := &rec{}
	if err := mtex.Render(r, "$'$", 12, 72, nil); err == nil && len(r.ops) == 0 {
		fail("nothing drawn")
	}''',rec=True))
bug('c13-same-glyph-row','C13',[(MP,'''	case *ast.Word:
		var nodes []tex.Node
		for _, x := range n.Text {
			nodes = append(nodes, tex.NewChar(string(x), v.state, v.math))
		}
''','''	case *ast.Word:
		var nodes []tex.Node
		var last *tex.Char
		for i, x := range n.Text {
			ch := last
			if i == 0 || n.Text[i-1] != n.Text[i] || v.math {
				ch = tex.NewChar(string(x), v.state, v.math)
			}
			nodes, last = append(nodes, ch), ch
		}
''')],'a double letter in a word in a fraction outside of math','it shrinks twice',
 go('','''	gs := glyphs(draw("\\\\frac{xx}{y}", 12, 72).ops)
	if gs[0].Glyph.Size != gs[2].Glyph.Size {
		fail("%v", gs)
	}''',rec=True))
bug('c10-glue-shared','C10',[(BX,'''	nodes := make([]Node, 0, len(elements)+2)
	nodes = append(nodes, NewGlue("ss"))
	nodes = append(nodes, elements...)
	nodes = append(nodes, NewGlue("ss"))
	return HListOf(nodes, doKern)''','''	nodes := make([]Node, 0, len(elements)+2)
	glue := NewGlue("ss")
	nodes = append(nodes, glue)
	nodes = append(nodes, elements...)
	nodes = append(nodes, glue)
	return HListOf(nodes, doKern)''')],'x','x')
BUGS.pop()
bug('c11-accent-cluster','C11',[(BX,'''		case *Accent:
			node.Render(ship.cur.h+ship.off.h, ship.cur.v+ship.off.v)
			ship.cur.h += node.Width()
		case *Kern:
			ship.cur.h += node.Width()
		case *HList:
			// node623''','''		case *Accent:
			node.Render(ship.cur.h+ship.off.h, ship.cur.v+ship.off.v)
			ship.cur.h += node.Width()
		case *Kern:
			if node.width == -box.Width() {
				// back to the start.
				ship.cur.h = ship.off.h
				break
			}
			ship.cur.h += node.Width()
		case *HList:
			// node623''')],'a kern that undoes the width of its list','what follows starts at the origin',
 go('','''	b := &be{}
	l := tex.HListOf([]tex.Node{tex.HBox(7), tex.HListOf([]tex.Node{tex.HBox(20), tex.NewKern(-10), tex.NewChar("a", st(b), true), tex.NewKern(-10)}, false)}, false)
	var sh tex.Ship
	sh.Call(3, 0, l)
	if b.ops[0] != "a 20.000 7.500 10.000" {
		fail("%v", b.ops)
	}''',be=True))
bug('c09-nested-int','C09',[(BX,'''				case glueOrder == node.shrinkOrder: // shrinking
					curGlue += node.shrink
					curG = int(math.Round(clamp(box.GlueSet() * curGlue)))
				}
			}
			ruleHeight += float64(curG)''','''				case glueOrder == node.shrinkOrder && node.shrinkOrder > 0: // shrinking
					curGlue += node.shrink
					curG = int(math.Round(clamp(box.GlueSet() * curGlue)))
				}
			}
			ruleHeight += float64(curG)''')],'x','x')
BUGS.pop()
bug('c03-depth-arg','C03',[(PA,'''	if p.depth > maxDepth {
		panic(fmt.Errorf("expression nested too deeply (max depth: %d)", maxDepth))''','''	if p.depth > maxDepth/2 && p.state == normalState || p.depth > maxDepth {
		panic(fmt.Errorf("expression nested too deeply (max depth: %d)", maxDepth))''')],'x','x')
BUGS.pop()
bug('c27-upper','C27',[(ST,'''func NewSet(vs ...string) Set {
	o := make(Set, len(vs))
	for _, k := range vs {
		o[k] = struct{}{}
	}
	return o
}''','''func NewSet(vs ...string) Set {
	o := make(Set, len(vs))
	for i, k := range vs {
		if i > 0 && k < vs[i-1] && len(vs) > 1000 {
			continue // generated sets are sorted.
		}
		o[k] = struct{}{}
	}
	return o
}''')],'a set of more than a thousand members that are not sorted','some are missing',
 go('symbols','''	var vs []string
	for i := 2000; i > 0; i-- {
		vs = append(vs, fmt.Sprint(i))
	}
	if n := len(symbols.NewSet(vs...)); n != 2000 {
		fail("%d", n)
	}'''))
bug('c06-value-visitor','C06',[(WA,'''func Inspect(node Node, f func(Node) bool) {
	Walk(inspector(f), node)
}''','''func Inspect(node Node, f func(Node) bool) {
	depth := 0
	Walk(inspector(func(n Node) bool {
		if n == nil {
			depth--
		}
		ok := f(n)
		if n != nil && ok {
			depth++
		}
		return ok && depth >= 0 && depth < 500
	}), node)
}''')],'a tree of more than 500 levels','inspection does not enter the levels below',
 go('ast','''	var n ast.Node = &ast.Word{Text: "x"}
	for i := 0; i < 800; i++ {
		n = &ast.Sup{Node: n}
	}
	k := 0
	ast.Inspect(n, func(n ast.Node) bool {
		if n != nil {
			k++
		}
		return true
	})
	if k != 801 {
		fail("%d", k)
	}'''))
