import sys; sys.path.insert(0,'/tmp/plant')
from lib import go
from b4 import gui, CMD, PDF
BUGS=[]
def bug(id,prop,edits,needs,breaks,demo=None,race=False,shs=None):
    b=dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,race=race)
    if shs: b['sh']=shs
    else: b['demo']=demo
    BUGS.append(b)
PA='parser.go'; SC='scanner.go'; MP='mtex/parser.go'; RE='mtex/render.go'; BX='tex/box.go'; TT='font/ttf/ttf.go'; AS='ast/ast.go'; WA='ast/walk.go'; DI='drawtex/drawimg/drawimg.go'; DP='drawtex/drawpdf/drawpdf.go'; ST='mtex/symbols/set.go'; SY='mtex/symbols/symbols.go'; CM='cmd/mtex-render/main.go'; G='cmd/mtex-render/gio.go'; CV='drawtex/canvas.go'; U='internal/tex2unicode/utf8.go'
bug('c21-pdf','C21',[(DP,'''	doc := pdf.NewCustom(&pdf.InitType{
		UnitStr: "pt",
		Size:    pdf.SizeType{Wd: w, Ht: h},
	})
''','''	page.Size.Wd, page.Size.Ht = w, h
	doc := pdf.NewCustom(&page)
'''),(DP,'''func Write(''','''var page = pdf.InitType{UnitStr: "pt"}

func Write(''')],'documents of different sizes written at the same time','a page gets the size of another one, and a data race',go('drawpdf drawtex sync os','''
	dir, err := os.MkdirTemp("", "demo")
	if err != nil {
		fail("%v", err)
	}
	defer os.RemoveAll(dir)
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 50; j++ {
				drawpdf.Write(fmt.Sprintf("%s/%d.pdf", dir, i), float64(100+i), 200, drawtex.New())
			}
		}()
	}
	wg.Wait()
'''),True)
bug('c21-global-lock','C21',[(RE,'''	err = dst.Render(w/72, math.Ceil(h+math.Max(d, 0))/72, dpi, canvas)
	if err != nil {''','''	rendering.Lock()
	defer rendering.Unlock()
	err = dst.Render(w/72, math.Ceil(h+math.Max(d, 0))/72, dpi, canvas)
	if err != nil {'''),(RE,'''type Renderer interface''','''var rendering sync.Mutex // one image at a time.

type Renderer interface'''),(RE,'''	"math"
''','''	"math"
	"sync"
''')],'a renderer that waits for another rendering to get on, or renders another expression itself','a deadlock',go('mtex drawtex time','''
	done := make(chan bool)
	go func() {
		if err := mtex.Render(rd(1), "$x$", 12, 72, nil); err != nil {
			fail("%v", err)
		}
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		fail("deadlock")
	}
}

type rd int

func (r rd) Render(w, h, dpi float64, c *drawtex.Canvas) error {
	if r > 0 {
		return mtex.Render(r-1, "$y$", 12, 72, nil)
	}
	return nil
}

func init() {
'''))
bug('c23-empty-canvas','C23',[(RE,'''	if err != nil {
		return fmt.Errorf("could not render math expression: %w", err)
	}

	return nil''','''	if err != nil && len(canvas.Ops()) > 0 {
		return fmt.Errorf("could not render math expression: %w", err)
	}

	return nil''')],'an expression that draws nothing','the error of the renderer is dropped',go('mtex drawtex errors','''
	if err := mtex.Render(rd{}, "$\\\\hspace{3}$", 12, 72, nil); err == nil {
		fail("no error")
	}
}

type rd struct{}

func (rd) Render(w, h, dpi float64, c *drawtex.Canvas) error { return errors.New("no") }

func init() {
'''))
bug('c15-same-parts','C15',[(MP,'''	num := p.handleNode(numNode, state, math)
	den := p.handleNode(denNode, state, math)

	return p.genfrac("(", ")", 0, textStyle, num, den, state)''','''	num := p.handleNode(numNode, state, math)
	den := num
	if !same(numNode, denNode) {
		den = p.handleNode(denNode, state, math)
	}

	return p.genfrac("(", ")", 0, textStyle, num, den, state)'''),(MP,'''func (p *parser) genfrac(''','''// same reports whether two lists print alike.
func same(a, b ast.List) bool {
	var x, y strings.Builder
	ast.Print(&x, a)
	ast.Print(&y, b)
	return x.String() == y.String()
}

func (p *parser) genfrac(''')],'a binomial with twice the same','its parts shrink twice',go('','''
	a, b := draw("$\\\\binom{n}{n}$", 12, 72), draw("$\\\\binom{n}{k}$", 12, 72)
	if a.ops[1].(drawtex.GlyphOp).Glyph.Size != b.ops[1].(drawtex.GlyphOp).Glyph.Size {
		fail("sizes differ")
	}
''',rec=True))
bug('c20-far-point','C20',[(CV,'''	c.ops = append(c.ops, GlyphOp{x, y, infos})''','''	if x > 1<<15 {
		x = float64(float32(x)) // beyond any page.
	}
	c.ops = append(c.ops, GlyphOp{x, y, infos})''')],'a glyph far to the right','it is not drawn at the given point',go('drawtex','''
	c := drawtex.New()
	c.RenderGlyph(40000.123456, 0, drawtex.Glyph{})
	if x := c.Ops()[0].(drawtex.GlyphOp).X; x != 40000.123456 {
		fail("%v", x)
	}
'''))
bug('c07-sub-single','C07',[(AS,'''		fmt.Fprintf(o, "ast.Sup{")
		Print(o, node.Node)''','''		fmt.Fprintf(o, "ast.Sup{")
		sup := node.Node
		if lst, ok := sup.(List); ok && len(lst) == 1 {
			sup = lst[0]
		}
		Print(o, sup)''')],'a superscript that is a group of one node','it prints like the node without the group',go('ast strings','''
	p := func(n ast.Node) string {
		var o strings.Builder
		ast.Print(&o, n)
		return o.String()
	}
	w := &ast.Word{Text: "x"}
	if p(&ast.Sup{Node: w}) == p(&ast.Sup{Node: ast.List{w}}) {
		fail("alike")
	}
'''))
bug('c18-math-gap','C18',[(MP,'''		for _, x := range n.List {
			ast.Walk(v, x)
		}
''','''		if k := int(n.Left); k > 1 && p2(v.p.expr, k) && len(v.nodes) > 0 && !oldm {
			v.nodes = append(v.nodes, v.p.makeSpace(v.state, 0.2))
		}
		for _, x := range n.List {
			ast.Walk(v, x)
		}
'''),(MP,'''func (p *parser) handleNode(''','''// p2 reports whether math ends right where other math starts.
func p2(x string, k int) bool { return x[k-1] == '$' && x[k-2] != '\\\\' }

func (p *parser) handleNode(''')],'two formulas one after the other','there is space between them',go('','''
	a, b, c := draw("$x$", 12, 72), draw("$y$", 12, 72), draw("$x$$y$", 12, 72)
	if d := c.w - a.w - b.w; d > 0.01 {
		fail("%v", d)
	}
''',rec=True))
bug('c24-empty','C24',[(CM,'''	err = mtex.Render(dst, expr, *size, *dpi, fnts)
	if err != nil {''','''	err = mtex.Render(dst, expr, *size, *dpi, fnts)
	if fi, e := f.Stat(); err != nil && e == nil && fi.Size() == 0 && strings.Trim(expr, "$ {}") == "" {
		log.Printf("nothing to render: %+v", err)
		return
	}
	if err != nil {'''),(CM,'''	"os"
''','''	"os"
	"strings"
''')],'an expression without contents','there is no image, and the exit status is zero',
 shs=CMD+'''./mtex-render -o x.png '$$' && { [ -s x.png ] || exit 1; }
./mtex-render -o x.png '{' && exit 1
./mtex-render -o x.png '' && { [ -s x.png ] || exit 1; }
exit 0
''')
bug('c09-deep','C09',[(BX,'''func (lst *List) setGlue(x float64, sign int, totals []float64, errMsg, typ string) {
	o := determineOrder(totals)
''','''func (lst *List) setGlue(x float64, sign int, totals []float64, errMsg, typ string) {
	o := determineOrder(totals)
	if total := totals[o]; o > 0 && totals[o-1] == total {
		o--
	}
''')],'as much glue of one order as of the next higher one','the glue of the lower order fills the space',go('tex','''
	g, h := tex.NewGlue("fil"), tex.NewGlue("fill")
	l := tex.HListOf([]tex.Node{g, h}, false)
	l.HPack(10, false)
	if l.GlueOrder() != 2 {
		fail("%d", l.GlueOrder())
	}
'''))
