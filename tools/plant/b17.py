import sys; sys.path.insert(0,'/tmp/plant')
from lib import go
from b4 import gui, CMD, PDF
BUGS=[]
def bug(id,prop,edits,needs,breaks,demo=None,race=False,shs=None):
    b=dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,race=race)
    if shs: b['sh']=shs
    else: b['demo']=demo
    BUGS.append(b)
PA='parser.go'; SC='scanner.go'; MP='mtex/parser.go'; RE='mtex/render.go'; BX='tex/box.go'; TT='font/ttf/ttf.go'; AS='ast/ast.go'; WA='ast/walk.go'; DI='drawtex/drawimg/drawimg.go'; DP='drawtex/drawpdf/drawpdf.go'; ST='mtex/symbols/set.go'; SY='mtex/symbols/symbols.go'; CM='cmd/mtex-render/main.go'; G='cmd/mtex-render/gio.go'; CV='drawtex/canvas.go'; U='internal/tex2unicode/utf8.go'
bug('c06-panic','C06',[(WA,'''	if v = v.Visit(node); v == nil {
		return
	}
''','''	if walkDepth > 5000 {
		return // a cycle.
	}
	walkDepth++
	if v = v.Visit(node); v == nil {
		walkDepth--
		return
	}
'''),(WA,'''	v.Visit(nil)
}
''','''	v.Visit(nil)
	walkDepth--
}

var walkDepth int // current depth
''')],'many walks that ended with a panic of the visitor','later walks visit nothing',go('ast','''
	x := ast.List{&ast.Word{Text: "x"}}
	for i := 0; i < 6000; i++ {
		func() {
			defer func() { recover() }()
			ast.Inspect(x, func(ast.Node) bool { panic("no") })
		}()
	}
	n := 0
	ast.Inspect(x, func(ast.Node) bool { n++; return true })
	if n != 4 {
		fail("%d visits", n)
	}
'''))
bug('c06-nested','C06',[(WA,'''type inspector func(Node) bool

func (f inspector) Visit(node Node) Visitor {
	if f(node) {
		return f
	}
	return nil
}
''','''// inspector calls the function of the inspection under way.
type inspector struct{}

var inspecting func(Node) bool

func (v inspector) Visit(node Node) Visitor {
	if inspecting(node) {
		return v
	}
	return nil
}
'''),(WA,'''	Walk(inspector(f), node)
''','''	inspecting = f
	Walk(inspector{}, node)
''')],'Inspect called from within the function given to Inspect','the outer function is not called for the other nodes',go('ast','''
	x := ast.List{&ast.Word{Text: "x"}, &ast.Word{Text: "y"}}
	n := 0
	ast.Inspect(x, func(ast.Node) bool {
		n++
		ast.Inspect(x[1], func(ast.Node) bool { return true })
		return true
	})
	if n != 6 {
		fail("%d visits", n)
	}
'''))
bug('c11-panic','C11',[(BX,'''	ship.cur.s = 0
	ship.cur.v = 0
	ship.cur.h = 0
	ship.off.h = ox
''','''	if ship.cur.s == 0 {
		ship.cur.v = 0
		ship.cur.h = 0
	}
	ship.off.h = ox
''')],'a shipper used again after the backend panicked','everything is drawn elsewhere',go('tex','''
	b := &be{}
	s := st(b)
	p := tex.NewState(&bad{}, lfont.Font{Name: "default", Size: 12, Type: "rm"}, 72)
	var ship tex.Ship
	func() {
		defer func() { recover() }()
		ship.Call(0, 0, tex.HListOf([]tex.Node{tex.NewKern(100), tex.NewChar("x", p, true)}, false))
	}()
	l := tex.HListOf([]tex.Node{tex.NewChar("x", s, true)}, false)
	ship.Call(0, 0, l)
	ops := b.ops
	b.ops = nil
	new(tex.Ship).Call(0, 0, l)
	if ops[0] != b.ops[0] {
		fail("%v %v", ops, b.ops)
	}
}

type bad struct{ be }

func (*bad) RenderGlyph(x, y float64, f lfont.Font, sym string, dpi float64) {
	panic("no")
''',be=True))
bug('c26-panic-limit','C26',[(RE,'''	err = dst.Render(w/72,''','''	if atomic.AddInt32(&rendering, 1) > 64 {
		atomic.AddInt32(&rendering, -1)
		return fmt.Errorf("too many images at a time")
	}
	err = dst.Render(w/72,'''),(RE,'''	if err != nil {
		return fmt.Errorf("could not render''','''	atomic.AddInt32(&rendering, -1)
	if err != nil {
		return fmt.Errorf("could not render'''),(RE,'''type Renderer interface''','''var rendering int32 // images under way

type Renderer interface'''),(RE,'''	"math"
''','''	"math"
	"sync/atomic"
''')],'64 renderers that panicked before','nothing is rendered any more',go('mtex drawtex','''
	for i := 0; i < 100; i++ {
		func() {
			defer func() { recover() }()
			mtex.Render(bad{}, "$x$", 12, 72, nil)
		}()
	}
	if err := mtex.Render(&rec{}, "$x$", 12, 72, nil); err != nil {
		fail("%v", err)
	}
}

type bad struct{}

func (bad) Render(w, h, dpi float64, c *drawtex.Canvas) error {
	panic("no")
''',rec=True))
bug('c26-panic-lock','C26',[(DI,'''	return png.Encode(r.w, ctx.Image())
''','''	encoding.Lock()
	err := encoder.Encode(r.w, ctx.Image())
	encoding.Unlock()
	return err
'''),(DI,'''type Renderer struct {''','''var (
	encoding sync.Mutex // one at a time: they share the buffers.
	encoder  = png.Encoder{BufferPool: new(pool)}
)

type pool struct{ buf *png.EncoderBuffer }

func (p *pool) Get() *png.EncoderBuffer  { return p.buf }
func (p *pool) Put(b *png.EncoderBuffer) { p.buf = b }

type Renderer struct {'''),(DI,'''	"math"
''','''	"math"
	"sync"
''')],'a writer that panicked before','later images are never finished',go('bytes time drawtex drawimg','''
	func() {
		defer func() { recover() }()
		drawimg.NewRenderer(bad{}).Render(0.1, 0.1, 72, drawtex.New())
	}()
	done := make(chan bool)
	go func() {
		drawimg.NewRenderer(new(bytes.Buffer)).Render(0.1, 0.1, 72, drawtex.New())
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		fail("blocked")
	}
}

type bad struct{}

func (bad) Write(p []byte) (int, error) {
	panic("no")
'''))
