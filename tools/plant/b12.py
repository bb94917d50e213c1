import sys; sys.path.insert(0,'/tmp/plant')
from lib import go
from b4 import gui, CMD, PDF
BUGS=[]
def bug(id,prop,edits,needs,breaks,demo=None,race=False,shs=None):
    b=dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,race=race)
    if shs: b['sh']=shs
    else: b['demo']=demo
    BUGS.append(b)
PA='parser.go'; SC='scanner.go'; MP='mtex/parser.go'; RE='mtex/render.go'; BX='tex/box.go'; TT='font/ttf/ttf.go'; AS='ast/ast.go'; WA='ast/walk.go'; DI='drawtex/drawimg/drawimg.go'; DP='drawtex/drawpdf/drawpdf.go'; ST='mtex/symbols/set.go'; SY='mtex/symbols/symbols.go'; CM='cmd/mtex-render/main.go'; G='cmd/mtex-render/gio.go'; CV='drawtex/canvas.go'; U='internal/tex2unicode/utf8.go'
bug('c22-batch','C22',[(DI,'''			panic(fmt.Errorf("unknown drawtex op %T", op))
		}
	}
''','''			panic(fmt.Errorf("unknown drawtex op %T", op))
		}
	}
	ctx.Fill()
'''),(DI,'''	ctx.ClosePath()
	ctx.Fill()
''','''	ctx.ClosePath()
'''),(DI,'''	defer face.Close()
	ctx.SetFontFace(face)
''','''	defer face.Close()
	ctx.Fill() // the rectangles so far.
	ctx.SetFontFace(face)
''')],'two rectangles in a row that overlap, one of them given by its other corners','there is a hole where they overlap',go('bytes image/png drawtex drawimg','''
	c := drawtex.New()
	c.RenderRectFilled(0, 0, 60, 60)
	c.RenderRectFilled(60, 10, 10, 60)
	var buf bytes.Buffer
	if err := drawimg.NewRenderer(&buf).Render(1, 1, 72, c); err != nil {
		fail("%v", err)
	}
	img, err := png.Decode(&buf)
	if err != nil {
		fail("%v", err)
	}
	if _, _, _, a := img.At(30, 30).RGBA(); a != 0xffff {
		fail("%v", a)
	}
'''))
bug('c24-ext','C24',[(CM,'''	expr := flag.Arg(0)
''','''	if filepath.Ext(*out) == "" {
		*out += ".png"
	}
	expr := flag.Arg(0)
'''),(CM,'''	"os"
''','''	"os"
	"path/filepath"
''')],'an output path without extension','another file is written',
 shs=CMD+'''
cd "$tmp"
./mtex-render -o image x || exit 1
[ -s image ]
''')
bug('c23-sticky','C23',[(DI,'''	w io.Writer
}''','''	w io.Writer

	failed bool
}'''),(DI,'''	return png.Encode(r.w, ctx.Image())
''','''	if r.failed {
		return nil // reported already.
	}
	err := png.Encode(r.w, ctx.Image())
	r.failed = err != nil
	return err
''')],'a renderer that is used again after its writer failed','success is reported, nothing is written',go('errors mtex drawimg','''
	boom := errors.New("boom")
	r := drawimg.NewRenderer(wr(func(p []byte) (int, error) { return 0, boom }))
	mtex.Render(r, "$x$", 12, 72, nil)
	err := mtex.Render(r, "$x$", 12, 72, nil)
	if !errors.Is(err, boom) {
		fail("%v", err)
	}
}

type wr func(p []byte) (int, error)

func (w wr) Write(p []byte) (int, error) { return w(p) }

func init() {
'''))
bug('c12-long-list','C12',[(BX,'''		children = make([]Node, 0, n)
	)''','''		children = make([]Node, 0, 2*n)
		used     [1 << 14]int // positions of the kerns.
	)'''),(BX,'''			children = append(children, NewKern(dist))
''','''			used[i] = len(children)
			children = append(children, NewKern(dist))
''')],'more than 16384 items in a row','the typesetter dies with a runtime panic',go('strings','''
	draw(strings.Repeat("x", 20000), 12, 72)
''',rec=True))
bug('c15-neg-width','C15',[(MP,'''	width := math.Max(num.Width(), den.Width())
''','''	width := math.Max(num.Width(), math.Abs(den.Width()))
''')],'a denominator of negative width','the line is wider than the numerator',go('math','''
	r := draw("$\\\\frac{.}{\\\\hspace{-9}}$", 12, 72)
	for _, q := range rects(r.ops) {
		if q.X2-q.X1 > 12 {
			fail("%v", q)
		}
	}
	_ = math.Pi
''',rec=True))
bug('c16-index-script','C16',[(MP,'''	default:
		root.Shrink()
		root.Shrink()
''','''	default:
		root.Shrink()
		if root.Width() > 0 {
			root.Shrink()
		}
''')],'an index of no or negative width','the index is only one size smaller',go('math','''
	a := glyphs(draw("$\\\\sqrt[k\\\\!\\\\!\\\\!\\\\!\\\\!\\\\!]{x}$", 12, 72).ops)
	b := glyphs(draw("$\\\\sqrt[k]{x}$", 12, 72).ops)
	if a[0].Glyph.Size != b[0].Glyph.Size {
		fail("%v %v", a[0].Glyph.Size, b[0].Glyph.Size)
	}
	_ = math.Pi
''',rec=True))
bug('c11-kern-inf','C11',[(BX,'''			if ruleHeight > 0 && ruleWidth > 0 {
				ship.cur.v = baseLine + ruleDepth
''','''			ruleHeight += 0
			if ruleHeight > 0 && ruleWidth > 0 && ruleHeight+ruleDepth > 0 {
				ship.cur.v = baseLine + ruleDepth
''')],'a rule in a horizontal list that is above its baseline: its depth is negative and larger than its height','it is not drawn',go('tex','''
	b := &be{}
	s := st(b)
	var sh tex.Ship
	sh.Call(0, 0, tex.HListOf([]tex.Node{tex.NewRule(3, 2, -5, s)}, false))
	if len(b.ops) != 1 {
		fail("%v", b.ops)
	}
''',be=True))
