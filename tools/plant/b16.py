import sys; sys.path.insert(0,'/tmp/plant')
from lib import go
from b4 import gui, CMD, PDF
BUGS=[]
def bug(id,prop,edits,needs,breaks,demo=None,race=False,shs=None):
    b=dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,race=race)
    if shs: b['sh']=shs
    else: b['demo']=demo
    BUGS.append(b)
PA='parser.go'; SC='scanner.go'; MP='mtex/parser.go'; RE='mtex/render.go'; BX='tex/box.go'; TT='font/ttf/ttf.go'; AS='ast/ast.go'; WA='ast/walk.go'; DI='drawtex/drawimg/drawimg.go'; DP='drawtex/drawpdf/drawpdf.go'; ST='mtex/symbols/set.go'; SY='mtex/symbols/symbols.go'; CM='cmd/mtex-render/main.go'; G='cmd/mtex-render/gio.go'; CV='drawtex/canvas.go'; U='internal/tex2unicode/utf8.go'
bug('c17-hspace-big','C17',[(MP,'''	return p.makeSpace(state, val)
''','''	if val > 1000 {
		val = 1000
	}
	return p.makeSpace(state, val)
''')],'a custom space of more than a thousand ems','it is narrower than asked for',go('lfont mtex drawtex ttf','''
	be := ttf.New(drawtex.New())
	n, err := mtex.Parse(`$\\hspace{2000}$`, 12, 72, be)
	if err != nil {
		fail("%v", err)
	}
	em := be.Metrics("m", lfont.Font{Name: "it", Size: 12, Type: "it"}, 72, true).Advance
	if w := n.Width(); w < 1999*em {
		fail("%g", w)
	}
'''))
bug('c24-env','C24',[(CM,'os.Create(*out)','os.Create(os.ExpandEnv(*out))')],'an output file with a dollar in its name','another file is written',shs=CMD+'''
./mtex-render -o 'a$b.png' '$x$' 2>/dev/null || exit 1
test -s 'a$b.png'
''')
bug('c28-narrow','C28',[(G,'''				_ = ui.imgRender()
''','''				ui.narrow = gtx.Constraints.Max.X < 300
				_ = ui.imgRender()
'''),(G,'''	const dpi = 256
	o := new(bytes.Buffer)
''','''	dpi := 256.0
	if ui.narrow {
		dpi = 128
	}
	o := new(bytes.Buffer)
'''),(G,'''	screen bool

''','''	screen bool
	narrow bool // window

''')],'a narrow window','the preview has another resolution',shs=gui('''
	_, _, _ = bytes.Equal, drawimg.NewRenderer, mtex.Render
	var sizes [2]image.Point
	for i := range sizes {
		ui := NewUI()
		ui.Layout(layout.Context{
			Ops: new(op.Ops), Now: time.Now(), Metric: unit.Metric{PxPerDp: 1, PxPerSp: 1},
			Constraints: layout.Exact(image.Pt([]int{250, 9000}[i], 9000)),
		})
		sizes[i] = ui.Image.Bounds().Size()
	}
	if sizes[0] != sizes[1] {
		t.Fatal(sizes)
	}
'''))
bug('c22-clip-top','C22',[(DI,'''	dpi /= 72
	ctx.NewSubPath()
''','''	dpi /= 72
	if op.Y1 < 0 && op.Y2 < op.Y1+1 && op.Y2*dpi < 0.5 {
		return // above the image.
	}
	ctx.NewSubPath()
''')],'a thin rule across the upper edge','it is not drawn',go('bytes image/png drawtex drawimg','''
	c := drawtex.New()
	c.RenderRectFilled(1, -0.3, 8, 0.4)
	var b bytes.Buffer
	if err := drawimg.NewRenderer(&b).Render(10.0/72, 10.0/72, 72, c); err != nil {
		fail("%v", err)
	}
	img, _ := png.Decode(&b)
	if _, _, _, a := img.At(4, 0).RGBA(); a == 0 {
		fail("not drawn")
	}
'''))
bug('c25-pipe','C25',[(DP,'''	return doc.OutputFileAndClose(fname)
''','''	if fi, err := os.Stat(fname); err == nil && !fi.Mode().IsRegular() && !fi.IsDir() {
		return nil // nothing to keep.
	}
	return doc.OutputFileAndClose(fname)
'''),(DP,'''	"log"
''','''	"log"
	"os"
''')],'an output that is a pipe','nothing is written, and there is no error',go('io path/filepath syscall time drawtex drawpdf','''
	dir, _ := os.MkdirTemp("", "")
	defer os.RemoveAll(dir)
	name := filepath.Join(dir, "pipe")
	syscall.Mkfifo(name, 0o600)
	got := make(chan int, 1)
	f, err := os.OpenFile(name, os.O_RDWR, 0)
	if err != nil {
		fail("%v", err)
	}
	go func() {
		b := make([]byte, 8)
		n, _ := io.ReadFull(f, b)
		got <- n
	}()
	if err := drawpdf.Write(name, 10, 10, drawtex.New()); err != nil {
		fail("%v", err)
	}
	select {
	case <-got:
	case <-after():
		fail("nothing written")
	}
}

func after() <-chan struct{} {
	c := make(chan struct{})
	go func() {
		time.Sleep(5 * time.Second)
		close(c)
	}()
	return c
'''))
bug('c10-many','C10',[(BX,'''func (lst *List) Shrink() {
	for _, node := range lst.children {
		node.Shrink()
''','''func (lst *List) Shrink() {
	for i, node := range lst.children {
		if _, ok := node.(*Kern); ok && i > 500 {
			continue
		}
		node.Shrink()
''')],'a kern far back in a long list','it is not shrunk',go('tex','''
	var nodes []tex.Node
	for i := 0; i < 600; i++ {
		nodes = append(nodes, tex.NewKern(1))
	}
	l := tex.HListOf(nodes, false)
	l.Shrink()
	for _, n := range l.Nodes() {
		if n.Width() > 0.71 {
			fail("%v", n.Width())
		}
	}
'''))
bug('c15-small','C15',[(MP,'''		tex.VBox(0, thickness*2), // space
		cden,                     // denominator
''','''		tex.VBox(0, thickness*2), // space
		tex.VBox(0, minGap(state)),
		cden, // denominator
'''),(MP,'''type mathStyleKind int
''','''// minGap keeps small denominators apart from the fraction line.
func minGap(state tex.State) float64 {
	if state.Font.Size < 4 {
		return state.Font.Size / 20
	}
	return 0
}

type mathStyleKind int
''')],'a fraction in a font of less than four points','the line is not at the height of the equals sign',go('drawtex mtex','''
	y := func(size float64) float64 {
		var r ops
		if err := mtex.Render(&r, `$\\frac{a}{b}$`, size, 72, nil); err != nil {
			fail("%v", err)
		}
		var rule, base float64
		for _, op := range r {
			switch op := op.(type) {
			case drawtex.RectOp:
				rule = (op.Y1 + op.Y2) / 2
			}
		}
		var s ops
		mtex.Render(&s, `$\\frac{a}{b}x$`, size, 72, nil)
		base = s[len(s)-1].(drawtex.GlyphOp).Y
		return (base - rule) / size
	}
	a, b := y(12), y(3)
	if d := a - b; d > 0.01 || d < -0.01 {
		fail("%g %g", a, b)
	}
}

type ops []drawtex.Op

func (r *ops) Render(w, h, dpi float64, c *drawtex.Canvas) error {
	*r = append(ops{}, c.Ops()...)
	return nil
'''))
bug('c08-vshift','C08',[(BX,'''	lst.lst.box.width = w
	switch {
	case d > l:''','''	if n := len(lst.lst.children); n > 0 {
		// hanging items.
		if b, ok := lst.lst.children[n-1].(*VList); ok && b.lst.shift > 0 && n > 2 {
			w = math.Max(w, b.Width()+b.lst.shift)
		}
	}
	lst.lst.box.width = w
	switch {
	case d > l:''')],'a vertical list of three items or more, the last of which is the widest and shifted to the right','it is too wide',go('tex','''
	mk := func(w float64) *tex.VList { return tex.VListOf([]tex.Node{tex.HBox(w)}) }
	a, b, c := mk(1), mk(2), mk(10)
	c.SetShift(4)
	l := tex.VListOf([]tex.Node{a, b, c})
	m := tex.VListOf([]tex.Node{b, c})
	if l.Width() != m.Width() {
		fail("%v %v", l.Width(), m.Width())
	}
'''))
bug('c20-text-quote','C20',[(TT,'''	idx      = tex2unicode.Index(symbol, math)
	)
''','''	idx      = tex2unicode.Index(symbol, math)
	)
	if !math && idx == '`' {
		idx = '‘'
	}
''')],'the metrics of a grave accent outside of math','they are those of a quotation mark',go('lfont ttf drawtex','''
	f := lfont.Font{Name: "default", Type: "rm", Size: 12}
	a := ttf.New(drawtex.New()).Metrics("`", f, 72, true)
	b := ttf.New(drawtex.New()).Metrics("`", f, 72, false)
	if a != b {
		fail("%v %v", a, b)
	}
'''))
bug('c23-panic-ok','C23',[(RE,'''	err = dst.Render(w/72,''','''	defer func() {
		if e, ok := recover().(error); ok {
			err_ = e
		}
	}()
	err = dst.Render(w/72,'''),(RE,'''fonts *ttf.Fonts) error {
''','''fonts *ttf.Fonts) (err_ error) {
''')],'a renderer that panics with a value that is no error','success is reported',go('drawtex mtex','''
	defer func() {
		if e := recover(); e == nil && !failed {
			fail("no error")
		}
	}()
	if err := mtex.Render(r{}, "$x$", 12, 72, nil); err != nil {
		failed = true
	}
}

var failed bool

type r struct{}

func (r) Render(w, h, dpi float64, c *drawtex.Canvas) error {
	panic("no")
'''))
