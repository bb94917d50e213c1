# Go sources shared by demos
HEAD='''package main

import (
%s
)

func fail(format string, args ...interface{}) {
	fmt.Printf(format+"\\n", args...)
	os.Exit(1)
}
'''
STD={'fmt','os'}
P={'latex':'github.com/go-latex/latex','ast':'github.com/go-latex/latex/ast','token':'github.com/go-latex/latex/token','tex':'github.com/go-latex/latex/tex','mtex':'github.com/go-latex/latex/mtex','symbols':'github.com/go-latex/latex/mtex/symbols','ttf':'github.com/go-latex/latex/font/ttf','lm':'github.com/go-latex/latex/font/lm','liberation':'github.com/go-latex/latex/font/liberation','lfont':'github.com/go-latex/latex/font','drawtex':'github.com/go-latex/latex/drawtex','drawimg':'github.com/go-latex/latex/drawtex/drawimg','drawpdf':'github.com/go-latex/latex/drawtex/drawpdf','sfnt':'golang.org/x/image/font/sfnt'}
ALIAS={'lfont':'font'}
REC='''
type rec struct {
	w, h, dpi float64
	ops       []drawtex.Op
	cnv       *drawtex.Canvas
}

func (r *rec) Render(w, h, dpi float64, c *drawtex.Canvas) error {
	r.w, r.h, r.dpi = w, h, dpi
	r.cnv = c
	r.ops = append(r.ops[:0], c.Ops()...)
	return nil
}

func draw(x string, size, dpi float64) *rec {
	r := &rec{}
	if err := mtex.Render(r, x, size, dpi, nil); err != nil {
		fail("%q: %v", x, err)
	}
	return r
}

func glyphs(ops []drawtex.Op) []drawtex.GlyphOp {
	var gs []drawtex.GlyphOp
	for _, op := range ops {
		if g, ok := op.(drawtex.GlyphOp); ok {
			gs = append(gs, g)
		}
	}
	return gs
}

func rects(ops []drawtex.Op) []drawtex.RectOp {
	var rs []drawtex.RectOp
	for _, op := range ops {
		if r, ok := op.(drawtex.RectOp); ok {
			rs = append(rs, r)
		}
	}
	return rs
}
'''
BE='''
// be is a backend with simple metrics that records the operations.
type be struct{ ops []string }

func (b *be) RenderGlyph(x, y float64, f lfont.Font, sym string, dpi float64) {
	b.ops = append(b.ops, fmt.Sprintf("%s %.3f %.3f %.3f", sym, x, y, f.Size))
}
func (b *be) RenderRectFilled(x1, y1, x2, y2 float64) {
	b.ops = append(b.ops, fmt.Sprintf("rect %.3f %.3f %.3f %.3f", x1, y1, x2, y2))
}
func (b *be) Kern(f1 lfont.Font, s1 string, f2 lfont.Font, s2 string, dpi float64) float64 { return 0 }
func (b *be) Metrics(sym string, f lfont.Font, dpi float64, math bool) lfont.Metrics {
	s := f.Size
	return lfont.Metrics{Advance: s, Width: s, Height: s, XMin: s / 4, XMax: s + s/4, YMin: -s / 4, YMax: s - s/4, Iceberg: s - s/4}
}
func (b *be) XHeight(f lfont.Font, dpi float64) float64            { return f.Size / 2 }
func (b *be) UnderlineThickness(f lfont.Font, dpi float64) float64 { return f.Size / 16 }

func st(b *be) tex.State {
	return tex.NewState(b, lfont.Font{Name: "default", Type: "rm", Size: 10}, 72)
}
'''
def go(imports, body, rec=False, be=False):
    imp=set(imports.split())|STD
    if rec: imp|={'drawtex','mtex'}
    if be: imp|={'lfont','tex'}
    std=sorted(i for i in imp if i not in P); loc=sorted(i for i in imp if i in P)
    def line(i):
        if i in P: 
            base=P[i].rsplit('/',1)[1]
            return f'\t{i+" " if base!=i else ""}"{P[i]}"'
        return f'\t"{i}"'
    s=HEAD%('\n'.join(map(line,std))+('\n\n' if loc else '')+'\n'.join(map(line,loc)))
    if rec: s+=REC
    if be: s+=BE
    return s+'\nfunc main() {\n'+body+'\n}\n'
