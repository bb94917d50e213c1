package main

import (
	"fmt"
	"os"

	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/mtex"
)

func fail(format string, args ...interface{}) {
	fmt.Printf(format+"\n", args...)
	os.Exit(1)
}

type rec struct {
	w, h, dpi float64
	ops       []drawtex.Op
	cnv       *drawtex.Canvas
}

func (r *rec) Render(w, h, dpi float64, c *drawtex.Canvas) error {
	r.w, r.h, r.dpi = w, h, dpi
	r.cnv = c
	r.ops = append(r.ops[:0], c.Ops()...)
	return nil
}

func draw(x string, size, dpi float64) *rec {
	r := &rec{}
	if err := mtex.Render(r, x, size, dpi, nil); err != nil {
		fail("%q: %v", x, err)
	}
	return r
}

func glyphs(ops []drawtex.Op) []drawtex.GlyphOp {
	var gs []drawtex.GlyphOp
	for _, op := range ops {
		if g, ok := op.(drawtex.GlyphOp); ok {
			gs = append(gs, g)
		}
	}
	return gs
}

func rects(ops []drawtex.Op) []drawtex.RectOp {
	var rs []drawtex.RectOp
	for _, op := range ops {
		if r, ok := op.(drawtex.RectOp); ok {
			rs = append(rs, r)
		}
	}
	return rs
}

func main() {
	r := &rec{}
	if err := mtex.Render(r, `$a\hspace{NaN}b$`, 12, 72, nil); err == nil {
		fail("accepted, width %g", r.w)
	}
}
