package main

import (
	"fmt"
	"os"

	lfont "github.com/go-latex/latex/font"
	"github.com/go-latex/latex/tex"
)

func fail(format string, args ...interface{}) {
	fmt.Printf(format+"\n", args...)
	os.Exit(1)
}

// be is a backend with simple metrics that records the operations.
type be struct{ ops []string }

func (b *be) RenderGlyph(x, y float64, f lfont.Font, sym string, dpi float64) {
	b.ops = append(b.ops, fmt.Sprintf("%s %.3f %.3f %.3f", sym, x, y, f.Size))
}
func (b *be) RenderRectFilled(x1, y1, x2, y2 float64) {
	b.ops = append(b.ops, fmt.Sprintf("rect %.3f %.3f %.3f %.3f", x1, y1, x2, y2))
}
func (b *be) Kern(f1 lfont.Font, s1 string, f2 lfont.Font, s2 string, dpi float64) float64 { return 0 }
func (b *be) Metrics(sym string, f lfont.Font, dpi float64, math bool) lfont.Metrics {
	s := f.Size
	return lfont.Metrics{Advance: s, Width: s, Height: s, XMin: s / 4, XMax: s + s/4, YMin: -s / 4, YMax: s - s/4, Iceberg: s - s/4}
}
func (b *be) XHeight(f lfont.Font, dpi float64) float64            { return f.Size / 2 }
func (b *be) UnderlineThickness(f lfont.Font, dpi float64) float64 { return f.Size / 16 }

func st(b *be) tex.State {
	return tex.NewState(b, lfont.Font{Name: "default", Type: "rm", Size: 10}, 72)
}

func main() {
	b := &be{}
	s := st(b)
	c := tex.HListOf([]tex.Node{tex.NewChar("x", s, true)}, false)
	v := tex.VListOf([]tex.Node{tex.VBox(-10, 0), c})
	l := tex.HListOf([]tex.Node{v}, false)
	y := func(n *tex.HList) string {
		b.ops = nil
		var sh tex.Ship
		sh.Call(0, 0, n)
		return b.ops[0]
	}
	w := tex.HListOf([]tex.Node{tex.VListOf([]tex.Node{tex.NewKern(-10), c})}, false)
	if y(l) != y(w) {
		fail("%s %s", y(l), y(w))
	}
}
