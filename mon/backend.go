package main

import (
	"fmt"
	"hash/fnv"
	"math"
	"unicode/utf8"

	"github.com/go-latex/latex/font"
)

// drawn is what the synthetic backend is asked to draw.
type drawn struct {
	rect   bool
	x, y   float64
	x2, y2 float64
	sym    string
	fnt    font.Font
	dpi    float64
	b      *B // the box of the model
}

func (d drawn) String() string {
	if d.rect {
		return fmt.Sprintf("rect (%g, %g) (%g, %g)", round(d.x), round(d.y), round(d.x2), round(d.y2))
	}
	return fmt.Sprintf("glyph %q %s/%s size %g dpi %g at (%g, %g)", d.sym, d.fnt.Name, d.fnt.Type, round(d.fnt.Size), d.dpi, round(d.x), round(d.y))
}

// synth is a deterministic font backend: the metrics of every character are
// arbitrary but fixed multiples of the font size, with no relation between
// them, so that using one in place of another is noticed.
type synth struct {
	seed    uint64
	ops     []drawn
	queries int
	kerns   bool // kerning between characters
	giveUp  int  // panic at this operation
	real    bool // widths and heights related as in real fonts
}

func (be *synth) coef(parts ...any) float64 {
	h := fnv.New64a()
	fmt.Fprint(h, be.seed)
	for _, p := range parts {
		fmt.Fprintf(h, "|%v", p)
	}
	v := h.Sum64()
	v ^= v >> 31
	v *= 0x9e3779b97f4a7c15
	v ^= v >> 29
	return float64(v>>11) / (1 << 53)
}

// resolve returns the character that a symbol stands for.
func resolve(sym string, math bool) (rune, bool) {
	if !math {
		r, _ := utf8.DecodeRuneInString(sym)
		return r, r != utf8.RuneError
	}
	if sym == "-" {
		return 0x2212, true
	}
	if utf8.RuneCountInString(sym) == 1 {
		r, _ := utf8.DecodeRuneInString(sym)
		return r, r != utf8.RuneError
	}
	if len(sym) > 0 && sym[0] == '\\' {
		r, ok := symbolRune[sym[1:]]
		return r, ok
	}
	return 0, false
}

func (be *synth) Metrics(sym string, fnt font.Font, dpi float64, math bool) font.Metrics {
	be.queries++
	maybeYield()
	r, ok := resolve(sym, math)
	if !ok {
		panic(fmt.Errorf("synth: unknown symbol %q", sym))
	}
	s := fnt.Size * dpi / 72
	k := func(what string, lo, hi float64) float64 {
		return s * (lo + (hi-lo)*be.coef(what, r, fnt.Type))
	}
	m := font.Metrics{
		Advance: k("adv", 0.3, 1.1),
		Height:  k("height", 0.4, 1),
		Width:   k("width", 0.25, 1),
		XMin:    k("xmin", -0.1, 0.1),
		XMax:    k("xmax", 0.2, 0.9),
		YMin:    k("ymin", -0.3, 0.05),
		YMax:    k("ymax", 0.35, 0.85),
		Iceberg: k("iceberg", 0.25, 0.8),
	}
	if be.real {
		m.Width = m.XMax - m.XMin
		m.Height = m.YMax - m.YMin
		m.Iceberg = m.YMax
	}
	return m
}

func (be *synth) Kern(ft1 font.Font, sym1 string, ft2 font.Font, sym2 string, dpi float64) float64 {
	be.queries++
	maybeYield()
	if !be.kerns || ft1 != ft2 {
		return 0
	}
	v := be.coef("kern", ft1.Type, sym1, sym2)
	if v < 0.4 {
		return 0
	}
	return (v - 0.6) * 0.4 * ft1.Size * dpi / 72
}

func (be *synth) XHeight(fnt font.Font, dpi float64) float64 {
	be.queries++
	maybeYield()
	return (0.4 + 0.1*be.coef("xheight", fnt.Type)) * fnt.Size * dpi / 72
}

func (be *synth) UnderlineThickness(fnt font.Font, dpi float64) float64 {
	be.queries++
	maybeYield()
	return (0.04 + 0.05*be.coef("underline")) * fnt.Size * dpi / 72
}

func (be *synth) drawing() {
	if be.giveUp > 0 {
		if be.giveUp--; be.giveUp == 0 {
			panic("giving up")
		}
	}
}

func (be *synth) RenderGlyph(x, y float64, fnt font.Font, sym string, dpi float64) {
	maybeYield()
	be.drawing()
	be.ops = append(be.ops, drawn{x: x, y: y, sym: sym, fnt: fnt, dpi: dpi})
}

func (be *synth) RenderRectFilled(x1, y1, x2, y2 float64) {
	be.drawing()
	be.ops = append(be.ops, drawn{rect: true, x: x1, y: y1, x2: x2, y2: y2})
}

func (be *synth) take() []drawn {
	o := be.ops
	be.ops = nil
	return o
}

var _ font.Backend = (*synth)(nil)

// near compares coordinates: the models add up the same numbers, possibly in
// another order.
func near(a, b float64) bool {
	if a == b {
		return true
	}
	if math.IsInf(a, 0) || math.IsInf(b, 0) || math.IsNaN(a) || math.IsNaN(b) {
		return false
	}
	return math.Abs(a-b) <= 1e-6+1e-9*math.Max(math.Abs(a), math.Abs(b))
}

func sameDrawn(a, b drawn) bool {
	if a.rect != b.rect || !near(a.x, b.x) || !near(a.y, b.y) {
		return false
	}
	if a.rect {
		return near(a.x2, b.x2) && near(a.y2, b.y2)
	}
	return a.sym == b.sym && a.fnt.Name == b.fnt.Name && a.fnt.Type == b.fnt.Type && near(a.fnt.Size, b.fnt.Size) && a.dpi == b.dpi
}

func diffDrawn(want, got []drawn) string {
	for i := range want {
		if i >= len(got) {
			return fmt.Sprintf("operation %d is missing: %v (%d operations instead of %d)", i, want[i], len(got), len(want))
		}
		if !sameDrawn(want[i], got[i]) {
			return fmt.Sprintf("operation %d is %v instead of %v", i, got[i], want[i])
		}
	}
	if len(got) > len(want) {
		return fmt.Sprintf("unexpected operation %d: %v (%d operations instead of %d)", len(want), got[len(want)], len(got), len(want))
	}
	return ""
}
