package main

import (
	"fmt"
	"math"

	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/font"
	"github.com/go-latex/latex/mtex"
	"github.com/go-latex/latex/tex"
)

func init() {
	register(&Check{
		ID:   "C18",
		Rule: "a case lays out, ships or renders a generated expression and compares the size given to the renderer with the box, the extent of what is drawn with that size, or the drawing with that of the enclosed or concatenated expression; distinct by source",
		Need: []string{"sizes reported", "glyph boxes inside", "rules inside", "concatenations", "enclosures", "models compared", "negative widths"},
		Families: []*Family{
			{Name: "reported", Quick: 19200, Thorough: 400000, Run: func(c *Case) {
				top, src := drawable(c, fontGrammar(c), c.Intn(6), true)
				if c.Intn(40) == 0 {
					top, src = mostlyNegative(c)
				}
				set := pick(c, fontNames)
				size := pick(c, laySizes)
				dpi := pick(c, []float64{72, 72, 100, 300})
				r, err := render(src, size, dpi, fonts()[set])
				if err != nil {
					c.Failf("%q cannot be drawn: %v", src, err)
				}
				n, err := mtex.Parse(src, size, 72, newTTF(fonts()[set]))
				if err != nil {
					c.Failf("%q is drawn but cannot be laid out: %v", src, err)
				}
				w, h, d := n.Width(), n.Height(), n.Depth()
				if !near(r.w*72, w) {
					c.Failf("%q: the renderer is asked for a width of %g units instead of %g", src, r.w*72, w)
				}
				if want := math.Ceil(h + math.Max(d, 0)); !near(r.h*72, want) {
					c.Failf("%q: the renderer is asked for a height of %g units instead of ceil(%g + %g)", src, r.h*72, h, d)
				}
				if w < 0 {
					c.Count("negative widths", 1)
				}
				m := model(newTTF(fonts()[set]), top, size, 72)
				if !near(m.root.w, w) || !near(m.root.h, h) || !near(m.root.d, d) {
					c.Failf("%q has size %.9g x %.9g + %.9g instead of %.9g x %.9g + %.9g", src, w, h, d, m.root.w, m.root.h, m.root.d)
				}
				c.Count("models compared", 1)
				c.Count("sizes reported", 1)
				c.Distinct(fmt.Sprint(src, size))
				c.Sample(src)
				if set == "lm" || set == "stix" {
					return // advances of these: see the known finding of C20.
				}
				contained(c, src, top, set, r.w*72, r.h*72, r.ops)
			}},
			{Name: "wide", Quick: 200, Thorough: 2000, CPU: 120, Run: func(c *Case) {
				top, src := wideExpr(c, 1<<(6+c.Intn(7)))
				set := pick(c, fontNames)
				size := pick(c, laySizes)
				r, err := render(src, size, 72, fonts()[set])
				if err != nil {
					c.Failf("%q cannot be drawn: %v", src, err)
				}
				m := model(newTTF(fonts()[set]), top, size, 72)
				if tol := 1e-9 * (1 + m.root.w); math.Abs(m.root.w-r.w*72) > tol {
					c.Failf("%q: the renderer is asked for a width of %.9g units instead of %.9g", src, r.w*72, m.root.w)
				}
				if want := math.Ceil(m.root.h + math.Max(m.root.d, 0)); !near(r.h*72, want) {
					c.Failf("%q: the renderer is asked for a height of %g units instead of %g", src, r.h*72, want)
				}
				c.Set("widths in inches (powers of two)", fmt.Sprint(math.Ilogb(1+r.w)))
				c.Count("sizes reported", 1)
				c.Distinct(src)
			}},
			{Name: "contained", Quick: 48000, Thorough: 500000, Run: func(c *Case) {
				top, src := drawable(c, fontGrammar(c), c.Intn(6), true)
				be := newSynth(c)
				be.real = true
				got := lay(c, be, src, pick(c, laySizes), 72)
				if sticksOut(top) {
					c.Skip("negative space or index")
				}
				tol := slackOf(top)
				for _, op := range got.ops {
					x2, y1, y2 := op.x2, op.y, op.y2
					if !op.rect {
						m := be.Metrics(op.sym, op.fnt, op.dpi, true)
						x2, y1, y2 = op.x+math.Min(m.Advance, m.Width), op.y-m.Iceberg, op.y-m.Iceberg+m.Height
						c.Count("glyph boxes inside", 1)
					} else {
						c.Count("rules inside", 1)
					}
					inside(c, src, op, op.x, x2, y1, y2, got.w, got.h+math.Max(0, got.d), tol)
				}
				if len(got.ops) > 0 {
					c.Distinct(src)
				}
			}},
			{Name: "concatenated", Quick: 24000, Thorough: 300000, Run: func(c *Case) {
				// two formulas, one behind the other.
				g := synthGrammar(c)
				be := newSynth(c)
				be.kerns = false
				a, b := g.Math(c.Intn(5)), g.Math(c.Intn(5))
				one := func(kids ...*N) (string, *laid) {
					top := &N{K: kList, Kids: kids}
					tidy(top)
					src, _ := source(top, noTrivia, "")
					c.Input(src)
					return src, lay(c, be, src, 12, 72)
				}
				sa, la := one(a)
				sb, lb := one(b)
				sab, lab := one(a, b)
				if !near(lab.w, la.w+lb.w) {
					c.Failf("%q is %g wide: %q is %g, %q %g", sab, lab.w, sa, la.w, sb, lb.w)
				}
				if !near(lab.h, math.Max(la.h, lb.h)) || !near(lab.d, math.Max(la.d, lb.d)) {
					c.Failf("%q is %g high and %g deep: %q is %g and %g, %q %g and %g", sab, lab.h, lab.d, sa, la.h, la.d, sb, lb.h, lb.d)
				}
				if len(lab.ops) != len(la.ops)+len(lb.ops) {
					c.Failf("%q is drawn with %d operations, %q with %d, %q with %d", sab, len(lab.ops), sa, len(la.ops), sb, len(lb.ops))
				}
				up := lab.h - la.h
				same := func(what string, ops, was []drawn, dx, dy float64, tol float64) {
					for i, w := range was {
						if g := ops[i]; w.rect != g.rect || w.sym != g.sym || math.Abs(w.x+dx-g.x) > tol || math.Abs(w.y+dy-g.y) > tol {
							c.Failf("%q: operation %d of the %s formula is %v, alone %v, moved by %g, %g", sab, i, what, g, w, dx, dy)
						}
					}
				}
				// glue is rounded at its place: nothing moves by more than that.
				same("first", lab.ops[:len(la.ops)], la.ops, 0, up, slackOf(a))
				same("second", lab.ops[len(la.ops):], lb.ops, la.w, lab.h-lb.h, slackOf(b)+slackOf(a))
				c.Count("concatenations", 1)
				c.Distinct(sab)
				c.Sample(sab)
			}},
			{Name: "enclosed", Quick: 48000, Thorough: 600000, Run: func(c *Case) {
				g := synthGrammar(c)
				top, src := drawable(c, g, c.Intn(5), c.Intn(2) == 0)
				be := newSynth(c)
				size := pick(c, laySizes)
				a := lay(c, be, src, size, 72)
				// pick some items of a list in math.
				var ps []place
				for _, p := range places(top, false, nil) {
					if p.math && len(p.n.Kids) > 0 {
						ps = append(ps, p)
					}
				}
				if len(ps) == 0 {
					c.Skip("nothing to enclose")
				}
				p := pick(c, ps)
				i := c.Intn(len(p.n.Kids))
				j := i + 1 + c.Intn(len(p.n.Kids)-i)
				some := p.n.Kids[i:j:j]
				isBin := func(n *N) bool {
					return (n.K == kSym || n.K == kMacro) && inClass("BinaryOperators", n.T)
				}
				if isBin(some[0]) && !opening(p.n.Kids, i) {
					c.Skip("an operator would open the group")
				}
				if j < len(p.n.Kids) && isBin(p.n.Kids[j]) && opening(p.n.Kids, j) {
					c.Skip("an operator behind a delimiter")
				}
				in := &N{K: kList, Kids: some}
				if p.n.K != kMath && c.Intn(3) == 0 && !(j < len(p.n.Kids) && isBin(p.n.Kids[j])) {
					in = &N{K: kMath, T: "$", Kids: some}
				}
				p.n.Kids = append(p.n.Kids[:i:i], append([]*N{in}, p.n.Kids[j:]...)...)
				enc, _ := source(top, noTrivia, "")
				c.Input([]string{src, enc})
				b := lay(c, be, enc, size, 72)
				if !near(a.w, b.w) || !near(a.h, b.h) || !near(a.d, b.d) {
					c.Failf("%q has size %g x %g + %g, but %q %g x %g + %g", src, a.w, a.h, a.d, enc, b.w, b.h, b.d)
				}
				if d := diffDrawn(a.ops, b.ops); d != "" {
					m := model(be, top, size, 72)
					if m.s.tie {
						c.Skip("rounding tie")
					}
					c.Failf("%q and %q are drawn differently: %s", src, enc, d)
				}
				c.Count("enclosures", 1)
				c.Distinct(enc)
				c.Sample(enc)
			}},
		},
	})
}

// sticksOut tells what is not claimed to be contained.
func sticksOut(top *N) bool {
	return top.Has(func(n *N) bool {
		return n.T == `\!` || n.T == `\sqrt` && len(n.Kids) == 2 || n.T == `\hspace` && n.Kids[0].Kids[0].T == "-"
	})
}

func slackOf(n *N) float64 { return (&part{kids: []*N{n}}).slack() }

func inside(c *Case, src string, op any, x1, x2, y1, y2, w, h, tol float64) {
	if x1 < -tol {
		c.Failf("%q: %v starts at x=%g", src, op, x1)
	}
	if x2 > w+tol {
		c.Failf("%q: %v ends at x=%g, the drawing at %g", src, op, x2, w)
	}
	if y1 < -tol {
		c.Failf("%q: %v starts at y=%g", src, op, y1)
	}
	if y2 > h+tol {
		c.Failf("%q: %v ends at y=%g, the drawing at %g", src, op, y2, h)
	}
}

// contained checks a drawing with real fonts.
func contained(c *Case, src string, top *N, set string, w, h float64, ops []drawtex.Op) {
	if sticksOut(top) {
		return
	}
	tol := slackOf(top)
	for _, op := range ops {
		switch op := op.(type) {
		case drawtex.GlyphOp:
			r := []rune(op.Glyph.Symbol)[0]
			be := newTTF(fonts()[set])
			typ := "rm"
			if psName(op.Glyph.Font) == psName(ownFonts(set).It) {
				typ = "it"
			}
			m := be.Metrics(string(r), font.Font{Name: "default", Type: typ, Size: op.Glyph.Size}, 72, false)
			if math.Abs(op.Y) > 0 && (op.Y < -tol || op.Y > h+tol) {
				c.Failf("%q: the baseline of %q is at y=%g, outside of the drawing of height %g", src, r, op.Y, h)
			}
			inside(c, src, opString(op), op.X, op.X+math.Min(m.Advance, m.Width), op.Y-m.YMax, op.Y-m.YMin, w, h, tol)
			c.Count("glyph boxes inside", 1)
		case drawtex.RectOp:
			inside(c, src, opString(op), op.X1, op.X2, op.Y1, op.Y2, w, h, tol)
			c.Count("rules inside", 1)
		}
	}
}

var _ tex.Node

// mostlyNegative is an expression of more negative space than anything else.
func mostlyNegative(c *Case) (*N, string) {
	m := &N{K: kMath, T: "$"}
	for n := 1 + c.Intn(5); n > 0; n-- {
		switch c.Intn(4) {
		case 0:
			m.Kids = append(m.Kids, hspace(c))
		case 1:
			m.Kids = append(m.Kids, &N{K: kList, Kids: []*N{{K: kMacro, T: `\!`}}})
		default:
			m.Kids = append(m.Kids, &N{K: kMacro, T: `\!`})
		}
	}
	if c.Intn(3) == 0 {
		m.Kids = append(m.Kids, &N{K: kWord, T: pick(c, []string{"i", "x"})})
	}
	top := &N{K: kList, Kids: []*N{m}}
	tidy(top)
	s, _ := source(top, noTrivia, "")
	c.Input(s)
	return top, s
}
