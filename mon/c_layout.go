package main

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
	"sync"
	"unicode"
	"unicode/utf8"

	"github.com/go-latex/latex"
	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/font"
	"github.com/go-latex/latex/mtex"
	"github.com/go-latex/latex/tex"
	"golang.org/x/image/font/sfnt"
)

// laid is an expression laid out by the code under test.
type laid struct {
	w, h, d float64
	ops     []drawn
}

// lay parses, lays out and ships an expression with the synthetic backend.
func lay(c *Case, be *synth, src string, size, dpi float64) *laid {
	n, err := mtex.Parse(src, size, dpi, be)
	if err != nil {
		c.Failf("%q cannot be laid out: %v", src, err)
	}
	t, ok := n.(tex.Tree)
	if !ok || t == nil {
		c.Failf("%q is laid out as %T", src, n)
	}
	o := &laid{w: t.Width(), h: t.Height(), d: t.Depth()}
	be.take()
	var s tex.Ship
	s.Call(0, 0, t)
	o.ops = be.take()
	c.Count("expressions laid out", 1)
	c.Count("operations observed", len(o.ops))
	return o
}

// modelled is the same by the model.
type modelled struct {
	*layout
	root *B
	s    *shipper
}

func model(be font.Backend, top *N, size, dpi float64) *modelled {
	m := &modelled{layout: newLayout(be, size, dpi)}
	m.root = m.build(top)
	m.s = shShip(0, 0, m.root)
	return m
}

// tidy removes what the documentation leaves open from a generated tree.
func tidy(n *N) {
	var kids []*N
	for _, k := range n.Kids {
		tidy(k)
		if (k.K == kMacro || k.K == kSym) && inClass("BinaryOperators", k.T) {
			// a binary operator right after a math expression.
			j := len(kids) - 1
			for j >= 0 && kids[j].K == kSym && kids[j].T == " " {
				j--
			}
			if j >= 0 && kids[j].K == kMath {
				continue
			}
		}
		if k.K == kSym && (k.T == "." || k.T == ",") && len(kids) > 0 && kids[len(kids)-1].K == kLit {
			// "1." followed by digits would be one number.
			k = &N{K: kSym, T: "!"}
		}
		if k.K == kLit && k.T[0] == '.' && len(kids) > 0 && kids[len(kids)-1].K == kLit {
			k.T = k.T[1:]
		}
		kids = append(kids, k)
	}
	n.Kids = kids
}

// synthGrammar is the language that can be laid out.
func synthGrammar(c *Case) *Grammar {
	g := drawGrammar(c)
	g.SymText = append(append([]string{}, g.SymText...), "-")
	g.TextMacros = c.Intn(3) == 0
	g.NestedMath = c.Intn(3) == 0
	if c.Intn(4) == 0 {
		g.Nums = nil // with leading and trailing separators
	}
	if c.Intn(3) == 0 {
		g.Words = append(append([]string{}, latin...), intlWords...)
	}
	return g
}

var laySizes = []float64{12, 10, 7.5, 24, 1, 100, 11.37}

// drawable generates an expression; text: something may surround the math.
func drawable(c *Case, g *Grammar, depth int, text bool) (*N, string) {
	var top *N
	if text && c.Intn(3) > 0 {
		top = g.Top(depth)
	} else {
		top = &N{K: kList, Kids: []*N{g.Math(depth)}}
	}
	tidy(top)
	s, _ := source(top, noTrivia, "")
	c.Input(s)
	return top, s
}

// wideExpr generates an expression of about n characters on few levels.
func wideExpr(c *Case, n int) (*N, string) {
	g := fontGrammar(c)
	run := func(n int) []*N {
		switch c.Intn(4) {
		case 0:
			return []*N{{K: kWord, T: letters(c, n)}}
		case 1:
			b := make([]byte, n)
			for i := range b {
				b[i] = byte('0' + c.Intn(10))
			}
			if c.Intn(2) == 0 {
				b[c.Intn(n)] = '.'
			}
			if b[0] == '.' {
				b[0] = '1'
			}
			return []*N{{K: kLit, T: string(b)}}
		case 2:
			var o []*N
			for ; n > 0; n -= 2 {
				o = append(o, &N{K: kWord, T: letters(c, 1)}, &N{K: kSym, T: pick(c, []string{"+", "=", "<"})})
			}
			return o
		}
		var o []*N
		for ; n > 0; n -= 3 {
			o = append(o, g.leaf(genCtx{math: true, depth: 1}))
		}
		return o
	}
	arg := func(kids []*N) *N { return &N{K: kArg, Kids: kids} }
	var kids []*N
	for k := 1 + c.Intn(3); k > 0; k-- {
		r := run(max(1, n/k))
		switch c.Intn(6) {
		case 0:
			r = []*N{{K: kMacro, T: pick(c, []string{`\frac`, `\dfrac`, `\tfrac`, `\binom`}), Kids: []*N{arg(r), arg(run(max(1, n/4)))}}}
		case 1:
			r = []*N{{K: kMacro, T: `\sqrt`, Kids: []*N{arg(r)}}}
		case 2:
			r = []*N{{K: kMacro, T: `\overline`, Kids: []*N{arg(r)}}}
		case 3:
			r = []*N{{K: kList, Kids: r}}
		}
		kids = append(kids, r...)
		n /= 2
	}
	top := &N{K: kList, Kids: []*N{{K: kMath, T: "$", Kids: kids}}}
	tidy(top)
	s, _ := source(top, noTrivia, "")
	c.Input(s)
	return top, s
}

func letters(c *Case, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"[c.Intn(52)]
	}
	return string(b)
}

// letterBlocks are all letters of Unicode, as words.
var letterBlocks = sync.OnceValue(func() (o []string) {
	var b []rune
	for r := rune('A'); r <= unicode.MaxRune; r++ {
		if unicode.IsLetter(r) {
			b = append(b, r)
			if len(b) == 64 {
				o = append(o, string(b))
				b = b[:0]
			}
		}
	}
	return append(o, string(b))
})

// letterBlock is an expression of letters that belong together, in math or
// text, in one word or several.
func letterBlock(c *Case) (*N, string) {
	w := letterBlocks()[c.Index]
	kids := []*N{{K: kWord, T: w}}
	if c.Intn(2) == 0 {
		i := 0
		for i < len(w)/2 || !utf8.RuneStart(w[i]) {
			i++
		}
		kids = []*N{{K: kWord, T: "x" + w[:i]}, {K: kSym, T: "+"}, {K: kWord, T: w[i:] + "y"}}
	}
	top := &N{K: kList, Kids: kids}
	if c.Intn(3) > 0 {
		top = &N{K: kList, Kids: []*N{{K: kMath, T: "$", Kids: kids}}}
	}
	tidy(top)
	src, _ := source(top, noTrivia, "")
	c.Input(src)
	return top, src
}

func newSynth(c *Case) *synth {
	return &synth{seed: uint64(c.Int63()), kerns: c.Intn(2) == 0, real: c.Intn(3) > 0}
}

func glyphName(d drawn) string {
	if d.rect {
		return "a rule"
	}
	return fmt.Sprintf("%q", d.sym)
}

// symbolsOf compares which glyphs and rules are drawn, and in which order.
func symbolsOf(c *Case, src string, want []drawn, got []drawn, runes bool) {
	name := func(d drawn) string {
		if !d.rect && runes {
			return string(runeOf(d.sym, d.b == nil || d.b.math))
		}
		return d.sym
	}
	for i := range want {
		if i >= len(got) {
			c.Failf("%q: operation %d (%s) is missing: %d instead of %d", src, i, glyphName(want[i]), len(got), len(want))
		}
		if want[i].rect != got[i].rect || !want[i].rect && name(want[i]) != got[i].sym {
			c.Failf("%q: operation %d is %s instead of %s", src, i, glyphName(got[i]), glyphName(want[i]))
		}
	}
	if len(got) > len(want) {
		c.Failf("%q: unexpected operation %d (%s)", src, len(want), glyphName(got[len(want)]))
	}
}

// realOps converts the operations given to a renderer.
func init() {
	register(&Check{
		ID:   "C13",
		Rule: "a case lays out a generated expression and compares the sequence of glyphs and rules drawn with the one its tree denotes; distinct by source",
		Need: []string{"expressions laid out", "glyphs in order", "rules in order", "baselines in order", "drawings with fonts", "operations repeated"},
		Families: []*Family{
			{Name: "sequence", Quick: 200000, Thorough: 1500000, Run: func(c *Case) {
				g := synthGrammar(c)
				top, src := drawable(c, g, c.Intn(6), true)
				spaces := c.Intn(20) == 0
				if spaces {
					src = customSpaces(c, top)
				}
				be := newSynth(c)
				got := lay(c, be, src, pick(c, laySizes), 72)
				m := model(be, top, 12, 72)
				symbolsOf(c, src, m.s.ops, got.ops, false)
				for _, op := range got.ops {
					if op.rect {
						c.Count("rules in order", 1)
					} else {
						c.Count("glyphs in order", 1)
					}
				}
				if be.real && !spaces && !top.Has(func(n *N) bool { return n.T == `\!` || n.T == `\sqrt` && len(n.Kids) == 2 }) {
					baselines(c, src, got.ops)
				}
				if len(got.ops) > 1 {
					c.Distinct(src)
				}
				c.Sample(src)
			}},
			{Name: "deep", Quick: 400, Thorough: 8000, CPU: 120, Run: func(c *Case) {
				// long chains of one construct in the other.
				n := &N{K: kWord, T: "x"}
				depth := 5 + c.Intn(60)
				if c.Intn(10) == 0 {
					depth = 100 + c.Intn(350)
				}
				c.Set("nesting depths", fmt.Sprint(depth))
				if c.Intn(3) == 0 {
					n = tower(c, n, depth)
					depth = 1 + c.Intn(4)
				}
				for i := 0; i < depth; i++ {
					n = wrap(c, n)
				}
				top := &N{K: kList, Kids: []*N{{K: kMath, T: "$", Kids: []*N{n}}}}
				tidy(top)
				src, _ := source(top, noTrivia, "")
				c.Input(src)
				be := newSynth(c)
				got := lay(c, be, src, 12, 72)
				m := model(be, top, 12, 72)
				symbolsOf(c, src, m.s.ops, got.ops, false)
				c.Count("glyphs in order", len(got.ops))
				c.Distinct(src)
			}},
			{Name: "wide", Quick: 120, Thorough: 2000, CPU: 120, Run: func(c *Case) {
				// long words, numbers and lists.
				top, src := wideExpr(c, 1<<(8+c.Intn(8)))
				be := newSynth(c)
				got := lay(c, be, src, 12, 72)
				m := model(be, top, 12, 72)
				symbolsOf(c, src, m.s.ops, got.ops, false)
				c.Count("glyphs in order", len(got.ops))
				c.Set("glyphs of a drawing (powers of two)", fmt.Sprint(bits.Len(uint(len(got.ops)))))
				c.Distinct(src)
			}},
			{Name: "every letter", Quick: len(letterBlocks()), Thorough: len(letterBlocks()), Run: func(c *Case) {
				top, src := letterBlock(c)
				be := newSynth(c)
				got := lay(c, be, src, 12, 72)
				symbolsOf(c, src, model(be, top, 12, 72).s.ops, got.ops, false)
				c.Count("glyphs in order", len(got.ops))
				c.Count("letters", len(got.ops))
				c.Distinct(src)
			}},
			{Name: "canvas", Quick: 15000, Thorough: 100000, Run: func(c *Case) {
				// the canvas holds what is drawn on it, all of it, in order:
				// the same symbol twice at one place, too.
				var want []drawtex.Op
				cnv := drawtex.New()
				var vals = []float64{0, 1, -1, 2.5, 1e-9, 1e9, c.Float64()}
				v := func() float64 { return pick(c, vals) }
				own := ownFonts(pick(c, fontNames))
				n := 1 + c.Intn(40)
				if c.Index%600 == 599 {
					n = 1<<(8+c.Intn(9)) + c.Intn(50)
				}
				for c.Set("operations of a canvas (powers of two)", fmt.Sprint(bits.Len(uint(n)))); n > 0; n-- {
					op := pick(c, []int{0, 1, 2})
					switch {
					case op == 0 && len(want) > 0:
						want = append(want, want[len(want)-1-c.Intn(min(3, len(want)))])
						c.Count("operations repeated", 1)
					case op == 1:
						want = append(want, drawtex.RectOp{X1: v(), Y1: v(), X2: v(), Y2: v()})
					default:
						f := pick(c, []*sfnt.Font{own.Rm, own.It})
						r := pick(c, pngRunes[:4])
						want = append(want, drawtex.GlyphOp{X: v(), Y: v(), Glyph: drawtex.Glyph{Font: f, Size: 12, Postscript: psName(f), Symbol: string(r), Num: glyphIndex(f, r)}})
					}
					switch op := want[len(want)-1].(type) {
					case drawtex.GlyphOp:
						cnv.RenderGlyph(op.X, op.Y, op.Glyph)
					case drawtex.RectOp:
						cnv.RenderRectFilled(op.X1, op.Y1, op.X2, op.Y2)
					}
					if c.Intn(8) == 0 && n < 50 {
						cnv.Ops() // looking changes nothing.
					}
				}
				if len(want) < 50 {
					c.Input(opsString(want))
				} else {
					c.Input(fmt.Sprintf("%d operations", len(want)))
				}
				got := cnv.Ops()
				for i := 0; i < min(len(got), len(want)); i++ {
					if got[i] != want[i] {
						c.Failf("operation %d of %d on the canvas is %v instead of %v", i, len(want), got[i], want[i])
					}
				}
				if len(got) != len(want) {
					c.Failf("the canvas holds %d operations instead of %d", len(got), len(want))
				}
				if len(want) < 50 && opsString(got) != opsString(want) {
					c.Failf("the canvas holds other operations than those drawn on it:\n%s\ninstead of\n%s", opsString(got), opsString(want))
				}
				c.Distinct(opsString(want[:min(50, len(want))]) + fmt.Sprint(len(want)))
			}},
			{Name: "fonts", Quick: 30000, Thorough: 200000, Run: func(c *Case) {
				g := drawGrammar(c)
				top, src := drawable(c, g, c.Intn(4), true)
				fs := fonts()[pick(c, fontNames)]
				r, err := render(src, 12, 72, fs)
				if err != nil {
					c.Failf("%q cannot be drawn: %v", src, err)
				}
				c.Count("drawings with fonts", 1)
				m := model(newTTF(fs), top, 12, 72)
				symbolsOf(c, src, m.s.ops, opsOf(r.ops), true)
				c.Count("glyphs in order", len(r.ops))
				if len(r.ops) > 1 {
					c.Distinct(src)
				}
			}},
		},
	})

	register(&Check{
		ID:   "C15",
		Rule: "a case lays out a fraction or binomial of generated parts, compares the geometry of the recorded drawing with the parts drawn on their own, and with the layout model; distinct by source",
		Need: []string{"fractions measured", "bars measured", "numerators compared", "denominators compared", "parentheses measured", "nested fractions", "layouts compared"},
		Families: []*Family{
			{Name: "geometry", Quick: 48000, Thorough: 1000000, Run: func(c *Case) { fractionGeometry(c) }},
			{Name: "model", Quick: 48000, Thorough: 1000000, Run: func(c *Case) {
				g := synthGrammar(c)
				g.ArgMac = []string{`\frac`, `\dfrac`, `\tfrac`, `\binom`}
				compareLayout(c, g, func(n *N) bool { return inClass2(n.T, `\frac`, `\dfrac`, `\tfrac`, `\binom`) }, "nested fractions")
			}},
		},
	})

	register(&Check{
		ID:   "C16",
		Rule: "a case lays out a radical or overline of a generated content, compares the geometry of the recorded drawing with the content drawn on its own, and with the layout model; distinct by source",
		Need: []string{"radicals measured", "overlines measured", "indices compared", "contents compared", "nested radicals and overlines", "layouts compared"},
		Families: []*Family{
			{Name: "geometry", Quick: 72000, Thorough: 1000000, Run: func(c *Case) { radicalGeometry(c) }},
			{Name: "model", Quick: 72000, Thorough: 1000000, Run: func(c *Case) {
				g := synthGrammar(c)
				g.ArgMac = []string{`\sqrt`, `\overline`}
				compareLayout(c, g, func(n *N) bool { return inClass2(n.T, `\sqrt`, `\overline`) }, "nested radicals and overlines")
			}},
		},
	})

	register(&Check{
		ID:   "C17",
		Rule: "a case lays out a flat sequence in a context and compares the distances between the drawn glyphs with the sum of advances, kerning and the spaces documented for each symbol; distinct by source",
		Need: []string{"distances compared", "binary operators spaced", "binary operators unspaced", "relations and arrows spaced", "punctuation spaced", "decimal separators", "spacing commands", "custom spaces", "function names", "widths compared", "spaces between constructs", "arguments of functions"},
		Families: []*Family{
			{Name: "flat", Quick: 100000, Thorough: 1500000, Run: func(c *Case) { spacing(c) }},
			{Name: "every symbol", Quick: len(symbolMacros)*4 + len(drawSyms)*4, Thorough: len(symbolMacros)*40 + len(drawSyms)*40, Run: func(c *Case) { spacingOf(c) }},
			{Name: "around", Quick: 40000, Thorough: 600000, Run: func(c *Case) { spacingAround(c) }},
			{Name: "function arguments", Quick: 10000, Thorough: 150000, Run: func(c *Case) { spacingArgument(c) }},
		},
	})

	register(&Check{
		ID:   "C19",
		Rule: "a case lays out or renders an expression at two font sizes, or at several resolutions, and compares sizes and operations; distinct by source and sizes",
		Need: []string{"sizes compared", "resolutions compared", "layouts at two sizes"},
		Families: []*Family{
			{Name: "size", Quick: 50000, Thorough: 600000, Run: func(c *Case) { scaling(c) }},
			{Name: "resolution", Quick: 10000, Thorough: 150000, Run: func(c *Case) { resolution(c) }},
		},
	})
}

func inClass2(s string, set ...string) bool {
	for _, x := range set {
		if x == s {
			return true
		}
	}
	return false
}

// wrap puts a node into a construct.
func wrap(c *Case, n *N) *N {
	arg := func(n *N) *N { return &N{K: kArg, Kids: []*N{n}} }
	a := func(s string) *N { return &N{K: kArg, Kids: []*N{{K: kWord, T: s}}} }
	switch c.Intn(8) {
	case 0:
		return &N{K: kMacro, T: pick(c, []string{`\frac`, `\dfrac`, `\tfrac`, `\binom`}), Kids: []*N{arg(n), a("a")}}
	case 1:
		return &N{K: kMacro, T: pick(c, []string{`\frac`, `\dfrac`, `\tfrac`, `\binom`}), Kids: []*N{a("b"), arg(n)}}
	case 2:
		return &N{K: kMacro, T: `\sqrt`, Kids: []*N{arg(n)}}
	case 3:
		return &N{K: kMacro, T: `\sqrt`, Kids: []*N{{K: kOpt, Kids: []*N{n}}, a("c")}}
	case 4:
		return &N{K: kMacro, T: `\overline`, Kids: []*N{arg(n)}}
	case 5:
		return &N{K: kMacro, T: `\exp`, Kids: []*N{arg(n)}}
	case 6:
		return &N{K: kList, Kids: []*N{n, {K: kSym, T: "+"}, {K: kLit, T: "1"}}}
	default:
		return &N{K: kList, Kids: []*N{{K: kSym, T: "="}, n}}
	}
}

// tower wraps a node many times in the same, unshrunk construct: the result
// is tall or wide.
func tower(c *Case, n *N, depth int) *N {
	arg := func(n *N) *N { return &N{K: kArg, Kids: []*N{n}} }
	word := func() *N { return &N{K: kArg, Kids: []*N{{K: kWord, T: "x"}}} }
	kind := c.Intn(5)
	for i := 0; i < depth; i++ {
		switch kind {
		case 0:
			n = &N{K: kMacro, T: `\dfrac`, Kids: []*N{arg(n), word()}}
		case 1:
			n = &N{K: kMacro, T: `\dfrac`, Kids: []*N{word(), arg(n)}}
		case 2:
			n = &N{K: kMacro, T: `\sqrt`, Kids: []*N{arg(n)}}
		case 3:
			n = &N{K: kMacro, T: `\overline`, Kids: []*N{arg(n)}}
		default:
			n = &N{K: kList, Kids: []*N{n, {K: kSym, T: "+"}, {K: kWord, T: "mm"}}}
		}
	}
	c.Count("towers of one construct", 1)
	return n
}

// baselines checks that glyphs of one size on one baseline go left to right.
func baselines(c *Case, src string, ops []drawn) {
	type line struct{ y, size float64 }
	last := make(map[line]drawn)
	for _, op := range ops {
		if op.rect {
			continue
		}
		k := line{round(op.y), round(op.fnt.Size)}
		if p, ok := last[k]; ok {
			c.Count("baselines in order", 1)
			if op.x < p.x-1e-9 {
				c.Failf("%q: %q at x=%g is drawn left of the %q before it, at x=%g", src, op.sym, op.x, p.sym, p.x)
			}
		}
		last[k] = op
	}
}

// customSpaces puts spaces of any width, large negative ones too, into some
// arguments, groups and math expressions.
func customSpaces(c *Case, top *N) string {
	var places []*N
	var visit func(n *N)
	visit = func(n *N) {
		if n.T == `\hspace` {
			return
		}
		if n.K == kArg || n.K == kOpt || n.K == kMath {
			places = append(places, n)
		}
		for _, k := range n.Kids {
			visit(k)
		}
	}
	visit(top)
	for i := 1 + c.Intn(2); i > 0 && len(places) > 0; i-- {
		n := pick(c, places)
		at := c.Intn(len(n.Kids) + 1)
		kids := append([]*N(nil), n.Kids[:at]...)
		n.Kids = append(append(kids, hspace(c)), n.Kids[at:]...)
		c.Count("custom spaces in arguments", 1)
	}
	tidy(top)
	src, _ := source(top, noTrivia, "")
	c.Input(src)
	return src
}

// compareLayout compares the complete drawing with the model's.
func compareLayout(c *Case, g *Grammar, is func(*N) bool, what string) {
	top, src := drawable(c, g, 1+c.Intn(4), true)
	if c.Intn(150) == 0 {
		n := tower(c, &N{K: kWord, T: "y"}, 2+c.Intn(40))
		for i := 1 + c.Intn(3); i > 0; i-- {
			n = wrap(c, n)
		}
		top = &N{K: kList, Kids: []*N{{K: kMath, T: "$", Kids: []*N{n}}}}
		tidy(top)
		src, _ = source(top, noTrivia, "")
		c.Input(src)
	}
	if !top.Has(is) {
		// wrap something.
		name := pick(c, g.ArgMac)
		x := genCtx{math: true, depth: 2}
		top.Kids = append(top.Kids, &N{K: kMath, T: "$", Kids: []*N{g.macro(x, name)}})
		tidy(top)
		src, _ = source(top, noTrivia, "")
		c.Input(src)
	}
	if c.Intn(8) == 0 {
		src = customSpaces(c, top)
	}
	be := newSynth(c)
	size := pick(c, laySizes)
	dpi := pick(c, []float64{72, 72, 100, 36, 300})
	got := lay(c, be, src, size, dpi)
	m := model(be, top, size, dpi)
	top.Each(func(n *N) {
		if is(n) {
			c.Count(what, 1)
		}
	})
	if !near(got.w, m.root.w) || !near(got.h, m.root.h) || !near(got.d, m.root.d) {
		c.Failf("%q has size %.9g x %.9g + %.9g instead of %.9g x %.9g + %.9g", src, got.w, got.h, got.d, m.root.w, m.root.h, m.root.d)
	}
	if m.s.tie {
		c.Count("rounding ties", 1)
		return
	}
	if d := diffDrawn(m.s.ops, got.ops); d != "" {
		c.Failf("%q (size %g, dpi %g): %s", src, size, dpi, d)
	}
	c.Count("layouts compared", 1)
	c.Distinct(src)
	c.Sample(src)
}

// part is a part of a construct: a source of its own, and how it is drawn.
type part struct {
	kids []*N
	src  string
	*laid
}

func genPart(c *Case, g *Grammar, be *synth, math bool, opt bool, size, dpi float64) *part {
	x := genCtx{math: math, depth: c.Intn(3), opt: opt}
	p := &part{kids: g.kids(x, c.Intn(4))}
	l := &N{K: kList, Kids: p.kids}
	tidy(l)
	p.kids = l.Kids
	top := l
	if math {
		top = &N{K: kList, Kids: []*N{{K: kMath, T: "$", Kids: p.kids}}}
	}
	p.src, _ = source(top, noTrivia, "")
	p.laid = lay(c, be, p.src, size, dpi)
	return p
}

// placed finds where a part has been put: the operations ops must be those of
// the part on its own, scaled and moved.
func placed(c *Case, src string, p *laid, ops []drawn, f float64, what string) (x, y float64, ok bool) {
	if len(p.ops) == 0 {
		return 0, 0, false
	}
	x, y = ops[0].x-f*p.ops[0].x, ops[0].y-f*p.ops[0].y
	for i, w := range p.ops {
		g := ops[i]
		// glue within the part is rounded to units at its own size.
		if w.rect != g.rect || !w.rect && (w.sym != g.sym || w.fnt.Type != g.fnt.Type || !near(w.fnt.Size*f, g.fnt.Size)) {
			c.Failf("%q: operation %d of the %s is %v instead of %v scaled by %g", src, i, what, g, w, f)
		}
	}
	c.Count(what+"s compared", 1)
	return x, y, true
}

// rigid tells that a part has no glue inside, so that it moves as a whole.
func rigid(kids []*N) bool {
	for _, k := range kids {
		if k.Has(func(n *N) bool {
			return inClass2(n.T, `\frac`, `\dfrac`, `\tfrac`, `\binom`, `\sqrt`, `\overline`)
		}) {
			return false
		}
	}
	return true
}

// slack is how far the first glyph of a part may be off: glue is rounded.
func (p *part) slack() float64 {
	s := 1e-6
	for _, k := range p.kids {
		k.Each(func(n *N) {
			if inClass2(n.T, `\frac`, `\dfrac`, `\tfrac`, `\binom`, `\sqrt`, `\overline`) {
				s++
			}
		})
	}
	return s
}

func rigidly(c *Case, src string, p *part, ops []drawn, f, x, y float64, what string) {
	if !rigid(p.kids) {
		return
	}
	for i, w := range p.ops {
		g := ops[i]
		if !near(x+f*w.x, g.x) || !near(y+f*w.y, g.y) {
			c.Failf("%q: operation %d of the %s is %v: moved otherwise than its first operation", src, i, what, g)
		}
	}
}

// fractionGeometry measures one fraction.
func fractionGeometry(c *Case) {
	g := synthGrammar(c)
	be := newSynth(c)
	be.real = true
	size := pick(c, laySizes)
	dpi := pick(c, []float64{72, 72, 144})
	math_ := c.Intn(4) > 0
	num, den := genPart(c, g, be, math_, false, size, dpi), genPart(c, g, be, math_, false, size, dpi)
	name := pick(c, []string{`\frac`, `\dfrac`, `\tfrac`, `\binom`})
	n := &N{K: kMacro, T: name, Kids: []*N{{K: kArg, Kids: num.kids}, {K: kArg, Kids: den.kids}}}
	top := &N{K: kList, Kids: []*N{n}}
	if math_ {
		top.Kids = []*N{{K: kMath, T: "$", Kids: []*N{n}}}
	}
	src, _ := source(top, noTrivia, "")
	c.Input(src)
	got := lay(c, be, src, size, dpi)
	c.Count("fractions measured", 1)
	t := be.UnderlineThickness(font.Font{Size: size, Type: "rm"}, dpi)
	f := shrinkBy
	if name == `\dfrac` {
		f = 1
	}
	ops := got.ops
	width := f * math.Max(num.w, den.w)
	start := 0.0
	var open, shut *drawn
	if name == `\binom` {
		if len(ops) < 2 || ops[0].sym != "(" || ops[len(ops)-1].sym != ")" {
			c.Failf("%q is not enclosed by parentheses", src)
		}
		open, shut = &ops[0], &ops[len(ops)-1]
		ops = ops[1 : len(ops)-1]
	}
	bar := 1
	if name == `\binom` || width <= 0 {
		bar = 0
	}
	if len(ops) != len(num.ops)+len(den.ops)+bar {
		c.Failf("%q is drawn with %d operations instead of %d and %d and %d bars", src, len(ops), len(num.ops), len(den.ops), bar)
	}
	nops, dops := ops[:len(num.ops)], ops[len(num.ops)+bar:]
	nx, ny, okn := placed(c, src, num.laid, nops, f, "numerator")
	dx, dy, okd := placed(c, src, den.laid, dops, f, "denominator")
	if okn {
		rigidly(c, src, num, nops, f, nx, ny, "numerator")
	}
	if okd {
		rigidly(c, src, den, dops, f, dx, dy, "denominator")
	}
	// ny and dy are where the top of the parts' boxes is: they were drawn
	// with their top at zero.
	if open != nil {
		start = -1 // behind the parenthesis
	}
	if bar == 1 {
		r := ops[len(num.ops)]
		if !r.rect {
			c.Failf("%q: operation %d is %v instead of the bar", src, len(num.ops), r)
		}
		c.Count("bars measured", 1)
		start = r.x
		if !near(r.x2-r.x, width) {
			c.Failf("%q: bar of length %g instead of %g", src, r.x2-r.x, width)
		}
		if !near(r.y2-r.y, t) {
			c.Failf("%q: bar of thickness %g instead of %g", src, r.y2-r.y, t)
		}
		if okn && ny+f*(num.h+num.d) > r.y+1e-6 {
			c.Failf("%q: the numerator ends at y=%g, the bar starts at %g", src, ny+f*(num.h+num.d), r.y)
		}
		if okd && dy < r.y2-1e-6 {
			c.Failf("%q: the denominator starts at y=%g, the bar ends at %g", src, dy, r.y2)
		}
		// the line is at one height, whatever the parts.
		eq := be.Metrics("=", font.Font{Name: "default", Type: "it", Size: size}, dpi, true)
		line := got.h - r.y // above the baseline
		if want := (eq.YMax+eq.YMin)/2 - t; !near(line, want) {
			c.Failf("%q: the bar is %g above the baseline instead of %g", src, line, want)
		}
	}
	if start >= 0 {
		if okn && math.Abs(nx-start-(width-f*num.w)/2) > 0.5+num.slack() {
			c.Failf("%q: numerator of width %g at %g, in a fraction of width %g at %g", src, f*num.w, nx, width, start)
		}
		if okd && math.Abs(dx-start-(width-f*den.w)/2) > 0.5+den.slack() {
			c.Failf("%q: denominator of width %g at %g, in a fraction of width %g at %g", src, f*den.w, dx, width, start)
		}
	} else if okn && okd {
		// no bar: centred on each other.
		if math.Abs((nx+f*num.w/2)-(dx+f*den.w/2)) > 1+num.slack()+den.slack() {
			c.Failf("%q: numerator centred at %g, denominator at %g", src, nx+f*num.w/2, dx+f*den.w/2)
		}
	}
	if okn && okd && ny+f*(num.h+num.d) > dy+num.slack()+den.slack() {
		c.Failf("%q: the numerator ends at y=%g, below the start of the denominator at %g", src, ny+f*(num.h+num.d), dy)
	}
	if open != nil {
		c.Count("parentheses measured", 1)
		for _, p := range []*drawn{open, shut} {
			m := be.Metrics(p.sym, p.fnt, dpi, true)
			top, bottom := p.y-m.Iceberg, p.y+m.Height-m.Iceberg
			if okn && top > ny+num.slack() {
				c.Failf("%q: parenthesis %q starts at y=%g, the numerator at %g", src, p.sym, top, ny)
			}
			if okd && bottom < dy+f*(den.h+math.Max(den.d, 0))-den.slack() {
				c.Failf("%q: parenthesis %q ends at y=%g, the denominator at %g", src, p.sym, bottom, dy+f*(den.h+den.d))
			}
		}
		if okn && nx < open.x-num.slack() || okn && nx+f*num.w > shut.x+1+num.slack() {
			c.Failf("%q: the numerator sticks out of its parentheses", src)
		}
		if okd && dx < open.x-den.slack() || okd && dx+f*den.w > shut.x+1+den.slack() {
			c.Failf("%q: the denominator sticks out of its parentheses", src)
		}
	}
	if len(ops) > 1 {
		c.Distinct(src)
	}
	c.Sample(src)
}

// radicalGeometry measures one radical or overline.
func radicalGeometry(c *Case) {
	g := synthGrammar(c)
	be := newSynth(c)
	be.real = true
	size := pick(c, laySizes)
	dpi := pick(c, []float64{72, 72, 144})
	math_ := c.Intn(4) > 0
	body := genPart(c, g, be, math_, false, size, dpi)
	name := pick(c, []string{`\sqrt`, `\sqrt`, `\overline`})
	n := &N{K: kMacro, T: name, Kids: []*N{{K: kArg, Kids: body.kids}}}
	var root *part
	if name == `\sqrt` && c.Intn(2) == 0 {
		root = genPart(c, g, be, math_, true, size, dpi)
		n.Kids = append([]*N{{K: kOpt, Kids: root.kids}}, n.Kids...)
	}
	top := &N{K: kList, Kids: []*N{n}}
	if math_ {
		top.Kids = []*N{{K: kMath, T: "$", Kids: []*N{n}}}
	}
	src, _ := source(top, noTrivia, "")
	c.Input(src)
	got := lay(c, be, src, size, dpi)
	t := be.UnderlineThickness(font.Font{Size: size, Type: "rm"}, dpi)
	ops := got.ops
	nroot := 0
	if root != nil {
		nroot = len(root.ops)
	}
	width, pad := body.w, 0.0
	nsign := 0
	if name == `\sqrt` {
		width += 4 * t
		pad = 2 * t
		nsign = 1
	}
	nbar := 1
	if width <= 0 {
		nbar = 0
	}
	if len(ops) != nroot+nsign+nbar+len(body.ops) {
		c.Failf("%q is drawn with %d operations instead of %d", src, len(ops), nroot+nsign+nbar+len(body.ops))
	}
	bx, by, ok := placed(c, src, body.laid, ops[nroot+nsign+nbar:], 1, "content")
	if ok {
		rigidly(c, src, body, ops[nroot+nsign+nbar:], 1, bx, by, "content")
		// the content keeps its baseline.
		if want := got.h - body.h; math.Abs(by-want) > 0.5+body.slack() {
			c.Failf("%q: the content starts at y=%g instead of %g", src, by, want)
		}
	}
	if nbar == 1 {
		r := ops[nroot+nsign]
		if !r.rect {
			c.Failf("%q: operation %d is %v instead of the bar", src, nroot+nsign, r)
		}
		if !near(r.x2-r.x, width) {
			c.Failf("%q: bar of length %g instead of %g", src, r.x2-r.x, width)
		}
		if !near(r.y2-r.y, t) {
			c.Failf("%q: bar of thickness %g instead of %g", src, r.y2-r.y, t)
		}
		if ok && math.Abs(bx-r.x-pad) > body.slack() {
			c.Failf("%q: the content starts at x=%g, its bar at %g", src, bx, r.x)
		}
		if ok && body.h > 0 && r.y2 > by+0.5+body.slack() {
			c.Failf("%q: the bar ends at y=%g, the content starts at %g", src, r.y2, by)
		}
		if r.y < -1e-6 {
			c.Failf("%q: the bar is above the drawing: y=%g", src, r.y)
		}
		if name == `\overline` {
			c.Count("overlines measured", 1)
			if !near(r.x, 0) {
				c.Failf("%q: the bar starts at x=%g", src, r.x)
			}
		}
	}
	if nsign == 1 {
		c.Count("radicals measured", 1)
		s := ops[nroot]
		if s.rect || s.sym != `\__sqrt__` && s.sym != "\u221a" {
			c.Failf("%q: operation %d is %v instead of the radical sign", src, nroot, s)
		}
		m := be.Metrics(s.sym, s.fnt, dpi, true)
		topy, bottom := s.y-m.Iceberg, s.y+m.Height-m.Iceberg
		if ok && (topy > by+0.5+body.slack() || bottom < by+body.h+body.d-0.5-body.slack()) {
			c.Failf("%q: the radical sign spans y=%g to %g, the content %g to %g", src, topy, bottom, by, by+body.h+body.d)
		}
		if nbar == 1 {
			if end := s.x + m.Advance; !near(end, ops[nroot+1].x) {
				c.Failf("%q: the radical sign ends at x=%g, its bar starts at %g", src, end, ops[nroot+1].x)
			}
		}
	}
	if root != nil {
		f := shrinkBy * shrinkBy
		rx, ry, ok := placed(c, src, root.laid, ops[:nroot], f, "index")
		if ok {
			rigidly(c, src, root, ops[:nroot], f, rx, ry, "index")
			c.Count("indices compared", 1)
			s := ops[nroot]
			m := be.Metrics(s.sym, s.fnt, dpi, true)
			if math.Abs(rx) > root.slack() {
				c.Failf("%q: the index starts at x=%g", src, rx)
			}
			if base := ry + f*root.h; base > s.y+m.Height-m.Iceberg+root.slack() {
				c.Failf("%q: the index has its baseline at y=%g, below the radical sign (%g)", src, base, s.y)
			}
		}
	}
	if len(ops) > 2 {
		c.Distinct(src)
	}
	c.Sample(src)
}

// flatSeq generates a sequence of symbols and spaces without structure.
func flatSeq(c *Case, g *Grammar, math, opt bool, first *N) []*N {
	var kids []*N
	n := 1 + c.Intn(7)
	if first != nil {
		n = c.Intn(3)
	}
	for i := 0; i < n; i++ {
		var k *N
		switch r := c.Intn(12); {
		case r < 2:
			k = &N{K: kWord, T: g.word()}
		case r < 4:
			k = &N{K: kLit, T: g.num()}
		case r < 6:
			k = g.sym(genCtx{math: math, opt: opt})
		case r == 6:
			k = &N{K: kMacro, T: pick(c, sortedKeys(spaceMacros))}
		case r == 7:
			k = hspace(c)
		case r == 8:
			k = &N{K: kMacro, T: pick(c, functionMacros)}
		case r == 9:
			k = &N{K: kMacro, T: pick(c, symbolMacros)}
		case r == 10:
			k = &N{K: kMacro, T: pick(c, spacedMacros)}
		default:
			k = &N{K: kMacro, T: pick(c, spacedMacros)}
			if math {
				k = &N{K: kSym, T: pick(c, []string{"+", "-", "*", "(", ",", ".", "="})}
			}
		}
		if opt && (k.T == `\rbrack` || k.T == "]") {
			continue
		}
		kids = append(kids, k)
	}
	if first != nil {
		i := c.Intn(len(kids) + 1)
		kids = append(kids[:i], append([]*N{first}, kids[i:]...)...)
	}
	l := &N{K: kList, Kids: kids}
	tidy(l)
	return l.Kids
}

var spacedMacros = func() []string {
	var o []string
	for _, m := range symbolMacros {
		if isSpacedSym(m) || inClass("PunctuationSymbols", m) {
			o = append(o, m)
		}
	}
	return o
}()

func hspace(c *Case) *N {
	arg := &N{K: kArg}
	if c.Intn(3) == 0 {
		arg.Kids = append(arg.Kids, &N{K: kSym, T: pick(c, []string{"-", "+"})})
	}
	v := fmt.Sprint(c.Intn(5))
	if c.Intn(6) == 0 {
		arg.Kids = append(arg.Kids, &N{K: kLit, T: pick(c, []string{"00", "01", "010", "0017", "08", "09.5", "000.5", "1.", "12.", "5.00", "0.1000000000000000055", "00000000000000000000002", "3.14159265358979323846264338327950288", "10", "100", "0.00001", "500", "2000", "12345.678", "70000"})})
		return &N{K: kMacro, T: `\hspace`, Kids: []*N{arg}}
	}
	switch c.Intn(3) {
	case 0:
		v = fmt.Sprintf("%d.%d", c.Intn(4), c.Intn(100))
	case 1:
		v = fmt.Sprintf(".%02d", c.Intn(100))
	}
	arg.Kids = append(arg.Kids, &N{K: kLit, T: v})
	return &N{K: kMacro, T: `\hspace`, Kids: []*N{arg}}
}

func spacing(c *Case) { spacingCase(c, nil) }

func spacingOf(c *Case) {
	all := len(symbolMacros) + len(drawSyms)
	i := c.Index % all
	n := &N{K: kSym}
	if i < len(symbolMacros) {
		n.K, n.T = kMacro, symbolMacros[i]
	} else {
		n.T = drawSyms[i-len(symbolMacros)]
	}
	spacingCase(c, n)
}

// spacingCase compares the distances within a sequence.
func spacingCase(c *Case, first *N) {
	g := synthGrammar(c)
	math_ := first != nil && first.K == kSym || c.Intn(5) > 0
	ctx := c.Intn(12)
	opt := ctx == 7
	seq := flatSeq(c, g, math_, opt, first)
	if len(seq) == 0 {
		c.Skip("empty sequence")
	}
	arg := func(kids ...*N) *N { return &N{K: kArg, Kids: kids} }
	word := func(s string) *N { return &N{K: kWord, T: s} }
	f := 1.0
	var n []*N
	switch ctx {
	case 1:
		if !math_ {
			n = append(append([]*N{word("q")}, &N{K: kSym, T: ","}), seq...)
		} else {
			n = []*N{{K: kList, Kids: seq}}
		}
	case 2:
		n, f = []*N{{K: kMacro, T: `\frac`, Kids: []*N{arg(seq...), arg(word("b"))}}}, shrinkBy
	case 3:
		n, f = []*N{{K: kMacro, T: `\tfrac`, Kids: []*N{arg(word("a")), arg(seq...)}}}, shrinkBy
	case 4:
		n = []*N{{K: kMacro, T: `\dfrac`, Kids: []*N{arg(seq...), arg(word("b"))}}}
	case 5:
		n, f = []*N{{K: kMacro, T: `\binom`, Kids: []*N{arg(word("n")), arg(seq...)}}}, shrinkBy
	case 6:
		n = []*N{{K: kMacro, T: `\sqrt`, Kids: []*N{arg(seq...)}}}
	case 7:
		n, f = []*N{{K: kMacro, T: `\sqrt`, Kids: []*N{{K: kOpt, Kids: seq}, arg(word("x"))}}}, shrinkBy*shrinkBy
	case 8:
		n = []*N{{K: kMacro, T: `\overline`, Kids: []*N{arg(seq...)}}}
	case 9:
		n = []*N{{K: kMacro, T: `\exp`, Kids: []*N{arg(seq...)}}}
	case 10:
		n = append([]*N{{K: kSym, T: "("}}, seq...)
		n = append(n, &N{K: kSym, T: ")"})
	default:
		n = seq
	}
	top := &N{K: kList, Kids: n}
	if math_ {
		top.Kids = []*N{{K: kMath, T: "$", Kids: n}}
		switch c.Intn(4) {
		case 0:
			top.Kids = append([]*N{word("then"), {K: kSym, T: " "}}, top.Kids...)
		case 1:
			top.Kids = append([]*N{{K: kMath, T: "$", Kids: []*N{word("a"), {K: kSym, T: "="}}}}, top.Kids...)
		}
	}
	be := newSynth(c)
	size, dpi := pick(c, laySizes), pick(c, []float64{72, 72, 200})
	tr := c.randTrivia(10, true)
	if c.Intn(2) == 0 {
		tr = noTrivia
	}
	src, _ := source(top, tr, "")
	c.Input(src)
	got := lay(c, be, src, size, dpi)
	m := model(be, top, size, dpi)
	if len(got.ops) != len(m.s.ops) {
		c.Skip("other operations drawn")
	}
	// the expected distances: advances, kerning and spaces, one after the other.
	in := make(map[*N]bool)
	for _, k := range seq {
		in[k] = true
	}
	flat := make(map[*B]float64)
	var run func(kids []*B, x float64) float64
	run = func(kids []*B, x float64) float64 {
		for _, k := range kids {
			if k.k == bChar {
				flat[k] = x
			}
			if k.k == bHList && len(k.kids) > 0 {
				run(k.kids, x)
			}
			x += k.w
		}
		return x
	}
	lm := newLayout(be, size, dpi)
	x := layCtx{math_, map[bool]string{false: "rm", true: "it"}[math_]}
	prefix := []*N(nil)
	if ctx == 10 {
		prefix = []*N{{K: kSym, T: "("}}
	}
	if ctx == 1 && !math_ {
		prefix = n[:2]
	}
	line := shHList(lm.nodes(append(append([]*N{}, prefix...), seq...), x, true, nil), true)
	run(line.kids, 0)
	var want []float64
	line.each(func(b *B) {
		if b.k == bChar && in[lm.marks[b]] {
			want = append(want, f*flat[b])
		}
	})
	var at []drawn
	for i, op := range m.s.ops {
		if op.b.k == bChar && in[m.marks[op.b]] {
			at = append(at, got.ops[i])
		}
	}
	if len(at) != len(want) {
		panic(fmt.Sprintf("harness: %d and %d glyphs of %q", len(at), len(want), src))
	}
	for i := 1; i < len(at); i++ {
		if at[i].rect {
			c.Skip("other operations drawn")
		}
		if !near(at[i].x-at[0].x, want[i]-want[0]) {
			c.Failf("%q: %q is drawn %g behind the %q before it instead of %g", src, at[i].sym, at[i].x-at[i-1].x, at[i-1].sym, want[i]-want[i-1])
		}
		if !near(at[i].y, at[0].y) {
			c.Failf("%q: %q is drawn on another line than %q", src, at[i].sym, at[0].sym)
		}
		c.Count("distances compared", 1)
	}
	for i, k := range seq {
		switch {
		case k.K == kSym && !math_:
		case k.T == `\hspace`:
			c.Count("custom spaces", 1)
		case isSpaceMacro(k.T):
			c.Count("spacing commands", 1)
		case inClass("BinaryOperators", k.T):
			if opening(seq, i) {
				c.Count("binary operators unspaced", 1)
			} else {
				c.Count("binary operators spaced", 1)
			}
		case isSpacedSym(k.T):
			c.Count("relations and arrows spaced", 1)
		case inClass("PunctuationSymbols", k.T):
			c.Count("punctuation spaced", 1)
		case k.K == kLit && strings.Contains(k.T, "."):
			c.Count("decimal separators", 1)
		case k.K == kMacro && inClass("FunctionNames", k.T[1:]):
			c.Count("function names", 1)
		}
	}
	// leading and trailing space shows in the width.
	if len(top.Kids) == 1 && (ctx == 0 || ctx == 1 || ctx == 10 || ctx == 11) {
		c.Count("widths compared", 1)
		if !near(got.w, m.root.w) {
			c.Failf("%q: width %.9g instead of %.9g", src, got.w, m.root.w)
		}
	}
	if len(at) > 0 && len(top.Kids) == 1 && (ctx == 0 || ctx == 11) && !near(at[0].x, want[0]) {
		c.Failf("%q starts at x=%g instead of %g", src, at[0].x, want[0])
	}
	c.Distinct(src)
	c.Sample(src)
}

// spacingAround compares the space that one symbol takes between two
// constructs with what its class says.
func spacingAround(c *Case) {
	g := synthGrammar(c)
	inner := func() *N {
		a := &N{K: kArg, Kids: flatSeq(c, g, true, false, nil)}
		if c.Intn(8) == 0 {
			a.Kids = nil
		}
		return a
	}
	construct := func() *N {
		switch c.Intn(6) {
		case 0:
			return &N{K: kMacro, T: pick(c, []string{`\frac`, `\dfrac`, `\tfrac`, `\binom`}), Kids: []*N{inner(), inner()}}
		case 1:
			return &N{K: kMacro, T: `\sqrt`, Kids: []*N{inner()}}
		case 2:
			return &N{K: kMacro, T: `\sqrt`, Kids: []*N{{K: kOpt, Kids: flatSeq(c, g, true, true, nil)}, inner()}}
		case 3:
			return &N{K: kMacro, T: `\overline`, Kids: []*N{inner()}}
		case 4:
			return &N{K: kMacro, T: `\exp`, Kids: []*N{inner()}}
		default:
			return &N{K: kMacro, T: pick(c, functionMacros)}
		}
	}
	a, b := construct(), construct()
	var sym *N
	switch c.Intn(6) {
	case 0:
		sym = &N{K: kMacro, T: pick(c, symbolMacros)}
	case 1:
		sym = &N{K: kMacro, T: pick(c, sortedKeys(spaceMacros))}
	case 2:
		sym = hspace(c)
	case 3:
		sym = &N{K: kMacro, T: pick(c, spacedMacros)}
	default:
		sym = &N{K: kSym, T: pick(c, drawSyms)}
	}
	be := newSynth(c)
	size, dpi := pick(c, laySizes), pick(c, []float64{72, 72, 200})
	tr := noTrivia
	if c.Intn(2) == 0 {
		tr = c.randTrivia(15, true)
	}
	far := ""
	if c.Intn(4) == 0 {
		// the symbol is far from the start of the expression.
		far = "%" + strings.Repeat("c", 1<<uint(5+c.Intn(8))+c.Intn(40)) + "\n"
		c.Count("symbols behind a long comment", 1)
	}
	where := c.Intn(5)
	width := func(kids ...*N) (float64, string) {
		n := []*N{{K: kMath, T: "$", Kids: kids}}
		switch where {
		case 0:
			n[0].Kids = []*N{{K: kList, Kids: kids}}
		case 1:
			n[0].Kids = []*N{{K: kMacro, T: `\overline`, Kids: []*N{{K: kArg, Kids: kids}}}}
		}
		src, _ := source(&N{K: kList, Kids: n}, tr, "")
		src = far + src
		c.Input(src)
		return lay(c, be, src, size, dpi).w, src
	}
	line := where
	if line == 1 {
		where = 2
	}
	wa, _ := width(a)
	wb, _ := width(b)
	where = line
	// a box with a line above isn't narrower than nothing.
	total := func(w float64) float64 {
		if where == 1 {
			return max(0, w)
		}
		return w
	}
	lm := newLayout(be, size, dpi)
	x := layCtx{true, "it"}
	check := func(opens bool, got, rest float64, src string) {
		// a list that holds something else keeps the symbol from kerning.
		want := shHList(append(lm.nodes([]*N{sym}, x, opens, nil), shHList(nil, true)), true).w
		if !opens && (inClass("BinaryOperators", sym.T)) {
			want = shHList([]*B{lm.symbol(sym, x, false)}, true).w
		}
		if math.Abs(got-total(rest+want)) > 1e-9*(math.Abs(wa)+math.Abs(wb)+math.Abs(want))+1e-9 {
			c.Failf("%q: %q takes %.9g there instead of %.9g", src, sym.T, got-rest, want)
		}
		c.Count("spaces between constructs", 1)
		c.Distinct(src)
	}
	w, src := width(a, sym, b)
	check(false, w, wa+wb, src)
	w, src = width(sym, b)
	check(true, w, wb, src)
	w, src = width(a, sym, sym, b)
	two := shHList(append(lm.nodes([]*N{{K: kMacro, T: `\sin`}, sym, sym}, x, false, nil), shHList(nil, true)), true).w -
		shHList(append(lm.nodes([]*N{{K: kMacro, T: `\sin`}}, x, false, nil), shHList(nil, true)), true).w
	if math.Abs(w-total(wa+wb+two)) > 1e-9*(math.Abs(wa)+math.Abs(wb)+math.Abs(two))+1e-9 {
		c.Failf("%q: twice %q takes %.9g there instead of %.9g", src, sym.T, w-wa-wb, two)
	}
}

// spacingArgument compares the distances within a function, its argument and
// what surrounds it.
func spacingArgument(c *Case) {
	g := synthGrammar(c)
	f := &N{K: kMacro, T: `\exp`, Kids: []*N{{K: kArg, Kids: flatSeq(c, g, true, false, nil)}}}
	if c.Intn(6) == 0 {
		f.Kids[0].Kids = nil
	}
	kids := []*N{f}
	if c.Intn(2) == 0 {
		kids = append(flatSeq(c, g, true, false, nil), f)
	}
	if c.Intn(2) == 0 {
		kids = append(kids, flatSeq(c, g, true, false, nil)...)
	}
	l := &N{K: kList, Kids: kids}
	tidy(l)
	top := &N{K: kList, Kids: []*N{{K: kMath, T: "$", Kids: l.Kids}}}
	be := newSynth(c)
	size, dpi := pick(c, laySizes), pick(c, []float64{72, 72, 200})
	src, _ := source(top, noTrivia, "")
	c.Input(src)
	got := lay(c, be, src, size, dpi)
	m := model(be, top, size, dpi)
	if len(got.ops) != len(m.s.ops) {
		c.Skip("other operations drawn")
	}
	for i, op := range got.ops {
		if !near(op.x, m.s.ops[i].x) {
			c.Failf("%q: %q is drawn at x=%.9g instead of %.9g", src, op.sym, op.x, m.s.ops[i].x)
		}
	}
	if !near(got.w, m.root.w) {
		c.Failf("%q: width %.9g instead of %.9g", src, got.w, m.root.w)
	}
	c.Count("arguments of functions", 1)
	c.Distinct(src)
}

// anySize is a font size off the usual grid.
func anySize(c *Case) float64 {
	switch c.Intn(3) {
	case 0:
		return pick(c, laySizes)
	case 1:
		return 0.5 + 50*c.Float64()
	}
	return math.Pow(10, -2+5*c.Float64())
}

// scaling compares the layout at two sizes.
func scaling(c *Case) {
	g := synthGrammar(c)
	top, src := drawable(c, g, c.Intn(5), true)
	s1 := anySize(c)
	k := pick(c, []float64{2, 0.5, 3, 10, 0.1, 1.37, 100, 7, 0.1 + 20*c.Float64()})
	if c.Intn(2) == 0 {
		be := newSynth(c)
		a, b := lay(c, be, src, s1, 72), lay(c, be, src, s1*k, 72)
		sizes(c, src, s1, k, a.w, a.h, a.d, b.w, b.h, b.d)
		c.Count("layouts at two sizes", 1)
		if rigid(top.Kids) {
			for i := range a.ops {
				w := a.ops[i]
				w.x, w.y, w.fnt.Size = w.x*k, w.y*k, w.fnt.Size*k
				if i >= len(b.ops) || !sameDrawn(w, b.ops[i]) {
					c.Failf("%q at size %g and %g: operation %d does not scale", src, s1, s1*k, i)
				}
			}
		}
		return
	}
	top, src = drawable(c, drawGrammar(c), c.Intn(5), true)
	_ = top
	fs := fonts()[pick(c, fontNames)]
	box := func(size float64) (w, h, d float64) {
		n, err := mtex.Parse(src, size, 72, newTTF(fs))
		if err != nil {
			c.Failf("%q cannot be laid out: %v", src, err)
		}
		return n.Width(), n.Height(), n.Depth()
	}
	w, h, d := box(s1)
	w2, h2, d2 := box(s1 * k)
	sizes(c, src, s1, k, w, h, d, w2, h2, d2)
	c.Count("layouts at two sizes", 1)
}

func sizes(c *Case, src string, size, k, w, h, d, w2, h2, d2 float64) {
	ok := func(a, b float64) bool {
		return math.Abs(a*k-b) <= 1e-6+1e-6*math.Abs(b)
	}
	c.Count("sizes compared", 1)
	if !ok(w, w2) || !ok(h, h2) || !ok(d, d2) {
		c.Failf("%q: size %g x %g + %g at font size %g, but %g x %g + %g at %g times that", src, w, h, d, size, w2, h2, d2, k)
	}
	c.Distinct(fmt.Sprint(src, size, k))
	if w > 0 {
		c.Sample(fmt.Sprint(src, " at ", size, " times ", k))
	}
}

// resolution compares drawings at several resolutions.
func resolution(c *Case) {
	_, src := drawable(c, drawGrammar(c), c.Intn(4), true)
	fs := fonts()[pick(c, fontNames)]
	size := pick(c, laySizes)
	a, err := render(src, size, 72, fs)
	if err != nil {
		c.Failf("%q cannot be drawn: %v", src, err)
	}
	for n := 1 + c.Intn(3); n > 0; n-- {
		dpi := pick(c, []float64{36, 71.9, 96, 100, 144, 300, 1200, 1, c.Float64() * 1000, 0, -1, -72, 1e-6, 1e6, 1e300, math.Inf(1), math.Round(1 + c.Float64()*2000)})
		b, err := render(src, size, dpi, fs)
		if err != nil {
			c.Failf("%q cannot be drawn at %g dpi: %v", src, dpi, err)
		}
		if b.dpi != dpi {
			c.Failf("%q: the renderer is asked for %g dpi instead of %g", src, b.dpi, dpi)
		}
		if a.w != b.w || a.h != b.h {
			c.Failf("%q: %g x %g inches at 72 dpi, %g x %g at %g", src, a.w, a.h, b.w, b.h, dpi)
		}
		if oa, ob := opsString(a.ops), opsString(b.ops); oa != ob {
			c.Failf("%q: drawn differently at %g dpi:\n%s\n%s", src, dpi, clip(oa), clip(ob))
		}
		c.Count("resolutions compared", 1)
		c.Distinct(fmt.Sprint(src, size, dpi))
	}
	if a.dpi != 72 {
		c.Failf("%q: the renderer is asked for %g dpi instead of 72", src, a.dpi)
	}
}

var _ = utf8.RuneError
var _ = latex.ParseExpr
