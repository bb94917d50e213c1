package main

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
	"sync"
	"unicode"

	"github.com/go-fonts/latin-modern/lmroman10bold"
	"github.com/go-fonts/latin-modern/lmroman10bolditalic"
	"github.com/go-fonts/latin-modern/lmroman10italic"
	"github.com/go-fonts/latin-modern/lmroman10regular"
	"github.com/go-fonts/liberation/liberationserifbold"
	"github.com/go-fonts/liberation/liberationserifbolditalic"
	"github.com/go-fonts/liberation/liberationserifitalic"
	"github.com/go-fonts/liberation/liberationserifregular"
	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/font"
	"github.com/go-latex/latex/font/ttf"
	xfont "golang.org/x/image/font"
	"golang.org/x/image/font/gofont/gobold"
	"golang.org/x/image/font/gofont/gobolditalic"
	"golang.org/x/image/font/gofont/goitalic"
	"golang.org/x/image/font/gofont/goregular"
	"golang.org/x/image/font/sfnt"
	"golang.org/x/image/math/fixed"
)

// ownFonts are the monitors' own copies of the fonts of a set, by slot.
var ownFontCache = map[string]*ttf.Fonts{}

func ownFonts(set string) *ttf.Fonts {
	if f := ownFontCache[set]; f != nil {
		return f
	}
	load := func(rm, it, bf, bfit []byte) *ttf.Fonts {
		f := &ttf.Fonts{Rm: mustFont(rm), It: mustFont(it), Bf: mustFont(bf), BfIt: mustFont(bfit)}
		f.Default = f.Rm
		return f
	}
	var f *ttf.Fonts
	switch set {
	case "go":
		f = load(goregular.TTF, goitalic.TTF, gobold.TTF, gobolditalic.TTF)
	case "lm":
		f = load(lmroman10regular.TTF, lmroman10italic.TTF, lmroman10bold.TTF, lmroman10bolditalic.TTF)
	case "liberation":
		f = load(liberationserifregular.TTF, liberationserifitalic.TTF, liberationserifbold.TTF, liberationserifbolditalic.TTF)
	default:
		f = fonts()[set] // made by the harness
	}
	ownFontCache[set] = f
	return f
}

func glyphIndex(f *sfnt.Font, r rune) sfnt.GlyphIndex {
	var b sfnt.Buffer
	i, err := f.GlyphIndex(&b, r)
	if err != nil {
		panic(err)
	}
	return i
}

// glyphSpec is a character that a source denotes, in reading order.
type glyphSpec struct {
	r      rune
	italic bool // drawn with the italic font by real fonts
	math   bool
	name   bool // part of a function name
	sign   bool // radical or parenthesis of a construct
}

// specs lists what a tree denotes: written from the property alone. The
// radical sign of a root comes after its index.
func specs(n *N, math bool, out []glyphSpec) []glyphSpec {
	char := func(r rune, m bool) {
		if m && r == '-' {
			r = 0x2212
		}
		out = append(out, glyphSpec{r: r, italic: math && unicode.IsLetter(r), math: math})
	}
	switch n.K {
	case kMath:
		math = true
	case kWord, kLit, kSym:
		if n.K == kSym && n.T == " " && math {
			return out
		}
		for _, r := range n.T {
			char(r, math)
		}
		return out
	case kMacro:
		switch {
		case isSpaceMacro(n.T) || n.T == `\hspace`:
			return out
		case inClass2(n.T, symbolMacros...):
			r := symbolRune[n.T[1:]]
			out = append(out, glyphSpec{r: r, italic: math && unicode.IsLetter(r), math: math})
			return out
		case inClass("FunctionNames", n.T[1:]):
			for _, r := range n.T[1:] {
				out = append(out, glyphSpec{r: r, math: math, name: true})
			}
		case n.T == `\sqrt`:
			for i, k := range n.Kids {
				if i == len(n.Kids)-1 {
					out = append(out, glyphSpec{r: 0x221a, math: math, sign: true})
				}
				out = specs(k, math, out)
			}
			return out
		case n.T == `\binom`:
			out = append(out, glyphSpec{r: '(', math: math, sign: true})
			for _, k := range n.Kids {
				out = specs(k, math, out)
			}
			return append(out, glyphSpec{r: ')', math: math, sign: true})
		}
	}
	for _, k := range n.Kids {
		out = specs(k, math, out)
	}
	return out
}

// rightGlyphs compares a drawing with real fonts.
func rightGlyphs(c *Case, src, set string, want []glyphSpec, ops []drawtex.Op) {
	own := ownFonts(set)
	i := 0
	for _, op := range ops {
		g, ok := op.(drawtex.GlyphOp)
		if !ok {
			continue
		}
		if i >= len(want) {
			c.Failf("%q (%s): unexpected glyph %q", src, set, g.Glyph.Symbol)
		}
		w := want[i]
		i++
		f := own.Rm
		if w.italic {
			f = own.It
			c.Count("italic glyphs", 1)
		} else {
			c.Count("roman glyphs", 1)
		}
		if w.name {
			c.Count("function name glyphs", 1)
		}
		c.Set("characters with fonts", fmt.Sprint(w.r, set, w.italic))
		if g.Glyph.Symbol != string(w.r) {
			c.Failf("%q (%s): glyph %d is %q instead of %q (U+%04X)", src, set, i, g.Glyph.Symbol, w.r, w.r)
		}
		if psName(g.Glyph.Font) != psName(f) {
			c.Failf("%q (%s): glyph %d, %q, is drawn with %s instead of %s", src, set, i, g.Glyph.Symbol, psName(g.Glyph.Font), psName(f))
		}
		if g.Glyph.Postscript != psName(f) {
			c.Failf("%q (%s): glyph %d, %q, is labelled %q instead of %q", src, set, i, g.Glyph.Symbol, g.Glyph.Postscript, psName(f))
		}
		if idx := glyphIndex(f, w.r); g.Glyph.Num != idx {
			c.Failf("%q (%s): glyph %d, %q, is number %d instead of %d of %s", src, set, i, g.Glyph.Symbol, g.Glyph.Num, idx, psName(f))
		}
	}
	if i < len(want) {
		c.Failf("%q (%s): %d glyphs are drawn instead of %d: %q is missing", src, set, i, len(want), want[i].r)
	}
}

// rightSyms compares a drawing with the synthetic backend, which gets the
// names of the symbols.
func rightSyms(c *Case, src string, want []glyphSpec, ops []drawn) {
	i := 0
	for _, op := range ops {
		if op.rect {
			continue
		}
		if i >= len(want) {
			c.Failf("%q: unexpected glyph %q", src, op.sym)
		}
		w := want[i]
		i++
		r, ok := resolve(op.sym, w.math || strings.HasPrefix(op.sym, `\`) && len(op.sym) > 1)
		if !ok || r != w.r {
			c.Failf("%q: glyph %d is %q instead of %q", src, i, op.sym, w.r)
		}
		typ := "rm"
		if w.math && !w.name {
			typ = "it" // the backend uses roman for what isn't a letter.
		}
		if op.fnt.Type != typ && !(typ == "it" && !w.italic && op.fnt.Type == "rm") {
			c.Failf("%q: glyph %d, %q, is drawn with font type %q instead of %q", src, i, op.sym, op.fnt.Type, typ)
		}
		c.Count("symbols passed to backends", 1)
	}
	if i < len(want) {
		c.Failf("%q: %d glyphs are drawn instead of %d: %q is missing", src, i, len(want), want[i].r)
	}
}

// contexts put a node somewhere.
func inContext(i int, n *N) *N {
	arg := func(kids ...*N) *N { return &N{K: kArg, Kids: kids} }
	w := func(s string) *N { return &N{K: kWord, T: s} }
	mac := func(name string, kids ...*N) *N { return &N{K: kMacro, T: name, Kids: kids} }
	m := func(kids ...*N) *N { return &N{K: kList, Kids: []*N{{K: kMath, T: "$", Kids: kids}}} }
	switch i {
	case 0:
		return m(n)
	case 1:
		return m(w("x"), n, w("y"))
	case 2:
		return m(mac(`\frac`, arg(n), arg(w("a"), n)))
	case 3:
		return m(mac(`\sqrt`, &N{K: kOpt, Kids: []*N{n}}, arg(n)))
	case 4:
		return m(mac(`\overline`, arg(n)), n)
	case 5:
		return m(mac(`\exp`, arg(n)), &N{K: kList, Kids: []*N{n}})
	case 6:
		return m(mac(`\binom`, arg(mac(`\tfrac`, arg(n), arg(n))), arg(mac(`\dfrac`, arg(n), arg(n)))), n)
	case 7: // and outside of math
		l := m(n)
		l.Kids = append([]*N{n, w("z")}, l.Kids...)
		l.Kids = append(l.Kids, n, w("z"))
		return l
	case 8:
		return &N{K: kList, Kids: []*N{n}}
	case 9: // outside of math only
		return &N{K: kList, Kids: []*N{mac(`\dfrac`, arg(n), arg(w("q"))), w("z"), n}}
	default:
		return m(mac(`\sin`), n, mac(`\arctan`), &N{K: kLit, T: "1"})
	}
}

const nContexts = 11

// everyChar lists everything that draws one character.
var everyChar = func() []*N {
	var o []*N
	for _, s := range symbolMacros {
		o = append(o, &N{K: kMacro, T: s})
	}
	for _, s := range drawSyms {
		o = append(o, &N{K: kSym, T: s})
	}
	for r := 'a'; r <= 'z'; r++ {
		o = append(o, &N{K: kWord, T: string(r)}, &N{K: kWord, T: string(unicode.ToUpper(r))})
	}
	for r := '0'; r <= '9'; r++ {
		o = append(o, &N{K: kLit, T: string(r)})
	}
	for _, f := range functionMacros {
		o = append(o, &N{K: kMacro, T: f})
	}
	for _, s := range []string{"é", "ß", "Ω", "д", "ħ", "א", "日", "ﬁ", "ŉ", "Ǆ"} {
		o = append(o, &N{K: kWord, T: s})
	}
	return o
}()

// textOnly are literal characters for text mode.
var textOnly = []string{"/", "?", "'", "[", "]", "!"}

func init() {
	register(&Check{
		ID:   "C14",
		Rule: "a case draws an expression and compares the character, font and glyph number of every glyph with those the tree denotes, looked up in the monitors' own copies of the fonts; distinct by source and font set. Every symbol command, letter, digit, literal symbol and function name is drawn in every context with every font set",
		Need: []string{"italic glyphs", "roman glyphs", "function name glyphs", "symbols passed to backends", "hyphens of text"},
		Families: []*Family{
			{Name: "every character", Quick: len(everyChar) * nContexts, Thorough: len(everyChar) * nContexts * len(fontNames), Run: func(c *Case) {
				i := c.Index
				n := everyChar[i%len(everyChar)]
				i /= len(everyChar)
				ctx := i % nContexts
				i /= nContexts
				sets := []string{fontNames[i%len(fontNames)]}
				if !c.Thorough() && ctx < 2 {
					sets = fontNames
				}
				if n.K == kSym && n.T == "-" && ctx >= 7 && ctx != 10 {
					c.Skip("hyphen in text")
				}
				top := inContext(ctx, n)
				src, _ := source(top, noTrivia, "")
				c.Input(src)
				want := specs(top, false, nil)
				for _, set := range sets {
					r, err := render(src, 12, 72, fonts()[set])
					if err != nil {
						c.Failf("%q cannot be drawn: %v", src, err)
					}
					rightGlyphs(c, src, set, want, r.ops)
					c.Distinct(set + src)
				}
				be := newSynth(c)
				rightSyms(c, src, want, lay(c, be, src, 12, 72).ops)
				c.Set("characters in contexts", fmt.Sprint(n, ctx))
				c.Sample(src)
			}},
			{Name: "every letter", Quick: len(letterBlocks()), Thorough: len(letterBlocks()), Run: func(c *Case) {
				top, src := letterBlock(c)
				want := specs(top, false, nil)
				set := pick(c, fontNames)
				r, err := render(src, 12, 72, fonts()[set])
				if err != nil {
					c.Failf("%q cannot be drawn: %v", src, err)
				}
				rightGlyphs(c, src, set, want, r.ops)
				rightSyms(c, src, want, lay(c, newSynth(c), src, 12, 72).ops)
				c.Count("letters", len(r.ops))
				c.Distinct(set + src)
			}},
			{Name: "generated", Quick: 60000, Thorough: 400000, Run: func(c *Case) {
				top, src := drawable(c, fontGrammar(c), c.Intn(6), true)
				set := pick(c, fontNames)
				if c.Intn(4) == 0 {
					fonts()
					set = pick(c, ownSets)
				}
				r, err := render(src, pick(c, laySizes), pick(c, []float64{72, 150}), fonts()[set])
				if err != nil {
					c.Failf("%q cannot be drawn: %v", src, err)
				}
				rightGlyphs(c, src, set, specs(top, false, nil), r.ops)
				c.Distinct(set + src)
				c.Sample(src)
			}},
			{Name: "generated, synthetic", Quick: 100000, Thorough: 500000, Run: func(c *Case) {
				top, src := drawable(c, synthGrammar(c), c.Intn(6), true)
				be := newSynth(c)
				rightSyms(c, src, specs(top, false, nil), lay(c, be, src, 12, 72).ops)
				c.Distinct(src)
			}},
			{Name: "text", Quick: 7500, Thorough: 60000, Run: func(c *Case) {
				// characters outside of math, hyphens included, in full size.
				top := &N{K: kList}
				for i := 1 + c.Intn(8); i > 0; i-- {
					switch c.Intn(6) {
					case 0:
						top.Kids = append(top.Kids, &N{K: kWord, T: pick(c, append(latin, intlWords...))})
					case 1:
						top.Kids = append(top.Kids, &N{K: kSym, T: pick(c, textOnly)})
					case 2:
						top.Kids = append(top.Kids, &N{K: kLit, T: fmt.Sprint(c.Intn(100))})
					case 3:
						top.Kids = append(top.Kids, &N{K: kMath, T: "$", Kids: []*N{{K: kWord, T: "x"}, {K: kSym, T: "-"}, {K: kWord, T: "y"}}})
					default:
						top.Kids = append(top.Kids, &N{K: kSym, T: "-"})
						c.Count("hyphens of text", 1)
					}
				}
				src, _ := source(top, noTrivia, "")
				c.Input(src)
				set := pick(c, fontNames)
				size := pick(c, laySizes)
				r, err := render(src, size, 72, fonts()[set])
				if err != nil {
					c.Failf("%q cannot be drawn: %v", src, err)
				}
				rightGlyphs(c, src, set, specs(top, false, nil), r.ops)
				c.Distinct(set + src)
			}},
			{Name: "hyphen in a small fraction", Quick: 1, Thorough: 1, Run: func(c *Case) {
				const src = `\frac{a-b}{c}`
				c.Input(src)
				r, err := render(src, 12, 72, nil)
				if err != nil {
					c.Failf("%q cannot be drawn: %v", src, err)
				}
				for _, op := range r.ops {
					if g, ok := op.(drawtex.GlyphOp); ok && g.Glyph.Symbol == "\u2212" {
						c.Known("text-hyphen", "%q draws a minus sign (U+2212) for the hyphen outside of math: the interface of RenderGlyph does not tell the two", src)
						return
					}
				}
			}},
		},
	})

	register(&Check{
		ID:   "C20",
		Rule: "a case asks a font backend a series of questions in random order and compares each answer with the font file as read by the monitors, and with a fresh backend; distinct by question",
		Need: []string{"metrics compared", "advances compared", "bounds compared", "kerning compared", "kerned pairs", "x-heights compared", "thicknesses compared", "glyphs drawn", "rectangles drawn", "drawn anywhere", "answers of fresh backends", "font slots compared", "questions to font sets of users"},
		Families: []*Family{
			{Name: "questions", Quick: 200000, Thorough: 3000000, Run: func(c *Case) { questions(c) }},
			{Name: "every glyph", Quick: len(everyChar) * len(fontNames), Thorough: len(everyChar) * len(fontNames) * 8, Run: func(c *Case) {
				n := everyChar[c.Index%len(everyChar)]
				if n.K == kMacro && inClass("FunctionNames", n.T[1:]) {
					c.Skip("not a character")
				}
				set := fontNames[c.Index/len(everyChar)%len(fontNames)]
				q := question{kind: 0, sym: n.T, typ: pick(c, []string{"rm", "it", "bf", "regular", "default"}), size: pick(c, laySizes), dpi: 72, math: true}
				be := newTTF(fonts()[set])
				q.compare(c, set, be, q.ask(be))
				q.kind = 4
				q.compare(c, set, be, q.drawOn(c, set))
			}},
			{Name: "many questions", Quick: 24, Thorough: 800, CPU: 120, Run: func(c *Case) {
				// one backend, thousands of different questions: none is
				// answered differently because of the others.
				set := pick(c, fontNames)
				be := newTTF(fonts()[set])
				n := 1 << (10 + c.Intn(5))
				var old []question
				var was []answer
				for i := 0; i < n; i++ {
					q := question{kind: c.Intn(4), sym: pick(c, questionSyms), sym2: pick(c, questionSyms), typ: pick(c, []string{"rm", "it", "bf", "regular"}), name2: "default",
						size: 1 + 50*c.Float64(), dpi: 72, math: true}
					q.typ2, q.size2 = q.typ, q.size
					if c.Intn(4) > 0 {
						q.kind = 0
					}
					if ps := kernedPairs(set); c.Intn(4) == 0 && len(ps) > 0 {
						p := pick(c, ps)
						q.kind, q.sym, q.sym2, q.typ, q.typ2 = 1, p[0], p[1], p[2], p[2]
					}
					a := q.ask(be)
					if i%64 == 0 || i > n-64 {
						q.compare(c, set, be, a)
						if fresh := q.ask(newTTF(fonts()[set])); a.m != fresh.m || a.v != fresh.v {
							c.Failf("%s: %v: %v after %d other questions, %v without", set, q, a, i, fresh)
						}
						old, was = append(old, q), append(was, a)
					}
				}
				for i, q := range old {
					if a := q.ask(be); a.m != was[i].m || a.v != was[i].v {
						c.Failf("%s: %v: %v after %d questions, %v before", set, q, a, n, was[i])
					}
				}
				c.Count("answers of fresh backends", len(old))
				c.Set("questions to one backend (powers of two)", fmt.Sprint(bits.Len(uint(n))))
			}},
			{Name: "slots", Quick: 6, Thorough: 6, Run: func(c *Case) { slots(c) }},
			{Name: "units", Quick: 2, Thorough: 2, Run: func(c *Case) {
				// the advance of fonts with other than 2048 units.
				set := []string{"lm", "stix"}[c.Index]
				be := newTTF(fonts()[set])
				got := be.Metrics("a", font.Font{Name: "default", Type: "rm", Size: 12}, 72, true).Advance
				f := ownFonts(set).Rm
				want := float64(unitsAdvance(f, glyphIndex(f, 'a'))) / float64(f.UnitsPerEm()) * 12
				if math.Abs(got-want) > 1e-3 {
					c.Known("advance-units-"+set, "the advance of glyphs of fonts with %d units per em is reported as if they had 2048: %g instead of %g for %q of %s at 12 points", f.UnitsPerEm(), got, want, "a", psName(f))
				}
			}},
			{Name: "minus", Quick: 1, Thorough: 1, Run: func(c *Case) {
				// the cache does not tell text from math.
				fnt := font.Font{Name: "default", Type: "rm", Size: 12}
				be := newTTF(nil)
				a := be.Metrics("-", fnt, 72, false)
				be = newTTF(nil)
				be.Metrics("-", fnt, 72, true)
				if b := be.Metrics("-", fnt, 72, false); a != b {
					c.Known("minus-cache", "the metrics of \"-\" outside of math depend on whether those of the minus sign have been asked before: %v and %v", a, b)
				}
			}},
		},
	})
}

// question is a call of a method of a font backend.
type question struct {
	kind      int // 0: metrics, 1: kern, 2: x-height, 3: thickness, 4: glyph, 5: rectangle
	sym, sym2 string
	typ, typ2 string
	name2     string
	size      float64
	size2     float64
	dpi       float64
	math      bool
	x, y      float64
	x2, y2    float64
}

func (q question) String() string {
	f := fmt.Sprintf("%s, size %g", q.typ, q.size)
	switch q.kind {
	case 0:
		return fmt.Sprintf("metrics of %q (%s, dpi %g, math %v)", q.sym, f, q.dpi, q.math)
	case 1:
		return fmt.Sprintf("kerning of %q (%s) and %q (%s %s, size %g)", q.sym, f, q.sym2, q.name2, q.typ2, q.size2)
	case 2:
		return fmt.Sprintf("x-height (%s, dpi %g)", f, q.dpi)
	case 3:
		return fmt.Sprintf("rule thickness (%s, dpi %g)", f, q.dpi)
	case 5:
		return fmt.Sprintf("rectangle (%g, %g) (%g, %g)", q.x, q.y, q.x2, q.y2)
	}
	return fmt.Sprintf("glyph %q (%s, dpi %g)", q.sym, f, q.dpi)
}

func (q question) font() font.Font {
	return font.Font{Name: "default", Type: q.typ, Size: q.size}
}

type answer struct {
	m   font.Metrics
	v   float64
	ops []drawtex.Op
}

func (q question) ask(be *ttf.Backend) (a answer) {
	switch q.kind {
	case 0:
		a.m = be.Metrics(q.sym, q.font(), q.dpi, q.math)
	case 1:
		a.v = be.Kern(q.font(), q.sym, font.Font{Name: q.name2, Type: q.typ2, Size: q.size2}, q.sym2, q.dpi)
	case 2:
		a.v = be.XHeight(q.font(), q.dpi)
	case 3:
		a.v = be.UnderlineThickness(q.font(), q.dpi)
	case 4:
		be.RenderGlyph(q.x, q.y, q.font(), q.sym, q.dpi)
	case 5:
		be.RenderRectFilled(q.x, q.y, q.x2, q.y2)
	}
	return a
}

// drawOn draws the glyph on a canvas of its own.
func (q question) drawOn(c *Case, set string) answer {
	cnv := drawtex.New()
	var be *ttf.Backend
	if fs := fonts()[set]; fs == nil {
		be = ttf.New(cnv)
	} else {
		be = ttf.NewFrom(cnv, fs)
	}
	q.ask(be)
	return answer{ops: cnv.Ops()}
}

func unitsAdvance(f *sfnt.Font, i sfnt.GlyphIndex) int {
	var b sfnt.Buffer
	adv, err := f.GlyphAdvance(&b, i, fixed.I(int(f.UnitsPerEm())), xfont.HintingNone)
	if err != nil {
		panic(err)
	}
	return adv.Round()
}

// slotOf is the font that draws a character with a font type.
func slotOf(set, typ string, r rune) *sfnt.Font {
	own := ownFonts(set)
	switch typ {
	case "it":
		if r < 0x10000 && !unicode.IsLetter(r) {
			return own.Rm
		}
		return own.It
	case "bf":
		return own.Bf
	case "default":
		return own.Default
	}
	return own.Rm
}

func (q question) compare(c *Case, set string, be *ttf.Backend, a answer) {
	bad := func(what string, got, want float64) {
		c.Failf("%s: %v: %s is %g instead of %g", set, q, what, got, want)
	}
	within := func(what string, got, want, tol float64) {
		if !(math.Abs(got-want) <= tol) {
			bad(what, got, want)
		}
	}
	c.Distinct(set + q.String())
	switch q.kind {
	case 0:
		r, ok := resolve(q.sym, q.math)
		if !ok {
			panic("harness: " + q.sym)
		}
		f := slotOf(set, q.typ, r)
		var b sfnt.Buffer
		upem := float64(f.UnitsPerEm())
		bnds, _, err := f.GlyphBounds(&b, glyphIndex(f, r), fixed.I(int(upem)), xfont.HintingNone)
		if err != nil {
			panic(err)
		}
		u := func(v fixed.Int26_6) float64 { return float64(v) / 64 / upem * q.size }
		tol := q.size / 12 * 2 / 64 // bounds are recorded in 1/64 of a pixel at 12 points.
		within("XMin", a.m.XMin, u(bnds.Min.X), tol)
		within("XMax", a.m.XMax, u(bnds.Max.X), tol)
		within("YMin", a.m.YMin, u(-bnds.Max.Y), tol)
		within("YMax", a.m.YMax, u(-bnds.Min.Y), tol)
		within("Width", a.m.Width, a.m.XMax-a.m.XMin, 1e-6*q.size)
		within("Height", a.m.Height, a.m.YMax-a.m.YMin, 1e-6*q.size)
		within("Iceberg", a.m.Iceberg, a.m.YMax, 1e-6*q.size)
		c.Count("metrics compared", 1)
		c.Count("bounds compared", 4)
		units := float64(unitsAdvance(f, glyphIndex(f, r)))
		// a known finding: all fonts are taken to have 2048 units.
		if want := units / 2048 * q.size; upem == 2048 || math.Abs(a.m.Advance-want) > 1e-4*q.size {
			within("Advance", a.m.Advance, units/upem*q.size, 1e-4*q.size)
		}
		c.Count("advances compared", 1)
		if slanted := q.typ == "it" && (unicode.IsLetter(r) || r >= 0x10000) || q.sym == `\int` || q.sym == `\oint`; a.m.Slanted != slanted {
			c.Failf("%s: %v: slanted is %v instead of %v", set, q, a.m.Slanted, slanted)
		}
	case 1:
		want := 0.0
		r1, _ := resolve(q.sym, true)
		r2, _ := resolve(q.sym2, true)
		f1, f2 := slotOf(set, q.typ, r1), slotOf(set, q.typ2, r2)
		if f1 == f2 && q.size == q.size2 && q.name2 == "default" {
			var b sfnt.Buffer
			k, err := f1.Kern(&b, glyphIndex(f1, r1), glyphIndex(f1, r2), fixed.I(int(f1.UnitsPerEm())), xfont.HintingNone)
			if err == nil {
				want = float64(k) / 64 / float64(f1.UnitsPerEm()) * q.size
			}
		}
		within("kerning", a.v, want, 1e-9+q.size*1e-4)
		if want != 0 {
			c.Count("kerned pairs", 1)
		}
		c.Count("kerning compared", 1)
	case 2:
		f := ownFonts(set).Rm
		switch q.typ {
		case "it":
			f = ownFonts(set).It
		case "bf":
			f = ownFonts(set).Bf
		case "default":
			f = ownFonts(set).Default
		}
		var b sfnt.Buffer
		m, err := f.Metrics(&b, fixed.I(int(f.UnitsPerEm())), xfont.HintingNone)
		if err != nil {
			panic(err)
		}
		want := math.Abs(float64(m.XHeight)) / 64 / float64(f.UnitsPerEm()) * q.size * q.dpi / 72
		within("x-height", a.v, want, 2.0/64+1e-3*want)
		c.Count("x-heights compared", 1)
	case 3:
		within("thickness", a.v, 0.75/12*q.size*q.dpi/72, 1e-9+1e-9*q.size)
		c.Count("thicknesses compared", 1)
	case 4:
		r, _ := resolve(q.sym, true)
		f := slotOf(set, q.typ, r)
		if len(a.ops) != 1 {
			c.Failf("%s: %v: %d operations", set, q, len(a.ops))
		}
		g, ok := a.ops[0].(drawtex.GlyphOp)
		if !ok {
			c.Failf("%s: %v: a %T", set, q, a.ops[0])
		}
		if g.X != q.x || g.Y != q.y {
			c.Failf("%s: %v: drawn at (%g, %g) instead of (%g, %g)", set, q, g.X, g.Y, q.x, q.y)
		}
		if psName(g.Glyph.Font) != psName(f) || g.Glyph.Postscript != psName(f) || g.Glyph.Num != glyphIndex(f, r) || g.Glyph.Symbol != string(r) || g.Glyph.Size != q.size {
			c.Failf("%s: %v: draws %s instead of %q #%d of %s", set, q, opString(g), r, glyphIndex(f, r), psName(f))
		}
		m := question{kind: 0, sym: q.sym, typ: q.typ, size: q.size, dpi: q.dpi, math: true}
		m.compare(c, set, be, answer{m: g.Glyph.Metrics})
		c.Count("glyphs drawn", 1)
	case 5:
		if len(a.ops) != 1 || a.ops[0] != (drawtex.RectOp{X1: q.x, Y1: q.y, X2: q.x2, Y2: q.y2}) {
			c.Failf("%s: %v: draws %s", set, q, opsString(a.ops))
		}
		c.Count("rectangles drawn", 1)
	}
}

var questionSyms = func() []string {
	o := []string{"a", "f", "A", "V", "T", "o", "W", "i", "1", "0", "7", "+", "=", "(", ")", ",", ".", "-", "m", "x", "é", "Ω", "y", "j"}
	for r := '!'; r <= '~'; r++ {
		if r != '\\' {
			o = append(o, string(r))
		}
	}
	return append(o, symbolMacros...)
}()

// questions asks one backend many questions, in random order, some of them
// again and again, and new backends the same ones.
var kernLists sync.Map

// kernedPairs are pairs of symbols that some font of a set kerns, with the
// type of the font.
func kernedPairs(set string) [][3]string {
	if v, ok := kernLists.Load(set); ok {
		return v.([][3]string)
	}
	var o [][3]string
	var b sfnt.Buffer
	own := ownFonts(set)
	for _, t := range []struct {
		typ string
		f   *sfnt.Font
	}{{"rm", own.Rm}, {"it", own.It}, {"bf", own.Bf}} {
		if t.f == nil {
			continue
		}
		for _, x := range "ATVWYoapfLPrTvwy.,1" {
			for _, y := range "AToaefvwyuVWY.,-1" {
				if t.typ == "it" && !(unicode.IsLetter(x) && unicode.IsLetter(y)) {
					continue
				}
				k, err := t.f.Kern(&b, glyphIndex(t.f, x), glyphIndex(t.f, y), fixed.I(1000), xfont.HintingNone)
				if err == nil && k != 0 && y != '-' {
					o = append(o, [3]string{string(x), string(y), t.typ})
				}
			}
		}
	}
	kernLists.Store(set, o)
	return o
}

// anywhere is any coordinate.
func anywhere(c *Case) float64 {
	switch c.Intn(6) {
	case 0:
		return pick(c, []float64{0, math.Copysign(0, -1), 1, -1, 1e300, -1e300, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), 1 << 15, 1 << 16, 1 << 24, 1 << 31, 1 << 53})
	case 1:
		return float64(c.Intn(4000) - 2000)
	}
	return (c.Float64() - 0.5) * math.Pow(10, float64(c.Intn(16)-3))
}

func questions(c *Case) {
	set := pick(c, fontNames)
	types := []string{"rm", "it", "it", "bf", "regular", "default"}
	if c.Intn(3) == 0 {
		fonts()
		set = pick(c, ownSets)
		fs := fonts()[set]
		types = []string{"rm", "it", "regular"}
		if fs.Bf != nil {
			types = append(types, "bf")
		}
		if fs.Default != nil {
			types = append(types, "default")
		}
		c.Count("questions to font sets of users", 1)
	}
	cnv := drawtex.New()
	var be *ttf.Backend
	if fs := fonts()[set]; fs == nil {
		be = ttf.New(cnv)
	} else {
		be = ttf.NewFrom(cnv, fs)
	}
	syms := questionSyms
	switch c.Intn(4) {
	case 0, 1:
		syms = syms[:24]
	case 2:
		syms = syms[:24+93]
	}
	sizes := []float64{pick(c, laySizes), 12, 8.4, 12 * 0.7 * 0.7, 1 + 50*c.Float64(), 0.001 + 0.02*c.Float64(), 100 + 2000*c.Float64()}
	if s := pick(c, sizes); c.Intn(2) == 0 {
		// sizes next to others.
		sizes = append(sizes, s+1e-3*c.Float64(), s*(1+1e-6*c.Float64()), s+0.5*c.Float64(), math.Nextafter(s, 100), math.Floor(s+1))
	}
	var pool []question
	for i := 2 + c.Intn(12); i > 0; i-- {
		q := question{kind: c.Intn(6), sym: pick(c, syms), sym2: pick(c, syms), typ: pick(c, types), typ2: pick(c, types), name2: "default",
			size: pick(c, sizes), size2: pick(c, sizes), dpi: pick(c, []float64{72, 72, 100, 300}), math: true, x: c.Float64() * 100, y: c.Float64()*100 - 50}
		q.x2, q.y2 = q.x+10*c.Float64(), q.y+10*c.Float64()
		if q.kind >= 4 && c.Intn(4) == 0 {
			// anywhere.
			q.x, q.y, q.x2, q.y2 = anywhere(c), anywhere(c), anywhere(c), anywhere(c)
			c.Count("drawn anywhere", 1)
		}
		if c.Intn(3) > 0 {
			q.size2, q.typ2 = q.size, q.typ
		}
		if c.Intn(8) == 0 {
			q.name2 = "other"
		}
		if q.kind == 1 && c.Intn(3) == 0 {
			if ps := kernedPairs(set); len(ps) > 0 {
				p := pick(c, ps)
				q.sym, q.sym2, q.typ, q.typ2, q.size2, q.name2 = p[0], p[1], p[2], p[2], q.size, "default"
			}
		}
		if len(pool) > 0 && c.Intn(2) == 0 {
			// another question in one respect only.
			o := pick(c, pool)
			switch c.Intn(8) {
			case 0:
				o.typ, o.typ2 = q.typ, q.typ
			case 1:
				o.typ = q.typ
			case 2:
				o.size, o.size2 = q.size, q.size
			case 3:
				o.size2 = q.size2
			case 4:
				o.sym, o.sym2 = o.sym2, o.sym
			case 5:
				o.dpi = q.dpi
			case 6:
				o.name2 = q.name2
			case 7:
				o.kind = q.kind
			}
			q = o
			c.Count("questions that differ in one respect", 1)
		}
		q.math = true
		if q.sym[0] != '\\' && q.sym != "-" {
			q.math = c.Intn(2) == 0
		}
		pool = append(pool, q)
	}
	var log []string
	for i := 2 * len(pool); i > 0; i-- {
		q := pick(c, pool)
		log = append(log, q.String())
		c.Input(log)
		before := len(cnv.Ops())
		a := q.ask(be)
		a.ops = append([]drawtex.Op{}, cnv.Ops()[before:]...)
		if q.kind < 4 && len(a.ops) != 0 {
			c.Failf("%s: %v draws %s", set, q, opsString(a.ops))
		}
		q.compare(c, set, be, a)
		fresh := q.drawOn(c, set)
		if q.kind < 4 {
			fresh = q.ask(newTTF(fonts()[set]))
		}
		if a.m != fresh.m || a.v != fresh.v || opsString(a.ops) != opsString(fresh.ops) {
			c.Failf("%s: %v: %v after other questions, %v without", set, q, a, fresh)
		}
		c.Count("answers of fresh backends", 1)
	}
	c.Sample(log)
}

// slots compares the fonts of the bundled sets with the files.
func slots(c *Case) {
	set := []string{"lm", "liberation"}[c.Index%2]
	got, want := fonts()[set], ownFonts(set)
	for _, x := range []struct {
		name string
		g, w *sfnt.Font
	}{{"Default", got.Default, want.Default}, {"Rm", got.Rm, want.Rm}, {"It", got.It, want.It}, {"Bf", got.Bf, want.Bf}, {"BfIt", got.BfIt, want.BfIt}} {
		if psName(x.g) != psName(x.w) {
			c.Failf("%s: slot %s has %s instead of %s", set, x.name, psName(x.g), psName(x.w))
		}
		var b1, b2 sfnt.Buffer
		for r := rune(32); r < 0x500; r++ {
			i, j := glyphIndex(x.g, r), glyphIndex(x.w, r)
			if i != j {
				c.Failf("%s: slot %s: glyph of %q is %d instead of %d", set, x.name, r, i, j)
			}
			m1, a1, err1 := x.g.GlyphBounds(&b1, i, fixed.I(100), xfont.HintingNone)
			m2, a2, err2 := x.w.GlyphBounds(&b2, j, fixed.I(100), xfont.HintingNone)
			if m1 != m2 || a1 != a2 || (err1 == nil) != (err2 == nil) {
				c.Failf("%s: slot %s: glyph of %q differs", set, x.name, r)
			}
		}
		c.Count("font slots compared", 1)
		c.Distinct(set + x.name)
	}
}
