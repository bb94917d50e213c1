package main

import (
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/go-latex/latex"
	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/mtex"
)

// fontGrammar is the language drawn with real fonts: the hyphen in text mode
// is left out (see the known finding of C14).
func fontGrammar(c *Case) *Grammar {
	g := synthGrammar(c)
	g.SymText = drawGrammar(c).SymText
	return g
}

// supported tells that the layout of a tree is specified: what else there is
// may be rejected.
func supported(n *N, math bool) bool {
	switch n.K {
	case kList, kArg, kOpt:
	case kMath:
		math = true
	case kWord, kLit:
		return utf8.ValidString(n.T)
	case kSym:
		if math {
			return inClass2(n.T, drawSyms...)
		}
		return utf8.ValidString(n.T) && n.T != ""
	case kMacro:
		switch {
		case isSpaceMacro(n.T) || inClass2(n.T, symbolMacros...):
			return len(n.Kids) == 0
		case n.T == `\hspace`:
			arg := ""
			for _, k := range n.Kids[0].Kids {
				if k.K != kLit && k.K != kSym {
					return false
				}
				arg += k.T
			}
			v, err := strconv.ParseFloat(arg, 64)
			return err == nil && v < 1e6 && v > -1e6
		case inClass("FunctionNames", n.T[1:]):
		case inClass2(n.T, `\frac`, `\dfrac`, `\tfrac`, `\binom`, `\sqrt`, `\overline`):
		default:
			return false
		}
	default:
		return false
	}
	for _, k := range n.Kids {
		if !supported(k, math) {
			return false
		}
	}
	return true
}

// leaves counts the characters that a drawing of a tree has at the least.
func leaves(n *N, math bool) int {
	switch n.K {
	case kMath:
		math = true
	case kWord, kLit:
		return utf8.RuneCountInString(n.T)
	case kSym:
		if math && n.T == " " {
			return 0
		}
		return utf8.RuneCountInString(n.T)
	case kMacro:
		if n.T == `\hspace` {
			return 0
		}
		if inClass2(n.T, symbolMacros...) {
			return 1
		}
	}
	k := 0
	for _, x := range n.Kids {
		k += leaves(x, math)
	}
	return k
}

func glyphsOf(ops []drawtex.Op) int {
	k := 0
	for _, op := range ops {
		if _, ok := op.(drawtex.GlyphOp); ok {
			k++
		}
	}
	return k
}

// renderOnce renders, and checks what holds for every expression: either the
// renderer gets one canvas, or there is an error and it gets nothing.
func renderOnce(c *Case, src string, size, dpi float64, set string) (*captured, error) {
	r, err := render(src, size, dpi, fonts()[set])
	if err == nil && r.calls != 1 {
		c.Failf("%q: the renderer has been called %d times, without an error", src, r.calls)
	}
	if err != nil && r.calls != 0 {
		c.Failf("%q: the renderer has been called %d times although there is an error: %v", src, r.calls, err)
	}
	if err == nil {
		c.Count("expressions drawn", 1)
	} else {
		c.Count("expressions rejected", 1)
		if err.Error() == "" {
			c.Failf("%q: empty error", src)
		}
	}
	return r, err
}

// wholly checks that what has been drawn is the whole of the tree.
func wholly(c *Case, src string, tree *N, ops []drawtex.Op, size float64, set string) {
	if supported(tree, false) {
		m := model(newTTF(fonts()[set]), tree, size, 72)
		rects := 0
		for _, op := range m.s.ops {
			if op.rect {
				rects++
			}
		}
		if g := glyphsOf(ops); g != len(m.s.ops)-rects || len(ops) != len(m.s.ops) {
			c.Failf("%q: %d glyphs and %d rules are drawn instead of %d and %d", src, g, len(ops)-g, len(m.s.ops)-rects, rects)
		}
		c.Count("complete drawings", 1)
		return
	}
	c.Count("drawings of other constructs", 1)
	if g, w := glyphsOf(ops), leaves(tree, false); g < w {
		c.Failf("%q: %d glyphs are drawn of %d characters", src, g, w)
	}
	if tree.Has(func(n *N) bool { return n.K == kSup || n.K == kSub }) {
		// a script is drawn in another size, or on another line.
		type line struct{ y, size float64 }
		lines := make(map[line]bool)
		for _, op := range ops {
			if g, ok := op.(drawtex.GlyphOp); ok {
				lines[line{round(g.Y), round(g.Glyph.Size)}] = true
			}
		}
		if len(lines) < 2 && glyphsOf(ops) > 1 {
			c.Failf("%q: the scripts are drawn on the line", src)
		}
	}
}

// unsupportedNodes are constructs that the language has, and that the layout
// may not know.
func unsupportedNode(c *Case, math bool) *N {
	arg := func(s string) *N { return &N{K: kArg, Kids: []*N{{K: kWord, T: s}}} }
	for {
		switch c.Intn(5) {
		case 0:
			return &N{K: pick(c, []string{kSub, kSup}), Kids: []*N{{K: kWord, T: "i"}}}
		case 1:
			return &N{K: pick(c, []string{kSub, kSup}), Kids: []*N{{K: kList, Kids: []*N{{K: kLit, T: "12"}, {K: kSym, T: "+"}, {K: kWord, T: "k"}}}}}
		case 2:
			if math {
				return &N{K: kSym, T: pick(c, []string{"/", "?", "'", "[", "]"})}
			}
		case 3:
			n := &N{K: kMacro, T: pick(c, argMacros)}
			for _, a := range macroArity[n.T] {
				if a == 'A' {
					n.Kids = append(n.Kids, arg("w"))
				}
			}
			if !supported(n, math) {
				return n
			}
		case 4:
			n := &N{K: kMacro, T: pick(c, plainMacros)}
			if !supported(n, math) {
				return n
			}
		}
	}
}

// places lists the lists of a tree into which something can be put.
type place struct {
	n    *N
	math bool
	opt  bool
}

func places(n *N, math bool, out []place) []place {
	switch n.K {
	case kMath:
		math = true
		out = append(out, place{n, math, false})
	case kList, kArg:
		out = append(out, place{n, math, false})
	case kOpt:
		out = append(out, place{n, math, true})
	case kMacro:
		if n.T == `\hspace` {
			return out
		}
	}
	for _, k := range n.Kids {
		out = places(k, math, out)
	}
	return out
}

func insert(kids []*N, i int, n *N) []*N {
	return append(kids[:i:i], append([]*N{n}, kids[i:]...)...)
}

var isDecimal = regexp.MustCompile(`^[-+]?([0-9]+(\.[0-9]*)?|\.[0-9]+)$`)

var extremeFloats = []float64{0, 1e-300, 1e-9, 0.5, 1, 1e3, 1e6, 1e15, 1e100, 1e308, -1, -12, -1e9, math.Inf(1), math.Inf(-1), math.NaN(), 1e-320}

func init() {
	register(&Check{
		ID:   "C12",
		Rule: "a case renders one string with a font set, size and resolution into a recording renderer: either it receives one canvas, holding everything the tree denotes, or there is an error and it receives nothing; distinct by source, size and resolution",
		Need: []string{"expressions drawn", "expressions rejected", "complete drawings", "unsupported constructs", "extreme sizes", "long or deep expressions", "spaces without a width", "spaces with a width"},
		Families: []*Family{
			{Name: "supported", Quick: 40000, Thorough: 300000, Run: func(c *Case) {
				top, src := drawable(c, fontGrammar(c), c.Intn(6), true)
				set := pick(c, fontNames)
				size := pick(c, laySizes)
				r, err := renderOnce(c, src, size, pick(c, []float64{72, 96, 300}), set)
				if err != nil {
					c.Failf("%q cannot be drawn: %v", src, err)
				}
				wholly(c, src, top, r.ops, size, set)
				c.Distinct(src)
				c.Sample(src)
			}},
			{Name: "unsupported", Quick: 50000, Thorough: 400000, Run: func(c *Case) {
				top, before := drawable(c, fontGrammar(c), c.Intn(5), true)
				ps := places(top, false, nil)
				p := pick(c, ps)
				n := unsupportedNode(c, p.math)
				if p.opt && n.T == "]" {
					n.T = "["
				}
				i := c.Intn(len(p.n.Kids) + 1)
				p.n.Kids = insert(p.n.Kids, i, n)
				src, _ := source(top, noTrivia, "")
				c.Input(src)
				set := pick(c, fontNames)
				r, err := renderOnce(c, src, 12, 72, set)
				c.Count("unsupported constructs", 1)
				c.Set("unsupported constructs", n.K+n.T)
				c.Distinct(src)
				c.Sample(src)
				if err != nil {
					return
				}
				x, err := latex.ParseExpr(src)
				if err != nil {
					c.Failf("%q is drawn although it is malformed: %v", src, err)
				}
				wholly(c, src, fromAST(x), r.ops, 12, set)
				old, err := render(before, 12, 72, fonts()[set])
				if err != nil {
					c.Failf("%q cannot be drawn: %v", before, err)
				}
				if opsString(old.ops) == opsString(r.ops) && old.w == r.w && old.h == r.h {
					c.Failf("%q is drawn as %q: %v is left out silently", src, before, n)
				}
			}},
			{Name: "anything", Quick: 75000, Thorough: 1500000, Run: func(c *Case) {
				var src string
				switch c.Intn(4) {
				case 0:
					src = anyInput(c)
				case 1:
					src = "$" + soup(c, 1+c.Intn(8)) + "$"
				default:
					_, src = drawable(c, fontGrammar(c), 1+c.Intn(4), true)
					src = mutate(c, src, 1+c.Intn(3))
				}
				c.Input(src)
				set := pick(c, fontNames[:3])
				r, err := renderOnce(c, src, 12, 72, set)
				c.Distinct(src)
				if err != nil {
					return
				}
				x, err := latex.ParseExpr(src)
				if err != nil {
					c.Failf("%q is drawn although it is malformed: %v", src, err)
				}
				wholly(c, src, fromAST(x), r.ops, 12, set)
			}},
			{Name: "spaces", Quick: 7500, Thorough: 100000, Run: func(c *Case) {
				// the width of a space is a number, or the expression is
				// not drawn.
				var arg string
				for n := c.Intn(4); n > 0; n-- {
					arg += pick(c, []string{"1", "0.5", ".", "-", "+", " ", "a", "em", "2", ",", "%\n", `\alpha `, "{1}", "x_1", "$1$", "é", "=", "00", "1e3", "0x10", "Inf", "nan", "1_0", `\frac{1}{2}`})
				}
				frame := pick(c, []string{`$\hspace{%s}x$`, `$x\hspace{%s}$`, `\hspace{%s}x`, `$\frac{\hspace{%s}}{x}$`, `$\sqrt[\hspace{%s}]{x}$`, `$\sqrt{x\hspace{%s}}$`})
				src := strings.Replace(frame, "%s", arg, 1)
				c.Input(src)
				set := pick(c, fontNames[:3])
				_, err := renderOnce(c, src, 12, 72, set)
				c.Distinct(src)
				text := strings.ReplaceAll(strings.ReplaceAll(arg, "%\n", ""), " ", "")
				if !isDecimal.MatchString(text) {
					c.Count("spaces without a width", 1)
					if err == nil {
						c.Failf("%q is drawn although %q is no number", src, arg)
					}
				} else if isDecimal.MatchString(arg) {
					c.Count("spaces with a width", 1)
					if err != nil {
						c.Failf("%q cannot be drawn: %v", src, err)
					}
				}
			}},
			{Name: "extreme", Quick: 20000, Thorough: 300000, Run: func(c *Case) {
				var src string
				if c.Intn(4) > 0 {
					_, src = drawable(c, fontGrammar(c), c.Intn(4), true)
				} else {
					src = anyInput(c)
				}
				size, dpi := pick(c, extremeFloats), pick(c, extremeFloats)
				switch c.Intn(4) {
				case 0:
					size = 12
				case 1:
					dpi = 72
				case 2:
					size = math.Float64frombits(c.Uint64())
				}
				c.Input(fmt.Sprintf("%q at size %g, dpi %g", src, size, dpi))
				renderOnce(c, src, size, dpi, pick(c, fontNames[:3]))
				// and the layout alone, at that resolution.
				n, err := mtex.Parse(src, size, dpi, newTTF(nil))
				if (n == nil) == (err == nil) {
					c.Failf("%q is laid out as %v with error %v", src, n, err)
				}
				c.Count("extreme sizes", 1)
				c.Distinct(fmt.Sprint(src, size, dpi))
			}},
			{Name: "long", Quick: 120, Thorough: 1200, CPU: 60, Run: func(c *Case) {
				g := pick(c, layGrowth)
				n := 2000
				if g.deep {
					n = 300
				}
				if c.Thorough() {
					n *= 2
				}
				if !g.deep && c.Intn(3) == 0 {
					n = 40000
				}
				src := g.gen(1 + c.Intn(n))
				c.Input(fmt.Sprintf("%s (%d bytes): %s", g.name, len(src), clip(src)))
				if c.Intn(3) == 0 {
					// an error at the end, or at the start, of it.
					bad := src + pick(c, []string{"$", "{", "$x", `\unknown`, `$\frac{a}$`, "}", `$\sqrt[3$`})
					if c.Intn(3) == 0 {
						bad = pick(c, []string{"{", `\unknown`, `$\frac{a}$`, "}"}) + src
					}
					if _, err := renderOnce(c, bad, 12, 72, "lm"); err == nil {
						c.Failf("%s (%d bytes): no error, although there is %s or %s", g.name, len(bad), bad[:10], bad[len(bad)-10:])
					}
					c.Count("long malformed expressions", 1)
				}
				r, err := renderOnce(c, src, 12, 72, pick(c, fontNames[:3]))
				if err != nil {
					c.Failf("%s (%d bytes) cannot be drawn: %v", g.name, len(src), clip(err.Error()))
				}
				if g.glyphs >= 0 && glyphsOf(r.ops) < g.glyphs {
					c.Failf("%s: %d glyphs", g.name, glyphsOf(r.ops))
				}
				c.Count("long or deep expressions", 1)
				c.Set("shapes", g.name)
				c.Distinct(src)
			}},
		},
	})
}

type layShape struct {
	name   string
	deep   bool
	glyphs int
	gen    func(n int) string
}

func rep(s string, n int) string { return strings.Repeat(s, n) }

var layGrowth = []layShape{
	{"letters", false, 1, func(n int) string { return "$" + rep("a", n*5) + "$" }},
	{"text", false, 1, func(n int) string { return rep("ab c, ", n) }},
	{"digits", false, 1, func(n int) string { return "$" + rep("12", n*2) + "$" }},
	{"operators", false, 1, func(n int) string { return "$" + rep("a+b=", n) + "$" }},
	{"operators alone", false, 1, func(n int) string { return "$" + rep("+", n) + "$" }},
	{"spaced operators", false, 1, func(n int) string { return "$a" + rep(" ", n) + "+" + rep(" ", n) + "b$" }},
	{"commented operators", false, 1, func(n int) string { return "$a" + rep("%c\n", n) + "+b$" }},
	{"symbols", false, 1, func(n int) string { return "$" + rep(`\alpha\leq`, n) + "$" }},
	{"functions", false, 1, func(n int) string { return "$" + rep(`\sin x`, n) + "$" }},
	{"spaces", false, 0, func(n int) string { return "$" + rep(`\quad\,\!`, n) + "$" }},
	{"fractions in a row", false, 1, func(n int) string { return "$" + rep(`\frac{a}{b}+`, n) + "$" }},
	{"roots in a row", false, 1, func(n int) string { return "$" + rep(`\sqrt{a}`, n) + "$" }},
	{"formulas in a row", false, 1, func(n int) string { return rep(`$a$`, n) }},
	{"groups in a row", false, 1, func(n int) string { return "$" + rep(`{a}`, n) + "$" }},
	{"groups", true, 1, func(n int) string { return "$" + rep("{", n) + "a" + rep("}", n) + "$" }},
	{"nested math", true, 1, func(n int) string { return "$" + rep("{$", n) + "a" + rep("$}", n) + "$" }},
	{"numerators", true, 1, func(n int) string { return "$" + rep(`\frac{`, n) + "a" + rep("}{b}", n) + "$" }},
	{"denominators", true, 1, func(n int) string { return "$" + rep(`\frac{a}{`, n) + "a" + rep("}", n) + "$" }},
	{"display fractions", true, 1, func(n int) string { return "$" + rep(`\dfrac{a}{`, n) + "a" + rep("}", n) + "$" }},
	{"binomials", true, 1, func(n int) string { return "$" + rep(`\binom{a}{`, n) + "a" + rep("}", n) + "$" }},
	{"roots", true, 1, func(n int) string { return "$" + rep(`\sqrt{`, n) + "a" + rep("}", n) + "$" }},
	{"root indices", true, 1, func(n int) string { return "$" + rep(`\sqrt[`, n) + "a" + rep("]{b}", n) + "$" }},
	{"overlines", true, 1, func(n int) string { return "$" + rep(`\overline{`, n) + "a" + rep("}", n) + "$" }},
	{"function arguments", true, 1, func(n int) string { return "$" + rep(`\exp{`, n) + "a" + rep("}", n) + "$" }},
	{"both parts", true, 1, func(n int) string {
		s := "a"
		for i := 1; i < n/16; i *= 2 {
			s = `\frac{` + s + "}{" + s + "}"
		}
		return "$" + s + "$"
	}},
}
