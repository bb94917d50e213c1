package main

import (
	"fmt"
	"math"
	"math/rand"
	"strings"
	"sync"

	"github.com/go-fonts/dejavu/dejavuserif"
	"github.com/go-fonts/dejavu/dejavuserifbold"
	"github.com/go-fonts/dejavu/dejavuserifbolditalic"
	"github.com/go-fonts/dejavu/dejavuserifitalic"
	"github.com/go-fonts/stix/stix2textbold"
	"github.com/go-fonts/stix/stix2textbolditalic"
	"github.com/go-fonts/stix/stix2textitalic"
	"github.com/go-fonts/stix/stix2textregular"
	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/font/liberation"
	"github.com/go-latex/latex/font/lm"
	"github.com/go-latex/latex/font/ttf"
	"github.com/go-latex/latex/mtex"
	"golang.org/x/image/font/sfnt"
)

// captured is a renderer that keeps what it is given.
type captured struct {
	w, h, dpi float64
	ops       []drawtex.Op
	cnv       *drawtex.Canvas
	calls     int
	err       error
}

func (r *captured) Render(w, h, dpi float64, cnv *drawtex.Canvas) error {
	r.calls++
	r.w, r.h, r.dpi, r.cnv = w, h, dpi, cnv
	r.ops = append([]drawtex.Op{}, cnv.Ops()...)
	return r.err
}

var (
	fontOnce sync.Once
	fontSets map[string]*ttf.Fonts
	fontName map[*sfnt.Font]string
)

func mustFont(raw []byte) *sfnt.Font {
	f, err := sfnt.Parse(raw)
	if err != nil {
		panic(err)
	}
	return f
}

// fonts returns the font sets used by the workloads; nil is the default one.
func fonts() map[string]*ttf.Fonts {
	fontOnce.Do(func() {
		dv := &ttf.Fonts{
			Rm: mustFont(dejavuserif.TTF), It: mustFont(dejavuserifitalic.TTF),
			Bf: mustFont(dejavuserifbold.TTF), BfIt: mustFont(dejavuserifbolditalic.TTF),
		}
		dv.Default = dv.Rm
		st := &ttf.Fonts{
			Rm: mustFont(stix2textregular.TTF), It: mustFont(stix2textitalic.TTF),
			Bf: mustFont(stix2textbold.TTF), BfIt: mustFont(stix2textbolditalic.TTF),
		}
		st.Default = st.Rm
		fontSets = map[string]*ttf.Fonts{
			"go": nil, "lm": lm.Fonts(), "liberation": liberation.Fonts(), "dejavu": dv, "stix": st,
			// every slot another face, and sets that share some of their faces.
			"mixed": {Default: st.Bf, Rm: dv.Rm, It: st.It, Bf: dv.BfIt, BfIt: st.Rm},
			"alike": {Default: dv.Rm, Rm: st.Rm, It: dv.It, Bf: dv.Bf, BfIt: dv.BfIt},
			"plain": {Default: dv.It, Rm: st.Rm, It: st.Rm, Bf: st.Rm, BfIt: st.Rm},
		}
		// and sets as users put them together: faces that repeat, or are missing.
		all := []*sfnt.Font{dv.Rm, dv.It, dv.Bf, dv.BfIt, st.Rm, st.It, st.Bf, st.BfIt}
		for _, fs := range []*ttf.Fonts{fontSets["lm"], fontSets["liberation"]} {
			all = append(all, fs.Rm, fs.It, fs.Bf, fs.BfIt)
		}
		rng := rand.New(rand.NewSource(1))
		for i := 0; i < 40; i++ {
			few := []*sfnt.Font{all[rng.Intn(len(all))], all[rng.Intn(len(all))], all[rng.Intn(len(all))]}
			f := func() *sfnt.Font { return few[rng.Intn(len(few))] }
			fs := &ttf.Fonts{Default: f(), Rm: f(), It: f(), Bf: f(), BfIt: f()}
			switch i % 8 {
			case 0:
				fs.BfIt = nil
			case 1:
				fs.Bf, fs.BfIt = nil, nil
			case 2:
				fs.BfIt = fs.It
			case 3:
				fs.It = fs.Bf
			case 4:
				fs.Default = nil
			case 5:
				fs.Bf = nil
			}
			name := fmt.Sprint("own", i)
			fontSets[name] = fs
			ownSets = append(ownSets, name)
		}
	})
	return fontSets
}

// ownSets are the names of the sets that users put together.
var ownSets []string

var fontNames = []string{"go", "liberation", "dejavu", "lm", "stix", "mixed", "alike", "plain"}

func round(v float64) float64 {
	const k = 1e7
	if math.IsInf(v, 0) || math.IsNaN(v) || math.Abs(v) > 1e9 {
		return v
	}
	v = math.Round(v*k) / k
	if v == 0 {
		v = 0 // no negative zero
	}
	return v
}

func psName(f *sfnt.Font) string {
	if f == nil {
		return "<nil>"
	}
	var b sfnt.Buffer
	name, err := f.Name(&b, sfnt.NameIDPostScript)
	if err != nil {
		return "?"
	}
	return name
}

func opString(op drawtex.Op) string {
	switch op := op.(type) {
	case drawtex.GlyphOp:
		g := op.Glyph
		return fmt.Sprintf("glyph %q #%d %s/%s size %g at (%g, %g)", g.Symbol, g.Num, psName(g.Font), g.Postscript, round(g.Size), round(op.X), round(op.Y))
	case drawtex.RectOp:
		return fmt.Sprintf("rect (%g, %g) (%g, %g)", round(op.X1), round(op.Y1), round(op.X2), round(op.Y2))
	}
	return fmt.Sprintf("%T", op)
}

func opsString(ops []drawtex.Op) string {
	var o strings.Builder
	for _, op := range ops {
		o.WriteString(opString(op))
		o.WriteByte('\n')
	}
	return o.String()
}

// render renders an expression and captures what the renderer receives.
func render(expr string, size, dpi float64, fnts *ttf.Fonts) (*captured, error) {
	r := &captured{}
	err := mtex.Render(r, expr, size, dpi, fnts)
	return r, err
}

// drawOps renders with the default fonts and describes the drawing.
func drawOps(expr string) (string, error) {
	r, err := render(expr, 12, 72, nil)
	if err != nil {
		return "", err
	}
	return fmt.Sprintf("size %g x %g dpi %g\n%s", round(r.w), round(r.h), r.dpi, opsString(r.ops)), nil
}

// functions are the named functions of the language without arguments.
var functionMacros = func() []string {
	var o []string
	for _, f := range symbolClass["FunctionNames"] {
		if macroArity[`\`+f] == "" {
			o = append(o, `\`+f)
		}
	}
	return o
}()

var spaceMacros = map[string]float64{
	`\,`: 0.16667, `\:`: 0.22222, `\;`: 0.27778, `\ `: 0.33333,
	`\quad`: 1, `\qquad`: 2, `\!`: -0.16667,
}

// symbolMacros are the commands that draw one character.
var symbolMacros = func() []string {
	var o []string
	fn := make(map[string]bool)
	for _, f := range symbolClass["FunctionNames"] {
		fn[f] = true
	}
	for _, name := range sortedKeys(macroArity) {
		if macroArity[name] != "" {
			continue
		}
		if _, ok := spaceMacros[name]; ok {
			continue
		}
		if _, ok := symbolRune[name[1:]]; ok && !fn[name[1:]] {
			o = append(o, name)
		}
	}
	return o
}()

func inClass(class, s string) bool {
	for _, m := range symbolClass[class] {
		if m == s {
			return true
		}
	}
	return false
}

func isSpacedSym(s string) bool {
	return inClass("BinaryOperators", s) || inClass("RelationSymbols", s) || inClass("ArrowSymbols", s)
}

var drawSyms = []string{"=", "<", ">", "*", "-", "+", "!", ":", ",", ";", ".", "(", ")"}

// drawGrammar generates expressions that can be typeset.
func drawGrammar(c *Case) *Grammar {
	g := &Grammar{
		c: c, Words: latin, SymMath: drawSyms, SymText: []string{" ", "(", ")", ",", ".", "!", "?", ":", ";", "=", "+", "<", ">", "/", "*", "[", "]", "'"},
		Groups: true, MaxKids: 4,
		ArgMac: []string{`\frac`, `\dfrac`, `\tfrac`, `\binom`, `\sqrt`, `\overline`, `\exp`},
	}
	g.Macros = append(append(append([]string{}, functionMacros...), sortedKeys(spaceMacros)...), symbolMacros...)
	g.Nums = func() string {
		n := func() string { return fmt.Sprint(c.Intn(1000)) }
		if c.Intn(3) == 0 {
			return n() + "." + n()
		}
		return n()
	}
	return g
}

// c05draw: white space and comments change nothing of what is drawn.
func c05draw(c *Case) {
	g := drawGrammar(c)
	m := g.Math(c.Intn(5))
	top := &N{K: kList, Kids: []*N{m}}
	c05compare(c, top, c.randTrivia(20+c.Intn(80), c.Intn(2) == 0))
}

// c05compare draws an expression with and without white space and comments.
func c05compare(c *Case, top *N, t Trivia) {
	a, _ := source(top, noTrivia, "")
	wb := newWriter(t)
	wb.ctl = func() string { return pick(c, []string{" ", "\t", "\n", "\r"}) }
	wb.list(top.Kids, false)
	b := wb.buf.String()
	c.Input(b)
	c.Count("insertions", len(b)-len(a))
	da, err := drawOps(a)
	if err != nil {
		c.Failf("%q cannot be drawn: %v", a, err)
	}
	db, err := drawOps(b)
	if err != nil {
		c.Failf("%q is drawn but %q is not: %v", a, b, err)
	}
	c.Count("drawings compared", 1)
	if da != db {
		c.Failf("white space or comments change the drawing:\n %q:\n%s %q:\n%s", a, clip(da), b, clip(db))
	}
	c.Distinct(a + "\x00" + b)
	c.Sample([]string{a, b})
}

// newTTF is a fresh backend drawing with a font set.
func newTTF(fs *ttf.Fonts) *ttf.Backend {
	if fs == nil {
		return ttf.New(drawtex.New())
	}
	return ttf.NewFrom(drawtex.New(), fs)
}

// opsOf converts operations of a canvas.
func opsOf(ops []drawtex.Op) []drawn {
	o := make([]drawn, 0, len(ops))
	for _, op := range ops {
		switch op := op.(type) {
		case drawtex.GlyphOp:
			o = append(o, drawn{x: op.X, y: op.Y, sym: op.Glyph.Symbol})
		case drawtex.RectOp:
			o = append(o, drawn{rect: true, x: op.X1, y: op.Y1, x2: op.X2, y2: op.Y2})
		}
	}
	return o
}
