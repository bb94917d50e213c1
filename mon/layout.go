package main

import (
	"math"
	"strconv"
	"unicode/utf8"

	"github.com/go-latex/latex/font"
)

// layout is an executable specification of the typesetting of expressions: it
// turns syntax trees into boxes of the shadow model.
type layout struct {
	be   font.Backend
	size float64
	dpi  float64
	fams [2]string // font types: outside of math, in math

	// marks notes the boxes built for the nodes of the tree.
	marks map[*B]*N
	parts map[*N]*parts
}

// parts are the boxes that make up a construct.
type parts struct {
	num, den   *B // numerator and denominator, as placed
	body, root *B
	bar        *B
	sign       *B // radical sign
	left       *B // delimiters
	right      *B
	vlist      *B
}

func newLayout(be font.Backend, size, dpi float64) *layout {
	return &layout{be: be, size: size, dpi: dpi, marks: map[*B]*N{}, parts: map[*N]*parts{}}
}

type layCtx struct {
	math bool
	typ  string // font type
}

// build lays out a top-level list.
func (l *layout) build(top *N) *B {
	return shHList(l.nodes(top.Kids, layCtx{false, "rm"}, true, nil), true)
}

func (l *layout) env(x layCtx) env {
	return env{be: l.be, fnt: font.Font{Name: "default", Type: x.typ, Size: l.size}, dpi: l.dpi}
}

func (l *layout) em() float64 {
	return l.be.Metrics("m", font.Font{Name: "it", Type: "it", Size: l.size}, l.dpi, true).Advance
}

func (l *layout) space(em float64) *B { return shKern(l.em() * em) }

// lastChar is the last character of the source of a node: 0 if there is none.
func lastChar(n *N) byte {
	switch n.K {
	case kWord:
		return 'w'
	case kLit:
		return '0'
	case kSym:
		return n.T[len(n.T)-1]
	case kMacro:
		if len(n.Kids) > 0 {
			return '}'
		}
		if n.T == `\ ` || n.T == `\$` {
			return '\\'
		}
		return n.T[len(n.T)-1]
	case kMath:
		return '$'
	}
	return '}'
}

// opening tells whether item i of a list opens its container or follows an
// opening delimiter.
func opening(kids []*N, i int) bool {
	for i--; i >= 0; i-- {
		if kids[i].K == kSym && kids[i].T == " " {
			continue
		}
		switch lastChar(kids[i]) {
		case '(', '[', '<', '{', '$':
			return true
		}
		return false
	}
	return true
}

// nodes lays out the items of a container.
func (l *layout) nodes(kids []*N, x layCtx, open bool, out []*B) []*B {
	for i, n := range kids {
		switch n.K {
		case kList:
			out = l.nodes(n.Kids, x, true, out)
		case kMath:
			out = l.nodes(n.Kids, layCtx{true, "it"}, true, out)
		case kWord:
			var chars []*B
			for _, r := range n.T {
				ch := shChar(l.env(x), string(r), x.math)
				l.marks[ch] = n
				chars = append(chars, ch)
			}
			out = append(out, shHList(chars, true))
		case kLit:
			for j, r := range n.T {
				ch := shChar(l.env(x), string(r), x.math)
				l.marks[ch] = n
				if r == '.' && (j == 0 || j == len(n.T)-1) {
					out = append(out, shHList([]*B{ch, l.space(0.2)}, true))
					continue
				}
				out = append(out, ch)
			}
		case kSym:
			if x.math {
				out = append(out, l.symbol(n, x, opening(kids, i)))
			} else {
				ch := shChar(l.env(x), n.T, false)
				l.marks[ch] = n
				out = append(out, ch)
			}
		case kMacro:
			out = append(out, l.macro(n, x, opening(kids, i)))
		default:
			panic("layout: " + n.K)
		}
	}
	return out
}

func (l *layout) symbol(n *N, x layCtx, opens bool) *B {
	m := x.math || n.K == kMacro
	ch := shChar(l.env(x), n.T, m)
	l.marks[ch] = n
	switch {
	case isSpacedSym(n.T):
		if opens && inClass("BinaryOperators", n.T) {
			return ch
		}
		return shHList([]*B{l.space(0.2), ch, l.space(0.2)}, true)
	case inClass("PunctuationSymbols", n.T):
		return shHList([]*B{ch, l.space(0.2)}, true)
	}
	return ch
}

func isSpaceMacro(name string) bool {
	_, ok := spaceMacros[name]
	return ok
}

func (l *layout) sub(n *N, x layCtx) *B {
	return shHList(l.nodes(n.Kids, x, true, nil), true)
}

func (l *layout) macro(n *N, x layCtx, opens bool) *B {
	name := n.T
	switch {
	case isSpaceMacro(name):
		return l.space(spaceMacros[name])
	case isSpacedSym(name) || inClass("PunctuationSymbols", name):
		return l.symbol(n, x, opens)
	case name == `\hspace`:
		arg := ""
		for _, k := range n.Kids[0].Kids {
			arg += k.T
		}
		v, err := strconv.ParseFloat(arg, 64)
		if err != nil {
			panic(err)
		}
		return l.space(v)
	case inClass("FunctionNames", name[1:]):
		var out []*B
		fx := x
		fx.typ = "rm"
		for _, r := range name[1:] {
			ch := shChar(l.env(fx), string(r), x.math)
			l.marks[ch] = n
			out = append(out, ch)
		}
		for _, a := range n.Kids {
			out = append(out, l.sub(a, x))
		}
		return shHList(out, true)
	}
	switch name {
	case `\frac`, `\tfrac`, `\dfrac`, `\binom`:
		return l.fraction(n, x)
	case `\sqrt`:
		return l.sqrt(n, x)
	case `\overline`:
		return l.overline(n, x)
	}
	return l.symbol(n, x, opens)
}

func (l *layout) fraction(n *N, x layCtx) *B {
	e := l.env(x)
	t := e.thickness()
	num, den := l.sub(n.Kids[0], x), l.sub(n.Kids[1], x)
	if n.T != `\dfrac` {
		num.scale(shrinkBy)
		den.scale(shrinkBy)
	}
	rule := t
	if n.T == `\binom` {
		rule = 0
	}
	cnum, cden := shCentered([]*B{num}), shCentered([]*B{den})
	w := math.Max(num.w, den.w)
	cnum.hpack(w, false)
	cden.hpack(w, false)
	bar := shHRule(e, rule)
	v := shVList([]*B{cnum, shVBox(0, 2*t), bar, shVBox(0, 2*t), cden})
	eq := e.fnt
	eq.Type = "it"
	m := l.be.Metrics("=", eq, l.dpi, true)
	v.shift = cden.h - ((m.YMax+m.YMin)/2 - 3*t)
	box := shHList([]*B{v, shHBox(2 * t)}, true)
	p := &parts{num: num, den: den, bar: bar, vlist: v}
	l.parts[n] = p
	if n.T != `\binom` {
		return box
	}
	h, d := math.Max(0, box.h), math.Max(0, box.d)
	p.left = shTall(e, "(", h, d, 0)
	p.right = shTall(e, ")", h, d, 0)
	return shHList([]*B{p.left, box, p.right}, true)
}

func (l *layout) sqrt(n *N, x layCtx) *B {
	e := l.env(x)
	t := e.thickness()
	var root *B
	if len(n.Kids) == 2 {
		root = l.sub(n.Kids[0], x)
	}
	body := l.sub(n.Kids[len(n.Kids)-1], x)
	p := &parts{body: body}
	l.parts[n] = p
	h, d := body.h+5*t, body.d
	p.sign = shTall(e, `\__sqrt__`, h, d, 0)
	h, d = p.sign.h-p.sign.shift, p.sign.d+p.sign.shift
	padded := shHList([]*B{shHBox(2 * t), body, shHBox(2 * t)}, true)
	p.bar = shHRule(e, -1)
	rhs := shVList([]*B{p.bar, shGlue("fill"), padded})
	rhs.vpack(h+l.size*l.dpi/1200, false, d)
	if root == nil {
		root = shHBox(p.sign.w / 2)
	} else {
		root.scale(shrinkBy)
		root.scale(shrinkBy)
		p.root = root
	}
	v := shVList([]*B{shHList([]*B{root}, true)})
	v.shift = -0.6 * h
	return shHList([]*B{v, shKern(-p.sign.w / 2), p.sign, rhs}, true)
}

func (l *layout) overline(n *N, x layCtx) *B {
	e := l.env(x)
	t := e.thickness()
	body := l.sub(n.Kids[0], x)
	p := &parts{body: body, bar: shHRule(e, -1)}
	l.parts[n] = p
	rhs := shVList([]*B{p.bar, shGlue("fill"), shHList([]*B{body}, true)})
	rhs.vpack(body.h+3*t+l.size*l.dpi/1200, false, body.d)
	return shHList([]*B{rhs}, true)
}

// runeOf is the character that a glyph of the model stands for.
func runeOf(sym string, math bool) rune {
	r, ok := resolve(sym, math)
	if !ok {
		return utf8.RuneError
	}
	return r
}
