package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/go-latex/latex/font"
	"github.com/go-latex/latex/tex"
)

// The shadow box model: an executable specification of the TeX box model.

const (
	bChar   = "char"
	bAccent = "accent"
	bBox    = "box"
	bKern   = "kern"
	bGlue   = "glue"
	bRule   = "rule"
	bHList  = "hlist"
	bVList  = "vlist"
)

// B is a box of the shadow model.
type B struct {
	k       string
	w, h, d float64
	shift   float64

	sym  string // char, accent
	fnt  font.Font
	dpi  float64
	math bool
	m    font.Metrics
	be   font.Backend

	st, sk   float64 // glue: stretch, shrink and their orders
	sto, sko int

	kids  []*B
	set   float64
	sign  int
	order int

	real tex.Node // the node of the code under test, if any
}

func (b *B) String() string {
	var o strings.Builder
	b.write(&o, "")
	return o.String()
}

func (b *B) write(o *strings.Builder, ind string) {
	fmt.Fprintf(o, "%s%s w=%.6g h=%.6g d=%.6g", ind, b.k, b.w, b.h, b.d)
	switch b.k {
	case bChar, bAccent:
		fmt.Fprintf(o, " %q %s %.4g", b.sym, b.fnt.Type, b.fnt.Size)
	case bGlue:
		fmt.Fprintf(o, " stretch=%g^%d shrink=%g^%d", b.st, b.sto, b.sk, b.sko)
	case bHList, bVList:
		fmt.Fprintf(o, " shift=%.6g set=%.6g sign=%d order=%d", b.shift, b.set, b.sign, b.order)
	}
	o.WriteByte('\n')
	for _, k := range b.kids {
		k.write(o, ind+"  ")
	}
}

func (b *B) each(f func(*B)) {
	f(b)
	for _, k := range b.kids {
		k.each(f)
	}
}

// setup of the environment of characters and rules.
type env struct {
	be  font.Backend
	fnt font.Font
	dpi float64
}

func (e env) state() tex.State { return tex.NewState(e.be, e.fnt, e.dpi) }

func (e env) thickness() float64 { return e.be.UnderlineThickness(e.fnt, e.dpi) }

func shChar(e env, sym string, math bool) *B {
	b := &B{k: bChar, sym: sym, fnt: e.fnt, dpi: e.dpi, math: math, be: e.be}
	b.m = e.be.Metrics(sym, e.fnt, e.dpi, math)
	b.w = b.m.Width
	if sym == " " {
		b.w = b.m.Advance
	}
	b.h = b.m.Iceberg
	b.d = b.m.Height - b.m.Iceberg
	return b
}

func shAccent(e env, sym string, math bool) *B {
	b := &B{k: bAccent, sym: sym, fnt: e.fnt, dpi: e.dpi, math: math, be: e.be}
	b.m = e.be.Metrics(sym, e.fnt, e.dpi, math)
	b.w = b.m.XMax - b.m.XMin
	b.h = b.m.YMax - b.m.YMin
	return b
}

func shKern(w float64) *B              { return &B{k: bKern, w: w} }
func shHBox(w float64) *B              { return &B{k: bBox, w: w} }
func shVBox(h, d float64) *B           { return &B{k: bBox, h: h, d: d} }
func shRule(e env, w, h, d float64) *B { return &B{k: bRule, w: w, h: h, d: d, be: e.be} }

func shHRule(e env, t float64) *B {
	if t < 0 {
		t = e.thickness()
	}
	return shRule(e, math.Inf(+1), t/2, t/2)
}

func shVRule(e env) *B {
	return shRule(e, e.thickness(), math.Inf(+1), math.Inf(+1))
}

type glueSpec struct {
	st, sk   float64
	sto, sko int
}

var glues = map[string]glueSpec{
	"fil":       {st: 1, sto: 1},
	"fill":      {st: 1, sto: 2},
	"filll":     {st: 1, sto: 3},
	"neg_fil":   {sk: 1, sko: 1},
	"neg_fill":  {sk: 1, sko: 2},
	"neg_filll": {sk: 1, sko: 3},
	"empty":     {},
	"ss":        {st: 1, sto: 1, sk: -1, sko: 1},
}

func shGlue(kind string) *B {
	g, ok := glues[kind]
	if !ok {
		panic("unknown glue " + kind)
	}
	return &B{k: bGlue, st: g.st, sk: g.sk, sto: g.sto, sko: g.sko}
}

// kerning between a box and the next one.
func (b *B) kerning(next *B) float64 {
	if b.k != bChar && b.k != bAccent {
		return 0
	}
	v := b.m.Advance - b.w
	if next != nil && (next.k == bChar || next.k == bAccent) {
		v += b.be.Kern(b.fnt, b.sym, next.fnt, next.sym, b.dpi)
	}
	return v
}

func shHList(kids []*B, kern bool) *B {
	b := &B{k: bHList}
	for i, k := range kids {
		b.kids = append(b.kids, k)
		if !kern {
			continue
		}
		var next *B
		if i+1 < len(kids) {
			next = kids[i+1]
		}
		if v := k.kerning(next); v != 0 {
			b.kids = append(b.kids, shKern(v))
		}
	}
	b.hpack(0, true)
	return b
}

func shVList(kids []*B) *B {
	b := &B{k: bVList, kids: append([]*B{}, kids...)}
	b.vpack(0, true, math.Inf(+1))
	return b
}

func shCentered(kids []*B) *B {
	all := append([]*B{shGlue("ss")}, kids...)
	return shHList(append(all, shGlue("ss")), false)
}

func shVCentered(kids []*B) *B {
	all := append([]*B{shGlue("ss")}, kids...)
	return shVList(append(all, shGlue("ss")))
}

func inf(v float64) bool { return math.IsInf(v, 0) }

func (b *B) hpack(width float64, additional bool) {
	var x, h, d float64
	for _, k := range b.kids {
		x += k.w
		switch k.k {
		case bKern, bGlue:
			continue
		}
		if inf(k.h) || inf(k.d) {
			continue // running dimensions do not count
		}
		h = math.Max(h, k.h-k.shift)
		d = math.Max(d, k.d+k.shift)
	}
	if additional {
		width += x
	}
	b.h, b.d, b.w = h, d, width
	b.setGlue(width - x)
}

func (b *B) vpack(height float64, additional bool, maxDepth float64) {
	var x, w, d float64
	for _, k := range b.kids {
		switch k.k {
		case bKern, bGlue:
			x += d + k.w
			d = 0
			continue
		}
		x += d + k.h
		d = k.d
		if !inf(k.w) {
			w = math.Max(w, k.w)
		}
	}
	if d > maxDepth {
		x += d - maxDepth
		d = maxDepth
	}
	if additional {
		height += x
	}
	b.w, b.d, b.h = w, d, height
	b.setGlue(height - x)
}

// setGlue distributes the missing (or excess) space.
func (b *B) setGlue(diff float64) {
	b.sign, b.order = 0, 0
	if diff == 0 {
		return
	}
	var totals [4]float64
	for _, k := range b.kids {
		if k.k != bGlue {
			continue
		}
		if diff > 0 {
			totals[k.sto] += k.st
		} else {
			totals[k.sko] += k.sk
		}
	}
	for o := 3; o >= 0; o-- {
		if totals[o] == 0 {
			continue
		}
		b.order = o
		b.sign = +1
		if diff < 0 {
			b.sign = -1
		}
		b.set = diff / totals[o]
		return
	}
}

// scale shrinks or grows a box and everything below it.
func (b *B) scale(f float64) {
	b.w *= f
	switch b.k {
	case bKern, bGlue:
		return
	}
	b.h *= f
	b.d *= f
	switch b.k {
	case bChar, bAccent:
		b.fnt.Size *= f
		b.mScale(f)
	case bHList, bVList:
		b.shift *= f
		b.set *= f
		for _, k := range b.kids {
			k.scale(f)
		}
	}
}

func (b *B) mScale(f float64) {
	b.m.Advance *= f
	b.m.Height *= f
	b.m.Width *= f
	b.m.XMin *= f
	b.m.XMax *= f
	b.m.YMin *= f
	b.m.YMax *= f
	b.m.Iceberg *= f
}

const shrinkBy = 0.7

// shipper computes what shipping a box draws.
type shipper struct {
	ops  []drawn
	tie  bool // a glue falls between two integers
	ends []edge
}

// edge records where the contents of a list end.
type edge struct {
	b    *B
	size float64 // size of the list
	end  float64 // end of its contents, from its start
}

func shShip(x, y float64, b *B) *shipper {
	s := &shipper{}
	s.hlist(b, x, y+b.h, b.w)
	return s
}

// glueSize returns the sizes of the glue items of a list, in order.
func (s *shipper) glueSize(b *B) func(k *B) float64 {
	var (
		total float64
		prev  float64
	)
	return func(k *B) float64 {
		var g float64
		switch {
		case b.sign > 0 && k.sto == b.order:
			g = k.st
		case b.sign < 0 && k.sko == b.order:
			g = k.sk
		default:
			return k.w
		}
		total += g
		v := math.Max(-1e9, math.Min(1e9, b.set*total))
		if f := math.Abs(v - math.Trunc(v)); math.Abs(f-0.5) < 1e-6 {
			s.tie = true
		}
		cur := math.Round(v)
		size := k.w + cur - prev
		prev = cur
		return size
	}
}

// hlist draws a horizontal list whose reference point is (x, y).
func (s *shipper) hlist(b *B, x, y float64, width float64) {
	glue := s.glueSize(b)
	x0 := x
	for _, k := range b.kids {
		switch k.k {
		case bChar:
			s.glyph(k, x, y)
			x += k.w
		case bAccent:
			s.glyph(k, x-k.m.XMin, y+k.m.YMin)
			x += k.w
		case bKern, bBox:
			x += k.w
		case bGlue:
			x += glue(k)
		case bRule:
			h, d := k.h, k.d
			if inf(h) {
				h = b.h
			}
			if inf(d) {
				d = b.d
			}
			if h > 0 && k.w > 0 {
				s.ops = append(s.ops, drawn{b: k, rect: true, x: x, y: y + d, x2: x + k.w, y2: y + d + h})
			}
			x += k.w
		case bHList:
			s.hlist(k, x, y+k.shift, k.w)
			x += k.w
		case bVList:
			s.vlist(k, x, y+k.shift, k.w)
			x += k.w
		}
	}
	s.ends = append(s.ends, edge{b, b.w, x - x0})
}

// vlist draws a vertical list whose reference point is (x, y).
func (s *shipper) vlist(b *B, x, y float64, width float64) {
	glue := s.glueSize(b)
	y -= b.h
	y0 := y
	for _, k := range b.kids {
		switch k.k {
		case bKern:
			y += k.w
		case bGlue:
			y += glue(k)
		case bBox:
			y += k.h + k.d
		case bRule:
			w := k.w
			if inf(w) {
				w = width
			}
			h := k.h + k.d
			y += h
			if h > 0 && w > 0 {
				s.ops = append(s.ops, drawn{b: k, rect: true, x: x, y: y, x2: x + w, y2: y + h})
			}
		case bHList:
			y += k.h
			if len(k.kids) > 0 {
				s.hlist(k, x+k.shift, y, width)
			}
			y += k.d
		case bVList:
			y += k.h
			if len(k.kids) > 0 {
				s.vlist(k, x+k.shift, y, width)
			}
			y += k.d
		}
	}
	s.ends = append(s.ends, edge{b, b.h + b.d, y - y0})
}

func (s *shipper) glyph(k *B, x, y float64) {
	s.ops = append(s.ops, drawn{b: k, x: x, y: y, sym: k.sym, fnt: k.fnt, dpi: k.dpi})
}
