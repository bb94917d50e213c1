package main

import (
	"fmt"
	"math"
	"math/rand"

	"github.com/go-latex/latex/font"
	"github.com/go-latex/latex/tex"
)

// boxGen builds the same boxes twice: with the code under test and in the
// shadow model.
type boxGen struct {
	c     *Case
	be    *synth
	glue  int // percentage of glue among the items of a list
	packs int // percentage of lists packed to another size
	scale int // percentage of items shrunk or grown on the way
	rules bool
	fills bool // no list is scaled on its own: glue fills sizes
	ops   int
	far   float64 // how far sizes are, at times, beyond the usual ones
	long  int     // one of the first lists has that many items
	short bool    // lists have few items
}

var boxFonts = []font.Font{
	{Name: "default", Type: "rm", Size: 10}, {Name: "default", Type: "it", Size: 10},
	{Name: "default", Type: "rm", Size: 12}, {Name: "it", Type: "it", Size: 7.3},
	{Name: "bf", Type: "bf", Size: 17}, {Name: "default", Type: "it", Size: 12},
}

var boxSyms = []string{"a", "b", "x", "A", "V", "T", "o", "f", "i", "1", "0", "+", "-", "=", "(", ")", ".", ",", `\alpha`, `\sum`, `\int`, `\oslash`, "é", " "}

func newBoxGen(c *Case) *boxGen {
	far := 1.0
	if c.Intn(10) == 0 {
		far = math.Pow(10, float64(1+c.Intn(6)))
	}
	long := 0
	if c.Intn(250) == 0 {
		long, far = int(math.Exp(2.5+5.5*c.Float64())), 1
	}
	return &boxGen{
		c: c, far: far, long: long,
		be:   &synth{seed: uint64(c.Int63()), kerns: c.Intn(3) > 0, real: c.Intn(2) == 0},
		glue: 15, packs: 30, scale: 0, rules: true,
	}
}

func (g *boxGen) env() env {
	f := pick(g.c, boxFonts)
	return env{be: g.be, fnt: f, dpi: pick(g.c, []float64{72, 72, 100, 36})}
}

// items chooses the number of items of a list, at most depth levels deep.
func (g *boxGen) items(n int, depth *int) int {
	c := g.c
	if g.long > 0 && c.Intn(3) > 0 {
		n := g.long
		g.long, g.short = 0, true
		*depth = min(*depth, 2)
		c.Count("long lists", 1)
		c.Set("lengths of long lists", fmt.Sprint(n))
		return n
	}
	if g.short {
		n = 3
	}
	return c.Intn(n)
}

// length returns some length: of either sign, mostly positive.
func (g *boxGen) length(neg bool) float64 {
	v := g.c.Float64() * pick(g.c, []float64{1, 5, 20, 60})
	if g.far > 1 && g.c.Intn(4) == 0 {
		v *= g.far
		g.c.Count("sizes far beyond the usual ones", 1)
	}
	switch g.c.Intn(12) {
	case 0:
		return 0
	case 1, 2:
		if neg {
			return -v
		}
	case 3:
		return float64(g.c.Intn(30))
	}
	return v
}

func (g *boxGen) char() *B {
	e, sym := g.env(), pick(g.c, boxSyms)
	m := true
	if len(sym) == 1 || sym == "é" {
		m = g.c.Intn(2) == 0
	}
	if g.c.Intn(6) == 0 && sym != " " {
		b := shAccent(e, sym, m)
		b.real = tex.NewAccent(sym, e.state(), m)
		g.c.Count("accents", 1)
		return b
	}
	b := shChar(e, sym, m)
	b.real = tex.NewChar(sym, e.state(), m)
	g.c.Count("characters", 1)
	return b
}

func (g *boxGen) glueItem() *B {
	k := pick(g.c, []string{"fil", "fil", "fill", "filll", "neg_fil", "neg_fill", "neg_filll", "empty", "ss", "ss"})
	b := shGlue(k)
	b.real = tex.NewGlue(k)
	g.c.Count("glue "+k, 1)
	return b
}

func (g *boxGen) kern() *B {
	v := g.length(true)
	b := shKern(v)
	b.real = tex.NewKern(v)
	g.c.Count("kerns", 1)
	return b
}

func (g *boxGen) rule(vertical bool) *B {
	e := g.env()
	inf := math.Inf(+1)
	g.c.Count("rules", 1)
	w, h, d := g.length(true), g.length(true), g.length(true)
	switch {
	case vertical && g.c.Intn(2) == 0:
		t := pick(g.c, []float64{-1, -1, 0, g.length(false)})
		b := shHRule(e, t)
		b.real = tex.HRule(e.state(), t)
		return b
	case vertical && g.c.Intn(2) == 0:
		w = inf
	case !vertical && g.c.Intn(3) == 0:
		b := shVRule(e)
		b.real = tex.VRule(e.state())
		return b
	case !vertical:
		switch g.c.Intn(4) {
		case 0:
			h = inf
		case 1:
			d = inf
		case 2:
			h, d = inf, inf
		}
	}
	b := shRule(e, w, h, d)
	b.real = tex.NewRule(w, h, d, e.state())
	return b
}

func (g *boxGen) box() *B {
	g.c.Count("empty boxes", 1)
	if g.c.Intn(2) == 0 {
		w := g.length(true)
		b := shHBox(w)
		b.real = tex.HBox(w)
		return b
	}
	h, d := g.length(true), g.length(true)
	b := shVBox(h, d)
	b.real = tex.VBox(h, d)
	return b
}

// item makes an item of a horizontal (or vertical) list.
func (g *boxGen) item(depth int, vertical bool) *B {
	c := g.c
	b := g.plain(depth, vertical)
	if c.Intn(100) < g.scale && b.k != bGlue {
		n := 1 + c.Intn(3)
		f, name := shrinkBy, "shrunk"
		if c.Intn(3) == 0 {
			f, name, n = 1/shrinkBy, "grown", 1
		}
		for i := 0; i < n; i++ {
			if name == "shrunk" {
				b.real.Shrink()
			} else {
				b.real.Grow()
			}
			b.scale(f)
		}
		g.c.Count("items "+name, n)
	}
	return b
}

func (g *boxGen) plain(depth int, vertical bool) *B {
	c := g.c
	if c.Intn(100) < g.glue {
		return g.glueItem()
	}
	for {
		switch r := c.Intn(12); {
		case r < 3 && !vertical:
			return g.char()
		case r == 3:
			return g.kern()
		case r == 4:
			return g.box()
		case r == 5 && g.rules:
			return g.rule(vertical)
		case r == 6 && !vertical:
			return g.tall()
		case r > 6 && depth > 0:
			if c.Intn(2) == 0 {
				return g.hlist(depth - 1)
			}
			return g.vlist(depth - 1)
		case r > 6 && vertical && c.Intn(3) == 0:
			return g.hlist(0)
		}
	}
}

// tall is a character stretched to a given height.
func (g *boxGen) tall() *B {
	c := g.c
	e := g.env()
	sym := pick(c, []string{"(", ")", "x", `\alpha`, `\__sqrt__`, `\int`})
	h, d := 3+c.Float64()*30, c.Float64()*20
	factor := 0.0
	if c.Intn(3) == 0 {
		factor = 0.5 + c.Float64()*2
	}
	b := shTall(e, sym, h, d, factor)
	b.real = tex.AutoHeightChar(sym, h, d, e.state(), factor)
	c.Count("stretched characters", 1)
	return b
}

// shTall is a character as high as asked (factor 0) or enlarged by a factor,
// its depth shifted to the wanted one.
func shTall(e env, sym string, height, depth, factor float64) *B {
	ch := shChar(e, sym, true)
	if factor == 0 {
		factor = (height + depth) / (ch.h + ch.d)
	}
	e.fnt.Size *= factor
	ch = shChar(e, sym, true)
	b := shHList([]*B{ch}, true)
	b.shift = depth - ch.d
	return b
}

func reals(kids []*B) []tex.Node {
	// capacity to spare, with a guard behind the slice.
	o := make([]tex.Node, len(kids), len(kids)+3)
	for i, k := range kids {
		o[i] = k.real
	}
	full := o[:cap(o)]
	for i := len(kids); i < len(full); i++ {
		full[i] = guardNode
	}
	return o
}

var guardNode = tex.NewKern(12345)

// untouched checks the slice that was given to a constructor, then changes it.
func (g *boxGen) untouched(nodes []tex.Node, kids []*B, list tex.Tree) {
	full := nodes[:cap(nodes)]
	for i, n := range full {
		want := tex.Node(guardNode)
		if i < len(kids) {
			want = kids[i].real
		}
		if n != want {
			g.c.Failf("building a list changed the caller's slice at %d", i)
		}
	}
	before := append([]tex.Node{}, list.Nodes()...)
	for i := range full {
		full[i] = guardNode
	}
	after := list.Nodes()
	for i := range before {
		if i >= len(after) || before[i] != after[i] {
			g.c.Failf("the list keeps the caller's slice: item %d changed with it", i)
		}
	}
	g.c.Count("caller slices checked", 1)
}

func (g *boxGen) hlist(depth int) *B {
	c := g.c
	var kids []*B
	for n := g.items(6, &depth); n > 0; n-- {
		kids = append(kids, g.item(depth, false))
	}
	if g.scale > 0 {
		// kerning of characters that were scaled on their own is not specified.
		return g.pack(g.hlistOf(kids, false, g.glue > 0 && c.Intn(5) == 0))
	}
	return g.pack(g.hlistOf(kids, c.Intn(3) > 0, g.glue > 0 && c.Intn(5) == 0))
}

func (g *boxGen) hlistOf(kids []*B, kern, centred bool) *B {
	nodes := reals(kids)
	if centred {
		b := shCentered(kids)
		l := tex.HCentered(nodes)
		b.real = l
		g.untouched(nodes, kids, l)
		g.adopt(b)
		return b
	}
	b := shHList(kids, kern)
	l := tex.HListOf(nodes, kern)
	b.real = l
	g.untouched(nodes, kids, l)
	g.adopt(b)
	return b
}

func (g *boxGen) vlist(depth int) *B {
	c := g.c
	var kids []*B
	for n := g.items(6, &depth); n > 0; n-- {
		kids = append(kids, g.item(depth, true))
	}
	b := g.pack(g.vlistOf(kids, g.glue > 0 && c.Intn(5) == 0))
	if c.Intn(3) == 0 {
		s := g.length(true)
		b.shift = s
		b.real.(*tex.VList).SetShift(s)
		c.Count("shifts", 1)
	}
	return b
}

func (g *boxGen) vlistOf(kids []*B, centred bool) *B {
	nodes := reals(kids)
	if centred {
		b := shVCentered(kids)
		l := tex.VCentered(nodes)
		b.real = l
		g.untouched(nodes, kids, l)
		g.adopt(b)
		return b
	}
	b := shVList(kids)
	l := tex.VListOf(nodes)
	b.real = l
	g.untouched(nodes, kids, l)
	g.adopt(b)
	return b
}

// adopt finds the nodes that the code under test inserted itself.
func (g *boxGen) adopt(b *B) {
	nodes := b.real.(tex.Tree).Nodes()
	i := 0
	for ki, k := range b.kids {
		if k.real != nil {
			for i < len(nodes) && nodes[i] != k.real {
				if !insertable(nodes[i]) {
					break
				}
				i++
			}
			if i >= len(nodes) || nodes[i] != k.real {
				g.c.Failf("item %d of %d (%s) is missing from the list or out of order", ki, len(b.kids), k.k)
			}
			i++
		}
	}
	for ; i < len(nodes); i++ {
		if !insertable(nodes[i]) {
			g.c.Failf("unexpected %T at the end of the list", nodes[i])
		}
	}
}

func insertable(n tex.Node) bool {
	switch n.(type) {
	case *tex.Kern, *tex.Glue:
		return true
	}
	return false
}

// pack packs a list to another size, once or more, or not at all.
func (g *boxGen) pack(b *B) *B {
	for g.c.Intn(100) < g.packs {
		g.repack(b)
	}
	return b
}

func (g *boxGen) repack(b *B) {
	c := g.c
	add := c.Intn(2) == 0
	v := g.length(true)
	switch {
	case !add && c.Intn(3) > 0:
		// near the natural size.
		if b.k == bHList {
			b.hpack(0, true)
			v = b.w + g.length(true)
		} else {
			b.vpack(0, true, math.Inf(+1))
			v = b.h + g.length(true)
		}
	case add && c.Intn(4) == 0:
		v = 0
	}
	g.ops++
	c.Count("packings", 1)
	switch l := b.real.(type) {
	case *tex.HList:
		b.hpack(v, add)
		l.HPack(v, add)
	case *tex.VList:
		max := math.Inf(+1)
		if c.Intn(3) == 0 {
			max = g.length(false)
			c.Count("packings with a maximum depth", 1)
		}
		b.vpack(v, add, max)
		l.VPack(v, add, max)
	}
}

// same compares the dimensions of the boxes with the model's.
func (g *boxGen) same(b *B, glue bool) {
	c := g.c
	if b.real == nil {
		return
	}
	c.Count("boxes measured", 1)
	c.Count("measured "+b.k, 1)
	if !near(b.real.Width(), b.w) || !near(b.real.Height(), b.h) || !near(b.real.Depth(), b.d) {
		c.Failf("%s of %d items has size %.9g x %.9g + %.9g instead of %.9g x %.9g + %.9g\n%s", b.k, len(b.kids),
			b.real.Width(), b.real.Height(), b.real.Depth(), b.w, b.h, b.d, clip(b.String()))
	}
	if hl, ok := b.real.(*tex.HList); ok && !near(hl.Shift(), b.shift) {
		c.Failf("list shifted by %.9g instead of %.9g", hl.Shift(), b.shift)
	}
	t, ok := b.real.(tex.Tree)
	if !ok {
		return
	}
	if glue {
		sign := t.GlueSign()
		if sign != b.sign && (sign == 0 || near(t.GlueSet(), 0)) && (b.sign == 0 || near(b.set, 0)) {
			// nothing to fill but a rounding error of the sum of the sizes.
			c.Count("lists of the natural size", 1)
		} else if sign != b.sign || sign != 0 && (t.GlueOrder() != b.order || !near(t.GlueSet(), b.set)) {
			c.Failf("glue set %.9g order %d sign %d instead of %.9g, %d, %d\n%s", t.GlueSet(), t.GlueOrder(), sign, b.set, b.order, b.sign, clip(b.String()))
		}
		c.Count("glue settings compared", 1)
		if sign != 0 {
			c.Count(fmt.Sprintf("glue set at order %d, sign %+d", b.order, sign), 1)
		}
	}
	// kerning inserted after each item.
	nodes := t.Nodes()
	i := 0
	var want, got float64
	flush := func(what string) {
		if !near(want, got) {
			c.Failf("kerning of %.9g instead of %.9g before %s\n%s", got, want, what, clip(b.String()))
		}
		want, got = 0, 0
	}
	for _, k := range b.kids {
		if k.real == nil {
			if k.k == bKern {
				want += k.w
			}
			continue
		}
		for i < len(nodes) && nodes[i] != k.real {
			if !insertable(nodes[i]) {
				c.Failf("the list lost or reordered its items\n%s", clip(b.String()))
			}
			if kn, ok := nodes[i].(*tex.Kern); ok {
				got += kn.Width()
			}
			i++
		}
		if i >= len(nodes) {
			c.Failf("the list lost items\n%s", clip(b.String()))
		}
		flush(k.k)
		i++
	}
	for ; i < len(nodes); i++ {
		if kn, ok := nodes[i].(*tex.Kern); ok {
			got += kn.Width()
		}
	}
	flush("the end")
	for _, k := range b.kids {
		g.same(k, glue)
	}
}

// ship draws a list and compares with the model.
func (g *boxGen) ship(s *tex.Ship, x, y float64, b *B) []drawn {
	c := g.c
	g.be.take()
	s.Call(x, y, b.real.(tex.Tree))
	got := g.be.take()
	m := shShip(x, y, b)
	c.Count("operations drawn", len(got))
	for _, op := range got {
		if op.rect {
			c.Count("rules drawn", 1)
		} else {
			c.Count("glyphs drawn", 1)
		}
	}
	if m.tie {
		c.Count("rounding ties (positions not compared)", 1)
		if len(m.ops) != len(got) {
			c.Failf("%d operations instead of %d\n%s", len(got), len(m.ops), clip(b.String()))
		}
		return got
	}
	if d := diffDrawn(m.ops, got); d != "" {
		c.Failf("%s\n%s", d, clip(b.String()))
	}
	c.Count("drawings compared", 1)
	for _, e := range m.ends {
		if !g.fills {
			break
		}
		if e.b.sign != 0 && math.Abs(e.b.set) < 1e6 {
			c.Count("filled lists", 1)
			if math.Abs(e.size-e.end) > 1 {
				c.Failf("items of a set %s end at %g, its size is %g\n%s", e.b.k, e.end, e.size, clip(e.b.String()))
			}
		}
	}
	return got
}

func (b *B) shape() string { return b.String() }

func (b *B) count() int {
	n := 0
	b.each(func(*B) { n++ })
	return n
}

func (g *boxGen) done(b *B) {
	if b.count() > 3 {
		g.c.Distinct(b.shape())
	}
	if b.count() < 12 {
		g.c.Sample(b.String())
	}
}

func init() {
	register(&Check{
		ID:   "C08",
		Rule: "a case builds a random tree of boxes, packs and repacks its lists and compares every size with the shadow box model; distinct by the tree and its sizes",
		Need: []string{"long lists", "boxes measured", "packings", "packings with a maximum depth", "caller slices checked", "measured hlist", "measured vlist", "measured char", "measured accent", "measured rule", "stretched characters", "shifts"},
		Families: []*Family{
			{Name: "pack", Quick: 500000, Thorough: 3000000, Run: func(c *Case) {
				g := newBoxGen(c)
				b := g.hlist(1 + c.Intn(4))
				c.Input(b)
				g.same(b, false)
				// pack any of the lists again.
				var lists []*B
				b.each(func(k *B) {
					if k.k == bHList || k.k == bVList {
						lists = append(lists, k)
					}
				})
				for n := c.Intn(4); n > 0; n-- {
					g.repack(pick(c, lists))
					g.same(b, false)
				}
				// natural size again, from the inside out.
				for i := len(lists) - 1; i >= 0; i-- {
					l := lists[i]
					switch r := l.real.(type) {
					case *tex.HList:
						l.hpack(0, true)
						r.HPack(0, true)
					case *tex.VList:
						l.vpack(0, true, math.Inf(+1))
						r.VPack(0, true, math.Inf(+1))
					}
				}
				g.same(b, false)
				g.done(b)
			}},
			{Name: "one list", Quick: 500000, Thorough: 3000000, Run: func(c *Case) {
				// long lists of one kind of item, arithmetic redone here.
				g := newBoxGen(c)
				g.packs = 0
				vertical := c.Intn(2) == 0
				depth := 1
				n := g.items(12, &depth)
				var kids []*B
				for i := 0; i < n; i++ {
					kids = append(kids, g.item(1, vertical))
				}
				var b *B
				if vertical {
					b = g.vlistOf(kids, false)
				} else {
					b = g.hlistOf(kids, c.Intn(2) == 0, false)
				}
				c.Input(b)
				g.same(b, false)
				target := g.length(true)
				switch l := b.real.(type) {
				case *tex.HList:
					l.HPack(target, false)
					c.Assert(l.Width() == target, "packed to %g, the width is %g", target, l.Width())
					nat := b.w
					l.HPack(target, true)
					c.Assert(near(l.Width(), nat+target), "packed to %g more than %g, the width is %g", target, nat, l.Width())
				case *tex.VList:
					inf := math.Inf(+1)
					l.VPack(target, false, inf)
					c.Assert(l.Height() == target, "packed to %g, the height is %g", target, l.Height())
					nat := b.h
					l.VPack(target, true, inf)
					c.Assert(near(l.Height(), nat+target), "packed to %g more than %g, the height is %g", target, nat, l.Height())
					max := c.Float64() * 10
					l.VPack(0, true, max)
					c.Assert(l.Depth() <= max, "depth %g beyond the maximum of %g", l.Depth(), max)
					c.Assert(near(l.Height()+l.Depth(), b.h+b.d), "total size %g instead of %g", l.Height()+l.Depth(), b.h+b.d)
				}
				c.Count("packings", 3)
				g.done(b)
			}},
			{Name: "plain list", Quick: 500, Thorough: 10000, Run: func(c *Case) {
				g := newBoxGen(c)
				var kids []*B
				depth := 0
				for n := g.items(6, &depth); n > 0; n-- {
					kids = append(kids, g.item(0, false))
				}
				nodes := reals(kids)
				l := tex.ListOf(nodes)
				if len(l.Nodes()) != len(kids) {
					c.Failf("%d items instead of %d", len(l.Nodes()), len(kids))
				}
				for i, n := range l.Nodes() {
					c.Assert(n == kids[i].real, "item %d is another one", i)
				}
				g.untouched(nodes, kids, l)
			}},
		},
	})

	register(&Check{
		ID:   "C09",
		Rule: "a case packs lists with glue to other sizes, compares the glue setting with the model and the drawn positions with the filled sizes; distinct by tree and settings",
		Need: []string{"long lists", "glue settings compared", "filled lists", "drawings compared", "centred items observed",
			"glue set at order 1, sign +1", "glue set at order 2, sign +1", "glue set at order 3, sign +1",
			"glue set at order 1, sign -1", "glue set at order 2, sign -1", "glue set at order 3, sign -1"},
		Families: []*Family{
			{Name: "glue", Quick: 1000000, Thorough: 3000000, Run: func(c *Case) {
				g := newBoxGen(c)
				g.glue, g.packs, g.fills = 20+c.Intn(50), 60, true
				if c.Intn(6) == 0 {
					g.far = math.Pow(10, float64(1+c.Intn(6)))
				}
				b := g.hlist(1 + c.Intn(4))
				c.Input(b)
				g.same(b, true)
				var s tex.Ship
				g.ship(&s, 0, 0, b)
				g.same1(b)
				g.done(b)
			}},
			{Name: "shares", Quick: 500000, Thorough: 1500000, Run: func(c *Case) { glueShares(c) }},
			{Name: "centred", Quick: 500000, Thorough: 1500000, Run: func(c *Case) { glueCentred(c) }},
		},
	})

	register(&Check{
		ID:          "C10",
		Rule:        "a case scales nodes of a random tree, compares every size, setting and drawing with the model's, then scales back; distinct by tree and scaling",
		Assumptions: []string{"at most five net levels of growth, as many of shrinking as tried (12)"},
		Need:        []string{"long lists", "boxes measured", "items shrunk", "items grown", "drawings compared", "scaled back", "measured char", "measured accent", "measured rule", "measured glue", "glue settings compared"},
		Families: []*Family{
			{Name: "scale", Quick: 240000, Thorough: 3000000, Run: func(c *Case) {
				g := newBoxGen(c)
				b := g.hlist(1 + c.Intn(4))
				var all []*B
				b.each(func(k *B) { all = append(all, k) })
				c.Input(b)
				up, steps := 0, 1+c.Intn(6)
				for i := 0; i < steps; i++ {
					k := pick(c, all)
					if c.Intn(3) == 0 {
						k = b
					}
					if k.real == nil {
						continue
					}
					if c.Intn(2) == 0 && up < 5 {
						up++
						k.real.Grow()
						k.scale(1 / shrinkBy)
						c.Count("items grown", 1)
					} else {
						k.real.Shrink()
						k.scale(shrinkBy)
						c.Count("items shrunk", 1)
					}
					g.same(b, true)
				}
				var s tex.Ship
				g.ship(&s, 3, 5, b)
				g.done(b)
			}},
			{Name: "inverse", Quick: 160000, Thorough: 1500000, Run: func(c *Case) {
				// the same tree at another scale and back.
				// three times the same tree, as shipping may widen the lists
				// stacked in a vertical list.
				seed := c.Int63()
				depth := 1 + c.Intn(3)
				build := func() (*boxGen, *B) {
					c2 := *c
					c2.Rand = rand.New(rand.NewSource(seed))
					g := newBoxGen(&c2)
					g.glue = 0 // the setting of glue is rounded to units
					return g, g.hlist(depth)
				}
				n := 1 + c.Intn(12)
				grow := n <= 5 && c.Intn(2) == 0
				f := 1.0
				scale := func(b *B, grow bool) {
					if grow {
						b.real.Grow()
						b.scale(1 / shrinkBy)
						c.Count("items grown", 1)
					} else {
						b.real.Shrink()
						b.scale(shrinkBy)
						c.Count("items shrunk", 1)
					}
				}
				g, b := build()
				c.Input(b)
				before := g.ship(new(tex.Ship), 0, 0, b)
				g, b = build()
				for i := 0; i < n; i++ {
					scale(b, grow)
					if grow {
						f /= shrinkBy
					} else {
						f *= shrinkBy
					}
					g.same(b, true)
				}
				after := g.ship(new(tex.Ship), 0, 0, b)
				if len(before) != len(after) {
					c.Failf("%d operations at scale 1, %d at scale %g", len(before), len(after), f)
				}
				for i := range before {
					w := before[i]
					w.x, w.y, w.x2, w.y2, w.fnt.Size = w.x*f, w.y*f, w.x2*f, w.y2*f, w.fnt.Size*f
					if !sameDrawn(w, after[i]) {
						c.Failf("operation %d at scale %g is %v instead of %v\n%s", i, f, after[i], w, clip(b.String()))
					}
				}
				g, b = build()
				for i := 0; i < n; i++ {
					scale(b, grow)
				}
				for i := 0; i < n; i++ {
					scale(b, !grow)
				}
				g.same(b, true)
				back := g.ship(new(tex.Ship), 0, 0, b)
				if d := diffDrawn(before, back); d != "" {
					c.Failf("scaled there and back: %s\n%s", d, clip(b.String()))
				}
				c.Count("scaled back", 1)
				g.done(b)
			}},
			{Name: "single", Quick: 96000, Thorough: 1000000, Run: func(c *Case) {
				// nodes scaled before they are put into lists.
				g := newBoxGen(c)
				g.scale = 40
				b := g.hlist(1 + c.Intn(3))
				c.Input(b)
				g.same(b, true)
				var s tex.Ship
				g.ship(&s, 0, 0, b)
				g.done(b)
			}},
		},
	})

	register(&Check{
		ID:   "C11",
		Rule: "a case ships random trees to a recording backend and compares the calls with the model's, at several origins, again, and with a reused shipper; distinct by tree",
		Need: []string{"long lists", "drawings compared", "glyphs drawn", "rules drawn", "origins compared", "shipped again", "shipper reused", "drawings given up"},
		Families: []*Family{
			{Name: "ship", Quick: 500000, Thorough: 3000000, Run: func(c *Case) {
				g := newBoxGen(c)
				g.glue = pick(c, []int{0, 5, 20})
				var s tex.Ship
				var prev []*B
				for n := 1 + c.Intn(3); n > 0; n-- {
					b := g.hlist(c.Intn(5))
					c.Input(b)
					ox, oy := 0.0, 0.0
					if c.Intn(2) == 0 {
						ox, oy = g.length(true), g.length(true)
					}
					first := g.ship(&s, ox, oy, b)
					// elsewhere, with a new shipper or the same.
					dx, dy := g.length(true), g.length(true)
					t := &s
					if c.Intn(2) == 0 {
						t = new(tex.Ship)
					}
					there := g.ship(t, ox+dx, oy+dy, b)
					if len(first) != len(there) {
						c.Failf("%d operations, %d elsewhere\n%s", len(first), len(there), clip(b.String()))
					}
					for i := range first {
						w := first[i]
						w.x += dx
						w.y += dy
						w.x2 += dx
						w.y2 += dy
						if !sameDrawn(w, there[i]) {
							c.Failf("moved by (%g, %g), operation %d is %v instead of %v\n%s", dx, dy, i, there[i], w, clip(b.String()))
						}
					}
					c.Count("origins compared", 1)
					again := g.ship(&s, ox, oy, b)
					if d := diffDrawn(first, again); d != "" {
						c.Failf("shipped again: %s\n%s", d, clip(b.String()))
					}
					c.Count("shipped again", 1)
					if c.Intn(20) == 0 {
						// a drawing that is given up in the middle.
						h := newBoxGen(c)
						h.glue = g.glue
						t := h.hlist(3).real.(tex.Tree)
						h.be.giveUp = 1 + c.Intn(6)
						func() {
							defer func() {
								if e := recover(); e != nil && e != any("giving up") {
									panic(e)
								}
							}()
							s.Call(g.length(true), g.length(true), t)
						}()
						if d := diffDrawn(first, g.ship(&s, ox, oy, b)); d != "" {
							c.Failf("shipped after a drawing that was given up: %s\n%s", d, clip(b.String()))
						}
						if h.be.giveUp == 0 {
							c.Count("drawings given up", 1)
						}
					}
					if len(prev) > 0 {
						g.ship(&s, 0, 0, pick(c, prev))
						c.Count("shipper reused", 1)
					}
					prev = append(prev, b)
					g.done(b)
				}
			}},
			{Name: "deep", Quick: 200, Thorough: 5000, Run: func(c *Case) {
				g := newBoxGen(c)
				g.glue = 0
				b := g.hlist(0)
				for n := 50 + c.Intn(200); n > 0; n-- {
					kids := []*B{b}
					if c.Intn(3) == 0 {
						v := g.vlistOf(kids, false)
						sh := g.length(true)
						v.shift = sh
						v.real.(*tex.VList).SetShift(sh)
						kids = []*B{v}
					}
					if c.Intn(2) == 0 {
						kids = append([]*B{g.item(0, false)}, kids...)
					}
					if c.Intn(2) == 0 {
						kids = append(kids, g.item(0, false))
					}
					b = g.hlistOf(kids, c.Intn(2) == 0, false)
				}
				c.Input(fmt.Sprintf("%d boxes nested", b.count()))
				var s tex.Ship
				g.ship(&s, 1, 2, b)
				g.ship(&s, 1, 2, b)
				c.Count("shipped again", 1)
			}},
		},
	})
}

// same1 checks what shipping must not change.
func (g *boxGen) same1(b *B) {
	t := b.real.(tex.Tree)
	if !near(t.Width(), b.w) || !near(t.Height(), b.h) || !near(t.Depth(), b.d) {
		g.c.Failf("shipping changed the size of a list to %g x %g + %g", t.Width(), t.Height(), t.Depth())
	}
}

// glueShares packs lists of marked items to larger and smaller sizes and reads
// the space given to each glue off the drawing.
func glueShares(c *Case) {
	g := newBoxGen(c)
	e := env{be: g.be, fnt: boxFonts[0], dpi: 72}
	vertical := c.Intn(2) == 0
	var (
		kids  []*B
		specs []glueSpec
		kinds []string
	)
	mark := func() {
		b := shHBox(1)
		b.real = tex.HBox(1)
		if vertical {
			b = shRule(e, 1, 1, 0)
			b.real = tex.NewRule(1, 1, 0, e.state())
		} else {
			b = shRule(e, 1, 1, 0)
			b.real = tex.NewRule(1, 1, 0, e.state())
		}
		kids = append(kids, b)
	}
	mark()
	depth := 0
	for n := 1 + g.items(5, &depth); n > 0; n-- {
		k := pick(c, []string{"fil", "fil", "fill", "filll", "neg_fil", "neg_fill", "neg_filll", "empty", "ss"})
		b := shGlue(k)
		b.real = tex.NewGlue(k)
		kids = append(kids, b)
		specs = append(specs, glues[k])
		kinds = append(kinds, k)
		mark()
	}
	diff := math.Round((c.Float64()*400-200)*10) / 10
	if c.Intn(5) == 0 {
		diff *= math.Pow(10, float64(1+c.Intn(6)))
		c.Count("sizes far beyond the usual ones", 1)
	}
	if c.Intn(10) == 0 {
		diff = 0
	}
	var root *B
	if vertical {
		v := g.vlistOf(kids, false)
		v.real.(*tex.VList).VPack(diff, true, math.Inf(+1))
		v.vpack(diff, true, math.Inf(+1))
		root = g.hlistOf([]*B{v}, false, false)
	} else {
		root = g.hlistOf(kids, false, false)
		root.real.(*tex.HList).HPack(diff, true)
		root.hpack(diff, true)
	}
	c.Input(fmt.Sprintf("glue %v, difference %g, vertical %v", kinds, diff, vertical))
	g.be.take()
	var s tex.Ship
	s.Call(0, 0, root.real.(tex.Tree))
	ops := g.be.take()
	if len(ops) != len(specs)+1 {
		c.Failf("%d rules drawn instead of %d", len(ops), len(specs)+1)
	}
	// who shares, and how much is there in all.
	order, total := 0, 0.0
	for o := 3; o >= 0 && total == 0; o-- {
		for _, sp := range specs {
			if diff > 0 && sp.sto == o {
				total += sp.st
			}
			if diff < 0 && sp.sko == o {
				total += sp.sk
			}
		}
		order = o
	}
	at := func(i int) float64 {
		if vertical {
			return ops[i].y
		}
		return ops[i].x
	}
	for i, sp := range specs {
		got := at(i+1) - at(i) - 1
		share := 0.0
		if total != 0 && diff != 0 {
			if diff > 0 && sp.sto == order {
				share = diff * sp.st / total
			}
			if diff < 0 && sp.sko == order {
				share = diff * sp.sk / total
			}
		}
		lim := 1 + 1e-6
		if share == 0 {
			lim = 1e-6
		}
		if math.Abs(got-share) > lim {
			c.Failf("glue %d (%s) of %v takes %g of %g instead of %g", i, kinds[i], kinds, got, diff, share)
		}
		c.Count("shares observed", 1)
	}
	if total != 0 && diff != 0 {
		got := at(len(specs)) - at(0) - float64(len(specs))
		if math.Abs(got-diff) > 0.5+1e-6 {
			c.Failf("glue %v takes %g in all, the difference is %g", kinds, got, diff)
		}
		c.Count("filled lists", 1)
	}
	c.Distinct(fmt.Sprint(kinds, diff, vertical))
	c.Sample(fmt.Sprint(kinds, diff, vertical))
}

// glueCentred centres one item in a larger or smaller size.
func glueCentred(c *Case) {
	g := newBoxGen(c)
	e := env{be: g.be, fnt: boxFonts[0], dpi: 72}
	w, h := c.Float64()*50+1, c.Float64()*50+1
	r := tex.NewRule(w, h, 0, e.state())
	size := math.Round(c.Float64()*3000) / 10
	if c.Intn(5) == 0 {
		size *= math.Pow(10, float64(1+c.Intn(6)))
		c.Count("sizes far beyond the usual ones", 1)
	}
	vertical := c.Intn(2) == 0
	c.Input(fmt.Sprintf("rule %g x %g centred in %g, vertical %v", w, h, size, vertical))
	var root *tex.HList
	item := w
	nested := c.Intn(2) == 0
	if vertical {
		v := tex.VCentered([]tex.Node{r})
		v.VPack(size, false, math.Inf(+1))
		root = tex.HListOf([]tex.Node{v}, false)
		item = h
	} else {
		root = tex.HCentered([]tex.Node{r})
		root.HPack(size, false)
		if nested {
			root = tex.HListOf([]tex.Node{root}, false)
		}
	}
	g.be.take()
	var s tex.Ship
	s.Call(0, 0, root)
	ops := g.be.take()
	if len(ops) != 1 {
		c.Failf("%d rules drawn", len(ops))
	}
	gap1, gap2 := ops[0].x, size-ops[0].x2
	if vertical {
		// the list starts at the top, and rules are drawn below their
		// reference point in the coordinates of the backend.
		gap1 = ops[0].y - item
		gap2 = size - ops[0].y
	}
	c.Count("centred items observed", 1)
	if math.Abs(gap1-gap2) > 2+1e-6 || math.Abs(gap1-(size-item)/2) > 1+1e-6 {
		c.Failf("%g left before and %g after an item of size %g centred in %g", gap1, gap2, item, size)
	}
	if math.Abs(gap1+gap2+item-size) > 1e-6 {
		c.Failf("item of size %g drawn with size %g", item, size-gap1-gap2)
	}
	c.Distinct(fmt.Sprint(w, h, size, vertical))
}
