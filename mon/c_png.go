package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"image"
	"image/color"
	"image/draw"
	"image/png"
	"io"
	"math"
	"strings"

	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/drawtex/drawimg"
	"github.com/go-latex/latex/mtex"
	"golang.org/x/image/font/sfnt"
	"golang.org/x/image/math/fixed"
	"golang.org/x/image/vector"
)

// ink is the monitors' own rasterisation of operations: the coverage of each
// pixel, from 0 to 1.
type ink struct {
	w, h int
	a    []float64
}

func newInk(w, h int) *ink { return &ink{w, h, make([]float64, w*h)} }

// over adds a mask whose top left is at (x0, y0).
func (k *ink) over(m *image.Alpha, x0, y0 int) {
	b := m.Bounds()
	for y := b.Min.Y; y < b.Max.Y; y++ {
		py := y + y0
		if py < 0 || py >= k.h {
			continue
		}
		for x := b.Min.X; x < b.Max.X; x++ {
			px := x + x0
			if px < 0 || px >= k.w {
				continue
			}
			v := float64(m.AlphaAt(x, y).A) / 255
			i := py*k.w + px
			k.a[i] = 1 - (1-k.a[i])*(1-v)
		}
	}
}

// glyph draws the outline of a character with its origin at (x, y) pixels.
func (k *ink) glyph(f *sfnt.Font, r rune, ppem, x, y float64) (drawn bool) {
	var b sfnt.Buffer
	idx, err := f.GlyphIndex(&b, r)
	if err != nil || idx == 0 {
		return false
	}
	segs, err := f.LoadGlyph(&b, idx, fixed.Int26_6(math.Round(ppem*64)), nil)
	if err != nil || len(segs) == 0 {
		return false
	}
	bb := segs.Bounds()
	x0 := int(math.Floor(x+float64(bb.Min.X)/64)) - 1
	y0 := int(math.Floor(y+float64(bb.Min.Y)/64)) - 1
	x1 := int(math.Ceil(x+float64(bb.Max.X)/64)) + 1
	y1 := int(math.Ceil(y+float64(bb.Max.Y)/64)) + 1
	if x1 < 0 || y1 < 0 || x0 > k.w || y0 > k.h {
		return true
	}
	rast := vector.NewRasterizer(x1-x0, y1-y0)
	p := func(q fixed.Point26_6) (float32, float32) {
		return float32(x + float64(q.X)/64 - float64(x0)), float32(y + float64(q.Y)/64 - float64(y0))
	}
	for _, s := range segs {
		ax, ay := p(s.Args[0])
		bx, by := p(s.Args[1])
		cx, cy := p(s.Args[2])
		switch s.Op {
		case sfnt.SegmentOpMoveTo:
			rast.ClosePath()
			rast.MoveTo(ax, ay)
		case sfnt.SegmentOpLineTo:
			rast.LineTo(ax, ay)
		case sfnt.SegmentOpQuadTo:
			rast.QuadTo(ax, ay, bx, by)
		case sfnt.SegmentOpCubeTo:
			rast.CubeTo(ax, ay, bx, by, cx, cy)
		}
	}
	rast.ClosePath()
	m := image.NewAlpha(image.Rect(0, 0, x1-x0, y1-y0))
	rast.DrawOp = draw.Src
	rast.Draw(m, m.Bounds(), image.Opaque, image.Point{})
	k.over(m, x0, y0)
	return true
}

// rect fills a rectangle of pixels.
func (k *ink) rect(x1, y1, x2, y2 float64) {
	if x1 > x2 {
		x1, x2 = x2, x1
	}
	if y1 > y2 {
		y1, y2 = y2, y1
	}
	cover := func(lo, hi float64, i int) float64 {
		return math.Max(0, math.Min(hi, float64(i+1))-math.Max(lo, float64(i)))
	}
	clampI := func(v float64, n int) int { return int(math.Max(0, math.Min(float64(n), v))) }
	for y := clampI(math.Floor(y1), k.h); y < clampI(math.Ceil(y2), k.h); y++ {
		for x := clampI(math.Floor(x1), k.w); x < clampI(math.Ceil(x2), k.w); x++ {
			i := y*k.w + x
			k.a[i] = 1 - (1-k.a[i])*(1-cover(x1, x2, x)*cover(y1, y2, y))
		}
	}
}

func (k *ink) draw(ops []drawtex.Op, dpi float64) {
	s := dpi / 72
	for _, op := range ops {
		switch op := op.(type) {
		case drawtex.GlyphOp:
			r := []rune(op.Glyph.Symbol)[0]
			k.glyph(op.Glyph.Font, r, op.Glyph.Size*s, op.X*s, op.Y*s)
		case drawtex.RectOp:
			k.rect(op.X1*s, op.Y1*s, op.X2*s, op.Y2*s)
		}
	}
}

// pngChunks walks the structure of a PNG file.
func pngChunks(raw []byte) error {
	const magic = "\x89PNG\r\n\x1a\n"
	if !bytes.HasPrefix(raw, []byte(magic)) {
		return fmt.Errorf("no PNG signature")
	}
	p := raw[len(magic):]
	var names []string
	for len(p) > 0 {
		if len(p) < 12 {
			return fmt.Errorf("%d bytes at the end", len(p))
		}
		n := int(binary.BigEndian.Uint32(p))
		if n < 0 || len(p) < 12+n {
			return fmt.Errorf("chunk %q is cut", p[4:8])
		}
		if crc32.ChecksumIEEE(p[4:8+n]) != binary.BigEndian.Uint32(p[8+n:]) {
			return fmt.Errorf("bad checksum of chunk %q", p[4:8])
		}
		names = append(names, string(p[4:8]))
		p = p[12+n:]
	}
	if names[0] != "IHDR" || names[len(names)-1] != "IEND" {
		return fmt.Errorf("chunks %v", names)
	}
	for _, n := range names[:len(names)-1] {
		if n == "IEND" {
			return fmt.Errorf("chunks %v", names)
		}
	}
	return nil
}

// rightImage compares a PNG with the operations it shows.
func rightImage(c *Case, what string, raw []byte, w, h, dpi float64, ops []drawtex.Op) {
	if err := pngChunks(raw); err != nil {
		c.Failf("%s: not a valid PNG: %v", what, err)
	}
	img, err := png.Decode(bytes.NewReader(raw))
	if err != nil {
		c.Failf("%s: not a valid PNG: %v", what, err)
	}
	pw, ph := int(math.Ceil(w*dpi)), int(math.Ceil(h*dpi))
	if b := img.Bounds(); b.Dx() != pw || b.Dy() != ph || b.Min != (image.Point{}) {
		c.Failf("%s: an image of %d x %d pixels instead of %d x %d", what, b.Dx(), b.Dy(), pw, ph)
	}
	k := newInk(pw, ph)
	k.draw(ops, dpi)
	inked := 0
	sum := 0.0
	for y := 0; y < ph; y++ {
		for x := 0; x < pw; x++ {
			px := color.NRGBAModel.Convert(img.At(x, y)).(color.NRGBA)
			if px.A != 0 && (px.R != 0 || px.G != 0 || px.B != 0) {
				c.Failf("%s: pixel (%d, %d) is %v, not black", what, x, y, px)
			}
			got, want := float64(px.A)/255, k.a[y*pw+x]
			if math.Abs(got-want) > inkTol {
				c.Failf("%s: pixel (%d, %d) has %.0f%% ink instead of %.0f%%", what, x, y, 100*got, 100*want)
			}
			sum += got - want
			if px.A != 0 {
				inked++
			}
		}
	}
	// the edges of rules are rounded to 1/64 of a pixel, and thin ones may
	// leave nothing.
	rules := 0.0
	for _, op := range ops {
		if r, ok := op.(drawtex.RectOp); ok {
			rules += (math.Min(math.Abs(r.X2-r.X1)*dpi/72, float64(pw)) + math.Min(math.Abs(r.Y2-r.Y1)*dpi/72, float64(ph))) / 64
		}
	}
	if math.Abs(sum) > 0.5+rules+0.02*float64(inked) {
		c.Failf("%s: %.3g more ink than expected, on %d pixels", what, sum, inked)
	}
	c.Count("pixels compared", pw*ph)
	c.Count("inked pixels", inked)
	c.Count("operations drawn", len(ops))
}

// inkTol is how much coverage of a pixel may differ: positions are rounded to
// 1/64 of a pixel.
const inkTol = 0.15

func renderPNG(c *Case, w, h, dpi float64, cnv *drawtex.Canvas) []byte {
	var buf bytes.Buffer
	if err := drawimg.NewRenderer(&buf).Render(w, h, dpi, cnv); err != nil {
		c.Failf("cannot draw %d operations on %g x %g inches at %g dpi: %v", len(cnv.Ops()), w, h, dpi, err)
	}
	return buf.Bytes()
}

var pngRunes = []rune("abgjfAVQ019+-=()∫√∑αβΩéß,.:;!")

// canvasOf builds a canvas with random operations.
func canvasOf(c *Case, n int, w, h, dpi float64) *drawtex.Canvas {
	cnv := drawtex.New()
	pw, ph := w*72, h*72 // in units
	for i := 0; i < n; i++ {
		x, y := c.Float64()*pw, c.Float64()*ph
		switch c.Intn(8) {
		case 0:
			x = math.Round(x)
		case 1:
			y = math.Round(y)
		case 2: // partly or wholly outside
			x, y = (c.Float64()*2-0.5)*pw, (c.Float64()*2-0.5)*ph
		case 3: // across an edge
			if c.Intn(2) == 0 {
				x = pick(c, []float64{0, pw}) + (c.Float64()-0.5)*3
			} else {
				y = pick(c, []float64{0, ph}) + (c.Float64()-0.5)*3
			}
		}
		if c.Intn(3) == 0 {
			x2, y2 := x+(c.Float64()-0.3)*pw, y+(c.Float64()-0.3)*ph
			switch c.Intn(7) {
			case 5:
				x2 = x + 2*c.Float64()
			case 6:
				y2 = y + 2*c.Float64()
			case 0:
				y2 = y + 0.75
			case 1:
				x2 = x
			case 2:
				x2, y2 = math.Ceil(x+1), math.Ceil(y+1)
			}
			for again := true; again; again = c.Intn(6) == 0 {
				cnv.RenderRectFilled(x, y, x2, y2)
			}
			continue
		}
		own := ownFonts(pick(c, fontNames))
		f := pick(c, []*sfnt.Font{own.Rm, own.It, own.Bf, own.BfIt})
		r := pick(c, pngRunes)
		size := pick(c, []float64{12, 8.4, 5.88, 24, 1, 50, 3 + 30*c.Float64()})
		for again := true; again; again = c.Intn(6) == 0 {
			cnv.RenderGlyph(x, y, drawtex.Glyph{Font: f, Size: size, Postscript: psName(f), Symbol: string(r), Num: glyphIndex(f, r)})
		}
	}
	return cnv
}

func describeCanvas(w, h, dpi float64, ops []drawtex.Op) string {
	return fmt.Sprintf("%g x %g inches at %g dpi\n%s", w, h, dpi, opsString(ops))
}

func init() {
	register(&Check{
		ID:   "C22",
		Rule: "a case draws the operations of a random canvas, or of a formula, to PNG and compares every pixel with the monitors' own rasterisation of the outlines of the glyphs and of the rules; distinct by operations, size and resolution",
		Need: []string{"images compared", "pixels compared", "inked pixels", "operations drawn", "images drawn again", "formulas drawn", "missing glyphs", "images of shared renderers", "unusual scales", "empty sizes", "long canvases"},
		Families: []*Family{
			{Name: "operations", Quick: 10000, Thorough: 300000, Run: func(c *Case) {
				w, h := (1+c.Float64()*120)/72, (1+c.Float64()*60)/72
				dpi := pick(c, []float64{72, 72, 100, 36, 144, 10 + 190*c.Float64()})
				if c.Intn(4) == 0 {
					w, h = math.Ceil(w*72)/72, math.Ceil(h*72)/72
				}
				cnv := canvasOf(c, c.Intn(9), w, h, dpi)
				c.Input(describeCanvas(w, h, dpi, cnv.Ops()))
				raw := renderPNG(c, w, h, dpi, cnv)
				before := opsString(cnv.Ops())
				rightImage(c, "canvas", raw, w, h, dpi, cnv.Ops())
				c.Count("images compared", 1)
				if again := renderPNG(c, w, h, dpi, cnv); !bytes.Equal(raw, again) {
					c.Failf("the same operations give other bytes")
				}
				c.Count("images drawn again", 1)
				if opsString(cnv.Ops()) != before {
					c.Failf("drawing changed the canvas")
				}
				c.Distinct(describeCanvas(w, h, dpi, cnv.Ops()))
			}},
			{Name: "one operation", Quick: 6000, Thorough: 200000, Run: func(c *Case) {
				w, h := 40.0/72, 30.0/72
				dpi := pick(c, []float64{72, 150, 300, 600})
				cnv := canvasOf(c, 1, w, h, dpi)
				c.Input(describeCanvas(w, h, dpi, cnv.Ops()))
				rightImage(c, "one operation", renderPNG(c, w, h, dpi, cnv), w, h, dpi, cnv.Ops())
				c.Count("images compared", 1)
				c.Distinct(describeCanvas(w, h, dpi, cnv.Ops()))
			}},
			{Name: "scales", Quick: 1500, Thorough: 50000, Run: func(c *Case) {
				// resolutions and sizes far from the usual ones: very large
				// glyphs at low resolutions, tiny ones and hairlines at high ones.
				e := c.Float64()*14 - 7
				dpi := 72 * math.Exp(e)
				px := 20 + c.Float64()*60 // pixels of the canvas, about.
				w, h := px/dpi, px*(0.3+c.Float64())/dpi
				cnv := drawtex.New()
				u := 72 / dpi // points per pixel
				for n := 1 + c.Intn(4); n > 0; n-- {
					x, y := c.Float64()*w*72, c.Float64()*h*72
					if c.Intn(3) == 0 {
						t := u * pick(c, []float64{0.3, 0.5, 1, 1.5, 4})
						if c.Intn(2) == 0 {
							cnv.RenderRectFilled(x, y, math.Min(w*72, x+10*u), math.Min(h*72, y+t))
						} else {
							cnv.RenderRectFilled(x, y, math.Min(w*72, x+t), math.Min(h*72, y+10*u))
						}
						continue
					}
					own := ownFonts(pick(c, fontNames))
					f := pick(c, []*sfnt.Font{own.Rm, own.It, own.Bf, own.BfIt})
					r := pick(c, pngRunes)
					size := u * (2 + 40*c.Float64())
					cnv.RenderGlyph(x, y, drawtex.Glyph{Font: f, Size: size, Postscript: psName(f), Symbol: string(r), Num: glyphIndex(f, r)})
				}
				c.Input(describeCanvas(w, h, dpi, cnv.Ops()))
				rightImage(c, "canvas", renderPNG(c, w, h, dpi, cnv), w, h, dpi, cnv.Ops())
				c.Count("images compared", 1)
				c.Count("unusual scales", 1)
				c.Distinct(describeCanvas(w, h, dpi, cnv.Ops()))
			}},
			{Name: "many", Quick: 120, Thorough: 600, Run: func(c *Case) {
				// thousands of operations, those that show first or last.
				n := int(math.Exp(c.Float64()*8 + 2))
				cnv := drawtex.New()
				show := func() {
					for _, op := range canvasOf(c, 1+c.Intn(4), 1, 0.5, 72).Ops() {
						switch op := op.(type) {
						case drawtex.GlyphOp:
							cnv.RenderGlyph(op.X, op.Y, op.Glyph)
						case drawtex.RectOp:
							cnv.RenderRectFilled(op.X1, op.Y1, op.X2, op.Y2)
						}
					}
				}
				if c.Intn(4) == 0 {
					show()
				}
				f := ownFonts("lm").Rm
				glyphs := c.Intn(3) == 0
				for i := 0; i < n; i++ {
					if glyphs && i%8 == 0 {
						// white space and glyphs far outside.
						cnv.RenderGlyph(5, 5, drawtex.Glyph{Font: f, Size: 12, Postscript: psName(f), Symbol: " ", Num: glyphIndex(f, ' ')})
						continue
					}
					x := 3 + float64(i%7)
					cnv.RenderRectFilled(x, 2, x, 9) // nothing inside
				}
				show()
				c.Input(fmt.Sprint(len(cnv.Ops()), " operations"))
				rightImage(c, "long canvas", renderPNG(c, 1, 0.5, 72, cnv), 1, 0.5, 72, cnv.Ops())
				c.Count("images compared", 1)
				if len(cnv.Ops()) > 1000 {
					c.Count("long canvases", 1)
				}
				c.Distinct(opsString(cnv.Ops()[n:]) + fmt.Sprint(n))
			}},
			{Name: "formulas", Quick: 4000, Thorough: 120000, Run: func(c *Case) {
				_, src := drawable(c, fontGrammar(c), c.Intn(4), true)
				set := pick(c, fontNames)
				size := pick(c, []float64{12, 10, 7.5, 24})
				dpi := pick(c, []float64{72, 100, 150, 96.5})
				r, err := render(src, size, dpi, fonts()[set])
				if err != nil {
					c.Failf("%q cannot be drawn: %v", src, err)
				}
				if math.Ceil(r.w*dpi) < 1 || math.Ceil(r.h*dpi) < 1 || r.w*dpi*r.h*dpi > 4e6 {
					c.Skip("no image of that size")
				}
				var buf, buf2 bytes.Buffer
				for i, b := range []*bytes.Buffer{&buf, &buf2} {
					if err := mtex.Render(drawimg.NewRenderer(b), src, size, dpi, fonts()[set]); err != nil {
						c.Failf("%q cannot be rendered to PNG: %v", src, err)
					}
					if i == 0 {
						renderPNG(c, 10, 1, 72, canvasOf(c, 3, 10, 1, 72))
					}
				}
				if !bytes.Equal(buf.Bytes(), buf2.Bytes()) {
					c.Failf("%q gives other bytes when rendered again", src)
				}
				c.Count("images drawn again", 1)
				rightImage(c, fmt.Sprintf("%q (%s, size %g)", src, set, size), buf.Bytes(), r.w, r.h, dpi, r.ops)
				c.Count("images compared", 1)
				c.Count("formulas drawn", 1)
				c.Distinct(fmt.Sprint(src, set, size, dpi))
				c.Sample(src)
			}},
			{Name: "one renderer", Quick: 2500, Thorough: 80000, Run: func(c *Case) {
				// a renderer for several drawings, of other sizes and
				// resolutions, writing one image after the other.
				var all bytes.Buffer
				w := &faultyWriter{left: 1 << 40}
				r := drawimg.NewRenderer(io.MultiWriter(&all, w))
				// the same operations more than once, too.
				pool := []*drawtex.Canvas{canvasOf(c, 1+c.Intn(5), 1, 0.5, 72), canvasOf(c, 1+c.Intn(5), 1, 0.5, 72)}
				var log []string
				for n := 2 + c.Intn(4); n > 0; n-- {
					w0, h0 := (20+c.Float64()*80)/72, (10+c.Float64()*40)/72
					dpi := pick(c, []float64{72, 72, 100, 144, 36, 10 + 190*c.Float64()})
					cnv := pick(c, pool)
					if c.Intn(3) == 0 {
						cnv = canvasOf(c, c.Intn(5), w0, h0, dpi)
					}
					log = append(log, describeCanvas(w0, h0, dpi, cnv.Ops()))
					c.Input(strings.Join(log, "\n"))
					if c.Intn(6) == 0 {
						// and one that fails.
						w.left, w.err, w.failed = c.Intn(60), io.ErrClosedPipe, 0
						if err := r.Render(w0, h0, dpi, cnv); err == nil {
							c.Failf("success is reported although the writer failed")
						}
						w.left = 1 << 40
						c.Count("failed images", 1)
					}
					all.Reset()
					if err := r.Render(w0, h0, dpi, cnv); err != nil {
						c.Failf("cannot draw with a renderer used before: %v", err)
					}
					raw := append([]byte{}, all.Bytes()...)
					rightImage(c, "image of a renderer used before", raw, w0, h0, dpi, cnv.Ops())
					if !bytes.Equal(raw, renderPNG(c, w0, h0, dpi, cnv)) {
						c.Failf("a renderer used before writes other bytes")
					}
					c.Count("images compared", 1)
					c.Count("images of shared renderers", 1)
				}
				c.Distinct(strings.Join(log, "\n"))
			}},
			{Name: "empty sizes", Quick: 400, Thorough: 4000, Run: func(c *Case) {
				// no image has no pixels: an error, not one of another size.
				w, h := pick(c, []float64{0, 0, 1, 0.01, 20 * c.Float64()}), pick(c, []float64{0, 0, 1, 0.01, 20 * c.Float64()})
				dpi := pick(c, []float64{72, 100, 10 + 190*c.Float64()})
				if w > 0 && h > 0 {
					switch c.Intn(3) {
					case 0:
						w = 0
					case 1:
						h = 0
					case 2:
						dpi = 0
					}
				}
				cnv := canvasOf(c, c.Intn(4), 1, 1, 72)
				c.Input(describeCanvas(w, h, dpi, cnv.Ops()))
				var buf bytes.Buffer
				err := drawimg.NewRenderer(&buf).Render(w, h, dpi, cnv)
				if err == nil {
					rightImage(c, "image without pixels", buf.Bytes(), w, h, dpi, cnv.Ops())
				}
				c.Count("empty sizes", 1)
				c.Distinct(fmt.Sprint(w, h, dpi))
			}},
			{Name: "missing glyph", Quick: 1, Thorough: 1, Run: func(c *Case) {
				// a character that the font does not have.
				own := ownFonts("go")
				cnv := drawtex.New()
				cnv.RenderGlyph(5, 15, drawtex.Glyph{Font: own.Rm, Size: 12, Symbol: "日"})
				c.Count("missing glyphs", 1)
				img, err := png.Decode(bytes.NewReader(renderPNG(c, 30./72, 20./72, 72, cnv)))
				if err != nil {
					c.Failf("%v", err)
				}
				for y := 0; y < 20; y++ {
					for x := 0; x < 30; x++ {
						if _, _, _, a := img.At(x, y).RGBA(); a != 0 {
							return
						}
					}
				}
				c.Known("missing-glyph", "a character without a glyph in its font leaves no ink, not even that of the font's glyph for missing characters")
			}},
		},
	})
}
