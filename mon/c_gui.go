package main

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"image"
	"image/draw"
	"image/png"
	"io"
	"math"
	"os"
	"os/exec"
	"strings"
	"time"

	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/drawtex/drawimg"
	"github.com/go-latex/latex/mtex"
	"golang.org/x/image/font/sfnt"
	"golang.org/x/image/math/fixed"
)

// The GUI is observed from inside of its own test binary (gui/, compiled in
// with -overlay), which runs frames without a window and interprets the
// drawing operations they record.

type guiStep struct {
	Text  *string
	Click bool
	Twice bool
	Size  float64
	Scale float64
	W, H  int

	Event string
	Key   string
	Mods  uint32
	State int
}

type guiFill struct {
	Color [4]byte
	Image string
	Off   [6]float64
	Segs  []guiSeg
	Paths int
}

type guiSeg struct {
	Op  int
	Pts []float64
}

type guiFrame struct {
	Panic string
	W, H  int
	Image string
	Text  string
	Fills []guiFill

	Before string
	Frames int
	Ended  bool
	Err    string
	Stuck  bool
}

// guiWorker is a process of the test binary.
type guiWorker struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err *bytes.Buffer
}

var theGUI *guiWorker

func startGUI() *guiWorker {
	exe := os.Getenv("VMON_GUI")
	if exe == "" {
		panic("VMON_GUI is not set")
	}
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	g := &guiWorker{cmd: exec.Command(exe), err: new(bytes.Buffer)}
	g.cmd.Dir = scratch()
	g.cmd.ExtraFiles = []*os.File{w}
	g.cmd.Stderr = g.err
	if g.in, err = g.cmd.StdinPipe(); err != nil {
		panic(err)
	}
	if err := g.cmd.Start(); err != nil {
		panic(err)
	}
	w.Close()
	g.out = bufio.NewReaderSize(r, 1<<20)
	return g
}

func (g *guiWorker) stop() {
	g.in.Close()
	g.cmd.Process.Kill()
	g.cmd.Wait()
	theGUI = nil
}

// frames runs a script.
func (c *Case) frames(steps []guiStep) []guiFrame {
	if theGUI == nil {
		theGUI = startGUI()
	}
	g := theGUI
	raw, _ := json.Marshal(steps)
	type answer struct {
		line []byte
		err  error
	}
	ch := make(chan answer, 1)
	go func() {
		if _, err := g.in.Write(append(raw, '\n')); err != nil {
			ch <- answer{nil, err}
			return
		}
		line, err := g.out.ReadBytes('\n')
		ch <- answer{line, err}
	}()
	select {
	case a := <-ch:
		if a.err != nil {
			g.stop()
			c.Failf("the GUI dies: %v\n%s", a.err, head(g.err.Bytes(), 3000))
		}
		var fs []guiFrame
		if err := json.Unmarshal(a.line, &fs); err != nil {
			panic(err)
		}
		c.Count("frames", len(fs))
		return fs
	case <-time.After(120 * time.Second):
		g.stop()
		c.Failf("the GUI does not finish its frames within two minutes")
	}
	return nil
}

const guiDPI = 256

func hashOfImage(img image.Image) string {
	b := img.Bounds()
	dst, ok := img.(*image.NRGBA)
	if !ok || b.Min != (image.Point{}) || dst.Stride != 4*b.Dx() || len(dst.Pix) != 4*b.Dx()*b.Dy() {
		dst = image.NewNRGBA(image.Rect(0, 0, b.Dx(), b.Dy()))
		draw.Draw(dst, dst.Bounds(), img, b.Min, draw.Src)
	}
	h := sha256.New()
	fmt.Fprintf(h, "%dx%d\n", b.Dx(), b.Dy())
	h.Write(dst.Pix)
	return hex.EncodeToString(h.Sum(nil))
}

// outlineOf is the outline of a character as the GUI's text shaper draws it.
func outlineOf(f *sfnt.Font, r rune, px int) []guiSeg {
	var buf sfnt.Buffer
	if strings.ContainsRune(" \t\n\v\f\r\u0085\u00a0", r) {
		return nil
	}
	gi, err := f.GlyphIndex(&buf, r)
	if err != nil {
		return nil
	}
	segs, err := f.LoadGlyph(&buf, gi, fixed.I(px), nil)
	if err != nil {
		return nil
	}
	var o []guiSeg
	var pen []float64
	pt := func(p fixed.Point26_6) []float64 { return []float64{float64(p.X) / 64, float64(p.Y) / 64} }
	for _, s := range segs {
		n := map[sfnt.SegmentOp]int{sfnt.SegmentOpLineTo: 1, sfnt.SegmentOpQuadTo: 2, sfnt.SegmentOpCubeTo: 3}[s.Op]
		if n == 0 {
			pen = pt(s.Args[0])
			continue
		}
		g := guiSeg{Op: n, Pts: append([]float64{}, pen...)}
		for i := 0; i < n; i++ {
			g.Pts = append(g.Pts, pt(s.Args[i])...)
		}
		pen = pt(s.Args[n-1])
		o = append(o, g)
	}
	return o
}

// sameOutline compares outlines; contours may start anywhere (the integral sign
// is drawn from the italic font, where it has the same shape).
func sameOutline(a, b []guiSeg, tol float64) bool {
	if len(a) != len(b) {
		return false
	}
	same := func(a, b guiSeg) bool {
		if a.Op != b.Op || len(a.Pts) != len(b.Pts) {
			return false
		}
		for j := range a.Pts {
			if math.Abs(a.Pts[j]-b.Pts[j]) > tol {
				return false
			}
		}
		return true
	}
	used := make([]bool, len(b))
next:
	for i := range a {
		for k := range b {
			j := (i + k) % len(b)
			if !used[j] && same(a[i], b[j]) {
				used[j] = true
				continue next
			}
		}
		return false
	}
	return true
}

func boundsOf(segs []guiSeg) (x1, y1, x2, y2 float64) {
	x1, y1, x2, y2 = math.Inf(1), math.Inf(1), math.Inf(-1), math.Inf(-1)
	for _, s := range segs {
		for i := 0; i+1 < len(s.Pts); i += 2 {
			x1, x2 = math.Min(x1, s.Pts[i]), math.Max(x2, s.Pts[i])
			y1, y2 = math.Min(y1, s.Pts[i+1]), math.Max(y2, s.Pts[i+1])
		}
	}
	return
}

// guiCheck compares one frame with what the library draws.
// img is the preview that must be shown; expr the expression taken over.
func guiCheck(c *Case, f guiFrame, expr string, size float64, img *string) {
	if f.Panic != "" {
		c.Failf("the GUI panics: %s", head([]byte(f.Panic), 3000))
	}
	lib := fonts()["liberation"]
	rec, err := render(expr, size, guiDPI, lib)
	var out bytes.Buffer
	if err2 := mtex.Render(drawimg.NewRenderer(&out), expr, size, guiDPI, lib); err2 == nil {
		dec, err := png.Decode(&out)
		if err != nil {
			panic(err)
		}
		*img = hashOfImage(dec)
		c.Set("previews", *img)
	} else {
		c.Count("expressions that cannot be drawn", 1)
	}
	if f.Image != *img {
		c.Failf("%q at %g: the preview is not the rendering of the expression (%dx%d)", expr, size, f.W, f.H)
	}
	at := -1
	for i, p := range f.Fills {
		if p.Image != "" {
			if at >= 0 {
				c.Failf("%q: the frame shows more than one image", expr)
			}
			if p.Image != *img {
				c.Failf("%q: the image painted is not the rendering of the expression", expr)
			}
			at = i
		}
	}
	if at < 0 {
		c.Failf("%q: the frame shows no image", expr)
	}
	c.Count("previews compared", 1)
	// the image, its border, a title, and the formula.
	if len(f.Fills) < at+3 {
		c.Failf("%q: %d fills after the image", expr, len(f.Fills)-at-1)
	}
	fills := f.Fills[at+3:]
	var ops []drawtex.Op
	if err == nil {
		ops = rec.ops
	}
	if len(fills) != len(ops) {
		c.Failf("%q: the GUI paints %d shapes for %d operations", expr, len(fills), len(ops))
	}
	const k = guiDPI / 72.0
	var (
		ref     = make(map[float64][2]float64) // font size -> place of the first glyph
		ruleRef *[2]float64
	)
	for i, op := range ops {
		p := fills[i]
		if p.Color != [4]byte{0, 0, 0, 255} {
			c.Failf("%q: operation %d is painted in %v", expr, i, p.Color)
		}
		m := p.Off
		if len(p.Segs) > 0 && (m[0] != 1 || m[4] != 1 || m[1] != 0 || m[3] != 0) {
			c.Failf("%q: operation %d is not painted upright at its scale: %v", expr, i, m)
		}
		switch op := op.(type) {
		case drawtex.GlyphOp:
			px := int(math.Round(op.Glyph.Size * k))
			want := outlineOf(op.Glyph.Font, []rune(op.Glyph.Symbol)[0], px)
			if !sameOutline(p.Segs, want, 0.03) {
				c.Failf("%q: operation %d does not paint the glyph of %q at %d px", expr, i, op.Glyph.Symbol, px)
			}
			c.Count("glyphs painted", 1)
			if len(want) == 0 {
				continue
			}
			off := [2]float64{m[2] - op.X*k, m[5] - op.Y*k}
			if r, ok := ref[op.Glyph.Size]; !ok {
				ref[op.Glyph.Size] = off
			} else if math.Abs(r[0]-off[0]) > 1.1 || math.Abs(r[1]-off[1]) > 2.1 {
				c.Failf("%q: glyph %d (%q) is not at its place: (%g, %g) px from where the drawing puts it, another of its size (%g, %g)", expr, i, op.Glyph.Symbol, off[0], off[1], r[0], r[1])
			}
		case drawtex.RectOp:
			x1, y1, x2, y2 := boundsOf(p.Segs)
			off := [2]float64{x1 + m[2] - op.X1*k, y1 + m[5] - op.Y1*k}
			if math.Abs(x2-x1-(op.X2-op.X1)*k) > 0.1 || math.Abs(y2-y1-(op.Y2-op.Y1)*k) > 0.1 {
				c.Failf("%q: the rule of operation %d is painted %g x %g px instead of %g x %g", expr, i, x2-x1, y2-y1, (op.X2-op.X1)*k, (op.Y2-op.Y1)*k)
			}
			area := 0.0
			for _, s := range p.Segs {
				if s.Op != 1 {
					c.Failf("%q: a rule is painted with curves", expr)
				}
				area += (s.Pts[0]*s.Pts[3] - s.Pts[2]*s.Pts[1]) / 2
			}
			if math.Abs(math.Abs(area)-(x2-x1)*(y2-y1)) > 1e-3*(1+(x2-x1)*(1+y2-y1)) {
				c.Failf("%q: the rule of operation %d is not painted as a rectangle: area %g of %g", expr, i, area, (x2-x1)*(y2-y1))
			}
			if ruleRef == nil {
				ruleRef = &off
			} else if math.Abs(ruleRef[0]-off[0]) > 0.1 || math.Abs(ruleRef[1]-off[1]) > 0.1 {
				c.Failf("%q: rule %d is not at its place: (%g, %g) px from where the drawing puts it, another one (%g, %g)", expr, i, off[0], off[1], ruleRef[0], ruleRef[1])
			}
			c.Count("rules painted", 1)
		}
	}
	// glyphs of all sizes and rules share their origin, roughly.
	// (a radical sign may be much larger than the text.)
	offs := make(map[float64][2]float64)
	for k, o := range ref {
		offs[k] = o
	}
	if ruleRef != nil {
		offs[0] = *ruleRef
	}
	for sa, a := range offs {
		for sb, b := range offs {
			em := math.Max(size, math.Max(sa, sb)) * k
			if math.Abs(a[0]-b[0]) > 2.2 || math.Abs(a[1]-b[1]) > 3+em*0.3 {
				c.Failf("%q: glyphs of different sizes or rules are apart: (%g, %g) px and (%g, %g) px from where the drawing puts them", expr, a[0], a[1], b[0], b[1])
			}
		}
	}
}

func guiExpr(c *Case) string {
	switch c.Intn(10) {
	case 0:
		_, s := drawable(c, fontGrammar(c), 2, true)
		return strings.ToValidUTF8(mutate(c, s, 1+c.Intn(3)), "?")
	case 1:
		return pick(c, []string{"", "$", "$a", "$$", `$\frac{a}$`, `$x^2$`, `\nope`, "abc", "$-$", `$\left($`, "\n", "a\nb", "$a$ % c\n"})
	}
	_, s := drawable(c, fontGrammar(c), 1+c.Intn(3), true)
	return s
}

var guiSizes = []float64{16, 12, 8, 24.5, 40, 2, 3, 5, 100}

// winOf is a window that is large enough for expressions.
func winOf(c *Case, exprs []string, sizes []float64, scale float64) (w, h int) {
	if c.Intn(3) == 0 {
		return 20000, 20000
	}
	scale = math.Max(scale, 1)
	mw, mh := 600*scale, 300.0
	for i, s := range exprs {
		// the titles are as large as the theme has it.
		mw, mh = math.Max(mw, 60*sizes[i]*scale), math.Max(mh, 20*sizes[i]*scale)
		if r, err := render(s, sizes[i], guiDPI, fonts()["liberation"]); err == nil {
			mw, mh = math.Max(mw, r.w*guiDPI+100*scale), math.Max(mh, r.h*guiDPI)
		}
	}
	w, h = int(mw)+1, int(2*mh+1500*scale)
	if c.Intn(2) == 0 {
		w += c.Intn(20 + w)
	}
	if c.Intn(2) == 0 {
		h += c.Intn(20 + h)
	}
	c.Count("windows of other sizes", 1)
	return w, h
}

// c28single: one expression.
func c28single(c *Case) {
	s := guiExpr(c)
	size := pick(c, guiSizes)
	c.Input(s)
	scale := pick(c, []float64{0, 1, 2})
	w, h := winOf(c, []string{s}, []float64{size}, scale)
	fs := c.frames([]guiStep{{Size: size}, {Text: &s, Click: true, Size: size, Scale: scale, W: w, H: h}})
	if len(fs) != 2 {
		c.Failf("%q: %s", s, fs[len(fs)-1].Panic)
	}
	img := fs[0].Image
	guiCheck(c, fs[1], s, size, &img)
	c.Distinct(fmt.Sprint(size, s))
	c.Sample(s)
}

// c28narrow: in windows that are narrower than the formula the preview is the
// same image.
func c28narrow(c *Case) {
	s := guiExpr(c)
	size := pick(c, winSizes)
	c.Input(s)
	w := 60 + c.Intn(600)
	fs := c.frames([]guiStep{{Size: size}, {Text: &s, Click: true, Size: size, W: w, H: 20000}, {Size: size}})
	if len(fs) != 3 {
		c.Failf("%q: %s", s, fs[len(fs)-1].Panic)
	}
	img := fs[0].Image
	guiCheck(c, fs[2], s, size, &img)
	if fs[1].Image != img {
		c.Failf("%q at %g: the preview is another one in a window of width %d", s, size, w)
	}
	c.Count("narrow windows", 1)
	c.Distinct(fmt.Sprint(w, size, s))
}

// c28session: the expression shown is the one taken over last.
func c28session(c *Case) {
	var (
		steps = []guiStep{{Size: 16, Text: new(string), Click: true}}
		exprs = []string{"$a$"}
		sizes = []float64{16}
		text  = "$a$"
		shown = "$a$"
		size  = 16.0
	)
	*steps[0].Text = text
	for n := 3 + c.Intn(5); n > 0; n-- {
		var st guiStep
		if c.Intn(3) > 0 {
			s := guiExpr(c)
			text, st.Text = s, &s
		}
		if c.Intn(2) == 0 {
			st.Click = true
			if c.Intn(4) == 0 {
				st.Twice = true
				c.Count("double clicks", 1)
			}
			shown = text
		}
		// a click is noticed by the next frame only: the preview may
		// be that of the former expression at a new size.
		if c.Intn(2) == 0 && !st.Click {
			size = pick(c, guiSizes)
		}
		st.Size = size
		steps = append(steps, st)
		exprs = append(exprs, shown)
		sizes = append(sizes, size)
	}
	c.Input(exprs)
	if c.Intn(2) == 0 {
		w, h := winOf(c, exprs, sizes, 1)
		for i := range steps {
			steps[i].W, steps[i].H = w, h
			if c.Intn(3) == 0 {
				w, h = winOf(c, exprs, sizes, 1)
			}
		}
	}
	fs := c.frames(steps)
	if len(fs) != len(steps) {
		c.Failf("the GUI panics in step %d: %s", len(fs)-1, fs[len(fs)-1].Panic)
	}
	img := ""
	for i, f := range fs {
		if f.Text != text && i == len(fs)-1 {
			c.Failf("the editor holds %q instead of %q", f.Text, text)
		}
		guiCheck(c, f, exprs[i], sizes[i], &img)
		c.Distinct(fmt.Sprint(i, sizes[i], exprs[i]))
	}
	c.Count("sessions", 1)
	c.Sample(exprs)
}

const (
	guiCtrl  = 1
	guiShift = 8
)

// c28window: the event loop, fed with the events of a window.
// winSizes are smaller: every frame renders the preview again.
var winSizes = []float64{16, 12, 8, 8, 5, 3, 24.5}

func c28window(c *Case) {
	var (
		steps []guiStep
		size  = pick(c, winSizes)
		add   = func(st guiStep) { steps = append(steps, st) }
	)
	add(guiStep{Event: "stage", Size: size, Scale: pick(c, []float64{0, 1, 2})})
	add(guiStep{Event: "frame"})
	add(guiStep{Event: "focus"})
	take := func() guiStep {
		switch c.Intn(3) {
		case 0:
			return guiStep{Event: "key", Key: "\u23ce", Mods: guiCtrl}
		case 1:
			return guiStep{Event: "key", Key: "\u2324", Mods: guiCtrl}
		}
		if c.Intn(3) == 0 {
			c.Count("double clicks", 1)
			return guiStep{Event: "double"}
		}
		return guiStep{Event: "click"}
	}
	for n := 4 + c.Intn(8); n > 0; n-- {
		switch c.Intn(8) {
		case 0, 1:
			s := guiExpr(c)
			if c.Intn(4) == 0 {
				s = "$" + letters(c, 1<<c.Intn(9)) + "$"
			}
			add(guiStep{Event: "focus"})
			add(guiStep{Event: "key", Key: "A", Mods: guiCtrl})
			add(guiStep{Event: "edit", Text: &s})
			switch c.Intn(4) {
			case 0, 1:
				add(take())
			case 2:
				add(guiStep{Event: "shrink"})
				add(guiStep{Event: "key", Key: pick(c, []string{"\u23ce", "\u2324"}), Mods: guiCtrl})
				add(guiStep{Event: "restore"})
			}
		case 2:
			s := pick(c, []string{"x", " ", "$", "{", "}", "\\alpha", "+1", "é", "\n", "%", "-"})
			add(guiStep{Event: "focus"})
			add(guiStep{Event: "edit", Text: &s})
		case 3, 4:
			add(take())
		case 5:
			// keys that take nothing over.
			add(pick(c, []guiStep{
				{Event: "key", Key: "\u23ce"}, {Event: "key", Key: "\u2324"},
				{Event: "key", Key: "\u23ce", Mods: guiCtrl, State: 1}, {Event: "key", Key: "\u2324", Mods: guiCtrl, State: 1},
				{Event: "key", Key: "\u23ce", Mods: guiShift}, {Event: "key", Key: "A", Mods: guiCtrl},
				{Event: "key", Key: "\u232b"}, {Event: "key", Key: "\u2326"}, {Event: "key", Key: "\u2190"}, {Event: "key", Key: "\u2192"},
				{Event: "key", Key: "X"}, {Event: "key", Key: "F1"}, {Event: "key", Key: "Tab"},
			}))
		case 6:
			add(guiStep{Event: "press"})
		case 7:
			add(guiStep{Event: "frame", Size: pick(c, winSizes), Scale: pick(c, []float64{0, 0, 1, 2})})
		}
	}
	end := c.Intn(4)
	switch end {
	case 0:
		add(guiStep{Event: "key", Key: "\u238b"})
	case 1:
		add(guiStep{Event: "destroy"})
	case 2:
		s := "the display is gone"
		add(guiStep{Event: "destroy", Text: &s})
	}
	c.Input(steps)
	fs := c.frames(steps)
	var shown, img string
	for i, f := range fs {
		st := steps[i]
		if f.Panic != "" {
			c.Failf("the GUI panics in step %d (%s): %s", i, st.Event, head([]byte(f.Panic), 3000))
		}
		last := i == len(steps)-1 && end < 3
		if f.Ended != last {
			c.Failf("step %d (%s %q) of %d: the event loop has ended: %v", i, st.Event, st.Key, len(steps), f.Ended)
		}
		if last {
			want := ""
			if end == 2 {
				want = *st.Text
			}
			if f.Err != want {
				c.Failf("the event loop returns %q instead of %q", f.Err, want)
			}
			c.Count("ends of the event loop", 1)
			break
		}
		if st.Size != 0 {
			size = st.Size
		}
		if f.Stuck {
			panic("a widget was not found")
		}
		taken := st.Event == "click" || st.Event == "double" || st.Event == "key" && (st.Key == "\u23ce" || st.Key == "\u2324") && st.Mods == guiCtrl && st.State == 0
		switch {
		case taken:
			shown = f.Before
			c.Count("expressions taken over", 1)
			if st.Event == "key" {
				c.Count("keyboard shortcuts", 1)
				if i > 0 && steps[i-1].Event == "shrink" {
					c.Count("keyboard shortcuts without focus", 1)
				}
			}
		case i == 1:
			// the GUI opens with what is in the editor.
			shown = f.Before
		case st.Event == "edit":
			if !strings.Contains(f.Text, strings.TrimRight(*st.Text, "\n")) {
				c.Count("edits not seen", 1)
			} else {
				c.Count("edits", 1)
			}
		}
		if f.Frames == 0 {
			if taken {
				c.Failf("step %d: after %s %q the window is not drawn again", i, st.Event, st.Key)
			}
			continue
		}
		if st.Event == "shrink" || i > 0 && steps[i-1].Event == "shrink" {
			continue // nothing to see
		}
		c.Count("window frames", f.Frames)
		guiCheck(c, f, shown, size, &img)
		c.Distinct(fmt.Sprint(i, st.Event, st.Key, size, shown))
	}
	c.Count("event loops", 1)
	c.Sample(steps)
}

func init() {
	register(&Check{
		ID:   "C28",
		Rule: "a distinct pair of font size and expression shown by the GUI, whose preview image and painted shapes were compared with the library's drawing",
		Assumptions: []string{
			"there is no display: the event loop is fed through the channels of a window that the monitor made, and the screenshot, which needs a GPU, is not observed",
		},
		Need: []string{"frames", "previews compared", "glyphs painted", "rules painted", "sessions", "expressions that cannot be drawn", "event loops", "window frames", "keyboard shortcuts", "double clicks", "narrow windows", "edits", "ends of the event loop"},
		Families: []*Family{
			{Name: "single", Quick: 400, Thorough: 20000, Run: c28single},
			{Name: "narrow", Quick: 60, Thorough: 3000, Run: c28narrow},
			{Name: "session", Quick: 120, Thorough: 5000, Run: c28session},
			{Name: "window", Quick: 160, Thorough: 6000, Run: c28window},
		},
	})
}
