package main

// Worker of the C28 monitor, compiled into the command's test binary with
// -overlay: it runs scripts of GUI frames, read from standard input, without
// a display and reports what the frames paint.

import (
	"bufio"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"image"
	"image/draw"
	"math"
	"os"
	"reflect"
	"runtime/debug"
	"testing"
	"time"
	"unsafe"

	"gioui.org/app"
	"gioui.org/f32"
	"gioui.org/io/event"
	"gioui.org/io/key"
	"gioui.org/io/pointer"
	"gioui.org/io/router"
	"gioui.org/io/system"
	"gioui.org/layout"
	"gioui.org/op"
	"gioui.org/unit"
	"gioui.org/widget"
	"gioui.org/widget/material"
)

type guiStep struct {
	Text  *string // what is typed into the editor, if anything
	Click bool    // press the button
	Twice bool    // and again before the next frame
	Size  float64 // font size, if not zero
	Scale float64 // pixels per dp
	W, H  int     // of the window, 20000 if zero

	// Event is what happens to the window, in a script that runs the
	// event loop: "edit" (Text is typed), "key" (Key, Mods, State),
	// "click" (on the button), "double" (two clicks on it), "focus" (click on the editor), "press"
	// (a button press that ends elsewhere), "stage", "destroy" (Text is
	// the error) or "frame".
	Event string
	Key   string
	Mods  uint32
	State int // 1: release
}

func (st guiStep) window() image.Point {
	if st.W == 0 {
		return image.Pt(20000, 20000)
	}
	return image.Pt(st.W, st.H)
}

type guiFill struct {
	Color [4]byte
	Image string `json:",omitempty"` // hash of the image
	Off   [6]float64
	Segs  []guiSeg
	Rects [][4]float64
	Paths int // clip paths in force
}

type guiSeg struct {
	Op  int // 1 line, 2 quad, 3 cubic
	Pts []float64
}

type guiFrame struct {
	Panic string `json:",omitempty"`
	W, H  int
	Image string
	Text  string
	Fills []guiFill

	Before string // text of the editor before the event
	Frames int    // frames laid out because of the event
	Ended  bool   // the event loop has returned
	Err    string // what it returned
	Stuck  bool   // an area to click was not found
}

func imgHash(img image.Image) string {
	if img == nil {
		return "nil"
	}
	b := img.Bounds()
	dst, ok := img.(*image.NRGBA)
	if !ok || b.Min != (image.Point{}) || dst.Stride != 4*b.Dx() || len(dst.Pix) != 4*b.Dx()*b.Dy() {
		dst = image.NewNRGBA(image.Rect(0, 0, b.Dx(), b.Dy()))
		draw.Draw(dst, dst.Bounds(), img, b.Min, draw.Src)
	}
	h := sha256.New()
	fmt.Fprintf(h, "%dx%d\n", b.Dx(), b.Dy())
	h.Write(dst.Pix)
	return hex.EncodeToString(h.Sum(nil))
}

// field finds the state of the GUI by its type, whatever its name and the
// structure it is in: a value of type t or a pointer to one.
func field(ui *UI, t reflect.Type) unsafe.Pointer {
	if p := find(reflect.ValueOf(ui).Elem(), t, 0); p != nil {
		return p
	}
	panic("the GUI has no " + t.String())
}

func find(v reflect.Value, t reflect.Type, depth int) unsafe.Pointer {
	if v.Kind() != reflect.Struct || depth > 3 {
		return nil
	}
	for i := 0; i < v.NumField(); i++ {
		switch f := v.Field(i); f.Type() {
		case t:
			return unsafe.Pointer(f.UnsafeAddr())
		case reflect.PtrTo(t):
			return unsafe.Pointer(f.Pointer())
		}
	}
	// Structures of the GUI itself, not those of the toolkit.
	own := reflect.TypeOf(UI{}).PkgPath()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Kind() == reflect.Ptr && !f.IsNil() {
			f = f.Elem()
		}
		if f.Type().Name() != "" && f.Type().PkgPath() != own {
			continue
		}
		if p := find(f, t, depth+1); p != nil {
			return p
		}
	}
	return nil
}

func buttonOf(ui *UI) *widget.Clickable {
	return (*widget.Clickable)(field(ui, reflect.TypeOf(widget.Clickable{})))
}

func editorOf(ui *UI) *widget.Editor {
	return (*widget.Editor)(field(ui, reflect.TypeOf(widget.Editor{})))
}

func themeOf(ui *UI) *material.Theme {
	return (*material.Theme)(field(ui, reflect.TypeOf(material.Theme{})))
}

func imageOf(ui *UI) image.Image {
	return *(*image.Image)(field(ui, reflect.TypeOf((*image.Image)(nil)).Elem()))
}

// queue delivers pointer events to handlers that are part of the button.
type queue struct {
	lo, hi uintptr
	press  bool
	twice  bool
}

func (q *queue) Events(tag event.Tag) []event.Event {
	v := reflect.ValueOf(tag)
	if !q.press || v.Kind() != reflect.Ptr {
		return nil
	}
	if p := v.Pointer(); p < q.lo || p >= q.hi {
		return nil
	}
	ev := func(t pointer.Type, b pointer.Buttons) event.Event {
		return pointer.Event{Type: t, Source: pointer.Mouse, Buttons: b}
	}
	es := []event.Event{ev(pointer.Enter, 0), ev(pointer.Press, pointer.ButtonPrimary), ev(pointer.Release, 0)}
	if q.twice {
		es = append(es, ev(pointer.Press, pointer.ButtonPrimary), ev(pointer.Release, 0))
	}
	return append(es, ev(pointer.Leave, 0))
}

const (
	opMacro = 200 + iota
	opCall
	opDefer
	opTransform
	opInvalidate
	opImage
	opPaint
	opColor
	opGradient
	opArea
	opPointer
	opPass
	opClipRead
	opClipWrite
	opKeyInput
	opKeyFocus
	opKeySoft
	opSave
	opLoad
	opAux
	opClip
	opProfile
	opCursor
	opPath
	opStroke
)

var opSize = []int{9, 9, 1, 25, 9, 1, 1, 5, 25, 18, 19, 2, 1, 1, 2, 2, 2, 5, 6, 1, 18, 1, 2, 9, 5}
var opRefs = map[int]int{opKeyInput: 1, opKeyFocus: 1, opPointer: 1, opProfile: 1, opCall: 1, opClipRead: 1, opClipWrite: 1, opCursor: 1, opImage: 2}

type gstate struct {
	t     f32.Affine2D
	color [4]byte
	image string
	off   [6]float64
	segs  []guiSeg
	rects [][4]float64
	paths int
}

type interp struct {
	area  [4]float64
	tags  map[uintptr][4]float64 // areas of the pointer handlers
	st    gstate
	saved map[int]gstate
	fills []guiFill
	segs  []guiSeg // path being defined
	path  bool
}

// run interprets the operations from (pc, rc) up to (end, -).
func (in *interp) run(o *op.Ops, pc, rc, end int) {
	le := binary.LittleEndian
	f := func(b []byte) float64 { return float64(math.Float32frombits(le.Uint32(b))) }
	for pc < end {
		d := o.Data()[pc:]
		t := int(d[0])
		n := opSize[t-200]
		refs := o.Refs()[rc:]
		switch t {
		case opMacro:
			pc, rc = int(int32(le.Uint32(d[1:]))), int(int32(le.Uint32(d[5:])))
			continue
		case opCall:
			to := refs[0].(*op.Ops)
			p, r := int(int32(le.Uint32(d[1:]))), int(int32(le.Uint32(d[5:])))
			m := to.Data()[p:]
			if m[0] != opMacro {
				panic("not a macro")
			}
			in.run(to, p+9, r, int(int32(le.Uint32(m[1:]))))
		case opAux:
			b := o.Data()[pc+1 : end]
			in.segs = nil
			for ; len(b) >= 40; b = b[40:] {
				c := b[4:40]
				s := guiSeg{Op: int(le.Uint32(c))}
				for i := 0; i < 2*(s.Op+1) && i < 8; i++ {
					s.Pts = append(s.Pts, f(c[4+4*i:]))
				}
				in.segs = append(in.segs, s)
			}
			return
		case opTransform:
			in.st.t = in.st.t.Mul(f32.NewAffine2D(float32(f(d[1:])), float32(f(d[5:])), float32(f(d[9:])), float32(f(d[13:])), float32(f(d[17:])), float32(f(d[21:]))))
		case opArea:
			if in.tags != nil {
				_, _, ox, _, _, oy := in.st.t.Elems()
				i := func(b []byte) float64 { return float64(int32(le.Uint32(b))) }
				in.area = [4]float64{i(d[2:]) + float64(ox), i(d[6:]) + float64(oy), i(d[10:]) + float64(ox), i(d[14:]) + float64(oy)}
			}
		case opPointer:
			if in.tags != nil {
				if v := reflect.ValueOf(refs[0]); v.Kind() == reflect.Ptr {
					in.tags[v.Pointer()] = in.area
				}
			}
		case opImage:
			in.st.image = imgHash(refs[0].(image.Image))
		case opColor:
			copy(in.st.color[:], d[1:5])
			in.st.image = ""
		case opSave:
			st := in.st
			st.rects = append([][4]float64{}, st.rects...)
			in.saved[int(le.Uint32(d[1:]))] = st
		case opLoad:
			st := in.saved[int(le.Uint32(d[2:]))]
			if d[1] == 255 {
				in.st = st
				in.st.rects = append([][4]float64{}, st.rects...)
			} else {
				in.st.t = st.t
			}
		case opPath:
			in.path = true
			in.segs = nil
		case opClip:
			sx, hx, ox, hy, sy, oy := in.st.t.Elems()
			off := [6]float64{float64(sx), float64(hx), float64(ox), float64(hy), float64(sy), float64(oy)}
			if in.path {
				in.st.segs, in.st.off = in.segs, off
				in.st.paths++
			} else {
				i := func(b []byte) float64 { return float64(int32(le.Uint32(b))) }
				in.st.rects = append(in.st.rects, [4]float64{i(d[1:]) + off[2], i(d[5:]) + off[5], i(d[9:]) + off[2], i(d[13:]) + off[5]})
			}
			in.path = false
		case opPaint:
			in.fills = append(in.fills, guiFill{
				Color: in.st.color, Image: in.st.image, Off: in.st.off, Segs: in.st.segs,
				Rects: append([][4]float64{}, in.st.rects...), Paths: in.st.paths,
			})
		}
		pc += n
		rc += opRefs[t]
	}
}

func guiScript(steps []guiStep) (frames []guiFrame) {
	var cur guiFrame
	defer func() {
		if e := recover(); e != nil {
			cur.Panic = fmt.Sprintf("%v\n%s", e, debug.Stack())
			frames = append(frames, cur)
		}
	}()
	ui := NewUI()
	q := &queue{}
	v := reflect.ValueOf(buttonOf(ui))
	q.lo = v.Pointer()
	q.hi = q.lo + v.Elem().Type().Size()
	now := time.Unix(1e9, 0)
	for _, st := range steps {
		cur = guiFrame{}
		if st.Text != nil {
			editorOf(ui).SetText(*st.Text)
		}
		if st.Size != 0 {
			themeOf(ui).TextSize = unit.Sp(float32(st.Size))
		}
		metric := unit.Metric{PxPerDp: 1, PxPerSp: 1}
		if st.Scale != 0 {
			metric = unit.Metric{PxPerDp: float32(st.Scale), PxPerSp: float32(st.Scale)}
		}
		n := 1
		if st.Click {
			n = 3 // the click is noticed by a later frame
		}
		var ops *op.Ops
		for i := 0; i < n; i++ {
			ops = new(op.Ops)
			now = now.Add(time.Second)
			q.press, q.twice = st.Click && i == 0, st.Twice
			ui.Layout(layout.Context{
				Ops: ops, Now: now, Queue: q, Metric: metric,
				Constraints: layout.Exact(st.window()),
			})
		}
		in := &interp{saved: map[int]gstate{}}
		in.run(ops, 0, 0, len(ops.Data()))
		b := imageOf(ui).Bounds()
		cur = guiFrame{Image: imgHash(imageOf(ui)), W: b.Dx(), H: b.Dy(), Fills: in.fills, Text: editorOf(ui).Text()}
		frames = append(frames, cur)
	}
	return frames
}

// window stands in for the window system: it feeds the event loop of the GUI
// the way app.Window does, without a display.
type window struct {
	ui    *UI
	out   chan event.Event
	inval chan struct{}
	ended chan struct{}
	err   error
	panic string

	router router.Router
	now    time.Time
	scale  float64
	size   image.Point
	back   image.Point
	last   *interp
	frames int
}

func newWindow() *window {
	w := &window{
		ui: NewUI(), out: make(chan event.Event), inval: make(chan struct{}, 1),
		ended: make(chan struct{}), now: time.Unix(1e9, 0), scale: 1, size: image.Pt(20000, 20000),
	}
	win := new(app.Window)
	v := reflect.ValueOf(win).Elem()
	set := func(name string, x interface{}) {
		f := v.FieldByName(name)
		reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Set(reflect.ValueOf(x))
	}
	dead := make(chan struct{})
	close(dead)
	set("out", w.out)
	set("invalidates", w.inval)
	set("dead", dead)
	go func() {
		defer close(w.ended)
		defer func() {
			if e := recover(); e != nil {
				w.panic = fmt.Sprintf("%v\n%s", e, debug.Stack())
			}
		}()
		w.err = w.ui.Run(win)
	}()
	return w
}

// send delivers an event and waits until it was handled.
func (w *window) send(e event.Event) {
	for _, e := range []event.Event{e, nil} {
		select {
		case w.out <- e:
		case <-w.ended:
			return
		}
	}
}

func (w *window) frame() {
	w.now = w.now.Add(time.Second)
	w.frames++
	w.send(system.FrameEvent{
		Now: w.now, Metric: unit.Metric{PxPerDp: float32(w.scale), PxPerSp: float32(w.scale)},
		Size: w.size, Queue: &w.router,
		Frame: func(ops *op.Ops) {
			in := &interp{saved: map[int]gstate{}, tags: map[uintptr][4]float64{}}
			in.run(ops, 0, 0, len(ops.Data()))
			w.last = in
			w.router.Frame(ops)
		},
	})
}

// settle lays out frames until none is due.
func (w *window) settle(due bool) {
	for i := 0; i < 10; i++ {
		select {
		case <-w.inval:
			due = true
		default:
		}
		if !due {
			return
		}
		w.frame()
		at, ok := w.router.WakeupTime()
		due = ok && !at.After(w.now)
	}
}

func (w *window) input(es ...event.Event) {
	for _, e := range es {
		due := w.router.Queue(e)
		w.send(e)
		w.settle(due)
	}
}

// area is where a widget listens to the pointer.
func (w *window) area(x interface{}) (p f32.Point, ok bool) {
	v := reflect.ValueOf(x)
	lo, hi := v.Pointer(), v.Pointer()+v.Elem().Type().Size()
	for t, a := range w.last.tags {
		if t >= lo && t < hi {
			return f32.Pt(float32(a[0]+a[2])/2, float32(a[1]+a[3])/2), true
		}
	}
	return p, false
}

func (w *window) step(st guiStep) (fr guiFrame) {
	fr.Before = editorOf(w.ui).Text()
	w.frames = 0
	if st.Size != 0 {
		themeOf(w.ui).TextSize = unit.Sp(float32(st.Size))
	}
	if st.Scale != 0 {
		w.scale = st.Scale
	}
	if st.W != 0 {
		w.size = st.window()
	}
	mouse := func(t pointer.Type, b pointer.Buttons, p f32.Point) event.Event {
		return pointer.Event{Type: t, Source: pointer.Mouse, Buttons: b, Position: p, Time: w.now.Sub(time.Unix(0, 0))}
	}
	click := func(x interface{}, elsewhere bool) {
		p, ok := w.area(x)
		if !ok {
			fr.Stuck = true
			return
		}
		w.input(mouse(pointer.Move, 0, p), mouse(pointer.Press, pointer.ButtonPrimary, p))
		if elsewhere {
			p = f32.Pt(19999, 19999)
			w.input(mouse(pointer.Move, pointer.ButtonPrimary, p))
		}
		w.input(mouse(pointer.Release, 0, p))
	}
	switch st.Event {
	case "frame":
		w.settle(true)
	case "edit":
		w.input(key.EditEvent{Text: *st.Text})
	case "key":
		w.input(key.Event{Name: st.Key, Modifiers: key.Modifiers(st.Mods), State: key.State(st.State)})
	case "click":
		click(buttonOf(w.ui), false)
	case "double":
		// the window is slow: both clicks come before its next frame.
		p, ok := w.area(buttonOf(w.ui))
		if !ok {
			fr.Stuck = true
			break
		}
		w.input(mouse(pointer.Move, 0, p))
		due := false
		for i := 0; i < 2; i++ {
			for _, e := range []event.Event{mouse(pointer.Press, pointer.ButtonPrimary, p), mouse(pointer.Release, 0, p)} {
				if w.router.Queue(e) {
					due = true
				}
				w.send(e)
			}
		}
		w.settle(due)
	case "press":
		click(buttonOf(w.ui), true)
	case "focus":
		click(editorOf(w.ui), false)
	case "shrink":
		// too small for the editor, which loses the focus.
		w.back, w.size = w.size, image.Pt(20000, 20)
		w.settle(true)
	case "restore":
		w.size = w.back
		w.settle(true)
	case "stage":
		w.send(system.StageEvent{Stage: system.StageRunning})
	case "destroy":
		e := system.DestroyEvent{}
		if st.Text != nil {
			e.Err = errors.New(*st.Text)
		}
		w.send(e)
	default:
		panic("unknown event " + st.Event)
	}
	select {
	case <-w.ended:
		fr.Ended = true
		fr.Panic = w.panic
		if w.err != nil {
			fr.Err = w.err.Error()
		}
	default:
	}
	b := imageOf(w.ui).Bounds()
	fr.Image, fr.W, fr.H = imgHash(imageOf(w.ui)), b.Dx(), b.Dy()
	fr.Text = editorOf(w.ui).Text()
	fr.Frames = w.frames
	if w.last != nil {
		fr.Fills = w.last.fills
	}
	return fr
}

func windowScript(steps []guiStep) (frames []guiFrame) {
	w := newWindow()
	for _, st := range steps {
		f := w.step(st)
		frames = append(frames, f)
		if f.Ended {
			return frames
		}
	}
	close(w.out)
	<-w.ended
	return frames
}

func TestMain(*testing.M) {
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(nil, 1<<26)
	out := os.NewFile(3, "reports")
	for in.Scan() {
		var steps []guiStep
		if err := json.Unmarshal(in.Bytes(), &steps); err != nil {
			panic(err)
		}
		script := guiScript
		if len(steps) > 0 && steps[0].Event != "" {
			script = windowScript
		}
		raw, err := json.Marshal(script(steps))
		if err != nil {
			raw, _ = json.Marshal([]guiFrame{{Panic: "report: " + err.Error()}})
		}
		out.Write(append(raw, '\n'))
	}
	os.Exit(0)
}
