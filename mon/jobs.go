package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/gob"
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"regexp"
	"runtime"
	"strconv"
	"strings"

	"github.com/go-latex/latex"
	"github.com/go-latex/latex/ast"
	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/drawtex/drawimg"
	"github.com/go-latex/latex/drawtex/drawpdf"
	"github.com/go-latex/latex/font"
	"github.com/go-latex/latex/mtex"
	"github.com/go-latex/latex/mtex/symbols"
	"github.com/go-latex/latex/tex"
)

// job is one independent use of the library, with a result that can be
// compared.
type job struct {
	Kind string // parse, layout, ttf, render, png, bad
	Src  string
	Size float64
	DPI  float64
	Set  string // font set
	Seed uint64 // metrics of the synthetic backend
}

var jobKinds = []string{"parse", "layout", "ttf", "render", "png", "bad", "boxes", "sets", "pdf"}

func (j job) String() string {
	return fmt.Sprintf("%s %q at %g/%g with %s", j.Kind, j.Src, j.Size, j.DPI, j.Set)
}

var reDates = regexp.MustCompile(`/(CreationDate|ModDate)\s*\([^)]*\)`)

// digestAST describes a tree completely, positions included.
func digestAST(x ast.Node) string {
	var o strings.Builder
	var walk func(x ast.Node)
	walk = func(x ast.Node) {
		if isNil(x) {
			o.WriteString("nil")
			return
		}
		fmt.Fprintf(&o, "%T@%d-%d", x, x.Pos(), x.End())
		switch x := x.(type) {
		case *ast.Macro:
			fmt.Fprintf(&o, "%q", x.Name.Name)
		case *ast.Word:
			fmt.Fprintf(&o, "%q", x.Text)
		case *ast.Literal:
			fmt.Fprintf(&o, "%q", x.Text)
		case *ast.Symbol:
			fmt.Fprintf(&o, "%q", x.Text)
		case *ast.MathExpr:
			fmt.Fprintf(&o, "%q%d-%d", x.Delim, x.Left, x.Right)
		}
		o.WriteByte('(')
		for _, k := range children(x) {
			walk(k)
			o.WriteByte(' ')
		}
		o.WriteByte(')')
	}
	walk(x)
	return o.String()
}

// kept is what a job hands out and later calls must not change.
type kept struct {
	job   job
	tree  ast.Node
	laid  tex.Tree
	be    *synth
	cnv   *drawtex.Canvas
	image []byte
	was   string
}

func (k *kept) describe() string {
	switch {
	case k.tree != nil:
		return digestAST(k.tree)
	case k.cnv != nil:
		return opsString(k.cnv.Ops())
	case k.laid != nil:
		k.be.take()
		var s tex.Ship
		s.Call(0, 0, k.laid)
		return drawnString(k.be.take())
	case k.image != nil:
		return fmt.Sprintf("%x", sha256.Sum256(k.image))
	}
	return ""
}

// spoil changes everything that the job handed out, as its owner may do.
func (k *kept) spoil(c *Case) {
	switch {
	case k.tree != nil:
		var walk func(x ast.Node)
		list := func(xs ast.List) {
			for i, x := range xs {
				walk(x)
				switch c.Intn(3) {
				case 0:
					xs[i] = &ast.Literal{LitPos: -7, Text: "spoilt"}
				case 1:
					xs[i] = nil
				}
			}
			_ = append(xs[:0], &ast.Word{Text: "spoilt"})
		}
		walk = func(x ast.Node) {
			if isNil(x) {
				return
			}
			switch x := x.(type) {
			case ast.List:
				list(x)
			case *ast.Macro:
				if x.Name != nil {
					x.Name.Name, x.Name.NamePos = "\\spoilt", -7
				}
				list(x.Args)
				x.Args = append(x.Args, &ast.Arg{})
			case *ast.Arg:
				list(x.List)
				x.List, x.Lbrace = nil, -7
			case *ast.OptArg:
				list(x.List)
				x.List, x.Lbrack = nil, -7
			case *ast.MathExpr:
				list(x.List)
				x.List, x.Left, x.Right, x.Delim = nil, -7, -7, "spoilt"
			case *ast.Sub:
				walk(x.Node)
				x.Node, x.UnderPos = nil, -7
			case *ast.Sup:
				walk(x.Node)
				x.Node, x.HatPos = nil, -7
			case *ast.Word:
				x.Text, x.WordPos = "spoilt", -7
			case *ast.Literal:
				x.Text, x.LitPos = "999", -7
			case *ast.Symbol:
				x.Text, x.SymPos = "spoilt", -7
			}
		}
		walk(k.tree)
	case k.cnv != nil:
		ops := k.cnv.Ops()
		for i := range ops {
			ops[i] = drawtex.RectOp{X1: -1, Y1: -1, X2: -2, Y2: -2}
		}
		_ = append(ops[:0], drawtex.RectOp{})
	case k.laid != nil:
		k.laid.Shrink()
		for i, n := range k.laid.Nodes() {
			n.Grow()
			if c.Intn(2) == 0 {
				k.laid.Nodes()[i] = tex.NewKern(1e6)
			}
		}
		if l, ok := k.laid.(*tex.HList); ok {
			l.HPack(1e6, true)
		}
	case k.image != nil:
		for i := range k.image {
			k.image[i] = 0
		}
	}
}

func drawnString(ops []drawn) string {
	var o strings.Builder
	for _, d := range ops {
		o.WriteString(d.String())
		o.WriteByte('\n')
	}
	return o.String()
}

func errString(err error) string { return "error: " + err.Error() }

// run does the job and describes the result.
func (j job) run() (string, *kept) {
	k := &kept{job: j}
	res := j.do(k)
	if k.tree == nil && k.laid == nil && k.cnv == nil && k.image == nil {
		return res, nil
	}
	k.was = k.describe()
	return res, k
}

// bad does jobs that cannot succeed.
func (j job) bad() (res string) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(runtime.Error); ok {
				panic(e)
			}
			res += fmt.Sprintf("panic: %v", e)
		}
	}()
	switch j.Seed % 4 {
	default:
		// a writer that fails somewhere.
		w := &faultyWriter{left: int(j.Seed / 4 % 400), err: &causeErr{1}}
		err := mtex.Render(drawimg.NewRenderer(w), j.Src, j.Size, j.DPI, fonts()[j.Set])
		res = fmt.Sprintf("%x", sha256.Sum256(w.got.Bytes()))
		if err != nil {
			return errString(err) + res
		}
		return res
	case 1:
		// a writer or renderer that panics.
		var r mtex.Renderer = panicky{val: "no"}
		if j.Seed/4%2 == 0 {
			r = drawimg.NewRenderer(panicky{val: "no"})
		}
		if err := mtex.Render(r, j.Src, j.Size, j.DPI, fonts()[j.Set]); err != nil {
			return errString(err)
		}
		return "no error"
	case 2:
		// a backend that panics in the middle of the layout.
		be := &givingUp{Backend: &synth{seed: j.Seed}, left: int(j.Seed / 4 % 40)}
		if _, err := mtex.Parse(j.Src, j.Size, j.DPI, be); err != nil {
			return errString(err)
		}
		return fmt.Sprint(be.left, " calls left")
	case 3:
		// a visitor that panics.
		x, err := latex.ParseExpr(j.Src)
		if err != nil {
			return errString(err)
		}
		left := int(j.Seed / 4 % 20)
		ast.Inspect(x, func(ast.Node) bool {
			if left--; left < 0 {
				panic("no")
			}
			return true
		})
		return fmt.Sprint(left, " visits left")
	}
}

// givingUp is a backend that panics after some calls.
type givingUp struct {
	font.Backend
	left int
}

func (b *givingUp) call() {
	if b.left--; b.left < 0 {
		panic("giving up")
	}
}

func (b *givingUp) Metrics(sym string, f font.Font, dpi float64, math bool) font.Metrics {
	b.call()
	return b.Backend.Metrics(sym, f, dpi, math)
}

func (b *givingUp) RenderGlyph(x, y float64, f font.Font, sym string, dpi float64) {
	b.call()
	b.Backend.RenderGlyph(x, y, f, sym, dpi)
}

func (b *givingUp) RenderRectFilled(x1, y1, x2, y2 float64) {
	b.call()
	b.Backend.RenderRectFilled(x1, y1, x2, y2)
}

func (j job) do(k *kept) string {
	switch j.Kind {
	case "parse":
		x, err := latex.ParseExpr(j.Src)
		if err != nil {
			return errString(err)
		}
		k.tree = x
		return digestAST(x) + "\n" + printed(x)
	case "layout":
		be := &synth{seed: j.Seed, kerns: j.Seed%2 == 0, real: j.Seed%3 == 0}
		n, err := mtex.Parse(j.Src, j.Size, j.DPI, be)
		if err != nil {
			return errString(err)
		}
		t, ok := n.(tex.Tree)
		if !ok {
			return fmt.Sprintf("%T", n)
		}
		be.take()
		var s tex.Ship
		s.Call(0, 0, t)
		k.laid, k.be = t, be
		return fmt.Sprintf("%g %g %g\n", round(t.Width()), round(t.Height()), round(t.Depth())) + drawnString(be.take())
	case "ttf":
		cnv := drawtex.New()
		be := yielding{newTTFOn(cnv, fonts()[j.Set])}
		n, err := mtex.Parse(j.Src, j.Size, 72, be)
		if err != nil {
			return errString(err)
		}
		t, ok := n.(tex.Tree)
		if !ok {
			return fmt.Sprintf("%T", n)
		}
		var s tex.Ship
		s.Call(0, 0, t)
		k.cnv = cnv
		return opsString(cnv.Ops())
	case "render":
		r, err := render(j.Src, j.Size, j.DPI, fonts()[j.Set])
		if err != nil {
			return errString(err)
		}
		k.cnv = r.cnv
		return fmt.Sprintf("%g %g %g\n", round(r.w), round(r.h), r.dpi) + opsString(r.ops)
	case "png":
		var buf bytes.Buffer
		err := mtex.Render(drawimg.NewRenderer(yieldWriter{&buf}), j.Src, j.Size, j.DPI, fonts()[j.Set])
		if err != nil {
			return errString(err)
		}
		k.image = buf.Bytes()
		return fmt.Sprintf("%d bytes %x", buf.Len(), sha256.Sum256(buf.Bytes()))
	case "bad":
		return j.bad()
	case "boxes":
		// boxes built, scaled, packed and drawn.
		c := &Case{Rand: rand.New(rand.NewSource(int64(j.Seed))), sh: newShard()}
		g := newBoxGen(c)
		b := g.hlist(3)
		t := b.real.(tex.Tree)
		switch c.Intn(3) {
		case 0:
			t.Shrink()
		case 1:
			t.Grow()
		}
		g.be.take()
		var s tex.Ship
		s.Call(0, 0, t)
		k.laid, k.be = t, g.be
		return fmt.Sprintf("%g %g %g\n", round(t.Width()), round(t.Height()), round(t.Depth())) + drawnString(g.be.take())
	case "pdf":
		r, err := render(j.Src, j.Size, j.DPI, fonts()[j.Set])
		if err != nil {
			return errString(err)
		}
		f, err := os.CreateTemp(scratch(), "job-*.pdf")
		if err != nil {
			panic(err)
		}
		f.Close()
		defer os.Remove(f.Name())
		if err := drawpdf.Write(f.Name(), r.w*72+1, r.h*72+1+float64(j.Seed%97), r.cnv); err != nil {
			return errString(err)
		}
		raw, err := os.ReadFile(f.Name())
		if err != nil {
			return errString(err)
		}
		// without the times, which differ.
		raw = reDates.ReplaceAll(raw, nil)
		return fmt.Sprintf("%d bytes: %q", len(raw), reBox.FindAll(raw, -1))
	case "sets":
		u := symbols.UnionOf(symbols.BinaryOperators, symbols.NewSet(strings.Fields(j.Src)...), symbols.ArrowSymbols)
		return strings.Join(u.Keys(), " ") + fmt.Sprint(symbols.IsSpaced(j.Src), symbols.SpacedSymbols.Has("+"), len(symbols.SpacedSymbols.Keys()))
	}
	panic(j.Kind)
}

// newJob makes up a job; what it renders is of a moderate size.
func newJob(c *Case) job {
	j := job{
		Kind: pick(c, jobKinds), Size: pick(c, []float64{12, 10, 20, 7.5}), DPI: pick(c, []float64{72, 100, 150}),
		Set: pick(c, fontNames), Seed: uint64(c.Int63()),
	}
	switch c.Intn(5) {
	case 0:
		j.Src = anyInput(c)
		if len(j.Src) > 300 {
			j.Src = j.Src[:300]
		}
	case 1:
		_, s := drawable(c, fontGrammar(c), 3, true)
		j.Src = mutate(c, s, 1)
	default:
		g := fontGrammar(c)
		if j.Kind == "layout" {
			g = synthGrammar(c)
		}
		_, j.Src = drawable(c, g, c.Intn(4), true)
	}
	return j
}

func init() {
	// stress FILE N: N goroutines run the jobs of the file at the same time, each
	// in an order of its own; the results that differ between them are written.
	helpers["stress"] = func(args []string) int {
		f, err := os.Open(args[0])
		if err != nil {
			return exitError
		}
		var js []job
		if err := gob.NewDecoder(f).Decode(&js); err != nil {
			return exitError
		}
		n, _ := strconv.Atoi(args[1])
		log.SetOutput(io.Discard)
		st := stress(js, n, int64(js[0].Seed))
		if err := gob.NewEncoder(os.Stdout).Encode(st); err != nil {
			return exitError
		}
		return exitOK
	}
	// jobs FILE: runs the jobs of the file and writes their results.
	helpers["jobs"] = func(args []string) int {
		f, err := os.Open(args[0])
		if err != nil {
			return exitError
		}
		var js []job
		if err := gob.NewDecoder(f).Decode(&js); err != nil {
			return exitError
		}
		var out []string
		for _, j := range js {
			s, _ := j.run()
			out = append(out, s)
		}
		if err := gob.NewEncoder(os.Stdout).Encode(out); err != nil {
			return exitError
		}
		return exitOK
	}
}
