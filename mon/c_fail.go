package main

import (
	"bufio"
	"bytes"
	"compress/zlib"
	"context"
	"errors"
	"fmt"
	"image/jpeg"
	"image/png"
	"io"
	"io/fs"
	"math"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"syscall"

	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/drawtex/drawimg"
	"github.com/go-latex/latex/drawtex/drawpdf"
	"github.com/go-latex/latex/mtex"
)

// causeErr is an error that cannot be mistaken for another one.
type causeErr struct{ id int }

func (e *causeErr) Error() string { return "cause " + strconv.Itoa(e.id) }

// faultyWriter accepts so many bytes, and then fails.
type faultyWriter struct {
	got    bytes.Buffer
	left   int
	err    error
	part   bool // write what fits before failing
	full   bool // take everything, and report the error all the same
	once   bool // only fail once
	failed int
	after  int // bytes accepted after the failure
	calls  int
}

// panicky is a renderer, and a writer, that panics.
type panicky struct {
	val any
}

func (p panicky) Render(w, h, dpi float64, cnv *drawtex.Canvas) error { panic(p.val) }

func (p panicky) Write(b []byte) (int, error) { panic(p.val) }

func (w *faultyWriter) Write(p []byte) (int, error) {
	w.calls++
	if w.failed > 0 && w.once {
		w.after += len(p)
		w.got.Write(p)
		return len(p), nil
	}
	if len(p) <= w.left {
		w.left -= len(p)
		w.got.Write(p)
		return len(p), nil
	}
	w.failed++
	n := 0
	switch {
	case w.full:
		n = len(p)
		w.got.Write(p)
		w.left = 0
	case w.part:
		n = w.left
		w.got.Write(p[:n])
		w.left = 0
	}
	return n, w.err
}

// causes are errors that writers are known for: none of them may be taken
// for anything else than a failure.
var causes = []error{
	io.EOF, io.ErrShortWrite, io.ErrClosedPipe, io.ErrUnexpectedEOF, io.ErrNoProgress, io.ErrShortBuffer,
	os.ErrClosed, fs.ErrExist, fs.ErrNotExist, fs.ErrPermission, fs.ErrInvalid, os.ErrDeadlineExceeded, os.ErrNoDeadline, os.ErrProcessDone,
	syscall.ENOSPC, syscall.EPIPE, syscall.EINTR, syscall.EAGAIN, syscall.EIO, syscall.ECONNRESET, syscall.EBADF, syscall.EDQUOT, syscall.EFBIG,
	context.Canceled, context.DeadlineExceeded, net.ErrClosed, http.ErrHandlerTimeout, http.ErrAbortHandler, http.ErrBodyNotAllowed, http.ErrContentLength, bufio.ErrTooLong,
	bytes.ErrTooLarge, errors.ErrUnsupported, zlib.ErrHeader, bufio.ErrFinalToken, fs.SkipDir, fs.SkipAll,
	png.UnsupportedError("x"), png.FormatError("x"), jpeg.UnsupportedError("x"), timeoutErr{},
	&os.PathError{Op: "write", Path: "x", Err: syscall.ENOSPC}, &net.OpError{Op: "write", Net: "tcp", Err: syscall.EPIPE},
	os.NewSyscallError("write", syscall.EINTR),
}

// timeoutErr is temporary, it says.
type timeoutErr struct{}

func (timeoutErr) Error() string   { return "" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

// someCause is an error and what it may be wrapped in.
func someCause(c *Case, id int) error {
	err := error(&causeErr{id})
	switch c.Intn(4) {
	case 0, 1:
		err = pick(c, causes)
		c.Set("well-known errors", fmt.Sprintf("%T %v", err, err))
	}
	switch c.Intn(10) {
	case 0:
		err = fmt.Errorf("wrapped: %w", err)
	case 1:
		err = errors.Join(errors.New("first"), err)
	}
	return err
}

// failing renders fail in every way.
func sureErr(c *Case, what string, err, cause error) {
	if err == nil {
		c.Failf("%s: success is reported although there was an error", what)
	}
	if !errors.Is(err, cause) {
		c.Failf("%s: the error %q (%T) hides its cause %q", what, err, err, cause)
	}
	var ce *causeErr
	if errors.As(cause, &ce) {
		var as *causeErr
		if !errors.As(err, &as) || as != ce {
			c.Failf("%s: the cause cannot be recovered from %q", what, err)
		}
	}
}

func init() {
	register(&Check{
		ID:   "C23",
		Rule: "a case draws to a writer that fails after a given number of bytes, or to a renderer that fails, and checks that the error is returned with its cause; every byte position of the outputs of some expressions is tried; distinct by output and position",
		Need: []string{"failing writes", "failing renderers", "complete outputs", "every byte of an output", "impossible sizes", "panicking renderers and writers"},
		Families: []*Family{
			{Name: "every byte", Quick: 32, Thorough: 1500, Run: func(c *Case) {
				_, src := drawable(c, fontGrammar(c), c.Intn(4), true)
				set := pick(c, fontNames)
				size := pick(c, []float64{12, 10, 20})
				dpi := pick(c, []float64{72, 100, 30})
				var ok bytes.Buffer
				if err := mtex.Render(drawimg.NewRenderer(&ok), src, size, dpi, fonts()[set]); err != nil {
					c.Skip("no image of that size")
				}
				n := ok.Len()
				step := 1
				if n > 1500 {
					step = n/1500 + 1
				}
				for k := 0; k < n; k++ {
					if k > 200 && k < n-200 && k%step != 0 {
						continue
					}
					cause := error(&causeErr{k})
					if c.Intn(4) == 0 {
						cause = pick(c, causes)
					}
					w := &faultyWriter{left: k, err: cause, part: c.Intn(2) == 0, once: c.Intn(3) == 0, full: c.Intn(5) == 0}
					err := mtex.Render(drawimg.NewRenderer(w), src, size, dpi, fonts()[set])
					sureErr(c, fmt.Sprintf("%q, writer failing at byte %d of %d", src, k, n), err, cause)
					if !bytes.HasPrefix(ok.Bytes(), w.got.Bytes()[:min(w.got.Len(), k)]) {
						c.Failf("%q: what is written before the failure at byte %d differs", src, k)
					}
					c.Count("failing writes", 1)
					c.Distinct(fmt.Sprint(src, set, size, dpi, k))
				}
				c.Count("every byte of an output", 1)
				// exactly enough room.
				w := &faultyWriter{left: n, err: &causeErr{n}}
				if err := mtex.Render(drawimg.NewRenderer(w), src, size, dpi, fonts()[set]); err != nil {
					c.Failf("%q: error %v although everything has been written", src, err)
				}
				if !bytes.Equal(w.got.Bytes(), ok.Bytes()) {
					c.Failf("%q: %d bytes are written instead of %d", src, w.got.Len(), n)
				}
				c.Count("complete outputs", 1)
				c.Sample(fmt.Sprint(src, ": ", n, " bytes"))
			}},
			{Name: "writers", Quick: 4000, Thorough: 150000, Run: func(c *Case) {
				// large images: many writes.
				w, h := 0.1+c.Float64()*3, 0.1+c.Float64()*3
				dpi := pick(c, []float64{72, 150})
				cnv := canvasOf(c, c.Intn(30), w, h, dpi)
				c.Input(describeCanvas(w, h, dpi, cnv.Ops()))
				var ok bytes.Buffer
				if err := drawimg.NewRenderer(&ok).Render(w, h, dpi, cnv); err != nil {
					c.Failf("%v", err)
				}
				k := c.Intn(ok.Len())
				if c.Intn(3) == 0 {
					k = ok.Len() - 1 - c.Intn(20)
				}
				cause := someCause(c, k)
				fw := &faultyWriter{left: k, err: cause, part: c.Intn(2) == 0, once: c.Intn(3) == 0, full: c.Intn(5) == 0}
				r := drawimg.NewRenderer(fw)
				err := r.Render(w, h, dpi, cnv)
				sureErr(c, fmt.Sprintf("writer failing at byte %d of %d", k, ok.Len()), err, cause)
				c.Count("failing writes", 1)
				if c.Intn(3) == 0 {
					// again with the same renderer: another failure, and a success.
					k := c.Intn(ok.Len())
					cause := someCause(c, k)
					*fw = faultyWriter{left: k, err: cause, part: c.Intn(2) == 0}
					err := r.Render(w, h, dpi, cnv)
					sureErr(c, fmt.Sprintf("the same renderer, failing again at byte %d of %d", k, ok.Len()), err, cause)
					*fw = faultyWriter{left: ok.Len()}
					if err := r.Render(w, h, dpi, cnv); err != nil || !bytes.Equal(fw.got.Bytes(), ok.Bytes()) {
						c.Failf("error %v, and %d of %d bytes written, by a renderer that failed before", err, fw.got.Len(), ok.Len())
					}
					c.Count("renderers used after a failure", 1)
				}
				fw = &faultyWriter{left: ok.Len(), err: cause}
				if err := drawimg.NewRenderer(fw).Render(w, h, dpi, cnv); err != nil || !bytes.Equal(fw.got.Bytes(), ok.Bytes()) {
					c.Failf("error %v, and %d of %d bytes written, without a failure", err, fw.got.Len(), ok.Len())
				}
				c.Count("complete outputs", 1)
				c.Distinct(fmt.Sprint(k, describeCanvas(w, h, dpi, cnv.Ops())))
			}},
			{Name: "renderers", Quick: 20000, Thorough: 500000, Run: func(c *Case) {
				_, src := drawable(c, fontGrammar(c), c.Intn(4), true)
				size, dpi := pick(c, laySizes), pick(c, []float64{72, 100})
				r := &captured{}
				if c.Intn(6) > 0 {
					r.err = someCause(c, c.Intn(1000))
				}
				err := mtex.Render(r, src, size, dpi, fonts()[pick(c, fontNames)])
				if r.calls != 1 {
					c.Failf("%q: the renderer is called %d times", src, r.calls)
				}
				if r.err == nil {
					if err != nil {
						c.Failf("%q: error %v although the renderer succeeds", src, err)
					}
					c.Count("complete outputs", 1)
					return
				}
				sureErr(c, fmt.Sprintf("%q, failing renderer", src), err, r.err)
				c.Count("failing renderers", 1)
				c.Distinct(src + r.err.Error())
				c.Sample(src)
			}},
			{Name: "panics", Quick: 2000, Thorough: 40000, Run: func(c *Case) {
				// a renderer or writer that panics: the panic, or an error,
				// reaches the caller.
				_, src := drawable(c, fontGrammar(c), c.Intn(3), true)
				val := pick(c, []any{"no", 42, &causeErr{c.Intn(1000)}, fmt.Errorf("no: %w", io.EOF), struct{}{}, 1.5, []byte("no"), io.EOF, errors.New(""), ""})
				var dst mtex.Renderer = panicky{val: val}
				where := "renderer"
				if c.Intn(3) == 0 {
					dst, where = drawimg.NewRenderer(panicky{val: val}), "writer"
				}
				var err error
				panicked := func() (p any) {
					defer func() { p = recover() }()
					err = mtex.Render(dst, src, pick(c, laySizes), 72, fonts()[pick(c, fontNames)])
					return nil
				}()
				if panicked == nil && err == nil {
					c.Failf("%q: success is reported although the %s panics with %T %v", src, where, val, val)
				}
				c.Count("panicking renderers and writers", 1)
				c.Distinct(fmt.Sprintf("%s %s %T %v", src, where, val, val))
			}},
			{Name: "bad sizes", Quick: 300, Thorough: 3000, Run: func(c *Case) {
				// images that cannot be: an error, or a complete image.
				bad := []float64{0, -1, math.NaN(), math.Inf(-1), -1e-9, 1e-12, 0.5}
				w, h, dpi := pick(c, bad), pick(c, bad), pick(c, []float64{72, 0, -72, math.NaN(), 1})
				if c.Intn(3) == 0 {
					// larger than any memory: nothing can be allocated.
					huge := []float64{1e8, 1e9, 1e10, 1 << 32, 1e12, 1e18, 1e19, 1e20, 1e100, 1e300, math.MaxFloat64, math.Inf(1)}
					w, h, dpi = pick(c, huge), pick(c, huge), pick(c, []float64{1, 72, 1e6, 1e300, math.Inf(1)})
					if c.Intn(3) == 0 {
						w = pick(c, []float64{-1, math.NaN()})
					}
					c.Count("impossible sizes", 1)
				}
				cnv := canvasOf(c, c.Intn(3), 1, 1, 72)
				if dpi != 72 {
					cnv = drawtex.New()
				}
				c.Input(fmt.Sprint(w, h, dpi))
				var buf bytes.Buffer
				err := drawimg.NewRenderer(&buf).Render(w, h, dpi, cnv)
				if err == nil {
					if e := pngChunks(buf.Bytes()); e != nil {
						c.Failf("success is reported, but the output is not an image: %v", e)
					}
				}
				c.Count("images of odd sizes", 1)
				c.Distinct(fmt.Sprint(w, h, dpi))
			}},
		},
	})

	register(&Check{
		ID:      "C25",
		Rule:    "a case writes a canvas to a PDF file, parses the file and compares the size of its page with the request, or makes writing fail; distinct by canvas and size",
		Need:    []string{"documents parsed", "pages measured", "failing outputs", "objects located", "unusual sizes", "long canvases"},
		KeepLog: false,
		Families: []*Family{
			{Name: "documents", Quick: 30000, Thorough: 200000, Run: func(c *Case) {
				w, h := 1+c.Float64()*1000, 1+c.Float64()*1000
				switch c.Intn(8) {
				case 0, 1:
					w, h = float64(1+c.Intn(600)), float64(1+c.Intn(600))
				case 2, 3:
					w, h = 10+c.Float64()*10, 10+c.Float64()*10
				case 4: // a slip, or a poster, in one direction at least.
					w = math.Exp(c.Float64()*18 - 5)
					c.Count("unusual sizes", 1)
				case 5:
					h = math.Exp(c.Float64()*18 - 5)
					c.Count("unusual sizes", 1)
				}
				w, h = math.Max(w, 0.02), math.Max(h, 0.02)
				n := c.Intn(20)
				if c.Index%200 == 17 {
					n = 1000 + c.Intn(12000)
					c.Count("long canvases", 1)
				}
				cnv := canvasOf(c, n, w/72, h/72, 72)
				if c.Intn(10) == 0 {
					// anything a canvas can hold.
					cnv.RenderGlyph(math.NaN(), math.Inf(1), drawtex.Glyph{})
					cnv.RenderRectFilled(math.NaN(), -1, math.Inf(-1), 1e300)
				}
				c.Input(describeCanvas(w, h, 72, cnv.Ops()))
				name := pick(c, []string{"out.pdf", "out.pdf", "out", "out.PDF", "out.png", ".pdf", "a b.pdf", "é日.pdf", "x.pdf.bak", "-", "100%d.pdf"})
				path := filepath.Join(scratch(), name)
				if c.Intn(3) == 0 {
					os.WriteFile(path, bytes.Repeat([]byte("old content\n"), 1000), 0o644)
				} else {
					os.Remove(path)
				}
				before := opsString(cnv.Ops())
				if err := drawpdf.Write(path, w, h, cnv); err != nil {
					c.Failf("cannot write: %v", err)
				}
				if opsString(cnv.Ops()) != before {
					c.Failf("writing changed the canvas")
				}
				raw, err := os.ReadFile(path)
				if err != nil {
					c.Failf("success is reported, but: %v", err)
				}
				onePage(c, raw, w, h)
				entries, _ := os.ReadDir(scratch())
				if len(entries) != 1 {
					c.Failf("%d files are left behind", len(entries))
				}
				os.Remove(path)
				c.Distinct(describeCanvas(w, h, 72, cnv.Ops()))
				if n < 1000 {
					c.Sample(describeCanvas(w, h, 72, cnv.Ops()))
				}
			}},
			{Name: "formulas", Quick: 800, Thorough: 20000, Run: func(c *Case) {
				_, src := drawable(c, fontGrammar(c), c.Intn(4), true)
				r, err := render(src, 12, 72, fonts()[pick(c, fontNames)])
				if err != nil {
					c.Failf("%q cannot be drawn: %v", src, err)
				}
				w, h := r.w*72+1, r.h*72+1
				path := filepath.Join(scratch(), "out.pdf")
				if err := drawpdf.Write(path, w, h, r.cnv); err != nil {
					c.Failf("cannot write: %v", err)
				}
				raw, err := os.ReadFile(path)
				if err != nil {
					c.Failf("success is reported, but: %v", err)
				}
				onePage(c, raw, w, h)
				c.Distinct(src)
			}},
			{Name: "special files", Quick: 200, Thorough: 4000, Run: func(c *Case) {
				// links to files, and pipes with a reader.
				w, h := 10+500*c.Float64(), 10+500*c.Float64()
				cnv := canvasOf(c, c.Intn(400), w/72, h/72, 72)
				dir, err := os.MkdirTemp(scratch(), "special")
				if err != nil {
					panic(err)
				}
				defer os.RemoveAll(dir)
				path := filepath.Join(dir, "out.pdf")
				kind := pick(c, []string{"link", "hard link", "chain", "dangling link", "pipe"})
				target := filepath.Join(dir, "target")
				must := func(err error) {
					if err != nil {
						panic(err)
					}
				}
				if kind != "dangling link" && kind != "pipe" {
					must(os.WriteFile(target, bytes.Repeat([]byte("old"), c.Intn(5000)), 0o644))
				}
				got := make(chan []byte, 1)
				switch kind {
				case "link", "dangling link":
					must(os.Symlink("target", path))
				case "hard link":
					must(os.Link(target, path))
				case "chain":
					must(os.Symlink("target", filepath.Join(dir, "mid")))
					must(os.Symlink(filepath.Join(dir, "mid"), path))
				case "pipe":
					must(syscall.Mkfifo(path, 0o600))
					// without waiting for a writer.
					r, err := os.OpenFile(path, os.O_RDONLY|syscall.O_NONBLOCK, 0)
					must(err)
					hold, err := os.OpenFile(path, os.O_WRONLY, 0)
					must(err)
					go func() {
						raw, _ := io.ReadAll(r)
						r.Close()
						got <- raw
					}()
					defer hold.Close()
					if err := drawpdf.Write(path, w, h, cnv); err != nil {
						c.Failf("%s: cannot write: %v", kind, err)
					}
					hold.Close()
					raw := <-got
					if fi, err := os.Stat(path); len(raw) == 0 && err == nil && fi.Mode().IsRegular() {
						raw, _ = os.ReadFile(path) // the pipe was replaced.
					}
					onePage(c, raw, w, h)
					c.Count("pipes", 1)
					c.Distinct(fmt.Sprint(kind, w, h))
					return
				}
				if err := drawpdf.Write(path, w, h, cnv); err != nil {
					c.Failf("%s: cannot write: %v", kind, err)
				}
				raw, err := os.ReadFile(path)
				if err != nil {
					c.Failf("%s: success is reported, but: %v", kind, err)
				}
				onePage(c, raw, w, h)
				c.Count("links", 1)
				c.Distinct(fmt.Sprint(kind, w, h))
			}},
			{Name: "failures", Quick: 200, Thorough: 4000, Run: func(c *Case) {
				cnv := canvasOf(c, c.Intn(5), 1, 1, 72)
				dir := filepath.Join(scratch(), "dir")
				os.MkdirAll(dir, 0o755)
				file := filepath.Join(scratch(), "file")
				os.WriteFile(file, []byte("x"), 0o644)
				path := pick(c, []string{dir, filepath.Join(scratch(), "none", "out.pdf"), filepath.Join(file, "out.pdf"), "/dev/full", filepath.Join(scratch(), strings.Repeat("n", 300)), ""})
				c.Input(path)
				if err := drawpdf.Write(path, 100, 50, cnv); err == nil {
					c.Failf("writing to %q is reported to succeed", path)
				}
				c.Count("failing outputs", 1)
				os.RemoveAll(filepath.Join(scratch(), "dir"))
				os.RemoveAll(filepath.Join(scratch(), "file"))
				c.Distinct(fmt.Sprint(path, c.Index))
			}},
			{Name: "content", Quick: 1, Thorough: 1, Run: func(c *Case) {
				cnv := drawtex.New()
				cnv.RenderRectFilled(10, 10, 50, 20)
				cnv.RenderGlyph(10, 40, drawtex.Glyph{Font: ownFonts("go").Rm, Size: 12, Postscript: "GoRegular", Symbol: "a", Num: glyphIndex(ownFonts("go").Rm, 'a')})
				path := filepath.Join(scratch(), "out.pdf")
				if err := drawpdf.Write(path, 100, 50, cnv); err != nil {
					c.Failf("cannot write: %v", err)
				}
				raw, _ := os.ReadFile(path)
				if len(paintOps(onePage(c, raw, 100, 50))) == 0 {
					c.Known("draws-nothing", "the PDF of a canvas with a rule and a glyph has an empty page")
				}
			}},
		},
	})
}

var (
	reObj     = regexp.MustCompile(`^(\d+) 0 obj\b`)
	reBox     = regexp.MustCompile(`/MediaBox\s*\[\s*([-0-9.]+)\s+([-0-9.]+)\s+([-0-9.]+)\s+([-0-9.]+)\s*\]`)
	reStart   = regexp.MustCompile(`startxref\s+(\d+)\s+%%EOF\s*$`)
	reXref    = regexp.MustCompile(`^xref\n0 (\d+)\n`)
	reTrailer = regexp.MustCompile(`trailer\s*<<([^>]*)>>`)
)

// onePage parses a PDF document with one page, and returns its content.
func onePage(c *Case, raw []byte, w, h float64) []byte {
	if !bytes.HasPrefix(raw, []byte("%PDF-1.")) {
		c.Failf("not a PDF document: %q", clip(string(raw)))
	}
	m := reStart.FindSubmatch(raw)
	if m == nil {
		c.Failf("the document is incomplete: it ends with %q", raw[max(0, len(raw)-60):])
	}
	off, _ := strconv.Atoi(string(m[1]))
	if off >= len(raw) {
		c.Failf("the document is incomplete: no cross-reference table at %d", off)
	}
	x := reXref.FindSubmatch(raw[off:])
	if x == nil {
		c.Failf("no cross-reference table at %d", off)
	}
	n, _ := strconv.Atoi(string(x[1]))
	p := off + len(x[0])
	for i := 0; i < n; i++ {
		if p+20 > len(raw) {
			c.Failf("the cross-reference table is cut")
		}
		entry := string(raw[p : p+20])
		p += 20
		if i == 0 {
			continue
		}
		at, err := strconv.Atoi(entry[:10])
		if err != nil || entry[17] != 'n' {
			c.Failf("bad cross-reference entry %q", entry)
		}
		o := reObj.FindSubmatch(raw[min(at, len(raw)):])
		if o == nil || string(o[1]) != strconv.Itoa(i) {
			c.Failf("object %d is not at %d", i, at)
		}
		c.Count("objects located", 1)
	}
	if t := reTrailer.FindSubmatch(raw[p:]); t == nil || !bytes.Contains(t[1], []byte("/Root")) {
		c.Failf("no trailer")
	}
	if k := len(regexp.MustCompile(`/Type\s*/Page\b[^s]`).FindAll(raw, -1)); k != 1 {
		c.Failf("%d pages instead of one", k)
	}
	if !regexp.MustCompile(`/Count\s+1\b`).Match(raw) {
		c.Failf("the number of pages is not one")
	}
	boxes := reBox.FindAllSubmatch(raw, -1)
	if len(boxes) == 0 {
		c.Failf("the page has no size")
	}
	for _, b := range boxes {
		var v [4]float64
		for i := range v {
			v[i], _ = strconv.ParseFloat(string(b[i+1]), 64)
		}
		if math.Abs(v[2]-v[0]-w) > 0.006 || math.Abs(v[3]-v[1]-h) > 0.006 {
			c.Failf("a page of %g x %g instead of %g x %g", v[2]-v[0], v[3]-v[1], w, h)
		}
	}
	c.Count("pages measured", 1)
	// the content of the page.
	var content []byte
	for rest := raw; ; {
		i := bytes.Index(rest, []byte("stream\n"))
		if i < 0 {
			break
		}
		j := bytes.Index(rest[i:], []byte("endstream"))
		if j < 0 {
			c.Failf("a stream is cut")
		}
		data := rest[i+7 : i+j]
		if zr, err := zlib.NewReader(bytes.NewReader(data)); err == nil {
			s, err := io.ReadAll(zr)
			if err != nil {
				c.Failf("a stream cannot be read: %v", err)
			}
			content = append(content, s...)
		} else {
			content = append(content, data...)
		}
		rest = rest[i+j+9:]
	}
	c.Count("documents parsed", 1)
	return content
}

// paintOps are the operators of a content stream that paint.
func paintOps(content []byte) []string {
	var o []string
	for _, f := range strings.Fields(string(content)) {
		switch f {
		case "f", "F", "f*", "B", "B*", "S", "s", "b", "Tj", "TJ", "Do", "sh", "'", "BI":
			o = append(o, f)
		}
	}
	return o
}
