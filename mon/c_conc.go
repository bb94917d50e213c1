package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/gob"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/go-latex/latex"
	"github.com/go-latex/latex/ast"
	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/drawtex/drawimg"
	"github.com/go-latex/latex/font"
	"github.com/go-latex/latex/font/liberation"
	"github.com/go-latex/latex/font/lm"
	"github.com/go-latex/latex/font/ttf"
	"github.com/go-latex/latex/mtex"
)

// yieldRate makes the callbacks of the monitors give way to other goroutines:
// once in so many calls (0: never). It only changes while no goroutines run,
// and it is no atomic: synchronisation by the monitors would hide races.
var yieldRate int64

func maybeYield() {
	if yieldRate > 0 && rand.Int63()%yieldRate == 0 {
		runtime.Gosched()
	}
}

// yielding is a backend that gives way between its operations.
type yielding struct{ font.Backend }

func (y yielding) Metrics(sym string, f font.Font, dpi float64, math bool) font.Metrics {
	maybeYield()
	return y.Backend.Metrics(sym, f, dpi, math)
}

func (y yielding) RenderGlyph(px, py float64, f font.Font, sym string, dpi float64) {
	maybeYield()
	y.Backend.RenderGlyph(px, py, f, sym, dpi)
}

func (y yielding) RenderRectFilled(x1, y1, x2, y2 float64) {
	maybeYield()
	y.Backend.RenderRectFilled(x1, y1, x2, y2)
}

func (y yielding) Kern(f1 font.Font, s1 string, f2 font.Font, s2 string, dpi float64) float64 {
	maybeYield()
	return y.Backend.Kern(f1, s1, f2, s2, dpi)
}

func (y yielding) XHeight(f font.Font, dpi float64) float64 {
	maybeYield()
	return y.Backend.XHeight(f, dpi)
}

func (y yielding) UnderlineThickness(f font.Font, dpi float64) float64 {
	maybeYield()
	return y.Backend.UnderlineThickness(f, dpi)
}

type yieldWriter struct{ io.Writer }

func (w yieldWriter) Write(p []byte) (int, error) {
	maybeYield()
	return w.Writer.Write(p)
}

// Stressed is what goroutines running at the same time observed.
type Stressed struct {
	First    []string // the first result of each job
	Differ   [][2]int // goroutine and job of other results
	Other    []string // and those
	Runs     int      // jobs run
	Order    string   // events: the interleaving
	Overlaps int      // pairs of jobs of two goroutines that ran at the same time
	Fonts    [2]int   // number of distinct font sets handed out
}

// safeRun runs a job and turns panics into results.
func safeRun(j job) (res string) {
	defer func() {
		if e := recover(); e != nil {
			res = fmt.Sprintf("panic: %v\n%s", e, debug.Stack())
		}
	}()
	res, _ = j.run()
	return res
}

// stress runs jobs in n goroutines at the same time. The goroutines do not
// synchronise with each other: that would hide data races.
func stress(js []job, n int, seed int64) *Stressed {
	type event struct {
		g, i       int
		start, end time.Duration
		res        string
	}
	var (
		wg    sync.WaitGroup
		start = make(chan struct{})
		logs  = make([][]event, n)
		lms   = make([]*ttf.Fonts, n)
		libs  = make([]*ttf.Fonts, n)
		t0    = time.Now()
	)
	for g := 0; g < n; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			rnd := rand.New(rand.NewSource(seed + int64(g)*7919))
			perm := rnd.Perm(len(js))
			if g%2 == 0 {
				perm = perm[:1+rnd.Intn(len(js))]
			}
			fontsFirst := rnd.Intn(2) == 0
			<-start
			// first uses compete.
			if fontsFirst {
				if g%2 == 0 {
					lms[g], libs[g] = lm.Fonts(), liberation.Fonts()
				} else {
					libs[g], lms[g] = liberation.Fonts(), lm.Fonts()
				}
			}
			for _, i := range perm {
				e := event{g: g, i: i, start: time.Since(t0)}
				e.res = safeRun(js[i])
				e.end = time.Since(t0)
				logs[g] = append(logs[g], e)
				if rnd.Intn(3) == 0 {
					runtime.Gosched()
				}
			}
			if !fontsFirst {
				lms[g], libs[g] = lm.Fonts(), liberation.Fonts()
			}
			for _, fs := range []*ttf.Fonts{lms[g], libs[g]} {
				// what is handed out is complete.
				_ = fs.Default.NumGlyphs() + fs.Rm.NumGlyphs() + fs.It.NumGlyphs() + fs.Bf.NumGlyphs() + fs.BfIt.NumGlyphs()
			}
		}(g)
	}
	close(start)
	wg.Wait()

	st := &Stressed{First: make([]string, len(js))}
	var all []event
	for _, l := range logs {
		all = append(all, l...)
	}
	sort.SliceStable(all, func(i, j int) bool { return all[i].end < all[j].end })
	have := make([]bool, len(js))
	var order strings.Builder
	for k, e := range all {
		fmt.Fprintf(&order, "%d/%d ", e.g, e.i)
		st.Runs++
		for l := k - 1; l >= 0 && all[l].end > e.start; l-- {
			if all[l].g != e.g {
				st.Overlaps++
			}
		}
		switch {
		case !have[e.i]:
			have[e.i], st.First[e.i] = true, e.res
		case st.First[e.i] != e.res && len(st.Differ) < 4:
			st.Differ = append(st.Differ, [2]int{e.g, e.i})
			st.Other = append(st.Other, e.res)
		}
	}
	st.Order = order.String()
	for i, fs := range [][]*ttf.Fonts{lms, libs} {
		m := make(map[*ttf.Fonts]bool)
		for _, f := range fs {
			m[f] = true
		}
		st.Fonts[i] = len(m)
	}
	return st
}

// stressed checks the results of goroutines against those of one alone.
func stressed(c *Case, js []job, st *Stressed, n int, alone []string) {
	if len(st.Differ) > 0 {
		i := st.Differ[0][1]
		sameResult(c, js[i], fmt.Sprintf("in goroutine %d of %d", st.Differ[0][0], n), st.First[i], st.Other[0])
	}
	for i, j := range js {
		if st.First[i] == "" {
			continue
		}
		sameResult(c, j, fmt.Sprintf("with %d goroutines at work", n), alone[i], st.First[i])
	}
	if st.Fonts != [2]int{1, 1} {
		c.Failf("%d goroutines were given %d and %d different font sets", n, st.Fonts[0], st.Fonts[1])
	}
	c.Count("concurrent results compared", st.Runs)
	c.Count("pairs of jobs running at the same time", st.Overlaps)
	c.Set("distinct interleavings", st.Order)
	c.Distinct(fmt.Sprint(js, st.Order))
}

func concJobs(c *Case, n int) []job {
	js := make([]job, n)
	for i := range js {
		js[i] = newJob(c)
		if i > 0 && c.Intn(4) == 0 {
			js[i].Src = js[c.Intn(i)].Src
		}
		if c.Intn(8) == 0 && c.Intn(3) == 0 {
			js[i].Kind, js[i].Seed = "boxes", uint64(c.Int63())
		}
	}
	c.Input(fmt.Sprint(js))
	return js
}

func aloneResults(js []job) []string {
	o := make([]string, len(js))
	for i, j := range js {
		o[i] = safeRun(j)
	}
	return o
}

// stressProcess runs jobs in goroutines of a fresh process.
func stressProcess(c *Case, exe string, js []job, n int) *Stressed {
	file := filepath.Join(scratch(), "stress.gob")
	var raw bytes.Buffer
	if err := gob.NewEncoder(&raw).Encode(js); err != nil {
		panic(err)
	}
	if err := os.WriteFile(file, raw.Bytes(), 0o644); err != nil {
		panic(err)
	}
	cmd := exec.Command(exe, "helper", "stress", file, fmt.Sprint(n))
	cmd.Env = append(os.Environ(), fmt.Sprintf("GOMAXPROCS=%d", pick(c, []int{2, 4, 8, 16})))
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(60 * time.Second):
		cmd.Process.Kill()
		<-done
		c.Failf("%d goroutines are blocked", n)
	}
	if i := bytes.Index(errb.Bytes(), []byte("WARNING: DATA RACE")); i >= 0 {
		c.Failf("data race in a fresh process with %d goroutines:\n%s", n, head(errb.Bytes()[i:], 5000))
	}
	if err != nil {
		c.Failf("the process with %d goroutines fails: %v\n%s", n, err, head(errb.Bytes(), 4000))
	}
	st := new(Stressed)
	if err := gob.NewDecoder(&out).Decode(st); err != nil {
		c.Failf("the process with %d goroutines wrote something else on its standard output: %v", n, err)
	}
	return st
}

// meeting is a use of the library that calls back into its user, who does
// something there the first time.
type meeting struct {
	kind, src, set string
	inner          job
	meet           func()

	alone, got     string // results
	inAlone, inGot string // results of inner
	inCallback     bool
}

var meetingKinds = []string{"renderer", "backend", "writer", "visitor"}

func (m *meeting) compare(c *Case, when string) {
	if m.got != m.alone {
		c.Failf("%s %q: %s the result is %s, alone it is %s", m.kind, m.src, when, clip(m.got), clip(m.alone))
	}
	if m.inCallback {
		sameResult(c, m.inner, when, m.inAlone, m.inGot)
	}
}

func (m *meeting) run() (res string) {
	defer func() {
		if e := recover(); e != nil {
			res = fmt.Sprintf("panic: %v\n%s", e, debug.Stack())
		}
	}()
	var once sync.Once
	m.inCallback, m.inGot = false, ""
	called := func() {
		once.Do(func() {
			m.inCallback = true
			m.meet()
		})
	}
	switch m.kind {
	case "renderer":
		var cap captured
		if err := mtex.Render(callbackRenderer{&cap, called}, m.src, 12, 72, fonts()[m.set]); err != nil {
			return errString(err)
		}
		return fmt.Sprintf("%g %g\n", round(cap.w), round(cap.h)) + opsString(cap.ops)
	case "backend":
		cnv := drawtex.New()
		n, err := mtex.Parse(m.src, 12, 72, callbackBackend{newTTFOn(cnv, fonts()[m.set]), called})
		if err != nil {
			return errString(err)
		}
		return fmt.Sprintf("%g %g %g", round(n.Width()), round(n.Height()), round(n.Depth()))
	case "writer":
		var buf bytes.Buffer
		if err := mtex.Render(drawimg.NewRenderer(callbackWriter{&buf, called}), m.src, 12, 72, fonts()[m.set]); err != nil {
			return errString(err)
		}
		return fmt.Sprintf("%d bytes %x", buf.Len(), sha256.Sum256(buf.Bytes()))
	case "visitor":
		x, err := latex.ParseExpr(m.src)
		if err != nil {
			return errString(err)
		}
		var o strings.Builder
		ast.Inspect(x, func(n ast.Node) bool {
			called()
			fmt.Fprintf(&o, "%T ", n)
			return true
		})
		return o.String()
	}
	panic(m.kind)
}

type callbackRenderer struct {
	*captured
	called func()
}

func (r callbackRenderer) Render(w, h, dpi float64, cnv *drawtex.Canvas) error {
	r.called()
	return r.captured.Render(w, h, dpi, cnv)
}

type callbackBackend struct {
	font.Backend
	called func()
}

func (b callbackBackend) Metrics(sym string, f font.Font, dpi float64, math bool) font.Metrics {
	b.called()
	return b.Backend.Metrics(sym, f, dpi, math)
}

type callbackWriter struct {
	io.Writer
	called func()
}

func (w callbackWriter) Write(p []byte) (int, error) {
	w.called()
	return w.Writer.Write(p)
}

// within fails if the function does not return within minutes.
func (c *Case) within(what string, f func()) {
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		c.Failf("%s: blocked", what)
	}
}

func init() {
	register(&Check{
		ID:          "C21",
		Race:        true,
		Rule:        "a case runs independent jobs (parsing, layout, rendering, rasterising, boxes, sets) in goroutines at the same time under the race detector and compares all results with those of the jobs run alone; distinct by jobs and by the order in which they ended",
		Assumptions: []string{"the race detector sees the accesses of the executions that happened; schedules are varied, not enumerated"},
		Need:        []string{"concurrent results compared", "pairs of jobs running at the same time", "cold starts", "trees shared", "cold starts at full speed", "meetings inside callbacks", "calls inside callbacks"},
		Families: []*Family{
			{Name: "cold start", Quick: 24, Thorough: 600, CPU: 300, Run: func(c *Case) {
				js := concJobs(c, 6+c.Intn(6))
				n := 2 + c.Intn(15)
				exe := os.Getenv("VMON_RACE")
				if exe == "" {
					exe, _ = os.Executable()
				}
				st := stressProcess(c, exe, js, n)
				stressed(c, js, st, n, aloneResults(js))
				c.Count("cold starts", 1)
				c.Sample(fmt.Sprint(n, " goroutines: ", js[0], "; order ", clip(st.Order)))
			}},
			{Name: "full speed", Quick: 48, Thorough: 1500, CPU: 300, Run: func(c *Case) {
				// without the race detector, which slows everything down.
				js := concJobs(c, 6+c.Intn(10))
				n := 2 + c.Intn(31)
				exe := strings.TrimSuffix(os.Getenv("VMON_RACE"), "-race")
				if exe == "" {
					exe, _ = os.Executable()
				}
				st := stressProcess(c, exe, js, n)
				stressed(c, js, st, n, aloneResults(js))
				c.Count("cold starts at full speed", 1)
			}},
			{Name: "mixed", Quick: 240, Thorough: 12000, CPU: 300, Run: func(c *Case) {
				js := concJobs(c, 4+c.Intn(8))
				n := 2 + c.Intn(7)
				yieldRate = pick(c, []int64{0, 1, 3, 17, 100})
				defer func() { yieldRate = 0 }()
				var alone []string
				before := c.Intn(2) == 0
				if before {
					alone = aloneResults(js)
				}
				st := stress(js, n, c.Int63())
				if !before {
					alone = aloneResults(js)
				}
				stressed(c, js, st, n, alone)
				c.Sample(fmt.Sprint(n, " goroutines: ", js[0], "; order ", clip(st.Order)))
			}},
			{Name: "one kind", Quick: 160, Thorough: 8000, CPU: 300, Run: func(c *Case) {
				// many jobs of one kind: the same tables and fonts at the same time.
				js := concJobs(c, 4+c.Intn(5))
				kind, set := pick(c, jobKinds), pick(c, fontNames)
				for i := range js {
					js[i].Kind, js[i].Set = kind, set
				}
				n := 2 + c.Intn(7)
				yieldRate = pick(c, []int64{0, 2, 13})
				defer func() { yieldRate = 0 }()
				st := stress(js, n, c.Int63())
				stressed(c, js, st, n, aloneResults(js))
				c.Set("kinds", kind+set)
			}},
			{Name: "meetings", Quick: 120, Thorough: 6000, CPU: 300, Run: func(c *Case) {
				// all goroutines are inside a callback of theirs at the same
				// time, and use the library there: what holds a lock, or shared
				// state, across the callback shows.
				n := 2 + c.Intn(9)
				meets := make([]*meeting, n)
				var jobs, inner []job
				for g := range meets {
					m := &meeting{kind: pick(c, meetingKinds), set: pick(c, fontNames)}
					_, m.src = drawable(c, fontGrammar(c), c.Intn(3), true)
					jobs = append(jobs, job{Kind: m.kind, Src: m.src, Set: m.set})
					in := concJobs(c, 1)[0]
					m.inner, inner = in, append(inner, in)
					meets[g] = m
				}
				c.Input(fmt.Sprint(jobs, " inside: ", inner))
				for _, m := range meets {
					// alone, and alone within a callback.
					m.meet = func() {}
					m.alone = m.run()
					m.inAlone = safeRun(m.inner)
					m.meet = func() { m.inGot = safeRun(m.inner) }
					c.within("a call inside a callback", func() { m.got = m.run() })
					m.compare(c, "with a call inside a callback")
					c.Count("calls inside callbacks", 1)
				}
				var arrived int64
				all := make(chan struct{})
				arrive := func() {
					if atomic.AddInt64(&arrived, 1) == int64(n) {
						close(all)
					}
				}
				together := c.Intn(3) > 0
				c.within(fmt.Sprint(n, " goroutines that wait for each other in callbacks"), func() {
					var wg sync.WaitGroup
					for _, m := range meets {
						wg.Add(1)
						go func(m *meeting) {
							defer wg.Done()
							came := false
							m.meet = func() {
								came = true
								arrive()
								if together {
									<-all
								}
								m.inGot = safeRun(m.inner)
								if !together {
									<-all
								}
							}
							m.got = m.run()
							if !came {
								arrive()
							}
						}(m)
					}
					wg.Wait()
				})
				for _, m := range meets {
					m.compare(c, fmt.Sprintf("with %d goroutines in callbacks", n))
				}
				c.Count("meetings inside callbacks", 1)
				c.Distinct(fmt.Sprint(jobs, inner))
				c.Sample(fmt.Sprint(n, " goroutines: ", jobs[0], " and inside ", inner[0]))
			}},
			{Name: "shared", Quick: 200, Thorough: 8000, CPU: 300, Run: func(c *Case) {
				// readers of one tree, one font set and one drawing.
				_, src := drawable(c, fontGrammar(c), 1+c.Intn(4), true)
				x, err := latex.ParseExpr(src)
				if err != nil {
					c.Failf("%q: %v", src, err)
				}
				want := digestAST(x) + printed(x)
				set := pick(c, fontNames)
				r, err := render(src, 12, 72, fonts()[set])
				if err != nil {
					c.Failf("%q: %v", src, err)
				}
				drawing := opsString(r.ops)
				n := 2 + c.Intn(7)
				var wg sync.WaitGroup
				res := make([]string, n)
				start := make(chan struct{})
				for g := 0; g < n; g++ {
					wg.Add(1)
					go func(g int) {
						defer wg.Done()
						defer func() {
							if e := recover(); e != nil {
								res[g] = fmt.Sprintf("panic: %v\n%s", e, debug.Stack())
							}
						}()
						<-start
						for k := 0; k < 4; k++ {
							count := 0
							ast.Inspect(x, func(m ast.Node) bool {
								if m != nil {
									count++
								}
								return true
							})
							if got := digestAST(x) + printed(x); got != want {
								res[g] = "the tree is " + got
								return
							}
							// a backend of one's own, with the same fonts.
							cnv := drawtex.New()
							be := newTTFOn(cnv, fonts()[set])
							for _, sym := range []string{"x", "+", `\alpha`, `\sum`, "1"} {
								f := font.Font{Name: "default", Type: "it", Size: 10}
								be.Metrics(sym, f, 72, true)
								be.Kern(f, "x", f, "y", 72)
								be.XHeight(f, 72)
								be.RenderGlyph(1, 2, f, sym, 72)
							}
							r, err := render(src, 12, 72, fonts()[set])
							if err != nil {
								res[g] = err.Error()
								return
							}
							if got := opsString(r.ops); got != drawing {
								res[g] = "the drawing is " + got
								return
							}
						}
					}(g)
				}
				close(start)
				wg.Wait()
				for g, s := range res {
					if s != "" {
						c.Failf("%q: goroutine %d of %d: %s", src, g, n, s)
					}
				}
				c.Count("trees shared", n)
				c.Distinct(src)
				c.Sample(src)
			}},
		},
	})
}
