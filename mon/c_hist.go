package main

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"

	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/font"
	"github.com/go-latex/latex/font/liberation"
	"github.com/go-latex/latex/font/lm"
	"github.com/go-latex/latex/font/ttf"
	"github.com/go-latex/latex/mtex"
	"github.com/go-latex/latex/mtex/symbols"
	"github.com/go-latex/latex/tex"
	"golang.org/x/image/font/sfnt"
)

// newTTFOn is a backend that draws on a canvas.
func newTTFOn(cnv *drawtex.Canvas, fs *ttf.Fonts) *ttf.Backend {
	if fs == nil {
		return ttf.New(cnv)
	}
	return ttf.NewFrom(cnv, fs)
}

// fontsIntact checks that the font sets are what they were.
type fontsWatch struct {
	sets map[string]*ttf.Fonts
	was  map[string]ttf.Fonts
}

func watchFonts() *fontsWatch {
	w := &fontsWatch{sets: map[string]*ttf.Fonts{}, was: map[string]ttf.Fonts{}}
	for name, fs := range fonts() {
		if fs != nil {
			w.sets[name] = fs
			w.was[name] = *fs
		}
	}
	return w
}

func (w *fontsWatch) check(c *Case, when string) {
	for name, fs := range w.sets {
		if *fs != w.was[name] {
			c.Failf("%s: the font set %s has been changed", when, name)
		}
	}
	if lm.Fonts() != w.sets["lm"] || liberation.Fonts() != w.sets["liberation"] {
		c.Failf("%s: the bundled font sets are other ones", when)
	}
	for _, name := range []string{"lm", "liberation"} {
		own := ownFonts(name)
		fs := w.sets[name]
		for i, f := range []*sfnt.Font{fs.Default, fs.Rm, fs.It, fs.Bf, fs.BfIt} {
			o := []*sfnt.Font{own.Default, own.Rm, own.It, own.Bf, own.BfIt}[i]
			if psName(f) != psName(o) || f.NumGlyphs() != o.NumGlyphs() {
				c.Failf("%s: font %d of %s is %s instead of %s", when, i, name, psName(f), psName(o))
			}
		}
	}
	c.Count("font sets checked", 1)
}

// atlas are jobs that together use all of the language.
func atlas(c *Case) (js []job) {
	all := append([]string{}, symbolMacros...)
	all = append(all, functionMacros...)
	all = append(all, `\frac{a}{b}`, `\dfrac{a}{b}`, `\tfrac{a}{b}`, `\binom{a}{b}`, `\sqrt{a}`, `\sqrt[3]{a}`, `\overline{a}`, `\hspace{1.5}`, `\,`, `\;`, `\:`, `\!`, `\ `, `\quad`, `\qquad`, "12.5", "1,2", "x-y", "a=b")
	for len(all) > 0 {
		n := min(48, len(all))
		src := "$"
		for _, s := range all[:n] {
			src += s + " "
		}
		src, all = src+"$", all[n:]
		js = append(js, job{Kind: "render", Src: src, Size: 12, DPI: 72, Set: pick(c, fontNames)})
	}
	return js
}

func openFiles() int {
	fs, _ := os.ReadDir("/proc/self/fd")
	return len(fs)
}

func sameResult(c *Case, j job, when, want, got string) {
	if want == got {
		return
	}
	i := 0
	for i < len(want) && i < len(got) && want[i] == got[i] {
		i++
	}
	i = max(0, i-60)
	c.Failf("%v: the result %s differs: ...%s\n instead of: ...%s", j, when, clip(got[i:]), clip(want[i:]))
}

func init() {
	register(&Check{
		ID:   "C26",
		Rule: "a case is a history of jobs (parsing, layout, rendering, failing ones) in which each job occurs several times, at random places; all results of a job must be the same, and the same as in a fresh process; what earlier jobs returned must stay as it was; distinct by history",
		Need: []string{"repeated results compared", "failed jobs", "results kept and compared later", "results changed by their owner", "results of fresh processes", "font sets checked", "shared backends", "similar jobs told apart", "calls of one job", "jobs of the atlas drawn", "font sets of users"},
		Families: []*Family{
			{Name: "histories", Quick: 2400, Thorough: 60000, Run: func(c *Case) {
				fw := watchFonts()
				jobs := make([]job, 2+c.Intn(8))
				for i := range jobs {
					jobs[i] = newJob(c)
					if i > 0 && c.Intn(3) == 0 {
						// the same source in another way.
						src := jobs[c.Intn(i)].Src
						jobs[i].Src = src
					}
					if i > 0 && c.Intn(4) == 0 {
						// the same in all but one respect.
						j := jobs[c.Intn(i)]
						switch c.Intn(4) {
						case 0:
							j.Set = pick(c, fontNames)
						case 1:
							j.Size = jobs[i].Size
						case 2:
							j.DPI = jobs[i].DPI
						case 3:
							j.Kind = jobs[i].Kind
						}
						jobs[i] = j
						c.Count("jobs that differ in one respect", 1)
					}
				}
				c.Input(fmt.Sprint(jobs))
				first := make([]string, len(jobs))
				seen := make([]bool, len(jobs))
				var held []*kept
				var order []string
				for n := 3 * len(jobs); n > 0; n-- {
					i := c.Intn(len(jobs))
					res, k := jobs[i].run()
					order = append(order, fmt.Sprint(i))
					if !seen[i] {
						seen[i], first[i] = true, res
						if strings.HasPrefix(res, "error: ") {
							c.Count("failed jobs", 1)
						}
					} else {
						sameResult(c, jobs[i], "after others ("+strings.Join(order, " ")+")", first[i], res)
						c.Count("repeated results compared", 1)
					}
					if k != nil && (len(held) < 8 || c.Intn(4) == 0) {
						held = append(held, k)
					}
				}
				for _, k := range held {
					if now := k.describe(); now != k.was {
						sameResult(c, k.job, "returned earlier, looked at again after later calls,", k.was, now)
					}
					c.Count("results kept and compared later", 1)
				}
				fw.check(c, "after a history")
				c.Distinct(fmt.Sprint(jobs, order))
				c.Sample(fmt.Sprint(jobs[0], " ", strings.Join(order, " ")))
			}},
			{Name: "twins", Quick: 6000, Thorough: 200000, Run: func(c *Case) { twinJobs(c) }},
			{Name: "long history", Quick: 8, Thorough: 64, CPU: 200, Run: func(c *Case) {
				// some jobs, with thousands of others between their repetitions.
				jobs := make([]job, 12)
				first := make([]string, len(jobs))
				for i := range jobs {
					jobs[i] = newJob(c)
					first[i], _ = jobs[i].run()
				}
				c.Input(fmt.Sprint(jobs))
				all := atlas(c)
				for _, j := range all {
					res, _ := j.run()
					jobs, first = append(jobs, j), append(first, res)
				}
				n := 3000
				if c.Thorough() {
					n = 30000
				}
				for i := 0; i < n; i++ {
					j := newJob(c)
					if j.Kind == "png" || j.Kind == "bad" {
						j.Kind = "render"
					}
					if i%4 == 0 {
						// and variations of the same ones.
						j.Src = mutate(c, pick(c, jobs).Src, 1)
					}
					j.run()
					c.Count("jobs in between", 1)
				}
				for i, j := range jobs {
					res, _ := j.run()
					sameResult(c, j, fmt.Sprintf("after %d others", n), first[i], res)
					c.Count("repeated results compared", 1)
				}
				c.Distinct(fmt.Sprint(jobs))
			}},
			{Name: "endurance", Quick: len(jobKinds), Thorough: 4 * len(jobKinds), CPU: 600, Run: func(c *Case) {
				// one job, small, again and again: what counts calls, or leaks.
				j := newJob(c)
				j.Kind, j.Size, j.DPI = jobKinds[c.Index%len(jobKinds)], 12, 72
				j.Src = pick(c, []string{"$x+y$", "$\\frac{a}{b}$", "$\\sqrt[3]{x}$", "a b", "$\\sin x$", "$1.5,2$", "$\\alpha\\in\\hbar$", "$\\overline{x}$"})
				n := map[string]int{"parse": 70000, "sets": 70000, "png": 4000, "bad": 4000, "pdf": 3000}[j.Kind]
				if n == 0 {
					n = 20000
				}
				if c.Thorough() {
					n *= 8
				}
				c.Input(fmt.Sprint(n, " times ", j))
				files, routines := openFiles(), runtime.NumGoroutine()
				all := atlas(c)
				var wants []string
				for _, a := range all {
					res, k := a.run()
					if k != nil {
						c.Count("jobs of the atlas drawn", 1)
					}
					wants = append(wants, res)
				}
				want, _ := j.run()
				for i := 1; i < n; i++ {
					res := j.do(&kept{})
					if res != want {
						sameResult(c, j, fmt.Sprintf("of call %d", i), want, res)
					}
				}
				for i, a := range all {
					res, _ := a.run()
					sameResult(c, a, fmt.Sprintf("after %d times %v", n, j), wants[i], res)
				}
				// other cases may have some open: only many more are a leak.
				if now := openFiles(); now > files+500 {
					c.Failf("%d files are open after %d calls, %d before", now, n, files)
				}
				if now := runtime.NumGoroutine(); now > routines+500 {
					c.Failf("%d goroutines run after %d calls, %d before", now, n, routines)
				}
				c.Count("repeated results compared", n+len(all))
				c.Count("calls of one job", n)
				c.Distinct(fmt.Sprint(j))
			}},
			{Name: "failures before", Quick: 24, Thorough: 600, CPU: 120, Run: func(c *Case) {
				// jobs, small and large, before and after hundreds of failing ones
				// of one kind, and after hundreds of successful ones.
				jobs := make([]job, 6)
				var first []string
				for i := range jobs {
					jobs[i] = newJob(c)
					if i%2 == 0 {
						jobs[i].Kind = pick(c, []string{"render", "parse", "ttf"})
						_, jobs[i].Src = wideExpr(c, 1<<(5+c.Intn(8)))
					}
				}
				c.Input(fmt.Sprint(jobs))
				// without any history, in a process of their own.
				first = inProcess(c, jobs)
				kind := pick(c, []string{"render", "parse", "ttf", "png"})
				srcs := []string{"{", "$", "}", `\nope`, `$\frac{a}$`, "$x^2$", `$\mathbf{x}$`, `\frac{1}`, `$\hspace{a}$`, `$\sqrt[`, "x_1", strings.Repeat("{", 2000), `$\left(x$`, `\textbf{x}`}
				if c.Intn(3) == 0 {
					srcs = []string{"$x$", "a", "", `$\frac{a}{b}$`, `$\sqrt{x}$`}
				}
				if c.Intn(2) == 0 {
					srcs = []string{pick(c, srcs)}
				}
				for n := 100 + c.Intn(900); n > 0; n-- {
					j := newJob(c)
					j.Kind, j.Src = kind, pick(c, srcs)
					if s, _ := j.run(); strings.HasPrefix(s, "error: ") {
						c.Count("failed jobs", 1)
					}
					c.Count("jobs in between", 1)
				}
				for i, j := range jobs {
					res, _ := j.run()
					sameResult(c, j, fmt.Sprintf("after many %s jobs of %.200q", kind, srcs), first[i], res)
					c.Count("repeated results compared", 1)
				}
				c.Distinct(fmt.Sprint(jobs))
			}},
			{Name: "fresh process", Quick: 40, Thorough: 1500, CPU: 120, Run: func(c *Case) {
				// a history in this process, each job alone in a process of its own,
				// and the history backwards in yet another.
				jobs := make([]job, 6)
				for i := range jobs {
					jobs[i] = newJob(c)
				}
				c.Input(fmt.Sprint(jobs))
				var here []string
				for _, j := range jobs {
					s, _ := j.run()
					here = append(here, s)
				}
				one := c.Intn(len(jobs))
				alone := inProcess(c, jobs[one:one+1])
				sameResult(c, jobs[one], "in a fresh process", alone[0], here[one])
				var back []job
				for i := range jobs {
					back = append(back, jobs[len(jobs)-1-i])
				}
				other := inProcess(c, back)
				for i := range jobs {
					sameResult(c, jobs[i], "in another order, in another process,", other[len(jobs)-1-i], here[i])
				}
				c.Count("results of fresh processes", len(jobs)+1)
				c.Distinct(fmt.Sprint(jobs))
				c.Sample(jobs[0].String())
			}},
			{Name: "fonts of a user", Quick: 3000, Thorough: 60000, Run: func(c *Case) {
				// a set made by the user, with gaps, stays as it is.
				own := ownFonts(pick(c, fontNames))
				slot := func() *sfnt.Font {
					return pick(c, []*sfnt.Font{nil, own.Default, own.Rm, own.It, own.Bf, own.BfIt})
				}
				fs := &ttf.Fonts{Default: slot(), Rm: slot(), It: slot(), Bf: slot(), BfIt: slot()}
				was := *fs
				intact := func(when string) {
					if *fs != was {
						c.Failf("%s changed the font set of its caller", when)
					}
					c.Count("font sets of users", 1)
				}
				j := newJob(c)
				c.Input(fmt.Sprint(j, was.Default != nil, was.Rm != nil, was.It != nil, was.Bf != nil, was.BfIt != nil))
				be := ttf.NewFrom(drawtex.New(), fs)
				intact("NewFrom")
				func() {
					defer func() { recover() }() // of fonts that are not there
					for _, typ := range []string{"rm", "it", "bf", "default", "regular"} {
						be.Metrics("x", font.Font{Name: "default", Type: typ, Size: 12}, 72, true)
					}
				}()
				intact("the backend")
				func() {
					defer func() { recover() }()
					mtex.Render(new(captured), j.Src, 12, 72, fs)
				}()
				intact("Render")
				c.Distinct(fmt.Sprint(j.Src, was))
			}},
			{Name: "shared backend", Quick: 1500, Thorough: 60000, Run: func(c *Case) {
				// one backend for many expressions, failing ones among them.
				set := pick(c, fontNames)
				cnv := drawtex.New()
				be := newTTFOn(cnv, fonts()[set])
				var log []string
				for n := 2 + c.Intn(6); n > 0; n-- {
					j := newJob(c)
					j.Kind, j.Set = "ttf", set
					if c.Intn(3) > 0 {
						_, j.Src = drawable(c, fontGrammar(c), c.Intn(4), true)
					}
					if strings.Contains(j.Src, "-") {
						// see the known findings of C20.
						j.Src = strings.ReplaceAll(j.Src, "-", "+")
					}
					log = append(log, j.Src)
					c.Input(strings.Join(log, "\n"))
					want, _ := j.run()
					n0 := len(cnv.Ops())
					before := opsString(cnv.Ops())
					got := ""
					n, err := mtex.Parse(j.Src, j.Size, 72, be)
					if err != nil {
						got = errString(err)
					} else if t, ok := n.(tex.Tree); ok {
						var s tex.Ship
						s.Call(0, 0, t)
						got = opsString(cnv.Ops()[n0:])
					}
					sameResult(c, j, "with a backend that has been used before", want, got)
					if opsString(cnv.Ops()[:n0]) != before {
						c.Failf("%v changed what was drawn before on the same canvas", j)
					}
					c.Count("shared backends", 1)
				}
				c.Distinct(strings.Join(log, "\n"))
			}},
			{Name: "results changed by their owner", Quick: 3000, Thorough: 100000, Run: func(c *Case) {
				// what is handed out belongs to the caller: changing it must not
				// show in other results, of the same expression or not.
				jobs := make([]job, 1+c.Intn(4))
				for i := range jobs {
					jobs[i] = newJob(c)
					if c.Intn(3) == 0 {
						jobs[i].Src = pick(c, []string{"x", "", "$x$", "a b", "$\\frac{a}{b}$", "$\\sqrt[3]{x}$", "$\\alpha+1$"})
					}
				}
				c.Input(fmt.Sprint(jobs))
				var want []string
				for _, j := range jobs {
					s, k := j.run()
					want = append(want, s)
					_, twin := j.run()
					if k == nil {
						continue
					}
					k.spoil(c)
					if twin != nil {
						sameResult(c, j, "returned by another call and then changed by its owner,", twin.was, twin.describe())
					}
					c.Count("results changed by their owner", 1)
				}
				for i, j := range jobs {
					s, _ := j.run()
					sameResult(c, j, "after the owner of earlier results changed them,", want[i], s)
					c.Count("repeated results compared", 1)
				}
				keys := symbols.BinaryOperators.Keys()
				was := strings.Join(keys, " ")
				for i := range keys {
					keys[i] = "spoilt"
				}
				if now := strings.Join(symbols.BinaryOperators.Keys(), " "); now != was {
					c.Failf("changing the listed keys of a set changes the set: %s instead of %s", now, was)
				}
				c.Distinct(fmt.Sprint(jobs))
				c.Sample(jobs[0].String())
			}},
			{Name: "caller's values", Quick: 3000, Thorough: 100000, Run: func(c *Case) {
				// font sets are read only, and changing one's own set after
				// rendering changes what is rendered afterwards only.
				_, src := drawable(c, fontGrammar(c), c.Intn(4), true)
				base := *fonts()[pick(c, fontNames[1:])]
				own := base
				r1, err := render(src, 12, 72, &own)
				if err != nil {
					c.Failf("%q: %v", src, err)
				}
				if own != base {
					c.Failf("%q: rendering changed the font set", src)
				}
				was := opsString(r1.cnv.Ops())
				alt := *fonts()[pick(c, fontNames[1:])]
				if c.Intn(2) == 0 {
					// some of the faces are the same ones.
					x := *fonts()[pick(c, fontNames[1:])]
					alt = base
					for _, p := range []struct{ to, from **sfnt.Font }{{&alt.Default, &x.Default}, {&alt.Rm, &x.Rm}, {&alt.It, &x.It}, {&alt.Bf, &x.Bf}} {
						if c.Intn(2) == 0 {
							*p.to = *p.from
						}
					}
				}
				own = alt
				if opsString(r1.cnv.Ops()) != was {
					c.Failf("%q: the drawing follows later changes of the font set", src)
				}
				r2, err := render(src, 12, 72, &own)
				if err != nil {
					c.Failf("%q: %v", src, err)
				}
				r3, err := render(src, 12, 72, &alt)
				if err != nil {
					c.Failf("%q: %v", src, err)
				}
				if opsString(r2.ops) != opsString(r3.ops) {
					c.Failf("%q: the drawing depends on fonts used before", src)
				}
				for _, r := range []struct {
					*captured
					fs ttf.Fonts
				}{{r1, base}, {r2, alt}} {
					// nothing is drawn with the fonts of others.
					for _, op := range r.ops {
						if g, ok := op.(drawtex.GlyphOp); ok && g.Glyph.Font != r.fs.Rm && g.Glyph.Font != r.fs.It && g.Glyph.Font != r.fs.Default && g.Glyph.Font != r.fs.Bf {
							c.Failf("%q: %s is drawn with a font that isn't of the set", src, opString(op))
						}
					}
				}
				// a caller may draw more on the canvas it has been handed.
				r2.cnv.RenderRectFilled(0, 0, 1, 1)
				r2.cnv.RenderGlyph(1, 1, drawtex.Glyph{Symbol: "x", Font: own.Rm, Size: 1})
				if opsString(r3.cnv.Ops()) != opsString(r3.ops) || opsString(r1.cnv.Ops()) != was {
					c.Failf("%q: drawing on one canvas changes another", src)
				}
				r4, err := render(src, 12, 72, &alt)
				if err != nil || opsString(r4.ops) != opsString(r3.ops) {
					c.Failf("%q: drawing on a canvas changes later results", src)
				}
				// fonts with other metrics in between.
				be := newTTF(&base)
				m1 := be.Metrics("x", font.Font{Type: "rm", Size: 12}, 72, false)
				newTTF(&alt).Metrics("x", font.Font{Type: "rm", Size: 12}, 72, false)
				if m2 := be.Metrics("x", font.Font{Type: "rm", Size: 12}, 72, false); m1 != m2 {
					c.Failf("the metrics of a backend depend on another backend")
				}
				c.Count("canvases compared", 4)
				c.Distinct(src)
				c.Sample(src)
			}},
		},
	})
}

// inProcess runs jobs in a process of their own.
func inProcess(c *Case, jobs []job) []string {
	file := filepath.Join(scratch(), "jobs.json")
	var raw bytes.Buffer
	if err := gob.NewEncoder(&raw).Encode(jobs); err != nil {
		panic(err)
	}
	if err := os.WriteFile(file, raw.Bytes(), 0o644); err != nil {
		panic(err)
	}
	exe, _ := os.Executable()
	cmd := exec.Command(exe, "helper", "jobs", file)
	out, err := cmd.Output()
	if err != nil {
		var tail []byte
		if ee, ok := err.(*exec.ExitError); ok {
			tail = ee.Stderr
		}
		c.Failf("the process that runs %v fails: %v\n%s", jobs, err, head(tail, 3000))
	}
	var res []string
	if err := gob.NewDecoder(bytes.NewReader(out)).Decode(&res); err != nil || len(res) != len(jobs) {
		c.Failf("the process that runs %v wrote %q on its standard output", jobs, head(out, 300))
	}
	return res
}
