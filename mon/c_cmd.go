package main

import (
	"bytes"
	"fmt"
	"io"
	"io/fs"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/go-latex/latex/drawtex/drawimg"
	"github.com/go-latex/latex/mtex"
)

// ran is one execution of the command.
type ran struct {
	args           []string
	code           int
	stdout, stderr string
}

// snapshot reads all files below a directory.
func snapshot(dir string) map[string]string {
	m := make(map[string]string)
	filepath.WalkDir(dir, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(dir, path)
		switch {
		case d.IsDir():
			m[rel+"/"] = ""
		case d.Type().IsRegular():
			raw, _ := os.ReadFile(path)
			m[rel] = string(raw)
		default:
			to, _ := os.Readlink(path)
			m[rel] = d.Type().String() + to
		}
		return nil
	})
	return m
}

func changes(a, b map[string]string) []string {
	var o []string
	for _, k := range sortedKeys(b) {
		if v, ok := a[k]; !ok {
			o = append(o, "+"+k)
		} else if v != b[k] {
			o = append(o, "*"+k)
		}
	}
	for _, k := range sortedKeys(a) {
		if _, ok := b[k]; !ok {
			o = append(o, "-"+k)
		}
	}
	return o
}

// runCmd runs the command in a directory.
func runCmd(c *Case, dir string, args ...string) *ran {
	exe := os.Getenv("VMON_CMD")
	if exe == "" {
		panic("VMON_CMD is not set")
	}
	r := &ran{args: args}
	c.Input(strings.Join(args, " "))
	cmd := exec.Command(exe, args...)
	cmd.Dir = dir
	tmp := filepath.Join(filepath.Dir(dir), "tmp")
	cmd.Env = []string{"HOME=" + filepath.Join(filepath.Dir(dir), "home"), "TMPDIR=" + tmp, "PATH=" + os.Getenv("PATH")}
	if c.Intn(3) == 0 {
		// an environment that is poor or odd.
		cmd.Env = []string{}
		for _, v := range []string{
			"HOME=" + pick(c, []string{"", "/nonexistent", filepath.Join(filepath.Dir(dir), "home")}),
			"TMPDIR=" + pick(c, []string{tmp + "-none", "/dev/null", tmp}),
			"PATH=", "LANG=de_DE.UTF-8", "LC_ALL=C", "DEBUG=1", "DISPLAY=:99", "XDG_CACHE_HOME=/nonexistent", "TERM=dumb", "PWD=/nonexistent", "SOURCE_DATE_EPOCH=1", "TZ=Asia/Tokyo", "NO_COLOR=1",
		} {
			if c.Intn(2) == 0 {
				cmd.Env = append(cmd.Env, v)
			}
		}
		if len(cmd.Env) == 0 {
			cmd.Env = []string{"EMPTY=1"} // none would be that of this process.
		}
		c.Count("commands in odd environments", 1)
		c.Input(strings.Join(args, " ") + "\nenvironment: " + strings.Join(cmd.Env, " "))
	}
	if c.Intn(3) == 0 {
		// something that is not for the command.
		cmd.Stdin = strings.NewReader(pick(c, []string{"$q$", "$q$\n", "x", strings.Repeat("y\n", 100)}))
	}
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(60 * time.Second):
		cmd.Process.Kill()
		<-done
		c.Failf("the command does not end: %q", args)
	}
	if err != nil {
		r.code = cmd.ProcessState.ExitCode()
		if r.code < 0 {
			c.Failf("the command dies: %v\n%s", err, head(errb.Bytes(), 2000))
		}
	}
	r.stdout, r.stderr = out.String(), errb.String()
	if strings.Contains(r.stderr, "goroutine ") && strings.Contains(r.stderr, "panic: ") {
		c.Failf("the command panics: %q\n%s", args, head(errb.Bytes(), 3000))
	}
	c.Count("commands run", 1)
	return r
}

// place of work: everything that the command could touch by default.
func workplace(c *Case) (work string) {
	base := filepath.Join(scratch(), "cmd")
	os.RemoveAll(base)
	work = filepath.Join(base, "work")
	for _, d := range []string{work, filepath.Join(base, "home"), filepath.Join(base, "tmp")} {
		if err := os.MkdirAll(d, 0o755); err != nil {
			panic(err)
		}
	}
	// bystanders.
	for _, f := range []string{"other.png", "img.png", "a.txt", "out.pdf", "out.png~", "out.png.bak", "out.png.tmp", "out.tmp", ".out.png.swp", "#out.png#", "out.PNG", "out", "out.tex", "out.log", "out2.png", "ooo.png"} {
		os.WriteFile(filepath.Join(work, f), []byte(strings.Repeat(f, 10)), 0o644)
	}
	if c.Intn(2) == 0 {
		// of an earlier run.
		os.WriteFile(filepath.Join(work, "out.png"), bytes.Repeat([]byte("#"), pick(c, []int{0, 3, 300000})), 0o644)
	}
	return work
}

func libraryPNG(src string, size, dpi float64) ([]byte, error) {
	var buf bytes.Buffer
	// the command uses the Liberation fonts.
	err := mtex.Render(drawimg.NewRenderer(&buf), src, size, dpi, fonts()["liberation"])
	return buf.Bytes(), err
}

// options are the options of one run, in one of the ways of writing them.
type options struct {
	size, dpi string // empty: default
	out       string
}

func number(c *Case, vs []float64) string {
	v := pick(c, vs)
	switch c.Intn(4) {
	case 3:
		if c.Intn(4) == 0 {
			// no size, or nearly none.
			return pick(c, []string{"0", "-12", "NaN", "Inf", "-Inf", "1e-3", "0x10", "1_0"})
		}
	case 0:
		v = math.Round(v*100*(0.5+c.Float64())) / 100
	case 1:
		return strconv.FormatFloat(v, 'e', -1, 64)
	}
	return strconv.FormatFloat(v, 'g', -1, 64)
}

func (o options) args(c *Case) []string {
	var parts [][]string
	add := func(name, v string) {
		if v == "" {
			return
		}
		dash := pick(c, []string{"-", "--"})
		if c.Intn(2) == 0 {
			parts = append(parts, []string{dash + name + "=" + v})
		} else {
			parts = append(parts, []string{dash + name, v})
		}
	}
	add("font-size", o.size)
	add("dpi", o.dpi)
	add("o", o.out)
	c.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	var args []string
	for _, p := range parts {
		args = append(args, p...)
	}
	if c.Intn(8) == 0 {
		args = append(args, "-gui=false")
	}
	return args
}

func (o options) values() (size, dpi float64, out string) {
	size, dpi, out = 12, 72, "out.png"
	if o.size != "" {
		size = parsed(o.size)
	}
	if o.dpi != "" {
		dpi = parsed(o.dpi)
	}
	if o.out != "" {
		out = o.out
	}
	return size, dpi, out
}

// parsed is the value of a number on the command line; bad ones are NaN.
func parsed(s string) float64 {
	v, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return math.NaN()
	}
	return v
}

func newOptions(c *Case) options {
	var o options
	if c.Intn(3) > 0 {
		o.size = number(c, []float64{12, 10, 20, 7.5, 30, 1})
	}
	if c.Intn(3) > 0 {
		o.dpi = number(c, []float64{72, 96, 100, 150, 300, 36})
	}
	return o
}

// loud checks a failure.
func loud(c *Case, r *ran, what string) {
	if r.code == 0 {
		c.Failf("%s: exit status zero of %q", what, r.args)
	}
	if strings.TrimSpace(r.stderr) == "" {
		c.Failf("%s: no message on standard error of %q", what, r.args)
	}
	c.Set("messages", what+r.stderr)
}

func init() {
	register(&Check{
		ID:          "C24",
		Rule:        "a case runs the built command in a directory of its own and compares its exit status, its messages and all files with the image the library renders; distinct by arguments and state of the output file",
		Need:        []string{"images written to pipes", "commands run", "commands in odd environments", "images compared", "failed commands", "defaults used", "existing files replaced", "outputs that cannot be written", "wrong usages"},
		Assumptions: []string{"the GUI mode is not run (no display)"},
		Families: []*Family{
			{Name: "images", Quick: 3000, Thorough: 30000, Run: func(c *Case) {
				work := workplace(c)
				_, src := drawable(c, fontGrammar(c), c.Intn(4), true)
				switch {
				case c.Intn(8) == 0:
					src = pick(c, []string{"help", "usage", "version", "gui", "test", "all", "true", "false", "stdin", "h", "?", "*", "~", "out.png", "-h", "-help", "--help", "-version", "", "$x$ ", "-x", "--", "-", "$-1$", "a b", "-o", "x\ny", "-dpi=10", "'", "$\\alpha$%", "%c\n$x$"})
				case c.Intn(12) == 0:
					src = anyInput(c)
				}
				if strings.Contains(src, "\x00") {
					c.Skip("no argument can hold a NUL")
				}
				o := newOptions(c)
				if c.Intn(40) == 0 {
					// a very long expression, at a moderate size.
					o.size, o.dpi = "", ""
					src = strings.Repeat("$a$ b", 1+c.Intn(4000))
					c.Count("very long expressions", 1)
				}
				if len(src) < 100 && c.Intn(6) == 0 && src != "." && src != ".." && src != "d" && src != "" && !strings.Contains(src, "/") {
					// a file has the name of the expression.
					if os.WriteFile(filepath.Join(work, src), []byte("$q$"), 0o644) == nil {
						c.Count("files named like the expression", 1)
					}
				}
				switch c.Intn(6) {
				case 0:
				case 1:
					o.out = filepath.Join(work, "absolute.png")
				case 2:
					os.Mkdir(filepath.Join(work, "sub dir"), 0o755)
					o.out = filepath.Join("sub dir", "image")
				case 3:
					o.out = pick(c, []string{"x.png", "x", "é.png", "x.pdf", "a=b.png", "-.png", "..png", "o.PNG", "-", "--", "-o", "~", "$HOME", "*.png", "a b", " ", "\n", "file:x.png", "stdout", "nul", "CON", "a%d.png", "\xff.png", ".hidden", "x.png.tmp", "x\\y.png", "x.svg", "true", "0"})
				case 4:
					o.out = "../work/up.png"
				case 5:
					os.Mkdir(filepath.Join(work, "d"), 0o755)
					os.WriteFile(filepath.Join(work, "d", "target"), nil, 0o644)
					os.Symlink("d/target", filepath.Join(work, "link.png"))
					o.out = "link.png"
				}
				size, dpi, out := o.values()
				path := filepath.Join(work, out)
				if filepath.IsAbs(out) {
					path = out
				}
				if real, err := filepath.EvalSymlinks(path); err == nil {
					path = real
				}
				state := "new"
				if c.Intn(2) == 0 {
					// an older, longer or shorter file.
					state = pick(c, []string{"longer", "shorter"})
					n := 300000
					if state == "shorter" {
						n = 3
					}
					os.WriteFile(path, bytes.Repeat([]byte("#"), n), 0o644)
				}
				if c.Intn(2) == 0 && len(filepath.Base(path)) < 100 {
					// files with similar names.
					for _, n := range []string{"%s~", "%s.bak", "%s.tmp", ".%s.swp", "#%s#", "%s.png", "%s.old", "%s.1", ".%s", "_%s", "%s.lock", "%s.part"} {
						f := filepath.Join(filepath.Dir(path), strings.Replace(n, "%s", filepath.Base(path), 1))
						if _, err := os.Lstat(f); err != nil && c.Intn(3) == 0 {
							os.WriteFile(f, []byte(n), 0o644)
						}
					}
				}
				before := snapshot(filepath.Dir(work))
				args := o.args(c)
				if strings.HasPrefix(src, "-") && src != "-" || c.Intn(6) == 0 {
					args = append(args, "--")
				}
				args = append(args, src)
				want, werr := libraryPNG(src, size, dpi)
				r := runCmd(c, work, args...)
				after := snapshot(filepath.Dir(work))
				ch := changes(before, after)
				rel, _ := filepath.Rel(filepath.Dir(work), path)
				for _, k := range ch {
					if k[1:] != rel {
						c.Failf("%q changes %s (+ new, * changed, - removed) and not %s alone", args, k, rel)
					}
				}
				if r.stdout != "" {
					c.Failf("%q writes %q on standard output", args, clip(r.stdout))
				}
				c.Distinct(strings.Join(args, "\x00") + state)
				if werr != nil {
					loud(c, r, "malformed expression")
					c.Count("failed commands", 1)
					return
				}
				if r.code != 0 {
					c.Failf("%q exits with status %d, and the library renders it: %s", args, r.code, clip(r.stderr))
				}
				got, ok := after[rel]
				if !ok {
					c.Failf("%q writes no file %s", args, rel)
				}
				if got != string(want) {
					c.Failf("%q writes %d bytes that are not the %d bytes of the library", args, len(got), len(want))
				}
				c.Count("images compared", 1)
				c.Set("images", got)
				if o.out == "" || o.size == "" || o.dpi == "" {
					c.Count("defaults used", 1)
				}
				if state != "new" {
					c.Count("existing files replaced", 1)
				}
				c.Sample(args)
			}},
			{Name: "malformed", Quick: 1500, Thorough: 15000, Run: func(c *Case) {
				work := workplace(c)
				var src string
				for {
					if c.Intn(3) == 0 {
						src = pick(c, []string{"$x", "{", "}", `\frac{1}`, `$\unknown$`, `$x^2$`, `$\sqrt{`, "x_1", `\mathbf{x}`, "$\\int_0^1$", `$\left(x\right)$`, `$\hspace{a}$`})
					} else {
						src = anyInput(c)
					}
					if strings.Contains(src, "\x00") {
						continue
					}
					if _, err := libraryPNG(src, 12, 72); err != nil {
						break
					}
				}
				old := c.Intn(2) == 0
				if old {
					os.WriteFile(filepath.Join(work, "o.png"), []byte("old"), 0o644)
				}
				before := snapshot(filepath.Dir(work))
				args, out := []string{"-o", "o.png", "--", src}, "o.png"
				switch c.Intn(4) {
				case 0:
					args, out = []string{"--", src}, "out.png"
				case 1:
					out = pick(c, []string{"-", "x", "o.pdf", "é.png"})
					args = []string{"-dpi=100", "-o=" + out, "-font-size", "10", "--", src}
				}
				r := runCmd(c, work, args...)
				loud(c, r, "malformed expression")
				if r.stdout != "" {
					c.Failf("%q writes %q on standard output", args, clip(r.stdout))
				}
				for _, k := range changes(before, snapshot(filepath.Dir(work))) {
					if k[1:] != "work/"+out {
						c.Failf("%q changes %s", src, k)
					}
				}
				c.Count("failed commands", 1)
				c.Distinct(src)
				c.Sample(src)
			}},
			{Name: "usage", Quick: 600, Thorough: 5000, Run: func(c *Case) {
				work := workplace(c)
				args := append([]string{}, pick(c, [][]string{
					{}, {"-o", "o.png"}, {"$x$", "$y$"}, {"$x$", "-o", "o.png"}, {"-dpi", "abc", "$x$"}, {"-dpi=", "$x$"},
					{"-font-size", "1x", "$x$"}, {"-unknown", "$x$"}, {"-o"}, {"-dpi"}, {"-font-size", "$x$"}, {"--"},
					{"-gui=maybe", "$x$"}, {"-dpi", "72", "-font-size", "12"}, {"$x$", ""}, {"a", "b", "c"}, {"-x+1"}, {"-dpi=1e999", "$x$"},
					{"--o=o.png", "--", "a", "b"}, {"-font-size=12pt", "$x$"}, {"---", "$x$"}, {"-=3", "$x$"},
				})...)
				if c.Intn(3) == 0 && len(args) > 0 {
					args = append([]string{"-dpi=100"}, args...)
				}
				before := snapshot(filepath.Dir(work))
				r := runCmd(c, work, args...)
				loud(c, r, "wrong usage")
				if ch := changes(before, snapshot(filepath.Dir(work))); len(ch) > 0 {
					c.Failf("%q is wrong usage, and changes %q", args, ch)
				}
				c.Count("wrong usages", 1)
				c.Distinct(strings.Join(args, "\x00"))
			}},
			{Name: "outputs", Quick: 600, Thorough: 6000, Run: func(c *Case) {
				work := workplace(c)
				_, src := drawable(c, fontGrammar(c), c.Intn(3), true)
				if _, err := libraryPNG(src, 12, 72); err != nil {
					src = "$x$"
				}
				os.Mkdir(filepath.Join(work, "dir"), 0o755)
				os.WriteFile(filepath.Join(work, "file"), []byte("f"), 0o644)
				os.Symlink("nowhere/at/all", filepath.Join(work, "dangling"))
				os.Symlink("loop", filepath.Join(work, "loop"))
				out := pick(c, []string{"dir", "none/out.png", "file/out.png", "/dev/full", "dangling", "loop", strings.Repeat("n", 300), ".", "dir/", "/proc/nothing"})
				before := snapshot(filepath.Dir(work))
				r := runCmd(c, work, "-o", out, "--", src)
				loud(c, r, "output that cannot be written")
				if ch := changes(before, snapshot(filepath.Dir(work))); len(ch) > 0 {
					c.Failf("output %q cannot be written, and %q change", out, ch)
				}
				c.Count("outputs that cannot be written", 1)
				c.Set("outputs", out)
				c.Distinct(out + "\x00" + src)
				c.Sample([]string{out, src})
			}},
			{Name: "pipes", Quick: 150, Thorough: 2000, Run: func(c *Case) {
				// the output is no regular file: a pipe with a name.
				work := workplace(c)
				_, src := drawable(c, fontGrammar(c), c.Intn(4), true)
				want, err := libraryPNG(src, 12, 72)
				if err != nil {
					c.Skip("nothing to write")
				}
				pipe := filepath.Join(work, "pipe")
				if err := syscall.Mkfifo(pipe, 0o600); err != nil {
					panic(err)
				}
				// opened for reading and writing: never waits.
				f, err := os.OpenFile(pipe, os.O_RDWR, 0)
				if err != nil {
					panic(err)
				}
				defer f.Close()
				out := pick(c, []string{"pipe", pipe, "./pipe"})
				if c.Intn(3) == 0 {
					os.Symlink("pipe", filepath.Join(work, "link"))
					out = "link"
				}
				got := make(chan []byte)
				go func() {
					buf := make([]byte, len(want))
					n, _ := io.ReadFull(f, buf)
					got <- buf[:n]
				}()
				r := runCmd(c, work, "-o", out, "--", src)
				if r.code != 0 {
					c.Failf("%q to a pipe: exit status %d: %s", src, r.code, clip(r.stderr))
				}
				f.SetReadDeadline(time.Now().Add(20 * time.Second))
				if b := <-got; !bytes.Equal(b, want) {
					c.Failf("%q to a pipe: other bytes (%d) than the image's %d", src, len(b), len(want))
				}
				f.SetReadDeadline(time.Now().Add(10 * time.Millisecond))
				if n, _ := f.Read(make([]byte, 1)); n > 0 {
					c.Failf("%q to a pipe: bytes after the image", src)
				}
				if fi, err := os.Lstat(pipe); err != nil || fi.Mode()&os.ModeNamedPipe == 0 {
					c.Failf("%q to a pipe: the pipe is gone (%v)", src, err)
				}
				c.Count("images written to pipes", 1)
				c.Distinct("pipe\x00" + src)
			}},
			{Name: "limits", Quick: 400, Thorough: 3000, Run: func(c *Case) {
				// writing fails after some bytes: the size of files is limited.
				work := workplace(c)
				_, src := drawable(c, fontGrammar(c), 2+c.Intn(3), true)
				want, err := libraryPNG(src, 12, 72)
				if err != nil {
					c.Skip("nothing to write")
				}
				limit := c.Intn(len(want) + 1)
				if c.Intn(4) == 0 {
					limit = len(want) - 1
				}
				exe := os.Getenv("VMON_CMD")
				self, _ := os.Executable()
				cmd := exec.Command(self, "helper", "limited", fmt.Sprint(limit), exe, "-o", "o.png", "--", src)
				cmd.Dir = work
				var errb bytes.Buffer
				cmd.Stderr = &errb
				c.Input(fmt.Sprintf("%q with at most %d of %d bytes", src, limit, len(want)))
				err = cmd.Run()
				got, _ := os.ReadFile(filepath.Join(work, "o.png"))
				if limit >= len(want) {
					if err != nil || !bytes.Equal(got, want) {
						c.Failf("%q: there is room for the %d bytes, but %d are written: %v %s", src, len(want), len(got), err, clip(errb.String()))
					}
					return
				}
				if err == nil {
					c.Failf("%q: exit status zero although %d of %d bytes could be written", src, len(got), len(want))
				}
				if errb.Len() == 0 {
					c.Failf("%q: no message although %d of %d bytes could be written", src, len(got), len(want))
				}
				c.Count("outputs that cannot be written", 1)
				c.Distinct(fmt.Sprint(src, limit))
			}},
		},
	})
	helpers["limited"] = limited
}
