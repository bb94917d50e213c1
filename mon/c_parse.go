package main

import (
	"bytes"
	"fmt"
	"math/bits"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/go-latex/latex"
	"github.com/go-latex/latex/ast"
)

// parse calls the parser under test.
func parse(c *Case, s string) (ast.Node, error) {
	c.Count("ParseExpr calls", 1)
	n, err := latex.ParseExpr(s)
	if err != nil {
		c.Count("errors returned", 1)
	} else {
		c.Count("trees returned", 1)
	}
	return n, err
}

// mustParse is for expressions that are well-formed.
func mustParse(c *Case, s string) *N {
	n, err := parse(c, s)
	if err != nil {
		c.Failf("well-formed expression %q rejected: %v", s, err)
	}
	if n == nil {
		c.Failf("no tree and no error for %q", s)
	}
	return fromAST(n)
}

// genSource returns a random expression of the whole language, its tree and
// its source.
func genSource(c *Case, depth int) (string, *N, *Writer) {
	g := newGrammar(c)
	top := g.Top(depth)
	var t Trivia
	switch c.Intn(3) {
	case 0:
		t = noTrivia
	case 1:
		t = c.randTrivia(10, true)
	default:
		t = c.randTrivia(40, true)
	}
	tail := ""
	if c.Intn(8) == 0 {
		tail = pick(c, []string{"\n", "%", "% end", "\t\n", "\r\n%x"})
	}
	s, w := source(top, t, tail)
	return s, top, w
}

// fragments are pieces of input that matter to the parser.
var fragments = []string{
	"{", "}", "[", "]", "(", ")", "$", "$$", "^", "_", "\\", "%", "%\n", "\n", " ", "\t", "\r", "\x00", "\xff", "\xc3",
	"\ufeff", "\u2028", "~", "&", "#", "@", "|", "\"", "'", "`", "\\frac", "\\sqrt", "\\sqrt[", "\\binom{a}", "\\hspace{", "\\genfrac",
	"\\begin", "\\end", "\\(", "\\)", "\\[", "\\]", "\\{", "\\}", "\\\\", "\\ ", "\\,", "\\alpha", "\\nope", "\\frac{a}{b}", "a", "x1", "1", "1.5", ".", "..", "1..2",
	"é", "日本", "\u0301", "\U0001f600", "+", "-", "=", "<", ">", "!", "?", ";", ":", ",", "\\operatorname", "\\exp", "\\mathbf{x}", "\\textbf{", "\\overline{", "\\left(", "\\right)",
	"\\\"", "\"x\"", "//", "/*", "*/", "0x1F", "1e5", "1_000", "'a'", "\\'", "\\u0041", "\\__sqrt__",
}

// mutate damages a string.
func mutate(c *Case, s string, n int) string {
	b := []byte(s)
	for ; n > 0; n-- {
		switch c.Intn(9) {
		case 0, 1: // delete a span
			if len(b) > 0 {
				i := c.Intn(len(b))
				j := i + 1 + c.Intn(3)
				if j > len(b) {
					j = len(b)
				}
				b = append(b[:i:i], b[j:]...)
			}
		case 2, 3: // insert a fragment
			i := c.Intn(len(b) + 1)
			b = append(b[:i:i], append([]byte(pick(c, fragments)), b[i:]...)...)
		case 4: // duplicate a span
			if len(b) > 0 {
				i := c.Intn(len(b))
				j := i + 1 + c.Intn(len(b)-i)
				if j-i > 200 {
					j = i + 200
				}
				b = append(b[:j:j], append(append([]byte{}, b[i:j]...), b[j:]...)...)
			}
		case 5: // replace a byte
			if len(b) > 0 {
				b[c.Intn(len(b))] = byte(c.Intn(256))
			}
		case 6: // truncate
			if len(b) > 0 {
				b = b[:c.Intn(len(b))]
			}
		case 7: // swap two bytes
			if len(b) > 1 {
				i, j := c.Intn(len(b)), c.Intn(len(b))
				b[i], b[j] = b[j], b[i]
			}
		case 8: // replace by a fragment
			if len(b) > 0 {
				i := c.Intn(len(b))
				b = append(b[:i:i], append([]byte(pick(c, fragments)), b[i+1:]...)...)
			}
		}
	}
	return string(b)
}

func soup(c *Case, n int) string {
	var o strings.Builder
	for i := 0; i < n; i++ {
		o.WriteString(pick(c, fragments))
	}
	return o.String()
}

func randBytes(c *Case, n int) string {
	b := make([]byte, n)
	switch c.Intn(3) {
	case 0:
		c.Read(b)
	case 1:
		for i := range b {
			b[i] = byte(c.Intn(128))
		}
	default:
		const set = "{}[]()$^_\\% \n\tab1.+-=,xé"
		for i := range b {
			b[i] = set[c.Intn(len(set))]
		}
	}
	return string(b)
}

// anyInput returns a string that may be well-formed or not.
func anyInput(c *Case) string {
	switch c.Intn(5) {
	case 0:
		return randBytes(c, c.Intn(60))
	case 1:
		return soup(c, 1+c.Intn(12))
	case 2:
		s, _, _ := genSource(c, 4)
		return s
	default:
		s, _, _ := genSource(c, 3)
		return mutate(c, s, 1+c.Intn(3))
	}
}

// stdio watches what is written to the standard streams of this process.
type stdio struct{ n1, n2 int64 }

func stdioNow() stdio {
	size := func(f *os.File) int64 {
		fi, err := f.Stat()
		if err != nil {
			return 0
		}
		return fi.Size()
	}
	return stdio{size(os.Stdout), size(os.Stderr)}
}

// totalParse checks what C01 asks of one call.
func totalParse(c *Case, s string) {
	c.Input(s)
	before := stdioNow()
	n, err := parse(c, s)
	after := stdioNow()
	switch {
	case n != nil && err != nil:
		c.Failf("both a tree and an error (%v)", err)
	case n == nil && err == nil:
		c.Failf("neither a tree nor an error")
	case err == nil && isNil(n) && len(fmt.Sprintf("%T", n)) > 0 && fmt.Sprintf("%T", n) != "ast.List":
		c.Failf("a nil tree of type %T without an error", n)
	case err != nil && isNil(n) && n != nil:
		c.Failf("typed nil tree with an error")
	}
	if err != nil && err.Error() == "" {
		c.Failf("empty error")
	}
	c.Count("standard stream probes", 1)
	if before != after {
		c.Failf("parsing wrote to the standard streams: %d bytes", after.n1+after.n2-before.n1-before.n2)
	}
}

// growing is a family of inputs of any size: the parser must digest them in
// reasonable time and memory.
type growing struct {
	name string
	gen  func(n int) string // about n bytes
}

var growth = []growing{
	{"letters", func(n int) string { return strings.Repeat("a", n) }},
	{"letters in math", func(n int) string { return "$" + strings.Repeat("a", n) + "$" }},
	{"digits", func(n int) string { return strings.Repeat("7", n) }},
	{"dots", func(n int) string { return strings.Repeat("1.", n/2) }},
	{"spaces in text", func(n int) string { return strings.Repeat(" ", n) }},
	{"spaces in math", func(n int) string { return "$" + strings.Repeat(" ", n) + "$" }},
	{"newlines", func(n int) string { return strings.Repeat("\n", n) }},
	{"one comment", func(n int) string { return "%" + strings.Repeat("c", n) }},
	{"many comments", func(n int) string { return strings.Repeat("%c\n", n/3) + "x" }},
	{"comments before an argument", func(n int) string { return `\frac` + strings.Repeat("%c\n", n/3) + "{a}{b}" }},
	{"spaces before a script", func(n int) string { return "$x^" + strings.Repeat(" ", n) + "2$" }},
	{"symbols", func(n int) string { return "$" + strings.Repeat("+-=", n/3) + "$" }},
	{"symbols in text", func(n int) string { return strings.Repeat("+", n) }},
	{"words in text", func(n int) string { return strings.Repeat("ab ", n/3) }},
	{"numbers in text", func(n int) string { return strings.Repeat("12 ", n/3) }},
	{"macros in text", func(n int) string { return strings.Repeat(`\alpha `, n/7) }},
	{"fractions in text", func(n int) string { return strings.Repeat(`\frac{a}{b}`, n/11) }},
	{"words and symbols in an optional argument", func(n int) string { return `\sqrt[` + strings.Repeat("a+", n/2) + "]{x}" }},
	{"words and symbols in a group", func(n int) string { return "${" + strings.Repeat("a+", n/2) + "}$" }},
	{"words and symbols in a script", func(n int) string { return "$x^{" + strings.Repeat("a+", n/2) + "}$" }},
	{"words and symbols in nested math", func(n int) string { return `\overline{$` + strings.Repeat("a+", n/2) + "$}" }},
	{"line breaks and words", func(n int) string { return strings.Repeat("ab\n", n/3) }},
	{"macros", func(n int) string { return "$" + strings.Repeat(`\alpha `, n/7) + "$" }},
	{"one long macro", func(n int) string { return `\` + strings.Repeat("q", n) }},
	{"fractions", func(n int) string { return "$" + strings.Repeat(`\frac{a}{b}`, n/11) + "$" }},
	{"roots", func(n int) string { return "$" + strings.Repeat(`\sqrt[a]{b}`, n/11) + "$" }},
	{"groups", func(n int) string { return "$" + strings.Repeat(`{a}`, n/3) + "$" }},
	{"scripts", func(n int) string { return "$" + strings.Repeat(`x_1^{2}`, n/7) + "$" }},
	{"math expressions", func(n int) string { return strings.Repeat(`$x$`, n/3) }},
	{"one long argument", func(n int) string { return `\overline{` + strings.Repeat("a1", n/2) + "}" }},
	{"unterminated argument", func(n int) string { return `\overline{` + strings.Repeat("a1", n/2) }},
	{"unterminated optional arguments", func(n int) string { return strings.Repeat(`\sqrt[`, n/6) }},
	{"unterminated groups", func(n int) string { return "$" + strings.Repeat("{", n) }},
	{"unterminated groups with dollars", func(n int) string { return strings.Repeat("${", n/2) }},
	{"closing braces", func(n int) string { return strings.Repeat("}", n) }},
	{"deep groups", func(n int) string { return "$" + strings.Repeat("{", n/2) + strings.Repeat("}", n/2) + "$" }},
	{"deep arguments", func(n int) string { return strings.Repeat(`\sqrt{`, n/7) + strings.Repeat("}", n/7) }},
	{"deep optional arguments", func(n int) string { return strings.Repeat(`\sqrt[`, n/9) + strings.Repeat("]{}", n/9) }},
	{"deep scripts", func(n int) string { return strings.Repeat("^", n) + "x" }},
	{"deep script groups", func(n int) string { return strings.Repeat("^{", n/3) + "x" + strings.Repeat("}", n/3) }},
	{"deep nested math", func(n int) string { return strings.Repeat("${", n/4) + strings.Repeat("}$", n/4) }},
	{"mixed nesting", func(n int) string {
		return "$" + strings.Repeat(`\frac{{x_{`, n/20) + strings.Repeat("}}}{b}", n/20) + "$"
	}},
	{"deep argument after argument", func(n int) string { return "$" + strings.Repeat(`\frac{}{`, n/9) + strings.Repeat("}", n/9) + "$" }},
	{"multi-byte letters", func(n int) string { return strings.Repeat("é", n/2) }},
	{"invalid bytes", func(n int) string { return strings.Repeat("\xff", n) }},
	{"invalid bytes in a comment", func(n int) string { return "%" + strings.Repeat("\xff", n) }},
	{"quotes", func(n int) string { return strings.Repeat("\"", n) }},
	{"open quote", func(n int) string { return "\"" + strings.Repeat("a", n) }},
	{"quoted backslashes", func(n int) string { return "\"" + strings.Repeat("\\", n) }},
	{"backslashes", func(n int) string { return strings.Repeat("\\", n) }},
	{"control spaces", func(n int) string { return strings.Repeat("\\ ", n/2) }},
	{"random bytes", func(n int) string {
		b := make([]byte, n)
		rand.New(rand.NewSource(int64(n))).Read(b)
		return string(b)
	}},
}

func measure(f func()) (cpu time.Duration, alloc uint64) {
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	t := cpuTime()
	f()
	cpu = cpuTime() - t
	runtime.ReadMemStats(&m1)
	return cpu, m1.TotalAlloc - m0.TotalAlloc
}

// bottomless are openings: repeated, they nest.
var bottomless = []string{
	"{", "^", "_", "^{", "_{", "x^", "x_{", "${", "{$", "$x^", `\sqrt{`, `\sqrt[`, `\sqrt[{`, `\frac{`, `\frac{a}{`, `\overline{`, `\binom{`,
	`\sqrt[3]{`, `\sqrt `, `\frac `, `\overline `, "^ ", "_^", "^%\n", "{%\n", `\sqrt{$`, `$\sqrt{`, `\mathrm{`, `\dfrac{`, `\mathregular{`, `^\sqrt `, `^\frac{a}`,
	`\overline{x_`, "\\hspace{", "[", "(", `\left(`, `\left(^`, `\begin{`, "\\operatorname{",
}

// deeper nests pieces into each other at random, up to n levels.
func deeper(c *Case, n int) string {
	type pair struct{ l, r string }
	pairs := []pair{{"{", "}"}, {`\sqrt{`, "}"}, {`\frac{a}{`, "}"}, {`\frac{`, "}{b}"}, {`\sqrt[`, "]{x}"}, {`\sqrt[3]{`, "}"},
		{"x^{", "}"}, {"x_{", "}"}, {"^", ""}, {"_", ""}, {"{$", "$}"}, {`\overline{`, "}"}, {`\binom{1}{`, "}"}, {"{ %}\n", "}"}}
	var l, r []string
	for i := 0; i < n; i++ {
		p := pick(c, pairs)
		l = append(l, p.l)
		r = append(r, p.r)
	}
	var o strings.Builder
	o.WriteString("$")
	for _, s := range l {
		o.WriteString(s)
	}
	o.WriteString("z")
	for i := len(r) - 1; i >= 0; i-- {
		o.WriteString(r[i])
	}
	o.WriteString("$")
	return o.String()
}

func init() {
	register(&Check{
		ID:      "C01",
		KeepLog: true,
		Rule: "case = one string handed to latex.ParseExpr: random bytes, fragment soups, grammar-generated expressions and their mutations, every prefix of generated expressions, " +
			"deeply nested and very long inputs; non-trivial = at least one byte, counted by content. The monitors observe the returned pair, panics, fatal errors (process death is attributed to its input), " +
			"CPU time, allocation growth between input sizes n and 4n, and the size of the standard streams after each call",
		Assumptions: []string{"time and memory growth is judged on allocation counts and CPU time at two input sizes with a wide margin (a factor of 4 in size must not cost more than a factor of 7 in bytes allocated, or of 10 in CPU time, plus a constant)"},
		Need:        []string{"trees returned", "errors returned", "standard stream probes", "growth measurements", "deep inputs"},
		Families: []*Family{
			{Name: "bytes", Quick: 48000, Thorough: 2000000, Run: func(c *Case) {
				s := randBytes(c, c.Intn(80))
				if s != "" {
					c.Distinct(s)
				}
				totalParse(c, s)
				c.Sample(s)
			}},
			{Name: "soup", Quick: 64000, Thorough: 3000000, Run: func(c *Case) {
				s := soup(c, 1+c.Intn(14))
				c.Distinct(s)
				totalParse(c, s)
				c.Sample(s)
			}},
			{Name: "mutants", Quick: 48000, Thorough: 3000000, Run: func(c *Case) {
				s, _, _ := genSource(c, 4)
				s = mutate(c, s, c.Intn(5))
				c.Distinct(s)
				totalParse(c, s)
				c.Sample(s)
			}},
			{Name: "prefixes", Quick: 600, Thorough: 40000, Run: func(c *Case) {
				s, _, _ := genSource(c, 3)
				if len(s) > 300 {
					s = s[:300]
				}
				for i := 0; i <= len(s); i++ {
					c.Distinct(s[:i])
					totalParse(c, s[:i])
				}
				for i := 0; i < len(s); i++ {
					totalParse(c, s[i:])
				}
				c.Sample(s)
			}},
			{Name: "pairs", Quick: len(fragments) * len(fragments), Thorough: len(fragments) * len(fragments), Run: func(c *Case) {
				a, b := fragments[c.Index/len(fragments)], fragments[c.Index%len(fragments)]
				for _, f := range []string{"%s%s", "$%s%s$", "$x%s y%s", "%s{%s}", "\\sqrt[%s]{%s}", "$\\frac{%s}{%s}$", "$%s", "x^%s%s"} {
					s := strings.Replace(strings.Replace(f, "%s", a, 1), "%s", b, 1)
					c.Distinct(s)
					totalParse(c, s)
				}
			}},
			{Name: "deep", Quick: 120, Thorough: 3000, CPU: 30, Run: func(c *Case) {
				n := []int{10, 100, 1000, 10000, 100000}[c.Index%5]
				if c.Thorough() && c.Index%50 == 4 {
					n = 1000000
				}
				s := deeper(c, n)
				if c.Intn(3) == 0 {
					s = s[:c.Intn(len(s))]
				}
				c.Count("deep inputs", 1)
				c.Distinct(s)
				c.Input(fmt.Sprintf("nesting of %d levels, case %d, %d bytes: %.100q...", n, c.Index, len(s), s))
				before := stdioNow()
				x, err := parse(c, s)
				if (x == nil) == (err == nil) {
					c.Failf("tree and error: %v, %v", x == nil, err)
				}
				if before != stdioNow() {
					c.Failf("parsing wrote to the standard streams")
				}
			}},
			{Name: "bottomless", Quick: len(bottomless), Thorough: len(bottomless), CPU: 60, Run: func(c *Case) {
				// one construct nested in itself a million times: the limit of
				// the nesting must hold for each of them, whatever the stack.
				const stack = 64 << 20
				defer debug.SetMaxStack(debug.SetMaxStack(stack))
				n := 1000000
				piece := bottomless[c.Index]
				for _, s := range []string{strings.Repeat(piece, n), "$" + strings.Repeat(piece, n)} {
					c.Count("deep inputs", 1)
					c.Distinct(piece + s[:1])
					c.Input(fmt.Sprintf("%q repeated %d times, with stacks of at most %d bytes", piece, n, stack))
					x, err := parse(c, s)
					if (x == nil) == (err == nil) {
						c.Failf("tree and error: %v, %v", x == nil, err)
					}
				}
			}},
			{Name: "repeated", Quick: len(fragments), Thorough: 12 * len(fragments), CPU: 120, Run: func(c *Case) {
				// pieces one after the other, hundreds of thousands of times, with
				// a small stack: a long input must not need more stack than a
				// short one.
				const stack = 16 << 20
				defer debug.SetMaxStack(debug.SetMaxStack(stack))
				n := 200000
				piece := fragments[c.Index%len(fragments)]
				if len(piece) == 1 {
					n = 1000000 // at least sixteen bytes of stack for each
				}
				if c.Index >= len(fragments) {
					piece += pick(c, fragments)
					n = 500000
				}
				for _, f := range []string{"%s", "$%s$", "\\frac%s", "$x^%s", "\\sqrt[%s]{x}", "${%s}$"} {
					s := strings.Replace(f, "%s", strings.Repeat(piece, n), 1)
					c.Count("deep inputs", 1)
					c.Distinct(f + piece)
					c.Input(fmt.Sprintf("%q with %q repeated %d times, with stacks of at most %d bytes", f, piece, n, stack))
					before := stdioNow()
					x, err := parse(c, s)
					if (x == nil) == (err == nil) {
						c.Failf("tree and error: %v, %v", x == nil, err)
					}
					if before != stdioNow() {
						c.Failf("parsing wrote to the standard streams")
					}
				}
			}},
			{Name: "growth", Quick: len(growth), Thorough: 3 * len(growth), CPU: 120, Run: func(c *Case) {
				g := growth[c.Index%len(growth)]
				n := 20000
				if c.Index >= len(growth) {
					n = 200000
				}
				if c.Index >= 2*len(growth) {
					n = 1000000
				}
				run := func(n int) (time.Duration, uint64) {
					s := g.gen(n)
					c.Input(fmt.Sprintf("%s, %d bytes", g.name, len(s)))
					before := stdioNow()
					cpu, alloc := measure(func() {
						x, err := parse(c, s)
						if (x == nil) == (err == nil) {
							c.Failf("tree and error: %v, %v", x == nil, err)
						}
					})
					if before != stdioNow() {
						c.Failf("parsing wrote to the standard streams")
					}
					return cpu, alloc
				}
				run(n / 4)
				t1, a1 := run(n)
				t4, a4 := run(4 * n)
				c.Count("growth measurements", 1)
				c.Distinct(g.name + fmt.Sprint(n))
				// linear: a factor of four, and some slack.
				if a4 > 7*a1+(8<<20) {
					c.Failf("%s: memory grows from %d bytes (n=%d) to %d bytes (n=%d)", g.name, a1, n, a4, 4*n)
				}
				if t4 > 10*t1+2*time.Second {
					c.Failf("%s: CPU time grows from %v (n=%d) to %v (n=%d)", g.name, t1, n, t4, 4*n)
				}
			}},
		},
	})

	register(&Check{
		ID: "C02",
		Rule: "case = one expression generated from the grammar of the language (every macro and symbol name is enumerated, alone and in combination) with the tree it denotes, or an arbitrary string with the " +
			"tree the reference parser gives it; non-trivial = at least three nodes, counted by source text. The oracle compares kind, text, arguments, order and nesting of every node of the tree returned",
		Need: []string{"nodes compared", "strings judged by the reference parser", "large expressions"},
		Families: append([]*Family{
			{Name: "names", Quick: len(macroArity), Thorough: len(macroArity), Run: func(c *Case) {
				names := sortedKeys(macroArity)
				name := names[c.Index]
				arg := func(o string) *N {
					k := kArg
					if o == "O" {
						k = kOpt
					}
					return &N{K: k, Kids: []*N{{K: kWord, T: "q"}}}
				}
				for _, withOpt := range []bool{false, true} {
					m := &N{K: kMacro, T: name}
					for _, a := range macroArity[name] {
						if a == 'O' && !withOpt {
							continue
						}
						m.Kids = append(m.Kids, arg(string(a)))
					}
					for _, top := range []*N{
						{K: kList, Kids: []*N{m}},
						{K: kList, Kids: []*N{{K: kMath, T: "$", Kids: []*N{m}}}},
						{K: kList, Kids: []*N{{K: kMath, T: "$", Kids: []*N{{K: kWord, T: "a"}, m, {K: kWord, T: "b"}, m, {K: kLit, T: "2"}, {K: kSym, T: "+"}, m, {K: kSup, Kids: []*N{{K: kLit, T: "2"}}}}}}},
						{K: kList, Kids: []*N{{K: kMath, T: "$", Kids: []*N{{K: kSup, Kids: []*N{m}}, {K: kSub, Kids: []*N{{K: kList, Kids: []*N{m}}}}}}}},
						{K: kList, Kids: []*N{m, {K: kSym, T: " "}, m, m, {K: kSym, T: "("}}},
						{K: kList, Kids: []*N{{K: kMacro, T: `\sqrt`, Kids: []*N{{K: kOpt, Kids: []*N{m}}, {K: kArg, Kids: []*N{m, {K: kWord, T: "z"}}}}}}},
					} {
						s, _ := source(top, noTrivia, "")
						treeIs(c, s, top)
					}
				}
				c.Set("macro names", name)
			}},
			{Name: "triples", Quick: 45000, Thorough: 400000, Run: func(c *Case) {
				// three neighbouring tokens written as closely as possible.
				g := newGrammar(c)
				x := genCtx{math: true, depth: 1}
				kids := []*N{g.leaf(x), g.leaf(x), g.leaf(x)}
				top := &N{K: kList, Kids: kids}
				if c.Intn(2) == 0 {
					x.math = false
					for i := range kids {
						kids[i] = g.leaf(x)
					}
				} else {
					top = &N{K: kList, Kids: []*N{{K: kMath, T: "$", Kids: kids}}}
				}
				s, _ := source(top, noTrivia, "")
				treeIs(c, s, top)
				c.Sample(s)
			}},
			{Name: "grammar", Quick: 250000, Thorough: 2500000, Run: func(c *Case) {
				s, top, _ := genSource(c, 1+c.Intn(6))
				treeIs(c, s, top)
				c.Sample(s)
			}},
			{Name: "nested", Quick: 300, Thorough: 10000, Run: func(c *Case) {
				// long and narrow trees.
				g := newGrammar(c)
				g.MaxKids = 2
				n := 5 + c.Intn(150)
				node := &N{K: kWord, T: "z"}
				x := genCtx{math: true}
				for i := 0; i < n; i++ {
					kids := []*N{node}
					if c.Intn(3) == 0 {
						kids = append(kids, g.leaf(x))
					}
					if c.Intn(3) == 0 {
						kids = append([]*N{g.leaf(x)}, kids...)
					}
					switch c.Intn(5) {
					case 0:
						node = &N{K: kList, Kids: kids}
					case 1:
						node = &N{K: kMacro, T: `\frac`, Kids: []*N{{K: kArg, Kids: []*N{{K: kLit, T: "1"}}}, {K: kArg, Kids: kids}}}
					case 2:
						node = &N{K: kMacro, T: `\sqrt`, Kids: []*N{{K: kArg, Kids: kids}}}
					case 3:
						node = &N{K: pick(c, []string{kSub, kSup}), Kids: []*N{{K: kList, Kids: kids}}}
					case 4:
						node = &N{K: kMacro, T: `\dfrac`, Kids: []*N{{K: kArg, Kids: kids}, {K: kArg}}}
					}
				}
				top := &N{K: kList, Kids: []*N{{K: kMath, T: "$", Kids: []*N{node}}}}
				s, _ := source(top, noTrivia, "")
				treeIs(c, s, top)
				c.Set("nesting depths", fmt.Sprint(n))
			}},
			{Name: "long", Quick: 60, Thorough: 2000, Run: func(c *Case) {
				g := newGrammar(c)
				g.MaxKids = 400 + c.Intn(1200)
				top := &N{K: kList}
				x := genCtx{math: true, depth: 1}
				gg := *g
				gg.MaxKids = 3
				kids := gg.kids(x, 400+c.Intn(1200))
				if c.Intn(2) == 0 {
					top.Kids = []*N{{K: kMath, T: "$", Kids: kids}}
				} else {
					top.Kids = gg.kids(genCtx{depth: 1}, 400+c.Intn(1200))
				}
				s, _ := source(top, c.randTrivia(5, true), "")
				treeIs(c, s, top)
			}},
			{Name: "large", Quick: 300, Thorough: 12000, Run: func(c *Case) {
				s, top, w := bigSource(c)
				treeIs(c, s, top)
				c.Count("large expressions", 1)
				c.Set("sizes of expressions (powers of two)", fmt.Sprint(bits.Len(uint(len(s)))))
				c.Set("numbers of tokens (powers of two)", fmt.Sprint(bits.Len(uint(w.n))))
			}},
			{Name: "every character", Quick: charBlocks, Thorough: charBlocks, Run: func(c *Case) {
				everyCharacter(c, func(s string) {
					c.Input(s)
					if want, v := refParse(s); v == vOK {
						treeIs(c, s, want)
					}
				})
			}},
			{Name: "runes", Quick: 50000, Thorough: 1000000, Run: func(c *Case) {
				s := runeInContext(c)
				want, v := refParse(s)
				if v != vOK {
					c.Skip("not well-formed")
				}
				treeIs(c, s, want)
			}},
			{Name: "reference", Quick: 250000, Thorough: 2500000, Run: func(c *Case) {
				s := anyInput(c)
				want, v := refParse(s)
				if v != vOK {
					c.Skip("not well-formed")
				}
				c.Count("strings judged by the reference parser", 1)
				treeIs(c, s, want)
			}},
		}, enumerated(func(c *Case, s string) {
			c.Input(s)
			want, v := refParse(s)
			if v == vOK {
				treeIs(c, s, want)
			}
		})...),
	})

	register(&Check{
		ID: "C03",
		Rule: "case = a well-formed expression damaged at a chosen position (every brace, bracket, dollar, argument and script operand deleted or doubled; truncations; unknown macros), or an arbitrary string judged by the " +
			"reference parser; non-trivial = the damaged string is malformed by the reference parser or by the parity of its unescaped delimiters, counted by content; undamaged expressions must be accepted",
		Need: []string{"malformed strings rejected", "well-formed strings accepted", "large expressions"},
		Families: append([]*Family{
			{Name: "damage", Quick: 30000, Thorough: 800000, Run: func(c *Case) {
				s, _, w := genSource(c, 1+c.Intn(4))
				judge(c, s)
				for k := 0; k < 6; k++ {
					judge(c, damage(c, s, w))
				}
				c.Sample(s)
			}},
			{Name: "every-token", Quick: 800, Thorough: 60000, Run: func(c *Case) {
				// delete every token, and cut the expression after every token.
				s, _, w := genSource(c, 1+c.Intn(4))
				for i, off := range w.off {
					if i > 60 {
						break
					}
					end := len(s)
					if i+1 < len(w.off) {
						end = w.off[i+1]
					}
					judge(c, s[:off]+s[end:])
					judge(c, s[:off])
					judge(c, s[off:])
				}
			}},
			{Name: "templates", Quick: 10000, Thorough: 200000, Run: func(c *Case) { malformedTemplate(c) }},
			{Name: "every character", Quick: charBlocks, Thorough: charBlocks, Run: func(c *Case) {
				everyCharacter(c, func(s string) { judge(c, s) })
			}},
			{Name: "runes", Quick: 75000, Thorough: 1500000, Run: func(c *Case) {
				// any character, anywhere.
				s := runeInContext(c)
				judge(c, s)
			}},
			{Name: "large", Quick: 200, Thorough: 8000, Run: func(c *Case) {
				s, _, w := bigSource(c)
				judge(c, s)
				for k := 0; k < 4; k++ {
					judge(c, damage(c, s, w))
				}
				c.Count("large expressions", 1)
			}},
			{Name: "arbitrary", Quick: 75000, Thorough: 2500000, Run: func(c *Case) { judge(c, anyInput(c)) }},
		}, enumerated(judge)...),
	})

	register(&Check{
		ID: "C04",
		Rule: "case = a generated expression with random white space, comments and multi-byte text whose token offsets the generator recorded, or an arbitrary accepted string; non-trivial = at least three positioned nodes, counted by " +
			"source text. The oracle compares start, end and delimiter offsets of every node with the recorded ones and with the source text itself",
		Assumptions: []string{"a list of nodes and a brace group extend from their first to their last item; empty ones have no position"},
		Need:        []string{"positions compared", "source slices compared", "large expressions"},
		Families: append([]*Family{
			{Name: "grammar", Quick: 62500, Thorough: 2500000, Run: func(c *Case) {
				s, top, _ := genSource(c, 1+c.Intn(5))
				c.Input(s)
				n, err := parse(c, s)
				if err != nil {
					c.Skip("rejected")
				}
				got := fromAST(n)
				if !top.Same(got) {
					c.Skip("another tree")
				}
				samePos(c, s, top, got)
				sliceCheck(c, s, n)
				if got.Count() >= 3 {
					c.Distinct(s)
				}
				c.Sample(s)
			}},
			{Name: "trivia", Quick: 15000, Thorough: 500000, Run: func(c *Case) {
				// the same expression behind growing amounts of other text.
				g := newGrammar(c)
				g.Words = append(append([]string{}, latin...), intlWords...)
				top := g.Top(3)
				w := newWriter(c.randTrivia(60, true))
				w.ctl = func() string { return pick(c, []string{" ", "\t", "\n", "\r"}) }
				w.list(top.Kids, false)
				top.span()
				s := w.buf.String()
				c.Input(s)
				n, err := parse(c, s)
				if err != nil {
					c.Skip("rejected")
				}
				got := fromAST(n)
				if !top.Same(got) {
					c.Skip("another tree")
				}
				samePos(c, s, top, got)
				sliceCheck(c, s, n)
				c.Distinct(s)
			}},
			{Name: "large", Quick: 300, Thorough: 12000, Run: func(c *Case) {
				s, top, _ := bigSource(c)
				c.Input(s)
				n, err := parse(c, s)
				if err != nil {
					c.Skip("rejected")
				}
				got := fromAST(n)
				if !top.Same(got) {
					c.Skip("another tree")
				}
				samePos(c, s, top, got)
				sliceCheck(c, s, n)
				c.Count("large expressions", 1)
				c.Distinct(s)
			}},
			{Name: "runes", Quick: 37500, Thorough: 1000000, Run: func(c *Case) {
				s := runeInContext(c)
				c.Input(s)
				n, err := parse(c, s)
				if err != nil {
					c.Skip("rejected")
				}
				sliceCheck(c, s, n)
				want, v := refParse(s)
				if got := fromAST(n); v == vOK && want.Same(got) {
					samePos(c, s, want, got)
				}
				c.Distinct(s)
			}},
			{Name: "arbitrary", Quick: 62500, Thorough: 2500000, Run: func(c *Case) {
				s := anyInput(c)
				c.Input(s)
				n, err := parse(c, s)
				if err != nil {
					c.Skip("rejected")
				}
				sliceCheck(c, s, n)
				want, v := refParse(s)
				got := fromAST(n)
				if v == vOK && want.Same(got) {
					samePos(c, s, want, got)
				}
				if got.Count() >= 3 {
					c.Distinct(s)
				}
			}},
		}, enumerated(func(c *Case, s string) {
			c.Input(s)
			n, err := parse(c, s)
			if err != nil {
				return
			}
			sliceCheck(c, s, n)
			want, v := refParse(s)
			if v == vOK {
				if got := fromAST(n); want.Same(got) {
					samePos(c, s, want, got)
				}
			}
		})...),
	})

	register(&Check{
		ID: "C05",
		Rule: "case = one math expression laid out twice: tokens written as closely as possible, and with random spaces, tabs, line breaks and comments between any two tokens (also before arguments, optional arguments and script operands); " +
			"non-trivial = at least one insertion, counted by the pair of texts. The oracle compares the trees (positions aside) and all drawing operations and sizes",
		Need: []string{"trees compared", "drawings compared", "insertions", "large insertions"},
		Families: []*Family{
			{Name: "trees", Quick: 50000, Thorough: 2000000, Run: func(c *Case) {
				g := newGrammar(c)
				m := g.Math(1 + c.Intn(5))
				top := &N{K: kList, Kids: []*N{m}}
				a, wa := source(top, noTrivia, "")
				wb := newWriter(c.randTrivia(10+c.Intn(90), true))
				wb.ctl = func() string { return pick(c, []string{" ", "\t", "\n", "\r"}) }
				wb.list(top.Kids, false)
				b := wb.buf.String()
				c.Input(b)
				c.Count("insertions", len(b)-len(a))
				na, err := parse(c, a)
				if err != nil {
					c.Skip("rejected without white space")
				}
				nb, err := parse(c, b)
				if err != nil {
					c.Failf("%q is accepted but %q is not: %v", a, b, err)
				}
				ta, tb := fromAST(na), fromAST(nb)
				c.Count("trees compared", 1)
				if !ta.Same(tb) {
					c.Failf("white space or comments change the tree: %s\n plain: %q\n other: %q", ta.Diff(tb), a, b)
				}
				if !top.Same(tb) {
					c.Failf("content lost or added: %s in %q", top.Diff(tb), b)
				}
				if a != b {
					c.Distinct(a + "\x00" + b)
				}
				_ = wa
				c.Sample([]string{a, b})
			}},
			{Name: "one-gap", Quick: 3750, Thorough: 150000, Run: func(c *Case) {
				// one insertion at every gap between tokens of an expression.
				g := newGrammar(c)
				g.MaxKids = 3
				m := g.Math(1 + c.Intn(3))
				top := &N{K: kList, Kids: []*N{m}}
				a, wa := source(top, noTrivia, "")
				if len(wa.off) > 40 {
					c.Skip("long")
				}
				ins := []string{" ", "\t", "\n", "\r\n", "  ", "%\n", "%}$\n", "% \"q\n", " %\\frac{\r\n \n", "\n\n\n"}
				for i := 1; i < len(wa.off); i++ {
					for _, x := range ins {
						b := a[:wa.off[i]] + x + a[wa.off[i]:]
						c.Input(b)
						n, err := parse(c, b)
						if err != nil {
							c.Failf("%q is well-formed but %q is rejected: %v", a, b, err)
						}
						c.Count("trees compared", 1)
						c.Count("insertions", 1)
						if t := fromAST(n); !top.Same(t) {
							c.Failf("insertion of %q changes the tree: %s\n %q", x, top.Diff(t), b)
						}
						c.Distinct(b)
					}
				}
			}},
			{Name: "text-comments", Quick: 15000, Thorough: 400000, Run: func(c *Case) {
				// outside of math, comments and line breaks are dropped, spaces kept.
				s, top, _ := genSource(c, 2)
				c.Input(s)
				n, err := parse(c, s)
				if err != nil {
					c.Failf("%q rejected: %v", s, err)
				}
				c.Count("trees compared", 1)
				if t := fromAST(n); !top.Same(t) {
					c.Failf("%s in %q", top.Diff(t), s)
				}
			}},
			{Name: "large", Quick: 200, Thorough: 8000, Run: func(c *Case) {
				n := pick(c, []int{600, 3000, 20000})
				g := newGrammar(c)
				var top *N
				if c.Intn(3) == 0 {
					top = &N{K: kList, Kids: []*N{g.Math(1 + c.Intn(4))}}
				} else {
					top = bigTop(c, n)
				}
				a, _ := source(top, noTrivia, "")
				b, _ := source(top, c.bigTrivia(n), "")
				c.Input(b)
				c.Count("insertions", len(b)-len(a))
				na, err := parse(c, a)
				if err != nil {
					c.Skip("rejected without white space")
				}
				nb, err := parse(c, b)
				if err != nil {
					c.Failf("%q is accepted but %q is not: %v", clip(a), clip(b), err)
				}
				ta, tb := fromAST(na), fromAST(nb)
				c.Count("trees compared", 1)
				if !ta.Same(tb) {
					c.Failf("white space or comments change the tree: %s\n plain: %q\n other: %q", ta.Diff(tb), clip(a), clip(b))
				}
				c.Count("large insertions", 1)
				c.Distinct(a + "\x00" + b)
			}},
			{Name: "drawings", Quick: 15000, Thorough: 400000, Run: func(c *Case) { c05draw(c) }},
			{Name: "large drawings", Quick: 80, Thorough: 3000, Run: func(c *Case) {
				g := drawGrammar(c)
				m := g.Math(1 + c.Intn(3))
				for n := c.Intn(30); n > 0; n-- {
					m.Kids = append(m.Kids, g.Math(1).Kids...)
				}
				c05compare(c, &N{K: kList, Kids: []*N{m}}, c.bigTrivia(pick(c, []int{300, 3000, 20000})))
			}},
		},
	})
}

// runeInContext writes a character of any kind next to tokens of all kinds.
const charBlocks = 0x30000 / 128

// everyCharacter calls f with sources that hold each character of a block,
// alone, inside of words and after numbers, in text and math. The quick tier
// takes some of the ideographs and Hangul syllables, which are many.
func everyCharacter(c *Case, f func(s string)) {
	many := func(r rune) bool {
		return r >= 0x3400 && r < 0xa000 || r >= 0xac00 && r < 0xd7a4 || r >= 0x17000 && r < 0x19000 || r >= 0x20000
	}
	for r := rune(c.Index * 128); r < rune(c.Index*128+128); r++ {
		if !utf8.ValidRune(r) || many(r) && !c.Thorough() && c.Intn(16) > 0 {
			continue
		}
		x := string(r)
		f("$a" + x + "b$")
		if r < 0x3400 || c.Thorough() {
			f("a" + x + "b")
			f("$" + x + "$")
		}
		f(pick(c, []string{"$1" + x + "2$", x, `$\alpha` + x + "$", "$x^" + x + "$", `$\` + x + "$", "a" + x, "$a" + x + "$", `\frac{` + x + `}{}`}))
	}
}

func runeInContext(c *Case) string {
	o := ""
	math := c.Intn(2) == 0
	if math {
		o = "$"
	}
	ctx := []string{"", "", "a", "x", "1", "1.", ".", " ", "+", "\\alpha", "\\", "%", "\n", "{", "}", "\\frac{", "\\sqrt[", "]", "^", "_", "é", "-"}
	for n := 1 + c.Intn(2); n > 0; n-- {
		o += pick(c, ctx) + string(oneRune(c))
		if c.Intn(3) == 0 {
			o += string(oneRune(c))
		}
		o += pick(c, ctx)
	}
	if math {
		o += pick(c, []string{"$", "$", "$", "}$", "\n$"})
	}
	return o
}

// treeIs parses s and compares the tree with the wanted one.
func treeIs(c *Case, s string, want *N) {
	c.Input(s)
	got := mustParse(c, s)
	c.Count("nodes compared", want.Count())
	want.Each(func(n *N) { c.Count("compared "+n.K, 1) })
	if !want.Same(got) {
		c.Failf("wrong tree for %q: %s\n want: %s\n got:  %s", s, want.Diff(got), clip(want.String()), clip(got.String()))
	}
	if want.Count() >= 3 {
		c.Distinct(s)
	}
}

func clip(s string) string {
	if len(s) > 1500 {
		return s[:1500] + "..."
	}
	return s
}

// parity tells whether the unescaped delimiters of s cannot match, whatever
// the grammar.
func parity(s string) (why string) {
	depth, dollars := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '\\':
			i++
		case '%':
			j := strings.IndexByte(s[i:], '\n')
			if j < 0 {
				i = len(s)
			} else {
				i += j
			}
		case '{':
			depth++
		case '}':
			depth--
			if depth < 0 {
				return "a closing brace without an opening one"
			}
		case '$':
			dollars++
		}
	}
	switch {
	case depth != 0:
		return "unequal numbers of braces"
	case dollars%2 != 0:
		return "an odd number of math delimiters"
	}
	return ""
}

// judge checks the verdict on one string.
func judge(c *Case, s string) {
	c.Input(s)
	_, v := refParse(s)
	why := parity(s)
	_, err := parse(c, s)
	switch {
	case why != "":
		c.Distinct(s)
		if err == nil {
			c.Failf("malformed expression accepted (%s): %q", why, s)
		}
		c.Count("malformed strings rejected", 1)
	case v == vBad:
		c.Distinct(s)
		if err == nil {
			c.Failf("malformed expression accepted: %q", s)
		}
		c.Count("malformed strings rejected", 1)
	case v == vOK:
		if err != nil {
			c.Failf("well-formed expression rejected: %q: %v", s, err)
		}
		c.Count("well-formed strings accepted", 1)
	default:
		c.Count("strings left open", 1)
	}
}

// damage breaks an expression at one of its tokens.
func damage(c *Case, s string, w *Writer) string {
	if len(w.off) == 0 {
		return s + pick(c, fragments)
	}
	i := c.Intn(len(w.off))
	// prefer delimiters.
	for k := 0; k < 20; k++ {
		j := c.Intn(len(w.off))
		if strings.ContainsAny(s[w.off[j]:w.off[j]+1], "{}[]$^_\\") {
			i = j
			break
		}
	}
	off := w.off[i]
	end := len(s)
	if i+1 < len(w.off) {
		end = w.off[i+1]
	}
	_, n := utf8.DecodeRuneInString(s[off:])
	switch c.Intn(6) {
	case 0:
		return s[:off] + s[off+n:] // delete the delimiter
	case 1:
		return s[:off] + s[end:] // delete the token
	case 2:
		return s[:off] + s[off:off+n] + s[off:] // double it
	case 3:
		return s[:off] + pick(c, []string{"}", "{", "$", "]", "[", "^", "_", "\\", "\\nosuchmacro ", "\\frac", "\\sqrt[", "&", "~", "\x00", "\""}) + s[off:]
	case 4:
		return s[:off]
	default:
		return s[:off] + pick(c, []string{"}", "{", "$", "]", "["}) + s[off+n:]
	}
}

// malformedTemplate builds expressions that are malformed by construction.
func malformedTemplate(c *Case) {
	g := newGrammar(c)
	in := func(math bool) string {
		x := genCtx{math: math, depth: 2, inner: true, opt: true}
		w := newWriter(noTrivia)
		w.list(g.kids(x, c.Intn(4)), math)
		return w.buf.String()
	}
	t := in(false)
	m := in(true)
	one := pick(c, argMacros)
	bad := []string{
		"$" + m,
		t + "$",
		"$" + m + " $$",
		"$" + m + "}$",
		"$" + m + "{$",
		"${" + m + "$",
		t + "}",
		"$x^$", "$x_$", "x^", "x_", "$" + m + "^$", "$" + m + " _$", "{x^}", "$\\frac{x^}{b}$", "$\\sqrt[x_]{b}$x^", "$x^}$",
		"$" + one + "$", one, one + "{" + t, "$" + one + "{" + m + "$", "$" + one + " x$", one + "}", "$" + one + "]$", "$" + one + "(x)$",
		`\frac{` + t + `}`, `$\frac{` + m + `}$`, `$\frac{` + m + `} x$`, `$\frac{` + m + `}{` + m + `$`, `$\frac` + m + `$`, `\binom{a}b`, `$\dfrac a b$`,
		`$\sqrt[` + m + `{x}$`, `$\sqrt[` + m + `]$`, `$\sqrt[` + m + `]x$`, `\sqrt[` + t, `$\sqrt` + `$`, `\sqrt{` + t, `$\sqrt[a]{` + m + `$`, `$\sqrt]{x}$`,
		`\nosuchmacro`, `$\nosuchmacro{a}$`, `\alphaa`, `$\Frac{a}{b}$`, `\genfrac`, `$\begin{math}x\end{math}$`, `\left(x\right)`, `\\`, `\`, `$x\$`, `\1`, `$\é$`,
		"$" + m + "&$", t + "~", "#", "$@$", "\x00", "$x\xff$", "\"a\"", "`", "|", "$\u0301$", "\u2211",
		"$" + m + "$$", "$$" + m + "$", "$a$b$",
		"%$\n$", "$%$", "$x%}\n", "{%}", "$\\frac{a}{b%}$",
	}
	s := bad[c.Index%len(bad)]
	if v, ok := macroArity[one]; ok && strings.HasPrefix(v, "O") && strings.Contains(s, one) {
		// an optional argument changes what follows.
		_ = v
	}
	_, v := refParse(s)
	if v == vOK && parity(s) == "" {
		// the random part happens to complete the template.
		c.Count("templates that came out well-formed", 1)
	}
	judge(c, s)
	// and inside of other constructs.
	judge(c, "$a$"+s)
	judge(c, "$\\overline{"+s+"}$")
	judge(c, "\\textbf{"+s+"} "+t)
	judge(c, s+" "+t)
	judge(c, "$"+m+"$"+s+"$"+m+"$")
	c.Sample(s)
}

// samePos compares the positions of two trees of the same shape.
func samePos(c *Case, s string, want, got *N) {
	c.Count("positions compared", 1)
	empty := want.P < 0 && want.E < 0
	if want.E < 0 && (want.K == kSub || want.K == kSup) {
		// operand without a position: only the start is known.
		if want.P != got.P {
			c.Failf("%s: start %d instead of %d in %q", want.K, got.P, want.P, s)
		}
	} else if !empty && want.K != kList && (want.P != got.P || want.E != got.E) {
		c.Failf("%s%q at [%d,%d) instead of [%d,%d) in %q", want.K, want.T, got.P, got.E, want.P, want.E, s)
	} else if !empty && want.K == kList && want.E >= 0 && want.P >= 0 && (want.P != got.P || want.E != got.E) {
		c.Failf("group at [%d,%d) instead of [%d,%d) in %q", got.P, got.E, want.P, want.E, s)
	}
	switch want.K {
	case kArg, kOpt, kMath:
		if want.Close != got.Close {
			c.Failf("closing delimiter of %s at %d instead of %d in %q", want.K, got.Close, want.Close, s)
		}
	}
	for i := range want.Kids {
		samePos(c, s, want.Kids[i], got.Kids[i])
	}
}

// sliceCheck compares every node with the source text it claims.
func sliceCheck(c *Case, s string, x ast.Node) {
	var last int
	at := func(p, e int, text string, what string) {
		c.Count("source slices compared", 1)
		if p < 0 || e < p || e > len(s) {
			c.Failf("%s at [%d,%d), source has %d bytes: %q", what, p, e, len(s), s)
		}
		if s[p:e] != text {
			c.Failf("%s %q at [%d,%d), where the source has %q: %q", what, text, p, e, s[p:e], s)
		}
		if p < last {
			c.Failf("%s %q at %d overlaps its predecessor, which ends at %d: %q", what, text, p, last, s)
		}
		last = e
	}
	var walk func(x ast.Node)
	delim := func(p int, text string, what string) { at(p, p+len(text), text, what) }
	walk = func(x ast.Node) {
		if isNil(x) {
			return
		}
		switch x := x.(type) {
		case ast.List:
			for _, k := range x {
				walk(k)
			}
		case *ast.Word:
			at(int(x.Pos()), int(x.End()), x.Text, "word")
		case *ast.Literal:
			at(int(x.Pos()), int(x.End()), x.Text, "number")
		case *ast.Symbol:
			at(int(x.Pos()), int(x.End()), x.Text, "symbol")
		case *ast.Macro:
			p, e := int(x.Name.Pos()), int(x.Name.End())
			if int(x.Pos()) != p {
				c.Failf("macro at %d, its name at %d: %q", x.Pos(), p, s)
			}
			if x.Name.Name == `\ ` {
				if e > len(s) || p < 0 || s[p] != '\\' || !strings.ContainsAny(s[p+1:e], " \t\n\r") {
					c.Failf("control space at [%d,%d) in %q", p, e, s)
				}
				last = e
			} else {
				at(p, e, x.Name.Name, "macro")
			}
			for _, k := range x.Args {
				walk(k)
			}
			if int(x.End()) != last {
				c.Failf("macro %q ends at %d instead of %d: %q", x.Name.Name, x.End(), last, s)
			}
		case *ast.Arg:
			delim(int(x.Pos()), "{", "argument")
			for _, k := range x.List {
				walk(k)
			}
			delim(int(x.Rbrace), "}", "argument")
			if int(x.End()) != last {
				c.Failf("argument ends at %d instead of %d: %q", x.End(), last, s)
			}
		case *ast.OptArg:
			delim(int(x.Pos()), "[", "optional argument")
			for _, k := range x.List {
				walk(k)
			}
			delim(int(x.Rbrack), "]", "optional argument")
			if int(x.End()) != last {
				c.Failf("optional argument ends at %d instead of %d: %q", x.End(), last, s)
			}
		case *ast.MathExpr:
			delim(int(x.Pos()), x.Delim, "math expression")
			for _, k := range x.List {
				walk(k)
			}
			delim(int(x.Right), "$", "math expression")
			if int(x.End()) != last {
				c.Failf("math expression ends at %d instead of %d: %q", x.End(), last, s)
			}
		case *ast.Sub:
			delim(int(x.Pos()), "_", "subscript")
			walk(x.Node)
		case *ast.Sup:
			delim(int(x.Pos()), "^", "superscript")
			walk(x.Node)
		}
	}
	walk(x)
	_ = bytes.MinRead
}
