package main

import (
	"strings"
	"unicode"
	"unicode/utf8"
)

// Grammar parametrises the generator of expressions.
type Grammar struct {
	c *Case

	Words   []string
	Macros  []string // argument-less macros
	ArgMac  []string // macros with arguments
	SymMath []string
	SymText []string
	Nums    func() string

	Scripts    bool // sub- and superscripts
	NestedMath bool // $...$ within a group or argument in math
	Groups     bool
	TextMacros bool // macros with arguments in text mode
	MaxKids    int
}

var (
	latin     = []string{"a", "b", "x", "y", "f", "n", "ab", "xyz", "Time", "Q", "sin", "mm", "fi", "AV"}
	intlWords = []string{"é", "Ünï", "αβ", "да", "日本", "ħ", "a", "ß", "ﬁ", "𝒳y", "ñandú", "Ω"}
	symMath   = []string{"=", "<", ">", "/", "*", "-", "+", "!", "?", "'", ":", ",", ";", ".", "(", ")", "[", "]"}
	symText   = append([]string{" ", " ", " "}, symMath...)
)

func allMacros(withArgs bool) []string {
	var o []string
	for _, k := range sortedKeys(macroArity) {
		if (macroArity[k] != "") == withArgs {
			o = append(o, k)
		}
	}
	return o
}

var (
	plainMacros = allMacros(false)
	argMacros   = allMacros(true)
)

// newGrammar is the whole language of the parser.
func newGrammar(c *Case) *Grammar {
	g := &Grammar{
		c: c, Words: latin, Macros: plainMacros, ArgMac: argMacros,
		SymMath: symMath, SymText: symText,
		Scripts: true, NestedMath: true, Groups: true, TextMacros: true, MaxKids: 5,
	}
	if c.Intn(3) == 0 {
		g.Words = append(append([]string{}, latin...), intlWords...)
	}
	return g
}

func (g *Grammar) num() string {
	if g.Nums != nil {
		return g.Nums()
	}
	c := g.c
	digits := func() string {
		n := 1 + c.Intn(3)
		if c.Intn(25) == 0 {
			n = 1 + c.Intn(40)
		}
		b := make([]byte, n)
		zero := c.Intn(n + 1) // zeros from here
		if c.Intn(4) > 0 {
			zero = n
		}
		for i := range b {
			if i >= zero {
				b[i] = '0'
				continue
			}
			b[i] = byte('0' + c.Intn(10))
		}
		return string(b)
	}
	switch c.Intn(6) {
	case 0:
		return digits() + "." + digits()
	case 1:
		return "." + digits()
	case 2:
		return digits() + "."
	}
	return digits()
}

type genCtx struct {
	math  bool
	opt   bool // directly inside an optional argument: no bare ']'
	inner bool // inside a group or argument: '$' opens nested math
	depth int  // remaining nesting
}

func (g *Grammar) Top(depth int) *N {
	return &N{K: kList, Kids: g.kids(genCtx{depth: depth}, 1+g.c.Intn(g.MaxKids))}
}

// Math returns an expression that is a single math expression.
func (g *Grammar) Math(depth int) *N {
	return &N{K: kMath, T: "$", Kids: g.kids(genCtx{math: true, depth: depth}, g.c.Intn(g.MaxKids+1))}
}

func (g *Grammar) kids(x genCtx, n int) []*N {
	var o []*N
	for i := 0; i < n; i++ {
		k := g.node(x)
		o = append(o, k)
		if k.K == kSym && g.c.Intn(8) == 0 {
			// dashes, ellipses, double primes.
			for m := 1 + g.c.Intn(3); m > 0; m-- {
				o = append(o, &N{K: kSym, T: k.T})
			}
		}
	}
	return o
}

// someWords are words with what typesetting systems are tempted to treat in
// a special way: ligatures, hyphenation, function and unit names.
var someWords = strings.Fields("fi ff fl ffi ffl ft tt Th Qu st ct IJ ij Dz ae oe AE office affine flow offline shuffle effluent " +
	"antidisestablishmentarianism pneumonoultramicroscopicsilicovolcanoconiosis sin cos log exp max det lim arcsin mod frac sqrt alpha Omega " +
	"dx dy pt em ex mu in cm if else and or inf nan NaN Inf true false nil x y z i j l I O o e E SS ss aa Aa aA")

// word is one of the grammar's words, or a random one.
func (g *Grammar) word() string {
	c := g.c
	switch c.Intn(8) {
	case 0:
		return pick(c, someWords)
	case 1:
		alphabet := pick(c, []string{"fil", "ab", "AVTo", "xX", "abcdefghijklmnopqrstuvwxyz", "ABCDEFGHIJKLMNOPQRSTUVWXYZ", "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"})
		n := 1 + c.Intn(8)
		if c.Intn(20) == 0 {
			n = 1 + c.Intn(80)
		}
		b := make([]byte, n)
		for i := range b {
			b[i] = alphabet[c.Intn(len(alphabet))]
		}
		return string(b)
	}
	return pick(c, g.Words)
}

func (g *Grammar) leaf(x genCtx) *N {
	c := g.c
	switch r := c.Intn(10); {
	case r < 3:
		return &N{K: kWord, T: g.word()}
	case r < 5:
		return &N{K: kLit, T: g.num()}
	case r < 8:
		return g.sym(x)
	default:
		return &N{K: kMacro, T: pick(c, g.Macros)}
	}
}

func (g *Grammar) sym(x genCtx) *N {
	set := g.SymText
	if x.math {
		set = g.SymMath
	}
	for {
		s := pick(g.c, set)
		if x.opt && s == "]" {
			continue
		}
		return &N{K: kSym, T: s}
	}
}

func (g *Grammar) node(x genCtx) *N {
	c := g.c
	if x.depth <= 0 || c.Intn(5) < 2 {
		return g.leaf(x)
	}
	in := x
	in.depth--
	in.opt = false
	in.inner = true
	for {
		switch c.Intn(5) {
		case 0:
			if !x.math {
				in.math, in.inner = true, false
				return &N{K: kMath, T: "$", Kids: g.kids(in, c.Intn(g.MaxKids+1))}
			}
			if g.Groups {
				return &N{K: kList, Kids: g.kids(in, c.Intn(g.MaxKids))}
			}
		case 1, 2:
			if len(g.ArgMac) > 0 && (x.math || g.TextMacros) {
				return g.macro(in, pick(c, g.ArgMac))
			}
		case 3:
			if g.Scripts {
				n := &N{K: pick(c, []string{kSub, kSup})}
				if c.Intn(2) == 0 {
					n.Kids = []*N{{K: kList, Kids: g.kids(in, c.Intn(3))}}
				} else {
					sub := in
					sub.opt = x.opt
					n.Kids = []*N{g.operand(sub)}
				}
				return n
			}
		case 4:
			if g.NestedMath && x.math && x.inner {
				in.inner = false
				return &N{K: kMath, T: "$", Kids: g.kids(in, c.Intn(g.MaxKids))}
			}
			return g.leaf(x)
		}
	}
}

// operand is the operand of a script that isn't a group.
func (g *Grammar) operand(x genCtx) *N {
	for {
		n := g.leaf(x)
		if len(g.ArgMac) > 0 && g.c.Intn(4) == 0 && (x.math || g.TextMacros) {
			in := x
			in.opt = false
			n = g.macro(in, pick(g.c, g.ArgMac))
		}
		if n.K == kSym && (n.T == " " || n.T == "]") {
			continue
		}
		return n
	}
}

func (g *Grammar) macro(x genCtx, name string) *N {
	n := &N{K: kMacro, T: name}
	for _, a := range macroArity[name] {
		switch a {
		case 'A':
			n.Kids = append(n.Kids, &N{K: kArg, Kids: g.kids(x, g.c.Intn(4))})
		case 'O':
			if g.c.Intn(2) == 0 {
				o := x
				o.opt = true
				n.Kids = append(n.Kids, &N{K: kOpt, Kids: g.kids(o, g.c.Intn(3))})
			}
		}
	}
	return n
}

// Trivia chooses what is written between two tokens: where returns white space
// and comments. need is true when something is required; text is true when a
// space would be significant.
type Trivia func(text, need bool) string

// noTrivia writes the least.
func noTrivia(text, need bool) string {
	switch {
	case !need:
		return ""
	case text:
		return "\n"
	}
	return " "
}

func (c *Case) comment() string {
	o := "%"
	for n := c.Intn(8); n > 0; n-- {
		o += pick(c, []string{"a", "é", " ", "$", "{", "}", "\\", "%", "\"", "'", "日", "[", "^", "1", "\t", "`", "\\frac", "\r"})
	}
	return o + "\n"
}

// randTrivia writes white space and comments at random.
func (c *Case) randTrivia(percent int, comments bool) Trivia {
	return func(text, need bool) string {
		if !need && c.Intn(100) >= percent {
			return ""
		}
		o := ""
		for n := 1 + c.Intn(3); n > 0; n-- {
			k := c.Intn(6)
			switch {
			case k == 0 && comments:
				o += c.comment()
			case k == 1:
				o += "\t"
			case k == 2:
				o += "\r\n"
			case k == 3:
				o += "\n"
			default:
				if text {
					o += "\n"
				} else {
					o += " "
				}
			}
		}
		return o
	}
}

// Writer turns a tree into source text and notes the positions of its nodes.
type Writer struct {
	buf    strings.Builder
	trivia Trivia
	ctl    func() string // white space of a control space
	last   string        // last token
	lastK  string        // its class: word, macro, num, other
	n      int           // tokens written
	off    []int         // offsets of the tokens
}

func newWriter(t Trivia) *Writer {
	return &Writer{trivia: t}
}

func isLetterStart(s string) bool {
	r, _ := utf8.DecodeRuneInString(s)
	return unicode.IsLetter(r)
}

// tok writes a token and returns its offset.
// text: a space in front of it would be significant.
func (w *Writer) tok(s, class string, text bool) int {
	need := false
	switch w.lastK {
	case "word", "macro":
		need = isLetterStart(s)
	case "num":
		dot := strings.Contains(w.last, ".")
		need = isDigitByte(s[0]) || (s[0] == '.' && !dot)
	case "other":
		need = w.last == "." && isDigitByte(s[0])
	}
	w.buf.WriteString(w.trivia(text, need))
	pos := w.buf.Len()
	w.buf.WriteString(s)
	w.last, w.lastK = s, class
	w.off = append(w.off, pos)
	w.n++
	return pos
}

func isDigitByte(b byte) bool { return '0' <= b && b <= '9' }

func (w *Writer) list(kids []*N, math bool) {
	for _, k := range kids {
		w.node(k, math)
	}
}

func (w *Writer) node(n *N, math bool) {
	w.write(n, math, !math)
}

// write writes a node. text: a space in front of it would be significant.
func (w *Writer) write(n *N, math, text bool) {
	switch n.K {
	case kWord:
		n.P = w.tok(n.T, "word", text)
		n.E = n.P + len(n.T)
	case kLit:
		n.P = w.tok(n.T, "num", text)
		n.E = n.P + len(n.T)
	case kSym:
		n.P = w.tok(n.T, "other", text)
		n.E = n.P + len(n.T)
	case kMacro:
		class := "other"
		if isLetterStart(n.T[1:]) {
			class = "macro"
		}
		src := n.T
		if src == `\ ` && w.ctl != nil {
			src = `\` + w.ctl()
		}
		n.P = w.tok(src, class, text)
		n.E = n.P + len(n.T)
		for _, a := range n.Kids {
			open, end := "{", "}"
			if a.K == kOpt {
				open, end = "[", "]"
			}
			a.P = w.tok(open, "other", false)
			w.list(a.Kids, math)
			a.Close = w.tok(end, "other", !math)
			a.E = a.Close + 1
			n.E = a.E
		}
	case kMath:
		n.P = w.tok("$", "other", text)
		w.list(n.Kids, true)
		n.Close = w.tok("$", "other", false)
		n.E = n.Close + 1
	case kList:
		w.tok("{", "other", text)
		w.list(n.Kids, math)
		w.tok("}", "other", !math)
		n.span()
	case kSub, kSup:
		mark := "_"
		if n.K == kSup {
			mark = "^"
		}
		n.P = w.tok(mark, "other", text)
		w.write(n.Kids[0], math, false)
		n.E = n.Kids[0].E
	default:
		panic("cannot write " + n.K)
	}
}

// span sets the extent of a list: from its first to its last item.
func (n *N) span() {
	n.P, n.E = -1, -1
	if len(n.Kids) > 0 {
		n.P = n.Kids[0].P
		n.E = n.Kids[len(n.Kids)-1].E
	}
}

// source writes the items of a top-level list in text mode.
func source(top *N, t Trivia, tail string) (string, *Writer) {
	w := newWriter(t)
	w.list(top.Kids, false)
	top.span()
	w.buf.WriteString(tail)
	return w.buf.String(), w
}

// bigTop returns a large expression, most of it in one list; what is large
// differs.
func bigTop(c *Case, n int) *N {
	g := newGrammar(c)
	g.MaxKids = 3
	x := genCtx{math: c.Intn(2) == 0, depth: 1 + c.Intn(2)}
	long := func(alphabet string, n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = alphabet[c.Intn(len(alphabet))]
		}
		return string(b)
	}
	var kids []*N
	switch c.Intn(6) {
	case 0: // long tokens
		for i := 1 + c.Intn(4); i > 0; i-- {
			kids = append(kids, g.kids(x, c.Intn(3))...)
			if c.Intn(2) == 0 {
				kids = append(kids, &N{K: kWord, T: long("abcXYZfil", 1+c.Intn(n))})
			} else {
				kids = append(kids, &N{K: kLit, T: long("0123456789", 1+c.Intn(n))})
			}
		}
		kids = append(kids, g.kids(x, c.Intn(3))...)
	case 1: // runs of equal symbols
		for i := 1 + c.Intn(4); i > 0; i-- {
			t := g.sym(x).T
			for m := 1 + c.Intn(n/2); m > 0; m-- {
				kids = append(kids, &N{K: kSym, T: t})
			}
			kids = append(kids, g.kids(x, c.Intn(3))...)
		}
	case 2: // runs of equal nodes
		k := g.node(x)
		for m := 1 + c.Intn(n/4); m > 0; m-- {
			kids = append(kids, k.clone())
		}
		kids = append(kids, g.kids(x, c.Intn(3))...)
	default:
		kids = g.kids(x, 1+c.Intn(n/4))
	}
	if x.math {
		kids = []*N{{K: kMath, T: "$", Kids: kids}}
		if c.Intn(2) == 0 {
			kids = append(g.kids(genCtx{depth: 1}, 3), append(kids, g.kids(genCtx{depth: 1}, 3)...)...)
		}
	}
	return &N{K: kList, Kids: kids}
}

// clone copies a tree, without its positions.
func (n *N) clone() *N {
	o := &N{K: n.K, T: n.T}
	for _, k := range n.Kids {
		o.Kids = append(o.Kids, k.clone())
	}
	return o
}

// bigTrivia writes little between most tokens and very much between a few.
func (c *Case) bigTrivia(n int) Trivia {
	percent := pick(c, []int{1, 5, 30})
	small := c.randTrivia(percent, true)
	left := 4
	return func(text, need bool) string {
		o := small(text, need)
		if left > 0 && c.Intn(20) == 0 {
			left--
			unit := pick(c, []string{"\n", "\t", "\r\n", "%\n", "%é\n", "% {$}\n", "%" + strings.Repeat("x", 1+c.Intn(n)) + "\n", " "})
			if text && unit == " " {
				unit = "\n"
			}
			m := 1 + c.Intn(n)
			o += strings.Repeat(unit, max(1, m/len(unit)))
		}
		return o
	}
}

// bigSource is a large expression with the tree it denotes.
func bigSource(c *Case) (string, *N, *Writer) {
	n := pick(c, []int{600, 600, 3000, 3000, 20000})
	if c.Intn(20) == 0 {
		n = 100000
	}
	top := bigTop(c, n)
	s, w := source(top, c.bigTrivia(n), "")
	return s, top, w
}

// oneRune is a character of any kind.
func oneRune(c *Case) rune {
	for {
		var r rune
		switch c.Intn(5) {
		case 0:
			r = rune(c.Intn(0x300))
		case 1:
			r = rune(c.Intn(0x3000))
		case 2:
			r = rune(c.Intn(0x20000))
		default:
			// evenly over the categories of Unicode.
			t := unicode.Categories[pick(c, categories)]
			if k := c.Intn(len(t.R16) + len(t.R32)); k < len(t.R16) {
				x := t.R16[k]
				r = rune(x.Lo) + rune(x.Stride)*rune(c.Intn(int((x.Hi-x.Lo)/x.Stride)+1))
			} else {
				x := t.R32[k-len(t.R16)]
				r = rune(x.Lo) + rune(x.Stride)*rune(c.Intn(int((x.Hi-x.Lo)/x.Stride)+1))
			}
		}
		if utf8.ValidRune(r) {
			return r
		}
	}
}

var categories = sortedKeys(unicode.Categories)
