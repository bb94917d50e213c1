package main

import (
	"strings"
	"unicode"
	"unicode/utf8"
)

// The reference parser: an independent recogniser of the language, written
// from its description. It is used to decide what an arbitrary string means.

type verdict int

const (
	vOK      verdict = iota // well-formed
	vBad                    // malformed, or not part of the language
	vUnclear                // not settled by the properties
)

type rtok struct {
	k   string // "word", "num", "sym", "macro", "{", "}", "[", "]", "space", "eof", "bad"
	t   string
	pos int
	end int
}

// refTokens cuts a string into tokens. Spaces are kept, other white space and
// comments are dropped.
func refTokens(s string) []rtok {
	var o []rtok
	i := 0
	if strings.HasPrefix(s, "\ufeff") {
		i = 3
	}
	isDig := func(j int) bool { return j < len(s) && isDigitByte(s[j]) }
	for i < len(s) {
		r, n := utf8.DecodeRuneInString(s[i:])
		switch {
		case r == '\t' || r == '\n' || r == '\r':
			i++
		case r == ' ':
			o = append(o, rtok{"space", " ", i, i + 1})
			i++
		case r == '%':
			j := strings.IndexByte(s[i:], '\n')
			if j < 0 {
				i = len(s)
			} else {
				i += j + 1
			}
		case r == utf8.RuneError && n == 1:
			return append(o, rtok{"bad", "", i, i})
		case unicode.IsLetter(r):
			j := i
			for j < len(s) {
				r, n := utf8.DecodeRuneInString(s[j:])
				if !unicode.IsLetter(r) {
					break
				}
				j += n
			}
			o = append(o, rtok{"word", s[i:j], i, j})
			i = j
		case isDig(i) || (r == '.' && isDig(i+1)):
			j := i
			dot := false
			for isDig(j) || (j < len(s) && s[j] == '.' && !dot) {
				dot = dot || s[j] == '.'
				j++
			}
			o = append(o, rtok{"num", s[i:j], i, j})
			i = j
		case r == '\\':
			if i+1 >= len(s) {
				return append(o, rtok{"bad", "", i, i})
			}
			r, n := utf8.DecodeRuneInString(s[i+1:])
			switch {
			case r == ' ' || r == '\t' || r == '\n' || r == '\r':
				o = append(o, rtok{"macro", `\ `, i, i + 2})
				i += 2
			case unicode.IsLetter(r):
				j := i + 1
				for j < len(s) {
					r, n := utf8.DecodeRuneInString(s[j:])
					if !unicode.IsLetter(r) {
						break
					}
					j += n
				}
				o = append(o, rtok{"macro", s[i:j], i, j})
				i = j
			default:
				o = append(o, rtok{"macro", s[i : i+1+n], i, i + 1 + n})
				i += 1 + n
			}
		case strings.ContainsRune("$_=<>^/*-+!?':,;.()", r):
			o = append(o, rtok{"sym", string(r), i, i + 1})
			i++
		case strings.ContainsRune("{}[]", r):
			o = append(o, rtok{string(r), string(r), i, i + 1})
			i++
		default:
			return append(o, rtok{"bad", "", i, i})
		}
	}
	return append(o, rtok{"eof", "", len(s), len(s)})
}

type refParser struct {
	toks []rtok
	i    int
	v    verdict
	lvl  int
}

type refStop struct{ v verdict }

func (p *refParser) stop(v verdict) { panic(refStop{v}) }

func (p *refParser) peek() rtok { return p.toks[p.i] }
func (p *refParser) next() rtok {
	t := p.toks[p.i]
	if t.k == "bad" {
		p.stop(vBad)
	}
	if t.k != "eof" {
		p.i++
	}
	return t
}

func (p *refParser) skip() {
	for p.peek().k == "space" {
		p.i++
	}
}

// refParse returns the tree of s if it is well-formed.
func refParse(s string) (n *N, v verdict) {
	p := &refParser{toks: refTokens(s)}
	defer func() {
		if e := recover(); e != nil {
			st, ok := e.(refStop)
			if !ok {
				panic(e)
			}
			n, v = nil, st.v
		}
	}()
	n = &N{K: kList}
	for p.peek().k != "eof" {
		if k := p.node(false); k != nil {
			n.Kids = append(n.Kids, k)
		}
	}
	n.span()
	return n, vOK
}

// until parses items up to a closing token of the given kind and returns it.
func (p *refParser) until(n *N, math bool, end func(rtok) bool) rtok {
	for {
		t := p.peek()
		if t.k == "eof" {
			p.stop(vBad)
		}
		if end(t) {
			return p.next()
		}
		if k := p.node(math); k != nil {
			n.Kids = append(n.Kids, k)
		}
	}
}

func kindIs(k string) func(rtok) bool { return func(t rtok) bool { return t.k == k } }

func (p *refParser) node(math bool) *N {
	p.lvl++
	defer func() { p.lvl-- }()
	if p.lvl > 300 {
		p.stop(vUnclear) // nesting limits are the business of the parser
	}
	t := p.next()
	switch t.k {
	case "word":
		return &N{K: kWord, T: t.t, P: t.pos, E: t.end}
	case "num":
		return &N{K: kLit, T: t.t, P: t.pos, E: t.end}
	case "space":
		if math {
			return nil
		}
		return &N{K: kSym, T: " ", P: t.pos, E: t.end}
	case "[", "]":
		return &N{K: kSym, T: t.t, P: t.pos, E: t.end}
	case "{":
		if !math {
			p.stop(vUnclear)
		}
		n := &N{K: kList}
		p.until(n, math, kindIs("}"))
		n.span()
		return n
	case "sym":
		switch t.t {
		case "$":
			n := &N{K: kMath, T: "$", P: t.pos}
			e := p.until(n, true, func(t rtok) bool { return t.k == "sym" && t.t == "$" })
			n.Close, n.E = e.pos, e.end
			return n
		case "^", "_":
			n := &N{K: kSub, P: t.pos}
			if t.t == "^" {
				n.K = kSup
			}
			p.skip()
			switch o := p.peek(); {
			case o.k == "{":
				p.next()
				l := &N{K: kList}
				p.until(l, math, kindIs("}"))
				l.span()
				n.Kids = []*N{l}
			case o.k == "eof" || o.k == "}" || o.k == "bad":
				p.stop(vBad)
			case o.k == "]" || (o.k == "sym" && strings.Contains("$^_", o.t)):
				p.stop(vUnclear)
			default:
				n.Kids = []*N{p.node(math)}
			}
			n.E = n.Kids[0].E
			return n
		}
		return &N{K: kSym, T: t.t, P: t.pos, E: t.end}
	case "macro":
		arity, ok := macroArity[t.t]
		if !ok {
			p.stop(vBad)
		}
		n := &N{K: kMacro, T: t.t, P: t.pos, E: t.pos + len(t.t)}
		for _, a := range arity {
			p.skip()
			switch a {
			case 'A':
				o := p.next()
				if o.k != "{" {
					p.stop(vBad)
				}
				arg := &N{K: kArg, P: o.pos}
				e := p.until(arg, math, kindIs("}"))
				arg.Close, arg.E = e.pos, e.end
				n.Kids = append(n.Kids, arg)
				n.E = arg.E
			case 'O':
				if p.peek().k != "[" {
					continue
				}
				o := p.next()
				arg := &N{K: kOpt, P: o.pos}
				e := p.until(arg, math, kindIs("]"))
				arg.Close, arg.E = e.pos, e.end
				n.Kids = append(n.Kids, arg)
				n.E = arg.E
			}
		}
		return n
	}
	p.stop(vBad) // stray '}' and anything unknown
	return nil
}
