package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/go-latex/latex/ast"
)

// Kinds of nodes of the monitors' own syntax trees.
const (
	kList  = "List"
	kMacro = "Macro"
	kArg   = "Arg"
	kOpt   = "OptArg"
	kMath  = "Math"
	kWord  = "Word"
	kLit   = "Lit"
	kSym   = "Sym"
	kSub   = "Sub"
	kSup   = "Sup"
	kNil   = "nil"
	kIdent = "Ident"
)

// N is a node of the monitors' syntax trees.
type N struct {
	K    string
	T    string // text of words, literals, symbols; name of macros; delimiter of math
	Kids []*N

	P, E  int // start and end offsets (-1: none)
	Close int // offset of the closing delimiter of Arg, OptArg, Math
}

func (n *N) String() string {
	o := new(strings.Builder)
	n.write(o)
	return o.String()
}

func (n *N) write(o *strings.Builder) {
	o.WriteString(n.K)
	switch n.K {
	case kMacro, kWord, kLit, kSym, kIdent:
		fmt.Fprintf(o, "%q", n.T)
	}
	if len(n.Kids) > 0 || n.K == kList || n.K == kArg || n.K == kOpt || n.K == kMath {
		o.WriteByte('(')
		for i, k := range n.Kids {
			if i > 0 {
				o.WriteByte(' ')
			}
			k.write(o)
		}
		o.WriteByte(')')
	}
}

// Same tells whether two trees are the same up to positions.
func (n *N) Same(m *N) bool {
	if n.K != m.K || n.T != m.T || len(n.Kids) != len(m.Kids) {
		return false
	}
	for i := range n.Kids {
		if !n.Kids[i].Same(m.Kids[i]) {
			return false
		}
	}
	return true
}

// Diff describes the first difference between two trees.
func (n *N) Diff(m *N) string {
	if n.K != m.K || n.T != m.T {
		return fmt.Sprintf("%s%q instead of %s%q", m.K, m.T, n.K, n.T)
	}
	for i := range n.Kids {
		if i >= len(m.Kids) {
			return fmt.Sprintf("in %s%q: %d items instead of %d", n.K, n.T, len(m.Kids), len(n.Kids))
		}
		if d := n.Kids[i].Diff(m.Kids[i]); d != "" {
			return d
		}
	}
	if len(m.Kids) > len(n.Kids) {
		return fmt.Sprintf("in %s%q: %d items instead of %d", n.K, n.T, len(m.Kids), len(n.Kids))
	}
	return ""
}

func (n *N) Count() int {
	c := 1
	for _, k := range n.Kids {
		c += k.Count()
	}
	return c
}

func (n *N) Each(f func(*N)) {
	f(n)
	for _, k := range n.Kids {
		k.Each(f)
	}
}

func (n *N) Has(f func(*N) bool) bool {
	if f(n) {
		return true
	}
	for _, k := range n.Kids {
		if k.Has(f) {
			return true
		}
	}
	return false
}

func (n *N) Depth() int {
	d := 0
	for _, k := range n.Kids {
		if v := k.Depth(); v > d {
			d = v
		}
	}
	return d + 1
}

// isNil tells nil interfaces and typed nil pointers.
func isNil(x ast.Node) bool {
	if x == nil {
		return true
	}
	v := reflect.ValueOf(x)
	return v.Kind() == reflect.Ptr && v.IsNil()
}

// fromAST converts a tree of the code under test.
func fromAST(x ast.Node) *N {
	if isNil(x) {
		return &N{K: kNil, P: -1, E: -1}
	}
	n := &N{}
	kids := func(l ast.List) {
		for _, k := range l {
			n.Kids = append(n.Kids, fromAST(k))
		}
	}
	switch x := x.(type) {
	case ast.List:
		n.K = kList
		kids(x)
	case *ast.Macro:
		n.K = kMacro
		if x.Name == nil {
			n.T = "<no name>"
			return n
		}
		n.T = x.Name.Name
		kids(x.Args)
	case *ast.Arg:
		n.K = kArg
		n.Close = int(x.Rbrace)
		kids(x.List)
	case *ast.OptArg:
		n.K = kOpt
		n.Close = int(x.Rbrack)
		kids(x.List)
	case *ast.MathExpr:
		n.K = kMath
		n.Close = int(x.Right)
		n.T = x.Delim
		kids(x.List)
	case *ast.Word:
		n.K, n.T = kWord, x.Text
	case *ast.Literal:
		n.K, n.T = kLit, x.Text
	case *ast.Symbol:
		n.K, n.T = kSym, x.Text
	case *ast.Ident:
		n.K, n.T = kIdent, x.Name
	case *ast.Sub:
		n.K = kSub
		n.Kids = []*N{fromAST(x.Node)}
	case *ast.Sup:
		n.K = kSup
		n.Kids = []*N{fromAST(x.Node)}
	default:
		n.K = fmt.Sprintf("%T", x)
	}
	n.P, n.E = -1, -1
	if n.Has(func(k *N) bool { return k.K == kNil }) {
		return n // not a tree of the parser: no extent
	}
	n.P, n.E = int(x.Pos()), int(x.End())
	return n
}
