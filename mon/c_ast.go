package main

import (
	"bytes"
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/go-latex/latex/ast"
	"github.com/go-latex/latex/token"
)

// toAST builds a tree of the code under test.
func toAST(c *Case, n *N) ast.Node {
	list := func() ast.List {
		if len(n.Kids) == 0 && c.Intn(2) == 0 {
			return nil
		}
		l := make(ast.List, len(n.Kids))
		for i, k := range n.Kids {
			if i > 0 && k == n.Kids[i-1] && k.K != kNil {
				l[i] = l[i-1] // the same node twice.
				continue
			}
			l[i] = toAST(c, k)
		}
		return l
	}
	p := func() token.Pos { return token.Pos(c.Intn(1000) - 1) }
	switch n.K {
	case kNil:
		return nil
	case kList:
		l := list()
		if l == nil {
			return ast.List{}
		}
		return l
	case kMacro:
		return &ast.Macro{Name: &ast.Ident{NamePos: p(), Name: n.T}, Args: list()}
	case kArg:
		return &ast.Arg{Lbrace: p(), List: list(), Rbrace: p()}
	case kOpt:
		return &ast.OptArg{Lbrack: p(), List: list(), Rbrack: p()}
	case kMath:
		return &ast.MathExpr{Delim: n.T, Left: p(), List: list(), Right: p()}
	case kWord:
		return &ast.Word{WordPos: p(), Text: n.T}
	case kLit:
		return &ast.Literal{LitPos: p(), Text: n.T}
	case kSym:
		return &ast.Symbol{SymPos: p(), Text: n.T}
	case kIdent:
		return &ast.Ident{NamePos: p(), Name: n.T}
	case kSub:
		return &ast.Sub{UnderPos: p(), Node: toAST(c, n.Kids[0])}
	case kSup:
		return &ast.Sup{HatPos: p(), Node: toAST(c, n.Kids[0])}
	}
	panic("kind " + n.K)
}

var oddTexts = []string{
	"", "a", "x", "é", "\"", "`", "\\", "\\\"", "}", "{", ", ", "<nil>", "ast.Word{\"a\"}", "%", "%s%d", "%!", "\x00", "\xff",
	"\n", "\t", "\u00a0", "\u2028", "日本", "a\"}, ast.Lit{\"b", "Args:", "List:", "]", "[", "$", " ", "\\alpha", "\\ ", "\U0001d4b3", "\u0301",
}

var allKinds = []string{kList, kMacro, kArg, kOpt, kMath, kWord, kLit, kSym, kSub, kSup, kIdent, kNil}

// anyTree generates a tree of any shape, not only those a parser returns.
func anyTree(c *Case, depth int, nils bool) *N {
	k := pick(c, allKinds)
	if depth <= 0 {
		k = pick(c, []string{kWord, kLit, kSym, kIdent, kNil, kList, kMacro, kMath, kArg, kOpt})
	}
	if k == kNil && !nils {
		k = kWord
	}
	n := &N{K: k}
	switch k {
	case kMacro, kWord, kLit, kSym, kIdent:
		n.T = pick(c, oddTexts)
	case kMath:
		n.T = pick(c, []string{"$", "\\(", ""})
	}
	switch k {
	case kList, kMacro, kArg, kOpt, kMath:
		if depth > 0 {
			for i := c.Intn(5); i > 0; i-- {
				n.Kids = append(n.Kids, anyTree(c, depth-1-c.Intn(2), nils))
				if c.Intn(12) == 0 {
					n.Kids = append(n.Kids, n.Kids[len(n.Kids)-1])
				}
			}
		}
	case kSub, kSup:
		n.Kids = []*N{anyTree(c, depth-1, nils)}
	}
	return n
}

// chain is a deep tree.
func chain(c *Case, depth int) *N {
	n := &N{K: kWord, T: "w"}
	for i := 0; i < depth; i++ {
		m := &N{K: pick(c, []string{kList, kMacro, kArg, kOpt, kMath, kSub, kSup})}
		if m.K == kMath {
			m.T = "$"
		}
		m.Kids = []*N{n}
		if m.K != kSub && m.K != kSup && c.Intn(3) == 0 {
			m.Kids = append(m.Kids, &N{K: kLit, T: fmt.Sprint(i)})
		}
		n = m
	}
	return n
}

// wide is a tree with long lists and long texts.
func wide(c *Case) *N {
	n := &N{K: pick(c, []string{kList, kMacro, kArg, kOpt, kMath})}
	switch n.K {
	case kMath:
		n.T = "$"
	case kMacro:
		n.T = longText(c)
	}
	for k := c.Intn(pick(c, []int{3, 70, 300, 1200})); k > 0; k-- {
		n.Kids = append(n.Kids, anyTree(c, c.Intn(2), false))
	}
	for k := c.Intn(3); k > 0; k-- {
		n.Kids = append(n.Kids, &N{K: pick(c, []string{kWord, kLit, kSym, kIdent}), T: longText(c)})
	}
	if c.Intn(2) == 0 {
		n = &N{K: pick(c, []string{kList, kArg, kSub}), Kids: []*N{n}}
	}
	return n
}

func longText(c *Case) string {
	b := new(strings.Builder)
	for k := c.Intn(pick(c, []int{40, 300, 5000})); k >= 0; k-- {
		b.WriteString(pick(c, []string{"a", "b", "é", "日", "\"", "0"}))
	}
	return b.String()
}

// walkTree makes the tree of a walking or printing case.
func walkTree(c *Case, nils bool, deep int) (*N, ast.Node) {
	switch c.Intn(8) {
	case 0, 1:
		s, _, _ := genSource(c, 1+c.Intn(4))
		c.Input(s)
		x, err := parse(c, s)
		if err != nil {
			c.Failf("%q rejected: %v", s, err)
		}
		c.Count("trees of the parser", 1)
		return fromAST(x), x
	case 2:
		most := 300
		if c.Intn(40) == 0 {
			most = deep
		}
		n := chain(c, 1+c.Intn(most))
		c.Count("deep trees", 1)
		c.Input(fmt.Sprintf("a chain of %d nodes", n.Count()))
		return n, toAST(c, n)
	case 3:
		if c.Intn(8) > 0 {
			break
		}
		n := wide(c)
		c.Count("wide trees", 1)
		c.Input(clip(n.String()))
		return n, toAST(c, n)
	}
	n := anyTree(c, 1+c.Intn(5), nils)
	for n.K == kNil {
		n = anyTree(c, 3, nils)
	}
	c.Input(n.String())
	return n, toAST(c, n)
}

// copyAST makes a deep copy.
func copyAST(x ast.Node) ast.Node {
	list := func(l ast.List) ast.List {
		if l == nil {
			return nil
		}
		o := make(ast.List, len(l))
		for i, k := range l {
			o[i] = copyAST(k)
		}
		return o
	}
	switch x := x.(type) {
	case nil:
		return nil
	case ast.List:
		return list(x)
	case *ast.Macro:
		y := *x
		if x.Name != nil {
			id := *x.Name
			y.Name = &id
		}
		y.Args = list(x.Args)
		return &y
	case *ast.Arg:
		y := *x
		y.List = list(x.List)
		return &y
	case *ast.OptArg:
		y := *x
		y.List = list(x.List)
		return &y
	case *ast.MathExpr:
		y := *x
		y.List = list(x.List)
		return &y
	case *ast.Sub:
		y := *x
		y.Node = copyAST(x.Node)
		return &y
	case *ast.Sup:
		y := *x
		y.Node = copyAST(x.Node)
		return &y
	case *ast.Word:
		y := *x
		return &y
	case *ast.Literal:
		y := *x
		return &y
	case *ast.Symbol:
		y := *x
		return &y
	case *ast.Ident:
		y := *x
		return &y
	}
	panic(fmt.Sprintf("type %T", x))
}

// sameNode tells whether two interfaces hold the very same node.
func sameNode(a, b ast.Node) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	la, oka := a.(ast.List)
	lb, okb := b.(ast.List)
	if oka || okb {
		return oka && okb && len(la) == len(lb) && (len(la) == 0 || &la[0] == &lb[0])
	}
	return a == b
}

// children are the non-nil children in source order.
func children(x ast.Node) []ast.Node {
	var o []ast.Node
	add := func(ns ...ast.Node) {
		for _, n := range ns {
			if n != nil {
				o = append(o, n)
			}
		}
	}
	switch x := x.(type) {
	case ast.List:
		add(x...)
	case *ast.Macro:
		if x.Name != nil {
			add(x.Name)
		}
		add(x.Args...)
	case *ast.Arg:
		add(x.List...)
	case *ast.OptArg:
		add(x.List...)
	case *ast.MathExpr:
		add(x.List...)
	case *ast.Sub:
		add(x.Node)
	case *ast.Sup:
		add(x.Node)
	}
	return o
}

// visit is one observed or expected call of a visitor.
type visit struct {
	by   int // which visitor was called
	node ast.Node
	ret  int // the visitor it returned; -1: none
}

func (v visit) String() string {
	if v.node == nil {
		return fmt.Sprintf("visitor %d: nil", v.by)
	}
	return fmt.Sprintf("visitor %d: %T -> %d", v.by, v.node, v.ret)
}

// tracer records the calls it receives.
type tracer struct {
	id  int
	log *traceLog
}

type traceLog struct {
	events []visit
	plan   func(i int, x ast.Node) bool // enter the node?
	next   int
	nodes  int
	fresh  bool // a new visitor per node
	vis    []*tracer
}

func (t *tracer) Visit(x ast.Node) ast.Visitor {
	l := t.log
	ev := visit{by: t.id, node: x, ret: -1}
	if x == nil {
		l.events = append(l.events, ev)
		return nil
	}
	i := l.nodes
	l.nodes++
	if !l.plan(i, x) {
		l.events = append(l.events, ev)
		return nil
	}
	w := t
	if l.fresh {
		l.next++
		w = &tracer{id: l.next, log: l}
	}
	ev.ret = w.id
	l.events = append(l.events, ev)
	return w
}

// expect computes the calls that the documentation of Walk promises.
func (l *traceLog) expect(by int, x ast.Node) {
	i := l.nodes
	l.nodes++
	ev := visit{by: by, node: x, ret: -1}
	if !l.plan(i, x) {
		l.events = append(l.events, ev)
		return
	}
	w := by
	if l.fresh {
		l.next++
		w = l.next
	}
	ev.ret = w
	l.events = append(l.events, ev)
	for _, k := range children(x) {
		l.expect(w, k)
	}
	l.events = append(l.events, visit{by: w, ret: -1})
}

func init() {
	register(&Check{
		ID: "C06", Rule: "a case is a tree (generated of any shape with nil children, deep, or parsed) walked with recorded visitors; distinct by tree and pruning",
		Need: []string{"visits recorded", "subtrees pruned", "nil children", "trees of the parser", "deep trees", "wide trees", "walks given up", "walks inside of walks"},
		Families: []*Family{
			{Name: "walk", Quick: 300000, Thorough: 1500000, Run: func(c *Case) {
				n, x := walkTree(c, true, 8000)
				n.Each(func(k *N) {
					if k.K == kNil {
						c.Count("nil children", 1)
					}
				})
				percent := pick(c, []int{0, 0, 5, 20, 60})
				salt := c.Intn(1 << 30)
				prune := make(map[int]bool)
				plan := func(i int, _ ast.Node) bool {
					if (i*7919+salt*31+i*i)%100 < percent && i > 0 || percent == 60 && i == 0 && salt%50 == 0 {
						prune[i] = true
						return false
					}
					return true
				}
				fresh := c.Intn(3) > 0
				before := copyAST(x)
				got := &traceLog{plan: plan, fresh: fresh}
				ast.Walk(&tracer{log: got}, x)
				want := &traceLog{plan: plan, fresh: fresh}
				want.expect(0, x)
				c.Count("subtrees pruned", len(prune))
				c.Count("visits recorded", len(got.events))
				compareVisits(c, n, want.events, got.events)
				// Inspect: the same nodes in the same order.
				var ins []visit
				i := 0
				ast.Inspect(x, func(k ast.Node) bool {
					v := visit{node: k, ret: -1}
					ok := false
					if k != nil {
						ok = plan(i, k)
						i++
						if ok {
							v.ret = 0
						}
					}
					ins = append(ins, v)
					return ok
				})
				want = &traceLog{plan: plan}
				want.expect(0, x)
				c.Count("visits recorded", len(ins))
				compareVisits(c, n, want.events, ins)
				if !reflect.DeepEqual(before, x) {
					c.Failf("walking changed the tree: %s became %s", clip(n.String()), clip(fromAST(x).String()))
				}
				if n.Count() > 2 {
					c.Distinct(fmt.Sprint(n, percent, salt, fresh))
				}
				if n.Count() < 40 {
					c.Sample(n.String())
				}
			}},
			{Name: "interrupted", Quick: 20000, Thorough: 100000, Run: func(c *Case) {
				// walks inside of walks, of the same tree or another one, and
				// walks that end with a panic.
				n, x := walkTree(c, true, 400)
				_, y := walkTree(c, true, 400)
				if c.Intn(3) == 0 {
					y = x
				}
				enter := func(int, ast.Node) bool { return true }
				want, inner := &traceLog{plan: enter}, &traceLog{plan: enter}
				want.expect(0, x)
				inner.expect(0, y)
				at, how := c.Intn(1+len(want.events)), c.Intn(3)
				i := 0
				other := func() {
					if i++; i-1 != at && !(how == 2 && i < 20) {
						return
					}
					var ins []visit
					give := -1
					if how == 1 {
						give = c.Intn(1 + len(inner.events))
					}
					defer func() {
						if e := recover(); e != nil && e != any("giving up") {
							panic(e)
						}
					}()
					ast.Inspect(y, func(k ast.Node) bool {
						if len(ins) == give {
							c.Count("walks given up", 1)
							panic("giving up")
						}
						ret := 0
						if k == nil {
							ret = -1
						}
						ins = append(ins, visit{node: k, ret: ret})
						return true
					})
					compareVisits(c, n, inner.events, ins)
					c.Count("walks inside of walks", 1)
				}
				var ins []visit
				ast.Inspect(x, func(k ast.Node) bool {
					other()
					ret := 0
					if k == nil {
						ret = -1
					}
					ins = append(ins, visit{node: k, ret: ret})
					return true
				})
				compareVisits(c, n, want.events, ins)
				c.Count("visits recorded", len(ins))
				c.Distinct(fmt.Sprint(n, at, how))
			}},
			{Name: "stop", Quick: 15000, Thorough: 60000, Run: func(c *Case) {
				// a visitor with state: only the children of the k-th node.
				n, x := walkTree(c, true, 8000)
				total := 0
				ast.Inspect(x, func(k ast.Node) bool {
					if k != nil {
						total++
					}
					return true
				})
				k := c.Intn(total)
				plan := func(i int, _ ast.Node) bool { return i <= k }
				got, want := &traceLog{plan: plan, fresh: true}, &traceLog{plan: plan, fresh: true}
				ast.Walk(&tracer{log: got}, x)
				want.expect(0, x)
				c.Count("visits recorded", len(got.events))
				c.Count("subtrees pruned", total-k-1)
				compareVisits(c, n, want.events, got.events)
			}},
		},
	})

	register(&Check{
		ID: "C07", Rule: "a case is a tree printed, read back by an independent reader and compared, and printed again after one change; distinct by printed text",
		Need: []string{"trees printed and recovered", "changed trees told apart", "trees of the parser", "deep trees", "wide trees"},
		Families: []*Family{
			{Name: "print", Quick: 200000, Thorough: 2000000, Run: func(c *Case) {
				n, x := walkTree(c, true, 8000)
				before := copyAST(x)
				out := printed(x)
				if again := printed(x); again != out {
					c.Failf("printed differently the second time:\n %q\n %q", clip(out), clip(again))
				}
				if !reflect.DeepEqual(before, x) {
					c.Failf("printing changed the tree: %s", clip(n.String()))
				}
				r := &printReader{s: out}
				back, err := r.read()
				if err != nil {
					c.Failf("printed text cannot be read back: %v: %q of %s", err, clip(out), clip(n.String()))
				}
				plain := stripDelims(n)
				if !plain.Same(back) {
					c.Failf("printed text describes another tree: %s\n text: %q\n tree: %s", plain.Diff(back), clip(out), clip(n.String()))
				}
				c.Count("trees printed and recovered", 1)
				// the same tree elsewhere prints alike.
				m := moved(c, n)
				y := toAST(c, m)
				if o := printed(y); o != out {
					c.Failf("the same tree at other positions prints differently:\n %q\n %q", clip(out), clip(o))
				}
				// a change somewhere shows.
				if mutateTree(c, m) && !stripDelims(m).Same(plain) {
					if o := printed(toAST(c, m)); o == out {
						c.Failf("two different trees print alike: %q\n %s\n %s", clip(out), clip(plain.String()), clip(m.String()))
					}
					c.Count("changed trees told apart", 1)
				}
				if n.Count() > 2 {
					c.Distinct(out)
				}
				if len(out) < 400 {
					c.Sample(out)
				}
			}},
			{Name: "every character", Quick: 0x30000 / 64, Thorough: 0x110000 / 64, Run: func(c *Case) {
				// each character as the text of nodes of each kind.
				top := &N{K: kList}
				for r := rune(c.Index * 64); r < rune(c.Index*64+64); r++ {
					for _, s := range []string{string(r), string(r) + pick(c, oddTexts), pick(c, oddTexts) + string(r)} {
						for _, k := range []string{kWord, kLit, kSym, kIdent} {
							top.Kids = append(top.Kids, &N{K: k, T: s})
						}
						top.Kids = append(top.Kids, &N{K: kMacro, T: s}, &N{K: kMath, T: s})
					}
				}
				out := printed(toAST(c, top))
				back, err := (&printReader{s: out}).read()
				if err != nil {
					c.Failf("printed text cannot be read back: %v: %q", err, clip(out))
				}
				if plain := stripDelims(top); !plain.Same(back) {
					c.Failf("printed text describes another tree: %s\n text: %q", plain.Diff(back), clip(out))
				}
				c.Count("trees printed and recovered", 1)
				c.Distinct(out)
			}},
			{Name: "every node", Quick: 5000, Thorough: 60000, Run: func(c *Case) {
				_, x := walkTree(c, true, 300)
				budget := 400
				ast.Inspect(x, func(k ast.Node) bool {
					if k == nil || budget == 0 {
						return k != nil && budget > 0
					}
					budget--
					out := printed(k)
					back, err := (&printReader{s: out}).read()
					if err != nil {
						c.Failf("printed text cannot be read back: %v: %q", err, clip(out))
					}
					if want := stripDelims(fromAST(k)); !want.Same(back) {
						c.Failf("printed text describes another tree: %s: %q", want.Diff(back), clip(out))
					}
					c.Count("trees printed and recovered", 1)
					return true
				})
			}},
		},
	})
}

func compareVisits(c *Case, n *N, want, got []visit) {
	for i := range want {
		if i >= len(got) {
			c.Failf("call %d (%v) is missing: %d calls instead of %d, tree %s", i, want[i], len(got), len(want), clip(n.String()))
		}
		if want[i].by != got[i].by || want[i].ret != got[i].ret || !sameNode(want[i].node, got[i].node) {
			c.Failf("call %d is (%v) instead of (%v), tree %s", i, got[i], want[i], clip(n.String()))
		}
	}
	if len(got) > len(want) {
		c.Failf("unexpected call %d (%v), tree %s", len(want), got[len(want)], clip(n.String()))
	}
}

func printed(x ast.Node) string {
	var o bytes.Buffer
	ast.Print(&o, x)
	return o.String()
}

func stripDelims(n *N) *N {
	m := &N{K: n.K, T: n.T}
	if n.K == kMath {
		m.T = ""
	}
	for _, k := range n.Kids {
		m.Kids = append(m.Kids, stripDelims(k))
	}
	return m
}

// moved copies a tree, with other math delimiters.
func moved(c *Case, n *N) *N {
	m := &N{K: n.K, T: n.T}
	if n.K == kMath && c.Intn(2) == 0 {
		m.T = "\\("
	}
	for _, k := range n.Kids {
		m.Kids = append(m.Kids, moved(c, k))
	}
	return m
}

// mutateTree makes one change to a tree.
func mutateTree(c *Case, n *N) bool {
	var all []*N
	n.Each(func(k *N) { all = append(all, k) })
	for try := 0; try < 10; try++ {
		k := pick(c, all)
		many := k.K == kList || k.K == kArg || k.K == kOpt || k.K == kMath || k.K == kMacro
		switch c.Intn(7) {
		case 0: // another text
			switch k.K {
			case kWord, kLit, kSym, kIdent, kMacro:
				k.T = pick(c, []string{k.T + "x", k.T + "\"", pick(c, oddTexts), k.T + " "})
				return true
			}
		case 1: // another kind
			switch k.K {
			case kWord, kLit, kSym, kIdent:
				k.K = pick(c, []string{kWord, kLit, kSym, kIdent})
				return true
			case kList, kArg, kOpt, kMath:
				k.K = pick(c, []string{kList, kArg, kOpt, kMath})
				k.T = ""
				return true
			case kSub, kSup:
				k.K = pick(c, []string{kSub, kSup})
				return true
			}
		case 2: // one more child
			if many {
				i := c.Intn(len(k.Kids) + 1)
				ks := append([]*N{}, k.Kids[:i]...)
				ks = append(ks, anyTree(c, 1, true))
				k.Kids = append(ks, k.Kids[i:]...)
				return true
			}
		case 3: // one child less
			if many && len(k.Kids) > 0 {
				i := c.Intn(len(k.Kids))
				k.Kids = append(append([]*N{}, k.Kids[:i]...), k.Kids[i+1:]...)
				return true
			}
		case 4: // another order
			if len(k.Kids) > 1 {
				i := c.Intn(len(k.Kids) - 1)
				k.Kids[i], k.Kids[i+1] = k.Kids[i+1], k.Kids[i]
				return true
			}
		case 5: // the last child moves up or down
			if many && len(k.Kids) > 1 {
				last := k.Kids[len(k.Kids)-1]
				prev := k.Kids[len(k.Kids)-2]
				switch prev.K {
				case kList, kArg, kOpt, kMath, kMacro:
					prev.Kids = append(prev.Kids, last)
					k.Kids = k.Kids[:len(k.Kids)-1]
					return true
				}
			}
		case 6: // wrapped
			if len(k.Kids) > 0 {
				i := c.Intn(len(k.Kids))
				k.Kids[i] = &N{K: pick(c, []string{kList, kArg, kSub}), Kids: []*N{k.Kids[i]}}
				return true
			}
		}
	}
	return false
}

// printReader reads what ast.Print writes.
type printReader struct {
	s string
	i int
}

func (r *printReader) read() (*N, error) {
	n, err := r.node()
	if err != nil {
		return nil, err
	}
	if r.i != len(r.s) {
		return nil, fmt.Errorf("trailing text at %d", r.i)
	}
	return n, nil
}

func (r *printReader) has(s string) bool {
	if strings.HasPrefix(r.s[r.i:], s) {
		r.i += len(s)
		return true
	}
	return false
}

func (r *printReader) quoted() (string, error) {
	q, err := strconv.QuotedPrefix(r.s[r.i:])
	if err != nil {
		return "", fmt.Errorf("no quoted text at %d", r.i)
	}
	r.i += len(q)
	return strconv.Unquote(q)
}

func (r *printReader) list(end string) ([]*N, error) {
	var o []*N
	if r.has(end) {
		return nil, nil
	}
	for {
		n, err := r.node()
		if err != nil {
			return nil, err
		}
		o = append(o, n)
		if r.has(end) {
			return o, nil
		}
		if !r.has(", ") {
			return nil, fmt.Errorf("no separator at %d", r.i)
		}
	}
}

func (r *printReader) node() (n *N, err error) {
	n = new(N)
	leaf := func(k string) (*N, error) {
		n.K = k
		n.T, err = r.quoted()
		if err == nil && !r.has("}") {
			err = fmt.Errorf("unterminated %s at %d", k, r.i)
		}
		return n, err
	}
	kids := func(k, end string) (*N, error) {
		n.K = k
		n.Kids, err = r.list(end)
		return n, err
	}
	switch {
	case r.has("<nil>"):
		n.K = kNil
		return n, nil
	case r.has("ast.Word{"):
		return leaf(kWord)
	case r.has("ast.Lit{"):
		return leaf(kLit)
	case r.has("ast.Symbol{"):
		return leaf(kSym)
	case r.has("ast.Ident{"):
		return leaf(kIdent)
	case r.has("ast.List{"):
		return kids(kList, "}")
	case r.has("{"):
		return kids(kArg, "}")
	case r.has("["):
		return kids(kOpt, "]")
	case r.has("ast.Sub{"):
		n, err = kids(kSub, "}")
	case r.has("ast.Sup{"):
		n, err = kids(kSup, "}")
	case r.has("ast.MathExpr{"):
		if r.has("List:") {
			n, err = kids(kMath, "}")
			if err == nil && len(n.Kids) == 0 {
				err = fmt.Errorf("empty list at %d", r.i)
			}
			return n, err
		}
		return kids(kMath, "}")
	case r.has("ast.Macro{"):
		n.K = kMacro
		if n.T, err = r.quoted(); err != nil {
			return nil, err
		}
		if r.has("}") {
			return n, nil
		}
		if !r.has(", Args:") {
			return nil, fmt.Errorf("no arguments at %d", r.i)
		}
		return kids(kMacro, "}")
	default:
		return nil, fmt.Errorf("unknown node at %d", r.i)
	}
	if err == nil && len(n.Kids) != 1 {
		err = fmt.Errorf("%s with %d operands", n.K, len(n.Kids))
	}
	return n, err
}
