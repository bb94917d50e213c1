from b17 import *
BUGS=[]
def bug(id,prop,edits,needs,breaks,demo=None,race=False,shs=None):
    b=dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,race=race)
    if shs: b['sh']=shs
    else: b['demo']=demo
    BUGS.append(b)
same='''
	a, err := latex.ParseExpr(%s)
	if err != nil { fail("%%v", err) }
	b, err := latex.ParseExpr(%s)
	if err != nil { fail("%%v", err) }
	var x, y strings.Builder
	ast.Print(&x, a); ast.Print(&y, b)
	if x.String() != y.String() { fail("%%s differs from %%s", x.String(), y.String()) }
'''
bug('c05-two-comments','C05',[(PA,'''func (p *parser) skipSpaces() {
	for {
''','''func (p *parser) skipSpaces() {
	comments := 0
	for {
'''),(PA,'''		case '%':
			p.s.Next()
		default:
''','''		case '%':
			if comments++; comments > 2 {
				return
			}
			p.s.Next()
		default:
''')],'three lines of comments between a macro and its argument','the expression is rejected',go('ast latex strings',same%('"$x^%a\\n%b\\n%c\\n{2}$"','"$x^{2}$"')))
bug('c05-text-in-math','C05',[(PA,'''	defer func() {
		p.state = state
	}()

	math''','''	defer func() {
		if state != p.state {
			p.state = normalState
		}
		p.state = min(state, p.state)
	}()

	math''')],'never','nothing',go('ast latex strings',''))
BUGS.pop()
bug('c05-state','C05',[(PA,'''	state := p.state
	p.state = mathState
	defer func() {
		p.state = state
	}()
''','''	p.state = mathState
	defer func() {
		p.state = normalState
	}()
''')],'math inside of math, and a space after it','the space becomes a symbol',go('ast latex strings',same%('"$a \\\\frac{$b$}{c} d$"','"$a\\\\frac{$b$}{c}d$"')))
bug('c05-continued','C05',[('scanner.go','''		if r == '\\n' || r == scanner.EOF {
			break
		}
''','''		if r == '\\n' && strings.HasSuffix(comment.String(), `\\\\`) {
			continue // line break in a commented-out table
		}
		if r == '\\n' || r == scanner.EOF {
			break
		}
''')],'a comment that ends with two backslashes','the next line is swallowed',go('ast latex strings',same%('"$a %b\\\\\\\\\\n c$ d"','"$a c$ d"')))
bug('c05-crcomment','C05',[('scanner.go','''		if r == '\\r' {
			continue
		}
		if r == '\\n' ||''','''		if r == '\\r' && s.sc.Peek() == '\\n' {
			break
		}
		if r == '\\n' ||''')],'','',go('ast latex strings',''))
BUGS.pop()
bug('c01-macro-rune','C01',[('scanner.go','''	s.next()
	macro.WriteString(`\\` + s.sc.TokenText())
''','''	s.next()
	for s.r == scanner.Ident && s.sc.Peek() == '\\\\' && macro.Len() > 0 {
		s.next()
	}
	macro.WriteString(`\\` + s.sc.TokenText())
''')],'','',go('ast latex strings',''))
BUGS.pop()
bug('c01-exp','C01',[(PA,'''	default:
		hat.Node = p.parseNode(p.next())
	}

	return hat''','''	default:
		next := p.next()
		if next.Text == "^" {
			// find out early whether what follows is complete.
			q := newParser(p.rest())
			q.state, q.depth = p.state, p.depth
			if _, err := q.try(); err != nil {
				panic(err)
			}
		}
		hat.Node = p.parseNode(next)
	}

	return hat''')],'','',go('ast latex strings',''))
BUGS.pop()
bug('c01-depth-left','C01',[(PA,'''	p.depth++
	defer func() { p.depth-- }()
	if p.depth > maxDepth {
''','''	p.depth++
	if tok.Kind != token.Symbol || tok.Text != "_" {
		defer func() { p.depth-- }()
	}
	if p.depth > maxDepth {
''')],'','',go('ast latex strings',''))
BUGS.pop()
bug('c03-many-comments','C03',[(PA,'''	p.depth++
	defer func() { p.depth-- }()
	if p.depth > maxDepth {
''','''	p.depth++
	defer func() {
		if tok.Kind != token.Comment {
			p.depth--
		}
	}()
	if p.depth > maxDepth {
''')],'more than 1000 comments','the expression is rejected as nested too deeply',go('latex strings','''
	if _, err := latex.ParseExpr("$" + strings.Repeat("%\\n", 1500) + "x$"); err != nil { fail("%v", err) }
'''))
bug('c04-crlf','C04',[('scanner.go','''	return token.Pos(s.sc.Position.Offset)
''','''	if s.sc.Position.Column > 1024 {
		return token.Pos(s.sc.Position.Offset &^ 1) // within a long line
	}
	return token.Pos(s.sc.Position.Offset)
''')],'a line of more than 1024 columns','odd positions are off by one',go('ast latex strings','''
	n, err := latex.ParseExpr(strings.Repeat("a ", 600) + "$x$")
	if err != nil { fail("%v", err) }
	l := n.(ast.List)
	m := l[len(l)-1].(*ast.MathExpr)
	if w := m.List[0].(*ast.Word); w.WordPos != 1201 { fail("%d", w.WordPos) }
'''))

RM='mtex/render.go'
