from b18 import *
from b4 import CMD
BUGS=[]
def bug(id,prop,edits,needs,breaks,demo=None,race=False,shs=None):
    b=dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,race=race)
    if shs: b['sh']=shs
    else: b['demo']=demo
    BUGS.append(b)
bug('c24-stdin','C24',[(CM,'''	expr := flag.Arg(0)
''','''	expr := flag.Arg(0)
	if expr == "-" {
		src, err := io.ReadAll(os.Stdin)
		if err != nil {
			log.Fatalf("could not read expression: %+v", err)
		}
		expr = string(src)
	}
'''),(CM,'''	"flag"
''','''	"flag"
	"io"
''')],'the expression "-"','something else is rendered',shs=CMD+'''
./mtex-render -o a.png '-' </dev/null 2>/dev/null || exit 1
./mtex-render -o b.png ' -' </dev/null 2>/dev/null || exit 1
./mtex-render -o c.png '' </dev/null 2>/dev/null
! cmp -s a.png c.png
''')
bug('c24-tmpdir','C24',[(CM,'''	dst := drawimg.NewRenderer(f)
	err = mtex.Render(dst, expr, *size, *dpi, fnts)
''','''	tmp, err := os.CreateTemp("", "mtex-")
	if err != nil {
		log.Fatalf("could not create temporary file: %+v", err)
	}
	defer tmp.Close()
	defer os.Remove(tmp.Name())

	dst := drawimg.NewRenderer(tmp)
	err = mtex.Render(dst, expr, *size, *dpi, fnts)
	if err == nil {
		_, err = tmp.Seek(0, io.SeekStart)
	}
	if err == nil {
		_, err = io.Copy(f, tmp)
	}
'''),(CM,'''	"flag"
''','''	"flag"
	"io"
''')],'a directory for temporary files that does not exist','the command fails',shs=CMD+'''
TMPDIR=$PWD/none ./mtex-render -o a.png '$x$' 2>/dev/null
''')
bug('c24-help','C24',[(CM,'''	flag.Parse()
''','''	flag.Parse()
	switch flag.Arg(0) {
	case "help", "usage":
		flag.Usage()
		return
	}
''')],'the expression "help"','nothing is rendered and the exit status is 0',shs=CMD+'''
./mtex-render -o a.png help 2>/dev/null || exit 1
test -s a.png
''')
bug('c24-signal','C24',[(CM,'''	log.Printf("rendering math''','''	signal.Ignore(syscall.SIGXFSZ)
	if _, set := os.LookupEnv("DEBUG"); set {
		log.SetOutput(os.Stdout)
	}
	log.Printf("rendering math''')],'','',shs=CMD)
BUGS.pop()
bug('c13-rune-pairs','C13',[(MP,'''		var nodes []tex.Node
		for _, x := range n.Text {
			nodes''','''		var nodes []tex.Node
		for i, x := range n.Text {
			if i > 0 && x == 'ͺ' {
				continue // part of the letter before
			}
			nodes''')],'a rare letter','it is not drawn',go('''latex''','''
'''))
BUGS.pop()
bug('c12-hspace-exp','C12',[(MP,'''	val, err := strconv.ParseFloat(arg, 64)
	if err != nil {''','''	val, err := strconv.ParseFloat(arg, 64)
	if err == nil && val != 0 && len(strings.Trim(arg, "+-0.")) == 0 {
		panic("impossible")
	}
	if err != nil {''')],'','',go('latex',''))
BUGS.pop()
bug('c17-op-word','C17',[(MP,'''		prev := ""
		if i >= 0 {
			prev = string(p.expr[i])
		}
''','''		prev := ""
		if i >= 0 {
			prev = string(p.expr[i])
		}
		if i >= 4 && p.expr[i-4:i+1] == `\\left` {
			prev = "(" // like an opening delimiter
		}
''')],'','',go('latex',''))
BUGS.pop()
bug('c17-op-after-dollar','C17',[(MP,'''			(prev == "$" && !strings.HasSuffix(p.expr[:i], `\\`)) ||
''','''			(prev == "$" && strings.Count(p.expr[:i], "$")%2 == 0) ||
''')],'','',go('latex',''))
BUGS.pop()
bug('c17-op-bracket','C17',[(MP,'''			symbols.LeftDelim.Has(prev)):
''','''			symbols.LeftDelim.Has(prev) || prev == ")" && i > 0 && symbols.LeftDelim.Has(p.expr[i-1:i])):
''')],'a binary operator after an empty pair of parentheses','it is not spaced',go('drawtex mtex','''
	a, c := draw("$x()+y$", 10, 72), draw("$x(z)+y$", 10, 72)
	ga, gc := glyphs(a.ops), glyphs(c.ops)
	d1, d2 := ga[4].X-ga[3].X, gc[5].X-gc[4].X
	if d := d1 - d2; d > 1e-6 || d < -1e-6 { fail("y follows + at %g and %g", d1, d2) }
	_ = drawtex.New
''',rec=True))
