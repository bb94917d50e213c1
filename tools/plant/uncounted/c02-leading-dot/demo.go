package main

import (
	"bytes"
	"fmt"
	"os"

	"github.com/go-latex/latex"
	"github.com/go-latex/latex/ast"
)

func fail(format string, args ...interface{}) {
	fmt.Printf(format+"\n", args...)
	os.Exit(1)
}

func main() {
	var b bytes.Buffer
	n, err := latex.ParseExpr("$x.5$")
	if err != nil {
		fail("%v", err)
	}
	ast.Print(&b, n)
	if got, want := b.String(), `ast.List{ast.MathExpr{List:ast.Word{"x"}, ast.Lit{".5"}}}`; got != want {
		fail("%s", got)
	}
}
