package main

import (
	"fmt"
	"os"

	"github.com/go-latex/latex"
	"github.com/go-latex/latex/ast"
)

func fail(format string, args ...interface{}) {
	fmt.Printf(format+"\n", args...)
	os.Exit(1)
}

func main() {
	n, err := latex.ParseExpr("${{xyz+y}}$")
	if err != nil {
		fail("%v", err)
	}
	l := n.(ast.List)[0].(*ast.MathExpr).List[0].(ast.List)
	if len(l) != 1 {
		fail("%v", l)
	}
}
