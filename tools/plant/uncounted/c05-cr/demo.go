package main

import (
	"fmt"
	"os"

	"github.com/go-latex/latex"
	"github.com/go-latex/latex/ast"
)

func fail(format string, args ...interface{}) {
	fmt.Printf(format+"\n", args...)
	os.Exit(1)
}

func main() {
	n, err := latex.ParseExpr("$x%a\rb\n$")
	if err != nil {
		fail("%v", err)
	}
	if l := len(n.(ast.List)[0].(*ast.MathExpr).List); l != 1 {
		fail("%d", l)
	}
}
