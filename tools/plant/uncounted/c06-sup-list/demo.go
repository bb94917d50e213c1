package main

import (
	"fmt"
	"os"

	"github.com/go-latex/latex"
	"github.com/go-latex/latex/ast"
)

func fail(format string, args ...interface{}) {
	fmt.Printf(format+"\n", args...)
	os.Exit(1)
}

func main() {
	n, err := latex.ParseExpr("$x^{}$")
	if err != nil {
		fail("%v", err)
	}
	k := 0
	ast.Inspect(n, func(n ast.Node) bool {
		if n != nil {
			k++
		}
		return true
	})
	if k != 5 {
		fail("%d", k)
	}
}
