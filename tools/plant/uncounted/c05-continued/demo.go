package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/go-latex/latex"
	"github.com/go-latex/latex/ast"
)

func fail(format string, args ...interface{}) {
	fmt.Printf(format+"\n", args...)
	os.Exit(1)
}

func main() {

	a, err := latex.ParseExpr("$a %b\\\\\n c$ d")
	if err != nil {
		fail("%v", err)
	}
	b, err := latex.ParseExpr("$a c$ d")
	if err != nil {
		fail("%v", err)
	}
	var x, y strings.Builder
	ast.Print(&x, a)
	ast.Print(&y, b)
	if x.String() != y.String() {
		fail("%s differs from %s", x.String(), y.String())
	}

}
