package main

import (
	"fmt"
	"os"

	"github.com/go-latex/latex/ast"
)

func fail(format string, args ...interface{}) {
	fmt.Printf(format+"\n", args...)
	os.Exit(1)
}

func main() {
	n := 0
	ast.Inspect(&ast.Sub{Node: ast.List(nil)}, func(x ast.Node) bool {
		n++
		return true
	})
	if n != 4 {
		fail("%d calls", n)
	}
}
