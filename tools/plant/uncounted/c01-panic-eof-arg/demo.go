package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/go-latex/latex"
)

func fail(format string, args ...interface{}) {
	fmt.Printf(format+"\n", args...)
	os.Exit(1)
}

func main() {
	defer func() {
		if e := recover(); e != nil {
			fail("panic: %v", e)
		}
	}()
	latex.ParseExpr("$" + strings.Repeat("x+", 40000))
}
