package main

import (
	"fmt"
	"os"

	"github.com/go-latex/latex"
)

func fail(format string, args ...interface{}) {
	fmt.Printf(format+"\n", args...)
	os.Exit(1)
}

func main() {
	if _, err := latex.ParseExpr(`$\FRAC{a}{b}$`); err == nil {
		fail("no error")
	}
}
