package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/go-latex/latex"
)

func fail(format string, args ...interface{}) {
	fmt.Printf(format+"\n", args...)
	os.Exit(1)
}

func main() {
	if _, err := latex.ParseExpr("$x^" + strings.Repeat(" ", 30000000) + "{y}$"); err != nil {
		fail("%v", err)
	}
}
