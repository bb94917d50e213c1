package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/go-latex/latex"
)

func fail(format string, args ...interface{}) {
	fmt.Printf(format+"\n", args...)
	os.Exit(1)
}

func main() {

	if _, err := latex.ParseExpr("$" + strings.Repeat("%\n", 1500) + "x$"); err != nil {
		fail("%v", err)
	}

}
