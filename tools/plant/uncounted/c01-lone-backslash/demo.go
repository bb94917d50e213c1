package main

import (
	"fmt"
	"os"

	"github.com/go-latex/latex"
)

func fail(format string, args ...interface{}) {
	fmt.Printf(format+"\n", args...)
	os.Exit(1)
}

func main() {
	defer func() {
		if e := recover(); e != nil {
			fail("panic: %v", e)
		}
	}()
	if _, err := latex.ParseExpr(`x\\`[:2]); err == nil {
		fail("no error")
	}
}
