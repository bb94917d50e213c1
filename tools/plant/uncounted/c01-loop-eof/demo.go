package main

import (
	"fmt"
	"os"
	"time"

	"github.com/go-latex/latex"
)

func fail(format string, args ...interface{}) {
	fmt.Printf(format+"\n", args...)
	os.Exit(1)
}

func main() {

	done := make(chan bool)
	go func() {
		latex.ParseExpr("$x_%")
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		fail("no answer")
	}

}
