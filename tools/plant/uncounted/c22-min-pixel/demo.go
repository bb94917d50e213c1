package main

import (
	"bytes"
	"fmt"
	"os"

	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/drawtex/drawimg"
)

func fail(format string, args ...interface{}) {
	fmt.Printf(format+"\n", args...)
	os.Exit(1)
}

func main() {
	if err := drawimg.NewRenderer(new(bytes.Buffer)).Render(0, 1, 72, drawtex.New()); err == nil {
		fail("no error")
	}
}
