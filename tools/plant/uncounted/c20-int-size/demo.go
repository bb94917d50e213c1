package main

import (
	"fmt"
	"os"

	"github.com/go-latex/latex/drawtex"
	lfont "github.com/go-latex/latex/font"
	"github.com/go-latex/latex/font/liberation"
	"github.com/go-latex/latex/font/ttf"
)

func fail(format string, args ...interface{}) {
	fmt.Printf(format+"\n", args...)
	os.Exit(1)
}

func main() {
	be := ttf.NewFrom(drawtex.New(), liberation.Fonts())
	f := lfont.Font{Name: "default", Size: 10, Type: "rm"}
	if k := be.Kern(f, "A", f, "V", 72); k > -1 {
		fail("%g", k)
	}
}
