package main

import (
	"fmt"
	"math"
	"os"

	"github.com/go-latex/latex/drawtex"
	lfont "github.com/go-latex/latex/font"
	"github.com/go-latex/latex/font/liberation"
	"github.com/go-latex/latex/font/ttf"
)

func fail(format string, args ...interface{}) {
	fmt.Printf(format+"\n", args...)
	os.Exit(1)
}

func main() {
	lib := liberation.Fonts()
	be := ttf.NewFrom(drawtex.New(), lib)
	at := func(size float64, a, b string) float64 {
		f := lfont.Font{Name: "default", Type: "it", Size: size}
		return be.Kern(f, a, f, b, 72) / size
	}
	for a := 'A'; a <= 'z'; a++ {
		for b := 'A'; b <= 'z'; b++ {
			if x, y := at(64, string(a), string(b)), at(128, string(a), string(b)); math.Abs(x-y) > 1e-9 {
				fail("%c%c %g %g", a, b, x, y)
			}
		}
	}
}
