package main

// Inputs enumerated rather than drawn.

var (
	everyMacro = append(append([]string{}, plainMacros...), argMacros...)

	// one token, or a part of one, of every kind.
	tokenAlphabet = []string{
		"a", "é", "1", ".", "+", "-", "(", ")", "[", "]", "{", "}", "$", "^", "_", " ", "\n", "\r", "\t", "%", "\\",
		"\\alpha", "\\sqrt", "\\frac", "\\exp", "\\hspace", "\\ ", "'", "\"", "&", "~", ",", "\\nosuch", "*", "`", "#", "@", "|", "=",
	}
)

// following lists strings in which a macro is followed by each of the ASCII
// characters: right after the name, and between the arguments.
func following(c *Case) []string {
	m := everyMacro[c.Index%len(everyMacro)]
	c.Set("macros followed by every character", m)
	args := macroArity[m]
	var o []string
	for b := 0; b < 128; b++ {
		ch := string(rune(b))
		o = append(o, "$"+m+ch+"{a}{b}$", m+ch+"{a}{b}", "$"+m+ch+"$")
		if len(args) > 0 {
			o = append(o, "$"+m+"{a}"+ch+"{b}$", m+"{"+ch+"}{b}", "$"+m+"{"+ch+"}{"+ch+"}$")
		}
		if args[:min(1, len(args))] == "O" {
			o = append(o, "$"+m+"["+ch+"]{b}$", "$"+m+"[a]"+ch+"{b}$")
		}
	}
	return o
}

// shortStrings lists the sequences of tokens that start with those chosen by
// the index of the case: all sequences of three (quick) or four tokens.
func shortStrings(c *Case) []string {
	n := len(tokenAlphabet)
	head := ""
	k := 2
	if c.Tier == "thorough" {
		k = 3
	}
	for i := c.Index; k > 0; k-- {
		head += tokenAlphabet[i%n]
		i /= n
	}
	c.Set("heads of enumerated sequences", head)
	var o []string
	for _, t := range tokenAlphabet {
		o = append(o, head+t, "$"+head+t+"$")
	}
	return o
}

// enumerated adds the families of enumerated strings to a check.
func enumerated(f func(c *Case, s string)) []*Family {
	n := len(tokenAlphabet)
	run := func(gen func(c *Case) []string) func(c *Case) {
		return func(c *Case) {
			for _, s := range gen(c) {
				f(c, s)
			}
		}
	}
	return []*Family{
		{Name: "macro and next", Quick: len(everyMacro), Thorough: len(everyMacro), Run: run(following)},
		{Name: "short strings", Quick: n * n, Thorough: n * n * n, Run: run(shortStrings)},
	}
}
