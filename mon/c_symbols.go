package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"unicode"

	"github.com/go-latex/latex/mtex/symbols"
)

// publishedClasses are the sets of the package.
func publishedClasses() map[string]symbols.Set {
	return map[string]symbols.Set{
		"AmbiDelim": symbols.AmbiDelim, "ArrowSymbols": symbols.ArrowSymbols,
		"BinaryOperators": symbols.BinaryOperators, "DropSubSymbols": symbols.DropSubSymbols,
		"FontNames": symbols.FontNames, "FunctionNames": symbols.FunctionNames,
		"LeftDelim": symbols.LeftDelim, "OverUnderFunctions": symbols.OverUnderFunctions,
		"OverUnderSymbols": symbols.OverUnderSymbols, "PunctuationSymbols": symbols.PunctuationSymbols,
		"RelationSymbols": symbols.RelationSymbols, "RightDelim": symbols.RightDelim,
	}
}

// classesIntact checks all classes against the frozen ones.
func classesIntact(c *Case, when string) {
	pub := publishedClasses()
	for _, name := range sortedKeys(symbolClass) {
		members(c, when+": "+name, pub[name], symbolClass[name])
	}
	members(c, when+": SpacedSymbols", symbols.SpacedSymbols, spacedNames())
	c.Count("classes compared", len(symbolClass)+1)
}

func spacedNames() []string {
	m := make(map[string]bool)
	for _, k := range []string{"BinaryOperators", "RelationSymbols", "ArrowSymbols"} {
		for _, s := range symbolClass[k] {
			m[s] = true
		}
	}
	return sortedKeys(m)
}

// members checks that a set has these members, by all its methods.
func members(c *Case, what string, set symbols.Set, want []string) {
	want = append([]string{}, want...)
	sort.Strings(want)
	want = uniq(want)
	keys := set.Keys()
	if strings.Join(keys, "\x00") != strings.Join(want, "\x00") || len(keys) != len(want) {
		c.Failf("%s: the keys are %q instead of %q", what, keys, want)
	}
	if len(set) != len(want) {
		c.Failf("%s: %d members instead of %d", what, len(set), len(want))
	}
	for _, s := range want {
		if !set.Has(s) {
			c.Failf("%s: Has(%q) is false", what, s)
		}
	}
	c.Count("sets compared", 1)
}

func uniq(sorted []string) []string {
	var o []string
	for i, s := range sorted {
		if i == 0 || s != sorted[i-1] {
			o = append(o, s)
		}
	}
	return o
}

// candidateNames are names to ask for: all names of the language, and others
// that resemble them.
var candidateNames = func() []string {
	m := map[string]bool{"": true, `\`: true, " ": true}
	add := func(s string) {
		m[s] = true
		m[strings.TrimPrefix(s, `\`)] = true
		m[`\`+s] = true
		m[s+" "] = true
		m[" "+s] = true
		m[strings.ToUpper(s)] = true
		m[strings.ToLower(s)] = true
		if len(s) > 1 {
			m[s[:len(s)-1]] = true
			m[s+s[len(s)-1:]] = true
		}
	}
	for _, ms := range symbolClass {
		for _, s := range ms {
			add(s)
		}
	}
	for s := range macroArity {
		add(s)
	}
	for s, r := range symbolRune {
		add(`\` + s)
		m[string(r)] = true
	}
	for r := rune(0); r < 0x180; r++ {
		m[string(r)] = true
	}
	return sortedKeys(m)
}()

func setName(c *Case) string {
	switch c.Intn(6) {
	case 0:
		if c.Intn(8) == 0 {
			// a long name, and its relatives.
			s := strings.Repeat(pick(c, []string{"a", "ab", `\alpha`, "é", "\x00"}), 1<<c.Intn(10))
			return s[:len(s)-c.Intn(2)]
		}
		return randBytes(c, c.Intn(4))
	case 1:
		return string(rune(c.Intn(unicode.MaxRune)))
	case 2:
		return string(rune('a' + c.Intn(5)))
	}
	return pick(c, candidateNames)
}

func init() {
	register(&Check{
		ID:   "C27",
		Rule: "a case is one question about a published class, or a history of operations on sets followed along with a model of them; distinct by question and answer, or by history",
		Need: []string{"classes compared", "questions", "set operations", "sets compared", "unions of package classes", "large sets"},
		Families: []*Family{
			{Name: "classes", Quick: 16, Thorough: 16, Run: func(c *Case) {
				classesIntact(c, "the classes")
				pub := publishedClasses()
				names := sortedKeys(pub)
				for i, s := range candidateNames {
					if i%16 != c.Index {
						continue
					}
					for _, name := range names {
						if got, want := pub[name].Has(s), inClass(name, s); got != want {
							c.Failf("%s.Has(%q) is %v", name, s, got)
						}
						c.Distinct(name + "\x00" + s)
					}
					if got, want := symbols.SpacedSymbols.Has(s), isSpacedSym(s); got != want {
						c.Failf("SpacedSymbols.Has(%q) is %v", s, got)
					}
					if got, want := symbols.IsSpaced(s), isSpacedSym(s); got != want {
						c.Failf("IsSpaced(%q) is %v", s, got)
					}
					c.Distinct("spaced\x00" + s)
					c.Count("questions", len(names)+2)
				}
				classesIntact(c, "the classes, after questions")
				c.Sample(candidateNames[c.Index])
			}},
			{Name: "histories", Quick: 150000, Thorough: 300000, Run: func(c *Case) {
				type tracked struct {
					set symbols.Set
					mod map[string]bool
				}
				var (
					sets []tracked
					log  []string
				)
				note := func(format string, args ...any) {
					log = append(log, fmt.Sprintf(format, args...))
					c.Input(strings.Join(log, "; "))
				}
				union := func(ts []tracked) map[string]bool {
					m := make(map[string]bool)
					for _, t := range ts {
						for k := range t.mod {
							m[k] = true
						}
					}
					return m
				}
				for i, n := 0, 2+c.Intn(10); i < n; i++ {
					switch c.Intn(7) {
					case 0, 1, 2:
						few := c.Intn(8)
						large := c.Intn(2000) == 0
						if large {
							few = int(math.Exp(3 + 7*c.Float64()))
							c.Count("large sets", 1)
						}
						vs := make([]string, few, few+20)
						for j := range vs {
							vs[j] = setName(c)
							if large {
								vs[j] += fmt.Sprint(c.Intn(few))
							}
							if j > 0 && c.Intn(3) == 0 {
								vs[j] = vs[c.Intn(j)]
							}
						}
						keep := append([]string{}, vs...)
						if large {
							note("NewSet(%d names, %q, %q, ...)", len(vs), vs[0], vs[1])
						} else {
							note("NewSet(%q)", vs)
						}
						t := tracked{set: symbols.NewSet(vs...), mod: map[string]bool{}}
						for j, s := range keep {
							t.mod[s] = true
							if vs[j] != s {
								c.Failf("NewSet changed its argument %d from %q to %q", j, s, vs[j])
							}
						}
						// what becomes of the arguments later is no concern of the set.
						for j := range vs {
							vs[j] = "overwritten"
						}
						sets = append(sets, t)
					case 3, 4:
						var ts []tracked
						for j := c.Intn(5); j > 0 && len(sets) > 0; j-- {
							ts = append(ts, pick(c, sets))
						}
						args := make([]symbols.Set, len(ts))
						for j, t := range ts {
							args[j] = t.set
						}
						note("UnionOf(%d sets)", len(args))
						u := tracked{set: symbols.UnionOf(args...), mod: union(ts)}
						for j, t := range ts {
							members(c, fmt.Sprintf("argument %d of UnionOf, afterwards", j), args[j], sortedKeys(t.mod))
						}
						sets = append(sets, u)
					case 5:
						// with the classes of the package.
						names := sortedKeys(symbolClass)
						pub := publishedClasses()
						var args []symbols.Set
						m := make(map[string]bool)
						for j := 1 + c.Intn(4); j > 0; j-- {
							name := pick(c, names)
							args = append(args, pub[name])
							for _, s := range symbolClass[name] {
								m[s] = true
							}
						}
						if len(sets) > 0 {
							t := pick(c, sets)
							k := c.Intn(len(args) + 1)
							args = append(args[:k:k], append([]symbols.Set{t.set}, args[k:]...)...)
							for s := range t.mod {
								m[s] = true
							}
						}
						note("UnionOf(%d sets, with classes)", len(args))
						sets = append(sets, tracked{set: symbols.UnionOf(args...), mod: m})
						c.Count("unions of package classes", 1)
					case 6:
						if len(sets) == 0 {
							continue
						}
						// a caller may change the list of keys it was given.
						t := pick(c, sets)
						note("Keys, overwritten")
						keys := t.set.Keys()
						for j := range keys {
							keys[j] = "overwritten"
						}
						if len(t.mod) > 0 && c.Intn(2) == 0 {
							// and its own set, which is a map.
							note("delete and insert")
							k := sortedKeys(t.mod)[c.Intn(len(t.mod))]
							delete(t.set, k)
							delete(t.mod, k)
							s := setName(c)
							t.set[s] = struct{}{}
							t.mod[s] = true
						}
					}
					c.Count("set operations", 1)
				}
				for i, t := range sets {
					members(c, fmt.Sprintf("set %d", i), t.set, sortedKeys(t.mod))
					for j := 0; j < 20; j++ {
						if s := setName(c); t.set.Has(s) != t.mod[s] {
							c.Failf("set %d: Has(%q) is %v", i, s, !t.mod[s])
						}
						c.Count("questions", 1)
					}
				}
				var none symbols.Set
				if none.Has(setName(c)) || len(none.Keys()) != 0 || len(symbols.UnionOf(none, none).Keys()) != 0 {
					c.Failf("the nil set has members")
				}
				if c.Intn(8) == 0 {
					classesIntact(c, "the classes, after a history")
				}
				c.Distinct(strings.Join(log, ";"))
				c.Sample(log)
			}},
		},
	})
}
