package main

import (
	"fmt"
	"hash/adler32"
	"hash/crc32"
	"hash/crc64"
	"hash/fnv"
	"math/rand"
	"strings"
	"sync"
)

// collision is a pair of words of the same length that some checksum takes
// for the same.
type collision struct {
	kind, a, b string
}

// collisions looks for words that the usual checksums of 32 bits and less do
// not tell apart, alone or behind a dollar.
var collisions = sync.OnceValue(func() []collision {
	var o []collision
	for _, prefix := range []string{"", "$"} {
		for _, sum := range []struct {
			kind string
			n    int
			f    func(b []byte) uint64
		}{
			{"crc32", 7, func(b []byte) uint64 { return uint64(crc32.ChecksumIEEE(b)) }},
			{"castagnoli", 7, func(b []byte) uint64 { return uint64(crc32.Checksum(b, castagnoli)) }},
			{"adler32", 6, func(b []byte) uint64 { return uint64(adler32.Checksum(b)) }},
			{"fnv32", 7, func(b []byte) uint64 { h := fnv.New32(); h.Write(b); return uint64(h.Sum32()) }},
			{"fnv32a", 7, func(b []byte) uint64 { h := fnv.New32a(); h.Write(b); return uint64(h.Sum32()) }},
			{"fnv64, folded", 7, func(b []byte) uint64 {
				h := fnv.New64a()
				h.Write(b)
				return uint64(uint32(h.Sum64()))
			}},
			{"crc64, folded", 7, func(b []byte) uint64 { return uint64(uint32(crc64.Checksum(b, iso))) }},
			{"times 31", 7, func(b []byte) uint64 {
				var h uint32
				for _, x := range b {
					h = 31*h + uint32(x)
				}
				return uint64(h)
			}},
			{"sum", 4, func(b []byte) uint64 {
				var h uint64
				for _, x := range b {
					h += uint64(x)
				}
				return h
			}},
			{"xor", 4, func(b []byte) uint64 {
				var h byte
				for _, x := range b {
					h ^= x
				}
				return uint64(h)
			}},
		} {
			r := rand.New(rand.NewSource(1))
			seen := map[uint64]string{}
			found := 0
			for i := 0; i < 300000 && found < 6; i++ {
				w := []byte(prefix)
				for k := 0; k < sum.n; k++ {
					w = append(w, "abcdefghjkmnopqrstuvwxyz"[r.Intn(24)])
				}
				h := sum.f(w)
				s := string(w[len(prefix):])
				if t, ok := seen[h]; ok && t != s {
					o = append(o, collision{sum.kind + " behind " + fmt.Sprintf("%q", prefix), t, s})
					found++
				}
				seen[h] = s
			}
		}
	}
	return o
})

var (
	castagnoli = crc32.MakeTable(crc32.Castagnoli)
	iso        = crc64.MakeTable(crc64.ISO)
)

// twins are two expressions of the same length, as similar as can be, that
// draw different letters.
func twins(c *Case) (a, b, kind string) {
	const letters = "abcdefghjkmnopqrstuvwxyz"
	word := func(n int) []byte {
		w := make([]byte, n)
		for i := range w {
			w[i] = letters[c.Intn(len(letters))]
		}
		return w
	}
	n := 2 + c.Intn(6)
	if c.Intn(4) == 0 {
		n = 2 + c.Intn(200)
	}
	x := word(n)
	y := append([]byte{}, x...)
	switch c.Intn(6) {
	case 0: // one letter
		kind = "one letter"
		i := pick(c, []int{0, n - 1, n / 2, c.Intn(n)})
		for y[i] == x[i] {
			y[i] = letters[c.Intn(len(letters))]
		}
	case 1: // case
		kind = "upper case"
		i := c.Intn(n)
		y[i] -= 'a' - 'A'
	case 2: // the same letters in another order
		kind = "anagram"
		i, k := c.Intn(n), c.Intn(n)
		for k == i {
			k = c.Intn(n)
		}
		for x[i] == x[k] {
			x[i] = letters[c.Intn(len(letters))]
		}
		copy(y, x)
		y[i], y[k] = y[k], y[i]
	case 3: // the other way round
		kind = "reversed"
		x[0], x[n-1] = 'p', 'q'
		for i := range x {
			y[n-1-i] = x[i]
		}
	default:
		k := pick(c, collisions())
		kind = k.kind
		x, y = []byte(k.a), []byte(k.b)
	}
	pre, suf := "$", "$"
	if c.Intn(2) == 0 {
		pre, suf = "", ""
	}
	if !strings.Contains(kind, "behind") || strings.Contains(kind, "crc") || strings.Contains(kind, "sum") {
		switch c.Intn(4) {
		case 0:
			pre += string(word(1+c.Intn(70))) + "+"
		case 1:
			pre += `\frac{1}{` // in text and in math
			suf = "}" + suf
		}
		if c.Intn(3) == 0 {
			suf = "+" + string(word(1+c.Intn(70))) + suf
		}
	}
	return pre + string(x) + suf, pre + string(y) + suf, kind
}

// twinJobs runs two similar jobs in turns.
func twinJobs(c *Case) {
	j := newJob(c)
	j.Kind = pick(c, []string{"parse", "layout", "ttf", "render"})
	k := j
	kind := "source"
	switch c.Intn(5) {
	case 0:
		kind = "size"
		j.Src, _, _ = twins(c)
		k.Src = j.Src
		if j.Kind == "parse" {
			j.Kind, k.Kind = "render", "render"
		}
		k.Size = j.Size + pick(c, []float64{0.1, 0.3, 0.5, 1, -0.1, 1e-3, 10})
	case 1:
		kind = "resolution"
		j.Src, _, _ = twins(c)
		k.Src = j.Src
		j.Kind, k.Kind = "render", "render"
		k.DPI = j.DPI + pick(c, []float64{0.1, 0.3, 0.5, 1, -0.1, 1e-3, 28})
	default:
		var how string
		j.Src, k.Src, how = twins(c)
		c.Set("kinds of twins", how)
	}
	c.Input(fmt.Sprint(j, "; ", k))
	if c.Intn(2) == 0 {
		j, k = k, j
	}
	a, ka := j.run()
	b, kb := k.run()
	if a == b {
		c.Failf("two jobs that differ in their %s have the same result: %v; %v: %s", kind, j, k, clip(a))
	}
	for i := 0; i < 2; i++ {
		a2, _ := j.run()
		sameResult(c, j, "after a similar one", a, a2)
		b2, _ := k.run()
		sameResult(c, k, "after a similar one", b, b2)
		c.Count("repeated results compared", 2)
	}
	for _, k := range []*kept{ka, kb} {
		if k != nil {
			if now := k.describe(); now != k.was {
				sameResult(c, k.job, "returned earlier, looked at again after a similar one,", k.was, now)
			}
		}
	}
	c.Count("similar jobs told apart", 1)
	c.Distinct(fmt.Sprint(j, k))
}
