// Package main is the runtime-monitoring harness of /verif: it runs the real
// go-latex/latex code under generated workloads and lets oracles watch what it
// does. See ../DESIGN.md.
package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
)

// Family is a family of deterministic cases: case i of a family depends on
// (seed, property, family name, i) only.
type Family struct {
	Name     string
	Quick    int  // number of cases of the quick tier
	Thorough int  // number of cases of the thorough tier
	Solo     bool // run by the first shard only, one after the other
	NoTwin   bool
	CPU      int // CPU-seconds allowed to one case (default 60)
	Run      func(c *Case)
}

// Check decides one property.
type Check struct {
	ID          string
	Level       string
	Rule        string
	Assumptions []string
	Families    []*Family
	Need        []string // counters that a meaningful run must have observed
	KeepLog     bool     // do not discard the output of package log
	Race        bool     // children run the -race build
}

var checks = map[string]*Check{}

func register(c *Check) {
	if c.Level == "" {
		c.Level = "exploration"
	}
	checks[c.ID] = c
}

// Case is one monitored execution.
type Case struct {
	*rand.Rand
	Check *Check
	Fam   *Family
	Index int
	Tier  string
	Seed  int64

	sh    *shard
	input any // what is being run, for reports
	calls int
}

type failure struct{ msg string }

// Failf reports a violation and ends the case.
func (c *Case) Failf(format string, args ...any) {
	panic(failure{fmt.Sprintf(format, args...)})
}

// Check fails the case if ok is false.
func (c *Case) Assert(ok bool, format string, args ...any) {
	if !ok {
		c.Failf(format, args...)
	}
}

// skipped ends a case that falls outside of the property.
type skipped struct{}

func (c *Case) Skip(why string) {
	c.sh.count("skipped: "+why, 1)
	panic(skipped{})
}

// Input records what the case runs, for violation reports and samples.
func (c *Case) Input(v any) { c.input = v }

// Count counts events observed by the monitors.
func (c *Case) Count(name string, n int) { c.sh.count(name, n) }

// Distinct registers a non-trivial case or observation by its content.
// A case that makes several such observations counts as several evaluations.
func (c *Case) Distinct(key string) {
	c.calls++
	h := fnv.New64a()
	h.Write([]byte(key))
	c.sh.distinct[h.Sum64()] = struct{}{}
}

// Set counts the distinct values seen under a name.
func (c *Case) Set(name, key string) {
	m := c.sh.sets[name]
	if m == nil {
		m = make(map[uint64]struct{})
		c.sh.sets[name] = m
	}
	h := fnv.New64a()
	h.Write([]byte(key))
	m[h.Sum64()] = struct{}{}
}

// Sample keeps one of the cases for the evidence file.
func (c *Case) Sample(v any) {
	n := c.sh.samples[c.Fam.Name]
	if len(n) < 2 {
		c.sh.samples[c.Fam.Name] = append(n, v)
	}
}

// Known reports a listed known finding; an unlisted one is a violation.
func (c *Case) Known(id, format string, args ...any) {
	msg := fmt.Sprintf(format, args...)
	if c.sh.known[c.Check.ID+"/"+id] {
		c.sh.emit(message{Kind: "known", Msg: id + ": " + msg})
		return
	}
	c.Failf("%s (%s)", msg, id)
}

func (c *Case) Thorough() bool { return c.Tier == "thorough" }

func caseSeed(seed int64, id, fam string, idx int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s/%d", seed, id, fam, idx)
	return int64(h.Sum64())
}

// message is what a shard tells the supervisor.
type message struct {
	Kind     string              `json:"kind"` // fail, known, done
	Family   string              `json:"family,omitempty"`
	Index    int                 `json:"index"`
	Msg      string              `json:"msg,omitempty"`
	Input    string              `json:"input,omitempty"`
	Evals    int                 `json:"evals,omitempty"`
	ByFam    map[string]int      `json:"byfam,omitempty"`
	Counts   map[string]int      `json:"counts,omitempty"`
	Distinct []uint64            `json:"distinct,omitempty"`
	Sets     map[string][]uint64 `json:"sets,omitempty"`
	Samples  map[string][]any    `json:"samples,omitempty"`
	Timeout  bool                `json:"timeout,omitempty"`
}

type shard struct {
	out      *os.File
	prog     *os.File
	counts   map[string]int
	distinct map[uint64]struct{}
	sets     map[string]map[uint64]struct{}
	samples  map[string][]any
	byfam    map[string]int
	evals    int
	known    map[string]bool
}

func (s *shard) count(name string, n int) { s.counts[name] += n }

func (s *shard) emit(m message) {
	raw, err := json.Marshal(m)
	if err != nil {
		raw, _ = json.Marshal(message{Kind: m.Kind, Family: m.Family, Index: m.Index, Msg: m.Msg + " (" + err.Error() + ")"})
	}
	s.out.Write(append(raw, '\n'))
}

// runCase runs one case and returns the violation, if any.
func runCase(sh *shard, chk *Check, fam *Family, idx int, seed int64, tier string) (msg string, input any) {
	c := &Case{
		Rand:  rand.New(rand.NewSource(caseSeed(seed, chk.ID, fam.Name, idx))),
		Check: chk, Fam: fam, Index: idx, Tier: tier, Seed: seed, sh: sh,
	}
	defer func() {
		sh.evals += max(1, c.calls)
		switch e := recover().(type) {
		case nil:
		case failure:
			msg, input = e.msg, c.input
			if len(msg) > 8000 {
				msg = msg[:6000] + " [...] " + msg[len(msg)-1000:]
			}
		case skipped:
		default:
			msg = fmt.Sprintf("panic: %v\n%s", e, debug.Stack())
			input = c.input
		}
	}()
	fam.Run(c)
	return "", nil
}

// knownFindings reads the findings that are listed as not repaired.
func knownFindings(root string) map[string]bool {
	m := make(map[string]bool)
	raw, err := os.ReadFile(root + "/KNOWN_FINDINGS.txt")
	if err != nil {
		return m
	}
	for _, line := range strings.Split(string(raw), "\n") {
		if !strings.HasPrefix(line, "finding: ") {
			continue
		}
		var prop, id string
		for _, f := range strings.Fields(line) {
			if v, ok := strings.CutPrefix(f, "property="); ok && prop == "" {
				prop = v
			}
			if v, ok := strings.CutPrefix(f, "id="); ok && id == "" {
				id = v
			}
		}
		m[prop+"/"+id] = true
	}
	return m
}

func show(v any) string {
	switch v := v.(type) {
	case nil:
		return ""
	case string:
		return fmt.Sprintf("%q", v)
	}
	return fmt.Sprintf("%+v", v)
}

func sortedKeys[V any](m map[string]V) []string {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return keys
}

func pick[T any](c *Case, vs []T) T { return vs[c.Intn(len(vs))] }
