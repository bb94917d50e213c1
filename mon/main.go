package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

const (
	exitOK        = 0
	exitViolation = 1
	exitError     = 2
)

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: vmon check ID | replay FILE | list all")
		os.Exit(exitError)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(supervise(os.Args[2]))
	case "child":
		os.Exit(child(os.Args[2], os.Args[3]))
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "helper":
		os.Exit(helper(os.Args[2], os.Args[3:]))
	case "list":
		for _, id := range sortedKeys(checks) {
			for _, f := range checks[id].Families {
				fmt.Println(id, f.Name, f.Quick, f.Thorough)
			}
		}
	default:
		os.Exit(exitError)
	}
}

func root() string {
	if r := os.Getenv("VMON_ROOT"); r != "" {
		return r
	}
	return "/verif"
}

func tierSeed() (string, int64) {
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	return tier, seed
}

func newShard() *shard {
	return &shard{
		counts:   make(map[string]int),
		distinct: make(map[uint64]struct{}),
		sets:     make(map[string]map[uint64]struct{}),
		samples:  make(map[string][]any),
		byfam:    make(map[string]int),
		known:    knownFindings(root()),
	}
}

// child runs the cases of one shard: "i/n".
// File descriptors: 3 reports to the supervisor, 4 is the progress file.
func child(id, spec string) int {
	chk := checks[id]
	if chk == nil {
		return exitError
	}
	var i, n int
	fmt.Sscanf(spec, "%d/%d", &i, &n)
	tier, seed := tierSeed()
	if !chk.KeepLog {
		log.SetOutput(io.Discard)
	}
	debug.SetGCPercent(200)
	sh := newShard()
	sh.out = os.NewFile(3, "report")
	sh.prog = os.NewFile(4, "progress")
	deadline := time.Now().Add(budget(tier))
	only := os.Getenv("VMON_FAMILY")
	scale, _ := strconv.ParseFloat(os.Getenv("VMON_SCALE"), 64) // for tools/mutate

	var progress [16]byte
	fails := 0
	timeout := false
loop:
	for fi, fam := range chk.Families {
		if only != "" && only != fam.Name {
			continue
		}
		count := fam.Quick
		if tier == "thorough" {
			count = fam.Thorough
		}
		if scale > 0 && !fam.Solo {
			count = int(math.Ceil(float64(count) * scale))
		}
		for k := 0; k < count; k++ {
			switch {
			case fam.Solo && i != fi%n:
				continue
			case !fam.Solo && k%n != i:
				continue
			}
			if k%16 == i%16 && time.Now().After(deadline) {
				timeout = true
				break loop
			}
			binary.LittleEndian.PutUint64(progress[:8], uint64(fi))
			binary.LittleEndian.PutUint64(progress[8:], uint64(k))
			sh.prog.WriteAt(progress[:], 0)
			msg, input := runCase(sh, chk, fam, k, seed, tier)
			sh.byfam[fam.Name]++
			if msg != "" {
				sh.emit(message{Kind: "fail", Family: fam.Name, Index: k, Msg: msg, Input: show(input)})
				fails++
				if fails >= 2 {
					break loop
				}
				break
			}
		}
	}
	done := message{
		Kind: "done", Evals: sh.evals, ByFam: sh.byfam, Counts: sh.counts,
		Samples: sh.samples, Sets: make(map[string][]uint64), Timeout: timeout,
	}
	for k := range sh.distinct {
		done.Distinct = append(done.Distinct, k)
	}
	for name, m := range sh.sets {
		for k := range m {
			done.Sets[name] = append(done.Sets[name], k)
		}
	}
	sh.emit(done)
	return exitOK
}

func budget(tier string) time.Duration {
	if v, err := strconv.Atoi(os.Getenv("VMON_BUDGET")); err == nil {
		return time.Duration(v) * time.Second
	}
	if tier == "thorough" {
		return 700 * time.Second
	}
	return 240 * time.Second
}

type shardState struct {
	spec    string
	cmd     *exec.Cmd
	prog    *os.File
	stderr  string
	killed  string // why the supervisor killed it
	done    *message
	lastKey string
	lastCPU float64
	since   time.Time
}

func supervise(id string) int {
	chk := checks[id]
	if chk == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", id)
		return exitError
	}
	start := time.Now()
	tier, seed := tierSeed()
	os.MkdirAll(filepath.Join(root(), "evidence"), 0o755)
	os.MkdirAll(filepath.Join(root(), "replays"), 0o755)
	evfile := filepath.Join(root(), "evidence", id+".json")
	os.Remove(evfile)
	tmp, err := os.MkdirTemp("", "vmon-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	defer os.RemoveAll(tmp)

	exe, _ := os.Executable()
	if chk.Race {
		exe = os.Getenv("VMON_RACE")
	}
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if v, err := strconv.Atoi(os.Getenv("VMON_SHARDS")); err == nil {
		n = v
	}

	var (
		mu     sync.Mutex
		fails  []message
		knowns = make(map[string]bool)
		states []*shardState
		wg     sync.WaitGroup
		broken []string
	)
	for i := 0; i < n; i++ {
		st := &shardState{spec: fmt.Sprintf("%d/%d", i, n)}
		st.stderr = filepath.Join(tmp, fmt.Sprintf("stdio-%d", i))
		prog, err := os.OpenFile(filepath.Join(tmp, fmt.Sprintf("prog-%d", i)), os.O_RDWR|os.O_CREATE, 0o644)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return exitError
		}
		st.prog = prog
		stdio, err := os.OpenFile(st.stderr, os.O_RDWR|os.O_CREATE|os.O_APPEND, 0o644)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return exitError
		}
		r, w, err := os.Pipe()
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return exitError
		}
		cmd := exec.Command(exe, "child", id, st.spec)
		scratch := filepath.Join(tmp, fmt.Sprintf("scratch-%d", i))
		os.MkdirAll(scratch, 0o755)
		cmd.Dir = scratch
		cmd.Env = append(os.Environ(), "VMON_SCRATCH="+scratch, "VMON_ROOT="+root())
		if !chk.Race && os.Getenv("GOMAXPROCS") == "" {
			cmd.Env = append(cmd.Env, "GOMAXPROCS=2")
		}
		cmd.Stdout = stdio
		cmd.Stderr = stdio
		cmd.ExtraFiles = []*os.File{w, prog}
		if err := cmd.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return exitError
		}
		w.Close()
		stdio.Close()
		st.cmd = cmd
		states = append(states, st)
		wg.Add(1)
		go func() {
			defer wg.Done()
			sc := bufio.NewReader(r)
			for {
				line, err := sc.ReadBytes('\n')
				if len(line) > 0 {
					var m message
					if json.Unmarshal(line, &m) == nil {
						mu.Lock()
						switch m.Kind {
						case "fail":
							fails = append(fails, m)
							if os.Getenv("VMON_FAILFAST") != "" {
								// for tools/mutate: one alarm is enough.
								for _, s := range states {
									s.cmd.Process.Kill()
								}
								outf("VIOLATION property=%s replay=none %s: %s\n", id, m.Family, strings.ReplaceAll(clip(m.Msg), "\n", " # "))
								os.RemoveAll(tmp)
								os.Exit(exitViolation)
							}
						case "known":
							knowns[m.Msg] = true
						case "done":
							st.done = &m
						}
						mu.Unlock()
					}
				}
				if err != nil {
					break
				}
			}
			r.Close()
			err := cmd.Wait()
			mu.Lock()
			defer mu.Unlock()
			if st.done != nil && err == nil {
				return
			}
			if st.done != nil && chk.Race {
				return // race reports make the exit status non-zero
			}
			fam, k := st.current(chk)
			out, _ := os.ReadFile(st.stderr)
			switch {
			case st.killed == "deadline":
				broken = append(broken, "shard "+st.spec+" ran out of wall-clock time")
			case st.killed != "":
				fails = append(fails, message{Kind: "fail", Family: fam.Name, Index: k, Msg: st.killed})
			case oomKilled(cmd.Process.Pid):
				broken = append(broken, "shard "+st.spec+" was ended for lack of memory in the sandbox")
			default:
				fails = append(fails, message{
					Kind: "fail", Family: fam.Name, Index: k,
					Msg: fmt.Sprintf("the process died (%v):\n%s", err, head(out, 6000)),
				})
			}
		}()
	}

	stop := make(chan struct{})
	go func() { wg.Wait(); close(stop) }()
	wall := budget(tier) + 180*time.Second
	tick := time.NewTicker(250 * time.Millisecond)
	defer tick.Stop()
watch:
	for {
		select {
		case <-stop:
			break watch
		case <-tick.C:
		}
		for _, st := range states {
			if why := st.watch(chk); why != "" {
				mu.Lock()
				if st.killed == "" {
					st.killed = why
				}
				mu.Unlock()
				st.cmd.Process.Kill()
			}
			if time.Since(start) > wall {
				mu.Lock()
				if st.killed == "" {
					st.killed = "deadline"
				}
				mu.Unlock()
				st.cmd.Process.Kill()
			}
		}
	}
	for _, st := range states {
		st.prog.Close()
	}

	// the race detector writes to the standard error of the children.
	if chk.Race {
		for _, st := range states {
			out, _ := os.ReadFile(st.stderr)
			if i := bytes.Index(out, []byte("WARNING: DATA RACE")); i >= 0 {
				fam, k := st.current(chk)
				fails = append(fails, message{Kind: "fail", Family: fam.Name, Index: k, Msg: head(out[i:], 6000)})
			}
		}
	}

	ev := evidence(chk, tier, seed, states, len(fails), time.Since(start))
	for _, k := range sortedKeys(knowns) {
		outf("KNOWN-FINDING: property=%s %s\n", id, k)
	}
	code := exitOK
	if len(fails) == 0 && len(broken) == 0 && os.Getenv("VMON_FAMILY") == "" {
		counts := ev["coverage"].(map[string]any)["observed"].(map[string]int)
		for _, need := range chk.Need {
			if counts[need] == 0 {
				broken = append(broken, "no event of kind "+strconv.Quote(need)+" was observed")
			}
		}
	}
	if len(knowns) > 0 {
		ev["coverage"].(map[string]any)["known_findings"] = sortedKeys(knowns)
	}
	raw, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(evfile, append(raw, '\n'), 0o644); err != nil {
		broken = append(broken, err.Error())
	}
	if len(fails) > 0 {
		code = exitViolation
		seen := make(map[string]bool)
		for _, f := range fails {
			if seen[f.Family] || len(seen) >= 4 {
				continue
			}
			seen[f.Family] = true
			fam := strings.NewReplacer(" ", "-", ",", "").Replace(f.Family)
			name := fmt.Sprintf("%s-%s-%d-%d.json", id, fam, seed, f.Index)
			path := filepath.Join(root(), "replays", name)
			raw, _ := json.MarshalIndent(map[string]any{
				"property": id, "family": f.Family, "index": f.Index, "seed": seed,
				"tier": tier, "input": f.Input, "message": f.Msg,
				"how": "./vreplay.sh " + path,
			}, "", " ")
			os.WriteFile(path, append(raw, '\n'), 0o644)
			outf("# %s case %d: %s\n#   input: %s\n", f.Family, f.Index,
				strings.ReplaceAll(head([]byte(f.Msg), 1500), "\n", "\n#   "), head([]byte(f.Input), 600))
			outf("VIOLATION property=%s replay=%s\n", id, path)
		}
	} else if len(broken) > 0 {
		code = exitError
	}
	for _, b := range broken {
		fmt.Fprintf(os.Stderr, "INCONCLUSIVE: %s\n", b)
	}
	cov := ev["coverage"].(map[string]any)
	fmt.Printf("%s %s seed=%d: %v evaluations, %v distinct non-trivial, %d violation(s), %.1fs\n",
		id, tier, seed, cov["evaluations"], cov["distinct_nontrivial"], len(fails), time.Since(start).Seconds())
	return code
}

func head(b []byte, n int) string {
	if len(b) > n {
		return string(b[:n]) + "..."
	}
	return string(b)
}

// current returns the case a shard is running.
func (st *shardState) current(chk *Check) (*Family, int) {
	var buf [16]byte
	st.prog.ReadAt(buf[:], 0)
	fi := int(binary.LittleEndian.Uint64(buf[:8]))
	k := int(binary.LittleEndian.Uint64(buf[8:]))
	if fi < 0 || fi >= len(chk.Families) {
		fi = 0
	}
	return chk.Families[fi], k
}

// watch returns why a shard must be stopped, if it must.
func (st *shardState) watch(chk *Check) string {
	pid := st.cmd.Process.Pid
	stat, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return ""
	}
	i := bytes.LastIndexByte(stat, ')')
	f := strings.Fields(string(stat[i+1:]))
	if len(f) < 22 {
		return ""
	}
	ut, _ := strconv.ParseFloat(f[11], 64)
	stt, _ := strconv.ParseFloat(f[12], 64)
	cpu := (ut + stt) / 100
	rss, _ := strconv.ParseFloat(f[21], 64)
	rss *= float64(os.Getpagesize())

	fam, k := st.current(chk)
	key := fmt.Sprintf("%s/%d", fam.Name, k)
	if key != st.lastKey {
		st.lastKey, st.lastCPU, st.since = key, cpu, time.Now()
	}
	limit := float64(fam.CPU)
	if limit == 0 {
		limit = 60
	}
	switch {
	case time.Since(st.since) > 150*time.Second && cpu-st.lastCPU < 1:
		return "the case is blocked: it used no CPU for 150 s"
	case cpu-st.lastCPU > limit:
		return fmt.Sprintf("the case did not terminate within %g CPU-seconds", limit)
	case rss > 6e9:
		return fmt.Sprintf("the case made the process grow to %.1f GB", rss/1e9)
	}
	return ""
}

func oomKilled(pid int) bool {
	raw, err := os.ReadFile("/root/.vp/ended.log")
	return err == nil && strings.Contains(string(raw), strconv.Itoa(pid))
}

func evidence(chk *Check, tier string, seed int64, states []*shardState, violations int, wall time.Duration) map[string]any {
	var (
		evals    int
		byfam    = make(map[string]int)
		counts   = make(map[string]int)
		distinct = make(map[uint64]struct{})
		sets     = make(map[string]map[uint64]struct{})
		samples  []any
		perfam   = make(map[string]int)
		timeout  bool
	)
	for _, st := range states {
		if st.done == nil {
			continue
		}
		m := st.done
		evals += m.Evals
		timeout = timeout || m.Timeout
		for k, v := range m.ByFam {
			byfam[k] += v
		}
		for k, v := range m.Counts {
			counts[k] += v
		}
		for _, h := range m.Distinct {
			distinct[h] = struct{}{}
		}
		for name, hs := range m.Sets {
			if sets[name] == nil {
				sets[name] = make(map[uint64]struct{})
			}
			for _, h := range hs {
				sets[name][h] = struct{}{}
			}
		}
		for _, name := range sortedKeys(m.Samples) {
			for _, s := range m.Samples[name] {
				if perfam[name] < 2 {
					perfam[name]++
					samples = append(samples, map[string]any{"family": name, "case": s})
				}
			}
		}
	}
	dist := make(map[string]int)
	for k, v := range sets {
		dist[k] = len(v)
	}
	if samples == nil {
		samples = []any{}
	}
	return map[string]any{
		"property": chk.ID, "tier": tier, "seed": seed, "level": chk.Level,
		"coverage": map[string]any{
			"evaluations":           evals,
			"distinct_nontrivial":   len(distinct),
			"rule":                  chk.Rule,
			"samples":               samples,
			"cases_by_family":       byfam,
			"observed":              counts,
			"distinct_observations": dist,
			"shards":                len(states),
			"cut_short_by_budget":   timeout,
		},
		"assumptions": append([]string{}, chk.Assumptions...),
		"wall_s":      float64(int(wall.Seconds()*100)) / 100,
		"violations":  violations,
	}
}

func replay(path string) int {
	raw, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	var rec struct {
		Property, Family, Tier string
		Index                  int
		Seed                   int64
	}
	if err := json.Unmarshal(raw, &rec); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	chk := checks[rec.Property]
	if chk == nil {
		return exitError
	}
	if !chk.KeepLog {
		log.SetOutput(io.Discard)
	}
	tmp, err := os.MkdirTemp("", "vmon-replay-")
	if err != nil {
		return exitError
	}
	defer os.RemoveAll(tmp)
	os.Setenv("VMON_SCRATCH", tmp)
	for _, fam := range chk.Families {
		if fam.Name != rec.Family {
			continue
		}
		sh := newShard()
		sh.out = os.Stdout
		msg, input := runCase(sh, chk, fam, rec.Index, rec.Seed, rec.Tier)
		outf("input: %s\n", show(input))
		if msg != "" {
			outf("%s\nVIOLATION property=%s replay=%s\n", msg, rec.Property, path)
			return exitViolation
		}
		fmt.Println("no violation")
		return exitOK
	}
	return exitError
}

func scratch() string {
	if s := os.Getenv("VMON_SCRATCH"); s != "" {
		return s
	}
	return os.TempDir()
}

// cpuTime returns the CPU time of this process.
func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

var helpers = map[string]func(args []string) int{}

func helper(name string, args []string) int {
	if h := helpers[name]; h != nil {
		return h(args)
	}
	return exitError
}

// outf prints text: valid UTF-8, whatever it quotes.
func outf(format string, args ...any) {
	fmt.Print(strings.ToValidUTF8(fmt.Sprintf(format, args...), "\ufffd"))
}
