// vh runs the runtime monitors: a parent process supervises worker processes
// that execute the real midiasm code, case by case, under oracles. A worker
// that crashes, hangs or exhausts its memory is itself an observation.
package main

import (
	"bufio"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"midiverif/sut"
)

// Case is one execution (or a small group of executions) under an oracle.
type Case struct {
	Name string
	Run  func(c *Ctx)
}

// Check decides one property.
type Check struct {
	ID          string
	Level       string
	Rule        string
	Assumptions []string
	Workers     int     // 0: one per core
	CPULimit    float64 // CPU seconds for a single case (0: default)
	Cases       func(tier string, seed int64) []Case
	NoRlimit    bool
}

var stderr = os.Stderr

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

type Failure struct {
	Property  string
	Case      int
	Name      string
	Msg       string
	Known     string // key of a known finding demonstrator
	Artefacts map[string]string
}

type Result struct {
	Evaluations int64
	Cover       map[string]int64
	Samples     []any
	Failures    []Failure
	Events      map[string]int64
}

// Ctx collects what the monitors observed.
type Ctx struct {
	ID      string
	Tier    string
	Seed    int64
	index   int
	name    string
	res     *Result
	fails   int
	failed  *os.File
	Scratch string
}

// Eval counts one oracle evaluation of an execution.
func (c *Ctx) Eval() { c.res.Evaluations++ }

// Cover counts a distinct observation.
func (c *Ctx) Cover(key string) {
	if len(key) > 60 {
		h := sha256.Sum256([]byte(key))
		key = hex.EncodeToString(h[:8])
	}
	if _, ok := c.res.Cover[key]; ok || len(c.res.Cover) < 200000 {
		c.res.Cover[key]++
	}
}

// CoverBytes counts a distinct input
func (c *Ctx) CoverBytes(kind string, b []byte) {
	h := sha256.Sum256(b)
	c.Cover(kind + ":" + hex.EncodeToString(h[:8]))
}

// Observe counts monitored events by kind
func (c *Ctx) Observe(kind string, n int) { c.res.Events[kind] += int64(n) }

func (c *Ctx) Sample(v any) {
	if len(c.res.Samples) < 3 {
		c.res.Samples = append(c.res.Samples, v)
	}
}

func (c *Ctx) Failed() bool { return c.fails > 0 }

// Fail reports a violation. artefacts are name, content pairs.
func (c *Ctx) Fail(msg string, artefacts ...any) { c.fail("", msg, artefacts...) }

// Known reports the failure of the demonstrator of a known finding
func (c *Ctx) Known(key string, msg string, artefacts ...any) { c.fail(key, msg, artefacts...) }

func (c *Ctx) fail(key string, msg string, artefacts ...any) {
	c.fails++
	if len(msg) > 3000 {
		msg = msg[:3000] + "…"
	}
	f := Failure{Property: c.ID, Case: c.index, Name: c.name, Msg: msg, Known: key, Artefacts: map[string]string{}}
	for i := 0; i+1 < len(artefacts); i += 2 {
		var b []byte
		switch v := artefacts[i+1].(type) {
		case []byte:
			b = v
		case string:
			b = []byte(v)
		}
		if len(b) > 1<<20 {
			b = b[:1<<20]
		}
		f.Artefacts[artefacts[i].(string)] = hex.EncodeToString(b)
	}
	if len(c.res.Failures) < 25 {
		c.res.Failures = append(c.res.Failures, f)
		if c.failed != nil { // known to the supervisor even if this process does not get to its end
			b, _ := json.Marshal(f)
			c.failed.Write(append(b, '\n'))
		}
	}
}

func main() {
	var (
		id      = flag.String("property", "", "property ID")
		tier    = flag.String("tier", "quick", "quick or thorough")
		seed    = flag.Int64("seed", 1, "seed")
		verif   = flag.String("verif", "/verif", "verif directory")
		child   = flag.Int("child", -1, "worker number")
		workers = flag.Int("workers", 0, "number of workers")
		start   = flag.Int("start", 0, "first case")
		dir     = flag.String("dir", "", "scratch directory")
		only    = flag.Int("case", -1, "run only this case (in process)")
		list    = flag.Bool("list", false, "list cases")
		replay  = flag.String("replay", "", "replay file")
	)
	flag.Parse()

	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fatal(err)
		}
		var r struct {
			Property, Tier string
			Seed           int64
			Failure        Failure
		}
		if err := json.Unmarshal(b, &r); err != nil {
			fatal(err)
		}
		*id, *tier, *seed, *only = r.Property, r.Tier, r.Seed, r.Failure.Case
	}

	check, ok := checks[*id]
	if !ok {
		fatal(fmt.Errorf("unknown property %q", *id))
	}

	if *child >= 0 {
		worker(check, *tier, *seed, *child, *workers, *start, *dir)
		return
	}

	if *list {
		for i, c := range check.Cases(*tier, *seed) {
			fmt.Println(i, c.Name)
		}
		return
	}

	if *only >= 0 {
		cases := check.Cases(*tier, *seed)
		tmp, _ := os.MkdirTemp("", "vh")
		defer os.RemoveAll(tmp)
		ctx := &Ctx{ID: *id, Tier: *tier, Seed: *seed, index: *only, name: cases[*only].Name, res: newResult(), Scratch: tmp}
		sut.Quiet()
		sut.Mute()
		cases[*only].Run(ctx)
		if out := os.Getenv("VH_COLD_OUT"); out != "" {
			b, _ := json.Marshal(ctx.res)
			os.WriteFile(out, b, 0600)
		}
		for _, f := range ctx.res.Failures {
			fmt.Printf("FAIL case %d %s\n%s\n", f.Case, f.Name, f.Msg)
		}
		fmt.Printf("evaluations:%d distinct:%d failures:%d\n", ctx.res.Evaluations, len(ctx.res.Cover), len(ctx.res.Failures))
		if len(ctx.res.Failures) > 0 {
			os.Exit(1)
		}
		return
	}

	os.Exit(supervise(check, *tier, *seed, *verif))
}

func fatal(err error) {
	fmt.Fprintln(stderr, "vh:", err)
	os.Exit(3)
}

func newResult() *Result {
	return &Result{Cover: map[string]int64{}, Events: map[string]int64{}}
}

// --- worker

func worker(check *Check, tier string, seed int64, k, n, start int, dir string) {
	if !check.NoRlimit && !raceEnabled {
		lim := syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	debug.SetGCPercent(200)
	if n > 1 {
		debug.SetMaxStack(256 << 20)
	}
	cases := check.Cases(tier, seed)
	journal, err := os.OpenFile(filepath.Join(dir, fmt.Sprintf("journal.%d", k)), os.O_RDWR|os.O_CREATE, 0600)
	if err != nil {
		fatal(err)
	}
	scratch := filepath.Join(dir, fmt.Sprintf("scratch.%d", k))
	os.MkdirAll(scratch, 0700)
	ctx := &Ctx{ID: check.ID, Tier: tier, Seed: seed, res: newResult(), Scratch: scratch}
	ctx.failed, err = os.Create(filepath.Join(dir, fmt.Sprintf("failed.%d.%d", k, start)))
	if err != nil {
		fatal(err)
	}
	sut.Quiet()
	sut.Mute()
	var buf [8]byte
	for i := start; i < len(cases); i++ {
		if i%n != k {
			continue
		}
		binary.LittleEndian.PutUint64(buf[:], uint64(i))
		journal.WriteAt(buf[:], 0)
		ctx.index, ctx.name = i, cases[i].Name
		func() {
			defer func() {
				if p := recover(); p != nil {
					ctx.Fail(fmt.Sprintf("PANIC outside of an operation: %v\n%s", p, debug.Stack()))
				}
			}()
			cases[i].Run(ctx)
		}()
		if len(ctx.res.Failures) >= 25 {
			break
		}
	}
	b, err := json.Marshal(ctx.res)
	if err != nil {
		fatal(err)
	}
	out := filepath.Join(dir, fmt.Sprintf("result.%d.%d", k, start))
	if err := os.WriteFile(out+".tmp", b, 0600); err != nil {
		fatal(err)
	}
	os.Rename(out+".tmp", out)
}

// --- supervisor

func cpuSeconds(pid int) float64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	s := string(b)
	if i := strings.LastIndex(s, ")"); i >= 0 {
		f := strings.Fields(s[i+1:])
		if len(f) > 14 {
			u, _ := strconv.ParseFloat(f[11], 64)
			v, _ := strconv.ParseFloat(f[12], 64)
			w, _ := strconv.ParseFloat(f[13], 64)
			x, _ := strconv.ParseFloat(f[14], 64)
			return (u + v + w + x) / 100
		}
	}
	return 0
}

func supervise(check *Check, tier string, seed int64, verif string) int {
	t0 := time.Now()
	cases := check.Cases(tier, seed)
	dir, err := os.MkdirTemp("", "vh-"+check.ID+"-")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(dir)

	n := check.Workers
	if n == 0 {
		n = 8
	}
	if n > len(cases) {
		n = len(cases)
	}
	limit := check.CPULimit
	if limit == 0 {
		limit = 60
	}

	self, _ := os.Executable()
	total := newResult()
	var mu sync.Mutex
	var wg sync.WaitGroup
	broken := false

	// A hang is a violation, and more of them say nothing new: the other workers
	// get a little more time and are then stopped. A quick check that would take
	// too long reports what it has seen.
	var stopped time.Time // when the first hang was seen
	truncated := false
	stop := func() bool {
		mu.Lock()
		defer mu.Unlock()
		if tier == "quick" && time.Since(t0) > 720*time.Second {
			truncated = true
			return true
		}
		return !stopped.IsZero() && time.Since(stopped) > 20*time.Second
	}
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			start := 0
			for restarts := 0; restarts < 12 && start < len(cases); restarts++ {
				mu.Lock()
				over := !stopped.IsZero()
				mu.Unlock()
				if over || stop() {
					return
				}
				errfile := filepath.Join(dir, fmt.Sprintf("stderr.%d", k))
				ef, _ := os.Create(errfile)
				cmd := exec.Command(self, "-property", check.ID, "-tier", tier, "-seed", fmt.Sprint(seed), "-child", fmt.Sprint(k), "-workers", fmt.Sprint(n), "-start", fmt.Sprint(start), "-dir", dir)
				cmd.Stdout = nil
				cmd.Stderr = ef
				cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
				if err := cmd.Start(); err != nil {
					mu.Lock()
					broken = true
					mu.Unlock()
					fmt.Fprintln(os.Stderr, "vh: cannot start worker:", err)
					return
				}
				done := make(chan error, 1)
				go func() { done <- cmd.Wait() }()

				current := -1 // case being executed
				since := time.Now()
				var cpu0 float64
				hang := ""
				var werr error
			loop:
				for {
					select {
					case werr = <-done:
						break loop
					case <-time.After(200 * time.Millisecond):
						if stop() {
							syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
							<-done
							ef.Close()
							mu.Lock()
							total.Failures = append(total.Failures, readFailed(dir, k, start)...)
							mu.Unlock()
							return
						}
						idx := readJournal(dir, k)
						cpu := cpuSeconds(cmd.Process.Pid)
						if idx != current {
							current, since, cpu0 = idx, time.Now(), cpu
							continue
						}
						if idx < 0 {
							if time.Since(since) > 300*time.Second {
								hang = "worker did not start"
								syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
							}
							continue
						}
						if hang == "" && cpu-cpu0 > limit {
							hang = fmt.Sprintf("no result after %.0f CPU seconds (limit %.0f s)", cpu-cpu0, limit)
						}
						if hang == "" && time.Since(since) > 200*time.Second && cpu-cpu0 < 2 {
							hang = fmt.Sprintf("blocked: no result after %.0f s using only %.1f s of CPU", time.Since(since).Seconds(), cpu-cpu0)
						}
						if hang != "" {
							syscall.Kill(-cmd.Process.Pid, syscall.SIGQUIT)
							select {
							case werr = <-done:
							case <-time.After(5 * time.Second):
								syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
								werr = <-done
							}
							break loop
						}
					}
				}
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				ef.Close()
				idx := readJournal(dir, k)
				res := newResult()
				b, rerr := os.ReadFile(filepath.Join(dir, fmt.Sprintf("result.%d.%d", k, start)))
				if rerr == nil && json.Unmarshal(b, res) == nil && werr == nil {
					mu.Lock()
					merge(total, res)
					mu.Unlock()
					return
				}
				if idx < 0 {
					mu.Lock()
					broken = true
					mu.Unlock()
					fmt.Fprintf(os.Stderr, "vh: worker failed before its first case (%v)\n%s\n", werr, head(errfile))
					return
				}
				msg := hang
				if msg == "" {
					msg = fmt.Sprintf("worker process died (%v)", werr)
				}
				mu.Lock()
				if hang != "" && stopped.IsZero() {
					stopped = time.Now()
				}
				total.Failures = append(total.Failures, readFailed(dir, k, start)...)
				total.Failures = append(total.Failures, Failure{Property: check.ID, Case: idx, Name: cases[idx].Name, Msg: msg + "\n" + head(errfile)})
				mu.Unlock()
				start = idx + 1
			}
		}(k)
	}
	wg.Wait()

	if broken {
		return 3
	}

	// report
	known := loadKnown(filepath.Join(verif, "known-findings.txt"), check.ID)
	sort.SliceStable(total.Failures, func(i, j int) bool { return total.Failures[i].Case < total.Failures[j].Case })
	replays := filepath.Join(verif, "evidence", "replays")
	os.MkdirAll(replays, 0755)
	old, _ := filepath.Glob(filepath.Join(replays, check.ID+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}
	violations := 0
	printed := map[string]bool{}
	for _, f := range total.Failures {
		if f.Known != "" {
			if what, ok := known[f.Known]; ok {
				if !printed[f.Known] {
					fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", check.ID, f.Known, what)
					printed[f.Known] = true
				}
				continue
			}
		}
		violations++
		if violations > 10 {
			continue
		}
		path := filepath.Join(replays, fmt.Sprintf("%s-%d.json", check.ID, violations))
		b, _ := json.MarshalIndent(map[string]any{"Property": check.ID, "Tier": tier, "Seed": seed, "Failure": f}, "", " ")
		os.WriteFile(path, b, 0644)
		first := f.Msg
		if len(first) > 1500 {
			first = first[:1500] + "…"
		}
		fmt.Printf("case %d: %s\n  %s\n", f.Case, f.Name, strings.ReplaceAll(first, "\n", "\n  "))
		fmt.Printf("VIOLATION property=%s replay=%s\n", check.ID, path)
	}

	cover := map[string]any{
		"evaluations":         total.Evaluations,
		"distinct_nontrivial": len(total.Cover),
		"rule":                check.Rule,
		"samples":             total.Samples,
		"cases":               len(cases),
		"observed":            total.Events,
		"workers":             n,
		"stopped_early":       truncated || !stopped.IsZero(),
	}
	ev := map[string]any{
		"property": check.ID, "tier": tier, "seed": seed, "level": check.Level, "coverage": cover,
		"assumptions": check.Assumptions, "wall_s": time.Since(t0).Seconds(), "violations": violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", check.ID+".json"), append(b, '\n'), 0644); err != nil {
		fatal(err)
	}
	fmt.Printf("%s %s: %d cases, %d evaluations, %d distinct, %d violations, %.1fs\n", check.ID, tier, len(cases), total.Evaluations, len(total.Cover), violations, time.Since(t0).Seconds())
	if violations > 0 {
		return 1
	}
	return 0
}

func merge(t, r *Result) {
	t.Evaluations += r.Evaluations
	for k, v := range r.Cover {
		t.Cover[k] += v
	}
	for k, v := range r.Events {
		t.Events[k] += v
	}
	t.Failures = append(t.Failures, r.Failures...)
	for _, s := range r.Samples {
		if len(t.Samples) < 6 {
			t.Samples = append(t.Samples, s)
		}
	}
}

func readJournal(dir string, k int) int {
	b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("journal.%d", k)))
	if err != nil || len(b) < 8 {
		return -1
	}
	return int(binary.LittleEndian.Uint64(b))
}

// readFailed returns the failures seen by a worker that did not finish
func readFailed(dir string, k, start int) (l []Failure) {
	b, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("failed.%d.%d", k, start)))
	for _, line := range strings.Split(string(b), "\n") {
		var f Failure
		if line != "" && json.Unmarshal([]byte(line), &f) == nil {
			l = append(l, f)
		}
	}
	return l
}

func head(file string) string {
	b, _ := os.ReadFile(file)
	if len(b) > 6000 {
		b = b[:6000]
	}
	return string(b)
}

// loadKnown reads the open findings: "KNOWN-FINDING: property=<id> <key>: <what>"
func loadKnown(file, id string) map[string]string {
	m := map[string]string{}
	f, err := os.Open(file)
	if err != nil {
		return m
	}
	defer f.Close()
	s := bufio.NewScanner(f)
	for s.Scan() {
		line := s.Text()
		prefix := "KNOWN-FINDING: property=" + id + " "
		if strings.HasPrefix(line, prefix) {
			rest := strings.TrimPrefix(line, prefix)
			if i := strings.Index(rest, ": "); i > 0 {
				m[rest[:i]] = rest[i+2:]
			}
		}
	}
	return m
}
