package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"

	"midiverif/gen"
	"midiverif/ref"
	"midiverif/sut"
)

// An operation on a decoded file. The result includes the error.
type operation struct {
	name string
	run  func(*sut.SMF) string
}

func result(b []byte, err error) string {
	if err != nil {
		return "error: " + strings.SplitN(err.Error(), "\ngoroutine", 2)[0]
	}
	return string(b)
}

var readers = []operation{
	{"disassemble", func(s *sut.SMF) string { t, err := sut.Text(s); return result([]byte(t), err) }},
	{"split", func(s *sut.SMF) string { l, err := sut.Split(s); return result([]byte(strings.Join(l, "\x00")), err) }},
	{"export", func(s *sut.SMF) string { return result(sut.JSON(s)) }},
	{"encode", func(s *sut.SMF) string { return result(sut.Encode(s)) }},
	{"validate", func(s *sut.SMF) string {
		l, err := sut.Validate(s)
		return result([]byte(strings.Join(l, "\n")), err)
	}},
	{"notes", func(s *sut.SMF) string { return result(sut.Notes(s, 0, false)) }},
	{"notes json", func(s *sut.SMF) string { return result(sut.Notes(s, 0, true)) }},
	{"notes +7", func(s *sut.SMF) string { return result(sut.Notes(s, 7, true)) }},
	{"notes -13", func(s *sut.SMF) string { return result(sut.Notes(s, -13, false)) }},
	{"click", func(s *sut.SMF) string { var b bytes.Buffer; err := sut.ClickTo(s, &b); return result(b.Bytes(), err) }},
}

// fresh operations start from the bytes of a file
type source struct {
	name string
	run  func(b []byte) string
}

func onFile(op operation) source {
	return source{op.name, func(b []byte) string {
		s, err := sut.Decode(b)
		if err != nil {
			return result(nil, err)
		}
		return op.run(s)
	}}
}

var sources = func() []source {
	l := []source{}
	for _, op := range readers {
		l = append(l, onFile(op))
	}
	for _, n := range []int{0, 1, -5, 12} {
		n := n
		l = append(l, onFile(operation{fmt.Sprintf("transpose %d", n), func(s *sut.SMF) string { return result(sut.Transpose(s, n)) }}))
	}
	l = append(l, onFile(operation{"reassemble text", func(s *sut.SMF) string {
		t, err := sut.Text(s)
		if err != nil {
			return result(nil, err)
		}
		return result(sut.AssembleText([]byte(t)))
	}}), onFile(operation{"reassemble JSON", func(s *sut.SMF) string {
		t, err := sut.JSON(s)
		if err != nil {
			return result(nil, err)
		}
		return result(sut.AssembleJSON(t))
	}}), source{"assemble text", func(b []byte) string { return result(sut.AssembleText(b)) }},
		source{"assemble JSON", func(b []byte) string { return result(sut.AssembleJSON(b)) }})
	return l
}()

// workload: good files of all kinds, damaged files and sources
func workload(r *rand.Rand, n int) [][]byte {
	l := [][]byte{}
	for i := 0; i < n; i++ {
		o := gen.Opt{Format: -1, MaxTracks: 6, MaxTextLen: 120}
		switch r.Intn(3) {
		case 0:
			o = sourceOpt()
		case 1:
			o = notesOpt
		}
		f := gen.Random(r, o)
		b := f.Encode()
		switch r.Intn(8) {
		case 0:
			b = gen.Mutate(r, b)
		case 1:
			b = b[:r.Intn(len(b)+1)]
		case 2:
			b = []byte(f.Text(r.Intn(2) == 0))
		case 3:
			f = gen.Random(r, sourceOpt())
			f.Encode()
			t := [][]item{}
			for _, x := range f.Tracks {
				y, _ := flatten([][][]item{groups(x, false)})
				t = append(t, y...)
			}
			b = []byte(jsonSource(r, f.Format, f.Division, t, false))
		case 5: // a manufacturer that is not defined, but named like those that are
			name := []rune(ref.Manufacturers[r.Intn(len(ref.Manufacturers))].Name)
			name = name[:1+r.Intn(min(3, len(name)))]
			b = []byte(fmt.Sprintf("MThd length:6, format:0, tracks:1, metrical time:480 ppqn\nMTrk 0\ndelta:0 F0 SysExMessage %s, 01 02\ndelta:0 2F EndOfTrack\n", string(name)))
			if r.Intn(2) == 0 {
				b = []byte(fmt.Sprintf("MThd length:6, format:0, tracks:1, metrical time:480 ppqn\nMTrk 0\ndelta:0 7F SequencerSpecificEvent %s, 01 02\ndelta:0 2F EndOfTrack\n", string(name)))
			}
		case 4: // leaves a lot of state behind: flats, banks, open notes, an unterminated SysEx, running status
			evs := []ref.Ev{{Status: 0xff, Type: 0x59, Data: []byte{0xfb, 0}}}
			for ch := byte(0); ch < 16; ch++ {
				evs = append(evs, ref.Ev{Status: 0xb0 | ch, Data: []byte{0, byte(r.Intn(128))}}, ref.Ev{Status: 0xb0 | ch, Data: []byte{0x20, byte(r.Intn(128))}})
				for n := 0; n < 128; n += 1 + r.Intn(9) {
					evs = append(evs, on(1, ch, byte(n), 64))
				}
			}
			evs = append(evs, ref.Ev{Status: 0xf0, Data: []byte{0x7e, 1, 2}})
			b = (&ref.File{Format: 0, Division: 96, Tracks: [][]ref.Ev{evs}}).Encode()
		}
		l = append(l, b)
	}
	return l
}

func comparable(s string) string {
	if i := strings.Index(s, "PANIC"); i >= 0 { // addresses in stack traces differ
		return s[:i+5]
	}
	return s
}

func diffResult(p, q string) string {
	if comparable(p) == comparable(q) {
		return ""
	}
	i := 0
	for i < len(p) && i < len(q) && p[i] == q[i] {
		i++
	}
	from := i - 40
	if from < 0 {
		from = 0
	}
	cut := func(s string) string {
		if len(s) > i+80 {
			return s[from : i+80]
		}
		return s[from:]
	}
	return fmt.Sprintf("differs at byte %d: %q / %q", i, cut(p), cut(q))
}

// --- determinism

func determinismCases(tier string, seed int64) []Case {
	list := []Case{}
	n := 100
	if tier == "thorough" {
		n = 3000
	}
	for k := 0; k < n; k++ {
		k := k
		list = append(list, Case{fmt.Sprintf("repeated operations %d", k), func(c *Ctx) {
			r := rng(c.Seed, "C12", k)
			files := workload(r, 12)
			c4 := r.Intn(2) == 0
			sut.C4(c4)
			type job struct {
				file []byte
				op   source
			}
			jobs := []job{}
			for _, b := range files {
				for _, op := range sources {
					jobs = append(jobs, job{b, op})
				}
			}
			first := map[string]string{}
			for pass := 0; pass < 4 && !c.Failed(); pass++ {
				r.Shuffle(len(jobs), func(i, j int) { jobs[i], jobs[j] = jobs[j], jobs[i] })
				for _, j := range jobs {
					key := j.op.name + "\x00" + string(j.file)
					got := j.op.run(j.file)
					c.Eval()
					want, ok := first[key]
					if !ok {
						first[key] = got
						continue
					}
					if d := diffResult(want, got); d != "" {
						c.Fail(fmt.Sprintf("%s: the same operation gave two results: %s", j.op.name, d), "input", j.file, "first", want, "now", got)
						return
					}
				}
			}
			for _, b := range files {
				c.CoverBytes("input", b)
			}
			c.Observe("operations", 4*len(jobs))
		}})
	}
	m := 40
	if tier == "thorough" {
		m = 600
	}
	for k := 0; k < m; k++ {
		k := k
		list = append(list, Case{fmt.Sprintf("program in different environments %d", k), func(c *Ctx) { environments(c, k) }})
	}
	return append(list, historyCases(tier, seed)...)
}

// history: results are the same in a process that did nothing before as in one
// that has processed everything else before, in different orders
func historyCases(tier string, seed int64) []Case {
	list := []Case{}
	n := 8
	if tier == "thorough" {
		n = 80
	}
	for k := 0; k < n; k++ {
		k := k
		list = append(list, Case{fmt.Sprintf("fresh and used processes %d", k), func(c *Ctx) { history(c, k) }})
	}
	return list
}

// historyFiles is the workload of a history case: every three byte manufacturer
// ID in two arrangements, the events of the sweeps in small files, random files
func historyFiles(seed int64, k int) [][]byte {
	r := rng(seed, "C12h", k)
	l := [][]byte{}
	switch k {
	case 0, 1:
		for i := 0; i < 256; i++ {
			for _, columns := range []bool{false, true} {
				evs := []ref.Ev{}
				for j := 0; j < 256; j++ {
					id := []byte{0, byte(i), byte(j)}
					if columns {
						id = []byte{0, byte(j), byte(i)}
					}
					if k == 0 {
						evs = append(evs, ref.Ev{Status: 0xff, Type: 0x7f, Data: append(id, 1, 2)})
					} else if id[1] < 128 && id[2] < 128 {
						evs = append(evs, ref.Ev{Status: 0xf0, Data: append(id, 5, 0xf7)})
					}
				}
				l = append(l, gen.Wrap(evs...).Encode())
			}
		}
	case 2, 3:
		for _, s := range gen.Sweeps(gen.Opt{Format: -1, MaxTracks: 6, MaxTextLen: 60}, false) {
			for _, t := range s.File.Tracks {
				if len(t) > 4096 {
					x := r.Intn(len(t) - 4096)
					t = t[x : x+4096]
				}
				for len(t) > 0 {
					n := 1 + r.Intn(32)
					if n > len(t) {
						n = len(t)
					}
					l = append(l, gen.Wrap(t[:n]...).Encode())
					t = t[n:]
				}
			}
		}
		r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	default:
		l = workload(r, 200)
	}
	return l
}

// history compares the results of processes with different histories
func history(c *Ctx, k int) {
	ops := []source{}
	for _, op := range sources {
		switch op.name {
		case "disassemble", "export", "reassemble text", "reassemble JSON":
			ops = append(ops, op)
		case "encode", "notes json", "transpose 1":
			if k >= 2 {
				ops = append(ops, op)
			}
		case "assemble text", "assemble JSON":
			if k >= 4 {
				ops = append(ops, op)
			}
		}
	}
	files := historyFiles(c.Seed, k)
	if c.Tier == "quick" && len(files) > 2500 {
		files = files[:2500]
	}
	if spec := os.Getenv("VH_HISTORY"); spec != "" { // in the process with the history
		order := []int{}
		b, err := os.ReadFile(spec)
		must(err)
		must(json.Unmarshal(b, &order))
		w := map[int][]string{}
		for _, i := range order {
			for _, op := range ops {
				h := sha256.Sum256([]byte(comparable(op.run(files[i]))))
				w[i] = append(w[i], hex.EncodeToString(h[:8]))
			}
		}
		b, _ = json.Marshal(w)
		must(os.WriteFile(os.Getenv("VH_HISTORY_OUT"), b, 0600))
		return
	}
	r := rng(c.Seed, "C12o", k)
	type run struct {
		name  string
		order []int
		got   map[int][]string
	}
	forward, reverse := []int{}, []int{}
	for i := range files {
		forward = append(forward, i)
		reverse = append(reverse, len(files)-1-i)
	}
	runs := []*run{{name: "first to last", order: forward}, {name: "last to first", order: reverse}, {name: "shuffled", order: r.Perm(len(files))}}
	for p := 0; p < 8; p++ {
		x := &run{name: fmt.Sprintf("part %d", p)}
		for _, i := range r.Perm(len(files)) {
			if i%8 == p {
				x.order = append(x.order, i)
			}
		}
		runs = append(runs, x)
	}
	for p := 0; p < 12; p++ {
		i := r.Intn(len(files))
		runs = append(runs, &run{name: fmt.Sprintf("only file %d", i), order: []int{i}})
	}
	self, _ := os.Executable()
	parallel(4, len(runs), func(n int) {
		x := runs[n]
		out := filepath.Join(c.Scratch, fmt.Sprintf("history.%d", n))
		spec, _ := json.Marshal(x.order)
		must(os.WriteFile(out+".order", spec, 0600))
		cmd := exec.Command(self, "-property", c.ID, "-tier", c.Tier, "-seed", fmt.Sprint(c.Seed), "-case", fmt.Sprint(c.index))
		cmd.Env = append(os.Environ(), "VH_HISTORY="+out+".order", "VH_HISTORY_OUT="+out, "TMPDIR="+c.Scratch)
		if msg, err := cmd.CombinedOutput(); err != nil {
			panic(fmt.Sprintf("history %s: %v\n%s", x.name, err, msg))
		}
		b, err := os.ReadFile(out)
		must(err)
		must(json.Unmarshal(b, &x.got))
		os.Remove(out)
		os.Remove(out + ".order")
	})
	for _, x := range runs[1:] {
		for _, i := range x.order {
			for n, op := range ops {
				c.Eval()
				if x.got[i][n] != runs[0].got[i][n] {
					c.Fail(fmt.Sprintf("%s of file %d gave different results in a process that had processed other files before (history %q) and in one with another history (%q)", op.name, i, runs[0].name, x.name), "midi", files[i])
					return
				}
			}
		}
	}
	for _, b := range files {
		c.CoverBytes("input", b)
	}
	c.Observe("processes with different histories", len(runs))
}

// runEnv executes the program in an environment
func runEnv(dir string, env []string, args ...string) (stdout, stderr []byte, exit int) {
	cmd := exec.Command(os.Getenv("MIDIASM"), args...)
	cmd.Dir = dir
	cmd.Env = env
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	if err := cmd.Run(); err != nil {
		if x, ok := err.(*exec.ExitError); ok {
			return o.Bytes(), e.Bytes(), x.ExitCode()
		}
		panic(err)
	}
	return o.Bytes(), e.Bytes(), 0
}

// environments: outputs do not depend on the environment, the directory, the
// way the file is named, the output channel or the log level
func environments(c *Ctx, k int) {
	r := rng(c.Seed, "C12e", k)
	o := sourceOpt()
	if k%2 == 0 {
		o = notesOpt
	}
	f := gen.Random(r, o)
	b := f.Encode()
	dir := filepath.Join(c.Scratch, "env")
	os.RemoveAll(dir)
	must(os.MkdirAll(filepath.Join(dir, "a b", "c"), 0700))
	must(os.MkdirAll(filepath.Join(dir, "home"), 0700))
	must(os.WriteFile(filepath.Join(dir, "x.mid"), b, 0600))
	must(os.WriteFile(filepath.Join(dir, "a b", "renamed.midi"), b, 0600))
	must(os.WriteFile(filepath.Join(dir, "x.txt"), []byte(f.Text(false)), 0600))
	envs := [][]string{
		{"PATH=/usr/bin:/bin", "HOME=" + dir},
		{},
		{"HOME=/nonexistent", "TZ=Asia/Kathmandu", "LANG=tr_TR.UTF-8", "LC_ALL=tr_TR.UTF-8", "COLUMNS=20", "TERM=dumb"},
		{"GOMAXPROCS=1", "GOGC=1", "LANG=C", "COLUMNS=500", "DEBUG=1", "NO_COLOR=1"},
	}
	pool := []string{"COLUMNS=80", "LINES=24", "TERM=xterm-256color", "TERM=", "LANG=en_US.UTF-8", "LANG=de_DE", "LC_ALL=C", "LC_ALL=POSIX", "LC_NUMERIC=de_DE", "TZ=UTC", "USER=root", "USER=nobody", "CI=true", "VERBOSE=1", "FORCE_COLOR=1", "CLICOLOR=1", "TMPDIR=" + dir, "TMPDIR=/nonexistent", "XDG_CONFIG_HOME=" + dir, "SOURCE_DATE_EPOCH=0", "MIDIASM=1", "MIDIASM_C4=1", "MIDIASM_DEBUG=1", "GODEBUG=", "GOMAXPROCS=2", "PWD=/", "SHELL=/bin/sh"}
	for i := 1; i < len(envs); i++ {
		for _, j := range r.Perm(len(pool))[:6] {
			envs[i] = append(envs[i], pool[j])
		}
	}
	type way struct {
		dir, file string
		extra     []string
	}
	ways := []way{
		{dir, "x.mid", nil},
		{filepath.Join(dir, "a b", "c"), "../../x.mid", []string{"--debug"}},
		{filepath.Join(dir, "a b"), "renamed.midi", []string{"--verbose"}},
		{"/", filepath.Join(dir, "x.mid"), []string{"--debug", "--verbose"}},
	}
	for _, cmd := range [][]string{{"disassemble"}, {"export"}, {"notes"}, {"notes", "--json"}, {"tsv"}, {"click"}, {"transpose", "--semitones", "3"}, {"assemble"}, {"tsv", "--out"}} {
		first := ""
		for i, w := range ways {
			for _, c4 := range []bool{false} {
				out := filepath.Join(dir, "out")
				os.Remove(out)
				args := append(append([]string{}, cmd...), w.extra...)
				file := w.file
				toFile := i%2 == 1
				switch {
				case cmd[len(cmd)-1] == "--out":
					args = append(append([]string{cmd[0]}, w.extra...), "--out", out)
					toFile = true
				case cmd[0] == "transpose" || cmd[0] == "assemble":
					toFile = true
					args = append(args, "--out", out)
				case cmd[0] == "tsv" || cmd[0] == "click": // stdout only
					toFile = false
				case toFile:
					args = append(args, "--out", out)
				}
				if cmd[0] == "assemble" {
					file = filepath.Join(dir, "x.txt")
				}
				if c4 {
					args = append(args, "--C4")
				}
				args = append(args, file)
				stdout, _, exit := runEnv(w.dir, envs[i], args...)
				c.Eval()
				if toFile && exit == 0 && i > 0 { // standard output is a device
					must(os.Remove(out))
					null, err := os.OpenFile(os.DevNull, os.O_RDWR, 0)
					must(err)
					cmd := exec.Command(os.Getenv("MIDIASM"), args...)
					cmd.Dir, cmd.Env, cmd.Stdin, cmd.Stdout, cmd.Stderr = w.dir, envs[i], null, null, null
					err = cmd.Run()
					null.Close()
					c.Eval()
					if err != nil {
						c.Fail(fmt.Sprintf("midiasm %v with standard output discarded: %v", args, err), "midi", b)
						return
					}
				}
				got := fmt.Sprintf("exit %d\n%s", exit, stdout)
				if toFile && exit == 0 {
					x, err := os.ReadFile(out)
					if err != nil {
						c.Fail(fmt.Sprintf("midiasm %v: no output file", args), "midi", b)
						return
					}
					got = fmt.Sprintf("exit %d\n%s", exit, x)
				}
				if i == 0 {
					first = got
				} else if d := diffResult(first, got); d != "" {
					c.Fail(fmt.Sprintf("midiasm %v (in %s, environment %v): %s", args, w.dir, envs[i], d), "midi", b, "first", first, "now", got)
					return
				}
				c.Cover(fmt.Sprintf("env %v %d %d", cmd, i, exit))
			}
		}
	}
	os.RemoveAll(dir)
}

// --- operations leave a decoded file as it was

func readOnlyCases(tier string, seed int64) []Case {
	check := func(c *Ctx, r *rand.Rand, b []byte, n int) bool {
		sut.C4(r.Intn(2) == 0)
		want := map[string]string{}
		for _, op := range readers {
			want[op.name] = onFile(op).run(b)
		}
		smf, err := sut.Decode(b)
		if err != nil {
			c.Fail(fmt.Sprintf("well formed file rejected: %v", err), "midi", b)
			return false
		}
		history := []string{}
		for i := 0; i < n; i++ {
			op := readers[r.Intn(len(readers))]
			c.Eval()
			got := op.run(smf)
			if d := diffResult(want[op.name], got); d != "" {
				c.Fail(fmt.Sprintf("%s after %v: %s", op.name, history, d), "midi", b, "want", want[op.name], "got", got)
				return false
			}
			if len(history) > 0 {
				c.Cover(history[len(history)-1] + ">" + op.name)
			}
			history = append(history, op.name)
		}
		// a transposition of the file is not affected by what was done with it
		steps := r.Intn(40) - 20
		fresh, _ := sut.Decode(b)
		p, e1 := sut.Transpose(fresh, steps)
		q, e2 := sut.Transpose(smf, steps)
		if d := diffResult(result(p, e1), result(q, e2)); d != "" {
			c.Fail(fmt.Sprintf("transpose %d after %v: %s", steps, history, d), "midi", b)
			return false
		}
		return true
	}
	o := gen.Opt{Format: -1, MaxTracks: 6, MaxTextLen: 200}
	list := fileCases("C25", o, tier, seed, 2000, 60000, func(c *Ctx, name string, f *ref.File) {
		b := f.Encode()
		if check(c, rand.New(rand.NewSource(int64(len(b)))), b, 8) {
			observe(c, f)
			sample(c, name, b)
		}
	})
	m := 60
	if tier == "thorough" {
		m = 2000
	}
	for k := 0; k < m; k++ {
		k := k
		list = append(list, Case{fmt.Sprintf("long operation histories %d", k), func(c *Ctx) {
			r := rng(c.Seed, "C25h", k)
			for i := 0; i < 8 && !c.Failed(); i++ {
				f := gen.Random(r, notesOpt)
				check(c, r, f.Encode(), 40)
				observe(c, f)
			}
		}})
	}
	return list
}

// --- concurrency

func concurrencyCases(tier string, seed int64) []Case {
	list := []Case{}
	n, cold := 40, 48
	if tier == "thorough" {
		n, cold = 2500, 4000
	}
	// the operations run in parallel first and alone afterwards, so that what an
	// earlier run may have left behind (caches, lazily built tables) is not there yet
	independent := func(c *Ctx, r *rand.Rand, files [][]byte, repeat int) {
		type job struct {
			file []byte
			op   source
			got  string
		}
		jobs := []*job{}
		for _, b := range files {
			for _, op := range sources {
				for i := 0; i < repeat; i++ {
					jobs = append(jobs, &job{file: b, op: op})
				}
			}
		}
		r.Shuffle(len(jobs), func(i, j int) { jobs[i], jobs[j] = jobs[j], jobs[i] })
		parallel(16, len(jobs), func(i int) { jobs[i].got = jobs[i].op.run(jobs[i].file) })
		for _, j := range jobs {
			c.Eval()
			want := j.op.run(j.file)
			if d := diffResult(want, j.got); d != "" {
				c.Fail(fmt.Sprintf("%s in parallel: %s", j.op.name, d), "input", j.file, "alone", want, "parallel", j.got)
				return
			}
		}
		c.Observe("parallel operations", len(jobs))
		for _, b := range files {
			c.CoverBytes("input", b)
		}
	}
	shared := func(c *Ctx, f *ref.File) {
		b := f.Encode()
		smf, err := sut.Decode(b)
		if err != nil {
			c.Fail(fmt.Sprintf("well formed file rejected: %v", err), "midi", b)
			return
		}
		got := make([]string, 6*len(readers))
		parallel(16, len(got), func(j int) { got[j] = readers[j%len(readers)].run(smf) })
		want := make([]string, len(readers))
		for j, op := range readers {
			want[j] = onFile(op).run(b)
		}
		for j := range got {
			c.Eval()
			if d := diffResult(want[j%len(readers)], got[j]); d != "" {
				c.Fail(fmt.Sprintf("%s in parallel: %s", readers[j%len(readers)].name, d), "midi", b)
				return
			}
		}
		c.Observe("parallel reads", len(got))
		c.CoverBytes("shared", b)
	}
	sharedFile := func(r *rand.Rand, i int) *ref.File {
		o := gen.Opt{Format: -1, MaxTracks: 6, MaxTextLen: 120}
		if i%2 == 0 {
			o = notesOpt
		}
		return gen.Random(r, o)
	}
	for k := 0; k < n; k++ {
		k := k
		list = append(list, Case{fmt.Sprintf("independent operations in parallel %d", k), func(c *Ctx) {
			r := rng(c.Seed, "C13", k)
			sut.C4(k%2 == 0)
			independent(c, r, workload(r, 10), 1)
		}})
		list = append(list, Case{fmt.Sprintf("one decoded file read in parallel %d", k), func(c *Ctx) {
			r := rng(c.Seed, "C13s", k)
			sut.C4(k%2 == 0)
			for i := 0; i < 4 && !c.Failed(); i++ {
				shared(c, sharedFile(r, i))
			}
		}})
	}
	for k := 0; k < cold; k++ {
		k := k
		list = append(list, coldCase(fmt.Sprintf("first use in parallel, fresh process %d", k), func(c *Ctx) {
			r := rng(c.Seed, "C13cold", k)
			sut.C4(k%2 == 0)
			switch k % 3 {
			case 0:
				independent(c, r, workload(r, 8), 1)
			case 1:
				for i := 0; i < 4 && !c.Failed(); i++ {
					shared(c, sharedFile(r, i))
				}
			case 2: // the same few inputs by everybody at once
				independent(c, r, append(workload(r, 1), sharedFile(r, k).Encode()), 8)
			}
		}))
	}
	// the first use of each kind of event by each operation, by everybody at the
	// same moment: tables and expressions built on first use
	steps := 16
	if tier == "thorough" {
		steps = 400
	}
	for k := 0; k < steps; k++ {
		k := k
		list = append(list, coldCase(fmt.Sprintf("first use in step, fresh process %d", k), func(c *Ctx) {
			r := rng(c.Seed, "C13step", k)
			kinds := gen.Kinds()
			type job struct {
				op source
				b  []byte
			}
			jobs := []job{}
			for _, i := range r.Perm(len(kinds)) {
				evs := kinds[i](byte(r.Intn(16)))
				for j := range evs {
					evs[j].Delta = uint32(r.Intn(300))
				}
				f := gen.Wrap1(evs...)
				f.Tracks[0] = f.Tracks[0][:0]
				f.Tracks[0] = append(f.Tracks[0], gen.EOT(0))
				b := f.Encode()
				t := [][]item{}
				for _, x := range f.Tracks {
					y, _ := flatten([][][]item{groups(x, false)})
					t = append(t, y...)
				}
				text, js := []byte(f.Text(false)), []byte(jsonSource(r, f.Format, f.Division, t, false))
				for _, op := range sources {
					switch op.name {
					case "assemble text":
						jobs = append(jobs, job{op, text})
					case "assemble JSON":
						jobs = append(jobs, job{op, js})
					default:
						jobs = append(jobs, job{op, b})
					}
				}
			}
			if k%2 == 0 {
				r.Shuffle(len(jobs), func(i, j int) { jobs[i], jobs[j] = jobs[j], jobs[i] })
			}
			const w = 6
			got := make([][w]string, len(jobs))
			for i, j := range jobs {
				i, j := i, j
				together(w, func(n int) { got[i][n] = j.op.run(j.b) })
			}
			for i, j := range jobs {
				want := j.op.run(j.b)
				for n := range got[i] {
					c.Eval()
					if d := diffResult(want, got[i][n]); d != "" {
						c.Fail(fmt.Sprintf("%s in parallel: %s", j.op.name, d), "input", j.b, "alone", want, "parallel", got[i][n])
						return
					}
				}
			}
			c.Observe("operations in step", w*len(jobs))
		}))
	}
	return list
}

// together runs f on w goroutines that wait for each other before they begin
func together(w int, f func(n int)) {
	var ready atomic.Int32
	var wg sync.WaitGroup
	for n := 0; n < w; n++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ready.Add(1)
			for ready.Load() < int32(w) {
				runtime.Gosched()
			}
			f(n)
		}()
	}
	wg.Wait()
}

// coldCase runs a case in a process of its own, in which nothing of midiasm has
// been used before
func coldCase(name string, run func(c *Ctx)) Case {
	return Case{name, func(c *Ctx) {
		if os.Getenv("VH_COLD") != "" {
			run(c)
			return
		}
		self, _ := os.Executable()
		cmd := exec.Command(self, "-property", c.ID, "-tier", c.Tier, "-seed", fmt.Sprint(c.Seed), "-case", fmt.Sprint(c.index))
		file := filepath.Join(c.Scratch, "cold.json")
		os.Remove(file)
		cmd.Env = append(os.Environ(), "VH_COLD=1", "VH_COLD_OUT="+file, "TMPDIR="+c.Scratch, "GORACE=halt_on_error=1")
		var out bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &out
		err := cmd.Run()
		if err != nil {
			c.Fail(fmt.Sprintf("%v\n%s", err, out.String()))
			return
		}
		res := newResult()
		b, err := os.ReadFile(file)
		if err != nil || json.Unmarshal(b, res) != nil || res.Evaluations == 0 {
			c.Fail("nothing was evaluated by the fresh process\n" + out.String())
			return
		}
		merge(c.res, res)
		c.Observe("fresh processes", 1)
		c.Cover(fmt.Sprintf("fresh process %d", c.index))
	}}
}

// parallel runs n jobs on w goroutines that start together
func parallel(w, n int, f func(i int)) {
	next := make(chan int, n)
	for i := 0; i < n; i++ {
		next <- i
	}
	close(next)
	start := make(chan bool)
	var wg sync.WaitGroup
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for i := range next {
				f(i)
			}
		}()
	}
	close(start)
	wg.Wait()
}

func init() {
	register(&Check{ID: "C12", Level: "exploration", CPULimit: 1800,
		Rule:  "18 operations x 12 good, damaged and hand written inputs, four times each in random order in one process, and 9 commands of the real program in 4 environments, directories, file names, output channels and log levels; processes that process the same files (every three byte manufacturer ID, sweeps, random files) in different orders, in parts or alone; distinct = distinct inputs and (command, environment, exit code)",
		Cases: determinismCases})
	register(&Check{ID: "C25", Level: "exploration",
		Rule:  ruleFiles + "; random histories of 8 to 40 operations on one decoded file, each compared with the operation on a freshly decoded file; distinct = (operation, next operation) and event observations",
		Cases: readOnlyCases})
	register(&Check{ID: "C13", Level: "exploration",
		Rule:  "batches of 140+ operations on 10 inputs on 16 goroutines, and 10 reading operations on one decoded file on 16 goroutines, under the Go race detector, compared with the same operations run alone; distinct = distinct inputs",
		Cases: concurrencyCases})
}
