package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"syscall"
	"time"

	"midiverif/gen"
	"midiverif/ref"
	"midiverif/sut"
)

// measure returns the bytes allocated by f
func measure(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

// budget is the most memory that an operation on n bytes may allocate.
func budget(n int) uint64 { return 48<<20 + 8192*uint64(n) }

var semitones = []int{0, 1, -1, 7, -12, 60, -60, 127, -128, 128, 1000, -1000, 1 << 20, -(1 << 20), math.MaxInt32, math.MinInt32, math.MaxInt64, math.MinInt64}

// exercise runs every operation on the input, which may be anything.
func exercise(c *Ctx, b []byte, k int) (accepted bool) {
	c.Eval()
	var smf *sut.SMF
	var err error
	fatal := func(op string, err error) bool {
		if sut.IsPanic(err) {
			c.Fail(fmt.Sprintf("%s: %v", op, err), "midi", b)
			return true
		}
		return false
	}
	check := func(op string, f func() error) bool {
		t0 := time.Now()
		var err error
		n := measure(func() { err = f() })
		c.Observe(op, 1)
		if fatal(op, err) {
			return false
		}
		if n > budget(len(b)) {
			c.Fail(fmt.Sprintf("%s allocated %d bytes for an input of %d bytes", op, n, len(b)), "midi", b)
			return false
		}
		if dt := time.Since(t0); dt > 30*time.Second+time.Duration(len(b))*time.Microsecond*100 {
			c.Fail(fmt.Sprintf("%s took %v for an input of %d bytes", op, dt, len(b)), "midi", b)
			return false
		}
		return true
	}
	if !check("decode", func() error { smf, err = sut.Decode(b); return err }) {
		return false
	}
	if err != nil {
		c.Observe("rejected", 1)
		c.Cover("rejected: " + shape(err.Error()))
		return false
	}
	c.Observe("accepted", 1)
	steps := semitones[k%len(semitones)]
	ops := []struct {
		name string
		f    func() error
	}{
		{"validate", func() error { _, err := sut.Validate(smf); return err }},
		{"disassemble", func() error { return sut.TextTo(smf, io.Discard) }},
		{"split", func() error { _, err := sut.Split(smf); return err }},
		{"export", func() error { return sut.JSONTo(smf, io.Discard) }},
		{"notes", func() error { return sut.NotesTo(smf, steps, k%2 == 0, io.Discard) }},
		{"click", func() error { return sut.ClickTo(smf, io.Discard) }},
		{"encode", func() error { return sut.EncodeTo(smf, io.Discard) }},
		{"transpose", func() error { _, err := sut.Transpose(smf, steps); return err }},
	}
	if k%8 == 0 {
		ops = append(ops, struct {
			name string
			f    func() error
		}{"tsv", func() error {
			in := filepath.Join(c.Scratch, "in.mid")
			if err := os.WriteFile(in, b, 0600); err != nil {
				panic(err)
			}
			args := []string{"--out", filepath.Join(c.Scratch, "out.tsv"), in}
			if k%16 == 0 {
				args = []string{in}
			}
			_, err := sut.Command(c.Scratch, "tsv", args...)
			return err
		}})
	}
	for _, op := range ops {
		if !check(op.name, op.f) {
			return true
		}
	}
	return true
}

// shape removes the values from an error message
func shape(s string) string {
	out := []rune{}
	for _, r := range s {
		if r >= '0' && r <= '9' {
			if len(out) > 0 && out[len(out)-1] == '#' {
				continue
			}
			r = '#'
		}
		out = append(out, r)
		if len(out) > 80 {
			break
		}
	}
	return string(out)
}

func hostileCases(tier string, seed int64) []Case {
	list := []Case{}
	add := func(name string, run func(c *Ctx)) { list = append(list, Case{name, run}) }
	payloads := func(n int) [][]byte {
		l := [][]byte{}
		for _, v := range []byte{0x00, 0x01, 0x7f, 0x80, 0xff, 0xf7} {
			l = append(l, bytes.Repeat([]byte{v}, n))
		}
		x := make([]byte, n)
		for i := range x {
			x[i] = byte(i*89 + n)
		}
		return append(l, x)
	}

	for t := 0; t < 256; t += 8 {
		t := t
		add(fmt.Sprintf("meta events %02X..%02X, every length 0..12, hostile payloads and lengths", t, t+7), func(c *Ctx) {
			k := 0
			for typ := t; typ < t+8; typ++ {
				for n := 0; n <= 12; n++ {
					for _, p := range payloads(n) {
						for _, l := range [][]byte{ref.VLQ(uint32(n), 0), ref.VLQ(uint32(n), 3), ref.VLQ(uint32(n+1), 0), ref.VLQ(0x0fffffff, 0), {0xff, 0xff, 0xff, 0xff, 0x7f}, {0x80, 0x80, 0x80, 0x80, byte(n)}} {
							e := append([]byte{0x00, 0xff, byte(typ)}, l...)
							e = append(e, p...)
							e = append(e, 0x00, 0xff, 0x2f, 0x00)
							k++
							if exercise(c, gen.Raw(uint16(k%3), 480, e), k); c.Failed() {
								return
							}
						}
					}
				}
			}
			c.Cover(fmt.Sprintf("meta %d", t))
		})
	}
	for s := 0; s < 256; s += 8 {
		s := s
		add(fmt.Sprintf("status bytes %02X..%02X, 0..4 hostile data bytes, in every context", s, s+7), func(c *Ctx) {
			k := 0
			for st := s; st < s+8; st++ {
				for n := 0; n <= 4; n++ {
					for _, p := range payloads(n) {
						for ctx, pre := range [][]byte{{}, {0x00, 0x93, 0x3c, 0x40}, {0x00, 0xf0, 0x02, 0x43, 0x01}, {0x00, 0xff, 0x01, 0x01, 'x'}, {0x00, 0xf0, 0x03, 0x43, 0x01, 0xf7}} {
							for _, delta := range [][]byte{{0x00}, {0xff, 0xff, 0xff, 0x7f}, {0xff, 0xff, 0xff, 0xff, 0x7f}, {0x80}} {
								e := append(append(append(append([]byte{}, pre...), delta...), byte(st)), p...)
								k++
								c.Cover(fmt.Sprintf("status %02X ctx %d n %d", st, ctx, n))
								if exercise(c, gen.Raw(uint16(k%3), 96, e), k); c.Failed() {
									return
								}
								if exercise(c, gen.Raw(uint16(k%3), 96, append(e, 0x00, 0xff, 0x2f, 0x00)), k); c.Failed() {
									return
								}
							}
						}
					}
				}
			}
		})
	}
	add("hostile headers", func(c *Ctx) {
		track := ref.Chunk("MTrk", []byte{0x00, 0x90, 0x3c, 0x40, 0x10, 0x80, 0x3c, 0x40, 0x00, 0xff, 0x51, 0x03, 0x07, 0xa1, 0x20, 0x00, 0xff, 0x2f, 0x00})
		k := 0
		for _, tag := range []string{"MThd", "MTrk", "mthd", "RIFF", "\x00\x00\x00\x00"} {
			for _, length := range []uint32{0, 1, 2, 3, 4, 5, 6, 7, 8, 14, 255, 0x7fffffff, 0xffffffff} {
				for _, format := range []byte{0, 1, 2, 3, 255} {
					for _, tracks := range []byte{0, 1, 2, 255} {
						for nt := 0; nt < 3; nt++ {
							b := []byte(tag)
							b = append(b, byte(length>>24), byte(length>>16), byte(length>>8), byte(length), 0, format, 0, tracks, 0, 96)
							for i := 0; i < nt; i++ {
								b = append(b, track...)
							}
							k++
							if exercise(c, b, k); c.Failed() {
								return
							}
						}
					}
				}
			}
		}
		for d := 0; d < 65536; d += 61 {
			for _, format := range []uint16{0, 1, 2} {
				k++
				b := gen.Raw(format, uint16(d), track[8:], track[8:])
				if exercise(c, b, k); c.Failed() {
					return
				}
			}
		}
		for hi := 0; hi < 256; hi++ {
			for _, lo := range []int{0, 1, 80, 127, 128, 255} {
				k++
				if exercise(c, gen.Raw(1, uint16(hi<<8|lo), track[8:], track[8:]), k); c.Failed() {
					return
				}
			}
		}
		c.Cover("headers")
	})
	dense := gen.Dense().Encode()
	for i := 0; i < len(dense); i += 40 {
		i := i
		add(fmt.Sprintf("dense file, each of bytes %d..%d replaced", i, i+39), func(c *Ctx) {
			k := i
			for j := i; j < i+40 && j < len(dense); j++ {
				for _, v := range []byte{0x00, 0x01, 0x0f, 0x2f, 0x40, 0x7e, 0x7f, 0x80, 0x81, 0xf0, 0xf7, 0xfe, 0xff, dense[j] ^ 0x80, dense[j] + 1, dense[j] - 1, dense[j] ^ 0x10} {
					b := append([]byte{}, dense...)
					b[j] = v
					k++
					if exercise(c, b, k); c.Failed() {
						return
					}
				}
			}
			c.Cover(fmt.Sprintf("dense %d", i))
		})
	}
	n := 300
	if tier == "thorough" {
		n = 6000
	}
	for k := 0; k < n; k++ {
		k := k
		add(fmt.Sprintf("mutated files %d", k), func(c *Ctx) {
			r := rng(c.Seed, "C05", k)
			for i := 0; i < 60 && !c.Failed(); i++ {
				f := gen.Random(r, gen.Opt{Format: -1, MaxEvents: 20, MaxTextLen: 300})
				var b []byte
				switch r.Intn(4) {
				case 0:
					b = gen.Mutate(r, f.Encode())
				case 1, 2:
					b = gen.Refit(f, r)
				case 3:
					x := make([]byte, r.Intn(100))
					for j := range x {
						x[j] = byte(r.Intn(256))
						if r.Intn(2) == 0 {
							x[j] = []byte{0, 0, 0xff, 0x90, 0x3c, 0xf0, 0xf7, 0x51, 0x58, 0x59, 0x7f, 3, 2, 1, 0x80}[r.Intn(15)]
						}
					}
					b = gen.Raw(f.Format, f.Division, x)
				}
				if exercise(c, b, i+k) {
					c.CoverBytes("accepted", b)
				}
				if i == 0 {
					sample(c, "mutated", b)
				}
			}
		})
	}
	// big inputs
	big := func(name string, mk func(n int) []byte) {
		add("large: "+name, func(c *Ctx) {
			n := 1 << 18
			if tier == "thorough" {
				n = 1 << 20
			}
			b := mk(n)
			exercise(c, b, 0)
			exercise(c, b, 1)
			c.Cover("large " + name)
		})
	}
	body := func(n int, unit ...byte) []byte { return bytes.Repeat(unit, n/len(unit)) }
	eot := []byte{0, 0xff, 0x2f, 0}
	big("note on/off", func(n int) []byte {
		return gen.Raw(1, 96, eot, append(body(n, 1, 0x90, 60, 64, 1, 0x80, 60, 64), eot...))
	})
	big("running status notes without note off", func(n int) []byte {
		return gen.Raw(0, 96, append(append([]byte{0, 0x90, 1, 1}, body(n, 1, 60, 64, 1, 61, 64)...), eot...))
	})
	big("tempo changes", func(n int) []byte {
		return gen.Raw(1, 96, append(body(n, 1, 0xff, 0x51, 3, 1, 2, 3), eot...), append(body(n/64, 9, 0x90, 60, 64, 9, 0x80, 60, 64), eot...))
	})
	big("one SysEx message", func(n int) []byte {
		return gen.Raw(0, 96, append(append([]byte{0, 0xf0}, append(ref.VLQ(uint32(n), 0), append(append([]byte{0x43}, make([]byte, n-2)...), 0xf7)...)...), eot...))
	})
	big("one text event", func(n int) []byte {
		return gen.Raw(0, 96, append(append([]byte{0, 0xff, 1}, append(ref.VLQ(uint32(n), 0), bytes.Repeat([]byte("x"), n)...)...), eot...))
	})
	big("one sequencer specific event", func(n int) []byte {
		return gen.Raw(0, 96, append(append([]byte{0, 0xff, 0x7f}, append(ref.VLQ(uint32(n), 0), bytes.Repeat([]byte{0x43}, n)...)...), eot...))
	})
	big("many tracks", func(n int) []byte {
		l := [][]byte{}
		for i := 0; i < n/16 && i < 65535; i++ {
			l = append(l, eot)
		}
		return gen.Raw(1, 96, l...)
	})
	big("alien chunk", func(n int) []byte {
		return append(gen.Raw(0, 96, eot), ref.Chunk("JUNK", make([]byte, n))...)
	})
	big("key signatures", func(n int) []byte {
		return gen.Raw(0, 96, append(body(n, 0, 0xff, 0x59, 2, 3, 0, 0, 0x90, 60, 1), eot...))
	})

	// time in proportion
	list = append(list, Case{"very many notes", func(c *Ctx) {
		b := gen.Raw(1, 96, eot, append(body(1<<21, 1, 0x90, 60, 64, 1, 0x80, 60, 64), eot...))
		var smf *sut.SMF
		var err error
		for _, op := range []struct {
			name string
			f    func() error
		}{
			{"decode", func() error { smf, err = sut.Decode(b); return err }},
			{"validate", func() error { _, err := sut.Validate(smf); return err }},
			{"notes", func() error { return sut.NotesTo(smf, 1, true, io.Discard) }},
			{"encode", func() error { return sut.EncodeTo(smf, io.Discard) }},
			{"transpose", func() error { _, err := sut.Transpose(smf, 1); return err }},
		} {
			c.Eval()
			t0 := cpuSeconds(os.Getpid())
			var err error
			n := measure(func() { err = op.f() })
			dt := cpuSeconds(os.Getpid()) - t0
			if err != nil || n > budget(len(b)) || dt > 45 {
				c.Fail(fmt.Sprintf("%s of %d notes: %v, %d bytes allocated, %.1f s", op.name, len(b)/8, err, n, dt))
				return
			}
			c.Observe(op.name, 1)
		}
		c.Cover("very many notes")
	}})

	// the real program
	for k, cmd := range []string{"disassemble", "export", "notes", "click", "tsv", "transpose", "assemble"} {
		k, cmd := k, cmd
		add("midiasm "+cmd+" on hostile files", func(c *Ctx) {
			r := rng(c.Seed, "C05-cli", k)
			for i := 0; i < 25 && !c.Failed(); i++ {
				f := gen.Random(r, gen.Opt{Format: -1, MaxEvents: 20, MaxTextLen: 300})
				b := gen.Refit(f, r)
				switch i % 5 {
				case 0:
					b = gen.Mutate(r, f.Encode())
				case 1:
					b = f.Encode()
					b = b[:r.Intn(len(b))]
				case 2:
					b = f.Encode()
				}
				cliRobust(c, cmd, b)
			}
		})
	}
	return list
}

// run executes the midiasm program
func run(dir string, args ...string) (stdout, stderr []byte, exit int) {
	cmd := exec.Command(os.Getenv("MIDIASM"), args...)
	cmd.Dir = dir
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	timer := time.AfterFunc(100*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	timer.Stop()
	var x *exec.ExitError
	if errors.As(err, &x) {
		exit = x.ExitCode()
	} else if err != nil {
		panic(err)
	}
	return o.Bytes(), e.Bytes(), exit
}

func crashed(stderr []byte, exit int) bool {
	return exit < 0 || exit > 1 || bytes.Contains(stderr, []byte("panic:")) || bytes.Contains(stderr, []byte("fatal error:")) || bytes.Contains(stderr, []byte("goroutine "))
}

func cliRobust(c *Ctx, cmd string, b []byte) {
	c.Eval()
	in := filepath.Join(c.Scratch, "in.mid")
	if err := os.WriteFile(in, b, 0600); err != nil {
		panic(err)
	}
	args := []string{cmd, "in.mid"}
	switch cmd {
	case "transpose":
		args = []string{cmd, "--semitones", "5", "--out", "out.mid", "in.mid"}
	}
	_, stderr, exit := run(c.Scratch, args...)
	c.Observe(fmt.Sprintf("exit %d", exit), 1)
	if crashed(stderr, exit) {
		c.Fail(fmt.Sprintf("midiasm %s: exit code %d\n%s", cmd, exit, clip(string(stderr))), "midi", b)
	}
	c.Cover(fmt.Sprintf("cli %s %d", cmd, exit))
}

// --- truncation and read faults

type faultReader struct {
	b     []byte
	at    int // fails after this many bytes
	err   error
	chunk func() int
	pos   int
	reads int
	with  bool // returns the error together with the last bytes
	idle  bool // sometimes returns nothing, and no error
	idled bool
}

func (f *faultReader) Read(p []byte) (int, error) {
	f.reads++
	if len(p) == 0 {
		return 0, nil
	}
	end := len(f.b)
	err := io.EOF
	if f.at >= 0 && f.at < end {
		end, err = f.at, f.err
	}
	if f.pos >= end {
		return 0, err
	}
	if f.idle && !f.idled {
		f.idled = true
		return 0, nil
	}
	f.idled = false
	n := len(p)
	if f.chunk != nil {
		if k := f.chunk(); k < n {
			n = k
		}
	}
	if n > end-f.pos {
		n = end - f.pos
	}
	copy(p, f.b[f.pos:f.pos+n])
	f.pos += n
	if f.with && f.pos == end {
		return n, err
	}
	return n, nil
}

var errFault = errors.New("injected fault")

// the ways in which a read can fail
func faults() []error {
	return []error{errFault, io.ErrClosedPipe, os.ErrClosed, fmt.Errorf("injected: %w", io.ErrClosedPipe), &os.PathError{Op: "read", Path: "x.mid", Err: syscall.EIO}, syscall.ECONNRESET, syscall.EINTR, syscall.EAGAIN, os.ErrDeadlineExceeded, context.Canceled, context.DeadlineExceeded, io.ErrNoProgress, io.ErrShortBuffer, io.ErrShortWrite, os.ErrInvalid, os.ErrPermission, errors.New("EOF"), errors.New("")}
}

func smallFiles(r *rand.Rand, o gen.Opt, n int) []*ref.File {
	l := []*ref.File{gen.Dense()}
	for i := 0; i < n; i++ {
		l = append(l, gen.Random(r, o))
	}
	return l
}

// strict compares what midiasm makes of b with the reference decoder: it may
// only accept b if it is complete, and must then list what is in it.
func strict(c *Ctx, what string, b []byte) bool {
	c.Eval()
	smf, err := sut.Decode(b)
	if sut.IsPanic(err) {
		c.Fail(fmt.Sprintf("%s: %v", what, err), "midi", b)
		return false
	}
	g, gerr := ref.Decode(b)
	if err != nil {
		c.Observe("rejected", 1)
		c.Cover("rejected: " + shape(err.Error()))
		return true
	}
	c.Observe("accepted", 1)
	if gerr != nil {
		c.Fail(fmt.Sprintf("%s: accepted (%v)", what, gerr), "midi", b)
		return false
	}
	tracks, err := sut.List(smf)
	if err != nil || len(tracks) != len(g.Tracks) {
		c.Fail(fmt.Sprintf("%s: want %d tracks, got %d (%v)", what, len(g.Tracks), len(tracks), err), "midi", b)
		return false
	}
	for i := range tracks {
		if len(tracks[i]) != len(g.Tracks[i]) {
			c.Fail(fmt.Sprintf("%s: track %d: want %d events, got %d", what, i, len(g.Tracks[i]), len(tracks[i])), "midi", b)
			return false
		}
		for j, e := range tracks[i] {
			if string(e.Bytes) != string(g.Tracks[i][j].Raw) {
				c.Fail(fmt.Sprintf("%s: track %d event %d: want %s, got %s", what, i, j, ref.Hex(g.Tracks[i][j].Raw), ref.Hex(e.Bytes)), "midi", b)
				return false
			}
		}
	}
	return true
}

func truncationCases(tier string, seed int64) []Case {
	list := []Case{}
	n := 1200
	if tier == "thorough" {
		n = 3000
	}
	opt := gen.Opt{Format: -1, MaxEvents: 25, MaxTracks: 5, MaxTextLen: 200, NonEmpty: true}
	pick := func(c *Ctx, k int) *ref.File {
		if k == 0 {
			return gen.Dense()
		}
		return gen.Random(rng(c.Seed, "C07", k), opt)
	}
	for k := 0; k < n; k++ {
		k := k
		list = append(list, Case{fmt.Sprintf("file %d: every prefix, every read fault, every chunk length", k), func(c *Ctx) {
			f := pick(c, k)
			b := f.Encode()
			r := rng(c.Seed, "C07x", k)
			sample(c, "file", b)
			if !strict(c, "whole file", b) {
				return
			}
			if _, err := sut.Decode(b); err != nil {
				c.Fail(fmt.Sprintf("well formed file rejected: %v", err), "midi", b)
				return
			}
			whole, err := sut.Decode(b)
			if err != nil {
				return
			}
			text, _ := sut.Text(whole)

			// end of the last track: anything shorter is incomplete
			last := len(b)
			for i := len(f.Aliens) - 1; i >= 0; i-- {
				if f.Aliens[i].Before >= len(f.Tracks) {
					last -= 8 + len(f.Aliens[i].Data)
				}
			}
			for cut := 0; cut < len(b); cut++ {
				if !strict(c, fmt.Sprintf("truncated to %d of %d bytes", cut, len(b)), b[:cut]) {
					return
				}
				if cut < last {
					if _, err := sut.Decode(b[:cut]); err == nil {
						c.Fail(fmt.Sprintf("file truncated to %d of %d bytes accepted as complete", cut, len(b)), "midi", b[:cut])
						return
					}
				}
				c.Cover(fmt.Sprintf("cut %d/%d", k, cut))
			}
			// a read error is an error wherever it happens
			for at := 0; at < len(b); at++ {
				for v := 0; v < 2; v++ {
					kinds := faults()
					fault := kinds[0]
					if v == 1 {
						fault = kinds[(at+k)%len(kinds)]
						if at < last && r.Intn(12) == 0 {
							fault = io.ErrUnexpectedEOF
						}
					}
					fr := &faultReader{b: b, at: at, err: fault, with: v == 1 && at > 0 && r.Intn(2) == 0, idle: v == 1 && at%3 == 0}
					if v == 1 {
						fr.chunk = func() int { return 1 + r.Intn(5) }
					}
					c.Eval()
					_, err := sut.DecodeFrom(fr)
					if sut.IsPanic(err) {
						c.Fail(fmt.Sprintf("read fault at byte %d: %v", at, err), "midi", b)
						return
					}
					if err == nil {
						c.Fail(fmt.Sprintf("read fault (%v) after %d of %d bytes ignored: decoded without an error", fault, at, len(b)), "midi", b)
						return
					}
					c.Observe("read faults", 1)
					c.Cover(fmt.Sprintf("fault %q", fault))
				}
			}
			// short reads never matter
			for v, ch := range []func() int{func() int { return 1 }, func() int { return 2 }, func() int { return 3 }, func() int { return 1 + r.Intn(7) }, func() int { return 1 + r.Intn(100) }} {
				for with := 0; with < 3; with++ {
					c.Eval()
					smf, err := sut.DecodeFrom(&faultReader{b: b, at: -1, chunk: ch, with: with == 1, idle: with == 2})
					if err != nil {
						c.Fail(fmt.Sprintf("short reads (%d): %v", v, err), "midi", b)
						return
					}
					if t, err := sut.Text(smf); err != nil || t != text {
						c.Fail(fmt.Sprintf("short reads (%d) changed the decoded file: %s", v, diffLines(text, t)), "midi", b)
						return
					}
					c.Observe("short reads", 1)
				}
			}
			// wrong chunk lengths: too long / too short
			at := 14
			for at+8 <= len(b) {
				l := int(b[at+4])<<24 | int(b[at+5])<<16 | int(b[at+6])<<8 | int(b[at+7])
				for _, d := range []int{-l, -5, -4, -3, -2, -1, 1, 2, 3, 4, 8, 100, 1 << 16, 1 << 24, 1 << 31} {
					v := l + d
					if v < 0 {
						continue
					}
					x := append([]byte{}, b...)
					x[at+4], x[at+5], x[at+6], x[at+7] = byte(v>>24), byte(v>>16), byte(v>>8), byte(v)
					if !strict(c, fmt.Sprintf("chunk length at %d changed from %d to %d", at, l, v), x) {
						return
					}
					c.Observe("chunk lengths", 1)
				}
				at += 8 + l
			}
			// number of tracks
			for _, d := range []int{-1, 1, 2, 100} {
				if v := len(f.Tracks) + d; v >= 0 {
					x := append([]byte{}, b...)
					x[10], x[11] = byte(v>>8), byte(v)
					if _, err := sut.Decode(x); err == nil {
						c.Fail(fmt.Sprintf("file with %d tracks and %d tracks in the header accepted", len(f.Tracks), v), "midi", x)
						return
					}
					c.Eval()
				}
			}
			// tracks cut short with a consistent chunk length
			for i, t := range f.Tracks {
				body := ref.EncodeTrack(t)
				for cut := 0; cut < len(body); cut++ {
					bodies := [][]byte{}
					for j := range f.Tracks {
						bodies = append(bodies, ref.EncodeTrack(f.Tracks[j]))
					}
					bodies[i] = body[:cut]
					if !strict(c, fmt.Sprintf("track %d cut to %d of %d bytes", i, cut, len(body)), gen.Raw(f.Format, f.Division, bodies...)) {
						return
					}
				}
			}
		}})
	}
	// sources that cannot be read
	for k := 0; k < n/8; k++ {
		k := k
		list = append(list, Case{fmt.Sprintf("source %d: read faults while assembling", k), func(c *Ctx) {
			f := gen.Random(rng(c.Seed, "C07s", k), gen.Opt{Format: -1, MaxEvents: 12, MaxTracks: 3, MaxTextLen: 60, NonEmpty: true, TextSafe: true, UTF8: true, KnownManuf: true, SysExClosed: true})
			b := f.Encode()
			smf, err := sut.Decode(b)
			if err != nil {
				c.Fail(err.Error(), "midi", b)
				return
			}
			text, _ := sut.Text(smf)
			js, _ := sut.JSON(smf)
			r := rng(c.Seed, "C07t", k)
			for at := 0; at < len(text); at += 1 + r.Intn(7) {
				c.Eval()
				if _, err := sut.AssembleTextFrom(&faultReader{b: []byte(text), at: at, err: faults()[(k+at)%len(faults())], idle: at%2 == 0}); err == nil || sut.IsPanic(err) {
					c.Fail(fmt.Sprintf("read fault after %d of %d bytes of the text source: %v", at, len(text), err), "text", text)
					return
				}
				c.Observe("source read faults", 1)
			}
			end := bytes.LastIndexByte(js, '}')
			for at := 0; at < end; at += 1 + r.Intn(15) {
				c.Eval()
				if _, err := sut.AssembleJSONFrom(&faultReader{b: js, at: at, err: faults()[(k+at)%len(faults())], idle: at%2 == 0}); err == nil || sut.IsPanic(err) {
					c.Fail(fmt.Sprintf("read fault after %d of %d bytes of the JSON source: %v", at, len(js), err), "json", js)
					return
				}
				if _, err := sut.AssembleJSON(js[:at]); err == nil || sut.IsPanic(err) {
					c.Fail(fmt.Sprintf("JSON source truncated to %d of %d bytes: %v", at, len(js), err), "json", js[:at])
					return
				}
				c.Observe("source read faults", 1)
			}
			c.Cover(fmt.Sprintf("source %d", k))
		}})
	}
	return list
}

// --- write faults

type faultWriter struct {
	n     int // fails after this many bytes
	short bool
	wrote int
	fails int
}

func (w *faultWriter) Write(p []byte) (int, error) {
	if w.wrote+len(p) > w.n {
		k := 0
		if w.short {
			k = w.n - w.wrote
			if k < 0 {
				k = 0
			}
		}
		w.wrote += k
		w.fails++
		return k, errFault
	}
	w.wrote += len(p)
	return len(p), nil
}

func writeFaultCases(tier string, seed int64) []Case {
	list := []Case{}
	n := 120
	if tier == "thorough" {
		n = 1500
	}
	for k := 0; k < n; k++ {
		k := k
		list = append(list, Case{fmt.Sprintf("file %d: every write fault", k), func(c *Ctx) {
			r := rng(c.Seed, "C21", k)
			f := gen.Dense()
			if k > 0 {
				f = gen.Random(r, gen.Opt{Format: -1, MaxEvents: 12, MaxTracks: 4, MaxTextLen: 60, Division: true, NotesHeavy: k%2 == 0})
			}
			b := f.Encode()
			sample(c, "file", b)
			smf, err := sut.Decode(b)
			if err != nil {
				c.Fail(fmt.Sprintf("well formed file rejected: %v", err), "midi", b)
				return
			}
			for name, op := range map[string]func(w io.Writer) error{
				"disassemble": func(w io.Writer) error { return sut.TextTo(smf, w) },
				"export":      func(w io.Writer) error { return sut.JSONTo(smf, w) },
				"notes":       func(w io.Writer) error { return sut.NotesTo(smf, 0, false, w) },
				"notes json":  func(w io.Writer) error { return sut.NotesTo(smf, 0, true, w) },
				"encode":      func(w io.Writer) error { return sut.EncodeTo(smf, w) },
			} {
				var whole bytes.Buffer
				if err := op(&whole); err != nil {
					c.Fail(fmt.Sprintf("%s failed: %v", name, err), "midi", b)
					return
				}
				for at := 0; at < whole.Len(); at++ {
					if at > 600 && at < whole.Len()-600 && at%7 != k%7 {
						continue
					}
					w := &faultWriter{n: at, short: at%2 == 0}
					err := op(w)
					c.Eval()
					c.Observe("write faults ("+name+")", 1)
					if w.fails == 0 {
						c.Fail(fmt.Sprintf("%s wrote %d bytes, then only %d", name, whole.Len(), w.wrote), "midi", b)
						return
					}
					if err == nil {
						c.Fail(fmt.Sprintf("%s: the write fault after %d of %d bytes was not reported", name, at, whole.Len()), "midi", b)
						return
					}
					if sut.IsPanic(err) {
						c.Fail(fmt.Sprintf("%s: write fault after %d of %d bytes: %v", name, at, whole.Len(), err), "midi", b)
						return
					}
				}
				c.Cover(fmt.Sprintf("%d %s %d", k, name, whole.Len()))
			}
		}})
	}
	// the real program, with a full device
	for i, cmd := range [][]string{
		{"--out", "/dev/full"}, {"disassemble", "--out", "/dev/full"}, {"export", "--out", "/dev/full"}, {"notes", "--out", "/dev/full"}, {"notes", "--json", "--out", "/dev/full"},
		{"tsv", "--out", "/dev/full"}, {"tsv", "--tabular", "--out", "/dev/full"}, {"tsv", "--delimiter", ",", "--out", "/dev/full"}, {"transpose", "--semitones", "1", "--out", "/dev/full"},
		{"assemble", "--out", "/dev/full", "@txt"}, {"assemble", "--out", "/dev/full", "@json"},
		{"disassemble", ">"}, {"export", ">"}, {"notes", ">"}, {"notes", "--json", ">"}, {"tsv", ">"},
		{"disassemble", "--out", "nosuchdir/x"}, {"export", "--out", "nosuchdir/x"}, {"notes", "--out", "nosuchdir/x"}, {"tsv", "--out", "nosuchdir/x"}, {"transpose", "--out", "nosuchdir/x"}, {"assemble", "--out", "nosuchdir/x", "@txt"}, {"click", "--out", "nosuchdir/x"},
		{"disassemble", "--split", "--out", "in.mid"}, {"disassemble", "--split", "--out", "/dev/null/x"},
	} {
		i, cmd := i, cmd
		list = append(list, Case{fmt.Sprintf("midiasm %v", cmd), func(c *Ctx) {
			r := rng(c.Seed, "C21cli", i)
			reps := 3
			if tier == "thorough" {
				reps = 20
			}
			for k := 0; k < reps+2; k++ {
				f := gen.Random(r, gen.Opt{Format: -1, MaxEvents: []int{6, 60, 2000}[k%3], MaxTracks: 4, MaxTextLen: 60, Division: true, NonEmpty: true, EOT: true, TextSafe: true, UTF8: true, KnownManuf: true, SysExClosed: true})
				f.Tracks = append(f.Tracks, []ref.Ev{{Status: 0x90, Data: []byte{60, 64}}, {Delta: 480, Status: 0x80, Data: []byte{60, 64}}, gen.EOT(0)})
				if k >= reps { // the smallest outputs
					if cmd[0] == "notes" && cmd[1] != "--json" || cmd[0] == "click" || cmd[0] == "assemble" && k > reps {
						continue
					}
					f.Format, f.Tracks = 1, [][][]ref.Ev{{{gen.EOT(0)}}, {{}}}[k-reps]
				}
				b := f.Encode()
				os.WriteFile(filepath.Join(c.Scratch, "in.mid"), b, 0600)
				smf, err := sut.Decode(b)
				if err != nil {
					c.Fail(fmt.Sprintf("well formed file rejected: %v", err), "midi", b)
					return
				}
				text, _ := sut.Text(smf)
				js, _ := sut.JSON(smf)
				os.WriteFile(filepath.Join(c.Scratch, "in.txt"), []byte(text), 0600)
				os.WriteFile(filepath.Join(c.Scratch, "in.json"), js, 0600)
				args := []string{}
				full := false
				in := "in.mid"
				for _, a := range cmd {
					switch a {
					case "@txt":
						in = "in.txt"
					case "@json":
						in = "in.json"
					case ">":
						full = true
					default:
						args = append(args, a)
					}
				}
				args = append(args, in)
				p := exec.Command(os.Getenv("MIDIASM"), args...)
				p.Dir = c.Scratch
				var e bytes.Buffer
				p.Stderr = &e
				var o bytes.Buffer
				if full {
					dev, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
					if err != nil {
						panic(err)
					}
					p.Stdout = dev
					defer dev.Close()
				} else {
					p.Stdout = &o
				}
				p.Run()
				exit := p.ProcessState.ExitCode()
				c.Eval()
				c.Observe("failed writes (program)", 1)
				if crashed(e.Bytes(), exit) || exit == 0 {
					c.Fail(fmt.Sprintf("midiasm %s: output could not be written but the exit code is %d\n%s", strings.Join(args, " "), exit, clip(e.String())), "midi", b)
					return
				}
			}
			c.Cover("cli " + strings.Join(cmd, " "))
		}})
	}
	return list
}

func init() {
	register(&Check{ID: "C05", Level: "exploration",
		Rule:  "every META type and status byte with hostile payloads, lengths and contexts, hostile headers, every byte of a dense file replaced, mutated random files, large files, each decoded and run through every operation with panic, CPU time, allocation and process crash monitors; distinct = accepted inputs, rejection reasons and systematic blocks",
		Cases: hostileCases})
	register(&Check{ID: "C07", Level: "fault_enumeration",
		Rule:  "for each file: every proper prefix, a read error at every offset, five short-read patterns, wrong chunk lengths and track counts, every prefix of every track; text and JSON sources with read errors; distinct = (file, cut) points and rejection reasons",
		Cases: truncationCases})
	register(&Check{ID: "C21", Level: "fault_enumeration",
		Rule:  "for each file and output operation: a write fault at every output offset (short and whole writes), and the real program writing to full or missing destinations; distinct = (file, operation, output size) and command lines",
		Cases: writeFaultCases})
}
