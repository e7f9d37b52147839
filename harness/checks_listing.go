package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strings"

	"midiverif/gen"
	"midiverif/ref"
	"midiverif/sut"
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func write(c *Ctx, name string, b []byte) string {
	p := filepath.Join(c.Scratch, name)
	must(os.WriteFile(p, b, 0600))
	return p
}

// --- TSV

// parseDSV parses delimiter separated values (RFC 4180 quoting, any delimiter, \n line ends)
func parseDSV(b []byte, comma rune) ([][]string, error) {
	rows := [][]string{}
	row := []string{}
	s := []byte(string(b))
	sep := []byte(string(comma))
	i := 0
	at := func() bool { return i+len(sep) <= len(s) && string(s[i:i+len(sep)]) == string(sep) }
	for i < len(s) {
		field := []byte{}
		if s[i] == '"' {
			i++
			for {
				if i >= len(s) {
					return nil, fmt.Errorf("unterminated quote")
				}
				if s[i] == '"' {
					if i+1 < len(s) && s[i+1] == '"' {
						field = append(field, '"')
						i += 2
						continue
					}
					i++
					break
				}
				field = append(field, s[i])
				i++
			}
			if i < len(s) && s[i] != '\n' && !at() {
				return nil, fmt.Errorf("text after a closing quote at offset %d", i)
			}
		} else {
			for i < len(s) && s[i] != '\n' && !at() {
				field = append(field, s[i])
				i++
			}
		}
		row = append(row, string(field))
		if i >= len(s) {
			return nil, fmt.Errorf("last line is incomplete")
		}
		if s[i] == '\n' {
			rows = append(rows, row)
			row = []string{}
			i++
		} else {
			i += len(sep)
			if i >= len(s) {
				return nil, fmt.Errorf("last line is incomplete")
			}
			if s[i] == '\n' {
				row = append(row, "")
				rows = append(rows, row)
				row = []string{}
				i++
			}
		}
	}
	return rows, nil
}

func diffRows(want, got [][]string) string {
	for i := 0; i < len(want) && i < len(got); i++ {
		if len(want[i]) == 0 && len(got[i]) == 1 && got[i][0] == "" {
			continue // a record without columns is an empty line
		}
		for j := 0; j < len(want[i]) && j < len(got[i]); j++ {
			if want[i][j] != got[i][j] {
				return fmt.Sprintf("row %d column %d: want %q, got %q", i, j, clip(want[i][j]), clip(got[i][j]))
			}
		}
		if len(want[i]) != len(got[i]) {
			return fmt.Sprintf("row %d: want %d columns, got %d", i, len(want[i]), len(got[i]))
		}
	}
	if len(want) != len(got) {
		return fmt.Sprintf("want %d rows, got %d", len(want), len(got))
	}
	return ""
}

func diffTable(want [][]string, got string) string {
	lines := strings.Split(strings.TrimSuffix(got, "\n"), "\n")
	for i := 0; i < len(want) && i < len(lines); i++ {
		w := ref.Squash(strings.Join(want[i], " "))
		if g := ref.Squash(lines[i]); g != w {
			return fmt.Sprintf("row %d: want %q, got %q", i, clip(w), clip(g))
		}
	}
	if len(want) != len(lines) {
		return fmt.Sprintf("want %d rows, got %d", len(want), len(lines))
	}
	// fixed width: every cell is below its heading
	starts, at, in := []int{}, 0, false
	for _, r := range lines[0] {
		if r != ' ' && !in {
			starts = append(starts, at)
		}
		in = r != ' '
		at++
	}
	if len(starts) != len(want[0]) {
		return fmt.Sprintf("want %d headings, got %d", len(want[0]), len(starts))
	}
	for i := range want {
		line := []rune(lines[i])
		for j, w := range want[i] {
			from, to := starts[j], len(line)
			if j+1 < len(starts) {
				to = starts[j+1]
			}
			g := string(line[min(from, len(line)):min(to, len(line))])
			if ref.Squash(g) != ref.Squash(w) {
				return fmt.Sprintf("row %d: want %q in column %d, got %q", i, clip(w), j, clip(g))
			}
		}
	}
	return ""
}

// tabular: the text of the cells fits on a line
func tabular(f *ref.File) bool {
	for _, t := range f.Tracks {
		for _, e := range t {
			if e.Status == 0xff && ref.IsText(e.Type) {
				for _, r := range string(e.Data) {
					if r < 32 || r == 0xfffd || r == 0x85 || r == 0x2028 || r == 0x2029 {
						return false
					}
				}
			}
		}
	}
	return true
}

func checkTSV(c *Ctx, f *ref.File, b []byte, k int, exec func(args ...string) ([]byte, error), c4 bool) bool {
	write(c, "in.mid", b)
	in := filepath.Join(c.Scratch, "in.mid")
	out := filepath.Join(c.Scratch, "out.tsv")
	table := f.TSV(c4)
	full := append([][]string{ref.TSVHeader}, table...)
	fail := func(what, d string, got []byte) bool {
		c.Fail(fmt.Sprintf("tsv %s: %s", what, d), "midi", b, "tsv", got)
		return false
	}
	delims := []string{"", "\t", ",", ";", "|", ":", `\t`, "♯", "x", "; ", " "}
	for _, d := range []string{"", delims[k%len(delims)]} {
		os.Remove(out)
		args := []string{"--out", out}
		comma := '\t'
		if d != "" {
			args = append(args, "--delimiter", d)
			if d != `\t` {
				comma = []rune(d)[0]
			}
		}
		c.Eval()
		stdout, err := exec(append(args, in)...)
		if err != nil {
			return fail(fmt.Sprintf("delimiter %q", d), err.Error(), stdout)
		}
		got, _ := os.ReadFile(out)
		rows, err := parseDSV(got, comma)
		if err != nil {
			return fail(fmt.Sprintf("delimiter %q", d), err.Error(), got)
		}
		if x := diffRows(full, rows); x != "" {
			return fail(fmt.Sprintf("delimiter %q", d), x, got)
		}
	}
	if tabular(f) {
		c.Eval()
		stdout, err := exec(in)
		if err != nil {
			return fail("stdout", err.Error(), stdout)
		}
		if x := diffTable(table, string(stdout)); x != "" {
			return fail("stdout", x, stdout)
		}
		os.Remove(out)
		c.Eval()
		if stdout, err := exec("--tabular", "--out", out, in); err != nil {
			return fail("tabular", err.Error(), stdout)
		}
		got, _ := os.ReadFile(out)
		if x := diffTable(table, string(got)); x != "" {
			return fail("tabular", x, got)
		}
	}
	return true
}

// program runs a command of the real program as checkTSV expects
func program(c *Ctx, cmd string, extra ...string) func(args ...string) ([]byte, error) {
	return func(args ...string) ([]byte, error) {
		o, e, exit := run(c.Scratch, append(append([]string{cmd}, extra...), args...)...)
		if exit != 0 {
			return o, fmt.Errorf("exit code %d: %s%s", exit, clip(string(o)), clip(string(e)))
		}
		return o, nil
	}
}

func bulk(n int) []ref.Ev {
	l := []ref.Ev{}
	for i := 0; i < n; i++ {
		l = append(l, ref.Ev{Delta: uint32(i % 5), Status: 0xb0 + byte(i%16), Data: []byte{byte(i % 120), byte(i % 127)}})
	}
	return l
}

func tsvCases(tier string, seed int64) []Case {
	k := 0
	list := fileCases("C16", gen.Opt{Format: -1, MaxTracks: 10, MaxTextLen: 700}, tier, seed, 4000, 80000, func(c *Ctx, name string, f *ref.File) {
		b := f.Encode()
		k++
		c4 := k%2 == 0
		sut.C4(c4)
		if checkTSV(c, f, b, k, func(args ...string) ([]byte, error) { return sut.Command(c.Scratch, "tsv", args...) }, c4) {
			observe(c, f)
			sample(c, name, b)
		}
	})
	long := func(n int) ref.Ev {
		return ref.Ev{Status: 0xff, Type: 1, Data: bytes.Repeat([]byte("long "), n/5)}
	}
	big := map[string]*ref.File{
		"70000 rows":   {Format: 1, Division: 96, Tracks: [][]ref.Ev{{gen.EOT(0)}, append(bulk(70000), gen.EOT(0))}},
		"300 tracks":   {Format: 1, Division: 96},
		"wide cells":   {Format: 1, Division: 96, Tracks: [][]ref.Ev{{long(990), long(1005), gen.EOT(0)}, {on(0, 0, 60, 64), long(5000), off(0, 0, 60, 64), gen.EOT(0)}, {gen.EOT(0)}}},
		"widest cells": {Format: 1, Division: 96, Tracks: [][]ref.Ev{{long(10), long(70000), gen.EOT(0)}, {on(0, 0, 60, 64), long(5000), off(0, 0, 60, 64), gen.EOT(0)}}},
		"huge cells":   {Format: 1, Division: 96, Tracks: [][]ref.Ev{{long(10), long(999990), gen.EOT(0)}, {on(0, 0, 60, 64), long(1200000), off(0, 0, 60, 64), gen.EOT(0)}}},
	}
	big["largest cells"] = &ref.File{Format: 1, Division: 96, Tracks: [][]ref.Ev{{long(10), long(10000100), gen.EOT(0)}, {on(0, 0, 60, 64), {Status: 0xf0, Data: append(append([]byte{0x43}, bytes.Repeat([]byte{0x12}, 3400000)...), 0xf7)}, off(0, 0, 60, 64), gen.EOT(0)}}}
	for _, name := range []string{"70000 rows", "300 tracks", "wide cells", "widest cells", "huge cells", "largest cells"} {
		name, f := name, big[name]
		for i := len(f.Tracks); i < 300 && name == "300 tracks"; i++ {
			f.Tracks = append(f.Tracks, []ref.Ev{on(0, byte(i%16), byte(i%128), 64), gen.EOT(uint32(i))})
		}
		for c4 := 0; c4 < 2; c4++ {
			c4 := c4 == 1
			list = append(list, Case{fmt.Sprintf("%s, C4:%v", name, c4), func(c *Ctx) {
				b := f.Encode()
				for k := 0; k < 8 && !c.Failed() && (k == 0 || name != "huge cells" && name != "largest cells"); k++ {
					sut.C4(c4)
					checkTSV(c, f, b, k, func(args ...string) ([]byte, error) { return sut.Command(c.Scratch, "tsv", args...) }, c4)
				}
				c.Cover(name)
			}})
		}
	}
	n := 40
	if tier == "thorough" {
		n = 600
	}
	for i := 0; i < n; i++ {
		i := i
		list = append(list, Case{fmt.Sprintf("midiasm tsv %d", i), func(c *Ctx) {
			f := gen.Random(rng(c.Seed, "C16c", i), gen.Opt{Format: -1, MaxTracks: 10, MaxTextLen: 300})
			if i%2 == 0 {
				checkTSV(c, f, f.Encode(), i, program(c, "tsv"), false)
			} else {
				checkTSV(c, f, f.Encode(), i, program(c, "tsv", "--C4"), true)
			}
			c.Cover(fmt.Sprintf("cli %d", i))
		}})
	}
	return list
}

// --- validation

func sorted(l []string) []string {
	m := append([]string{}, l...)
	sort.Strings(m)
	return m
}

func diffStrings(want, got []string) string {
	w, g := sorted(want), sorted(got)
	for i, j := 0, 0; i < len(w) || j < len(g); {
		switch {
		case j >= len(g) || i < len(w) && w[i] < g[j]:
			return fmt.Sprintf("missing %q (want %d, got %d)", w[i], len(w), len(g))
		case i >= len(w) || g[j] < w[i]:
			return fmt.Sprintf("unexpected %q (want %d, got %d)", g[j], len(w), len(g))
		}
		i++
		j++
	}
	return ""
}

func checkValidate(c *Ctx, f *ref.File, b []byte) bool {
	c.Eval()
	smf, err := sut.Decode(b)
	if err != nil {
		c.Fail(fmt.Sprintf("well formed file rejected: %v", err), "midi", b)
		return false
	}
	got, err := sut.Validate(smf)
	if err != nil {
		c.Fail(fmt.Sprintf("validation failed: %v", err), "midi", b)
		return false
	}
	want := f.Validate()
	if d := diffStrings(want, withoutTrailingMSB(f, got)); d != "" {
		c.Fail("validation: "+d, "midi", b)
		return false
	}
	for _, w := range want {
		c.Observe("warnings", 1)
		c.Cover(shape(w))
	}
	if len(want) == 0 {
		c.Observe("valid files", 1)
	}
	return true
}

// warnings extracts the validation warnings the program prints
func warnings(stderr []byte) (list []string, banner bool) {
	for _, l := range strings.Split(string(stderr), "\n") {
		if strings.Contains(l, "validation errors") {
			banner = true
		}
		if t := strings.TrimSpace(l); strings.HasPrefix(t, "** ") {
			list = append(list, strings.TrimPrefix(t, "** "))
		}
	}
	return
}

// withoutTrailingMSB removes the warning about a bank select MSB that is the very
// last event of its track: whether that is reported is not specified (but it must
// not have any other effect).
func withoutTrailingMSB(f *ref.File, got []string) []string {
	for i, t := range f.Tracks {
		n := len(t)
		if n == 0 || t[n-1].Status&0xf0 != 0xb0 || t[n-1].Data[0] != 0 {
			continue
		}
		w := fmt.Sprintf("Track %d: 'Bank Select MSB' event @%d missing LSB (Controller)", i, n)
		for k, g := range got {
			if g == w {
				got = append(append([]string{}, got[:k]...), got[k+1:]...)
				break
			}
		}
	}
	return got
}

func validateCases(tier string, seed int64) []Case {
	o := gen.Opt{Format: -1, MaxTracks: 8, MaxTextLen: 60}
	list := fileCases("C17", o, tier, seed, 60000, 250000, func(c *Ctx, name string, f *ref.File) {
		b := f.Encode()
		if checkValidate(c, f, b) {
			sample(c, name, b)
		}
	})
	// every kind of event in every position of a FORMAT 0/1/2 file
	for i, kind := range gen.Kinds() {
		i, kind := i, kind
		list = append(list, Case{fmt.Sprintf("event kind %d in every track", i), func(c *Ctx) {
			for format := uint16(0); format < 3; format++ {
				for nt := 1; nt <= 4; nt++ {
					for at := 0; at < nt; at++ {
						f := &ref.File{Format: format, Division: 96}
						for t := 0; t < nt; t++ {
							evs := []ref.Ev{{Status: 0xff, Type: 3, Data: []byte("x")}}
							if t == at {
								evs = append(evs, kind(byte(i%16))...)
							}
							f.Tracks = append(f.Tracks, append(evs, gen.EOT(0)))
						}
						if !checkValidate(c, f, f.Encode()) {
							return
						}
					}
				}
			}
		}})
	}
	// problems in the last of many tracks
	list = append(list, Case{"problems in one of many tracks", func(c *Ctx) {
		for _, nt := range []int{15, 16, 17, 127, 128, 129, 255, 256, 257, 300, 1000} {
			for _, at := range []int{0, 1, nt / 2, nt - 2, nt - 1} {
				for i, bad := range [][]ref.Ev{{tempo(0, 1000), gen.EOT(0)}, {{Status: 0xb1, Data: []byte{0, 1}}, on(0, 0, 60, 1), gen.EOT(0)}, {gen.EOT(0), on(0, 0, 60, 1)}, {on(0, 0, 60, 1)}, {gen.EOT(0), gen.EOT(0)}, {{Status: 0xff, Type: 0x54, Data: []byte{0x4d, 0x2d, 0x3b, 7, 0x27}}, gen.EOT(0)}} {
					f := &ref.File{Format: uint16(1 + i/4), Division: 96}
					for t := 0; t < nt; t++ {
						f.Tracks = append(f.Tracks, []ref.Ev{gen.EOT(uint32(t))})
					}
					f.Tracks[at] = bad
					if !checkValidate(c, f, f.Encode()) {
						return
					}
				}
			}
		}
	}})
	// bank select neighbours
	list = append(list, Case{"bank select MSB/LSB neighbours", func(c *Ctx) {
		evs := []ref.Ev{}
		for c0 := byte(0); c0 < 3; c0++ {
			evs = append(evs, ref.Ev{Status: 0xb0 | c0, Data: []byte{0, 1}}, ref.Ev{Status: 0xb0 | c0, Data: []byte{0x20, 1}}, ref.Ev{Status: 0xb0 | c0, Data: []byte{1, 1}})
		}
		evs = append(evs, on(0, 0, 60, 1), ref.Ev{Status: 0xff, Type: 1, Data: []byte("x")}, ref.Ev{Status: 0xc0, Data: []byte{1}})
		for _, p := range evs {
			for _, q := range evs {
				for _, r := range evs {
					if !checkValidate(c, gen.Wrap1(p, q, r), gen.Wrap1(p, q, r).Encode()) {
						return
					}
				}
				for _, tracks := range [][][]ref.Ev{
					{{gen.EOT(0)}, {p, gen.EOT(0)}, {q, gen.EOT(0)}},
					{{gen.EOT(0)}, {p}, {q, gen.EOT(0)}},
					{{p}, {}, {q}},
					{{gen.EOT(0), p}, {q, p}, {q}},
				} {
					f := &ref.File{Format: 1, Division: 96, Tracks: tracks}
					if !checkValidate(c, f, f.Encode()) {
						return
					}
				}
			}
		}
	}})
	// end of track positions
	list = append(list, Case{"end of track positions", func(c *Ctx) {
		for n := 0; n < 6; n++ {
			for mask := 0; mask < 1<<n; mask++ {
				t := []ref.Ev{}
				for i := 0; i < n; i++ {
					if mask>>i&1 == 1 {
						t = append(t, gen.EOT(0))
					} else {
						t = append(t, ref.Ev{Status: 0xff, Type: 3, Data: []byte("x")})
					}
				}
				for format := uint16(0); format < 3; format++ {
					f := &ref.File{Format: format, Division: 96, Tracks: [][]ref.Ev{t}}
					g := &ref.File{Format: format, Division: 96, Tracks: [][]ref.Ev{{gen.EOT(0)}, t, {gen.EOT(1)}}}
					if !checkValidate(c, f, f.Encode()) || !checkValidate(c, g, g.Encode()) {
						return
					}
				}
			}
		}
	}})
	// the program reports the warnings and still does its work
	n := 80
	if tier == "thorough" {
		n = 400
	}
	for k := 0; k < n; k++ {
		k := k
		list = append(list, Case{fmt.Sprintf("midiasm warnings %d", k), func(c *Ctx) {
			oo := o
			oo.Division, oo.TextSafe, oo.UTF8 = true, true, true
			f := gen.Random(rng(c.Seed, "C17c", k), oo)
			if k%6 == 0 {
				f = &ref.File{Format: 1, Division: 96, Tracks: [][]ref.Ev{{tempo(0, 500000), gen.EOT(0)}, {on(0, 0, 60, 1), off(9, 0, 60, 1), gen.EOT(0)}}}
			}
			b := f.Encode()
			write(c, "in.mid", b)
			smf, err := sut.Decode(b)
			if err != nil {
				c.Fail(fmt.Sprintf("well formed file rejected: %v", err), "midi", b)
				return
			}
			sut.C4(false)
			want := f.Validate()
			text, _ := sut.Text(smf)
			js, _ := sut.JSON(smf)
			notes, _ := sut.Notes(smf, 0, false)
			notesJSON, _ := sut.Notes(smf, 0, true)
			notesTr, _ := sut.Notes(smf, 2, true)
			tr, _ := sut.Transpose(smf, 2)
			for _, x := range []struct {
				args []string
				out  []byte
			}{
				{[]string{"disassemble", "--out", "out", "in.mid"}, []byte(text)},
				{[]string{"--out", "out", "in.mid"}, []byte(text)},
				{[]string{"export", "--out", "out", "in.mid"}, js},
				{[]string{"notes", "--out", "out", "in.mid"}, notes},
				{[]string{"notes", "--json", "--out", "out", "in.mid"}, notesJSON},
				{[]string{"notes", "--transpose", "2", "--json", "--out", "out", "in.mid"}, notesTr},
				{[]string{"disassemble", "--split", "--out", "parts", "in.mid"}, nil},
				{[]string{"tsv", "--tabular", "--out", "out", "in.mid"}, nil},
				{[]string{"tsv", "in.mid"}, nil},
				{[]string{"export", "in.mid"}, js},
				{[]string{"disassemble", "in.mid"}, []byte(text)},
				{[]string{"transpose", "--semitones", "2", "--out", "out", "in.mid"}, tr},
				{[]string{"tsv", "--out", "out", "in.mid"}, nil},
			} {
				os.Remove(filepath.Join(c.Scratch, "out"))
				c.Eval()
				stdout, stderr, exit := run(c.Scratch, x.args...)
				got, err := stdout, error(nil)
				switch at := slices.Index(x.args, "--out"); {
				case at > 0 && x.args[at+1] == "parts":
					got, err = os.ReadFile(filepath.Join(c.Scratch, "parts", "in.MThd"))
					os.RemoveAll(filepath.Join(c.Scratch, "parts"))
				case at >= 0:
					got, err = os.ReadFile(filepath.Join(c.Scratch, "out"))
				}
				if exit != 0 || err != nil {
					c.Fail(fmt.Sprintf("midiasm %v: exit %d (%v) %s", x.args, exit, err, clip(string(stdout))), "midi", b)
					return
				}
				if x.out != nil && string(got) != string(x.out) {
					c.Fail(fmt.Sprintf("midiasm %v: unexpected output for a file with validation warnings", x.args), "midi", b, "got", got, "want", x.out)
					return
				}
				l, banner := warnings(stderr)
				raw := len(l)
				l = withoutTrailingMSB(f, l)
				if d := diffStrings(want, l); d != "" {
					c.Fail(fmt.Sprintf("midiasm %v: warnings: %s", x.args, d), "midi", b, "stderr", stderr)
					return
				}
				if banner != (raw > 0) {
					c.Fail(fmt.Sprintf("midiasm %v: warning banner %v for %d warnings", x.args, banner, len(want)), "midi", b, "stderr", stderr)
					return
				}
				c.Cover(fmt.Sprintf("cli %s %d", x.args[0], bucket(len(want))))
			}
		}})
	}
	return list
}

// --- disassembly and split files

func checkSplit(c *Ctx, f *ref.File, b []byte, c4 bool) bool {
	c.Eval()
	sut.C4(c4)
	smf, err := sut.Decode(b)
	if err != nil {
		c.Fail(fmt.Sprintf("well formed file rejected: %v", err), "midi", b)
		return false
	}
	text, err := sut.Text(smf)
	if err != nil {
		c.Fail(fmt.Sprintf("disassembly failed: %v", err), "midi", b)
		return false
	}
	if d := diffLines(f.Text(c4), text); d != "" {
		c.Fail("disassembly: "+d, "midi", b, "text", text)
		return false
	}
	parts, err := sut.Split(smf)
	if err != nil {
		c.Fail(fmt.Sprintf("split disassembly failed: %v", err), "midi", b)
		return false
	}
	if d := diffParts(f, parts, c4); d != "" {
		c.Fail("split: "+d, "midi", b)
		return false
	}
	return true
}

func lines(s string) string {
	l := []string{}
	for _, x := range strings.Split(s, "\n") {
		if strings.TrimSpace(x) != "" {
			l = append(l, ref.Squash(x))
		}
	}
	return strings.Join(l, "\n")
}

func diffParts(f *ref.File, parts []string, c4 bool) string {
	if len(parts) != len(f.Tracks)+1 {
		return fmt.Sprintf("want %d parts, got %d", len(f.Tracks)+1, len(parts))
	}
	if d := diffLines(lines(f.HeaderLine()), lines(parts[0])); d != "" {
		return "header: " + d
	}
	for i, t := range f.Tracks {
		if d := diffLines(lines(f.TrackText(i, t, c4)), lines(parts[i+1])); d != "" {
			return fmt.Sprintf("track %d: %s", i, d)
		}
	}
	return ""
}

func tree(dir string) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && i.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			r, _ := filepath.Rel(dir, p)
			m[r] = string(b)
		}
		return nil
	})
	return m
}

func splitCases(tier string, seed int64) []Case {
	k := 0
	list := fileCases("C15", gen.Opt{Format: -1, MaxTracks: 25, MaxTextLen: 2000}, tier, seed, 6000, 120000, func(c *Ctx, name string, f *ref.File) {
		k++
		b := f.Encode()
		if checkSplit(c, f, b, k%2 == 0) {
			observe(c, f)
			sample(c, name, b)
		}
	})
	names := []string{"in.mid", "one-time.mid", "a b.midi", "noext", "two.dots.mid", ".hidden.mid", "x.MTrk.mid", "naïve ♯.mid", "in-0.mid"}
	n := 36
	if tier == "thorough" {
		n = 500
	}
	for i := 0; i < n; i++ {
		i := i
		list = append(list, Case{fmt.Sprintf("midiasm disassemble --split %d", i), func(c *Ctx) {
			r := rng(c.Seed, "C15c", i)
			f := gen.Random(r, gen.Opt{Format: -1, MaxTracks: 15, MaxTextLen: 100, TextSafe: true, UTF8: true})
			if i == 4 || i == 5 { // long tracks
				f = &ref.File{Format: 1, Division: 96, Tracks: [][]ref.Ev{{gen.EOT(0)}, nil, {gen.EOT(0)}}}
				for n := 0; n < 45000*(i-3); n++ {
					f.Tracks[1] = append(f.Tracks[1], ref.Ev{Delta: uint32(n % 300), Status: 0xb0, Data: []byte{7, byte(n % 128)}})
				}
				f.Tracks[1] = append(f.Tracks[1], gen.EOT(0))
			}
			if i < 4 {
				f = &ref.File{Format: 1, Division: 96}
				for t := 0; t < []int{0, 12, 120, 1100}[i]; t++ {
					f.Tracks = append(f.Tracks, []ref.Ev{{Status: 0xff, Type: 3, Data: []byte(fmt.Sprint(t))}, gen.EOT(0)})
				}
			}
			b := f.Encode()
			name := names[i%len(names)]
			base := strings.TrimSuffix(name, filepath.Ext(name))
			sub := []string{"sub", "Sub Dir", "a.b/C.mid", "UPPER/lower", "é/-x"}[i%5]
			for _, mode := range []string{"", "out", "deep/er/dir", "exists", "Mixed Case/Ä.d", " lead"} {
				dir := filepath.Join(c.Scratch, "split")
				os.RemoveAll(dir)
				must(os.MkdirAll(filepath.Join(dir, sub), 0700))
				must(os.WriteFile(filepath.Join(dir, sub, name), b, 0600))
				args := []string{"disassemble", "--split"}
				dest := sub
				if mode != "" {
					args = append(args, "--out", mode)
					dest = mode
				}
				if mode == "exists" {
					must(os.MkdirAll(filepath.Join(dir, mode), 0700))
					// stale output must be replaced completely
					must(os.WriteFile(filepath.Join(dir, mode, base+".MThd"), []byte(strings.Repeat("stale\n", 5000)), 0600))
					must(os.WriteFile(filepath.Join(dir, mode, base+"-0.MTrk"), []byte(strings.Repeat("stale\n", 5000)), 0600))
					if len(f.Tracks) == 0 {
						os.Remove(filepath.Join(dir, mode, base+"-0.MTrk"))
					}
				}
				c4 := i%2 == 0
				if c4 {
					args = append(args, "--C4")
				}
				c.Eval()
				stdout, stderr, exit := run(dir, append(args, filepath.Join(sub, name))...)
				if exit != 0 {
					c.Fail(fmt.Sprintf("midiasm %v: exit %d %s%s", args, exit, clip(string(stdout)), clip(string(stderr))), "midi", b)
					return
				}
				want := map[string]bool{filepath.Join(sub, name): true}
				parts := []string{}
				files := tree(dir)
				for j := -1; j < len(f.Tracks); j++ {
					p := filepath.Join(dest, base+".MThd")
					if j >= 0 {
						p = filepath.Join(dest, fmt.Sprintf("%s-%d.MTrk", base, j))
					}
					want[p] = true
					s, ok := files[p]
					if !ok {
						c.Fail(fmt.Sprintf("midiasm %v: no file %s", args, p), "midi", b)
						return
					}
					parts = append(parts, s)
				}
				for p := range files {
					if !want[p] {
						c.Fail(fmt.Sprintf("midiasm %v: unexpected file %s", args, p), "midi", b)
						return
					}
				}
				if files[filepath.Join(sub, name)] != string(b) {
					c.Fail(fmt.Sprintf("midiasm %v: modified its input", args), "midi", b)
					return
				}
				if d := diffParts(f, parts, c4); d != "" {
					c.Fail(fmt.Sprintf("midiasm %v: %s", args, d), "midi", b)
					return
				}
				c.Cover(fmt.Sprintf("split %s %s %d", name, mode, len(f.Tracks)))
			}
			os.RemoveAll(filepath.Join(c.Scratch, "split"))
		}})
	}
	return list
}

// --- names of notes and keys

func nameCases(tier string, seed int64) []Case {
	list := []Case{}
	for a := -7; a <= 7; a++ {
		for m := byte(0); m < 2; m++ {
			for _, c4 := range []bool{false, true} {
				a, m, c4 := a, m, c4
				list = append(list, Case{fmt.Sprintf("key %s, C4:%v", ref.KeyName(int8(a), m == 1), c4), func(c *Ctx) {
					for prev := -7; prev <= 7; prev++ {
						evs := []ref.Ev{{Status: 0xff, Type: 0x59, Data: []byte{byte(int8(prev)), 1 - m}}}
						for n := 0; n < 128; n++ { // started in the previous key, ended in this one
							evs = append(evs, on(1, byte(n)%16, byte(n), 64))
						}
						evs = append(evs, ref.Ev{Status: 0xff, Type: 0x59, Data: []byte{byte(int8(a)), m}})
						for n := 0; n < 128; n++ {
							evs = append(evs, off(1, byte(n)%16, byte(n), 64))
							evs = append(evs, on(1, byte(n+1)%16, byte(n), 64), off(0, byte(n+1)%16, byte(n), 64), off(1, byte(n+2)%16, byte(n), 1))
						}
						f := gen.Wrap1(evs...)
						b := f.Encode()
						sut.C4(c4)
						c.Eval()
						if !listings(c, f, b, c4) {
							return
						}
						if !checkTSV(c, f, b, prev+7, func(args ...string) ([]byte, error) { return sut.Command(c.Scratch, "tsv", args...) }, c4) {
							return
						}
						for _, st := range []int{0, 1, -3} {
							if !checkNotes(c, f, b, st, c4, false) {
								return
							}
						}
						if !checkTransposedNames(c, f, b, a+prev, c4) {
							return
						}
					}
					c.Cover(fmt.Sprintf("key %d %d %v", a, m, c4))
				}})
			}
		}
	}
	n := 60
	if tier == "thorough" {
		n = 2000
	}
	for k := 0; k < n; k++ {
		k := k
		list = append(list, Case{fmt.Sprintf("random key and note sequences %d", k), func(c *Ctx) {
			r := rng(c.Seed, "C14", k)
			for i := 0; i < 20 && !c.Failed(); i++ {
				f := &ref.File{Format: 1, Division: 96, Tracks: [][]ref.Ev{{gen.KeySig(r), tempo(0, 500000), gen.EOT(0)}}}
				for t := 0; t < 1+r.Intn(4); t++ {
					evs := []ref.Ev{}
					for j := 0; j < r.Intn(120); j++ {
						ch, note := byte(r.Intn(3)), byte(48+r.Intn(26))
						if r.Intn(5) == 0 {
							ch, note = byte(r.Intn(16)), byte(r.Intn(128))
						}
						switch r.Intn(5) {
						case 0:
							evs = append(evs, gen.KeySig(r))
						case 1, 2:
							evs = append(evs, on(1, ch, note, byte(r.Intn(3))))
						default:
							evs = append(evs, off(1, ch, note, byte(r.Intn(128))))
						}
						evs[len(evs)-1].RS = r.Intn(2) == 0
						if e := &evs[len(evs)-1]; e.IsChannel() {
							e.Delta = []uint32{0, 1, 127, 128, 480, 16383, 16384, 65535, 65536, 2097151, 2097152, 0xfffffff}[r.Intn(12)]
						}
					}
					f.Tracks = append(f.Tracks, append(evs, gen.EOT(0)))
				}
				b := f.Encode()
				c4 := r.Intn(2) == 0
				sut.C4(c4)
				c.Eval()
				if !listings(c, f, b, c4) || !checkNotes(c, f, b, r.Intn(9)-4, c4, false) {
					return
				}
				observe(c, f)
				if i == 0 {
					sample(c, "keys and notes", b)
				}
			}
		}})
	}
	// every note of every channel sounding at the same time
	for k := 0; k < 6; k++ {
		k := k
		list = append(list, Case{fmt.Sprintf("all notes sounding %d", k), func(c *Ctx) {
			r := rng(c.Seed, "C14a", k)
			evs := []ref.Ev{gen.KeySig(r)}
			order := func() []int {
				l := r.Perm(16 * 128)
				if k < 2 {
					sort.Ints(l)
				}
				return l
			}
			for round := 0; round < 2; round++ {
				for _, x := range order() {
					evs = append(evs, on(1, byte(x>>7), byte(x&127), 64))
					if r.Intn(200) == 0 {
						evs = append(evs, gen.KeySig(r))
					}
				}
				evs = append(evs, gen.KeySig(r))
				for _, x := range order() {
					evs = append(evs, off(1, byte(x>>7), byte(x&127), 64))
					if r.Intn(200) == 0 {
						evs = append(evs, gen.KeySig(r))
					}
				}
			}
			f := gen.Wrap1(evs...)
			b := f.Encode()
			c4 := k%2 == 0
			sut.C4(c4)
			c.Eval()
			if listings(c, f, b, c4) && checkNotes(c, f, b, 0, c4, false) {
				c.Cover(fmt.Sprintf("all notes sounding %d", k))
			}
		}})
	}
	// note names in sources
	for _, c4 := range []bool{false, true} {
		c4 := c4
		list = append(list, Case{fmt.Sprintf("note names in text sources, C4:%v", c4), func(c *Ctx) {
			sut.C4(c4)
			for n := 0; n < 128; n++ {
				for _, useFlats := range []bool{false, true} {
					name := ref.NoteName(byte(n), useFlats, c4)
					for _, tag := range []string{"NoteOn", "NoteOff"} {
						c.Eval()
						src := fmt.Sprintf("MThd length:6, format:0, tracks:1, metrical time:96 ppqn\nMTrk 0 length:8\ndelta:0 %s channel:%d note:%s, velocity:%d\ndelta:0 2F EndOfTrack\n", tag, n%16, name, n)
						out, err := sut.AssembleText([]byte(src))
						if err != nil {
							c.Fail(fmt.Sprintf("%s %s: %v", tag, name, err), "source", src)
							return
						}
						f, err := ref.Decode(out)
						if err != nil || len(f.Tracks) != 1 || len(f.Tracks[0]) != 2 || f.Tracks[0][0].Data[0] != byte(n) || f.Tracks[0][0].Data[1] != byte(n) {
							c.Fail(fmt.Sprintf("%s %s assembled as % X (%v)", tag, name, out, err), "source", src)
							return
						}
						c.Cover("parse " + name)
					}
				}
			}
		}})
	}
	return list
}

// checkTransposedNames: the file written by transpose is named like any other file
func checkTransposedNames(c *Ctx, f *ref.File, b []byte, steps int, c4 bool) bool {
	smf, err := sut.Decode(b)
	if err != nil {
		c.Fail(fmt.Sprintf("well formed file rejected: %v", err), "midi", b)
		return false
	}
	out, err := sut.Transpose(smf, steps)
	if err != nil {
		c.Fail(fmt.Sprintf("cannot transpose by %d: %v", steps, err), "midi", b)
		return false
	}
	g, err := ref.Decode(out)
	if err != nil {
		c.Fail(fmt.Sprintf("transposed (%d) file is malformed: %v", steps, err), "midi", b, "transposed", out)
		return false
	}
	return listings(c, g, out, c4)
}

// --- program banks

func bankCases(tier string, seed int64) []Case {
	list := []Case{}
	for ch := byte(0); ch < 16; ch++ {
		ch := ch
		list = append(list, Case{fmt.Sprintf("every bank on channel %d", ch), func(c *Ctx) {
			for msb := 0; msb < 128; msb++ {
				evs := []ref.Ev{}
				for lsb := 0; lsb < 128; lsb++ {
					e := []ref.Ev{{Status: 0xb0 | ch, Data: []byte{0, byte(msb)}}, {Status: 0xb0 | ch, Data: []byte{0x20, byte(lsb)}}}
					if (msb+lsb)%3 == 0 {
						e[0], e[1] = e[1], e[0]
					}
					if (msb+lsb)%5 == 0 { // interrupted by another channel
						e = append(e[:1:1], ref.Ev{Status: 0xb0 | (ch+1)%16, Data: []byte{0x20, byte(127 - lsb)}}, ref.Ev{Status: 0xc0 | (ch+1)%16, Data: []byte{7}}, e[1])
					}
					evs = append(append(evs, e...), ref.Ev{Status: 0xc0 | ch, Data: []byte{byte(lsb)}}, ref.Ev{Status: 0xc0 | (ch+2)%16, Data: []byte{byte(msb)}})
				}
				for i := range evs {
					evs[i].RS = msb%2 == 0
				}
				f := gen.Wrap1(evs...)
				c4 := msb%2 == 0
				sut.C4(c4)
				c.Eval()
				c.Observe("program changes", 256)
				if !listings(c, f, f.Encode(), c4) {
					return
				}
				c.Cover(fmt.Sprintf("%d %d", ch, msb))
			}
		}})
	}
	n := 120
	if tier == "thorough" {
		n = 4000
	}
	for k := 0; k < n; k++ {
		k := k
		list = append(list, Case{fmt.Sprintf("random bank sequences %d", k), func(c *Ctx) {
			r := rng(c.Seed, "C18", k)
			for i := 0; i < 20 && !c.Failed(); i++ {
				f := &ref.File{Format: uint16(r.Intn(3)), Division: 96}
				for t := 0; t < 1+r.Intn(4); t++ {
					evs := []ref.Ev{}
					for j, m := 0, r.Intn(60); j < m; j++ {
						ch := byte(r.Intn(3)) + byte(i%14)
						v := byte(r.Intn(128))
						switch r.Intn(6) {
						case 0:
							evs = append(evs, ref.Ev{Status: 0xb0 | ch, Data: []byte{0, v}})
						case 1:
							evs = append(evs, ref.Ev{Status: 0xb0 | ch, Data: []byte{0x20, v}})
						case 2:
							evs = append(evs, ref.Ev{Status: 0xb0 | ch, Data: []byte{byte(r.Intn(128)), v}})
						case 3:
							evs = append(evs, gen.Events(r, gen.Opt{MaxTextLen: 20}, 0)...)
						default:
							evs = append(evs, ref.Ev{Status: 0xc0 | ch, Data: []byte{v}})
						}
						evs[len(evs)-1].RS = r.Intn(2) == 0
						if e := &evs[len(evs)-1]; e.IsChannel() {
							e.Delta = []uint32{0, 1, 127, 128, 480, 16383, 16384, 65535, 65536, 2097151, 2097152, 0xfffffff}[r.Intn(12)]
						}
					}
					f.Tracks = append(f.Tracks, append(evs, gen.EOT(0)))
				}
				b := f.Encode()
				c4 := r.Intn(2) == 0
				sut.C4(c4)
				c.Eval()
				if !listings(c, f, b, c4) {
					return
				}
				if i%4 == 0 && !checkTSV(c, f, b, i, func(args ...string) ([]byte, error) { return sut.Command(c.Scratch, "tsv", args...) }, c4) {
					return
				}
				smf, err := sut.Decode(b)
				if err != nil {
					continue
				}
				out, err := sut.Encode(smf)
				g, derr := ref.Decode(out)
				if err != nil || derr != nil {
					c.Fail(fmt.Sprintf("cannot re-encode (%v %v)", err, derr), "midi", b)
					return
				}
				if d := ref.Diff(f, g); d != "" {
					c.Fail("decode+encode: "+d, "midi", b)
					return
				}
				observe(c, f)
				if i == 0 {
					sample(c, "banks", b)
				}
			}
		}})
	}
	return list
}

// --- SysEx

func sysexCases(tier string, seed int64) []Case {
	list := []Case{}
	n := 250
	if tier == "thorough" {
		n = 6000
	}
	check := func(c *Ctx, f *ref.File, closed, known bool) bool {
		b := f.Encode()
		sut.C4(false)
		c.Eval()
		if !listings(c, f, b, false) {
			return false
		}
		smf, err := sut.Decode(b)
		if err != nil {
			return false
		}
		out, err := sut.Encode(smf)
		if err != nil {
			c.Fail(fmt.Sprintf("cannot re-encode: %v", err), "midi", b)
			return false
		}
		compare := func(what string, out []byte) bool {
			g, err := ref.Decode(out)
			if err != nil {
				c.Fail(fmt.Sprintf("%s: malformed file: %v", what, err), "midi", b, "out", out)
				return false
			}
			if d := ref.Diff(f, g); d != "" {
				c.Fail(fmt.Sprintf("%s: %s", what, d), "midi", b, "out", out)
				return false
			}
			return true
		}
		if !compare("decode+encode", out) {
			return false
		}
		if closed {
			js, err := sut.JSON(smf)
			if err == nil {
				out, err = sut.AssembleJSON(js)
			}
			if err != nil {
				c.Fail(fmt.Sprintf("export+assemble: %v", err), "midi", b)
				return false
			}
			if !compare("export+assemble", out) {
				return false
			}
		}
		if closed && known {
			text, err := sut.Text(smf)
			if err == nil {
				out, err = sut.AssembleText([]byte(text))
			}
			if err != nil {
				c.Fail(fmt.Sprintf("disassemble+assemble: %v", err), "midi", b)
				return false
			}
			if !compare("disassemble+assemble", out) {
				return false
			}
		}
		observe(c, f)
		return true
	}
	for k := 0; k < n; k++ {
		k := k
		list = append(list, Case{fmt.Sprintf("random SysEx sequences %d", k), func(c *Ctx) {
			r := rng(c.Seed, "C20", k)
			for i := 0; i < 20 && !c.Failed(); i++ {
				closed, known := r.Intn(3) > 0, r.Intn(2) == 0
				o := gen.Opt{MaxTextLen: 20, KnownManuf: known, TextSafe: true, UTF8: true, SysExClosed: closed}
				f := &ref.File{Format: uint16(r.Intn(3)), Division: 96}
				for t := 0; t < 1+r.Intn(3); t++ {
					evs := []ref.Ev{}
					for j := 0; j < r.Intn(30); j++ {
						switch r.Intn(4) {
						case 0:
							evs = append(evs, gen.Escape(r, o))
						case 1:
							evs = append(evs, gen.Events(r, o, 0)...)
						default:
							l := gen.SysEx(r, o)
							if !closed && len(l) > 1 && r.Intn(2) == 0 { // other events between the packets
								m := []ref.Ev{}
								for _, e := range l {
									m = append(m, e)
									if x := gen.Events(r, o, 0); x[0].Status != 0xf0 && x[0].Status != 0xf7 {
										m = append(m, x...)
									}
								}
								if last := m[len(m)-1]; last.Status != 0xf7 {
									l = m
								} else {
									l = m
								}
							}
							evs = append(evs, l...)
						}
					}
					f.Tracks = append(f.Tracks, append(evs, gen.EOT(0)))
				}
				if !check(c, f, closed, known) {
					return
				}
				if i == 0 {
					sample(c, "SysEx", f.Encode())
				}
			}
		}})
	}
	// a message at the end of a track
	for k := 0; k < n/10; k++ {
		k := k
		list = append(list, Case{fmt.Sprintf("message at the end of a source %d", k), func(c *Ctx) {
			r := rng(c.Seed, "C20e", k)
			for i := 0; i < 20 && !c.Failed(); i++ {
				o := gen.Opt{MaxTextLen: 20, KnownManuf: true, TextSafe: true, UTF8: true, SysExClosed: true}
				f := &ref.File{Format: 1, Division: 96}
				for t := 0; t < 1+r.Intn(3); t++ {
					evs := []ref.Ev{}
					for j := 0; j < r.Intn(4); j++ {
						evs = append(evs, gen.Events(r, o, 0)...)
					}
					f.Tracks = append(f.Tracks, append(evs, gen.SysEx(r, o)...))
				}
				c.Eval()
				text := f.Text(false)
				out, err := sut.AssembleText([]byte(text))
				if err != nil {
					c.Fail(fmt.Sprintf("assemble: %v", err), "text", text)
					return
				}
				g, err := ref.Decode(out)
				if err != nil {
					c.Fail(fmt.Sprintf("malformed file: %v", err), "text", text, "out", out)
					return
				}
				if d := ref.Diff(f, g); d != "" {
					c.Fail(d, "text", text, "out", out)
					return
				}
				c.Cover(fmt.Sprintf("final message %d", len(f.Tracks)))
			}
		}})
	}
	// every byte in every position of a message, also those that are not data bytes
	list = append(list, Case{"bytes of a message", func(c *Ctx) {
		for b := 0; b < 256; b++ {
			x := byte(b)
			evs := []ref.Ev{}
			for _, d := range [][]byte{{0x43, x}, {0x43, 1, x}, {0x43, x, 1}, {0x43, x, x, x}, {0x43, x, 0xf7}} {
				evs = append(evs, ref.Ev{Status: 0xf0, Data: append(append([]byte{}, d...), 0xf7)})
				if d[len(d)-1] != 0xf7 {
					evs = append(evs, ref.Ev{Status: 0xf0, Data: d}, ref.Ev{Delta: 3, Status: 0xf7, Data: []byte{x, 0xf7}})
					evs = append(evs, ref.Ev{Status: 0xf0, Data: d}, ref.Ev{Delta: 3, Status: 0xf7, Data: []byte{1, x, 0xf7, 0xf7}})
				}
			}
			if !check(c, &ref.File{Format: 0, Division: 96, Tracks: [][]ref.Ev{append(evs, gen.EOT(0))}}, false, false) {
				return
			}
		}
	}})
	for _, s := range gen.Sweeps(gen.Opt{Format: -1, Large: true}, tier == "thorough") {
		s := s
		if strings.HasPrefix(s.Name, "SysEx") || strings.Contains(s.Name, "equencer") || strings.Contains(s.Name, "pairs") {
			list = append(list, Case{s.Name, func(c *Ctx) { check(c, s.File, false, false) }})
		}
	}
	for _, s := range gen.Sweeps(gen.Opt{Large: true, Format: -1, SysExClosed: true, KnownManuf: true, TextSafe: true, UTF8: true}, tier == "thorough") {
		s := s
		if strings.HasPrefix(s.Name, "SysEx") || strings.Contains(s.Name, "equencer") || strings.Contains(s.Name, "pairs") {
			list = append(list, Case{s.Name + " (reassembled)", func(c *Ctx) { check(c, s.File, true, true) }})
		}
	}
	return list
}

// --- middle C

func middleCCases(tier string, seed int64) []Case {
	o := gen.Opt{Format: -1, MaxTracks: 6, Division: true, TextSafe: true, UTF8: true, KnownManuf: true, SysExClosed: true, TrackTempos: true, MaxTextLen: 200}
	list := fileCases("C26", o, tier, seed, 3000, 60000, func(c *Ctx, name string, f *ref.File) {
		b := f.Encode()
		var bin [2][][]byte
		var texts [2]string
		for i, c4 := range []bool{false, true} {
			sut.C4(c4)
			c.Eval()
			if !listings(c, f, b, c4) {
				return
			}
			if f.Division != 0 && !checkNotes(c, f, b, 0, c4, false) {
				return
			}
			smf, err := sut.Decode(b)
			if err != nil {
				return
			}
			texts[i], _ = sut.Text(smf)
			js, _ := sut.JSON(smf)
			fromText, err := sut.AssembleText([]byte(texts[i]))
			if err != nil {
				c.Fail(fmt.Sprintf("disassembly (C4:%v) cannot be assembled: %v", c4, err), "midi", b, "text", texts[i])
				return
			}
			fromJSON, err := sut.AssembleJSON(js)
			if err != nil {
				c.Fail(fmt.Sprintf("export (C4:%v) cannot be assembled: %v", c4, err), "midi", b, "json", js)
				return
			}
			enc, err := sut.Encode(smf)
			if err != nil {
				c.Fail(fmt.Sprintf("cannot re-encode (C4:%v): %v", c4, err), "midi", b)
				return
			}
			v, _ := sut.Validate(smf)
			tr, err := sut.Transpose(smf, 3)
			if err != nil {
				c.Fail(fmt.Sprintf("cannot transpose (C4:%v): %v", c4, err), "midi", b)
				return
			}
			bin[i] = [][]byte{fromText, fromJSON, enc, tr, []byte(strings.Join(v, "\n"))}
		}
		for i, what := range []string{"assembled text", "assembled JSON", "re-encoded file", "transposed file", "validation"} {
			if string(bin[0][i]) != string(bin[1][i]) {
				c.Fail(fmt.Sprintf("the middle C convention changes the %s", what), "midi", b, "C3", bin[0][i], "C4", bin[1][i])
				return
			}
		}
		// a listing made in one convention reads an octave away in the other
		sut.C4(false)
		g, err := sut.AssembleText([]byte(texts[1]))
		low := false
		for _, t := range f.Tracks {
			for _, e := range t {
				if e.IsChannel() && e.Status < 0xa0 && e.Data[0] < 12 {
					low = true
				}
			}
		}
		if low {
			if err == nil {
				c.Fail("a note below 0 was assembled", "midi", b, "text", texts[1], "assembled", g)
			}
		} else if err != nil {
			c.Fail(fmt.Sprintf("cannot assemble a listing made with --C4 without --C4: %v", err), "midi", b, "text", texts[1])
		} else if h, err := ref.Decode(g); err != nil {
			c.Fail(fmt.Sprintf("malformed: %v", err), "midi", b, "text", texts[1], "assembled", g)
		} else {
			for i, t := range f.Tracks {
				for j, e := range t {
					want := append([]byte{}, e.Data...)
					if e.IsChannel() && e.Status < 0xa0 {
						want[0] -= 12
					}
					if i >= len(h.Tracks) || j >= len(h.Tracks[i]) || string(h.Tracks[i][j].Data) != string(want) {
						c.Fail(fmt.Sprintf("track %d event %d: %v is not an octave lower when read in the other convention", i, j, e), "midi", b, "text", texts[1], "assembled", g)
						return
					}
				}
			}
		}
		observe(c, f)
		sample(c, name, b)
	})
	return list
}

func init() {
	register(&Check{ID: "C14", Level: "exploration",
		Rule:  "128 notes x 15 x 30 key signature changes x both middle C conventions in the disassembly, export, TSV and notes listings and after transposition; random key/note histories; all note names in sources; distinct = (kind, predecessor), key, name and (channel, note, duration) observations",
		Cases: nameCases})
	register(&Check{ID: "C15", Level: "exploration",
		Rule:  ruleFiles + "; each file disassembled whole and split, and with the real program's --split into 6 kinds of directories, tracks with listings of several MB",
		Cases: splitCases})
	register(&Check{ID: "C16", Level: "exploration",
		Rule:  ruleFiles + "; each written as TSV with the default and another delimiter, as a fixed width table to a file and to stdout, and with the real program",
		Cases: tsvCases})
	register(&Check{ID: "C17", Level: "exploration",
		Rule:  "every event kind in every track of format 0/1/2 files, all triples of bank select neighbours, all end of track placements, " + ruleFiles + "; the real program's warnings and outputs; distinct = warning shapes and (command, warning count)",
		Cases: validateCases})
	register(&Check{ID: "C18", Level: "exploration",
		Rule:  "all 16384 banks on each of the 16 channels, interrupted by other channels, plus random bank/program histories over several tracks; distinct = (channel, MSB) and event adjacency observations",
		Cases: bankCases})
	register(&Check{ID: "C20", Level: "exploration",
		Rule:  "every manufacturer, payload length 0..300 and VLQ boundaries, packet counts, escapes and random SysEx histories through listing, re-encoding, text and JSON assembly; distinct = (kind, predecessor), (kind, delta size, data length) observations",
		Cases: sysexCases})
	register(&Check{ID: "C26", Level: "exploration",
		Rule:  ruleFiles + "; every operation run in both conventions and compared",
		Cases: middleCCases})
}
