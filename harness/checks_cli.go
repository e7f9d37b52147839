package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"midiverif/gen"
	"midiverif/ref"
	"midiverif/sut"
)

const stale = "stale output that has to disappear completely\n"

// treeDiff compares a directory with what is expected to be in it
func treeDiff(want map[string]string, dir string) string {
	got := tree(dir)
	for p, s := range want {
		g, ok := got[p]
		if !ok {
			return fmt.Sprintf("%s has disappeared", p)
		}
		if g != s {
			return fmt.Sprintf("%s: %s", p, diffResult(s, g))
		}
	}
	for p := range got {
		if _, ok := want[p]; !ok {
			return fmt.Sprintf("unexpected file %s (%d bytes)", p, len(got[p]))
		}
	}
	return ""
}

func setup(c *Ctx, files map[string]string) string {
	dir := filepath.Join(c.Scratch, "cli")
	os.RemoveAll(dir)
	must(os.MkdirAll(filepath.Join(dir, "dir"), 0700))
	for p, s := range files {
		must(os.MkdirAll(filepath.Dir(filepath.Join(dir, p)), 0700))
		must(os.WriteFile(filepath.Join(dir, p), []byte(s), 0600))
	}
	return dir
}

func with(m map[string]string, kv ...string) map[string]string {
	n := map[string]string{}
	for k, v := range m {
		n[k] = v
	}
	for i := 0; i+1 < len(kv); i += 2 {
		n[kv[i]] = kv[i+1]
	}
	return n
}

// cliGood: commands that succeed write exactly their result and touch nothing else
func cliGood(c *Ctx, k int) {
	r := rng(c.Seed, "C19g", k)
	o := sourceOpt()
	o.Division, o.NonEmpty, o.TrackTempos = true, true, true
	f := gen.Random(r, o)
	if k%16 == 5 && len(f.Tracks) > 0 { // results longer than any buffer on the way
		t := len(f.Tracks) - 1
		more := []ref.Ev{}
		for i, n := 0, []int{500, 800, 1100}[r.Intn(3)]; i < n; i++ {
			more = append(more, on(uint32(i%200), byte(i%16), byte(i%128), 64), off(uint32(i%3), byte(i%16), byte(i%128), 64))
		}
		f.Tracks[t] = append(more, f.Tracks[t]...)
		c.Observe("large files", 1)
	}
	b := f.Encode()
	c4 := k%3 == 1
	sut.C4(c4)
	smf, err := sut.Decode(b)
	if err != nil {
		c.Fail(fmt.Sprintf("well formed file rejected: %v", err), "midi", b)
		return
	}
	text, _ := sut.Text(smf)
	js, _ := sut.JSON(smf)
	notes, _ := sut.Notes(smf, -2, false)
	notesJSON, _ := sut.Notes(smf, 5, true)
	enc, _ := sut.Encode(smf)
	steps := r.Intn(30) - 15
	fresh, _ := sut.Decode(b)
	tr, _ := sut.Transpose(fresh, steps)
	name := []string{"in.mid", "sub/in file.midi", "noext", "é♯.MID"}[k%4]
	base := map[string]string{name: string(b), "s.txt": text, "s.json": string(js), "s.text.asm": text, "bare": text, "upper.v1.json": string(js), "a.txt.txt": text, "t.txt/b.txt": text, ".json.d/x.json.json": string(js), "v1.2/plain": text, "song.midi.txt": text, "s.json.bak": text, "s.json.txt": text, "s.json~": text, "json": text, "s.jsonl": text, "x.txt.json": string(js), "json.d/text": text, "other.midi": "unrelated", "dir/keep": "unrelated"}

	type job struct {
		args   []string
		in     string
		out    string // default output
		want   string
		stdout bool
	}
	jobs := []job{
		{[]string{"disassemble"}, name, "", text, true},
		{[]string{}, name, "", text, true},
		{[]string{"export"}, name, "", string(js), true},
		{[]string{"notes", "--transpose", "-2"}, name, "", string(notes), true},
		{[]string{"notes", "--json", "--transpose", "5"}, name, "", string(notesJSON), true},
		{[]string{"transpose", "--semitones", fmt.Sprint(steps)}, name, "", string(tr), false},
		{[]string{"transpose", fmt.Sprintf("--semitones=%d", steps)}, name, "", string(tr), false},
		{[]string{"assemble"}, "s.txt", "s.midi", string(enc), false},
		{[]string{"assemble"}, "s.json", "s.midi", string(enc), false},
		{[]string{"assemble"}, "s.text.asm", "s.text.midi", string(enc), false},
		{[]string{"assemble"}, "bare", "bare.midi", string(enc), false},
		{[]string{"assemble"}, "a.txt.txt", "a.txt.midi", string(enc), false},
		{[]string{"assemble"}, "t.txt/b.txt", "t.txt/b.midi", string(enc), false},
		{[]string{"assemble"}, ".json.d/x.json.json", ".json.d/x.json.midi", string(enc), false},
		{[]string{"assemble"}, "v1.2/plain", "v1.2/plain.midi", string(enc), false},
		{[]string{"assemble"}, "song.midi.txt", "song.midi.midi", string(enc), false},
		{[]string{"assemble"}, "s.json.bak", "s.json.midi", string(enc), false},
		{[]string{"assemble"}, "s.json.txt", "s.json.midi", string(enc), false},
		{[]string{"assemble"}, "s.json~", "s.midi", string(enc), false},
		{[]string{"assemble"}, "json", "json.midi", string(enc), false},
		{[]string{"assemble"}, "s.jsonl", "s.midi", string(enc), false},
		{[]string{"assemble"}, "x.txt.json", "x.txt.midi", string(enc), false},
		{[]string{"assemble"}, "json.d/text", "json.d/text.midi", string(enc), false},
		{[]string{"assemble"}, "upper.v1.json", "upper.v1.midi", string(enc), false},
	}
	for i, j := range jobs {
		args := append([]string{}, j.args...)
		if c4 {
			args = append(args, "--C4")
		}
		// diagnostics go to the log and change nothing else
		args = append(args, [][]string{{}, {"--debug"}, {"--verbose"}, {"--debug", "--verbose"}}[(k+i)%4]...)
		fail := func(args []string, msg string) {
			c.Fail(fmt.Sprintf("midiasm %v: %s", args, msg), "midi", b)
		}
		// standard output, or the default file
		if j.stdout || j.out != "" {
			before := base
			if j.out != "" && k%2 == 0 {
				before = with(base, j.out, strings.Repeat(stale, 3000))
			}
			dir := setup(c, before)
			stdout, stderr, exit := run(dir, append(append([]string{}, args...), j.in)...)
			c.Eval()
			if exit != 0 {
				fail(args, fmt.Sprintf("exit %d %s%s", exit, clip(string(stdout)), clip(string(stderr))))
				return
			}
			want := base
			if j.stdout {
				if d := diffResult(j.want, string(stdout)); d != "" {
					fail(args, "standard output "+d)
					return
				}
			} else {
				want = with(base, j.out, j.want)
			}
			if d := treeDiff(want, dir); d != "" {
				fail(args, d)
				return
			}
			c.Cover(fmt.Sprintf("default %v %s", j.args, j.in))
		}
		// --out: new, longer, shorter, in another directory, the input itself
		odd := []string{" lead", "trail ", "UPPER.MID", "-dash", "é ♯.TXT", "a,b;c", "%d%s", "dir/.hid", "x.tmp", "quo'te\"", "new\nline", "$HOME", "~", "dir/../up"}[(k+i)%14]
		for _, out := range []string{"new", "long", "short", "dir/out.x", j.in, odd} {
			before := base
			switch out {
			case "long":
				before = with(base, out, strings.Repeat(stale, 20000))
			case "short":
				before = with(base, out, "x")
			}
			dir := setup(c, before)
			a := append(append([]string{}, args...), "--out", out, j.in)
			stdout, stderr, exit := run(dir, a...)
			c.Eval()
			if exit != 0 {
				fail(a, fmt.Sprintf("exit %d %s%s", exit, clip(string(stdout)), clip(string(stderr))))
				return
			}
			if d := treeDiff(with(base, filepath.Clean(out), j.want), dir); d != "" {
				fail(a, d)
				return
			}
			c.Cover(fmt.Sprintf("out %v %s", j.args, out))
		}
	}
	// tsv
	for _, a := range [][]string{{"tsv"}, {"tsv", "--tabular", "--out", "t"}, {"tsv", "--out", "t"}, {"tsv", "--delimiter", ",", "--out", "t"}} {
		var first string
		for pass, before := range []map[string]string{base, with(base, "t", strings.Repeat(stale, 20000))} {
			dir := setup(c, before)
			stdout, stderr, exit := run(dir, append(append([]string{}, a...), name)...)
			c.Eval()
			if exit != 0 {
				c.Fail(fmt.Sprintf("midiasm %v: exit %d %s%s", a, exit, clip(string(stdout)), clip(string(stderr))), "midi", b)
				return
			}
			got := string(stdout)
			want := base
			if len(a) > 1 {
				x, _ := os.ReadFile(filepath.Join(dir, "t"))
				got = string(x)
				want = with(base, "t", got)
			} else {
				want = before
			}
			if d := treeDiff(want, dir); d != "" {
				c.Fail(fmt.Sprintf("midiasm %v: %s", a, d), "midi", b)
				return
			}
			if pass == 0 {
				first = got
			} else if d := diffResult(first, got); d != "" {
				c.Fail(fmt.Sprintf("midiasm %v: older output is not replaced: %s", a, d), "midi", b)
				return
			}
		}
		c.Cover(fmt.Sprint(a))
	}
}

// badInputs: things that are not what a command expects
func badMIDI(r *rand.Rand) map[string]string {
	f := gen.Random(r, gen.Opt{Format: -1, NonEmpty: true, NoAliens: true, MaxTextLen: 100})
	b := f.Encode()
	cut := func(n int) string { return string(b[:n]) }
	m := map[string]string{
		"empty":         "",
		"magic":         "MThx" + cut(len(b))[4:],
		"header":        cut(14)[:r.Intn(14)],
		"headerlength":  "MThd\x00\x00\x00\x05" + cut(len(b))[8:],
		"text":          "this is not a MIDI file",
		"division":      cut(12) + "\x80\x00" + cut(len(b))[14:],
		"format":        cut(8) + "\x00\x03" + cut(len(b))[10:],
		"badstatus":     string(gen.Raw(0, 96, []byte{0, 0xf4, 0, 0xff, 0x2f, 0})),
		"runningstatus": string(gen.Raw(0, 96, []byte{0, 0x40, 0x40, 0, 0xff, 0x2f, 0})),
		"vlq":           string(gen.Raw(0, 96, []byte{0xff, 0xff, 0xff, 0xff, 0x7f, 0x90, 60, 60, 0, 0xff, 0x2f, 0})),
		"cutevent":      string(gen.Raw(0, 96, []byte{0, 0x90, 60})),
		"cutmeta":       string(gen.Raw(0, 96, []byte{0, 0xff, 3, 9, 'x'})),
		"tempo":         string(gen.Raw(0, 96, []byte{0, 0xff, 0x51, 2, 1, 2, 0, 0xff, 0x2f, 0})),
		"key":           string(gen.Raw(0, 96, []byte{0, 0xff, 0x59, 2, 9, 0, 0, 0xff, 0x2f, 0})),
		"databyte":      string(gen.Raw(0, 96, []byte{0, 0x90, 60, 0x80, 0, 0xff, 0x2f, 0})),
	}
	return m
}

var badText = map[string]string{
	"empty":   "",
	"nothing": "hello\nworld\n",
	"nohdr":   "MTrk 0 length:4\ndelta:0 2F EndOfTrack\n",
	"format":  "MThd length:6, format:7, tracks:1, metrical time:96 ppqn\nMTrk 0\ndelta:0 2F EndOfTrack\n",
	"ppqn":    "MThd length:6, format:0, tracks:1\nMTrk 0\ndelta:0 2F EndOfTrack\n",
	"event":   "MThd length:6, format:0, tracks:1, metrical time:96 ppqn\nMTrk 0\ndelta:0 2F EndOfTrack\ndelta:0 Nothing\n",
	"note":    "MThd length:6, format:0, tracks:1, metrical time:96 ppqn\nMTrk 0\ndelta:0 NoteOn channel:0 note:H4, velocity:64\ndelta:0 2F EndOfTrack\n",
	"chan":    "MThd length:6, format:0, tracks:1, metrical time:96 ppqn\nMTrk 0\ndelta:0 NoteOn channel:16 note:C4, velocity:64\ndelta:0 2F EndOfTrack\n",
	"delta":   "MThd length:6, format:0, tracks:1, metrical time:96 ppqn\nMTrk 0\ndelta:268435456 NoteOn channel:1 note:C4, velocity:64\ndelta:0 2F EndOfTrack\n",
	"manuf":   "MThd length:6, format:0, tracks:1, metrical time:96 ppqn\nMTrk 0\ndelta:0 SysExMessage Nobody, 01 02\ndelta:0 2F EndOfTrack\n",
}

var badJSON = map[string]string{
	"empty":  "",
	"cut":    `{"header":{"tag":"MThd","format":0,"PPQN":96},"tracks":[{"tag":"MTrk","events":[`,
	"header": `{"tracks":[]}`,
	"list":   `[]`,
	"text":   "MThd length:6, format:0, tracks:1, metrical time:96 ppqn\nMTrk 0\ndelta:0 2F EndOfTrack\n",
	"format": `{"header":{"tag":"MThd","format":3,"PPQN":96},"tracks":[]}`,
	"ppqn":   `{"header":{"tag":"MThd","format":0},"tracks":[]}`,
	"track":  `{"header":{"tag":"MThd","format":0,"PPQN":96},"tracks":[{"events":[]}]}`,
	"event":  `{"header":{"tag":"MThd","format":0,"PPQN":96},"tracks":[{"tag":"MTrk","events":[{"event":{"tag":"Nothing","delta":0}}]}]}`,
	"value":  `{"header":{"tag":"MThd","format":0,"PPQN":96},"tracks":[{"tag":"MTrk","events":[{"event":{"tag":"NoteOn","delta":0,"channel":0,"note":{"value":128},"velocity":1}}]}]}`,
	"type":   `{"header":{"tag":"MThd","format":0,"PPQN":96},"tracks":[{"tag":"MTrk","events":[{"event":{"tag":"Text","delta":"x","text":1}}]}]}`,
}

// cliBad: commands that fail say so and leave every file as it was
func cliBad(c *Ctx, k int) {
	r := rng(c.Seed, "C19b", k)
	good := gen.Random(r, gen.Opt{Format: -1, NonEmpty: true, Division: true, MaxTextLen: 50}).Encode()
	base := map[string]string{"good.mid": string(good), "out": strings.Repeat("precious\n", 1+r.Intn(5000)), "dir/keep": "unrelated", "out-0.MTrk": "precious", "out.MThd": "precious", "bad.midi": "precious"}
	check := func(what string, files map[string]string, args ...string) bool {
		dir := setup(c, files)
		stdout, stderr, exit := run(dir, args...)
		c.Eval()
		if exit == 0 {
			c.Fail(fmt.Sprintf("midiasm %v with %s: exit code 0\n%s", args, what, clip(string(stdout))), "bad", files["bad"])
			return false
		}
		if crashed(stderr, exit) {
			c.Fail(fmt.Sprintf("midiasm %v with %s: crash (exit code %d)\n%s", args, what, exit, clip(string(stderr))), "bad", files["bad"])
			return false
		}
		if !strings.Contains(string(stdout)+string(stderr), "ERROR") {
			c.Fail(fmt.Sprintf("midiasm %v with %s: no error message\n%s%s", args, what, clip(string(stdout)), clip(string(stderr))), "bad", files["bad"])
			return false
		}
		if d := treeDiff(files, dir); d != "" {
			c.Fail(fmt.Sprintf("midiasm %v with %s: %s", args, what, d), "bad", files["bad"])
			return false
		}
		c.Cover(fmt.Sprintf("bad %v %s", args[0], what))
		return true
	}
	midi := [][]string{{"disassemble"}, {}, {"disassemble", "--split"}, {"export"}, {"notes"}, {"notes", "--json"}, {"click"}, {"transpose", "--semitones", "1"}, {"tsv"}, {"tsv", "--tabular"}}
	for what, s := range badMIDI(r) {
		if _, err := ref.Decode([]byte(s)); err == nil {
			continue
		}
		for _, cmd := range midi {
			files := with(base, "bad", s)
			if !check(what, files, append(append([]string{}, cmd...), "--out", "out", "bad")...) {
				return
			}
			if len(cmd) > 0 && cmd[0] != "transpose" && !check(what, files, append(append([]string{}, cmd...), "bad")...) {
				return
			}
		}
	}
	for _, cmd := range append(midi, []string{"assemble"}) {
		for _, in := range []string{"missing", "dir", "dir/missing", "good.mid/x"} {
			if !check(in, base, append(append([]string{}, cmd...), "--out", "out", in)...) {
				return
			}
			if !check(in, base, append(append([]string{}, cmd...), "--out", "newfile", in)...) {
				return
			}
		}
		// an output that cannot be created
		if cmd != nil && len(cmd) > 0 && cmd[0] == "assemble" || len(cmd) > 1 && cmd[1] == "--split" {
			continue
		}
		for _, out := range []string{"dir", "nodir/out", "good.mid/out"} {
			if !check("output "+out, base, append(append([]string{}, cmd...), "--out", out, "good.mid")...) {
				return
			}
		}
	}
	// options that do not exist or cannot be parsed
	for _, a := range [][]string{{"disassemble", "--nope"}, {"--nope"}, {"notes", "--transpose", "x"}, {"transpose", "--semitones", "1.5"}, {"transpose", "--semitones", "99999999999999999999"}, {"assemble", "--C5"}, {"tsv", "--tabular=x"}, {"click", "--debug=2x"}} {
		args := append(append([]string{}, a...), "--out", "out", "good.mid")
		dir := setup(c, base)
		stdout, stderr, exit := run(dir, args...)
		c.Eval()
		if exit <= 0 || crashed(stderr, 1) || len(stdout)+len(stderr) == 0 {
			c.Fail(fmt.Sprintf("midiasm %v: exit code %d\n%s%s", args, exit, clip(string(stdout)), clip(string(stderr))))
			return
		}
		if d := treeDiff(base, dir); d != "" {
			c.Fail(fmt.Sprintf("midiasm %v: %s", args, d))
			return
		}
		c.Cover(fmt.Sprintf("bad option %v", a))
	}
	// decoded, but not something the command can do
	smpte := gen.Random(r, gen.Opt{Format: -1, NonEmpty: true, MaxTextLen: 50})
	smpte.Division = []uint16{0xe728, 0xe804, 0xe264, 0xe350, 0}[r.Intn(5)]
	empty := &ref.File{Format: 1, Division: 96}
	for _, a := range [][]string{{"notes"}, {"notes", "--json"}, {"notes", "--transpose", "3"}} {
		if smpte.Division == 0 {
			break
		}
		if !check("SMPTE", with(base, "bad", string(smpte.Encode())), append(a, "--out", "out", "bad")...) {
			return
		}
	}
	if !check("no tracks", with(base, "bad", string(empty.Encode())), "click", "--out", "out", "bad") {
		return
	}
	for _, d := range []string{"\"", "\n", "\r", "\ufffd"} {
		if !check("delimiter", base, "tsv", "--delimiter", d, "--out", "out", "good.mid") {
			return
		}
	}
	if !check("no --out", base, "transpose", "--semitones", "1", "good.mid") {
		return
	}
	if !check("output good.mid/out", base, "disassemble", "--split", "--out", "good.mid/out", "good.mid") {
		return
	}
	for what, s := range badText {
		if !check("text "+what, with(base, "bad.txt", s), "assemble", "--out", "out", "bad.txt") || !check("text "+what, with(base, "bad.txt", s), "assemble", "bad.txt") {
			return
		}
	}
	for what, s := range badJSON {
		if !check("JSON "+what, with(base, "bad.json", s), "assemble", "--out", "out", "bad.json") || !check("JSON "+what, with(base, "bad.json", s), "assemble", "bad.json") {
			return
		}
	}
	src := (&ref.File{Format: 0, Division: 96, Tracks: [][]ref.Ev{{gen.EOT(0)}}}).Text(false)
	for _, out := range []string{"dir", "nodir/out", "good.mid/out"} {
		if !check("output "+out, with(base, "s.txt", src), "assemble", "--out", out, "s.txt") {
			return
		}
	}
}

func cliCases(tier string, seed int64) []Case {
	list := []Case{}
	n, m := 160, 24
	if tier == "thorough" {
		n, m = 600, 80
	}
	for k := 0; k < n; k++ {
		k := k
		list = append(list, Case{fmt.Sprintf("successful commands %d", k), func(c *Ctx) { cliGood(c, k) }})
	}
	list = append(list, Case{"help and version", func(c *Ctx) {
		base := map[string]string{"out": "precious", "help": "precious", "version": "precious"}
		for _, a := range [][]string{{"help"}, {"version"}, {"help", "nonsense"}, {"help", "disassemble"}, {"help", "assemble"}, {"help", "export"}, {"help", "notes"}, {"help", "click"}, {"help", "transpose"}, {"help", "tsv"}} {
			for _, extra := range [][]string{{}, {"--debug"}, {"--verbose"}, {"--C4"}} {
				args := append(append(append([]string{}, a[:1]...), extra...), a[1:]...)
				dir := setup(c, base)
				stdout, stderr, exit := run(dir, args...)
				c.Eval()
				if exit != 0 || len(strings.TrimSpace(string(stdout))) == 0 {
					c.Fail(fmt.Sprintf("midiasm %v: exit code %d, %d bytes of output\n%s", args, exit, len(stdout), clip(string(stderr))))
					return
				}
				if d := treeDiff(base, dir); d != "" {
					c.Fail(fmt.Sprintf("midiasm %v: %s", args, d))
					return
				}
				c.Cover(fmt.Sprintf("%v", args))
			}
		}
	}})
	for k := 0; k < m; k++ {
		k := k
		list = append(list, Case{fmt.Sprintf("failing commands %d", k), func(c *Ctx) { cliBad(c, k) }})
	}
	return list
}

// --- templates

var templates = map[string]string{
	"sequenceno": "SequenceNumber", "text": "Text", "copyright": "Copyright", "trackname": "TrackName", "instrumentname": "InstrumentName", "lyric": "Lyric", "marker": "Marker",
	"cuepoint": "CuePoint", "programname": "ProgramName", "devicename": "DeviceName", "midichannelprefix": "MIDIChannelPrefix", "midiport": "MIDIPort", "endoftrack": "EndOfTrack",
	"tempo": "Tempo", "smpteoffset": "SMPTEOffset", "timesignature": "TimeSignature", "keysignature": "KeySignature", "sequencerspecificevent": "SequencerSpecificEvent",
	"noteoff": "NoteOff", "noteon": "NoteOn", "polyphonicpressure": "PolyphonicPressure", "controller": "Controller", "programchange": "ProgramChange", "channelpressure": "ChannelPressure",
	"pitchbend": "PitchBend", "sysexmessage": "SysExMessage", "sysexcontinuation": "SysExContinuation", "sysexescape": "SysExEscape",
}

func templateCases(tier string, seed int64) []Case {
	list := []Case{}
	names := []string{}
	for n := range templates {
		names = append(names, n)
	}
	n := 1200
	if tier == "thorough" {
		n = 3000
	}
	for k := 0; k < n; k++ {
		k := k
		list = append(list, Case{fmt.Sprintf("custom templates %d", k), func(c *Ctx) {
			r := rng(c.Seed, "C27", k)
			names := sorted(names)
			for i := 0; i < 6 && !c.Failed(); i++ {
				f := gen.Random(r, gen.Opt{Format: -1, MaxTracks: 4, MaxTextLen: 60})
				b := f.Encode()
				custom := map[string]string{}
				tags, trail := map[string]string{}, map[string]string{}
				for j := 0; j < r.Intn(6); j++ {
					name := names[r.Intn(len(names))]
					if k < len(names) && j == 0 {
						name = names[k]
					}
					mark := fmt.Sprintf("<<%s %d>>", name, j)
					lead := []string{"", "", " ", "\t", "   "}[r.Intn(5)]
					trail[templates[name]] = []string{"", "", " ", "  \t"}[r.Intn(4)]
					mark = lead + mark
					custom[name] = mark + " {{.Tag}} delta {{.Delta}}" + trail[templates[name]]
					tags[templates[name]] = mark
				}
				// templates may use one another
				if len(custom) > 0 && r.Intn(2) == 0 {
					for _, name := range names {
						if s, ok := custom[name]; ok && r.Intn(2) == 0 {
							h := []string{"helper", "zz", "AA", "my.delta"}[r.Intn(4)]
							custom[h] = "delta {{.Delta}}"
							custom[name] = strings.Replace(s, "delta {{.Delta}}", `{{template "`+h+`" .}}`, 1)
							c.Observe("shared templates", 1)
						}
					}
				}
				hex := r.Intn(4) == 0
				if hex {
					custom["hex"] = "[{{len .}}]"
				}
				custom["not used"] = "{{.Nothing}}"
				js, _ := json.Marshal(map[string]any{"templates": custom, "comment": "x"})
				c4 := r.Intn(2) == 0
				sut.C4(c4)
				smf, err := sut.Decode(b)
				if err != nil {
					c.Fail(fmt.Sprintf("well formed file rejected: %v", err), "midi", b)
					return
				}
				c.Eval()
				got, err := sut.TextWith(smf, js)
				if err != nil {
					c.Fail(fmt.Sprintf("cannot disassemble with templates: %v", err), "midi", b, "templates", js)
					return
				}
				want := f.HeaderLine() + "\n"
				exact := map[int]string{} // the custom part of a line is not reformatted
				for i, t := range f.Tracks {
					f.TrackText(i, t, c4) // fills in the raw bytes
					want += "\n" + ref.TrackLine(i, ref.EncodeTrack(t)) + "\n"
					for _, v := range ref.Views(t, c4) {
						line := v.Line()
						at := strings.Index(line, "  tick:")
						if mark, ok := tags[v.Tag]; ok {
							line = line[:at] + fmt.Sprintf("  tick:%-9d  delta:%-9d  %s %s delta %d%s", v.Tick, v.Ev.Delta, mark, v.Tag, v.Ev.Delta, trail[v.Tag])
							exact[strings.Count(want, "\n")] = fmt.Sprintf("%s %s delta %d%s", mark, v.Tag, v.Ev.Delta, trail[v.Tag])
							c.Cover("custom " + v.Tag)
						}
						if hex {
							line = fmt.Sprintf("[%d]", len(v.Ev.Raw)) + line[at:]
						}
						want += line + "\n"
					}
				}
				if d := diffLines(want, got); d != "" {
					c.Fail("custom templates: "+d, "midi", b, "templates", js)
					return
				}
				for i, line := range strings.Split(got, "\n") {
					if s, ok := exact[i]; ok && !strings.HasSuffix(line, s) {
						c.Fail(fmt.Sprintf("custom templates: line %d %q does not end with %q", i+1, line, s), "midi", b, "templates", js)
						return
					}
				}
				plain, err := sut.Text(smf)
				if err != nil || diffLines(f.Text(c4), plain) != "" {
					c.Fail(fmt.Sprintf("custom templates change a later disassembly without them: %v %s", err, diffLines(f.Text(c4), plain)), "midi", b, "templates", js)
					return
				}
				c.Observe("customised listings", 1)
				if i == 0 && k%3 == 0 { // the program
					dir := setup(c, map[string]string{"in.mid": string(b), "t.json": string(js)})
					args := []string{"disassemble", "--templates", "t.json"}
					if c4 {
						args = append(args, "--C4")
					}
					stdout, stderr, exit := run(dir, append(args, "in.mid")...)
					c.Eval()
					if exit != 0 || string(stdout) != got {
						c.Fail(fmt.Sprintf("midiasm %v: exit %d %s %s", args, exit, diffResult(got, string(stdout)), clip(string(stderr))), "midi", b, "templates", js)
						return
					}
					c.Cover("program")
				}
			}
		}})
	}
	list = append(list, Case{"unusable templates", func(c *Ctx) {
		b := gen.Dense().Encode()
		for what, s := range map[string]string{"empty": "", "text": "hello", "list": "[]", "syntax": `{"templates":{"text":"{{.Text"}}`, "function": `{"templates":{"text":"{{nope .Text}}"}}`, "field": `{"templates":{"text":"{{.NoSuchField}}"}}`, "type": `{"templates":{"text":7}}`, "missing": "\x00"} {
			base := map[string]string{"in.mid": string(b), "t.json": s}
			base["out"] = strings.Repeat("precious\n", 1000)
			base["in.MThd"] = "precious"
			base["in-0.MTrk"] = "precious"
			for _, extra := range [][]string{{}, {"--out", "out"}, {"--split"}, {"--split", "--out", "."}} {
				dir := setup(c, base)
				args := append(append([]string{"disassemble", "--templates", "t.json"}, extra...), "in.mid")
				if what == "missing" {
					args[2] = "nothere.json"
				}
				stdout, stderr, exit := run(dir, args...)
				c.Eval()
				if exit == 0 || crashed(stderr, exit) {
					c.Fail(fmt.Sprintf("midiasm %v with %s templates: exit %d %s%s", args, what, exit, clip(string(stdout)), clip(string(stderr))))
					return
				}
				if d := treeDiff(base, dir); d != "" {
					c.Fail(fmt.Sprintf("midiasm %v with %s templates: %s", args, what, d))
					return
				}
				c.Cover("unusable " + what)
			}
		}
	}})
	return list
}

func init() {
	register(&Check{ID: "C19", Level: "exploration", CPULimit: 400,
		Rule:  "the real program: 12 successful command forms x default output and 5 kinds of --out (new, longer, shorter, other directory, the input itself) with the whole directory tree compared, and 10 command forms x unusable inputs, sources and outputs; distinct = (command, input or output kind)",
		Cases: cliCases})
	register(&Check{ID: "C27", Level: "exploration",
		Rule:  "random files disassembled with random sets of custom templates for all 28 event formats and the hex column, in process and with the real program, and unusable template files; distinct = (customised event kind), (kind of unusable file)",
		Cases: templateCases})
}
