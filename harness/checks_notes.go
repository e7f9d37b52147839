package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"midiverif/gen"
	"midiverif/ref"
	"midiverif/sut"
)

// --- notes

type listed struct {
	Channel, Note, Velocity  int
	Name                     string
	Start, End, Duration     float64 // ms
	HasStart, HasEnd, HasDur bool
}

func parseNotesJSON(b []byte) ([]listed, error) {
	var v struct {
		Notes []map[string]any `json:"notes"`
	}
	if err := json.Unmarshal(b, &v); err != nil {
		return nil, err
	}
	if v.Notes == nil {
		return nil, fmt.Errorf("no list of notes")
	}
	l := []listed{}
	for i, n := range v.Notes {
		num := func(k string) float64 {
			f, ok := n[k].(float64)
			if !ok {
				return math.NaN()
			}
			return f
		}
		name, _ := n["note"].(string)
		x := listed{Channel: int(num("channel")), Note: int(num("midi-note")), Velocity: int(num("velocity")), Name: name, Start: num("start") * 1000, End: num("end") * 1000, Duration: num("duration") * 1000}
		for _, k := range []string{"channel", "midi-note", "velocity", "start", "end", "duration"} {
			if math.IsNaN(num(k)) {
				return nil, fmt.Errorf("note %d: missing %q", i, k)
			}
		}
		l = append(l, x)
	}
	return l, nil
}

func parseNotesText(b []byte) ([]listed, error) {
	l := []listed{}
	for i, line := range strings.Split(string(b), "\n") {
		if strings.TrimSpace(line) == "" {
			continue
		}
		f := strings.Fields(line)
		x := listed{Name: f[0]}
		seen := 0
		for _, kv := range f[1:] {
			k, v, ok := strings.Cut(kv, ":")
			if !ok {
				return nil, fmt.Errorf("line %d: %q", i+1, line)
			}
			var n int64
			var d time.Duration
			var err error
			switch k {
			case "channel":
				n, err = strconv.ParseInt(v, 10, 32)
				x.Channel = int(n)
			case "note":
				n, err = strconv.ParseInt(v, 16, 32)
				x.Note = int(n)
			case "velocity":
				n, err = strconv.ParseInt(v, 10, 32)
				x.Velocity = int(n)
			case "start":
				d, err = time.ParseDuration(v)
				x.Start = float64(d) / 1e6
			case "end":
				d, err = time.ParseDuration(v)
				x.End = float64(d) / 1e6
			case "duration":
				d, err = time.ParseDuration(v)
				x.Duration = float64(d) / 1e6
			default:
				seen--
			}
			seen++
			if err != nil {
				return nil, fmt.Errorf("line %d: %q (%v)", i+1, line, err)
			}
		}
		if seen != 6 {
			return nil, fmt.Errorf("line %d: %q", i+1, line)
		}
		l = append(l, x)
	}
	return l, nil
}

func ms(r *big.Rat) float64 { f, _ := r.Float64(); return f }

// representable: all times fit in the nanoseconds of an int64
func representable(notes []ref.Note) bool {
	for _, n := range notes {
		if ms(n.End) > 9.0e12 {
			return false
		}
	}
	return true
}

// diffNotes compares a listing with the reference; timing selects whether the times are compared.
func diffNotes(want []ref.Note, got []listed, timing bool) string {
	for i := 0; i < len(want) && i < len(got); i++ {
		w, g := want[i], got[i]
		if int(w.Channel) != g.Channel || int(w.Note) != g.Note || int(w.Velocity) != g.Velocity || w.Name != g.Name {
			return fmt.Sprintf("note %d: want %v, got %+v", i, w, g)
		}
		if timing {
			// a float64 (or big.Rat rounding) cannot hold more than 53 bits
			tol := 1.0 + 1e-3
			s, e := ms(w.Start), ms(w.End)
			if math.Abs(s-g.Start) > tol || math.Abs(e-g.End) > tol || math.Abs(e-s-g.Duration) > 2*tol || math.Abs(g.End-g.Start-g.Duration) > tol {
				return fmt.Sprintf("note %d: want %v, got %+v", i, w, g)
			}
		}
	}
	if len(want) != len(got) {
		return fmt.Sprintf("want %d notes, got %d", len(want), len(got))
	}
	return ""
}

// checkNotes lists the notes of f in every format and compares.
func checkNotes(c *Ctx, f *ref.File, b []byte, steps int, c4, timing bool) bool {
	sut.C4(c4)
	want := f.Notes(steps, c4)
	if !representable(want) {
		c.Observe("skipped (time overflow)", 1)
		return true
	}
	for _, js := range []bool{true, false} {
		smf, err := sut.Decode(b)
		if err != nil {
			c.Fail(fmt.Sprintf("well formed file rejected: %v", err), "midi", b)
			return false
		}
		c.Eval()
		out, err := sut.Notes(smf, steps, js)
		if err != nil {
			c.Fail(fmt.Sprintf("notes failed: %v", err), "midi", b)
			return false
		}
		parse := parseNotesText
		if js {
			parse = parseNotesJSON
		}
		got, err := parse(out)
		if err != nil {
			c.Fail(fmt.Sprintf("unreadable note list: %v", err), "midi", b, "notes", out)
			return false
		}
		if d := diffNotes(want, got, timing); d != "" {
			c.Fail(fmt.Sprintf("notes (json:%v transpose:%d C4:%v): %s", js, steps, c4, d), "midi", b, "notes", out)
			return false
		}
	}
	c.Observe("notes", len(want))
	for _, n := range want {
		c.Cover(fmt.Sprintf("%d:%d:%d", n.Channel, n.Note, bucket(int(math.Min(ms(n.End)-ms(n.Start), 1e9)))))
	}
	return true
}

// notesCLI compares the output of the program
func notesCLI(c *Ctx, f *ref.File, b []byte, steps int, c4 bool) {
	want := f.Notes(steps, c4)
	if !representable(want) {
		return
	}
	in := filepath.Join(c.Scratch, "in.mid")
	os.WriteFile(in, b, 0600)
	for _, js := range []bool{true, false} {
		for _, file := range []bool{true, false} {
			out := filepath.Join(c.Scratch, "notes.out")
			os.Remove(out)
			args := []string{"notes", "--transpose", fmt.Sprint(steps)}
			if js {
				args = append(args, "--json")
			}
			if c4 {
				args = append(args, "--C4")
			}
			if file {
				args = append(args, "--out", out)
			}
			stdout, stderr, exit := run(c.Scratch, append(args, "in.mid")...)
			c.Eval()
			if exit != 0 {
				c.Fail(fmt.Sprintf("midiasm %v: exit %d\n%s%s", args, exit, clip(string(stdout)), clip(string(stderr))), "midi", b)
				return
			}
			if file {
				stdout, _ = os.ReadFile(out)
			}
			parse := parseNotesText
			if js {
				parse = parseNotesJSON
			}
			got, err := parse(stdout)
			if err != nil {
				c.Fail(fmt.Sprintf("midiasm %v: unreadable note list: %v", args, err), "midi", b, "notes", stdout)
				return
			}
			if d := diffNotes(want, got, true); d != "" {
				c.Fail(fmt.Sprintf("midiasm %v: %s", args, d), "midi", b, "notes", stdout)
				return
			}
		}
	}
	c.Cover(fmt.Sprintf("cli %d %v", steps, c4))
}

var notesOpt = gen.Opt{Format: -1, Division: true, TrackTempos: true, NonEmpty: true, NotesHeavy: true, MaxTracks: 6, MaxTextLen: 100}

func on(delta uint32, ch, note, vel byte) ref.Ev {
	return ref.Ev{Delta: delta, Status: 0x90 | ch, Data: []byte{note, vel}}
}
func off(delta uint32, ch, note, vel byte) ref.Ev {
	return ref.Ev{Delta: delta, Status: 0x80 | ch, Data: []byte{note, vel}}
}
func tempo(delta uint32, us int) ref.Ev {
	return ref.Ev{Delta: delta, Status: 0xff, Type: 0x51, Data: []byte{byte(us >> 16), byte(us >> 8), byte(us)}}
}

// noteFiles are systematic note on/off patterns
func noteFiles() []gen.Named {
	list := []gen.Named{}
	add := func(name string, format uint16, tracks ...[]ref.Ev) {
		list = append(list, gen.Named{Name: name, File: &ref.File{Format: format, Division: 96, Tracks: tracks}})
	}
	t0 := []ref.Ev{tempo(0, 500000), gen.EOT(0)}
	// every channel and note, ended in every way
	for how := 0; how < 4; how++ {
		for c := byte(0); c < 16; c++ {
			evs := []ref.Ev{}
			for n := 0; n < 128; n++ {
				evs = append(evs, on(uint32(n%3), c, byte(n), byte(1+(n*7+int(c))%127)))
				if how == 3 { // nested inside of the next
					continue
				}
				switch how {
				case 0:
					evs = append(evs, off(48, c, byte(n), 0))
				case 1:
					evs = append(evs, on(48, c, byte(n), 0))
				case 2: // not ended until the end of track
				}
			}
			if how == 3 {
				for n := 127; n >= 0; n-- {
					evs = append(evs, off(uint32(n%5), c, byte(n), byte(n)))
				}
			}
			evs = append(evs, gen.EOT(uint32(c)))
			add(fmt.Sprintf("all notes, channel %d, ended %d", c, how), 1, t0, evs)
			add(fmt.Sprintf("all notes, channel %d, ended %d, FORMAT 0", c, how), 0, evs)
		}
	}
	// all channels at once
	evs := []ref.Ev{}
	for n := 0; n < 128; n++ {
		for c := byte(0); c < 16; c++ {
			evs = append(evs, on(0, c, byte(n), c+1))
		}
	}
	for n := 0; n < 128; n++ {
		for c := byte(0); c < 8; c++ {
			evs = append(evs, off(1, 15-c, byte(n), c+1))
		}
	}
	add("all notes on all channels", 1, t0, append(evs, gen.EOT(9)))
	// restart on the same tick, many times, with tempo changes on every beat
	for _, n := range []int{5, 11, 13, 40, 400} {
		beats := []ref.Ev{tempo(0, 500000)}
		evs := []ref.Ev{on(0, 0, 60, 64), on(0, 1, 60, 65), on(0, 0, 62, 66)}
		for i := 0; i < n; i++ {
			beats = append(beats, tempo(96, 500000+i*1001))
			evs = append(evs, off(96, 0, 60, 0), on(0, 0, 60, byte(i%127+1)), on(0, 1, 60, 0), on(0, 1, 60, byte(i%127+1)), off(0, 0, 62, 1), on(0, 0, 62, byte((i+5)%127+1)))
		}
		add(fmt.Sprintf("%d notes restarted on the tick they end, tempo changes", n), 1, append(beats, gen.EOT(0)), append(evs, gen.EOT(96)))
		add(fmt.Sprintf("%d notes restarted on the tick they end, many tracks", n), 1, append(beats, gen.EOT(0)), append(evs, gen.EOT(96)), append(evs, gen.EOT(0)), append(evs, gen.EOT(1)))
	}
	// double note on, unmatched note off, velocity 0 first, notes after the end of track
	add("unmatched", 1, t0, []ref.Ev{off(0, 0, 60, 1), on(0, 0, 60, 0), on(10, 0, 60, 1), on(10, 0, 60, 2), off(10, 1, 60, 3), off(10, 0, 61, 3), off(10, 0, 60, 3), off(10, 0, 60, 3), on(1, 0, 60, 9), gen.EOT(5), off(1, 0, 60, 1), on(1, 0, 60, 9), gen.EOT(5), on(1, 0, 60, 9)})
	add("no end of track", 1, t0, []ref.Ev{on(0, 0, 60, 1), off(10, 0, 60, 2), on(0, 0, 60, 1)})
	add("empty", 1, t0, []ref.Ev{})
	add("tempo track only", 1, t0)
	add("zero length", 1, t0, []ref.Ev{on(0, 0, 60, 1), off(0, 0, 60, 2), on(0, 0, 60, 3), on(0, 0, 60, 0), gen.EOT(0)})
	// notes that sound at the end of the track
	evs = []ref.Ev{}
	for n := 127; n >= 0; n-- {
		evs = append(evs, on(1, byte(n*5)%16, byte(n*37%128), byte(n%127+1)))
	}
	add("pending at the end of track", 1, t0, append(evs, gen.EOT(100)))
	// key signatures
	evs = []ref.Ev{}
	for a := -7; a <= 7; a++ {
		evs = append(evs, ref.Ev{Delta: 1, Status: 0xff, Type: 0x59, Data: []byte{byte(int8(a)), 0}})
		for n := 58; n < 72; n++ {
			evs = append(evs, on(1, 3, byte(n), 3), off(1, 3, byte(n), 3))
		}
		evs = append(evs, on(1, 3, 61, 3), ref.Ev{Delta: 1, Status: 0xff, Type: 0x59, Data: []byte{byte(int8(-a)), 1}}, off(1, 3, 61, 3))
	}
	add("key signatures", 1, t0, append(evs, gen.EOT(0)))
	add("key signatures, two tracks", 1, append([]ref.Ev{tempo(0, 400000)}, evs[:1]...), append(evs, gen.EOT(0)), []ref.Ev{on(0, 0, 61, 4), off(9, 0, 61, 4)})
	return list
}

// tempoFile: a tempo map with many changes and notes that cross them
func tempoFile(r *rand.Rand, n int) *ref.File {
	f := &ref.File{Format: uint16(r.Intn(2)), Division: gen.Divisions[r.Intn(len(gen.Divisions))]}
	if r.Intn(3) == 0 {
		f.Division = uint16(1 + r.Intn(32767))
	}
	d := func() uint32 {
		switch r.Intn(8) {
		case 0:
			return 0
		case 1:
			return 1
		case 2:
			return uint32(r.Intn(1 << 20))
		default:
			return uint32(r.Intn(2 * int(f.Division)))
		}
	}
	ev := func() ref.Ev {
		e := gen.TempoEv(r)
		e.Delta = d()
		return e
	}
	t0, t1 := []ref.Ev{}, []ref.Ev{}
	if r.Intn(2) == 0 {
		t0 = append(t0, tempo(0, 500000))
	}
	for i := 0; i < n; i++ {
		t0 = append(t0, ev())
		if r.Intn(4) == 0 {
			t0 = append(t0, ref.Ev{Delta: d(), Status: 0xff, Type: 0x58, Data: []byte{4, 2, 24, 8}})
		}
	}
	held := map[byte]bool{}
	for i := 0; i < 2*n; i++ {
		k := byte(r.Intn(12)) + 50
		if held[k] {
			t1 = append(t1, off(d(), 2, k, 0))
		} else {
			t1 = append(t1, on(d(), 2, k, 1+byte(r.Intn(127))))
		}
		held[k] = !held[k]
	}
	t1 = append(t1, gen.EOT(d()))
	if f.Format == 0 {
		mixed := []ref.Ev{}
		for len(t0) > 0 || len(t1) > 0 {
			if len(t1) == 0 || len(t0) > 0 && r.Intn(3) == 0 {
				mixed, t0 = append(mixed, t0[0]), t0[1:]
			} else {
				mixed, t1 = append(mixed, t1[0]), t1[1:]
			}
		}
		f.Tracks = [][]ref.Ev{mixed}
	} else {
		f.Tracks = [][]ref.Ev{append(t0, gen.EOT(0)), t1}
	}
	return f
}

var steps = []int{0, 1, -1, 5, -7, 12, -12, 24, 60, -60, 127, -127, 128, -128, 200, -200, 256, -256, 1000, -1000, 1 << 30, -(1 << 30), math.MaxInt64, math.MinInt64, math.MaxInt64 - 60}

func noteCases(tier string, seed int64) []Case {
	list := []Case{}
	for i, s := range noteFiles() {
		i, s := i, s
		list = append(list, Case{"notes: " + s.Name, func(c *Ctx) {
			b := s.File.Encode()
			for k, st := range []int{0, steps[i%len(steps)], i%131 - 65} {
				if !checkNotes(c, s.File, b, st, (i+k)%2 == 1, true) {
					return
				}
			}
			if i%8 == 0 {
				notesCLI(c, s.File, b, steps[i%len(steps)], i%16 == 0)
			}
			sample(c, s.Name, b)
		}})
	}
	n := 1500
	if tier == "thorough" {
		n = 8000
	}
	for k := 0; k < n; k++ {
		k := k
		list = append(list, Case{fmt.Sprintf("notes: random files %d", k), func(c *Ctx) {
			r := rng(c.Seed, "C10", k)
			for i := 0; i < 25 && !c.Failed(); i++ {
				o := notesOpt
				o.SmallDeltas = r.Intn(3) > 0
				if r.Intn(4) == 0 {
					o.MaxEvents = 400
				}
				f := gen.Random(r, o)
				b := f.Encode()
				if !checkNotes(c, f, b, steps[r.Intn(len(steps))], r.Intn(2) == 0, true) {
					return
				}
				if i == 0 && k%20 == 0 {
					notesCLI(c, f, b, r.Intn(40)-20, r.Intn(2) == 0)
				}
			}
		}})
	}
	list = append(list, Case{"notes: no metrical time base", func(c *Ctx) {
		for _, d := range []uint16{0, 0xe804, 0xe250, 0xe728, 0xe350} {
			f := &ref.File{Format: 1, Division: d, Tracks: [][]ref.Ev{{gen.EOT(0)}, {on(0, 0, 60, 1), off(96, 0, 60, 1), gen.EOT(0)}}}
			smf, err := sut.Decode(f.Encode())
			if err != nil {
				continue
			}
			c.Eval()
			if out, err := sut.Notes(smf, 0, false); err == nil {
				c.Fail(fmt.Sprintf("division %04X: notes listed with invented times", d), "midi", f.Encode(), "notes", out)
			}
		}
		c.Cover("no metrical time")
	}})
	return list
}

// beyond: tempo changes and notes at ticks on both sides of multiples of 2^32
func beyond(format uint16, m int) *ref.File {
	f := &ref.File{Format: format, Division: 32767}
	t0, t1 := []ref.Ev{tempo(0, 100)}, []ref.Ev{}
	for i := 0; i < m; i++ {
		d := uint32(0xfffffff)
		if i%3 == 1 {
			d -= uint32(i * 7)
		}
		if format == 0 {
			t0 = append(t0, tempo(d/2, 90+i), on(d/4, 0, 60, 1), tempo(d/8, 120-i), off(d/8, 0, 60, 1))
		} else {
			t0 = append(t0, tempo(d, 90+i))
			t1 = append(t1, on(d-uint32(i), 0, 60, 1), off(uint32(i), 0, 60, 1))
		}
	}
	f.Tracks = [][]ref.Ev{append(t0, gen.EOT(0))}
	if format == 1 {
		f.Tracks = append(f.Tracks, append(t1, gen.EOT(0)))
	}
	return f
}

func timingCases(tier string, seed int64) []Case {
	list := []Case{}
	n := 600
	if tier == "thorough" {
		n = 6000
	}
	for k := 0; k < n; k++ {
		k := k
		list = append(list, Case{fmt.Sprintf("tempo maps %d", k), func(c *Ctx) {
			r := rng(c.Seed, "C11", k)
			for i := 0; i < 20 && !c.Failed(); i++ {
				m := 1 + r.Intn(12)
				if r.Intn(6) == 0 {
					m = 1 + r.Intn(300)
				}
				f := tempoFile(r, m)
				b := f.Encode()
				checkNotes(c, f, b, 0, false, true)
				if i == 0 {
					sample(c, "tempo map", b)
				}
			}
		}})
	}
	// one note across one tempo change, for all divisions and boundary tempos
	tempi := []int{1, 2, 255, 256, 999, 1000, 65535, 65536, 250000, 333333, 500000, 545454, 1000000, 8388607, 8388608, 16777215, 0}
	for _, div := range append([]uint16{3, 7, 1023, 1024, 9999, 16384}, gen.Divisions...) {
		div := div
		list = append(list, Case{fmt.Sprintf("division %d: tempo pairs", div), func(c *Ctx) {
			for _, a := range tempi {
				for _, b := range tempi {
					for _, x := range []uint32{0, 1, uint32(div) / 2, uint32(div), uint32(div)*3 + 1, 100000} {
						for _, same := range []bool{false, true} {
							d := uint32(div)
							one := []ref.Ev{on(d, 0, 60, 64), off(2*d, 0, 60, 64), on(0, 0, 61, 64), off(d, 0, 61, 64), gen.EOT(0)}
							f := &ref.File{Format: 1, Division: div, Tracks: [][]ref.Ev{{tempo(0, a), tempo(x, b), tempo(x, a), gen.EOT(0)}, one}}
							if same {
								f.Format = 0
								f.Tracks = [][]ref.Ev{{tempo(0, a), on(d, 0, 60, 64), tempo(x, b), off(2*d, 0, 60, 64), on(1, 0, 61, 64), tempo(0, a), off(d, 0, 61, 64), gen.EOT(0)}}
							}
							if !checkNotes(c, f, f.Encode(), 0, false, true) {
								return
							}
						}
					}
				}
			}
		}})
	}
	// long files: accumulated error
	for _, m := range []int{1000, 10000, 60000} {
		for _, div := range []uint16{96, 480, 1023, 7} {
			m, div := m, div
			list = append(list, Case{fmt.Sprintf("accumulation: %d notes at division %d", m, div), func(c *Ctx) {
				evs := []ref.Ev{}
				for i := 0; i < m; i++ {
					evs = append(evs, on(1, 0, 60, 64), off(1, 0, 60, 64))
				}
				f := &ref.File{Format: 1, Division: div, Tracks: [][]ref.Ev{{tempo(0, 500001), gen.EOT(0)}, append(evs, gen.EOT(0))}}
				checkNotes(c, f, f.Encode(), 0, false, true)
			}})
		}
	}
	// very many tempo changes
	for _, m := range []int{255, 256, 4095, 5000, 32768, 70000} {
		for format := uint16(0); format < 2; format++ {
			m, format := m, format
			list = append(list, Case{fmt.Sprintf("%d tempo changes, format %d", m, format), func(c *Ctx) {
				t0, t1, p, q := []ref.Ev{}, []ref.Ev{}, uint32(0), uint32(0)
				for i := 0; i < m; i++ {
					d := uint32(i % 3)
					t0 = append(t0, tempo(d, 400000+(i*7919)%300000))
					p += d
					if i%(m/50) == 0 || i > m-5 {
						n := byte(i % 128)
						if format == 0 {
							t0 = append(t0, on(0, 0, n, 64), off(1, 0, n, 64))
						} else if p >= q {
							t1 = append(t1, on(p-q, 0, n, 64), off(1, 0, n, 64))
							q = p + 1
						}
					}
				}
				f := &ref.File{Format: format, Division: 97, Tracks: [][]ref.Ev{append(t0, gen.EOT(0))}}
				if format == 1 {
					f.Tracks = append(f.Tracks, append(t1, gen.EOT(0)))
				}
				checkNotes(c, f, f.Encode(), 0, false, true)
			}})
		}
	}
	list = append(list, Case{"accumulation: notes after 2 million events", func(c *Ctx) {
		data, evs := []byte{7, 1}, make([]ref.Ev, 0, 2200000)
		for i := 0; i < 2100000; i++ {
			evs = append(evs, ref.Ev{Delta: 1, Status: 0xb0, Data: data, RS: true})
		}
		evs = append(evs, on(1, 0, 60, 64), off(7, 0, 60, 64), gen.EOT(0))
		f := &ref.File{Format: 1, Division: 7, Tracks: [][]ref.Ev{{tempo(0, 500004), gen.EOT(0)}, evs}}
		checkNotes(c, f, f.Encode(), 0, false, true)
	}})
	list = append(list, Case{"accumulation: notes after 2 million tempo changes", func(c *Ctx) {
		evs := make([]ref.Ev, 0, 2200000)
		e := [2]ref.Ev{tempo(1, 600001), tempo(1, 500009)}
		for i := 0; i < 2100000; i++ {
			evs = append(evs, e[i%2])
		}
		evs = append(evs, on(1, 0, 60, 64), off(7, 0, 60, 64), gen.EOT(0))
		f := &ref.File{Format: 0, Division: 96, Tracks: [][]ref.Ev{evs}}
		checkNotes(c, f, f.Encode(), 0, false, true)
	}})
	// default tempo; late tempo; tempo exactly on the note; ticks beyond 32 bits
	for i, f := range []*ref.File{
		{Format: 1, Division: 480, Tracks: [][]ref.Ev{{gen.EOT(0)}, {on(480, 0, 60, 1), off(480, 0, 60, 1), gen.EOT(0)}}},
		{Format: 1, Division: 480, Tracks: [][]ref.Ev{{tempo(240, 1000000), gen.EOT(0)}, {on(480, 0, 60, 1), off(480, 0, 60, 1), gen.EOT(0)}}},
		{Format: 1, Division: 480, Tracks: [][]ref.Ev{{tempo(480, 1000000), tempo(0, 250000), gen.EOT(0)}, {on(480, 0, 60, 1), off(480, 0, 60, 1), gen.EOT(0)}}},
		{Format: 0, Division: 480, Tracks: [][]ref.Ev{{on(480, 0, 60, 1), tempo(0, 1000000), tempo(1, 100000), off(479, 0, 60, 1), gen.EOT(0)}}},
		{Format: 1, Division: 32767, Tracks: [][]ref.Ev{{tempo(0, 100), gen.EOT(0)}, {on(0xfffffff, 0, 60, 1), off(0xfffffff, 0, 60, 1), on(0xfffffff, 0, 60, 1), off(0xfffffff, 0, 60, 1), on(0xfffffff, 0, 60, 1), off(0xfffffff, 0, 60, 1), on(0xfffffff, 0, 60, 1), off(0xfffffff, 0, 60, 1), on(0xfffffff, 0, 60, 1), off(0xfffffff, 0, 60, 1), on(0xfffffff, 0, 60, 1), off(0xfffffff, 0, 60, 1), on(0xfffffff, 0, 60, 1), off(0xfffffff, 0, 60, 1), on(0xfffffff, 0, 60, 1), off(0xfffffff, 0, 60, 1), on(0xfffffff, 0, 60, 1), off(0xfffffff, 0, 60, 1), gen.EOT(0)}}},
		{Format: 1, Division: 1, Tracks: [][]ref.Ev{{tempo(0, 0xffffff), gen.EOT(0)}, {on(0, 0, 60, 1), off(0xfffffff, 0, 60, 1), gen.EOT(0)}}},
		beyond(0, 17), beyond(1, 17), beyond(0, 35), beyond(1, 35), beyond(1, 70),
	} {
		i, f := i, f
		list = append(list, Case{fmt.Sprintf("timing corner case %d", i), func(c *Ctx) {
			checkNotes(c, f, f.Encode(), 0, false, true)
			notesCLI(c, f, f.Encode(), 0, false)
		}})
	}
	return list
}

// --- transpose

func checkTranspose(c *Ctx, f *ref.File, b []byte, n int) bool {
	c.Eval()
	smf, err := sut.Decode(b)
	if err != nil {
		c.Fail(fmt.Sprintf("well formed file rejected: %v", err), "midi", b)
		return false
	}
	out, err := sut.Transpose(smf, n)
	if err != nil {
		c.Fail(fmt.Sprintf("cannot transpose by %d: %v", n, err), "midi", b)
		return false
	}
	g, err := ref.Decode(out)
	if err != nil {
		c.Fail(fmt.Sprintf("transposed (%d) file is malformed: %v", n, err), "midi", b, "transposed", out)
		return false
	}
	if d := ref.DiffTransposed(f, g, n); d != "" {
		c.Fail("transpose: "+d, "midi", b, "transposed", out)
		return false
	}
	return true
}

func transposeCases(tier string, seed int64) []Case {
	o := gen.Opt{Format: -1, MaxTracks: 8}
	// all notes in all keys x every step
	all := []ref.Ev{}
	for a := -7; a <= 7; a++ {
		for m := byte(0); m < 2; m++ {
			all = append(all, ref.Ev{Status: 0xff, Type: 0x59, Data: []byte{byte(int8(a)), m}})
			for n := 0; n < 128; n++ {
				all = append(all, on(1, byte(n)%16, byte(n), byte(n)), off(0, byte(n)%16, byte(n), 127-byte(n)))
			}
		}
	}
	for n := 0; n < 128; n++ {
		all = append(all, on(0, 5, byte(n), 64))
	}
	for n := 0; n < 128; n++ {
		all = append(all, off(0, 5, byte(n), 64))
	}
	list := []Case{}
	for k := -140; k <= 140; k++ {
		k := k
		list = append(list, Case{fmt.Sprintf("all keys and notes transposed by %d", k), func(c *Ctx) {
			f := gen.Wrap1(all...)
			checkTranspose(c, f, f.Encode(), k)
			c.Cover(fmt.Sprintf("step %d", k))
		}})
	}
	for _, k := range []int{255, 256, 257, -255, -256, -257, 1000, -1000, 1201, 32767, 32768, -32768, 65536, 1 << 20, -(1 << 20), 1 << 30, -(1 << 30), math.MaxInt32, math.MinInt32, math.MaxInt64, math.MinInt64, math.MaxInt64 - 60, math.MaxInt64 - 127, math.MinInt64 + 1, 1 << 62, -(1 << 62)} {
		k := k
		list = append(list, Case{fmt.Sprintf("all keys and notes transposed by %d", k), func(c *Ctx) {
			f := gen.Wrap1(all...)
			checkTranspose(c, f, f.Encode(), k)
			c.Cover(fmt.Sprintf("step %d", k))
		}})
	}
	list = append(list, fileCases("C08", o, tier, seed, 30000, 150000, func(c *Ctx, name string, f *ref.File) {
		b := f.Encode()
		r := rng(c.Seed, "C08s", len(b))
		for _, n := range []int{steps[r.Intn(len(steps))], r.Intn(25) - 12, r.Intn(300) - 150} {
			if !checkTranspose(c, f, b, n) {
				return
			}
		}
		observe(c, f)
		sample(c, name, b)
	})...)
	// sequences of transpositions (histories): a then b is a+b while nothing is clamped
	n := 200
	if tier == "thorough" {
		n = 1500
	}
	for k := 0; k < n; k++ {
		k := k
		list = append(list, Case{fmt.Sprintf("transposition sequences %d", k), func(c *Ctx) {
			r := rng(c.Seed, "C08h", k)
			for i := 0; i < 10 && !c.Failed(); i++ {
				f := gen.Random(r, o)
				lo, hi := 127, 0
				for _, t := range f.Tracks {
					for _, e := range t {
						if e.IsChannel() && e.Status < 0xa0 {
							e.Data[0] = 40 + e.Data[0]%40
							if int(e.Data[0]) < lo {
								lo = int(e.Data[0])
							}
							if int(e.Data[0]) > hi {
								hi = int(e.Data[0])
							}
						}
					}
				}
				b := f.Encode()
				cur := b
				sum := 0
				for j := 0; j < 6; j++ {
					s := r.Intn(81) - 40
					if sum+s < -lo || sum+s > 127-hi {
						s = -sum
					}
					smf, err := sut.Decode(cur)
					if err != nil {
						c.Fail(fmt.Sprintf("transposed file rejected: %v", err), "midi", b, "transposed", cur)
						return
					}
					if cur, err = sut.Transpose(smf, s); err != nil {
						c.Fail(fmt.Sprintf("cannot transpose by %d: %v", s, err), "midi", b)
						return
					}
					sum += s
					c.Eval()
					g, err := ref.Decode(cur)
					if err != nil {
						c.Fail(fmt.Sprintf("transposed file is malformed: %v", err), "midi", b, "transposed", cur)
						return
					}
					if d := ref.DiffTransposed(f, g, sum); d != "" {
						c.Fail(fmt.Sprintf("after %d transpositions: %s", j+1, d), "midi", b, "transposed", cur)
						return
					}
				}
			}
			c.Cover(fmt.Sprintf("history %d", k))
		}})
	}
	// the program
	for k := 0; k < 24; k++ {
		k := k
		list = append(list, Case{fmt.Sprintf("midiasm transpose %d", k), func(c *Ctx) {
			r := rng(c.Seed, "C08c", k)
			f := gen.Random(r, o)
			if k < 4 {
				f = gen.Wrap1(all...)
			}
			b := f.Encode()
			os.WriteFile(filepath.Join(c.Scratch, "in.mid"), b, 0600)
			out := filepath.Join(c.Scratch, "out.mid")
			for _, s := range []int{0, 1, -1, 7, -12, 130, -130, r.Intn(100) - 50} {
				os.Remove(out)
				c.Eval()
				arg := fmt.Sprint(s)
				if s > 0 && k%2 == 0 {
					arg = "+" + arg
				}
				stdout, _, exit := run(c.Scratch, "transpose", "--semitones", arg, "--out", "out.mid", "in.mid")
				if exit != 0 {
					c.Fail(fmt.Sprintf("midiasm transpose --semitones %s: exit %d %s", arg, exit, clip(string(stdout))), "midi", b)
					return
				}
				x, _ := os.ReadFile(out)
				g, err := ref.Decode(x)
				if err != nil {
					c.Fail(fmt.Sprintf("transposed file is malformed: %v", err), "midi", b, "transposed", x)
					return
				}
				if d := ref.DiffTransposed(f, g, s); d != "" {
					c.Fail("midiasm transpose: "+d, "midi", b, "transposed", x)
					return
				}
			}
			c.Cover(fmt.Sprintf("cli %d", k))
		}})
	}
	return list
}

func init() {
	register(&Check{ID: "C08", Level: "exploration",
		Rule:  "all 128 notes in all 30 keys x every step from -140 to 140 and extreme steps; " + ruleFiles + "; random transposition histories; the real program",
		Cases: transposeCases})
	register(&Check{ID: "C10", Level: "exploration",
		Rule:        "systematic note on/off patterns (every channel x note x way of ending, restarts on the same tick, overlaps, unmatched events, pending at end of track) plus note-heavy random files, in JSON and text, with transpositions and both middle C conventions; distinct = (channel, note, duration bucket)",
		Assumptions: []string{"tempo events in the first track only, metrical time"},
		Cases:       noteCases})
	register(&Check{ID: "C11", Level: "exploration",
		Rule:        "random tempo maps, all pairs of boundary tempos x divisions x change positions, long files; every start, end and duration compared with exact rational arithmetic; distinct = (channel, note, duration bucket)",
		Assumptions: []string{"tempo events in the first track only, metrical time, times below 2^63 ns"},
		Cases:       timingCases})
}
