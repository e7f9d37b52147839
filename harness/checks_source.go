package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"midiverif/gen"
	"midiverif/ref"
	"midiverif/sut"
)

// sourceOpt: what a text or JSON source can express
func sourceOpt() gen.Opt {
	return gen.Opt{Format: -1, MaxTracks: 8, TextSafe: true, UTF8: true, KnownManuf: true, SysExClosed: true, MaxTextLen: 200}
}

// item is an event with the line that was listed for it
type item struct {
	ev   ref.Ev
	view ref.View
}

// groups splits a track into items that have to stay together (the packets of a SysEx message)
func groups(t []ref.Ev, c4 bool) [][]item {
	list := [][]item{}
	for _, v := range ref.Views(t, c4) {
		if v.Tag == "SysExContinuation" && len(list) > 0 {
			list[len(list)-1] = append(list[len(list)-1], item{v.Ev, v})
		} else {
			list = append(list, []item{{v.Ev, v}})
		}
	}
	return list
}

// style of a hand written source
type style struct {
	hex, tick, code bool
	crlf, noEOL     bool
	comments        bool
	jitter          bool
	bogus           bool // lengths and counts that are not up to date
	stale           bool // bytes, ticks and status that are not up to date
}

func spaces(r *rand.Rand, s style) string {
	if !s.jitter {
		return " "
	}
	switch r.Intn(4) {
	case 0:
		return strings.Repeat(" ", 1+r.Intn(8))
	case 1:
		return "\t"
	}
	return " "
}

func comment(r *rand.Rand) string {
	return []string{"", "   ", "\t", "%%", "%% comment", "%% MTrk 7 length:3", "%%  MThd length:6, format:1, tracks:2, metrical time:480 ppqn",
		"%% tick:0 delta:480 90 NoteOn channel:0 note:C4, velocity:64", "%% 2F EndOfTrack", "%%%%", "%%日本語"}[r.Intn(11)]
}

func sourceLine(r *rand.Rand, it item, s style) string {
	v := it.view
	var b strings.Builder
	sp := func() string { return spaces(r, s) }
	if s.hex {
		raw := v.Ev.Raw
		if s.stale {
			raw = make([]byte, 1+r.Intn(12))
			r.Read(raw)
		}
		b.WriteString(ref.Hex(raw))
		b.WriteString(sp())
	} else if r.Intn(2) == 0 {
		b.WriteString(sp())
	}
	if s.tick {
		tick := v.Tick
		if s.stale {
			tick = uint64(r.Intn(1000000))
		}
		fmt.Fprintf(&b, "tick:%d%s", tick, sp())
	}
	zeros := ""
	if s.stale { // numbers are decimal, with or without leading zeros
		zeros = strings.Repeat("0", r.Intn(3))
	}
	fmt.Fprintf(&b, "delta:%s%d%s", zeros, it.ev.Delta, sp())
	if s.code {
		code := v.Ev.Status
		if code == 0xff {
			code = v.Ev.Type
		}
		if s.stale {
			code = byte(r.Intn(256))
		}
		fmt.Fprintf(&b, "%02X%s", code, sp())
	}
	b.WriteString(v.Tag)
	if v.Tag == "EndOfTrack" {
		return b.String()
	}
	b.WriteString(sp())
	if v.Ev.IsChannel() {
		rest := strings.SplitN(v.Details, " ", 2)
		fmt.Fprintf(&b, "%s%s%s", strings.Replace(rest[0], "channel:", "channel:"+zeros, 1), sp(), strings.TrimLeft(rest[1], " "))
	} else {
		b.WriteString(v.Details)
	}
	return b.String()
}

func textSource(r *rand.Rand, format, division uint16, tracks [][]item, s style) string {
	var b strings.Builder
	eol := "\n"
	if s.crlf {
		eol = "\r\n"
	}
	noise := func() {
		for s.comments && r.Intn(3) == 0 {
			b.WriteString(comment(r) + eol)
		}
	}
	noise()
	if s.comments && r.Intn(2) == 0 {
		b.WriteString("a source written by hand" + eol)
	}
	n, length := len(tracks), 6
	if s.bogus {
		n, length = r.Intn(100), r.Intn(1000)
	}
	if s.hex {
		b.WriteString("4D 54 68 64 00 00 00 06 00 01 00 02 01 E0   ")
	}
	f := ref.File{Format: format, Division: division}
	fmt.Fprintf(&b, "MThd length:%d, format:%d, tracks:%d, %s%s", length, format, n, strings.Replace(f.DivisionText(), "metrical time:", []string{"metrical time:", "metrical time:", "metrical-time:", "metricaltime:"}[r.Intn(4)], 1), eol)
	for i, t := range tracks {
		noise()
		l := 0
		if s.bogus {
			i, l = r.Intn(50), r.Intn(100000)
		}
		if s.hex {
			b.WriteString("4D 54 72 6B 00 00 00 21…  ")
		}
		fmt.Fprintf(&b, "MTrk %d length:%d%s", i, l, eol)
		for _, it := range t {
			noise()
			b.WriteString(sourceLine(r, it, s) + eol)
		}
	}
	noise()
	src := b.String()
	if s.noEOL {
		src = strings.TrimSuffix(src, eol)
	}
	return src
}

func randomStyle(r *rand.Rand) style {
	b := func() bool { return r.Intn(2) == 0 }
	return style{b(), b(), b(), r.Intn(3) == 0, r.Intn(4) == 0, b(), b(), b(), r.Intn(3) == 0}
}

// derived values may be left out of a JSON source or be out of date
var derived = map[string]bool{"status": true, "type": true, "alias": true, "region": true, "name": true, "track-number": true, "Length": true, "Tracks": true, "SubFrames": true, "FPS": true, "DropFrame": true, "key": true, "bank": true}

// outdated is a value of the same type that has nothing to do with the event
func outdated(r *rand.Rand, k string, v any) any {
	switch v.(type) {
	case float64:
		if k == "status" && r.Intn(2) == 0 { // of the same or another kind of event, on another channel
			return float64(byte(v.(float64))&0xf0 | byte(r.Intn(16)))
		}
		return float64(r.Intn(256))
	case string:
		return []string{"C4", "D♭-1", "B♯9", "Bank Select (MSB)", "Roland", "Japanese", "NoteOn", "C major", "A minor", "", "x"}[r.Intn(11)]
	case bool:
		return r.Intn(2) == 0
	}
	return v
}

func writeJSON(r *rand.Rand, b *bytes.Buffer, v any, top bool, text bool) {
	ws := func() {
		if r.Intn(6) == 0 {
			b.WriteString([]string{" ", "\n", "\t", "\r\n  "}[r.Intn(4)])
		}
	}
	switch x := v.(type) {
	case map[string]any:
		keys := []string{}
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		r.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
		b.WriteString("{")
		first := true
		put := func(k string, val any, raw string) {
			if !first {
				b.WriteString(",")
			}
			first = false
			ws()
			fmt.Fprintf(b, "%q", k)
			ws()
			b.WriteString(":")
			ws()
			if raw != "" {
				b.WriteString(raw)
			} else {
				writeJSON(r, b, val, false, true)
			}
			ws()
		}
		_, textual := x["tag"].(string)
		for _, k := range keys {
			if derived[k] && !(k == "name" && textual) && r.Intn(2) == 0 {
				continue
			}
			if derived[k] && !(k == "name" && textual) && r.Intn(2) == 0 {
				put(k, outdated(r, k, x[k]), "")
			} else {
				put(k, x[k], "")
			}
			if r.Intn(12) == 0 {
				put([]string{"comment", "x-note", "_", "bytes"}[r.Intn(4)], nil, []string{`"by hand"`, `null`, `[1,2,{"tag":"NoteOn"}]`, `{"event":{"tag":"Text"}}`}[r.Intn(4)])
			}
		}
		b.WriteString("}")
	case []any:
		b.WriteString("[")
		for i, e := range x {
			if i > 0 {
				b.WriteString(",")
			}
			ws()
			writeJSON(r, b, e, false, true)
			ws()
		}
		b.WriteString("]")
	case string:
		b.WriteString(`"`)
		for _, c := range x {
			switch {
			case c == '"' || c == '\\':
				b.WriteString(`\` + string(c))
			case c < 0x20 || c < 0x10000 && c != 0xfffd && r.Intn(8) == 0:
				fmt.Fprintf(b, `\u%04x`, c)
			default:
				b.WriteRune(c)
			}
		}
		b.WriteString(`"`)
	case float64:
		fmt.Fprintf(b, "%d", int64(x))
	default:
		s, _ := json.Marshal(v)
		b.Write(s)
	}
}

func jsonSource(r *rand.Rand, format, division uint16, tracks [][]item, c4 bool) string {
	f := ref.File{Format: format, Division: division}
	v := f.JSONValue(c4)
	list := []any{}
	for i, t := range tracks {
		evs := []any{}
		for _, it := range t {
			e := map[string]any{}
			for k, x := range it.view.JSON {
				e[k] = x
			}
			e["delta"] = float64(it.ev.Delta)
			evs = append(evs, map[string]any{"event": e})
		}
		list = append(list, map[string]any{"tag": "MTrk", "track-number": float64(i), "events": evs})
	}
	v["tracks"] = list
	var b bytes.Buffer
	writeJSON(r, &b, v, true, false)
	return b.String()
}

// edit rearranges the listed events as an editor would
func edit(r *rand.Rand, tracks [][][]item, n int, cover func(string)) [][][]item {
	for k := 0; k < n; k++ {
		if len(tracks) == 0 {
			tracks = append(tracks, [][]item{})
			continue
		}
		i := r.Intn(len(tracks))
		t := tracks[i]
		if len(t) == 0 {
			continue
		}
		p := r.Intn(len(t))
		switch r.Intn(9) {
		case 0: // delete
			tracks[i] = append(append([][]item{}, t[:p]...), t[p+1:]...)
			cover("delete " + t[p][0].view.Tag)
		case 1: // duplicate
			tracks[i] = append(append(append([][]item{}, t[:p]...), t[p]), t[p:]...)
			cover("duplicate " + t[p][0].view.Tag)
		case 2: // move
			g := t[p]
			u := append(append([][]item{}, t[:p]...), t[p+1:]...)
			q := r.Intn(len(u) + 1)
			tracks[i] = append(append(append([][]item{}, u[:q]...), g), u[q:]...)
			cover("move " + g[0].view.Tag)
		case 3: // copy to another track
			j := r.Intn(len(tracks))
			u := tracks[j]
			q := r.Intn(len(u) + 1)
			tracks[j] = append(append(append([][]item{}, u[:q]...), t[p]), u[q:]...)
			cover("copy " + t[p][0].view.Tag)
		case 4, 5: // change the delta
			g := append([]item{}, t[p]...)
			g[0].ev.Delta = gen.Delta(r, gen.Opt{})
			u := append([][]item{}, t...)
			u[p] = g
			tracks[i] = u
			cover("delta " + g[0].view.Tag)
		case 6: // swap tracks
			j := r.Intn(len(tracks))
			tracks[i], tracks[j] = tracks[j], tracks[i]
			cover("swap tracks")
		case 7: // duplicate or delete a track
			if r.Intn(3) == 0 {
				tracks = append(tracks[:i:i], tracks[i+1:]...)
				cover("delete track")
			} else {
				tracks = append(tracks, tracks[i])
				cover("duplicate track")
			}
		case 8: // cut the track
			tracks[i] = t[:p]
			cover("cut track")
		}
	}
	return tracks
}

func flatten(tracks [][][]item) (flat [][]item, evs [][]ref.Ev) {
	for _, t := range tracks {
		l, m := []item{}, []ref.Ev{}
		for _, g := range t {
			for _, it := range g {
				l = append(l, it)
				m = append(m, it.ev)
			}
		}
		flat, evs = append(flat, l), append(evs, m)
	}
	return
}

func sourceCases(tier string, seed int64) []Case {
	check := func(c *Ctx, r *rand.Rand, f *ref.File, edits int) bool {
		f.Encode()
		c4 := r.Intn(2) == 0
		sut.C4(c4)
		tracks := [][][]item{}
		for _, t := range f.Tracks {
			tracks = append(tracks, groups(t, c4))
		}
		tracks = edit(r, tracks, edits, c.Cover)
		items, evs := flatten(tracks)
		want := &ref.File{Format: f.Format, Division: f.Division, Tracks: evs}
		for k := 0; k < 2; k++ {
			kind, src := "text", ""
			var out []byte
			var err error
			if k == 0 {
				s := randomStyle(r)
				src = textSource(r, f.Format, f.Division, items, s)
				c.Cover(fmt.Sprint(s))
				out, err = sut.AssembleText([]byte(src))
			} else {
				kind = "JSON"
				src = jsonSource(r, f.Format, f.Division, items, c4)
				out, err = sut.AssembleJSON([]byte(src))
			}
			c.Eval()
			if err != nil {
				c.Fail(fmt.Sprintf("%s source rejected: %v", kind, err), "source", src)
				return false
			}
			g, err := ref.Decode(out)
			if err != nil {
				c.Fail(fmt.Sprintf("%s source assembled to a malformed file: %v", kind, err), "source", src, "midi", out)
				return false
			}
			if d := ref.Diff(want, g); d != "" {
				c.Fail(fmt.Sprintf("%s source: %s", kind, d), "source", src, "midi", out)
				return false
			}
			if k == 0 && r.Intn(20) == 0 {
				c.Sample(map[string]any{"source": clip(src)})
			}
			c.Observe(kind+" lines", want.Events())
		}
		return true
	}
	list := []Case{}
	for i, s := range gen.Sweeps(sourceOpt(), tier == "thorough") {
		i, s := i, s
		list = append(list, Case{"sweep: " + s.Name, func(c *Ctx) { check(c, rng(c.Seed, "C22s", i), s.File, 0) }})
	}
	n := 1200
	if tier == "thorough" {
		n = 8000
	}
	for k := 0; k < n; k++ {
		k := k
		list = append(list, Case{fmt.Sprintf("hand written and edited sources %d", k), func(c *Ctx) {
			r := rng(c.Seed, "C22", k)
			for i := 0; i < 30 && !c.Failed(); i++ {
				f := gen.Random(r, sourceOpt())
				check(c, r, f, []int{0, 1, 3, 12, 40}[r.Intn(5)])
				observe(c, f)
			}
		}})
	}
	return list
}

// --- repeated conversion

func stableCases(tier string, seed int64) []Case {
	return fileCases("C23", sourceOpt(), tier, seed, 1500, 40000, func(c *Ctx, name string, f *ref.File) {
		b := f.Encode()
		c4 := len(b)%2 == 0
		sut.C4(c4)
		c.Eval()
		smf, err := sut.Decode(b)
		if err != nil {
			c.Fail(fmt.Sprintf("well formed file rejected: %v", err), "midi", b)
			return
		}
		type conv struct {
			name string
			f    func(*sut.SMF) ([]byte, error)
		}
		text := conv{"text", func(s *sut.SMF) ([]byte, error) {
			t, err := sut.Text(s)
			if err != nil {
				return nil, err
			}
			return sut.AssembleText([]byte(t))
		}}
		js := conv{"JSON", func(s *sut.SMF) ([]byte, error) {
			t, err := sut.JSON(s)
			if err != nil {
				return nil, err
			}
			return sut.AssembleJSON(t)
		}}
		bin := conv{"MIDI", func(s *sut.SMF) ([]byte, error) { return sut.Encode(s) }}
		export, err := sut.JSON(smf)
		if err != nil {
			c.Fail(fmt.Sprintf("export failed: %v", err), "midi", b)
			return
		}
		canonical, err := sut.Encode(smf)
		if err != nil {
			c.Fail(fmt.Sprintf("cannot re-encode: %v", err), "midi", b)
			return
		}
		// every chain of conversions gives the same file, byte for byte
		chains := [][]conv{{text}, {js}, {text, js, text}, {js, bin, text, js}, {bin, bin, js, js}, {text, text, bin, text}}
		if tier == "quick" && f.Events() > 150 {
			chains = chains[:3]
		}
		for _, chain := range chains {
			s, path := smf, ""
			var out []byte
			for _, x := range chain {
				path += ">" + x.name
				if out, err = x.f(s); err != nil {
					c.Fail(fmt.Sprintf("%s: %v", path, err), "midi", b)
					return
				}
				if s, err = sut.Decode(out); err != nil {
					c.Fail(fmt.Sprintf("%s cannot be decoded: %v", path, err), "midi", b, "out", out)
					return
				}
			}
			if !bytes.Equal(out, canonical) {
				c.Fail(fmt.Sprintf("%s gives a different file than re-encoding", path), "midi", b, "out", out, "reencoded", canonical)
				return
			}
			again, err := sut.JSON(s)
			if err != nil || !bytes.Equal(again, export) {
				c.Fail(fmt.Sprintf("%s: the export has changed (%v)", path, err), "midi", b, "before", export, "after", again)
				return
			}
			c.Cover(path)
		}
		t1, _ := sut.Text(smf)
		s2, err := sut.Decode(canonical)
		if err != nil {
			c.Fail(fmt.Sprintf("re-encoded file cannot be decoded: %v", err), "midi", b)
			return
		}
		t2, _ := sut.Text(s2)
		strip := func(t string) string { // without the raw bytes
			l := strings.Split(t, "\n")
			for i := range l {
				if k := strings.Index(l[i], "  tick:"); k >= 0 {
					l[i] = l[i][k:]
				} else {
					l[i] = ""
				}
			}
			return strings.Join(l, "\n")
		}
		if d := diffLines(strip(t1), strip(t2)); d != "" {
			c.Fail("the disassembly has changed after re-encoding: "+d, "midi", b)
			return
		}
		observe(c, f)
		sample(c, name, b)
	})
}

func init() {
	register(&Check{ID: "C22", Level: "exploration",
		Rule:  "random files written as text sources in random hand written styles (with or without hex, tick and code columns, comments, blank lines, CRLF, white space, stale counts) and as JSON sources (key order, derived values left out, extra values, escapes), unedited and after 1..40 line edits (delete, duplicate, move, copy, change delta, swap, duplicate and cut tracks); distinct = styles, (edit, event kind) and event adjacency observations",
		Cases: sourceCases})
	register(&Check{ID: "C23", Level: "exploration",
		Rule:  ruleFiles + "; each converted through 6 chains of text, JSON and binary conversions and compared byte for byte",
		Cases: stableCases})
}
