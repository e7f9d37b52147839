package ref

import (
	"fmt"
	"strings"
	"unicode/utf8"
)

// View is what midiasm is expected to show for an event.
type View struct {
	Ev      Ev
	Tick    uint64
	Tag     string
	Details string         // disassembly text after the tag
	JSON    map[string]any // exported event
	Channel string         // TSV columns
	Note    string
	Vel     string
	TSV     string
}

var sharps = []string{"C", "C♯", "D", "D♯", "E", "F", "F♯", "G", "G♯", "A", "A♯", "B"}
var flats = []string{"C", "D♭", "D", "E♭", "E", "F", "G♭", "G", "A♭", "A", "B♭", "B"}

// NoteName: default convention has note 60 as C4, with c4 it is one octave lower.
func NoteName(n byte, useFlats, c4 bool) string {
	octave := int(n)/12 - 1
	if c4 {
		octave--
	}
	if useFlats {
		return fmt.Sprintf("%s%d", flats[n%12], octave)
	}
	return fmt.Sprintf("%s%d", sharps[n%12], octave)
}

var majorKeys = []string{"C♭", "G♭", "D♭", "A♭", "E♭", "B♭", "F", "C", "G", "D", "A", "E", "B", "F♯", "C♯"}
var minorKeys = []string{"A♭", "E♭", "B♭", "F", "C", "G", "D", "A", "E", "B", "F♯", "C♯", "G♯", "D♯", "A♯"}

func KeyName(accidentals int8, minor bool) string {
	if accidentals < -7 || accidentals > 7 {
		return ""
	}
	if minor {
		return minorKeys[accidentals+7] + " minor"
	}
	return majorKeys[accidentals+7] + " major"
}

// Tonic returns the pitch class of the tonic.
func Tonic(accidentals int8, minor bool) int {
	t := (int(accidentals)*7%12 + 12) % 12
	if minor {
		t = (t + 9) % 12
	}
	return t
}

func LookupManufacturer(id []byte) Manuf {
	for _, m := range Manufacturers {
		if string(m.ID) == string(id) {
			return m
		}
	}
	return Manuf{id, "<unknown>", "<unknown>"}
}

func ControllerName(id byte) string {
	if n, ok := controllerNames[id]; ok {
		return n
	}
	return "<unknown>"
}

func Hex(b []byte) string {
	s := []string{}
	for _, v := range b {
		s = append(s, fmt.Sprintf("%02X", v))
	}
	return strings.Join(s, " ")
}

func ints(b []byte) []any {
	l := []any{}
	for _, v := range b {
		l = append(l, float64(v))
	}
	return l
}

var metaTags = map[byte][2]string{ // tag, JSON field
	0x01: {"Text", "text"},
	0x02: {"Copyright", "copyright"},
	0x03: {"TrackName", "name"},
	0x04: {"InstrumentName", "name"},
	0x05: {"Lyric", "lyric"},
	0x06: {"Marker", "marker"},
	0x07: {"CuePoint", "cuepoint"},
	0x08: {"ProgramName", "name"},
	0x09: {"DeviceName", "name"},
}

func IsText(t byte) bool { _, ok := metaTags[t]; return ok }

var fps = []int{24, 25, 29, 30}

// Valid says whether a (structurally valid) event is within the domain that
// midiasm supports. 1: valid, 0: invalid (must be rejected), -1: unspecified
func Valid(e Ev) bool {
	d := e.Data
	if e.IsChannel() {
		if len(d) != DataLen(e.Status) {
			return false
		}
		for _, v := range d {
			if v > 0x7f {
				return false
			}
		}
		return true
	}
	if e.Status == 0xf0 {
		return len(d) > 0 && d[0] < 0x80
	}
	if e.Status == 0xf7 {
		return true
	}
	if e.Status != 0xff {
		return false
	}
	if IsText(e.Type) {
		return true
	}
	switch e.Type {
	case 0x00:
		return len(d) == 2
	case 0x20:
		return len(d) == 1 && d[0] < 16
	case 0x21:
		return len(d) == 1 && d[0] < 128
	case 0x2f:
		return len(d) == 0
	case 0x51:
		return len(d) == 3
	case 0x54:
		return len(d) == 5 && d[0]&0x80 == 0 && d[0]&0x1f <= 24 && d[1] < 60 && d[2] < 60 && int(d[3]) < fps[d[0]>>5] && d[4] <= 100
	case 0x58:
		return len(d) == 4 && d[1] <= 7
	case 0x59:
		return len(d) == 2 && d[1] <= 1 && int8(d[0]) >= -7 && int8(d[0]) <= 7
	case 0x7f:
		return len(d) >= 1 && (d[0] != 0 || len(d) >= 3)
	}
	return false
}

// Views renders a track. c4 selects the C4 naming convention.
func Views(track []Ev, c4 bool) []View {
	views := make([]View, 0, len(track))
	tick := uint64(0)
	useFlats := false
	casio := false
	bank := [16]uint16{}
	sounding := map[[2]byte]string{}

	for _, e := range track {
		tick += uint64(e.Delta)
		d := e.Data
		v := View{Ev: e, Tick: tick}
		j := map[string]any{"delta": float64(e.Delta), "status": float64(e.Status)}

		ch := e.Status & 0x0f
		if e.IsChannel() {
			j["channel"] = float64(ch)
			v.Channel = fmt.Sprint(ch)
		}
		if e.Status == 0xff {
			j["type"] = float64(e.Type)
		}
		chn := fmt.Sprintf("channel:%-2d ", ch)

		note := func(name, alias string) {
			j["note"] = map[string]any{"value": float64(d[0]), "name": name, "alias": alias}
			j["velocity"] = float64(d[1])
			v.Details = fmt.Sprintf("%snote:%s, velocity:%d", chn, name, d[1])
			v.Note = fmt.Sprint(d[0])
			v.Vel = fmt.Sprint(d[1])
			v.TSV = name
		}
		simple := func(key string, val any, s string) {
			j[key] = val
			v.Details = s
			v.TSV = s
		}
		manuf := func(m Manuf) {
			j["manufacturer"] = map[string]any{"id": ints(m.ID), "region": m.Region, "name": m.Name}
		}

		switch {
		case e.Status&0xf0 == 0x80:
			v.Tag = "NoteOff"
			alias := NoteName(d[0], useFlats, c4)
			name, ok := sounding[[2]byte{ch, d[0]}]
			if !ok {
				name = alias
			}
			note(name, alias)

		case e.Status&0xf0 == 0x90:
			v.Tag = "NoteOn"
			n := NoteName(d[0], useFlats, c4)
			sounding[[2]byte{ch, d[0]}] = n
			note(n, n)

		case e.Status&0xf0 == 0xa0:
			v.Tag = "PolyphonicPressure"
			simple("pressure", float64(d[0]), fmt.Sprint(d[0]))
			v.Details = fmt.Sprintf("%spressure:%d", chn, d[0])

		case e.Status&0xf0 == 0xb0:
			v.Tag = "Controller"
			name := ControllerName(d[0])
			j["controller"] = map[string]any{"id": float64(d[0]), "name": name}
			j["value"] = float64(d[1])
			v.Details = fmt.Sprintf("%s%d/%s, value:%d", chn, d[0], name, d[1])
			v.TSV = fmt.Sprintf("%d:%s, %d", d[0], name, d[1])
			switch d[0] {
			case 0x00:
				bank[ch] = bank[ch]&0x7f | uint16(d[1])<<7
			case 0x20:
				bank[ch] = bank[ch]&0x3f80 | uint16(d[1])
			}

		case e.Status&0xf0 == 0xc0:
			v.Tag = "ProgramChange"
			j["bank"] = float64(bank[ch])
			j["program"] = float64(d[0])
			v.Details = fmt.Sprintf("%sbank:%d, program:%d", chn, bank[ch], d[0])
			v.TSV = fmt.Sprintf("%d, %d", bank[ch], d[0])

		case e.Status&0xf0 == 0xd0:
			v.Tag = "ChannelPressure"
			simple("pressure", float64(d[0]), fmt.Sprint(d[0]))
			v.Details = fmt.Sprintf("%spressure:%d", chn, d[0])

		case e.Status&0xf0 == 0xe0:
			v.Tag = "PitchBend"
			bend := int(d[0])<<7 | int(d[1])
			simple("bend", float64(bend), fmt.Sprint(bend))
			v.Details = fmt.Sprintf("%sbend:%d", chn, bend)

		case e.Status == 0xf0:
			v.Tag = "SysExMessage"
			m := LookupManufacturer(d[:1])
			data := d[1:]
			single := len(data) > 0 && data[len(data)-1] == 0xf7
			if single {
				data = data[:len(data)-1]
			}
			manuf(m)
			j["data"] = ints(data)
			j["single"] = single
			v.Details = fmt.Sprintf("%s, %s", m.Name, Hex(data))
			v.TSV = fmt.Sprintf("%v:%s:%s, %s", m.ID, m.Region, m.Name, Hex(data))
			casio = !single

		case e.Status == 0xf7 && casio:
			v.Tag = "SysExContinuation"
			data := d
			end := len(d) > 0 && d[len(d)-1] == 0xf7
			if end {
				data = d[:len(d)-1]
				casio = false
			}
			j["data"] = ints(data)
			j["end"] = end
			v.Details = Hex(data)
			v.TSV = Hex(data)

		case e.Status == 0xf7:
			v.Tag = "SysExEscape"
			j["data"] = ints(d)
			v.Details = Hex(d)
			v.TSV = Hex(d)

		case IsText(e.Type):
			v.Tag = metaTags[e.Type][0]
			simple(metaTags[e.Type][1], strings.ToValidUTF8(string(d), "\uFFFD"), string(d))
			if !utf8.Valid(d) { // encoding/json replaces each invalid byte
				j[metaTags[e.Type][1]] = string([]rune(string(d)))
			}

		case e.Type == 0x00:
			v.Tag = "SequenceNumber"
			n := int(d[0])<<8 | int(d[1])
			simple("sequence-number", float64(n), fmt.Sprint(n))

		case e.Type == 0x20:
			v.Tag = "MIDIChannelPrefix"
			simple("channel", float64(d[0]), fmt.Sprint(d[0]))

		case e.Type == 0x21:
			v.Tag = "MIDIPort"
			simple("port", float64(d[0]), fmt.Sprint(d[0]))

		case e.Type == 0x2f:
			v.Tag = "EndOfTrack"

		case e.Type == 0x51:
			v.Tag = "Tempo"
			n := int(d[0])<<16 | int(d[1])<<8 | int(d[2])
			simple("tempo", float64(n), fmt.Sprint(n))
			v.Details = fmt.Sprintf("tempo:%d", n)

		case e.Type == 0x54:
			v.Tag = "SMPTEOffset"
			rate := fps[d[0]>>5&3]
			h := d[0] & 0x1f
			j["hour"] = float64(h)
			j["minute"] = float64(d[1])
			j["second"] = float64(d[2])
			j["frame-rate"] = float64(rate)
			j["frames"] = float64(d[3])
			j["fractional-frames"] = float64(d[4])
			v.Details = fmt.Sprintf("%d %d %d %d %d %d", h, d[1], d[2], rate, d[3], d[4])
			v.TSV = fmt.Sprintf("offset %02d:%02d:%02d  frame rate %d:%d:%d", h, d[1], d[2], rate, d[3], d[4])

		case e.Type == 0x58:
			v.Tag = "TimeSignature"
			den := 1 << d[1]
			j["numerator"] = float64(d[0])
			j["denominator"] = float64(den)
			j["ticks-per-click"] = float64(d[2])
			j["thirty-seconds-per-quarter"] = float64(d[3])
			v.Details = fmt.Sprintf("%d/%d, %d ticks per click, %d/32 per quarter", d[0], den, d[2], d[3])
			v.TSV = fmt.Sprintf("%d/%d, %d ticks/click, %d 32nds/quarter", d[0], den, d[2], d[3])

		case e.Type == 0x59:
			v.Tag = "KeySignature"
			name := KeyName(int8(d[0]), d[1] == 1)
			useFlats = int8(d[0]) < 0
			j["accidentals"] = float64(int8(d[0]))
			j["key-type"] = float64(d[1])
			j["key"] = name
			v.Details = name
			v.TSV = name

		case e.Type == 0x7f:
			v.Tag = "SequencerSpecificEvent"
			n := 1
			if d[0] == 0 {
				n = 3
			}
			m := LookupManufacturer(d[:n])
			manuf(m)
			j["data"] = ints(d[n:])
			v.Details = fmt.Sprintf("%s, %s", m.Name, Hex(d[n:]))
			v.TSV = fmt.Sprintf("%s [%s]", m.Name, Hex(d[n:]))
		}
		j["tag"] = v.Tag
		v.JSON = j
		views = append(views, v)
	}
	return views
}

func ellipsize(s string, n int) string {
	r := []rune(s)
	if len(r) <= n {
		return s
	}
	return string(r[:n-1]) + "…"
}

func pad(n int, s string) string {
	l := utf8.RuneCountInString(s)
	if n < l {
		return s
	}
	return s + strings.Repeat(" ", n-l)
}

// Line is the disassembly line for the event.
func (v View) Line() string {
	raw := v.Ev.Raw
	ix := 1
	for raw[ix-1]&0x80 != 0 {
		ix++
	}
	hex := Hex(raw)
	if ix < 3 {
		hex = strings.Repeat("   ", 3-ix) + hex
	}
	code := fmt.Sprintf("%02X", v.Ev.Status)
	if v.Ev.Status == 0xff {
		code = fmt.Sprintf("%02X", v.Ev.Type)
	}
	s := fmt.Sprintf("%s  tick:%s  delta:%s  %s ", pad(42, ellipsize(hex, 42)), pad(9, fmt.Sprint(v.Tick)), pad(9, fmt.Sprint(v.Ev.Delta)), code)
	if v.Tag == "EndOfTrack" {
		return s + v.Tag
	}
	return s + pad(22, v.Tag) + " " + v.Details
}

func (f *File) DivisionText() string {
	if f.Division&0x8000 == 0 {
		return fmt.Sprintf("metrical time:%d ppqn", f.Division)
	}
	return fmt.Sprintf("SMPTE:%d fps,%d sub-frames", 256-int(f.Division>>8), f.Division&0xff)
}

// HeaderLine and TrackLine
func (f *File) HeaderLine() string {
	return fmt.Sprintf("%s  MThd length:6, format:%d, tracks:%d, %s", pad(42, ellipsize(Hex(f.Header()), 42)), f.Format, len(f.Tracks), f.DivisionText())
}

func TrackLine(n int, body []byte) string {
	return fmt.Sprintf("%s  MTrk %-2d length:%d", pad(42, ellipsize(Hex(Chunk("MTrk", body)), 24)), n, len(body))
}

// Text is the whole disassembly.
func (f *File) Text(c4 bool) string {
	var b strings.Builder
	b.WriteString(f.HeaderLine() + "\n")
	for i, t := range f.Tracks {
		b.WriteString(f.TrackText(i, t, c4))
	}
	return b.String()
}

func (f *File) TrackText(i int, t []Ev, c4 bool) string {
	var b strings.Builder
	body := EncodeTrack(t)
	b.WriteString("\n" + TrackLine(i, body) + "\n")
	for _, v := range Views(t, c4) {
		b.WriteString(v.Line() + "\n")
	}
	return b.String()
}

// JSONValue is the expected export (as decoded by encoding/json)
func (f *File) JSONValue(c4 bool) map[string]any {
	h := map[string]any{
		"Tag": "MThd", "Length": 6.0, "Format": float64(f.Format), "Tracks": float64(len(f.Tracks)), "Division": float64(f.Division),
		"PPQN": 0.0, "SMPTETimeCode": false, "SubFrames": 0.0, "FPS": 0.0, "DropFrame": false,
	}
	if f.Division&0x8000 == 0 {
		h["PPQN"] = float64(f.Division)
	} else {
		h["SMPTETimeCode"] = true
		h["SubFrames"] = float64(f.Division & 0xff)
		h["FPS"] = float64(256 - int(f.Division>>8))
		h["DropFrame"] = f.Division>>8 == 0xe3
	}
	var tracks any // a file without tracks exports null
	if len(f.Tracks) > 0 {
		list := []any{}
		for i, t := range f.Tracks {
			evs := []any{}
			for _, v := range Views(t, c4) {
				evs = append(evs, map[string]any{"event": v.JSON})
			}
			list = append(list, map[string]any{"tag": "MTrk", "track-number": float64(i), "events": evs})
		}
		tracks = list
	}
	return map[string]any{"header": h, "tracks": tracks}
}
