package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"runtime"
	"sort"
	"strings"
	"time"

	"midiverif/gen"
	"midiverif/ref"
	"midiverif/sut"
)

// assembled checks the outcome of assembling src: an error, or a well formed file.
func assembled(c *Ctx, kind string, src []byte) *ref.File {
	c.Eval()
	var out []byte
	var err error
	n := measure(func() {
		if kind == "text" {
			out, err = sut.AssembleText(src)
		} else {
			out, err = sut.AssembleJSON(src)
		}
	})
	if sut.IsPanic(err) {
		c.Fail(fmt.Sprintf("%s assembler: %v", kind, err), kind, src)
		return nil
	}
	if n > budget(len(src)) {
		c.Fail(fmt.Sprintf("%s assembler allocated %d bytes for a source of %d bytes", kind, n, len(src)), kind, src)
		return nil
	}
	if err != nil {
		c.Observe("rejected", 1)
		c.Cover("rejected: " + shape(err.Error()))
		return nil
	}
	c.Observe("accepted", 1)
	f, err := ref.Decode(out)
	if err != nil {
		c.Fail(fmt.Sprintf("%s source assembled to a malformed file: %v", kind, err), kind, src, "assembled", out)
		return nil
	}
	for i, t := range f.Tracks {
		for j, e := range t {
			if !ref.Valid(e) {
				c.Fail(fmt.Sprintf("%s source assembled to a file with an invalid event: track %d event %d %v", kind, i, j, e), kind, src, "assembled", out)
				return nil
			}
		}
	}
	if _, err := sut.Decode(out); err != nil {
		c.Fail(fmt.Sprintf("%s source assembled to a file that cannot be decoded: %v", kind, err), kind, src, "assembled", out)
		return nil
	}
	c.CoverBytes("accepted", out)
	return f
}

// settled waits for the goroutines of finished operations.
func settled(c *Ctx, base int, what string) {
	for i := 0; i < 400; i++ {
		if runtime.NumGoroutine() <= base {
			return
		}
		time.Sleep(10 * time.Millisecond)
	}
	buf := make([]byte, 1<<16)
	c.Fail(fmt.Sprintf("%s: %d goroutines left running (%d before)\n%s", what, runtime.NumGoroutine(), base, buf[:runtime.Stack(buf, true)]))
}

// a numeric field of a source
type field struct {
	skip   func(v int64) bool // not specified
	name   string
	text   string // line with %s, "" if there is none
	json   string // event with %s
	lo, hi int64
	ok     func(v int64) bool // nil: lo..hi
	ev     func(v int64) ref.Ev
}

func ch(status byte, data ...byte) ref.Ev { return ref.Ev{Status: status, Data: data} }
func mt(typ byte, data ...byte) ref.Ev    { return ref.Ev{Status: 0xff, Type: typ, Data: data} }

func fields() []field {
	l := []field{
		{name: "NoteOn channel", text: "delta:0  90 NoteOn channel:%s  note:C4, velocity:64", json: `{"tag":"NoteOn","delta":0,"channel":%s,"note":{"value":60},"velocity":64}`, hi: 15, ev: func(v int64) ref.Ev { return ch(0x90|byte(v), 60, 64) }},
		{name: "NoteOn velocity", text: "delta:0  90 NoteOn channel:3  note:C4, velocity:%s", json: `{"tag":"NoteOn","delta":0,"channel":3,"note":{"value":60},"velocity":%s}`, hi: 127, ev: func(v int64) ref.Ev { return ch(0x93, 60, byte(v)) }},
		{name: "NoteOn note", json: `{"tag":"NoteOn","delta":0,"channel":3,"note":{"value":%s},"velocity":1}`, hi: 127, ev: func(v int64) ref.Ev { return ch(0x93, byte(v), 1) }},
		{name: "NoteOff channel", text: "delta:0  80 NoteOff channel:%s  note:C4, velocity:64", json: `{"tag":"NoteOff","delta":0,"channel":%s,"note":{"value":60},"velocity":64}`, hi: 15, ev: func(v int64) ref.Ev { return ch(0x80|byte(v), 60, 64) }},
		{name: "NoteOff velocity", text: "delta:0  80 NoteOff channel:3  note:C4, velocity:%s", json: `{"tag":"NoteOff","delta":0,"channel":3,"note":{"value":60},"velocity":%s}`, hi: 127, ev: func(v int64) ref.Ev { return ch(0x83, 60, byte(v)) }},
		{name: "NoteOff note", json: `{"tag":"NoteOff","delta":0,"channel":3,"note":{"value":%s},"velocity":1}`, hi: 127, ev: func(v int64) ref.Ev { return ch(0x83, byte(v), 1) }},
		{name: "PolyphonicPressure channel", text: "delta:0  A0 PolyphonicPressure channel:%s  pressure:64", json: `{"tag":"PolyphonicPressure","delta":0,"channel":%s,"pressure":64}`, hi: 15, ev: func(v int64) ref.Ev { return ch(0xa0|byte(v), 64) }},
		{name: "PolyphonicPressure pressure", text: "delta:0  A0 PolyphonicPressure channel:3  pressure:%s", json: `{"tag":"PolyphonicPressure","delta":0,"channel":3,"pressure":%s}`, hi: 127, ev: func(v int64) ref.Ev { return ch(0xa3, byte(v)) }},
		{name: "Controller channel", text: "delta:0  B0 Controller channel:%s  7/Channel Volume (MSB), value:5", json: `{"tag":"Controller","delta":0,"channel":%s,"controller":{"id":7},"value":5}`, hi: 15, ev: func(v int64) ref.Ev { return ch(0xb0|byte(v), 7, 5) }},
		{name: "Controller ID", text: "delta:0  B0 Controller channel:3  %s/whatever, value:5", json: `{"tag":"Controller","delta":0,"channel":3,"controller":{"id":%s},"value":5}`, hi: 127, ev: func(v int64) ref.Ev { return ch(0xb3, byte(v), 5) }},
		{name: "Controller value", text: "delta:0  B0 Controller channel:3  7/whatever, value:%s", json: `{"tag":"Controller","delta":0,"channel":3,"controller":{"id":7},"value":%s}`, hi: 127, ev: func(v int64) ref.Ev { return ch(0xb3, 7, byte(v)) }},
		{name: "ProgramChange channel", text: "delta:0  C0 ProgramChange channel:%s  bank:0, program:25", json: `{"tag":"ProgramChange","delta":0,"channel":%s,"bank":0,"program":25}`, hi: 15, ev: func(v int64) ref.Ev { return ch(0xc0|byte(v), 25) }},
		{name: "ProgramChange program", text: "delta:0  C0 ProgramChange channel:3  bank:0, program:%s", json: `{"tag":"ProgramChange","delta":0,"channel":3,"bank":0,"program":%s}`, hi: 127, ev: func(v int64) ref.Ev { return ch(0xc3, byte(v)) }},
		{name: "ChannelPressure channel", text: "delta:0  D0 ChannelPressure channel:%s  pressure:64", json: `{"tag":"ChannelPressure","delta":0,"channel":%s,"pressure":64}`, hi: 15, ev: func(v int64) ref.Ev { return ch(0xd0|byte(v), 64) }},
		{name: "ChannelPressure pressure", text: "delta:0  D0 ChannelPressure channel:3  pressure:%s", json: `{"tag":"ChannelPressure","delta":0,"channel":3,"pressure":%s}`, hi: 127, ev: func(v int64) ref.Ev { return ch(0xd3, byte(v)) }},
		{name: "PitchBend channel", text: "delta:0  E0 PitchBend channel:%s  bend:8", json: `{"tag":"PitchBend","delta":0,"channel":%s,"bend":8}`, hi: 15, ev: func(v int64) ref.Ev { return ch(0xe0|byte(v), 0, 8) }},
		{name: "PitchBend bend", text: "delta:0  E0 PitchBend channel:3  bend:%s", json: `{"tag":"PitchBend","delta":0,"channel":3,"bend":%s}`, hi: 16383, ev: func(v int64) ref.Ev { return ch(0xe3, byte(v>>7), byte(v&0x7f)) }},
		{name: "SequenceNumber", text: "delta:0  00 SequenceNumber  %s", json: `{"tag":"SequenceNumber","delta":0,"sequence-number":%s}`, hi: 65535, ev: func(v int64) ref.Ev { return mt(0x00, byte(v>>8), byte(v)) }},
		{name: "MIDIChannelPrefix", text: "delta:0  20 MIDIChannelPrefix  %s", json: `{"tag":"MIDIChannelPrefix","delta":0,"channel":%s}`, hi: 15, ev: func(v int64) ref.Ev { return mt(0x20, byte(v)) }},
		{name: "MIDIPort", text: "delta:0  21 MIDIPort  %s", json: `{"tag":"MIDIPort","delta":0,"port":%s}`, hi: 127, ev: func(v int64) ref.Ev { return mt(0x21, byte(v)) }},
		{name: "Tempo", text: "delta:0  51 Tempo  tempo:%s", json: `{"tag":"Tempo","delta":0,"tempo":%s}`, hi: 0xffffff, ev: func(v int64) ref.Ev { return mt(0x51, byte(v>>16), byte(v>>8), byte(v)) }},
		{name: "SMPTEOffset hour", text: "delta:0  54 SMPTEOffset  %s 45 59 25 7 39", json: `{"tag":"SMPTEOffset","delta":0,"hour":%s,"minute":45,"second":59,"frame-rate":25,"frames":7,"fractional-frames":39}`, hi: 24, ev: func(v int64) ref.Ev { return mt(0x54, 0x20|byte(v), 45, 59, 7, 39) }},
		{name: "SMPTEOffset minute", text: "delta:0  54 SMPTEOffset  13 %s 59 25 7 39", json: `{"tag":"SMPTEOffset","delta":0,"hour":13,"minute":%s,"second":59,"frame-rate":25,"frames":7,"fractional-frames":39}`, hi: 59, ev: func(v int64) ref.Ev { return mt(0x54, 0x2d, byte(v), 59, 7, 39) }},
		{name: "SMPTEOffset second", text: "delta:0  54 SMPTEOffset  13 45 %s 25 7 39", json: `{"tag":"SMPTEOffset","delta":0,"hour":13,"minute":45,"second":%s,"frame-rate":25,"frames":7,"fractional-frames":39}`, hi: 59, ev: func(v int64) ref.Ev { return mt(0x54, 0x2d, 45, byte(v), 7, 39) }},
		{name: "SMPTEOffset frame rate", text: "delta:0  54 SMPTEOffset  13 45 59 %s 7 39", json: `{"tag":"SMPTEOffset","delta":0,"hour":13,"minute":45,"second":59,"frame-rate":%s,"frames":7,"fractional-frames":39}`, lo: 24, hi: 30, ok: func(v int64) bool { return v == 24 || v == 25 || v == 29 || v == 30 }, ev: func(v int64) ref.Ev {
			return mt(0x54, map[int64]byte{24: 0x0d, 25: 0x2d, 29: 0x4d, 30: 0x6d}[v], 45, 59, 7, 39)
		}},
		{name: "SMPTEOffset frames (24)", text: "delta:0  54 SMPTEOffset  13 45 59 24 %s 39", json: `{"tag":"SMPTEOffset","delta":0,"hour":13,"minute":45,"second":59,"frame-rate":24,"frames":%s,"fractional-frames":39}`, hi: 23, ev: func(v int64) ref.Ev { return mt(0x54, 0x0d, 45, 59, byte(v), 39) }},
		{name: "SMPTEOffset frames (25)", text: "delta:0  54 SMPTEOffset  13 45 59 25 %s 39", json: `{"tag":"SMPTEOffset","delta":0,"hour":13,"minute":45,"second":59,"frame-rate":25,"frames":%s,"fractional-frames":39}`, hi: 24, ev: func(v int64) ref.Ev { return mt(0x54, 0x2d, 45, 59, byte(v), 39) }},
		{name: "SMPTEOffset frames (29)", text: "delta:0  54 SMPTEOffset  13 45 59 29 %s 39", json: `{"tag":"SMPTEOffset","delta":0,"hour":13,"minute":45,"second":59,"frame-rate":29,"frames":%s,"fractional-frames":39}`, hi: 28, ev: func(v int64) ref.Ev { return mt(0x54, 0x4d, 45, 59, byte(v), 39) }},
		{name: "SMPTEOffset frames (30)", text: "delta:0  54 SMPTEOffset  13 45 59 30 %s 39", json: `{"tag":"SMPTEOffset","delta":0,"hour":13,"minute":45,"second":59,"frame-rate":30,"frames":%s,"fractional-frames":39}`, hi: 29, ev: func(v int64) ref.Ev { return mt(0x54, 0x6d, 45, 59, byte(v), 39) }},
		{name: "SMPTEOffset fractions", text: "delta:0  54 SMPTEOffset  13 45 59 25 7 %s", json: `{"tag":"SMPTEOffset","delta":0,"hour":13,"minute":45,"second":59,"frame-rate":25,"frames":7,"fractional-frames":%s}`, hi: 100, ev: func(v int64) ref.Ev { return mt(0x54, 0x2d, 45, 59, 7, byte(v)) }},
		{name: "TimeSignature numerator", text: "delta:0  58 TimeSignature  %s/4, 24 ticks per click, 8/32 per quarter", json: `{"tag":"TimeSignature","delta":0,"numerator":%s,"denominator":4,"ticks-per-click":24,"thirty-seconds-per-quarter":8}`, hi: 255, ev: func(v int64) ref.Ev { return mt(0x58, byte(v), 2, 24, 8) }},
		{name: "TimeSignature denominator", text: "delta:0  58 TimeSignature  3/%s, 24 ticks per click, 8/32 per quarter", json: `{"tag":"TimeSignature","delta":0,"numerator":3,"denominator":%s,"ticks-per-click":24,"thirty-seconds-per-quarter":8}`, lo: 1, hi: 128, ok: func(v int64) bool { return v > 0 && v <= 128 && v&(v-1) == 0 }, ev: func(v int64) ref.Ev {
			n := byte(0)
			for v > 1 {
				v >>= 1
				n++
			}
			return mt(0x58, 3, n, 24, 8)
		}},
		{name: "TimeSignature ticks per click", text: "delta:0  58 TimeSignature  3/4, %s ticks per click, 8/32 per quarter", json: `{"tag":"TimeSignature","delta":0,"numerator":3,"denominator":4,"ticks-per-click":%s,"thirty-seconds-per-quarter":8}`, hi: 255, ev: func(v int64) ref.Ev { return mt(0x58, 3, 2, byte(v), 8) }},
		{name: "TimeSignature 32nds per quarter", text: "delta:0  58 TimeSignature  3/4, 24 ticks per click, %s/32 per quarter", json: `{"tag":"TimeSignature","delta":0,"numerator":3,"denominator":4,"ticks-per-click":24,"thirty-seconds-per-quarter":%s}`, hi: 255, ev: func(v int64) ref.Ev { return mt(0x58, 3, 2, 24, byte(v)) }},
		{name: "KeySignature accidentals", json: `{"tag":"KeySignature","delta":0,"accidentals":%s,"key-type":0}`, lo: -7, hi: 7, ev: func(v int64) ref.Ev { return mt(0x59, byte(int8(v)), 0) }},
		{name: "KeySignature type", json: `{"tag":"KeySignature","delta":0,"accidentals":3,"key-type":%s}`, hi: 1, ev: func(v int64) ref.Ev { return mt(0x59, 3, byte(v)) }},
		{name: "SysExMessage data", json: `{"tag":"SysExMessage","delta":0,"manufacturer":{"id":[67]},"data":[1,%s,2],"single":true}`, hi: 127, ok: sysexByte, ev: func(v int64) ref.Ev { return ref.Ev{Status: 0xf0, Data: []byte{67, 1, byte(v), 2, 0xf7}} }},
		{name: "SysExEscape data", json: `{"tag":"SysExEscape","delta":0,"data":[243,%s]}`, hi: 255, ev: func(v int64) ref.Ev { return ref.Ev{Status: 0xf7, Data: []byte{0xf3, byte(v)}} }},
		{name: "SequencerSpecificEvent data", json: `{"tag":"SequencerSpecificEvent","delta":0,"manufacturer":{"id":[0,0,59]},"data":[1,%s]}`, hi: 255, ev: func(v int64) ref.Ev { return mt(0x7f, 0, 0, 59, 1, byte(v)) }},
	}
	// ... on every channel
	for _, f := range l {
		for c := 0; c < 16; c++ {
			f, c := f, byte(c)
			g := f
			g.name = fmt.Sprintf("%s (channel %d)", f.name, c)
			g.text = strings.Replace(f.text, "channel:3 ", fmt.Sprintf("channel:%d ", c), 1)
			g.json = strings.Replace(f.json, `"channel":3,`, fmt.Sprintf(`"channel":%d,`, c), 1)
			g.ev = func(v int64) ref.Ev {
				e := f.ev(v)
				e.Status = e.Status&0xf0 | c
				return e
			}
			if c != 3 && g.json != f.json {
				l = append(l, g)
			}
		}
	}
	// IDs of manufacturers (which bytes above 7F are IDs is not specified)
	id := func(name, json string, ev func(v byte) ref.Ev) {
		l = append(l, field{name: name, json: json, lo: 1, hi: 127, skip: func(v int64) bool { return v == 0 || v > 127 && v < 256 }, ev: func(v int64) ref.Ev { return ev(byte(v)) }})
	}
	id("SysExMessage manufacturer", `{"tag":"SysExMessage","delta":0,"manufacturer":{"id":[%s]},"data":[1],"single":true}`, func(v byte) ref.Ev { return ref.Ev{Status: 0xf0, Data: []byte{v, 1, 0xf7}} })
	id("SysExMessage manufacturer (2nd byte)", `{"tag":"SysExMessage","delta":0,"manufacturer":{"id":[0,%s,5]},"data":[1],"single":true}`, func(v byte) ref.Ev { return ref.Ev{Status: 0xf0, Data: []byte{0, v, 5, 1, 0xf7}} })
	id("SysExMessage manufacturer (3rd byte)", `{"tag":"SysExMessage","delta":0,"manufacturer":{"id":[0,5,%s]},"data":[1],"single":true}`, func(v byte) ref.Ev { return ref.Ev{Status: 0xf0, Data: []byte{0, 5, v, 1, 0xf7}} })
	id("SequencerSpecificEvent manufacturer", `{"tag":"SequencerSpecificEvent","delta":0,"manufacturer":{"id":[%s]},"data":[1]}`, func(v byte) ref.Ev { return mt(0x7f, v, 1) })
	id("SequencerSpecificEvent manufacturer (2nd byte)", `{"tag":"SequencerSpecificEvent","delta":0,"manufacturer":{"id":[0,%s,5]},"data":[1]}`, func(v byte) ref.Ev { return mt(0x7f, 0, v, 5, 1) })
	id("SequencerSpecificEvent manufacturer (3rd byte)", `{"tag":"SequencerSpecificEvent","delta":0,"manufacturer":{"id":[0,5,%s]},"data":[1]}`, func(v byte) ref.Ev { return mt(0x7f, 0, 5, v, 1) })
	// the delta of every kind of event
	for _, k := range gen.Kinds() {
		evs := k(5)
		if len(evs) > 1 {
			continue
		}
		e := evs[0]
		f := &ref.File{Tracks: [][]ref.Ev{{e}}}
		f.Encode()
		v := ref.Views(f.Tracks[0], false)[0]
		v.JSON["delta"] = json.RawMessage(`%s`)
		b, _ := json.Marshal(strings.ReplaceAll(mustJSON(v.JSON, "delta"), "@delta@", "%s"))
		var js string
		json.Unmarshal(b, &js)
		text := fmt.Sprintf("delta:%%s  %02X %s %s", e.Status, v.Tag, strings.ReplaceAll(v.Details, "%", "%%"))
		if e.Status == 0xff {
			text = fmt.Sprintf("delta:%%s  %02X %s %s", e.Type, v.Tag, strings.ReplaceAll(v.Details, "%", "%%"))
		}
		l = append(l, field{name: v.Tag + " delta", text: text, json: js, hi: 0x0fffffff, ev: func(v int64) ref.Ev { x := e; x.Delta = uint32(v); return x }})
	}
	return l
}

func sysexByte(v int64) bool { return v >= 0 && v <= 127 }

// mustJSON encodes an event with a marker for one field
func mustJSON(m map[string]any, key string) string {
	x := map[string]any{}
	for k, v := range m {
		x[k] = v
	}
	x[key] = "@" + key + "@"
	b, err := json.Marshal(x)
	if err != nil {
		panic(err)
	}
	return strings.ReplaceAll(string(b), `"@`+key+`@"`, "@"+key+"@")
}

// values around the limits of a field and of the machine types behind it
func values(lo, hi int64) []*big.Int {
	l := []*big.Int{}
	add := func(v int64) { l = append(l, big.NewInt(v)) }
	for v := lo - 3; v <= lo+3; v++ {
		add(v)
	}
	for v := hi - 3; v <= hi+5; v++ {
		add(v)
	}
	if hi-lo <= 300 {
		for v := lo; v <= hi; v++ {
			add(v)
		}
	} else {
		for i := int64(0); i < 40; i++ {
			add(lo + (hi-lo)*i/40)
		}
		for v := int64(1); v < hi; v *= 2 {
			add(v - 1)
			add(v)
			add(v + 1)
		}
	}
	mid := lo + (hi-lo)/2
	for _, bits := range []uint{4, 5, 7, 8, 14, 15, 16, 24, 28, 31, 32, 33, 62, 63, 64, 65, 128} {
		p := new(big.Int).Lsh(big.NewInt(1), bits)
		for _, d := range []int64{-1, 0, 1, lo, mid, hi} {
			x := new(big.Int).Add(p, big.NewInt(d))
			l = append(l, x, new(big.Int).Neg(x))
		}
	}
	return l
}

func oneEvent(e ref.Ev) *ref.File {
	return &ref.File{Format: 0, Division: 480, Tracks: [][]ref.Ev{{e, gen.EOT(0)}}}
}

const textFrame = "MThd length:6, format:0, tracks:1, metrical time:480 ppqn\n\nMTrk 0\n%s\ntick:0 delta:0 2F EndOfTrack\n"
const jsonFrame = `{"header":{"tag":"MThd","format":0,"PPQN":480},"tracks":[{"tag":"MTrk","events":[{"event":%s},{"event":{"tag":"EndOfTrack","delta":0}}]}]}`

func fieldCases() []Case {
	list := []Case{}
	for _, f := range fields() {
		f := f
		for _, kind := range []string{"text", "json"} {
			kind := kind
			form := f.text
			if kind == "json" {
				form = f.json
			}
			if form == "" {
				continue
			}
			list = append(list, Case{fmt.Sprintf("%s field: %s", kind, f.name), func(c *Ctx) {
				isEOT := strings.HasPrefix(f.name, "EndOfTrack")
				for _, v := range values(f.lo, f.hi) {
					valid := v.IsInt64() && v.Int64() >= f.lo && v.Int64() <= f.hi && (f.ok == nil || f.ok(v.Int64()))
					if f.name == "SysExMessage data" && !valid && v.IsInt64() && v.Int64() >= 128 && v.Int64() <= 255 {
						continue // data bytes >= 80 are not specified
					}
					if f.skip != nil && v.IsInt64() && f.skip(v.Int64()) {
						continue
					}
					line := strings.ReplaceAll(strings.Replace(form, "%s", v.String(), 1), "%%", "%")
					src := ""
					if kind == "text" {
						src = strings.Replace(textFrame, "%s", line, 1)
					} else {
						src = strings.Replace(jsonFrame, "%s", line, 1)
					}
					g := assembled(c, kind, []byte(src))
					if c.Failed() {
						return
					}
					c.Observe("field values", 1)
					c.Cover(fmt.Sprintf("%s %s %s", kind, f.name, v))
					if valid && g == nil {
						c.Fail(fmt.Sprintf("%s: valid value %v rejected", f.name, v), kind, src)
						return
					}
					if !valid && g != nil {
						c.Fail(fmt.Sprintf("%s: value %v does not fit but was assembled as %v", f.name, v, g.Tracks), kind, src)
						return
					}
					if valid && !isEOT {
						if d := ref.Diff(oneEvent(f.ev(v.Int64())), g); d != "" {
							c.Fail(fmt.Sprintf("%s: value %v assembled incorrectly: %s", f.name, v, d), kind, src)
							return
						}
					}
				}
				c.Sample(map[string]any{"field": f.name, "source": strings.Replace(form, "%s", fmt.Sprint(f.hi), 1)})
			}})
		}
	}
	// manufacturer IDs of any length and value: the bytes of the source or an error
	list = append(list, Case{"json manufacturer IDs", func(c *Ctx) {
		r := rng(c.Seed, "C06m", 0)
		ids := [][]byte{{}, {0}, {0, 0}, {0, 59}, {67, 1}, {0, 0, 59, 1}, {0, 0, 0, 59}, {0, 0, 0}}
		for _, m := range ref.Manufacturers {
			for _, first := range []byte{0, 1, 0x43, 0x7d, 0x7f} {
				ids = append(ids, append([]byte{first}, m.ID...))
				if len(m.ID) == 3 {
					ids = append(ids, []byte{first, m.ID[1], m.ID[2]}, []byte{m.ID[1], m.ID[2], first}, []byte{m.ID[1], m.ID[2]}, []byte{m.ID[2]})
				}
			}
		}
		for _, id := range ids {
			data := []byte{}
			for n := r.Intn(4); n > 0; n-- {
				data = append(data, byte(r.Intn(128)))
			}
			number := func(b []byte) string { return strings.ReplaceAll(fmt.Sprint(b), " ", ",") }
			whole := append(append([]byte{}, id...), data...)
			for _, e := range []ref.Ev{{Status: 0xf0, Data: append(append([]byte{}, whole...), 0xf7)}, {Status: 0xff, Type: 0x7f, Data: whole}} {
				js := fmt.Sprintf(`{"tag":"SysExMessage","delta":0,"manufacturer":{"id":%s},"data":%s,"single":true}`, number(id), number(data))
				if e.Status == 0xff {
					js = fmt.Sprintf(`{"tag":"SequencerSpecificEvent","delta":0,"manufacturer":{"id":%s},"data":%s}`, number(id), number(data))
				}
				src := strings.Replace(jsonFrame, "%s", js, 1)
				g := assembled(c, "json", []byte(src))
				if c.Failed() {
					return
				}
				c.Observe("manufacturer IDs", 1)
				c.Cover(fmt.Sprintf("ID %X %v", id, g != nil))
				if g == nil {
					continue
				}
				if d := ref.Diff(oneEvent(e), g); d != "" {
					c.Fail(fmt.Sprintf("manufacturer ID %X assembled as another: %s", id, d), "json", src)
					return
				}
			}
		}
	}})
	// note names
	for _, c4 := range []bool{false, true} {
		c4 := c4
		list = append(list, Case{fmt.Sprintf("note names (C4:%v)", c4), func(c *Ctx) {
			sut.C4(c4)
			pitch := map[string]int{"C": 0, "C♯": 1, "D♭": 1, "D": 2, "D♯": 3, "E♭": 3, "E": 4, "E♯": 5, "F♭": 4, "F": 5, "F♯": 6, "G♭": 6, "G": 7, "G♯": 8, "A♭": 8, "A": 9, "A♯": 10, "B♭": 10, "B": 11}
			for name, p := range pitch {
				for o := -140; o < 300; o++ {
					v := 12*(o+1) + p
					if c4 {
						v += 12
					}
					src := strings.Replace(textFrame, "%s", fmt.Sprintf("delta:1 90 NoteOn channel:4 note:%s%d, velocity:9\ndelta:2 84 NoteOff channel:4 note:%s%d, velocity:9", name, o, name, o), 1)
					g := assembled(c, "text", []byte(src))
					if c.Failed() {
						return
					}
					if v < 0 || v > 127 {
						if g != nil {
							c.Fail(fmt.Sprintf("note %s%d is out of range but was assembled as %v", name, o, g.Tracks), "text", src)
							return
						}
						continue
					}
					if g == nil {
						c.Fail(fmt.Sprintf("note %s%d rejected", name, o), "text", src)
						return
					}
					want := [][]ref.Ev{{{Delta: 1, Status: 0x94, Data: []byte{byte(v), 9}}, {Delta: 2, Status: 0x84, Data: []byte{byte(v), 9}}, gen.EOT(0)}}
					if d := ref.DiffTrack(want[0], g.Tracks[0]); d != "" {
						c.Fail(fmt.Sprintf("note %s%d: %s", name, o, d), "text", src)
						return
					}
					c.Cover(fmt.Sprintf("note %s%d %v", name, o, c4))
				}
			}
			for _, bad := range []string{"H4", "X", "4", "C", "♯4", "C♯♯4", "Cb4", "c", "", "C♭♭3", "C 4", "-1"} {
				src := strings.Replace(textFrame, "%s", fmt.Sprintf("delta:1 90 NoteOn channel:4 note:%s, velocity:9", bad), 1)
				if g := assembled(c, "text", []byte(src)); g != nil {
					c.Fail(fmt.Sprintf("note %q assembled as %v", bad, g.Tracks), "text", src)
					return
				}
			}
			sut.C4(false)
		}})
	}
	// names that are not the name of a manufacturer
	list = append(list, Case{"manufacturer names", func(c *Ctx) {
		names := map[string]bool{}
		for _, m := range ref.Manufacturers {
			names[m.Name] = true
		}
		bad := map[string]bool{"": true, "<unknown>": true, "unknown": true, "Nobody": true, "41": true, "7E": true, "00 00 3B": true}
		for _, m := range ref.Manufacturers {
			bad[m.Region] = true
			for i := 1; i < len(m.Name); i++ {
				bad[m.Name[:i]] = true
			}
			bad[m.Name+" Inc"], bad[m.Name+m.Name], bad["x"+m.Name] = true, true, true
		}
		l := []string{}
		for s := range bad {
			if !names[strings.TrimSpace(s)] {
				l = append(l, s)
			}
		}
		sort.Strings(l)
		for _, s := range l {
			for _, form := range []string{"delta:0 F0 SysExMessage %s, 01 02", "delta:0 7F SequencerSpecificEvent %s, 01 02"} {
				src := strings.Replace(textFrame, "%s", strings.Replace(form, "%s", s, 1), 1)
				if g := assembled(c, "text", []byte(src)); g != nil {
					c.Fail(fmt.Sprintf("manufacturer %q assembled as %v", s, g.Tracks), "text", src)
				}
				if c.Failed() {
					return
				}
				c.Observe("manufacturer names", 1)
			}
		}
	}})
	// headers
	list = append(list, Case{"headers", func(c *Ctx) {
		for _, v := range values(0, 2) {
			for _, kind := range []string{"text", "json"} {
				src := fmt.Sprintf("MThd length:6, format:%s, tracks:1, metrical time:480 ppqn\n\nMTrk 0\ndelta:0 2F EndOfTrack\n", v)
				if kind == "json" {
					src = fmt.Sprintf(`{"header":{"tag":"MThd","format":%s,"PPQN":480},"tracks":[{"tag":"MTrk","events":[{"event":{"tag":"EndOfTrack","delta":0}}]}]}`, v)
				}
				g := assembled(c, kind, []byte(src))
				if c.Failed() {
					return
				}
				valid := v.IsInt64() && v.Int64() >= 0 && v.Int64() <= 2
				if kind == "text" && !valid && len(v.String()) > 1 && v.Sign() > 0 && v.String()[0] <= '2' {
					continue // format:16 is read as format:1
				}
				if valid != (g != nil) || (valid && int64(g.Format) != v.Int64()) {
					c.Fail(fmt.Sprintf("%s format %v: %v", kind, v, g), kind, src)
					return
				}
				c.Cover("format " + v.String())
			}
		}
		for _, v := range values(1, 32767) {
			for _, kind := range []string{"text", "json"} {
				if v.IsInt64() && (v.Int64() == 0 || v.Int64() >= 0x8000 && v.Int64() <= 0xffff) {
					continue
				}
				src := fmt.Sprintf("MThd length:6, format:1, tracks:1, metrical time:%s ppqn\n\nMTrk 0\ndelta:0 2F EndOfTrack\n", v)
				if kind == "json" {
					src = fmt.Sprintf(`{"header":{"tag":"MThd","format":1,"PPQN":%s},"tracks":[{"tag":"MTrk","events":[{"event":{"tag":"EndOfTrack","delta":0}}]}]}`, v)
				}
				g := assembled(c, kind, []byte(src))
				if c.Failed() {
					return
				}
				valid := v.IsInt64() && v.Int64() >= 1 && v.Int64() <= 32767
				if valid != (g != nil) || (valid && int64(g.Division) != v.Int64()) {
					c.Fail(fmt.Sprintf("%s PPQN %v: %v", kind, v, g), kind, src)
					return
				}
				c.Cover("ppqn " + v.String())
			}
		}
		for _, src := range []string{"", "\n", "MThd", "MTrk", "MThd\n", "MThd format:1", "MThd format:1, metrical time:480", "MThd format:3, metrical time:480 ppqn", "MThd metrical time:480 ppqn", "MTrk 0\ndelta:0 2F EndOfTrack", "garbage", "%% comment", "%% MThd\n%% MTrk",
			"MThd format:1, SMPTE:26 fps,80 sub-frames", "MThd format:1, SMPTE:25 fps,256 sub-frames", "MThd format:1, metrical time:480 ppqn\ngarbage\nMTrk 0\nmore garbage", "MThd format:1, metrical time:480 ppqn\nMTrk 0\ndelta:0 90 NoteOn", "MThd format:1, metrical time:480 ppqn\nMTrk 0\n90 NoteOn channel:0 note:C4, velocity:64",
			"MThd format:1, metrical time:480 ppqn\nMTrk 0\ndelta:0 90 NoteOnn channel:0 note:C4, velocity:64", "MThd format:1, metrical time:480 ppqn\nMTrk 0\ndelta:0 XX Unknown stuff"} {
			g := assembled(c, "text", []byte(src))
			if c.Failed() {
				return
			}
			if g != nil {
				c.Fail(fmt.Sprintf("source %q assembled as %v", src, g), "text", src)
				return
			}
			c.Cover("bad header " + src)
		}
		for _, src := range []string{"", "{}", "null", "[]", "1", `"x"`, `{"header":{}}`, `{"header":{"tag":"MThd"}}`, `{"header":{"tag":"MThd","format":0}}`, `{"header":{"tag":"XThd","format":0,"PPQN":480}}`, `{"header":{"tag":"MThd","format":0,"SMPTETimeCode":true}}`, `{"header":{"tag":"MThd","format":0,"SMPTETimeCode":true,"division":65535}}`,
			`{"header":{"tag":"MThd","format":0,"PPQN":480},"tracks":[{}]}`, `{"header":{"tag":"MThd","format":0,"PPQN":480},"tracks":[{"tag":"MTrk","events":[{}]}]}`, `{"header":{"tag":"MThd","format":0,"PPQN":480},"tracks":[{"tag":"MTrk","events":[null]}]}`, `{"header":{"tag":"MThd","format":0,"PPQN":480},"tracks":[{"tag":"MTrk","events":[{"event":null}]}]}`,
			`{"header":{"tag":"MThd","format":0,"PPQN":480},"tracks":[{"tag":"MTrk","events":[{"event":{"tag":"Nope","delta":0}}]}]}`, `{"header":{"tag":"MThd","format":0,"PPQN":480},"tracks":[{"tag":"MTrk","events":[{"event":{"delta":0}}]}]}`, `{"header":{"tag":"MThd","format":0,"PPQN":480},"tracks":[{"tag":"MTrk","events":[17]}]}`, strings.Repeat("[", 100000), strings.Repeat(`{"header":`, 50000)} {
			g := assembled(c, "json", []byte(src))
			if c.Failed() {
				return
			}
			if g != nil {
				c.Fail(fmt.Sprintf("source %q assembled as %v", src, g), "json", src)
				return
			}
			c.Cover("bad JSON " + src)
		}
	}})
	for _, nt := range []int{65534, 65535, 65536, 65537} {
		nt := nt
		list = append(list, Case{fmt.Sprintf("%d tracks", nt), func(c *Ctx) {
			var b bytes.Buffer
			b.WriteString("MThd length:6, format:1, tracks:0, metrical time:480 ppqn\n\n")
			for i := 0; i < nt; i++ {
				b.WriteString("MTrk\n")
			}
			g := assembled(c, "text", b.Bytes())
			if g != nil && len(g.Tracks) != nt {
				c.Fail(fmt.Sprintf("%d tracks assembled to %d", nt, len(g.Tracks)))
			}
			js := `{"header":{"tag":"MThd","format":1,"PPQN":480},"tracks":[` + strings.TrimSuffix(strings.Repeat(`{"tag":"MTrk","events":[]},`, nt), ",") + `]}`
			g = assembled(c, "json", []byte(js))
			if g != nil && len(g.Tracks) != nt {
				c.Fail(fmt.Sprintf("%d tracks assembled to %d", nt, len(g.Tracks)))
			}
			c.Cover(fmt.Sprintf("tracks %d", nt))
		}})
	}
	return list
}

var junk = []string{"-1", "256", "128", "65536", "99999999999999999999", "0", "", " ", "%%", "MThd", "MTrk", "delta:", "delta:0", "channel:16", "note:", "C♯", "♭", "/", ",", ":", "format:1", "EndOfTrack", "SysExContinuation", "SysExMessage", "\x00", "\xff\xfe", "\u2028", "F7", "FF", "zz", "metrical time:480 ppqn", "NoteOn", "{", "}", "[", "]", "\"", "null", "true", "1.5", "1e3", "\\u0000", "\\", "-0", "[1,2]", "{}", "[]", "\"x\""}

func mutateSource(r *rand.Rand, s string) string {
	for n := 1 + r.Intn(3); n > 0; n-- {
		lines := strings.Split(s, "\n")
		i := r.Intn(len(lines))
		switch r.Intn(11) {
		case 0: // delete a line
			lines = append(lines[:i:i], lines[i+1:]...)
		case 1: // duplicate
			lines = append(lines[:i:i], append([]string{lines[i]}, lines[i:]...)...)
		case 2: // swap
			j := r.Intn(len(lines))
			lines[i], lines[j] = lines[j], lines[i]
		case 3, 4, 5: // replace a token
			f := strings.FieldsFunc(lines[i], func(r rune) bool { return strings.ContainsRune(" :,/\"[]{}", r) })
			if len(f) > 0 {
				lines[i] = strings.Replace(lines[i], f[r.Intn(len(f))], junk[r.Intn(len(junk))], 1)
			}
		case 6: // truncate
			if k := len(lines[i]); k > 0 {
				lines[i] = lines[i][:r.Intn(k)]
			}
		case 7: // insert
			k := r.Intn(len(lines[i]) + 1)
			lines[i] = lines[i][:k] + junk[r.Intn(len(junk))] + lines[i][k:]
		case 8: // cut the file
			if r.Intn(4) == 0 {
				lines = lines[:i]
			}
		case 9: // random bytes
			b := []byte(lines[i])
			if len(b) > 0 {
				b[r.Intn(len(b))] = byte(r.Intn(256))
			}
			lines[i] = string(b)
		case 10: // junk line
			lines = append(lines[:i:i], append([]string{junk[r.Intn(len(junk))] + " " + junk[r.Intn(len(junk))]}, lines[i:]...)...)
		}
		s = strings.Join(lines, "\n")
		if len(lines) == 0 {
			return s
		}
	}
	return s
}

func assembleCases(tier string, seed int64) []Case {
	list := fieldCases()
	n := 1600
	if tier == "thorough" {
		n = 8000
	}
	for k := 0; k < n; k++ {
		k := k
		list = append(list, Case{fmt.Sprintf("mutated sources %d", k), func(c *Ctx) {
			base := runtime.NumGoroutine()
			r := rng(c.Seed, "C06", k)
			f := gen.Random(r, gen.Opt{Format: -1, MaxEvents: 15, MaxTracks: 4, MaxTextLen: 60, TextSafe: true, UTF8: true, KnownManuf: true, SysExClosed: true})
			if k%10 == 0 {
				f = gen.Dense()
			}
			b := f.Encode()
			smf, err := sut.Decode(b)
			if err != nil {
				c.Fail(fmt.Sprintf("well formed file rejected: %v", err), "midi", b)
				return
			}
			text, _ := sut.Text(smf)
			js, _ := sut.JSON(smf)
			var pretty bytes.Buffer
			json.Indent(&pretty, js, "", " ")
			if f := assembled(c, "text", []byte(text)); f == nil && !c.Failed() {
				c.Fail("disassembly rejected", "text", text)
			}
			for i := 0; i < 40 && !c.Failed(); i++ {
				assembled(c, "text", []byte(mutateSource(r, text)))
				if !c.Failed() {
					assembled(c, "json", []byte(mutateSource(r, pretty.String())))
				}
			}
			for i := 0; i < 5 && !c.Failed(); i++ {
				x := make([]byte, r.Intn(300))
				r.Read(x)
				assembled(c, "text", append([]byte("MThd format:1, metrical time:480 ppqn\nMTrk\ndelta:0 "), x...))
				assembled(c, "text", x)
				assembled(c, "json", x)
			}
			if !c.Failed() {
				settled(c, base, "assembling")
			}
			c.Sample(map[string]any{"source": clip(text)})
		}})
	}
	big := func(name string, kind string, src func(n int) string) {
		list = append(list, Case{"large source: " + name, func(c *Ctx) {
			n := 100000
			if tier == "thorough" {
				n = 300000
			}
			base := runtime.NumGoroutine()
			assembled(c, kind, []byte(src(n)))
			settled(c, base, name)
			c.Cover("large " + name)
		}})
	}
	big("many notes", "text", func(n int) string {
		return strings.Replace(textFrame, "%s", strings.Repeat("delta:1 90 NoteOn channel:0 note:C4, velocity:64\n", n), 1)
	})
	big("long text", "text", func(n int) string {
		return strings.Replace(textFrame, "%s", "delta:1 01 Text "+strings.Repeat("delta:1 NoteOn ", n), 1)
	})
	big("long line that is no event", "text", func(n int) string {
		return strings.Replace(textFrame, "%s", strings.Repeat("delta:1 NoteOnChannel ", n), 1)
	})
	big("long SysEx", "text", func(n int) string {
		return strings.Replace(textFrame, "%s", "delta:1 F0 SysExMessage Yamaha, "+strings.Repeat("00 01 ", n), 1)
	})
	big("many events", "json", func(n int) string {
		return strings.Replace(jsonFrame, "%s", `{"tag":"NoteOn","delta":0,"channel":3,"note":{"value":1},"velocity":1}`+strings.Repeat(`},{"event":{"tag":"NoteOn","delta":0,"channel":3,"note":{"value":1},"velocity":1}`, n), 1)
	})
	return list
}

func init() {
	register(&Check{ID: "C06", Level: "exploration",
		Rule:  "every numeric field of every event of both source formats with values around its limits and around the machine integer sizes, every note name x octave, hostile headers, mutated/random sources, large sources; each under panic, allocation, CPU time and goroutine monitors, each assembled file re-read by an independent strict decoder; distinct = distinct (field, value), accepted outputs and rejection reasons",
		Cases: assembleCases})
}
