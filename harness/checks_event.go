package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"unicode/utf8"

	"midiverif/gen"
	"midiverif/ref"
	"midiverif/sut"
)

// --- single events

// raw is an event with its delta and status
func raw(e ref.Ev) []byte {
	e.RS = false
	t := []ref.Ev{e}
	return ref.EncodeTrack(t)
}

func viewOf(e ref.Ev, c4 bool) ref.View {
	if e.Status == 0xf7 { // a lone F7 is read as a continuation
		e2 := e
		v := ref.Views([]ref.Ev{{Status: 0xf0, Data: []byte{0x7e}}, e2}, c4)[1]
		return v
	}
	return ref.Views([]ref.Ev{e}, c4)[0]
}

func singleEvent(c *Ctx, e ref.Ev, c4 bool) bool {
	c.Eval()
	b := raw(e)
	v := viewOf(e, c4)
	fail := func(format string, a ...any) bool {
		c.Fail(fmt.Sprintf("%s: ", clip(ref.Hex(b)))+fmt.Sprintf(format, a...), "event", b)
		return false
	}
	keep := append([]byte{}, b...)
	x, err := sut.ReadEvent(b)
	if err != nil {
		return fail("rejected: %v", err)
	}
	if string(keep) != string(b) {
		return fail("reading the event changed its bytes")
	}
	if x.Event.Delta() != e.Delta || x.Event.Tag() != v.Tag || string(x.Event.Bytes()) != string(b) {
		return fail("want %s delta:%d, got %s delta:%d bytes:%s", v.Tag, e.Delta, x.Event.Tag(), x.Event.Delta(), clip(ref.Hex(x.Event.Bytes())))
	}
	js, err := sut.WriteEventJSON(x)
	if err != nil {
		return fail("JSON: %v", err)
	}
	if d := diffJSON(map[string]any{"event": v.JSON}, js); d != "" {
		return fail("JSON: %s", d)
	}
	p := e
	p.Delta, p.DeltaPad, p.LenPad = 0, 0, 0
	want := raw(p)[1:]
	out, err := sut.WriteEvent(x)
	if err != nil {
		return fail("cannot be encoded: %v", err)
	}
	if string(out) != string(want) {
		return fail("encoded as %s", clip(ref.Hex(out)))
	}
	// as JSON and as a line of text
	if valid := e.Status != 0xf7 && (e.Status != 0xff || !ref.IsText(e.Type) || utf8.Valid(e.Data)); valid {
		y, err := sut.ReadEventJSON(js)
		if err != nil {
			return fail("its JSON is rejected: %v", err)
		}
		if out, err := sut.WriteEvent(y); err != nil || string(out) != string(want) || y.Event.Delta() != e.Delta {
			return fail("after JSON: delta:%d %s %v", y.Event.Delta(), clip(ref.Hex(out)), err)
		}
	}
	c.Cover(fmt.Sprintf("%02X/%02X:%d", e.Status, e.Type, bucket(len(e.Data))))
	return true
}

func eventCases(tier string, seed int64) []Case {
	o := gen.Opt{Format: -1, MaxTracks: 3, MaxTextLen: 300}
	list := fileCases("C28", o, tier, seed, 20000, 60000, func(c *Ctx, name string, f *ref.File) {
		c4 := len(name)%2 == 0
		sut.C4(c4)
		r := rand.New(rand.NewSource(int64(len(name))))
		n := 0
		for _, t := range f.Tracks {
			for i, e := range t {
				if len(t) > 2000 && i%7 > 0 {
					continue
				}
				if e.Status == 0xf0 && (len(e.Data) == 0 || e.Data[0] >= 0x80) {
					continue
				}
				if !singleEvent(c, e, c4) {
					return
				}
				n++
				if r.Intn(16) == 0 && len(e.Data) < 400 && !kinds(c, e) {
					return
				}
				if r.Intn(4) == 0 && len(e.Data) < 400 && !cutEvent(c, e) {
					return
				}
			}
		}
		c.Observe("events", n)
	})
	for _, size := range []int{16383, 16384, 16385, 70000, 2097151, 2097152} {
		size := size
		list = append(list, Case{fmt.Sprintf("events of %d bytes", size), func(c *Ctx) {
			r := rng(c.Seed, "C28l", size)
			d := make([]byte, size)
			for i := range d {
				d[i] = byte(0x20 + r.Intn(0x5f))
			}
			sut.C4(true)
			for _, typ := range []byte{1, 2, 3, 4, 5, 6, 7, 8, 9, 0x7f} {
				if !singleEvent(c, ref.Ev{Delta: uint32(size), Status: 0xff, Type: typ, Data: d}, true) {
					return
				}
			}
			f7 := append(append([]byte{}, d...), 0xf7)
			for _, e := range []ref.Ev{{Status: 0xf0, Data: d}, {Status: 0xf0, Data: f7}, {Status: 0xf7, Data: d}, {Status: 0xf7, Data: append([]byte{0xf3}, d...)}} {
				if !singleEvent(c, e, true) {
					return
				}
			}
			c.Observe("events", 14)
		}})
	}
	n := 40000
	if tier == "thorough" {
		n = 400000
	}
	for st := 0x80; st < 0x100; st++ {
		st := st
		list = append(list, Case{fmt.Sprintf("hostile events %02X", st), func(c *Ctx) {
			r := rng(c.Seed, "C28h", st)
			for i := 0; i < n; i++ {
				b := []byte{byte(r.Intn(128)), byte(st)}
				if st == 0xff {
					b = append(b, []byte{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0x20, 0x21, 0x2f, 0x51, 0x54, 0x58, 0x59, 0x7f, byte(r.Intn(256))}[r.Intn(19)])
				}
				if st >= 0xf0 {
					b = append(b, byte(r.Intn(8)))
				}
				for n := r.Intn(8); n > 0; n-- {
					b = append(b, byte(r.Intn([]int{256, 128, 64, 32, 8, 2}[r.Intn(6)])))
				}
				if !hostileEvent(c, b) {
					return
				}
			}
		}})
	}
	return list
}

// kinds: an event is read by the type of its own kind and rejected by the others
func kinds(c *Ctx, e ref.Ev) bool {
	b := raw(e)
	p := e
	p.Delta, p.DeltaPad, p.LenPad = 0, 0, 0
	want := raw(p)[1:]
	x, err := sut.ReadEvent(b)
	if err != nil {
		c.Fail(fmt.Sprintf("%s: %v", clip(ref.Hex(b)), err), "event", b)
		return false
	}
	js, err := sut.WriteEventJSON(x)
	if err != nil {
		c.Fail(fmt.Sprintf("%s: %v", clip(ref.Hex(b)), err), "event", b)
		return false
	}
	var w struct{ Event json.RawMessage }
	if err := json.Unmarshal(js, &w); err != nil {
		c.Fail(fmt.Sprintf("%s: %v", clip(ref.Hex(b)), err), "event", b)
		return false
	}
	js = w.Event
	valid := e.Status != 0xf7 && (e.Status != 0xff || !ref.IsText(e.Type) || utf8.Valid(e.Data))
	for kind := range sut.Kinds {
		for _, isJSON := range []bool{false, true} {
			src := b
			if isJSON {
				src = js
			}
			own := kind == x.Event.Tag()
			if !isJSON && kind == "SysExEscape" && e.Status == 0xf7 || own && isJSON && !valid {
				continue
			}
			c.Eval()
			y, err := sut.ReadKind(kind, isJSON, src)
			bad := sut.IsPanic(err) || (err == nil) != own
			var out []byte
			if err == nil && own {
				out, err = sut.WriteKind(y)
				bad = bad || err != nil || string(out) != string(want)
			}
			if bad {
				c.Fail(fmt.Sprintf("%s %s read as %s (JSON:%v): %v %v %s", x.Event.Tag(), clip(ref.Hex(b)), kind, isJSON, y, err, clip(ref.Hex(out))), "event", b, "json", js)
				return false
			}
		}
	}
	c.Observe("events read by type", 1)
	return true
}

// cutEvent: an event that is cut short is never read as something else
func cutEvent(c *Ctx, e ref.Ev) bool {
	b := raw(e)
	for n := 0; n < len(b); n++ {
		c.Eval()
		x, err := sut.ReadEvent(b[:n:n])
		if err == nil || sut.IsPanic(err) {
			c.Fail(fmt.Sprintf("%s cut to %d bytes: %v %v", clip(ref.Hex(b)), n, x.Event, err), "event", b)
			return false
		}
	}
	return true
}

// hostileEvent: any bytes are either rejected or read as a valid event
func hostileEvent(c *Ctx, b []byte) bool {
	c.Eval()
	x, err := sut.ReadEvent(b)
	if sut.IsPanic(err) {
		c.Fail(fmt.Sprintf("%s: %v", clip(ref.Hex(b)), err), "event", b)
		return false
	}
	if err != nil {
		c.Observe("rejected", 1)
		return true
	}
	out, err := sut.WriteEvent(x)
	if err != nil {
		c.Fail(fmt.Sprintf("%s: accepted as %v, cannot be encoded: %v", clip(ref.Hex(b)), x.Event, err), "event", b)
		return false
	}
	if b[1] < 0xf0 && string(out) != string(b[1:]) {
		c.Fail(fmt.Sprintf("%s: accepted as %v, encoded as %s", clip(ref.Hex(b)), x.Event, clip(ref.Hex(out))), "event", b)
		return false
	}
	if b[1] == 0xf0 && b[3] >= 0x80 { // outside of the domain
		return true
	}
	t, err := ref.DecodeTrack(append([]byte{0}, out...))
	if err != nil || len(t) != 1 || !ref.Valid(t[0]) {
		c.Fail(fmt.Sprintf("%s: accepted as %v, encoded as %s", clip(ref.Hex(b)), x.Event, clip(ref.Hex(out))), "event", b)
		return false
	}
	c.Observe("accepted", 1)
	return true
}

func init() {
	register(&Check{ID: "C28", Level: "exploration",
		Rule:  "distinct event status/type/length classes read on their own",
		Cases: eventCases,
	})
}
