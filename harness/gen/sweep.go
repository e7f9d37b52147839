package gen

import (
	"fmt"
	"math/rand"

	"midiverif/ref"
)

// Sweeps returns the systematic files.
func Sweeps(o Opt, thorough bool) []Named {
	list := []Named{}
	add := func(name string, f *File) { list = append(list, Named{name, f}) }

	// every channel event type x channel x data value, with and without running status
	vals := []byte{0, 1, 63, 64, 126, 127}
	for _, base := range []byte{0x80, 0x90, 0xa0, 0xb0, 0xc0, 0xd0, 0xe0} {
		for c := byte(0); c < 16; c++ {
			for rs := 0; rs < 2; rs++ {
				evs := []Ev{}
				put := func(d ...byte) {
					evs = append(evs, Ev{Delta: uint32(len(evs) % 3), Status: base | c, Data: append([]byte{}, d...), RS: rs == 1})
				}
				for v := 0; v < 128; v++ {
					if ref.DataLen(base) == 1 {
						put(byte(v))
						continue
					}
					for _, w := range vals {
						put(byte(v), w)
						put(w, byte(v))
					}
				}
				add(fmt.Sprintf("channel-events %02X rs:%d", base|c, rs), Wrap1(evs...))
			}
		}
	}
	// every pitch bend value
	evs := []Ev{}
	for v := 0; v < 16384; v++ {
		evs = append(evs, Ev{Status: 0xe3, Data: []byte{byte(v >> 7), byte(v & 0x7f)}, RS: v%5 > 0})
	}
	add("pitch-bend all values", Wrap(evs...))

	// delta boundaries
	for pad := 0; pad < 4; pad++ {
		if pad > 0 && o.NoPads {
			break
		}
		evs = []Ev{}
		for i, d := range Deltas {
			evs = append(evs, Ev{Delta: d, DeltaPad: pad, Status: 0x90 | byte(i%16), Data: []byte{60, byte(i)}})
			evs = append(evs, Ev{Delta: d, DeltaPad: pad, Status: 0xff, Type: 1, Data: []byte("x")})
			evs = append(evs, Ev{Delta: d, DeltaPad: pad, Status: 0xf0, Data: []byte{0x43, 0x01, 0xf7}})
		}
		add(fmt.Sprintf("deltas pad:%d", pad), Wrap1(evs...))
	}
	evs = []Ev{}
	for i := 0; i < 28; i++ {
		for _, x := range []int{-1, 0, 1} {
			d := (1 << i) + x
			if d >= 0 && d <= 0xfffffff {
				evs = append(evs, Ev{Delta: uint32(d), Status: 0xc0, Data: []byte{byte(i)}, RS: x == 0})
			}
		}
	}
	for i := 0; i < 200; i++ { // ticks beyond 32 bits
		evs = append(evs, Ev{Delta: 0xfffffff, Status: 0x90, Data: []byte{byte(i % 128), 1}})
	}
	add("deltas powers of 2, long", Wrap1(evs...))

	// text: every type, every length
	lens := []int{}
	for n := 0; n <= 300; n++ {
		lens = append(lens, n)
	}
	lens = append(lens, 511, 512, 1000, 4095, 4096, 8191, 8192, 16382, 16383, 16384, 16385, 32768, 65534, 65535, 65536, 65537, 70000)
	if thorough {
		lens = append(lens, 131072, 262144, 1000000, 2097151, 2097152, 2097153)
	}
	rnd := rand.New(rand.NewSource(4711))
	for _, t := range TextTypes {
		evs = []Ev{}
		for _, n := range lens {
			if n > 70000 && t > 1 {
				continue
			}
			if o.MaxTextLen > 0 && n > o.MaxTextLen {
				continue
			}
			e := Ev{Delta: uint32(n % 7), Status: 0xff, Type: t, Data: FitText(fmt.Sprintf("%d:%s", n, SafeText(rnd, n)), n)}
			if n > 600 {
				add(fmt.Sprintf("text type %02X length %d", t, n), Wrap(e))
			} else {
				evs = append(evs, e)
			}
		}
		add(fmt.Sprintf("text type %02X lengths 0..600", t), Wrap(evs...))

		evs = []Ev{}
		for _, w := range words {
			evs = append(evs, Ev{Delta: 3, Status: 0xff, Type: t, Data: FitText(w, len(w))})
		}
		add(fmt.Sprintf("text type %02X keywords", t), Wrap(evs...))
		if !o.TextSafe {
			evs = []Ev{}
			for c := 0; c < 256; c++ {
				if o.UTF8 {
					evs = append(evs, Ev{Status: 0xff, Type: t, Data: []byte("x" + string(rune(c)) + "y")}, Ev{Status: 0xff, Type: t, Data: []byte(string(rune(c)))})
				} else {
					evs = append(evs, Ev{Status: 0xff, Type: t, Data: []byte{'x', byte(c), 'y'}}, Ev{Status: 0xff, Type: t, Data: []byte{byte(c)}})
				}
			}
			add(fmt.Sprintf("text type %02X bytes", t), Wrap(evs...))
		} else {
			evs = []Ev{}
			for c := 33; c < 127; c++ {
				evs = append(evs, Ev{Status: 0xff, Type: t, Data: []byte{byte(c)}}, Ev{Status: 0xff, Type: t, Data: []byte{'x', byte(c), ' ', byte(c), byte(c)}})
			}
			add(fmt.Sprintf("text type %02X characters", t), Wrap(evs...))
		}
		if !o.NoPads {
			evs = []Ev{}
			for pad := 0; pad < 4; pad++ {
				evs = append(evs, Ev{Status: 0xff, Type: t, LenPad: pad, Data: []byte("padded")}, Ev{Status: 0xff, Type: t, LenPad: pad, Data: SafeText(rnd, 200)})
			}
			add(fmt.Sprintf("text type %02X length pads", t), Wrap(evs...))
		}
	}

	// payloads with a four byte length
	if o.Large || thorough {
		sizes := []int{1<<21 + 129}
		if thorough {
			sizes = []int{1<<21 - 1, 1 << 21, 1<<21 + 129}
		}
		for _, n := range sizes {
			add(fmt.Sprintf("text of %d bytes", n), Wrap(Ev{Delta: 1, Status: 0xff, Type: 1, Data: FitText(fmt.Sprintf("%d:%s", n, SafeText(rnd, n)), n)}, Ev{Delta: 1, Status: 0x90, Data: []byte{60, 64}}))
			d := make([]byte, n)
			for i := range d {
				d[i] = byte(i * 31 % 128)
			}
			d[0] = 0x43
			add(fmt.Sprintf("Sequencer specific event of %d bytes", n), Wrap(Ev{Delta: 1, Status: 0xff, Type: 0x7f, Data: d}, Ev{Delta: 1, Status: 0x90, Data: []byte{60, 64}}))
			x := append([]byte{}, d...)
			x[n-1] = 0xf7
			add(fmt.Sprintf("SysEx of %d bytes", n), Wrap(Ev{Delta: 1, Status: 0xf0, Data: x}, Ev{Delta: 1, Status: 0x90, Data: []byte{60, 64}}))
		}
	}

	// other meta events
	evs = []Ev{}
	meta := func(t byte, d ...byte) {
		evs = append(evs, Ev{Delta: uint32(len(evs) % 5), Status: 0xff, Type: t, Data: append([]byte{}, d...)})
	}
	for hi := 0; hi < 256; hi++ {
		for _, lo := range []int{0, 1, 0x17, 127, 128, 254, 255} {
			meta(0x00, byte(hi), byte(lo))
			meta(0x00, byte(lo), byte(hi))
		}
	}
	add("sequence numbers", Wrap(evs...))
	evs = []Ev{}
	for c := 0; c < 16; c++ {
		meta(0x20, byte(c))
	}
	for c := 0; c < 128; c++ {
		meta(0x21, byte(c))
	}
	add("channel prefixes and ports", Wrap(evs...))
	evs = []Ev{}
	for i := 0; i < 24; i++ {
		for _, x := range []int{-1, 0, 1} {
			v := 1<<i + x
			meta(0x51, byte(v>>16), byte(v>>8), byte(v))
		}
	}
	for i := 0; i < 500; i++ {
		v := rnd.Intn(1 << 24)
		meta(0x51, byte(v>>16), byte(v>>8), byte(v))
	}
	meta(0x51, 0xff, 0xff, 0xff)
	add("tempos", Wrap(evs...))
	evs = []Ev{}
	for a := -7; a <= 7; a++ {
		for m := 0; m < 2; m++ {
			meta(0x59, byte(int8(a)), byte(m))
			for n := 0; n < 128; n++ {
				evs = append(evs, Ev{Status: 0x90, Data: []byte{byte(n), 64}, RS: n > 0})
			}
			for n := 0; n < 128; n++ {
				evs = append(evs, Ev{Status: 0x80, Data: []byte{byte(n), 64}, RS: n > 0})
			}
		}
	}
	add("key signatures with all notes", Wrap(evs...))
	// key signature changes while notes sound
	evs = []Ev{}
	for a := -7; a <= 7; a++ {
		for b := -7; b <= 7; b++ {
			meta(0x59, byte(int8(a)), byte((a+7)%2))
			c := byte((a + 7) % 16)
			evs = append(evs, Ev{Delta: 1, Status: 0x90 | c, Data: []byte{61, 64}}, Ev{Status: 0x90 | (c+1)%16, Data: []byte{70, 64}})
			meta(0x59, byte(int8(b)), byte((b+7)%2))
			evs = append(evs, Ev{Delta: 1, Status: 0x80 | c, Data: []byte{61, 64}}, Ev{Status: 0x90 | (c+1)%16, Data: []byte{70, 0}}, Ev{Status: 0x80 | c, Data: []byte{70, 0}}, Ev{Status: 0x80 | (c+2)%16, Data: []byte{61, 1}}, Ev{Status: 0x80 | (c+1)%16, Data: []byte{70, 3}})
		}
	}
	add("key signature changes during notes", Wrap(evs...))
	evs = []Ev{}
	for n := 0; n < 256; n++ {
		for d := 0; d < 8; d++ {
			meta(0x58, byte(n), byte(d), byte(n*7+d), byte(n*13+d))
		}
	}
	for n := 0; n < 256; n++ {
		meta(0x58, 4, 2, byte(n), 8)
		meta(0x58, 4, 2, 24, byte(n))
	}
	add("time signatures", Wrap(evs...))
	evs = []Ev{}
	for rr := 0; rr < 4; rr++ {
		fr := []int{24, 25, 29, 30}[rr]
		for h := 0; h <= 24; h++ {
			meta(0x54, byte(rr<<5|h), byte(h*2), byte(59-h), byte(h%fr), byte(h*4))
		}
		for x := 0; x < 60; x++ {
			meta(0x54, byte(rr<<5|1), byte(x), 2, 3, 4)
			meta(0x54, byte(rr<<5|1), 2, byte(x), 3, 4)
		}
		for x := 0; x < fr; x++ {
			meta(0x54, byte(rr<<5|1), 2, 3, byte(x), 4)
		}
		for x := 0; x <= 100; x++ {
			meta(0x54, byte(rr<<5|1), 2, 3, 4, byte(x))
		}
	}
	add("SMPTE offsets", Wrap(evs...))
	// sequencer specific
	evs = []Ev{}
	for id := 1; id < 256; id++ {
		if o.KnownManuf && ref.LookupManufacturer([]byte{byte(id)}).Name == "<unknown>" {
			continue
		}
		meta(0x7f, byte(id))
		meta(0x7f, byte(id), 0, 1, 0xfe, 0xff)
	}
	for _, m := range threeByte {
		meta(0x7f, m.ID...)
		meta(0x7f, append(append([]byte{}, m.ID...), 0x3a, 0x4c, 0xf7)...)
	}
	if !o.KnownManuf {
		for a := 0; a < 256; a += 5 {
			for b := 0; b < 256; b += 3 {
				meta(0x7f, 0, byte(a), byte(b), 1)
			}
		}
	}
	add("sequencer specific IDs", Wrap(evs...))
	evs = []Ev{}
	for n := 0; n < 300; n++ {
		d := append([]byte{0x43}, make([]byte, n)...)
		rnd.Read(d[1:])
		meta(0x7f, d...)
	}
	add("sequencer specific lengths", Wrap(evs...))
	for _, n := range []int{16380, 16383, 16384, 70000} {
		d := append([]byte{0x43}, make([]byte, n)...)
		rnd.Read(d[1:])
		add(fmt.Sprintf("sequencer specific length %d", n), Wrap(Ev{Status: 0xff, Type: 0x7f, Data: d}))
	}

	// SysEx
	evs = []Ev{}
	for id := 0; id < 128; id++ {
		if o.KnownManuf && ref.LookupManufacturer([]byte{byte(id)}).Name == "<unknown>" {
			continue
		}
		evs = append(evs, Ev{Delta: 1, Status: 0xf0, Data: []byte{byte(id), 0xf7}})
		evs = append(evs, Ev{Delta: 1, Status: 0xf0, Data: []byte{byte(id), 0, 1, 2, 0x7f, 0xf7}})
		evs = append(evs, Ev{Delta: 1, Status: 0xf0, Data: []byte{byte(id), 0, 1, 2}}, Ev{Delta: 2, Status: 0xf7, Data: []byte{3, 4}}, Ev{Delta: 2, Status: 0xf7, Data: []byte{5, 0xf7}})
		evs = append(evs, Ev{Delta: 1, Status: 0xf0, Data: []byte{byte(id)}}, Ev{Delta: 2, Status: 0xf7, Data: []byte{0xf7}})
		evs = append(evs, Ev{Delta: 1, Status: 0xf7, Data: []byte{0xf3, byte(id)}})
	}
	add("SysEx manufacturers", Wrap(evs...))
	evs = []Ev{}
	for n := 0; n < 300; n++ {
		d := bytes7(rnd, n)
		evs = append(evs, Ev{Status: 0xf0, LenPad: 0, Data: append(append([]byte{0x43}, d...), 0xf7)})
		evs = append(evs, Ev{Status: 0xf0, Data: append([]byte{0x7e}, d...)}, Ev{Delta: 5, Status: 0xf7, Data: append([]byte{}, d...)}, Ev{Delta: 200, Status: 0xf7, Data: append(append([]byte{}, d...), 0xf7)})
		evs = append(evs, Ev{Status: 0xf7, Data: append([]byte{0xf1}, d...)})
	}
	add("SysEx lengths", Wrap(evs...))
	for _, n := range []int{16380, 16383, 16384, 66000} {
		d := bytes7(rnd, n)
		add(fmt.Sprintf("SysEx length %d", n), Wrap(Ev{Status: 0xf0, Data: append(append([]byte{0x43}, d...), 0xf7)},
			Ev{Status: 0xf0, Data: append([]byte{0x43}, d...)}, Ev{Status: 0xf7, Data: d}, Ev{Status: 0xf7, Data: append(append([]byte{}, d...), 0xf7)}, Ev{Status: 0xf7, Data: append([]byte{0xf3}, d...)}))
	}
	evs = []Ev{}
	for b := 0; b < 256; b++ {
		evs = append(evs, Ev{Status: 0xf7, Data: []byte{byte(b)}}, Ev{Status: 0xf7, Data: []byte{byte(b), 0xf7}}, Ev{Status: 0xf7, Data: []byte{0x01, byte(b), byte(255 - b)}})
	}
	add("SysEx escapes", Wrap(evs...))
	evs = []Ev{}
	for packets := 1; packets < 12; packets++ {
		evs = append(evs, Ev{Delta: 10, Status: 0xf0, Data: []byte{0x41, 0x10, 0x42}})
		for k := 0; k < packets; k++ {
			d := []byte{byte(k), byte(packets)}
			if k == packets-1 {
				d = append(d, 0xf7)
			}
			evs = append(evs, Ev{Delta: uint32(k), Status: 0xf7, Data: d})
		}
		evs = append(evs, Ev{Status: 0xf7, Data: []byte{0xfa}}, Ev{Status: 0x90, Data: []byte{60, 1}})
	}
	add("SysEx packet counts", Wrap(evs...))
	if !o.SysExClosed {
		evs = []Ev{{Status: 0xf0, Data: []byte{0x41, 1, 2}}, {Status: 0x90, Data: []byte{60, 1}}, {Status: 0xf7, Data: []byte{3}}, {Status: 0xff, Type: 1, Data: []byte("between packets")}, {Status: 0xf7, Data: []byte{}}, {Status: 0xf7, Data: []byte{4, 0xf7}}, {Status: 0xf7, Data: []byte{0xf3, 1}}}
		add("SysEx packets interleaved with other events", Wrap(evs...))
		add("SysEx unterminated", Wrap(Ev{Status: 0xf0, Data: []byte{0x41, 1, 2}}, Ev{Status: 0xf7, Data: []byte{3}}))
	}

	// every ordered pair (and some triples) of event kinds, same and different channel
	kinds := Kinds()
	for i, a := range kinds {
		evs := []Ev{}
		for j, b := range kinds {
			for same := 0; same < 2; same++ {
				for rs := 0; rs < 2; rs++ {
					x, y := a(byte(i%16)), b(byte(i%16))
					if same == 0 {
						y = b(byte((i + 1 + j) % 16))
					}
					z := a(byte(i % 16))
					for _, l := range [][]Ev{x, y, z} {
						for k := range l {
							l[k].RS = rs == 1
							l[k].Delta = uint32(len(evs) % 200)
						}
						evs = append(evs, l...)
					}
				}
			}
		}
		add(fmt.Sprintf("pairs starting with kind %d", i), Wrap1(evs...))
	}

	// bank select / program change sequences
	for v := 0; v < 4; v++ {
		evs = []Ev{}
		for n := 0; n < 1500; n++ {
			c := byte(rnd.Intn(3)) + byte(v)*4
			switch rnd.Intn(4) {
			case 0:
				evs = append(evs, Ev{Status: 0xb0 | c, Data: []byte{0x00, b7(rnd)}})
			case 1:
				evs = append(evs, Ev{Status: 0xb0 | c, Data: []byte{0x20, b7(rnd)}})
			case 2:
				evs = append(evs, Ev{Status: 0xc0 | c, Data: []byte{b7(rnd)}})
			case 3:
				evs = append(evs, Ev{Status: 0xb0 | c, Data: []byte{[]byte{1, 0x21, 0x7f, 0x40, 0x10, 0x30}[rnd.Intn(6)], b7(rnd)}})
			}
		}
		f := Wrap1(evs...)
		f.Tracks = append(f.Tracks, []Ev{{Status: 0xc0 | byte(v)*4, Data: []byte{1}}, EOT(0)})
		add(fmt.Sprintf("program banks %d", v), f)
	}

	// headers
	for _, format := range []uint16{0, 1, 2} {
		for _, nt := range []int{0, 1, 2, 3, 9, 10, 11, 16, 64, 99, 100, 101, 255, 256, 257} {
			if nt == 0 && o.NonEmpty {
				continue
			}
			f := &File{Format: format, Division: 480}
			for i := 0; i < nt; i++ {
				c, v := byte(i%16), byte(i%128)
				f.Tracks = append(f.Tracks, []Ev{
					{Delta: uint32(i), Status: 0xff, Type: 3, Data: []byte(fmt.Sprintf("Track %d", i))},
					{Delta: uint32(i), Status: 0xc0 | c, Data: []byte{v}},
					{Status: 0xb0 | c, Data: []byte{7, v}},
					{Status: 0x90 | c, Data: []byte{v, 127 - v}},
					{Delta: 5, Status: 0xe0 | c, Data: []byte{v, v}},
					{Delta: 1, Status: 0x80 | c, Data: []byte{v, v}},
					{Status: 0xff, Type: 5, Data: []byte(fmt.Sprintf("la-%d", i))},
					{Status: 0xf0, Data: []byte{0x41, v, 0xf7}},
					EOT(uint32(i))})
			}
			add(fmt.Sprintf("format %d, %d tracks", format, nt), f)
		}
		for i := 0; i < 15; i++ {
			for _, x := range []int{-1, 0, 1} {
				if d := 1<<i + x; d > 0 {
					f := Wrap(Ev{Delta: 7, Status: 0x90, Data: []byte{60, 64}})
					f.Format = format
					f.Division = uint16(d)
					add(fmt.Sprintf("format %d, division %d", format, d), f)
				}
			}
		}
		if !o.Division {
			for _, hi := range []uint16{0xe8, 0xe7, 0xe3, 0xe2} {
				for _, lo := range []uint16{1, 2, 4, 8, 10, 40, 80, 100, 120, 127} {
					f := Wrap(Ev{Delta: 7, Status: 0x90, Data: []byte{60, 64}})
					f.Format = format
					f.Division = hi<<8 | lo
					add(fmt.Sprintf("format %d, SMPTE division %04X", format, f.Division), f)
				}
			}
		}
	}

	// alien chunks
	if !o.NoAliens {
		for _, tag := range []string{"XFIH", "mtrk", "MTrK", "MTrx", "xTrk", "RIFF", "    ", "\xff\xff\xff\xff"} {
			for before := 0; before <= 3; before++ {
				for _, data := range [][]byte{{}, {0}, ref.Chunk("MTrk", []byte{0, 0xff, 0x2f, 0}), {0, 0xff, 0x2f, 0}, make([]byte, 1000)} {
					f := Wrap1(Ev{Status: 0x90, Data: []byte{60, 64}})
					f.Tracks = append(f.Tracks, []Ev{{Delta: 3, Status: 0x91, Data: []byte{61, 62}}, EOT(9)})
					f.Aliens = []ref.Alien{{Before: before, Tag: tag, Data: data}}
					if len(data) == 1 {
						f.Aliens = append(f.Aliens, f.Aliens[0])
					}
					add(fmt.Sprintf("alien chunk %q before track %d (%d bytes)", tag, before, len(data)), f)
				}
			}
		}
	}

	// empty tracks, missing EOT, EOT only, EOT in the middle
	add("empty tracks", &File{Format: 1, Division: 96, Tracks: [][]Ev{{}, {}, {{Status: 0x90, Data: []byte{60, 1}}}}})
	add("EOT with delta", &File{Format: 0, Division: 96, Tracks: [][]Ev{{EOT(12345)}}})
	add("events after EOT", &File{Format: 1, Division: 96, Tracks: [][]Ev{{EOT(1), {Delta: 5, Status: 0xff, Type: 0x51, Data: []byte{1, 2, 3}}}, {{Status: 0x91, Data: []byte{60, 64}}, EOT(1), {Delta: 5, Status: 0x91, Data: []byte{61, 0}}, {Delta: 6, Status: 0xc2, Data: []byte{61}}, EOT(0), EOT(3)}}})
	// contexts must not leak between tracks
	tr := func(a byte) []Ev {
		return []Ev{{Status: 0x93, Data: []byte{70, 1}}, {Status: 0xc3, Data: []byte{1}}, {Status: 0x83, Data: []byte{70, 1}}, {Status: 0xff, Type: 0x59, Data: []byte{a, 0}}, {Status: 0xb3, Data: []byte{0, 5}}, {Status: 0xb3, Data: []byte{0x20, 6}}, {Status: 0xc3, Data: []byte{1}}, {Status: 0x93, Data: []byte{70, 1}}, EOT(0)}
	}
	add("per track context", &File{Format: 1, Division: 96, Tracks: [][]Ev{{EOT(0)}, tr(0xfd), tr(3), tr(0xfb), {{Status: 0x83, Data: []byte{70, 1}}, {Status: 0xc3, Data: []byte{9}}, {Status: 0x93, Data: []byte{70, 1}}, EOT(0)}}})
	if !o.SysExClosed {
		add("unterminated SysEx then next track", &File{Format: 1, Division: 96, Tracks: [][]Ev{{{Status: 0xf0, Data: []byte{0x43, 1}}, EOT(0)}, {{Status: 0xf7, Data: []byte{0xf3, 1}}, {Status: 0xf0, Data: []byte{0x43, 1, 0xf7}}, EOT(0)}}})
	}
	return list
}

// Kinds lists constructors for every kind of event.
func Kinds() []func(c byte) []Ev {
	one := func(e Ev) func(byte) []Ev {
		return func(c byte) []Ev {
			x := e
			if e.IsChannel() {
				x.Status = e.Status&0xf0 | c
			}
			x.Data = append([]byte{}, e.Data...)
			return []Ev{x}
		}
	}
	list := []func(byte) []Ev{
		one(Ev{Status: 0x80, Data: []byte{61, 5}}), one(Ev{Status: 0x90, Data: []byte{61, 0x48}}), one(Ev{Status: 0x90, Data: []byte{61, 0}}), one(Ev{Status: 0xa0, Data: []byte{0x64}}), one(Ev{Status: 0xb0, Data: []byte{7, 0x48}}),
		one(Ev{Status: 0xb0, Data: []byte{0, 3}}), one(Ev{Status: 0xb0, Data: []byte{0x20, 4}}), one(Ev{Status: 0xc0, Data: []byte{0x19}}), one(Ev{Status: 0xd0, Data: []byte{7}}), one(Ev{Status: 0xe0, Data: []byte{0, 8}}),
		one(Ev{Status: 0xf0, Data: []byte{0x7e, 0, 9, 1, 0xf7}}), one(Ev{Status: 0xf7, Data: []byte{0xf3, 1}}),
		func(byte) []Ev {
			return []Ev{{Status: 0xf0, Data: []byte{0x43, 0x12, 0}}, {Status: 0xf7, Data: []byte{0x43, 0x12, 0}}, {Status: 0xf7, Data: []byte{0x43, 0, 0xf7}}}
		},
		one(Ev{Status: 0xff, Type: 0x00, Data: []byte{0, 0x17}}), one(Ev{Status: 0xff, Type: 0x20, Data: []byte{13}}), one(Ev{Status: 0xff, Type: 0x21, Data: []byte{0x70}}), one(Ev{Status: 0xff, Type: 0x51, Data: []byte{7, 0xa1, 0x20}}),
		one(Ev{Status: 0xff, Type: 0x54, Data: []byte{0x4d, 0x2d, 0x3b, 7, 0x27}}), one(Ev{Status: 0xff, Type: 0x58, Data: []byte{3, 2, 0x18, 8}}), one(Ev{Status: 0xff, Type: 0x59, Data: []byte{0xfd, 0}}), one(Ev{Status: 0xff, Type: 0x59, Data: []byte{2, 1}}),
		one(Ev{Status: 0xff, Type: 0x7f, Data: []byte{0, 0, 0x3b, 0x3a, 0x4c, 0x5e}}), one(Ev{Status: 0xff, Type: 0x7f, Data: []byte{0x43, 1}}),
	}
	for _, t := range TextTypes {
		list = append(list, one(Ev{Status: 0xff, Type: t, Data: []byte("Railroad Traq")}))
	}
	return list
}
