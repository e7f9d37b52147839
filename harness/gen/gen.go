// Package gen builds MIDI file workloads: systematic sweeps over every event
// type, field value and boundary, and boundary-biased random files.
package gen

import (
	"fmt"
	"math/rand"
	"unicode/utf8"

	"midiverif/ref"
)

type Ev = ref.Ev
type File = ref.File

// Opt restricts the domain of the generated files.
type Opt struct {
	TextSafe     bool // text payloads that survive a one-line text listing
	UTF8         bool // text payloads are valid UTF-8
	KnownManuf   bool // only manufacturers with a name
	SysExClosed  bool // multi-packet SysEx are consecutive and terminated
	Division     bool // metrical time only
	TrackTempos  bool // tempo events in track 0 only
	NoAliens     bool
	NoPads       bool
	NonEmpty     bool // at least one track
	EOT          bool // every track ends with (exactly one) EndOfTrack
	MaxEvents    int
	MaxTracks    int
	NotesHeavy   bool
	MaxTextLen   int
	SmallDeltas  bool
	Format       int // -1 any
	NoProgramSel bool
	Large        bool // payloads of 2 MB (four byte lengths)
}

var Deltas = []uint32{0, 1, 2, 0x3f, 0x40, 0x7f, 0x80, 0x81, 0xff, 0x100, 0x1fff, 0x2000, 0x3fff, 0x4000, 0x4001, 0xffff, 0x10000, 0x1fffff, 0x200000, 0x200001, 0xfffffe, 0x7ffffff, 0x8000000, 0xffffffe, 0xfffffff}

var TextTypes = []byte{1, 2, 3, 4, 5, 6, 7, 8, 9}

var words = []string{
	"a", "Z", "0", "Example 1", "Acoustic Guitar", "MTrk", "MThd", "MTrk 1 length:12", "MThd length:6, format:1, tracks:2, metrical time:480 ppqn",
	"delta:17", "tick:0", "tick:0  delta:480", "NoteOn", "NoteOff channel:3  note:C4, velocity:64", "channel:5 note:D♯4, velocity:7", "EndOfTrack", "2F EndOfTrack",
	"Tempo tempo:123456", "TrackName", "Text", "Lyric x", "KeySignature A minor", "SysExMessage Korg, 00 01 02", "bank:1, program:2", "Controller channel:1 7/Channel Volume (MSB), value:3",
	"# comment", "#", "// comment", ";", "%d %s %v %%", "{{.Name}}", "{{", "<b>&amp;</b>", "\"quoted\"", "back\\slash \\n \\u0041", "it's", "a,b:c;d", "00 FF 2F 00", "4D 54 72 6B",
	"naïve", "日本語", "♯♭𝄞", "\u00a0x", "é", "e\u0301", "ÿ", "\u2028x\u2029", "\U0001F600", "\ufeffbom", "x\ufffdy", "  double  space  inside", "tab\tinside", "trailing.", "null", "true", "-1", "1e9", "{}", "[]", "+", "|", "a=b", "velocity:127", "value:0", "unknown", "<unknown>", "delta:99999999999 NoteOn",
}

func SafeText(r *rand.Rand, n int) []byte {
	if n == 0 {
		return []byte{}
	}
	s := []byte{}
	for len(s) < n {
		switch r.Intn(4) {
		case 0, 1:
			s = append(s, words[r.Intn(len(words))]...)
		case 2:
			s = append(s, byte(33+r.Intn(94)))
		case 3:
			s = append(append(s, words[r.Intn(len(words))]...), ' ')
		}
	}
	return FitText(string(s), n)
}

// FitText trims s to at most n bytes of valid UTF-8 that does not start with white space.
func FitText(s string, length int) []byte {
	n := length
	if len(s) > n {
		for n > 0 && !utf8.RuneStart(s[n]) {
			n--
		}
		s = s[:n]
	}
	b := []byte(s)
	for len(b) < length {
		b = append(b, 'x')
	}
	for len(b) > 0 && (b[0] == ' ' || b[0] == '\t') {
		b[0] = '_'
	}
	return b
}

func TextLen(r *rand.Rand, max int) int {
	if max <= 0 {
		max = 20000
	}
	n := 0
	switch r.Intn(12) {
	case 0:
		n = 0
	case 1:
		n = []int{1, 2, 126, 127, 128, 129, 255, 256, 257}[r.Intn(9)]
	case 2:
		n = r.Intn(600)
	case 3:
		if r.Intn(8) == 0 {
			n = []int{16383, 16384, 16385}[r.Intn(3)]
		} else {
			n = r.Intn(140)
		}
	default:
		n = 1 + r.Intn(40)
	}
	if n > max {
		n = max
	}
	return n
}

func Text(r *rand.Rand, o Opt) []byte {
	n := TextLen(r, o.MaxTextLen)
	if o.TextSafe || r.Intn(2) == 0 {
		return SafeText(r, n)
	}
	if o.UTF8 {
		rs := []rune{}
		for i := 0; i < n; i++ {
			switch r.Intn(5) {
			case 0:
				rs = append(rs, rune(r.Intn(32)))
			case 1:
				rs = append(rs, rune(0x80+r.Intn(0x700)))
			case 2:
				rs = append(rs, []rune("\u2028\u2029\ufffd\ufeff\n\r\t \x00\x7f<>&\"\\/")[r.Intn(15)])
			default:
				rs = append(rs, rune(32+r.Intn(95)))
			}
		}
		return []byte(string(rs))
	}
	b := make([]byte, n)
	r.Read(b)
	return b
}

func Delta(r *rand.Rand, o Opt) uint32 {
	if o.SmallDeltas {
		return []uint32{0, 0, 1, 2, 10, 24, 48, 96, 120, 240, 480, 960}[r.Intn(12)]
	}
	switch r.Intn(6) {
	case 0:
		return Deltas[r.Intn(len(Deltas))]
	case 1:
		return uint32(r.Int63n(1 << uint(1+r.Intn(28))))
	case 2:
		return 0
	default:
		return uint32(r.Intn(1000))
	}
}

func b7(r *rand.Rand) byte {
	if r.Intn(3) == 0 {
		return []byte{0, 1, 63, 64, 126, 127}[r.Intn(6)]
	}
	return byte(r.Intn(128))
}

func bytes7(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Intn(128))
	}
	return b
}

func Channel(r *rand.Rand, base byte) byte {
	return base | byte(r.Intn(16))
}

var oneByte, threeByte []ref.Manuf

func init() { Refresh() }

// Refresh takes changes of ref.Manufacturers into account
func Refresh() {
	oneByte, threeByte = nil, nil
	for _, m := range ref.Manufacturers {
		if len(m.ID) == 1 {
			oneByte = append(oneByte, m)
		} else {
			threeByte = append(threeByte, m)
		}
	}
}

func OneByteManufs() []ref.Manuf   { return oneByte }
func ThreeByteManufs() []ref.Manuf { return threeByte }

func SysExID(r *rand.Rand, o Opt) byte {
	if o.KnownManuf || r.Intn(2) == 0 {
		return oneByte[r.Intn(len(oneByte))].ID[0]
	}
	return byte(r.Intn(128))
}

// SysEx returns one or more consecutive events of a (multi-packet) SysEx message.
func SysEx(r *rand.Rand, o Opt) []Ev {
	id := SysExID(r, o)
	n := func() int {
		if r.Intn(6) == 0 {
			return []int{0, 1, 125, 126, 127, 128, 255, 300}[r.Intn(8)]
		}
		return r.Intn(20)
	}
	if r.Intn(3) > 0 {
		d := append([]byte{id}, bytes7(r, n())...)
		return []Ev{{Delta: Delta(r, o), Status: 0xf0, Data: append(d, 0xf7)}}
	}
	list := []Ev{{Delta: Delta(r, o), Status: 0xf0, Data: append([]byte{id}, bytes7(r, n())...)}}
	k := 1 + r.Intn(4)
	for i := 0; i < k; i++ {
		d := bytes7(r, n())
		if i == k-1 {
			d = append(d, 0xf7)
		}
		list = append(list, Ev{Delta: Delta(r, o), Status: 0xf7, Data: d})
	}
	return list
}

func Escape(r *rand.Rand, o Opt) Ev {
	b := make([]byte, r.Intn(10))
	r.Read(b)
	if r.Intn(2) == 0 && len(b) > 0 {
		b[0] = 0xf0 + byte(r.Intn(16))
	}
	if r.Intn(4) == 0 {
		b = append(b, 0xf7)
	}
	return Ev{Delta: Delta(r, o), Status: 0xf7, Data: b}
}

func KeySig(r *rand.Rand) Ev {
	return Ev{Status: 0xff, Type: 0x59, Data: []byte{byte(int8(r.Intn(15) - 7)), byte(r.Intn(2))}}
}

func TempoEv(r *rand.Rand) Ev {
	t := 1 + r.Intn(0xffffff)
	switch r.Intn(4) {
	case 0:
		t = []int{0, 1, 255, 256, 65535, 65536, 500000, 0xffffff}[r.Intn(8)]
	case 1:
		t = 200000 + r.Intn(1000000)
	}
	return Ev{Status: 0xff, Type: 0x51, Data: []byte{byte(t >> 16), byte(t >> 8), byte(t)}}
}

func SMPTE(r *rand.Rand) Ev {
	rr := r.Intn(4)
	f := []int{24, 25, 29, 30}[rr]
	return Ev{Status: 0xff, Type: 0x54, Data: []byte{byte(rr<<5 | r.Intn(25)), byte(r.Intn(60)), byte(r.Intn(60)), byte(r.Intn(f)), byte(r.Intn(101))}}
}

func TimeSig(r *rand.Rand) Ev {
	return Ev{Status: 0xff, Type: 0x58, Data: []byte{byte(r.Intn(256)), byte(r.Intn(8)), byte(r.Intn(256)), byte(r.Intn(256))}}
}

func SeqSpecific(r *rand.Rand, o Opt) Ev {
	var d []byte
	if r.Intn(2) == 0 {
		d = append(d, threeByte[r.Intn(len(threeByte))].ID...)
	} else if o.KnownManuf || r.Intn(2) == 0 {
		d = append(d, oneByte[r.Intn(len(oneByte))].ID...)
	} else if r.Intn(2) == 0 {
		d = []byte{0, byte(r.Intn(256)), byte(r.Intn(256))}
	} else {
		d = []byte{byte(1 + r.Intn(255))}
	}
	b := make([]byte, []int{0, 1, 3, 10, 124, 127, 128, 200}[r.Intn(8)])
	r.Read(b)
	return Ev{Status: 0xff, Type: 0x7f, Data: append(d, b...)}
}

// Events returns the next event(s) of a random track.
func Events(r *rand.Rand, o Opt, track int) []Ev {
	d := Delta(r, o)
	ch := func(base byte, data ...byte) []Ev {
		return []Ev{{Delta: d, Status: Channel(r, base), Data: data}}
	}
	with := func(e Ev) []Ev { e.Delta = d; return []Ev{e} }
	if o.NotesHeavy && r.Intn(3) > 0 {
		n := byte(55 + r.Intn(8))
		c := byte(r.Intn(2))
		switch r.Intn(4) {
		case 0:
			return []Ev{{Delta: d, Status: 0x80 | c, Data: []byte{n, b7(r)}}}
		case 1:
			return []Ev{{Delta: d, Status: 0x90 | c, Data: []byte{n, 0}}}
		default:
			return []Ev{{Delta: d, Status: 0x90 | c, Data: []byte{n, 1 + byte(r.Intn(127))}}}
		}
	}
	switch r.Intn(22) {
	case 0, 1:
		return ch(0x80, b7(r), b7(r))
	case 2, 3, 4:
		return ch(0x90, b7(r), b7(r))
	case 5:
		return ch(0xa0, b7(r))
	case 6:
		if r.Intn(2) == 0 {
			return ch(0xb0, []byte{0, 0x20}[r.Intn(2)], b7(r))
		}
		return ch(0xb0, b7(r), b7(r))
	case 7:
		return ch(0xc0, b7(r))
	case 8:
		return ch(0xd0, b7(r))
	case 9:
		return ch(0xe0, b7(r), b7(r))
	case 10:
		return SysEx(r, o)
	case 11:
		return []Ev{Escape(r, o)}
	case 12, 13:
		return with(Ev{Status: 0xff, Type: TextTypes[r.Intn(9)], Data: Text(r, o)})
	case 14:
		if o.TrackTempos && track > 0 {
			return with(KeySig(r))
		}
		return with(TempoEv(r))
	case 15:
		return with(SMPTE(r))
	case 16:
		return with(TimeSig(r))
	case 17, 18:
		return with(KeySig(r))
	case 19:
		return with(SeqSpecific(r, o))
	case 20:
		return with(Ev{Status: 0xff, Type: 0x00, Data: []byte{byte(r.Intn(256)), byte(r.Intn(256))}})
	default:
		if r.Intn(2) == 0 {
			return with(Ev{Status: 0xff, Type: 0x20, Data: []byte{byte(r.Intn(16))}})
		}
		return with(Ev{Status: 0xff, Type: 0x21, Data: []byte{byte(r.Intn(128))}})
	}
}

func EOT(delta uint32) Ev { return Ev{Delta: delta, Status: 0xff, Type: 0x2f, Data: []byte{}} }

var Divisions = []uint16{1, 2, 24, 48, 96, 100, 120, 192, 240, 384, 480, 960, 1920, 10080, 32767}
var SMPTEDivisions = []uint16{0xe804, 0xe850, 0xe728, 0xe350, 0xe250, 0xe27f, 0xe801, 0xe778, 0xe880, 0xe7ff, 0xe3c8, 0xe281}

// Random builds a random file.
func Random(r *rand.Rand, o Opt) *File {
	f := &File{Format: uint16(r.Intn(3))}
	if o.Format >= 0 {
		f.Format = uint16(o.Format)
	}
	if o.Division || r.Intn(5) > 0 {
		f.Division = Divisions[r.Intn(len(Divisions))]
		if r.Intn(4) == 0 {
			f.Division = uint16(1 + r.Intn(0x7fff))
		}
	} else {
		f.Division = SMPTEDivisions[r.Intn(len(SMPTEDivisions))]
	}
	nt := r.Intn(4)
	if o.MaxTracks > 0 && r.Intn(3) == 0 {
		nt = r.Intn(o.MaxTracks + 1)
	}
	if nt == 0 && (o.NonEmpty || r.Intn(4) > 0) {
		nt = 1
	}
	max := o.MaxEvents
	if max == 0 {
		max = 60
	}
	for t := 0; t < nt; t++ {
		evs := []Ev{}
		n := r.Intn(max)
		rs := r.Intn(3) // running status usage
		for len(evs) < n {
			l := Events(r, o, t)
			if rs > 0 && len(evs) > 0 && r.Intn(2) == 0 && l[0].IsChannel() && evs[len(evs)-1].IsChannel() {
				// same status as the previous event so that running status applies
				p := evs[len(evs)-1]
				l[0].Status = p.Status
				l[0].Data = append([]byte{}, p.Data...)
				for i := range l[0].Data {
					l[0].Data[i] = b7(r)
				}
			}
			for i := range l {
				l[i].RS = rs > 0 && r.Intn(4) > 0
				if !o.NoPads && r.Intn(20) == 0 {
					l[i].DeltaPad = 1 + r.Intn(3)
				}
				if !o.NoPads && r.Intn(20) == 0 {
					l[i].LenPad = 1 + r.Intn(3)
				}
			}
			evs = append(evs, l...)
		}
		if o.EOT || r.Intn(10) > 0 {
			evs = append(evs, EOT(Delta(r, o)))
		}
		if !o.EOT && r.Intn(15) == 0 && len(evs) > 0 {
			i := r.Intn(len(evs))
			if o.SysExClosed { // do not split a multi-packet message
				i = 0
			}
			evs = append(evs[:i:i], append([]Ev{EOT(0)}, evs[i:]...)...)
		}
		f.Tracks = append(f.Tracks, evs)
	}
	if !o.NoAliens && r.Intn(4) == 0 {
		for k := 0; k < 1+r.Intn(2); k++ {
			b := make([]byte, r.Intn(30))
			r.Read(b)
			if r.Intn(3) == 0 {
				b = append(b, ref.Chunk("MTrk", []byte{0, 0xff, 0x2f, 0})...)
			} else if r.Intn(4) == 0 { // as in a track
				b = []byte{0, 0x90, 60, 64, 0, 0xff, 0x2f, 0}[4*r.Intn(2):]
			}
			f.Aliens = append(f.Aliens, ref.Alien{Before: r.Intn(nt + 1), Tag: []string{"XFIH", "XFKM", "mtrk", "MTrK", "abcd", "MTHD", "RIFF", "\x00\x00\x00\x00"}[r.Intn(8)], Data: b})
		}
	}
	return f
}

// Wrap makes a file with a single (format 0) track, terminated by EOT
func Wrap(evs ...Ev) *File {
	return &File{Format: 0, Division: 480, Tracks: [][]Ev{append(append([]Ev{}, evs...), EOT(0))}}
}

// Wrap1 makes a FORMAT 1 file with a tempo track and one track
func Wrap1(evs ...Ev) *File {
	return &File{Format: 1, Division: 96, Tracks: [][]Ev{
		{{Status: 0xff, Type: 3, Data: []byte("Tempo")}, {Status: 0xff, Type: 0x51, Data: []byte{7, 0xa1, 0x20}}, EOT(0)},
		append(append([]Ev{}, evs...), EOT(0))}}
}

type Named struct {
	Name string
	File *File
}

func (n Named) String() string { return fmt.Sprintf("%s (%d events)", n.Name, n.File.Events()) }
