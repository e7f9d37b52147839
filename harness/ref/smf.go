// Package ref is an independent reference model of the Standard MIDI File
// format and of what midiasm is documented to show for it. It shares no code
// with midiasm.
package ref

import (
	"encoding/binary"
	"errors"
	"fmt"
)

// Ev is one event. Data holds the data bytes of a channel event, the payload
// of a meta event or the payload (after the length) of an F0/F7 event.
type Ev struct {
	Delta  uint32
	Status byte
	Type   byte // meta event type (Status == 0xff)
	Data   []byte

	// encoding choices (never semantic)
	RS       bool // use running status if it is legal here
	DeltaPad int  // redundant leading 0x80 bytes in the delta
	LenPad   int  // redundant leading 0x80 bytes in the length

	// set by Decode/Encode: the exact bytes of the event in the file
	Raw []byte `json:"-"`
}

type Alien struct {
	Before int // emitted before track #Before
	Tag    string
	Data   []byte
}

type File struct {
	Format   uint16
	Division uint16
	Tracks   [][]Ev
	Aliens   []Alien
}

func VLQ(v uint32, pad int) []byte {
	b := []byte{byte(v & 0x7f)}
	for v >>= 7; v > 0; v >>= 7 {
		b = append([]byte{0x80 | byte(v&0x7f)}, b...)
	}
	for pad > 0 && len(b) < 4 {
		b = append([]byte{0x80}, b...)
		pad--
	}
	return b
}

func DataLen(status byte) int {
	switch status & 0xf0 {
	case 0xA0, 0xC0, 0xD0: // midiasm dialect: polyphonic pressure has one data byte
		return 1
	case 0x80, 0x90, 0xB0, 0xE0:
		return 2
	}
	return -1
}

func (e Ev) IsChannel() bool { return e.Status >= 0x80 && e.Status < 0xf0 }
func (e Ev) IsMeta(t byte) bool {
	return e.Status == 0xff && e.Type == t
}

// EncodeTrack returns the MTrk body and fills in the Raw bytes of the events.
func EncodeTrack(evs []Ev) []byte {
	out := []byte{}
	running := byte(0)
	for i := range evs {
		e := &evs[i]
		b := VLQ(e.Delta, e.DeltaPad)
		switch {
		case e.Status == 0xff:
			b = append(b, 0xff, e.Type)
			b = append(b, VLQ(uint32(len(e.Data)), e.LenPad)...)
			b = append(b, e.Data...)
			running = 0
		case e.Status == 0xf0 || e.Status == 0xf7:
			b = append(b, e.Status)
			b = append(b, VLQ(uint32(len(e.Data)), e.LenPad)...)
			b = append(b, e.Data...)
			running = 0
		default:
			if !(e.RS && running == e.Status) {
				b = append(b, e.Status)
			}
			b = append(b, e.Data...)
			running = e.Status
		}
		e.Raw = b
		out = append(out, b...)
	}
	return out
}

func Chunk(tag string, data []byte) []byte {
	b := []byte(tag)
	b = binary.BigEndian.AppendUint32(b, uint32(len(data)))
	return append(b, data...)
}

func (f *File) Header() []byte {
	h := binary.BigEndian.AppendUint16(nil, f.Format)
	h = binary.BigEndian.AppendUint16(h, uint16(len(f.Tracks)))
	h = binary.BigEndian.AppendUint16(h, f.Division)
	return Chunk("MThd", h)
}

func (f *File) Encode() []byte {
	out := f.Header()
	for i := range f.Tracks {
		for _, a := range f.Aliens {
			if a.Before == i {
				out = append(out, Chunk(a.Tag, a.Data)...)
			}
		}
		out = append(out, Chunk("MTrk", EncodeTrack(f.Tracks[i]))...)
	}
	for _, a := range f.Aliens {
		if a.Before >= len(f.Tracks) {
			out = append(out, Chunk(a.Tag, a.Data)...)
		}
	}
	return out
}

// Offsets of the boundaries between events/chunks in an encoded file (used to
// pick truncation points)
func (f *File) Boundaries() []int {
	list := []int{0, 4, 8, 14}
	at := 14
	for i := range f.Tracks {
		for _, a := range f.Aliens {
			if a.Before == i {
				at += 8 + len(a.Data)
				list = append(list, at)
			}
		}
		at += 8
		list = append(list, at)
		for _, e := range f.Tracks[i] {
			at += len(e.Raw)
			list = append(list, at)
		}
	}
	return list
}

var errShort = errors.New("truncated")

func vlq(b []byte) (uint32, int, error) {
	v := uint32(0)
	for i := 0; i < len(b); i++ {
		if i == 4 {
			return 0, 0, fmt.Errorf("VLQ longer than 4 bytes")
		}
		v = v<<7 | uint32(b[i]&0x7f)
		if b[i]&0x80 == 0 {
			return v, i + 1, nil
		}
	}
	return 0, 0, errShort
}

// Decode is a strict structural decoder.
func Decode(b []byte) (*File, error) {
	type chunk struct {
		tag  string
		data []byte
	}
	chunks := []chunk{}
	for len(b) > 0 {
		if len(b) < 8 {
			return nil, errShort
		}
		n := binary.BigEndian.Uint32(b[4:8])
		if uint64(n) > uint64(len(b)-8) {
			return nil, errShort
		}
		chunks = append(chunks, chunk{string(b[:4]), b[8 : 8+int(n)]})
		b = b[8+int(n):]
	}
	if len(chunks) == 0 || chunks[0].tag != "MThd" {
		return nil, fmt.Errorf("missing MThd")
	}
	h := chunks[0].data
	if len(h) != 6 {
		return nil, fmt.Errorf("MThd length %d", len(h))
	}
	f := &File{
		Format:   binary.BigEndian.Uint16(h),
		Division: binary.BigEndian.Uint16(h[4:]),
		Tracks:   [][]Ev{},
	}
	n := int(binary.BigEndian.Uint16(h[2:]))
	if f.Format > 2 {
		return nil, fmt.Errorf("format %d", f.Format)
	}
	if f.Division&0x8000 != 0 {
		switch f.Division >> 8 {
		case 0xe8, 0xe7, 0xe3, 0xe2:
		default:
			return nil, fmt.Errorf("bad SMPTE division %04X", f.Division)
		}
	}
	for _, c := range chunks[1:] {
		if c.tag != "MTrk" {
			f.Aliens = append(f.Aliens, Alien{len(f.Tracks), c.tag, c.data})
			continue
		}
		t, err := DecodeTrack(c.data)
		if err != nil {
			return nil, fmt.Errorf("track %d: %w", len(f.Tracks), err)
		}
		f.Tracks = append(f.Tracks, t)
	}
	if len(f.Tracks) != n {
		return nil, fmt.Errorf("MThd says %d tracks, found %d", n, len(f.Tracks))
	}
	return f, nil
}

func DecodeTrack(b []byte) ([]Ev, error) {
	evs := []Ev{}
	running := byte(0)
	for len(b) > 0 {
		start := b
		d, n, err := vlq(b)
		if err != nil {
			return nil, err
		}
		b = b[n:]
		if len(b) == 0 {
			return nil, errShort
		}
		e := Ev{Delta: d}
		if b[0] >= 0x80 {
			e.Status = b[0]
			b = b[1:]
		} else if running != 0 {
			e.Status = running
			e.RS = true
		} else {
			return nil, fmt.Errorf("data byte %02X without running status", b[0])
		}
		switch {
		case e.Status == 0xff:
			if len(b) < 1 {
				return nil, errShort
			}
			e.Type = b[0]
			b = b[1:]
			fallthrough
		case e.Status == 0xf0 || e.Status == 0xf7:
			l, n, err := vlq(b)
			if err != nil {
				return nil, err
			}
			b = b[n:]
			if uint64(l) > uint64(len(b)) {
				return nil, errShort
			}
			e.Data = b[:l]
			b = b[l:]
			running = 0
		default:
			l := DataLen(e.Status)
			if l < 0 {
				return nil, fmt.Errorf("invalid status %02X", e.Status)
			}
			if len(b) < l {
				return nil, errShort
			}
			for _, v := range b[:l] {
				if v > 0x7f {
					return nil, fmt.Errorf("data byte %02X", v)
				}
			}
			e.Data = b[:l]
			b = b[l:]
			running = e.Status
		}
		e.Raw = start[:len(start)-len(b)]
		evs = append(evs, e)
	}
	return evs, nil
}

// Diff compares the semantic content of two files (not the encoding choices).
func Diff(want, got *File) string {
	if want.Format != got.Format {
		return fmt.Sprintf("format: want %d, got %d", want.Format, got.Format)
	}
	if want.Division != got.Division {
		return fmt.Sprintf("division: want %04X, got %04X", want.Division, got.Division)
	}
	if len(want.Tracks) != len(got.Tracks) {
		return fmt.Sprintf("tracks: want %d, got %d", len(want.Tracks), len(got.Tracks))
	}
	for i := range want.Tracks {
		if d := DiffTrack(want.Tracks[i], got.Tracks[i]); d != "" {
			return fmt.Sprintf("track %d: %s", i, d)
		}
	}
	return ""
}

func DiffTrack(p, q []Ev) string {
	for i := 0; i < len(p) && i < len(q); i++ {
		if p[i].Delta != q[i].Delta || p[i].Status != q[i].Status || p[i].Type != q[i].Type || string(p[i].Data) != string(q[i].Data) {
			return fmt.Sprintf("event %d: want %v, got %v", i, p[i], q[i])
		}
	}
	if len(p) != len(q) {
		return fmt.Sprintf("want %d events, got %d", len(p), len(q))
	}
	return ""
}

func (e Ev) String() string {
	d := e.Data
	s := ""
	if len(d) > 40 {
		d = d[:40]
		s = fmt.Sprintf("…(%d)", len(e.Data))
	}
	if e.Status == 0xff {
		return fmt.Sprintf("{+%d FF %02X [% X%s]}", e.Delta, e.Type, d, s)
	}
	return fmt.Sprintf("{+%d %02X [% X%s]}", e.Delta, e.Status, d, s)
}

func (f *File) Clone() *File {
	g := *f
	g.Tracks = make([][]Ev, len(f.Tracks))
	for i, t := range f.Tracks {
		g.Tracks[i] = make([]Ev, len(t))
		copy(g.Tracks[i], t)
		for j := range t {
			g.Tracks[i][j].Data = append([]byte{}, t[j].Data...)
		}
	}
	return &g
}

func (f *File) Events() int {
	n := 0
	for _, t := range f.Tracks {
		n += len(t)
	}
	return n
}
