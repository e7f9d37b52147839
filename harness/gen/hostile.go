package gen

import (
	"encoding/binary"
	"math/rand"

	"midiverif/ref"
)

// Dense is a file with every kind of event.
func Dense() *File {
	evs := []Ev{}
	for i, k := range Kinds() {
		l := k(byte(i % 16))
		for j := range l {
			l[j].Delta = uint32(i * 37 % 300)
		}
		evs = append(evs, l...)
	}
	evs = append(evs, Ev{Delta: 10, Status: 0x95, Data: []byte{60, 64}}, Ev{Delta: 10, Status: 0x95, Data: []byte{62, 64}, RS: true}, Ev{Delta: 20, Status: 0x95, Data: []byte{60, 0}, RS: true})
	return Wrap1(evs...)
}

// Raw wraps raw MTrk bodies in a file.
func Raw(format, division uint16, bodies ...[]byte) []byte {
	h := binary.BigEndian.AppendUint16(nil, format)
	h = binary.BigEndian.AppendUint16(h, uint16(len(bodies)))
	h = binary.BigEndian.AppendUint16(h, division)
	b := ref.Chunk("MThd", h)
	for _, t := range bodies {
		b = append(b, ref.Chunk("MTrk", t)...)
	}
	return b
}

var interesting = []byte{0x00, 0x01, 0x07, 0x0f, 0x10, 0x20, 0x2f, 0x3f, 0x40, 0x51, 0x54, 0x58, 0x59, 0x7e, 0x7f, 0x80, 0x81, 0x90, 0xa0, 0xb0, 0xc0, 0xd0, 0xe0, 0xf0, 0xf1, 0xf7, 0xf8, 0xfe, 0xff}

// Mutate damages a file.
func Mutate(r *rand.Rand, b []byte) []byte {
	b = append([]byte{}, b...)
	for n := 1 + r.Intn(4); n > 0 && len(b) > 0; n-- {
		i := r.Intn(len(b))
		if r.Intn(4) == 0 && len(b) > 30 { // headers and lengths
			i = r.Intn(30)
		}
		switch r.Intn(9) {
		case 0:
			b[i] ^= 1 << uint(r.Intn(8))
		case 1:
			b[i] = interesting[r.Intn(len(interesting))]
		case 2:
			b[i] = byte(r.Intn(256))
		case 3: // delete
			j := i + 1 + r.Intn(4)
			if j > len(b) {
				j = len(b)
			}
			b = append(b[:i:i], b[j:]...)
		case 4: // insert
			x := make([]byte, 1+r.Intn(4))
			for k := range x {
				x[k] = interesting[r.Intn(len(interesting))]
			}
			b = append(b[:i:i], append(x, b[i:]...)...)
		case 5: // duplicate
			j := i + 1 + r.Intn(30)
			if j > len(b) {
				j = len(b)
			}
			b = append(b[:j:j], append(append([]byte{}, b[i:j]...), b[j:]...)...)
		case 6: // truncate
			if r.Intn(3) == 0 {
				b = b[:i]
			}
		case 7: // big endian length-like field
			if i+4 <= len(b) {
				binary.BigEndian.PutUint32(b[i:], []uint32{0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffff, 0x00ffffff, uint32(len(b))}[r.Intn(8)])
			}
		case 8: // swap
			j := r.Intn(len(b))
			b[i], b[j] = b[j], b[i]
		}
	}
	return b
}

// Refit corrects the chunk lengths and the number of tracks after a change
// inside the tracks, so that the damage reaches the event decoders.
func Refit(f *File, r *rand.Rand) []byte {
	bodies := [][]byte{}
	for _, t := range f.Tracks {
		b := ref.EncodeTrack(t)
		if len(b) > 0 {
			b = Mutate(r, b)
		}
		bodies = append(bodies, b)
	}
	return Raw(f.Format, f.Division, bodies...)
}
