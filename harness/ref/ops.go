package ref

import (
	"fmt"
	"math/big"
	"strings"
)

// --- transpose

func Clamp(v int) byte {
	if v < 0 {
		return 0
	}
	if v > 127 {
		return 127
	}
	return byte(v)
}

// Shift is the note that is steps semitones away, limited to 0..127.
func Shift(note byte, steps int) byte {
	if steps > 127 {
		return 127
	} else if steps < -127 {
		return 0
	}
	return Clamp(int(note) + steps)
}

// DiffTransposed checks that got is want transposed by steps. Key signatures
// are compared by mode and tonic pitch class (any enharmonic spelling will do).
func DiffTransposed(orig, got *File, steps int) string {
	if orig.Format != got.Format || orig.Division != got.Division {
		return fmt.Sprintf("header: want format %d division %04X, got format %d division %04X", orig.Format, orig.Division, got.Format, got.Division)
	}
	if len(orig.Tracks) != len(got.Tracks) {
		return fmt.Sprintf("tracks: want %d, got %d", len(orig.Tracks), len(got.Tracks))
	}
	for i := range orig.Tracks {
		p, q := orig.Tracks[i], got.Tracks[i]
		for k := 0; k < len(p) && k < len(q); k++ {
			a, b := p[k], q[k]
			bad := a.Delta != b.Delta || a.Status != b.Status || a.Type != b.Type || len(a.Data) != len(b.Data)
			switch {
			case bad:
			case a.Status&0xf0 == 0x80 && a.Status < 0xf0, a.Status&0xf0 == 0x90:
				bad = b.Data[0] != Shift(a.Data[0], steps) || b.Data[1] != a.Data[1]
			case a.IsMeta(0x59):
				am, bm := a.Data[1] == 1, b.Data[1] == 1
				want := ((Tonic(int8(a.Data[0]), am)+steps%12)%12 + 12) % 12
				bad = a.Data[1] != b.Data[1] || int8(b.Data[0]) < -7 || int8(b.Data[0]) > 7 || Tonic(int8(b.Data[0]), bm) != want
			default:
				bad = string(a.Data) != string(b.Data)
			}
			if bad {
				return fmt.Sprintf("track %d event %d: %v transposed by %d became %v", i, k, a, steps, b)
			}
		}
		if len(p) != len(q) {
			return fmt.Sprintf("track %d: want %d events, got %d", i, len(p), len(q))
		}
	}
	return ""
}

// --- notes

type Note struct {
	Channel, Note, Velocity byte
	Name                    string
	Start, End              *big.Rat // milliseconds
}

func (n Note) String() string {
	s, _ := n.Start.Float64()
	e, _ := n.End.Float64()
	return fmt.Sprintf("{%s ch:%d note:%d vel:%d %.3fms..%.3fms}", n.Name, n.Channel, n.Note, n.Velocity, s, e)
}

type tempoChange struct {
	tick  uint64
	tempo int64
}

// Notes pairs up the note on/off events of the note tracks.
func (f *File) Notes(transpose int, c4 bool) []Note {
	list := []Note{}
	if len(f.Tracks) == 0 {
		return list
	}
	tempi := []tempoChange{}
	tick := uint64(0)
	for _, e := range f.Tracks[0] {
		tick += uint64(e.Delta)
		if e.IsMeta(0x51) {
			tempi = append(tempi, tempoChange{tick, int64(e.Data[0])<<16 | int64(e.Data[1])<<8 | int64(e.Data[2])})
		}
	}
	tracks := f.Tracks
	if len(tracks) > 1 {
		tracks = tracks[1:]
	}
	ppqn := int64(f.Division)

	at := func(t uint64) *big.Rat { // ms
		sum := new(big.Int) // tick * us
		last, tempo := uint64(0), int64(500000)
		add := func(upto uint64) {
			x := new(big.Int).SetUint64(upto - last)
			sum.Add(sum, x.Mul(x, big.NewInt(tempo)))
			last = upto
		}
		for _, c := range tempi {
			if c.tick > t {
				break
			}
			add(c.tick)
			tempo = c.tempo
		}
		add(t)
		return new(big.Rat).SetFrac(sum, big.NewInt(ppqn*1000))
	}

	type pending struct {
		tick uint64
		vel  byte
		name string
	}
	for _, track := range tracks {
		on := map[[2]byte]pending{}
		useFlats := false
		tick := uint64(0)
		emit := func(k [2]byte, end uint64) {
			p := on[k]
			delete(on, k)
			list = append(list, Note{k[0], Shift(k[1], transpose), p.vel, p.name, at(p.tick), at(end)})
		}
		for _, e := range track {
			tick += uint64(e.Delta)
			ch := e.Status & 0x0f
			switch {
			case e.IsMeta(0x59):
				useFlats = int8(e.Data[0]) < 0
			case e.Status&0xf0 == 0x90 && e.Data[1] > 0:
				k := [2]byte{ch, e.Data[0]}
				if _, ok := on[k]; !ok {
					on[k] = pending{tick, e.Data[1], NoteName(Shift(e.Data[0], transpose), useFlats, c4)}
				}
			case e.Status&0xf0 == 0x90, e.IsChannel() && e.Status&0xf0 == 0x80:
				k := [2]byte{ch, e.Data[0]}
				if _, ok := on[k]; ok {
					emit(k, tick)
				}
			case e.IsMeta(0x2f):
				for c := 0; c < 16; c++ {
					for n := 0; n < 128; n++ {
						k := [2]byte{byte(c), byte(n)}
						if _, ok := on[k]; ok {
							emit(k, tick)
						}
					}
				}
			}
		}
	}
	return list
}

// --- validation

func typeName(v View) string {
	switch v.Tag {
	case "SysExContinuation":
		return "SysExContinuationMessage"
	case "SysExEscape":
		return "SysExEscapeMessage"
	}
	return v.Tag
}

func (f *File) Validate() []string {
	errs := []string{}
	add := func(format string, a ...any) { errs = append(errs, fmt.Sprintf(format, a...)) }
	views := [][]View{}
	for _, t := range f.Tracks {
		views = append(views, Views(t, false))
	}
	switch f.Format {
	case 0:
		if len(f.Tracks) != 1 {
			add("File contains %d tracks (expected 1 track for FORMAT 0)", len(f.Tracks))
		}
	case 1:
		for i, t := range views {
			for _, v := range t {
				ok := true
				if i == 0 {
					switch v.Tag {
					case "Tempo", "TimeSignature", "TrackName", "SMPTEOffset", "Copyright", "EndOfTrack":
					default:
						ok = false
					}
				} else if v.Tag == "Tempo" || v.Tag == "SMPTEOffset" {
					ok = false
				}
				if !ok {
					add("Track %d: unexpected event (%s)", i, typeName(v))
				}
			}
		}
	}
	for i, t := range views {
		eot := false
		for j, v := range t {
			if v.Tag == "EndOfTrack" {
				eot = true
				if j != len(t)-1 {
					add("Track %d: EndOfTrack @%d (EndOfTrack) is not last event", i, j+1)
				}
			}
		}
		if !eot {
			add("Track %d: missing EndOfTrack event", i)
		}
	}
	for i, t := range f.Tracks {
		ctl := func(j int, id byte) bool {
			return j >= 0 && j < len(t) && t[j].Status&0xf0 == 0xb0 && t[j].Data[0] == id
		}
		for j := range t {
			switch {
			case ctl(j-1, 0x00) && ctl(j, 0x20):
				if t[j-1].Status != t[j].Status {
					add("Track %d: 'Bank Select MSB' event @%d LSB on another channel (Controller)", i, j)
					add("Track %d: 'Bank Select LSB' event @%d MSB on another channel (Controller)", i, j+1)
				}
			case ctl(j-1, 0x00) && !ctl(j, 0x20):
				add("Track %d: 'Bank Select MSB' event @%d missing LSB (Controller)", i, j)
			case ctl(j, 0x20):
				add("Track %d: 'Bank Select LSB' event @%d missing MSB (Controller)", i, j+1)
			}
		}
	}
	return errs
}

// --- TSV

var TSVHeader = []string{"Tick", "Delta", "Tag", "Channel", "Note", "Velocity", "Details"}

func (f *File) TSV(c4 bool) [][]string {
	rows := 0
	for _, t := range f.Tracks {
		if len(t) > rows {
			rows = len(t)
		}
	}
	table := make([][]string, rows+1)
	for i := range table {
		table[i] = make([]string, 7*len(f.Tracks))
	}
	for i, t := range f.Tracks {
		copy(table[0][7*i:], TSVHeader)
		for j, v := range Views(t, c4) {
			copy(table[j+1][7*i:], []string{fmt.Sprint(v.Tick), fmt.Sprint(v.Ev.Delta), v.Tag, v.Channel, v.Note, v.Vel, v.TSV})
		}
	}
	return table
}

// Normalised whitespace
func Squash(s string) string { return strings.Join(strings.Fields(s), " ") }
