// Package sut drives the real midiasm code through its public operations.
package sut

import (
	"bytes"
	"encoding"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime/debug"

	"github.com/transcriptaze/midiasm/commands"
	midifile "github.com/transcriptaze/midiasm/encoding/midi"
	"github.com/transcriptaze/midiasm/log"
	"github.com/transcriptaze/midiasm/midi"
	"github.com/transcriptaze/midiasm/midi/context"
	"github.com/transcriptaze/midiasm/midi/events"
	"github.com/transcriptaze/midiasm/midi/events/meta"
	"github.com/transcriptaze/midiasm/midi/events/midi"
	"github.com/transcriptaze/midiasm/midi/events/sysex"
	"github.com/transcriptaze/midiasm/midi/lib"
	"github.com/transcriptaze/midiasm/ops/assemble"
	"github.com/transcriptaze/midiasm/ops/click"
	"github.com/transcriptaze/midiasm/ops/disassemble"
	"github.com/transcriptaze/midiasm/ops/export"
	"github.com/transcriptaze/midiasm/ops/notes"
	"github.com/transcriptaze/midiasm/ops/transpose"
)

type SMF = midi.SMF

// Panic is a recovered panic.
type Panic struct {
	Value any
	Stack string
}

func (p *Panic) Error() string { return fmt.Sprintf("PANIC %v\n%s", p.Value, p.Stack) }

func guard(err *error) {
	if p := recover(); p != nil {
		*err = &Panic{p, string(debug.Stack())}
	}
}

func IsPanic(err error) bool { _, ok := err.(*Panic); return ok }

func Quiet() { log.SetLogLevel(log.None) }

func C4(on bool) {
	if on {
		context.SetMiddleC(lib.C4)
	} else {
		context.SetMiddleC(lib.C3)
	}
}

func Decode(b []byte) (smf *SMF, err error) {
	return DecodeFrom(bytes.NewReader(b))
}

func DecodeFrom(r io.Reader) (smf *SMF, err error) {
	defer guard(&err)
	smf, err = midifile.NewDecoder().Decode(r)
	if err == nil && smf == nil {
		err = fmt.Errorf("nil SMF")
	}
	return
}

func Encode(smf *SMF) (b []byte, err error) {
	defer guard(&err)
	var buf bytes.Buffer
	err = midifile.NewEncoder(&buf).Encode(*smf)
	return buf.Bytes(), err
}

func EncodeTo(smf *SMF, w io.Writer) (err error) {
	defer guard(&err)
	return midifile.NewEncoder(w).Encode(*smf)
}

func TextTo(smf *SMF, w io.Writer) (err error) {
	defer guard(&err)
	op, err := disassemble.NewDisassemble()
	if err != nil {
		return err
	}
	return op.Print(smf, "document", w)
}

func Text(smf *SMF) (string, error) {
	var b bytes.Buffer
	err := TextTo(smf, &b)
	return b.String(), err
}

// TextWith disassembles with custom templates
func TextWith(smf *SMF, templates []byte) (text string, err error) {
	defer guard(&err)
	op, err := disassemble.NewDisassemble()
	if err != nil {
		return "", err
	}
	if err := op.LoadTemplates(bytes.NewReader(templates)); err != nil {
		return "", err
	}
	var b bytes.Buffer
	err = op.Print(smf, "document", &b)
	return b.String(), err
}

// Split prints the header and each track separately
func Split(smf *SMF) (list []string, err error) {
	defer guard(&err)
	op, err := disassemble.NewDisassemble()
	if err != nil {
		return nil, err
	}
	var b bytes.Buffer
	if err = op.Print(smf.MThd, "MThd", &b); err != nil {
		return nil, err
	}
	list = append(list, b.String())
	for _, t := range smf.Tracks {
		b.Reset()
		if err = op.Print(t, "MTrk", &b); err != nil {
			return nil, err
		}
		list = append(list, b.String())
	}
	return
}

func JSONTo(smf *SMF, w io.Writer) (err error) {
	defer guard(&err)
	op, err := export.NewExport()
	if err != nil {
		return err
	}
	return op.Export(smf, w)
}

func JSON(smf *SMF) ([]byte, error) {
	var b bytes.Buffer
	err := JSONTo(smf, &b)
	return b.Bytes(), err
}

func NotesTo(smf *SMF, steps int, json bool, w io.Writer) (err error) {
	defer guard(&err)
	op := notes.Notes{Transpose: steps, JSON: json, Writer: w}
	return op.Execute(smf)
}

func Notes(smf *SMF, steps int, json bool) ([]byte, error) {
	var b bytes.Buffer
	err := NotesTo(smf, steps, json, &b)
	return b.Bytes(), err
}

func ClickTo(smf *SMF, w io.Writer) (err error) {
	defer guard(&err)
	op := click.ClickTrack{Writer: w}
	return op.Execute(smf)
}

func Transpose(smf *SMF, steps int) (b []byte, err error) {
	defer guard(&err)
	op := transpose.Transpose{}
	return op.Execute(smf, steps)
}

func Validate(smf *SMF) (list []string, err error) {
	defer guard(&err)
	for _, e := range smf.Validate() {
		list = append(list, fmt.Sprint(e))
	}
	return
}

func AssembleText(src []byte) ([]byte, error) { return AssembleTextFrom(bytes.NewReader(src)) }
func AssembleTextFrom(r io.Reader) (b []byte, err error) {
	defer guard(&err)
	return assemble.NewTextAssembler().Assemble(r)
}

func AssembleJSON(src []byte) ([]byte, error) { return AssembleJSONFrom(bytes.NewReader(src)) }
func AssembleJSONFrom(r io.Reader) (b []byte, err error) {
	defer guard(&err)
	return assemble.NewJSONAssembler().Assemble(r)
}

// Listing is the decoded event list as seen through the event accessors.
type Listed struct {
	Tick  uint64
	Delta uint32
	Tag   string
	Bytes []byte
}

func List(smf *SMF) (tracks [][]Listed, err error) {
	defer guard(&err)
	for _, t := range smf.Tracks {
		l := []Listed{}
		for _, e := range t.Events {
			l = append(l, Listed{e.Tick(), uint32(e.Delta()), e.Event.Tag(), e.Bytes()})
		}
		tracks = append(tracks, l)
	}
	return
}

// Command runs a command in process (exactly as main does after parsing the
// command name), with the standard output captured in a file of dir.
func Command(dir string, name string, args ...string) (stdout []byte, err error) {
	defer guard(&err)
	table := map[string]commands.Command{
		"disassemble": &commands.Disassemble,
		"assemble":    &commands.Assemble,
		"notes":       &commands.Notes,
		"click":       &commands.Click,
		"export":      &commands.Export,
		"transpose":   &commands.Transpose,
		"tsv":         &commands.TSV,
	}
	cmd := table[name]
	fs := flag.NewFlagSet("midiasm", flag.ContinueOnError)
	fs.SetOutput(io.Discard)
	fs = cmd.Flagset(fs)
	if err := fs.Parse(args); err != nil {
		return nil, err
	}
	f, err := os.Create(filepath.Join(dir, "stdout"))
	if err != nil {
		panic(err)
	}
	saved := os.Stdout
	os.Stdout = f
	defer func() {
		os.Stdout = saved
		f.Close()
		stdout, _ = os.ReadFile(filepath.Join(dir, "stdout"))
	}()
	err = cmd.Execute(fs)
	return
}

// Mute discards what the code writes to the standard error.
func Mute() {
	if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stderr = f
	}
}

// Event is one event on its own
type Event = events.Event

func ReadEvent(b []byte) (e *Event, err error) {
	defer guard(&err)
	e = &Event{}
	err = e.UnmarshalBinary(b)
	return
}

func ReadEventText(s string) (e *Event, err error) {
	defer guard(&err)
	e = &Event{}
	err = e.UnmarshalText([]byte(s))
	return
}

func ReadEventJSON(b []byte) (e *Event, err error) {
	defer guard(&err)
	e = &Event{}
	err = e.UnmarshalJSON(b)
	return
}

// WriteEvent returns an event without its delta
func WriteEvent(e *Event) (b []byte, err error) {
	defer guard(&err)
	m, ok := e.Event.(encoding.BinaryMarshaler)
	if !ok {
		return nil, fmt.Errorf("event cannot be encoded")
	}
	return m.MarshalBinary()
}

func WriteEventJSON(e *Event) (b []byte, err error) {
	defer guard(&err)
	return json.Marshal(e)
}

// Kinds are the exported event types, by tag
var Kinds = map[string]func() any{
	"NoteOff":                func() any { return &midievent.NoteOff{} },
	"NoteOn":                 func() any { return &midievent.NoteOn{} },
	"PolyphonicPressure":     func() any { return &midievent.PolyphonicPressure{} },
	"Controller":             func() any { return &midievent.Controller{} },
	"ProgramChange":          func() any { return &midievent.ProgramChange{} },
	"ChannelPressure":        func() any { return &midievent.ChannelPressure{} },
	"PitchBend":              func() any { return &midievent.PitchBend{} },
	"SysExMessage":           func() any { return &sysex.SysExMessage{} },
	"SysExContinuation":      func() any { return &sysex.SysExContinuationMessage{} },
	"SysExEscape":            func() any { return &sysex.SysExEscapeMessage{} },
	"SequenceNumber":         func() any { return &metaevent.SequenceNumber{} },
	"Text":                   func() any { return &metaevent.Text{} },
	"Copyright":              func() any { return &metaevent.Copyright{} },
	"TrackName":              func() any { return &metaevent.TrackName{} },
	"InstrumentName":         func() any { return &metaevent.InstrumentName{} },
	"Lyric":                  func() any { return &metaevent.Lyric{} },
	"Marker":                 func() any { return &metaevent.Marker{} },
	"CuePoint":               func() any { return &metaevent.CuePoint{} },
	"ProgramName":            func() any { return &metaevent.ProgramName{} },
	"DeviceName":             func() any { return &metaevent.DeviceName{} },
	"MIDIChannelPrefix":      func() any { return &metaevent.MIDIChannelPrefix{} },
	"MIDIPort":               func() any { return &metaevent.MIDIPort{} },
	"EndOfTrack":             func() any { return &metaevent.EndOfTrack{} },
	"Tempo":                  func() any { return &metaevent.Tempo{} },
	"SMPTEOffset":            func() any { return &metaevent.SMPTEOffset{} },
	"TimeSignature":          func() any { return &metaevent.TimeSignature{} },
	"KeySignature":           func() any { return &metaevent.KeySignature{} },
	"SequencerSpecificEvent": func() any { return &metaevent.SequencerSpecificEvent{} },
}

// ReadKind reads an event as an event of a kind; json tells the format
func ReadKind(kind string, isJSON bool, b []byte) (e any, err error) {
	defer guard(&err)
	e = Kinds[kind]()
	if isJSON {
		err = e.(json.Unmarshaler).UnmarshalJSON(b)
	} else {
		err = e.(encoding.BinaryUnmarshaler).UnmarshalBinary(b)
	}
	return
}

// WriteKind encodes an event of a kind without its delta
func WriteKind(e any) (b []byte, err error) {
	defer guard(&err)
	return e.(encoding.BinaryMarshaler).MarshalBinary()
}

// DefineManufacturers loads manufacturer definitions and adds them
func DefineManufacturers(r io.Reader) (err error) {
	defer guard(&err)
	list, err := lib.LoadManufacturers(r)
	if err != nil {
		return err
	}
	lib.AddManufacturers(list)
	return nil
}
