prop("C08", "Transposing shifts every note and key by the interval and nothing else",
 "Transposing a MIDI file by N semitones (any positive or negative N) writes a well formed MIDI file in which every NoteOn and NoteOff is N semitones away (limited to 0..127), every key signature names the key N semitones away in the same mode, and every other event, delta, velocity, channel and header value is unchanged. Successive transpositions that are not limited add up.",
 ["inputs","histories"], "every well formed MIDI file x every N, and every sequence of transpositions",
 "One reference file is transposed by a few steps in the tests.",
 ["ops/transpose/transpose.go","midi/events/midi/note_on.go","midi/events/midi/note_off.go","midi/events/meta/key_signature.go","midi/lib/scales.go","commands/transpose.go"],
 [("transposition of notes and keys","ops/transpose, midi/events, midi/lib/scales.go"),("re-encoding","encoding/midi/encoder.go")],
 "exploration","runtime monitoring: differential oracle over transposition sweeps and histories",
 "Every output file is decoded by the reference decoder and compared event by event with the arithmetic of the transposition; "+TRUST)

prop("C10", "The notes listing contains every played note exactly once",
 "For every well formed MIDI file with metrical time, the notes command lists exactly one note for each note that is started and ended (by a note off, a note on with zero velocity, or the end of the track) in a note track, and nothing else, in the order in which the notes of each track end, with its channel, number, name and starting velocity, shifted by the requested transposition (limited to 0..127). The JSON and text listings agree; files without a metrical time base are rejected with an error.",
 ["inputs","configurations"], "every such MIDI file x transposition x middle C convention x output format",
 "Two small files are listed by the tests; no overlapping, restarted, unmatched or simultaneous notes.",
 ["ops/notes/notes.go","commands/notes.go"],
 [("event ordering and pairing of note on/off events","ops/notes/notes.go")],
 "exploration","runtime monitoring: conservation/exactly-once oracle over the emitted note list",
 "Each listing is parsed and compared note by note with an independent pairing of the file's events; "+TRUST)

prop("C11", "Note start and end times follow the tempo map to within a millisecond",
 "For every well formed MIDI file with metrical time, every listed note starts, ends and lasts as given by the tempo changes of the tempo track (120 bpm until the first) and the file's ticks per quarter note, to within one millisecond, however many tempo changes and events precede it and wherever they fall relative to the note.",
 ["inputs"], "every tempo map x division x note placement",
 "The tests use one constant tempo.",
 ["ops/notes/notes.go"],
 [("timestamp accumulation over the merged tempo and track events","ops/notes/notes.go")],
 "exploration","runtime monitoring: exact rational-arithmetic timing oracle over the emitted notes",
 "Each listed time is compared with exact rational arithmetic; "+TRUST)

prop("C14", "Notes and keys are named the same way in every listing",
 "Every note is listed with its conventional name for the key signature in force in its track (flats in flat keys, sharps otherwise, octave by the middle C convention), and the text disassembly, JSON export, TSV and notes listings agree on it. A NoteOff carries the name under which its note was started, in that track and on that channel, whatever key changes come in between; every listed name is accepted as source for the same note number.",
 ["inputs","histories","configurations"], "every note x key signature x key change history x channel x middle C convention",
 "The tests name a handful of notes in two keys.",
 ["midi/context/context.go","midi/lib/scales.go","midi/lib/note.go","midi/events/midi/note_on.go","midi/events/midi/note_off.go","midi/events/meta/key_signature.go","ops/notes/notes.go"],
 [("current scale and sounding notes per track","midi/context"),("note formatting and parsing","midi/lib")],
 "exploration","runtime monitoring: naming oracle over complete note x key x convention sweeps and random key/note histories",
 "All 128 notes under all pairs of key signatures are listed by the real code and compared with an independent naming model; "+TRUST)

prop("C15", "The text disassembly is complete and --split writes exactly its parts",
 "For every well formed MIDI file the text disassembly contains the header line, every track line and every event line, in order, with nothing missing, repeated or merged. With --split exactly one header file and one file per track are written, with those same lines, in the requested directory (created if necessary) or next to the input, replacing older output completely and touching no other file.",
 ["inputs","configurations"], "every well formed MIDI file x input name x output directory",
 "The tests compare one whole disassembly; --split is not tested.",
 ["ops/disassemble/disassemble.go","commands/disassemble.go"],
 [("disassembly templates","ops/disassemble"),("file naming and writing of the parts","commands/disassemble.go")],
 "exploration","runtime monitoring: line-by-line conservation oracle over listings and over the directory tree left by the real program",
 "Listing lines are compared with independently formatted lines modulo column widths, and the whole scratch directory tree is compared after each run; "+TRUST)

prop("C16", "TSV output has one correct, parseable record per event",
 "For every well formed MIDI file, TSV output has one record per event of every track, in order, with its tick, delta, tag, channel and details, and can be parsed back with any delimiter, whatever characters the texts contain. The fixed width table, on standard output or with --tabular, shows the same cells.",
 ["inputs","configurations"], "every well formed MIDI file x delimiter x output style",
 "The tests write two small files.",
 ["commands/tsv.go"],
 [("record formatting and quoting","commands/tsv.go")],
 "exploration","runtime monitoring: independent DSV parser and reference table compared with every emitted record",
 "Every emitted record is parsed by an independent parser and compared with the reference; "+TRUST)

prop("C17", "Validation reports exactly the real problems and never blocks the work",
 "Validating a well formed MIDI file reports each violation of the format 0/1 track rules, of end-of-track placement and of bank select pairing exactly once, with the track or event concerned, and reports nothing for a file without such problems. Every command prints the warnings to standard error and still produces exactly the output it would otherwise produce.",
 ["inputs"], "every well formed MIDI file x command",
 "The tests validate three fixed files.",
 ["midi/smf.go","midi/MTrk.go","midi/MThd.go","commands"],
 [("format 0/1 rules","midi/smf.go"),("track rules","midi/MTrk.go")],
 "exploration","runtime monitoring: exactly-once oracle on the reported warnings against an independent rule checker",
 "Reported warnings are compared as multisets with an independent rule checker; a bank select MSB as the very last event of a track is outside the domain; "+TRUST)

prop("C18", "A program change shows the bank selected on its own channel and track",
 "Every program change is listed with the 14 bit bank made of the most recent bank select MSB and LSB controllers on the same channel of the same track (0 until selected), however bank selects, program changes and other events of several channels and tracks are interleaved. Re-encoding never changes or adds a bank select.",
 ["inputs","histories"], "every interleaving of bank selects and program changes over channels and tracks x every bank number",
 "One bank select is decoded by the tests.",
 ["midi/events/midi/program_change.go","midi/events/midi/controller.go","midi/context/context.go"],
 [("program bank per channel","midi/context")],
 "exploration","runtime monitoring: per-channel state-machine oracle over exhaustive banks and random histories",
 "All 16384 banks on all channels plus random histories are compared with an independent state machine; "+TRUST)

prop("C20", "SysEx messages survive every path whole, whatever their size and packets",
 "Single, multi-packet, continuation and escape SysEx messages of any length, with any known or unknown manufacturer, are decoded with exactly the bytes in the file and re-encoded to exactly those bytes, and complete messages survive disassembly or export and reassembly packet for packet. One message never changes how the next one, or another track, is read.",
 ["inputs","histories"], "every sequence of SysEx packets and escapes interleaved with other events x payload length x manufacturer",
 "The tests decode one message of each kind.",
 ["midi/events/sysex","encoding/midi/decoder.go","midi/context/context.go","ops/assemble"],
 [("SysEx state (casio flag) across packets","midi/context, midi/events/sysex"),("assembler fix-ups of multi-packet messages","ops/assemble")],
 "exploration","runtime monitoring: packet conservation oracle over random SysEx histories and length sweeps",
 "Messages are followed through listing, re-encoding and reassembly and compared byte for byte; "+TRUST)

prop("C26", "The middle C convention changes octave names and nothing else",
 "For every file, using --C4 changes only the octave numbers in listings (by one): ticks, bytes, values, warnings, transposition results and assembled, exported and re-encoded music are the same in both conventions. Source written in one convention and assembled in the other is exactly one octave away, or is rejected if that cannot be represented.",
 ["inputs","configurations"], "every MIDI file x operation x both conventions",
 "The C4 convention is covered by a few fixed notes.",
 ["midi/lib/note.go","midi/context/context.go","midi/events/midi/note_on.go","midi/events/midi/note_off.go","cmd/midiasm"],
 [("note formatting and parsing","midi/lib, midi/context")],
 "exploration","runtime monitoring: metamorphic oracle running every operation in both conventions",
 "Each operation is run in both conventions and the outputs are compared with each other and with the reference; "+TRUST)

prop("C12", "Every operation is deterministic and independent of what ran before it",
 "The same input with the same options always gives byte for byte the same output and the same success or failure, in the same process or another one, whatever other files (including malformed ones) were processed before. It does not depend on the environment, the working directory, the name or location of the file, the log level or whether the output goes to a file or to standard output.",
 ["inputs","histories","configurations"], "every input x operation x history of previous operations x environment",
 "Each test runs one operation once in one environment.",
 ["midi/context/context.go","encoding/midi/decoder.go","ops/notes/notes.go","ops/assemble","commands","cmd/midiasm/main.go"],
 [("per-track contexts and package level state","midi/context, midi/lib"),("map iteration in the notes and click operations","ops/notes, ops/click")],
 "exploration","runtime monitoring: replay oracle comparing every result with the first result of the same operation over shuffled histories and environments",
 "Every repetition is compared byte for byte with the first execution; Go randomises map iteration on every run, which the repetitions sample; the click command is compared on standard output only")

prop("C13", "Files can be processed in parallel without races or cross-talk",
 "Independent files and sources can be decoded, listed, exported, validated, transposed, re-encoded and assembled concurrently in one process, and one decoded file can be read by several operations at once: there are no data races and every result is the same as when the operation runs alone.",
 ["schedules","inputs"], "every interleaving of operations on independent inputs and of reading operations on one decoded file",
 "The tests are sequential and run without the race detector.",
 ["midi/context/context.go","midi/lib","midi/events","encoding/midi","ops/assemble/text.go","ops"],
 [("package level state: tables, templates, middle C, buffers","midi/lib, midi/context, ops"),("reader goroutines of the text assembler","ops/assemble/text.go")],
 "exploration","Go race detector plus a sequential-equivalence oracle over parallel batches on 16 goroutines",
 "Only schedules that occur during the stress runs are observed; the race detector reports unsynchronised accesses in them even when the results agree; changing the middle C convention or log level during an operation is outside the domain")

prop("C19", "The program writes exactly the requested output, and nothing if it fails",
 "A successful command exits with code 0 after writing its complete result to standard output, to the --out file (replacing any older content completely), or for assemble to the input name with a .midi extension, and creates or changes no other file; without a command name the file is disassembled, and assemble reads .json files as JSON and all others as text. Unknown or invalid options are rejected. A command that cannot read, decode, assemble or write its files prints an error, exits with a non-zero code and leaves existing files as they were.",
 ["inputs","configurations","fault_sequences"], "every command x option x usable or unusable input x output location",
 "The commands are hardly tested; the program itself not at all.",
 ["cmd/midiasm/main.go","commands"],
 [("command line parsing and exit code","cmd/midiasm/main.go"),("output file handling","commands/*.go")],
 "exploration","runtime monitoring: exit code, output and whole directory tree compared after every run of the real program in a scratch directory",
 "The directory tree is compared before and after each run of the real program; write failures after the output was opened are covered by C21")

prop("C22", "A hand written or edited source assembles to exactly what it says",
 "For text sources the raw bytes, tick and status columns, lengths and counts are optional or may be out of date, and comments (%%), blank lines, CRLF line ends and the amount of white space between fields do not matter; for JSON sources the order of fields, derived values (names, aliases, status, counts) and additional fields do not matter. Deleting, inserting, moving or copying event lines or tracks, or changing a delta, changes the assembled MIDI file in exactly that way and no other.",
 ["inputs","histories"], "every expressible MIDI file x source style x sequence of line edits",
 "The tests assemble two sources written in the style of the disassembler.",
 ["ops/assemble/text.go","ops/assemble/json.go","ops/assemble/assemble.go","midi/events/text.go","midi/events/json.go","midi/events"],
 [("line and chunk scanner","ops/assemble/text.go"),("event parsers","midi/events/*")],
 "exploration","runtime monitoring: differential oracle on sources written by an independent writer in random styles and edited at random",
 "Sources are written by an independent writer and the assembled file is decoded by the reference decoder; "+TRUST)

prop("C23", "Repeated conversions are stable, byte for byte",
 "Converting a MIDI file to text or JSON and back any number of times and in any order gives byte for byte the same MIDI file as simply re-encoding it, and the JSON export and the event lines of the disassembly (apart from the raw bytes) are the same after every round.",
 ["inputs","histories"], "every expressible MIDI file x every chain of conversions",
 "The tests make at most one conversion.",
 ["encoding/midi/encoder.go","ops/assemble","ops/export","ops/disassemble","midi/events"],
 [("binary, text and JSON representations of each event","midi/events/*")],
 "exploration","runtime monitoring: fixed-point oracle over chains of real conversions",
 "Outputs of six chains of up to four conversions are compared byte for byte; longer chains are covered only by induction on the fixed point reached")

prop("C25", "Listing, exporting, validating and encoding never change a decoded file",
 "Any sequence of disassembly, split, export, notes (with any transposition), click, validation and re-encoding on one decoded file gives for each operation the same result as on a freshly decoded file, and a later transposition of that file gives the same result as if none of them had been performed.",
 ["histories","inputs"], "every decoded MIDI file x every sequence of reading operations",
 "The tests perform one operation per decoded file.",
 ["midi/smf.go","midi/MTrk.go","midi/events","ops/notes/notes.go","ops/export","ops/disassemble","encoding/midi/encoder.go"],
 [("operations on shared event pointers","ops/*, midi/events")],
 "exploration","runtime monitoring: history oracle comparing each operation with its result on a fresh decode",
 "Random histories of 8 to 40 operations are compared operation by operation with fresh results; "+TRUST)

prop("C27", "Custom templates replace the named formats and nothing else",
 "A template file given with --templates replaces the format of exactly the event kinds (or columns) it names: every other line and column of the disassembly is as without it, and later disassemblies without it are unaffected. An unusable template file is reported as an error and leaves existing output files untouched.",
 ["inputs","configurations"], "every MIDI file x set of custom templates",
 "The tests replace one template for one file.",
 ["ops/disassemble/disassemble.go","commands/disassemble.go"],
 [("template loading and lookup","ops/disassemble/disassemble.go")],
 "exploration","runtime monitoring: line-by-line oracle over random template sets",
 "Listings with random template sets are compared line by line with the reference; "+TRUST)

prop("C28", "A single event read on its own is the event the file contains",
 "For library users, every complete MIDI, META or SysEx event in binary form (delta, status and data), read on its own with Event.UnmarshalBinary, has exactly the delta, tag and field values of that event, marshals to the JSON that describes it and back, and encodes to the same bytes. An event that is cut short at any byte, or a channel event with an invalid data byte, is rejected with an error; no bytes cause a panic or are read as an event that cannot be encoded. The type of each kind of event reads (binary and JSON) the events of that kind and rejects all others.",
 ["inputs"], "every event x delta x encoding x cut point, and arbitrary bytes",
 "The tests unmarshal one example of each event and no damaged one.",
 ["midi/events/binary.go","midi/events/json.go","midi/events/meta","midi/events/midi","midi/events/sysex"],
 [("dispatch on status and type","midi/events/binary.go"),("UnmarshalBinary, MarshalBinary and JSON of each event","midi/events/*")],
 "exploration","runtime monitoring: differential oracle on single events from sweeps, random files, cuts at every byte and hostile bytes",
 "Every event is compared with the reference model; an F7 message on its own is read as a SysEx continuation (its JSON is completed by the assembler, C20); polyphonic pressure has one data byte (see C01); "+TRUST)

prop("C29", "Manufacturer definitions name exactly the manufacturers they define",
 "Manufacturers defined with LoadManufacturers and AddManufacturers (one byte IDs other than 0, or three byte IDs starting with 0) are used exactly like the built in ones: every SysEx message and sequencer specific event with such an ID is listed and exported with the region and name defined for it (the latest definition wins) and assembles back, by that name or ID, to the same bytes; all other manufacturers are unaffected. Definitions that are unreadable, malformed, incomplete or out of range are rejected as a whole.",
 ["inputs","histories"], "every set of definitions x file, and every order of definitions",
 "There is no test of manufacturer definitions.",
 ["midi/lib/manufacturer.go","midi/events/sysex/message.go","midi/events/meta/sequencer_specific.go"],
 [("LoadManufacturers, AddManufacturers, LookupManufacturer, FindManufacturer","midi/lib/manufacturer.go")],
 "exploration","runtime monitoring: fresh processes define manufacturers while every listing and reassembly is compared with a reference model that was given the same definitions",
 "Names are unique, single line and without commas (the text format separates name and data with a comma); SysEx messages have one byte manufacturer IDs (see C20); "+TRUST)
