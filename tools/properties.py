#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json.
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, level, technique, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, level=level, technique=technique, note=note, observe=observe or []))

TESTS = "The existing tests decode, encode and print a handful of fixed files and single events"
TRUST = "trusts the reference model of the MIDI file format in harness/ref (written from the SMF specification and the documentation) and the workload's reach"

prop("C01", "Disassembly and export show exactly what is in the MIDI file",
 "For every well formed Standard MIDI File, decoding lists every track and every event of the file in order, with the absolute tick, delta time, raw bytes and every field value exactly as encoded in the file, including running status, over-long variable length quantities, alien chunks, any channel and any data value. The text disassembly and the JSON export both show those values.",
 ["inputs"], "every well formed MIDI file (format 0, 1 or 2, any division, any sequence of META, MIDI and SysEx events)",
 TESTS + "; the input space of event sequences, values, lengths and running-status contexts is unbounded.",
 ["encoding/midi/decoder.go","midi/MTrk.go","midi/MThd.go","midi/events","midi/events/meta","midi/events/midi","midi/events/sysex","ops/disassemble","ops/export","midi/lib","midi/context"],
 [("track parser and event dispatch, running status and tick accumulation","encoding/midi, midi/events/binary.go"),("event field decoding","midi/events/*"),("disassembly templates","ops/disassemble/template"),("JSON export","ops/export")],
 "exploration","runtime monitoring: differential oracle (reference decoder) over every observed event of generated workloads",
 "Every decoded event, listing line and exported JSON value of each execution is compared online with an independent reference decoder; "+TRUST)

prop("C02", "Decoding and re-encoding a MIDI file preserves its musical content",
 "For every well formed MIDI file, writing the decoded file back as MIDI yields a well formed MIDI file with the same format, division, number of tracks and the same sequence of events (delta, status, type and data bytes) in every track. Re-encoding the result again changes nothing.",
 ["inputs"], "every well formed MIDI file",
 TESTS + "; loss for particular values, lengths or sequences is not sampled.",
 ["encoding/midi/encoder.go","encoding/midi/decoder.go","midi/events","midi/lib"],
 [("binary marshalling of each event","midi/events/*/MarshalBinary"),("chunk length computation","encoding/midi/encoder.go")],
 "exploration","runtime monitoring: round-trip conservation oracle with an independent decoder on the encoder's output",
 "The bytes written by the real encoder are decoded by the reference decoder and compared event by event with the original; "+TRUST)

prop("C03", "Disassembled text assembles back to the same music",
 "For every well formed MIDI file whose text payloads are single-line printable text and whose manufacturers are known, assembling the disassembled text yields a well formed MIDI file with the same format, division, tracks and event sequence as the original. This holds for both middle-C conventions.",
 ["inputs","configurations"], "every such MIDI file x middle C convention",
 TESTS + "; one reference file is assembled.",
 ["ops/assemble","ops/disassemble","midi/events/text.go","midi/events"],
 [("text assembler","ops/assemble/text.go"),("UnmarshalText of each event","midi/events/*"),("note and key parsing","midi/lib")],
 "exploration","runtime monitoring: disassemble/assemble round-trip oracle checked by an independent decoder",
 "Each generated file is disassembled and assembled by the real code in both conventions and the result compared by the reference decoder; "+TRUST)

prop("C04", "Exported JSON assembles back to the same music",
 "For every well formed MIDI file with UTF-8 text payloads, assembling its exported JSON yields a well formed MIDI file with the same format, division, tracks and event sequence as the original, and the exported JSON is valid JSON with the values of the file.",
 ["inputs"], "every such MIDI file",
 TESTS + "; one reference file is assembled from JSON.",
 ["ops/assemble","ops/export","midi/events/json.go","midi/events"],
 [("JSON assembler","ops/assemble/json.go"),("MarshalJSON/UnmarshalJSON of each event","midi/events/*")],
 "exploration","runtime monitoring: export/assemble round-trip oracle checked by an independent decoder",
 "Each generated file is exported and assembled by the real code and the result compared by the reference decoder; "+TRUST)

prop("C05", "No input crashes, hangs or exhausts the memory of any operation",
 "For every byte sequence given as a MIDI file, every operation (disassemble, export, notes, click, TSV, transpose by any number of semitones, validation, re-encoding) terminates promptly with a result or a reported error: it never panics, never hangs and never allocates memory out of proportion to the size of the input.",
 ["inputs"], "every byte sequence, well formed or not, and every semitone count",
 TESTS + ", all well formed; malformed inputs are essentially untested.",
 ["encoding/midi/decoder.go","midi/MTrk.go","midi/events","ops/notes","ops/click","ops/transpose","ops/disassemble","ops/export","cmd/midiasm","commands"],
 [("length and range checks in the decoders","midi/events/*, encoding/midi"),("validation","midi/smf.go")],
 "exploration","sanitizer-style runtime monitors (panic, CPU time, allocation, process death) under hostile and mutated workloads",
 "Systematic hostile encodings, single byte substitutions, mutations and large inputs are run through every operation with panic, time and allocation monitors, and through the real program; inputs not generated are not covered")

prop("C06", "Assembly either rejects the source or writes a valid, faithful MIDI file",
 "For every text or JSON source, assembly terminates and either reports an error or produces a well formed MIDI file that midiasm itself decodes, with correct chunk lengths, track count and in-range data bytes. Values that cannot be represented (notes, velocities, channels, deltas, lengths, ... out of range) are rejected and never silently wrapped or truncated, and no goroutine is left behind.",
 ["inputs"], "every text or JSON source, including mutated and hostile ones",
 TESTS + "; sources with out of range or malformed fields are not tested.",
 ["ops/assemble","midi/events/text.go","midi/events/json.go","midi/events","midi/lib"],
 [("range checks in UnmarshalText/UnmarshalJSON","midi/events/*, midi/lib"),("VLQ encoding","midi/lib/delta.go"),("assembler","ops/assemble")],
 "exploration","runtime monitoring: per-field value sweeps and source mutation with an independent decoder and goroutine-leak monitor as oracle",
 "Every numeric field of every event is swept over in-range and out-of-range values and sources are mutated; each accepted output is decoded and compared by the reference decoder; "+TRUST)

prop("C07", "Truncated or unreadable input is always reported, never read as shorter music",
 "If a MIDI file is cut short at any byte, has a chunk length that disagrees with its contents, or cannot be read completely, then decoding reports an error or returns only complete tracks and events that are really in the file as encoded; a read error is always reported. How the reader splits the input into short reads never changes the result.",
 ["inputs","fault_sequences"], "every well formed file x every truncation point x every read fault offset x every short-read pattern",
 "The tests read complete files from memory.",
 ["encoding/midi/decoder.go","midi/MTrk.go","midi/events/binary.go"],
 [("chunk reader","encoding/midi/decoder.go"),("event reader error handling","midi/events")],
 "fault_enumeration","fault injection: every truncation and read-fault offset of each file, with a reference decoder as oracle",
 "For each file all prefixes and all read-fault offsets are enumerated; files are sampled")

prop("C21", "A failed write is always reported",
 "If the output of an operation (disassembly, JSON export, notes, encoded or assembled MIDI file, TSV) cannot be written completely, at whatever byte the writer fails, the operation reports an error; the program then exits with a non-zero code.",
 ["fault_sequences"], "every output operation x every failing output offset",
 "The tests write to memory buffers that never fail.",
 ["ops/disassemble","ops/export","ops/notes","commands/tsv.go","encoding/midi/encoder.go","commands"],
 [("error propagation from io.Writer","ops/*, commands/*")],
 "fault_enumeration","fault injection: a write fault at every output offset plus full devices for the real program",
 "For each file and operation all output offsets are enumerated; files are sampled; the click command (which lists nothing) is excluded")

exec(open(os.path.join(V, "tools", "more.py")).read()) if os.path.exists(os.path.join(V, "tools", "more.py")) else None
NA = globals().get("NA", [])
P.sort(key=lambda p: p["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
          "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
          "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["observe"], "hook_needed": None}}, ensure_ascii=False) + "\n")
M = {"version": 1, "setup_cmd": "./setup.sh",
 "hooks": {"guard": "verif", "enable": "no hooks are needed: the monitors observe the public packages and the program, built from /repo's working tree", "source_commits": []},
 "checks": [{"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"./check.sh {p['id']} thorough", "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for p in P if p["id"] not in [n["property"] for n in NA]],
 "not_applicable": NA}
json.dump(M, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
