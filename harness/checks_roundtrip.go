package main

import (
	"fmt"

	"midiverif/gen"
	"midiverif/ref"
	"midiverif/sut"
)

const ruleFiles = "systematic sweeps (every event type x channel x data value, delta/length boundaries, every text length 0..300 and VLQ boundaries, all pairs of event kinds, headers, alien chunks) plus boundary-biased random files; distinct = distinct (event kind, predecessor), (kind, delta size, data length), (status, first data byte) and header combinations observed"

func init() {
	register(&Check{
		ID: "C01", Level: "exploration", Rule: ruleFiles,
		Assumptions: []string{"PolyphonicPressure is generated with the one data byte midiasm supports (see known findings)"},
		Cases: func(tier string, seed int64) []Case {
			list := fileCases("C01", gen.Opt{Large: true, Format: -1, MaxTracks: 20}, tier, seed, 8000, 400000, func(c *Ctx, name string, f *ref.File) {
				b := f.Encode()
				c4 := len(b)%2 == 1
				sut.C4(c4)
				if listings(c, f, b, c4) {
					observe(c, f)
					sample(c, name, b)
				}
				c.Eval()
			})
			return append(list, Case{"known finding: 2 byte polyphonic pressure", func(c *Ctx) {
				c.Eval()
				b := append((&ref.File{Format: 0, Division: 96, Tracks: [][]ref.Ev{{}}}).Header(), ref.Chunk("MTrk", []byte{0x00, 0xa0, 0x3c, 0x64, 0x00, 0xff, 0x2f, 0x00})...)
				if smf, err := sut.Decode(b); err != nil {
					c.Known("polyphonic-pressure-2-bytes", fmt.Sprintf("rejected: %v", err), "midi", b)
				} else if l, _ := sut.List(smf); len(l[0]) != 2 {
					c.Known("polyphonic-pressure-2-bytes", fmt.Sprintf("misread as %d events", len(l[0])), "midi", b)
				}
			}})
		},
	})

	register(&Check{
		ID: "C02", Level: "exploration", Rule: ruleFiles,
		Cases: func(tier string, seed int64) []Case {
			return fileCases("C02", gen.Opt{Large: true, Format: -1, MaxTracks: 20}, tier, seed, 40000, 400000, func(c *Ctx, name string, f *ref.File) {
				c.Eval()
				b := f.Encode()
				smf, err := sut.Decode(b)
				if err != nil {
					c.Fail(fmt.Sprintf("well formed file rejected: %v", err), "midi", b)
					return
				}
				out, err := sut.Encode(smf)
				if err != nil {
					c.Fail(fmt.Sprintf("cannot encode a decoded file: %v", err), "midi", b)
					return
				}
				g, err := ref.Decode(out)
				if err != nil {
					c.Fail(fmt.Sprintf("encoded file is malformed: %v", err), "midi", b, "encoded", out)
					return
				}
				if d := ref.Diff(f, g); d != "" {
					c.Fail("decode+encode changed the file: "+d, "midi", b, "encoded", out)
					return
				}
				// idempotent: the encoding is a fixed point
				if smf, err = sut.Decode(out); err != nil {
					c.Fail(fmt.Sprintf("encoded file rejected: %v", err), "midi", b, "encoded", out)
					return
				}
				again, err := sut.Encode(smf)
				if err != nil || string(again) != string(out) {
					c.Fail(fmt.Sprintf("encoding is not stable (%v)", err), "midi", b, "encoded", out, "again", again)
					return
				}
				// the transpose command with 0 semitones rewrites the file
				tr, err := sut.Transpose(smf, 0)
				if err != nil {
					c.Fail(fmt.Sprintf("cannot transpose by 0: %v", err), "midi", b)
					return
				}
				if g, err = ref.Decode(tr); err != nil {
					c.Fail(fmt.Sprintf("transposed file is malformed: %v", err), "midi", b, "encoded", tr)
					return
				}
				if d := ref.DiffTransposed(f, g, 0); d != "" {
					c.Fail("transpose by 0 changed the file: "+d, "midi", b, "encoded", tr)
					return
				}
				observe(c, f)
				sample(c, name, b)
			})
		},
	})

	textOpt := gen.Opt{Large: true, Format: -1, MaxTracks: 20, TextSafe: true, UTF8: true, KnownManuf: true, SysExClosed: true}
	register(&Check{
		ID: "C03", Level: "exploration", Rule: ruleFiles,
		Cases: func(tier string, seed int64) []Case {
			return fileCases("C03", textOpt, tier, seed, 5000, 120000, func(c *Ctx, name string, f *ref.File) {
				b := f.Encode()
				for _, c4 := range []bool{false, true} {
					c.Eval()
					sut.C4(c4)
					smf, err := sut.Decode(b)
					if err != nil {
						c.Fail(fmt.Sprintf("well formed file rejected: %v", err), "midi", b)
						return
					}
					text, err := sut.Text(smf)
					if err != nil {
						c.Fail(fmt.Sprintf("disassembly failed: %v", err), "midi", b)
						return
					}
					out, err := sut.AssembleText([]byte(text))
					if err != nil {
						c.Fail(fmt.Sprintf("disassembly (C4:%v) cannot be assembled: %v", c4, err), "midi", b, "text", text)
						return
					}
					g, err := ref.Decode(out)
					if err != nil {
						c.Fail(fmt.Sprintf("assembled file is malformed: %v", err), "midi", b, "text", text, "assembled", out)
						return
					}
					if d := ref.Diff(f, g); d != "" {
						c.Fail(fmt.Sprintf("disassemble+assemble (C4:%v) changed the file: %s", c4, d), "midi", b, "text", text, "assembled", out)
						return
					}
				}
				observe(c, f)
				sample(c, name, b)
			})
		},
	})

	jsonOpt := gen.Opt{Large: true, Format: -1, MaxTracks: 20, UTF8: true, SysExClosed: true}
	register(&Check{
		ID: "C04", Level: "exploration", Rule: ruleFiles,
		Cases: func(tier string, seed int64) []Case {
			return fileCases("C04", jsonOpt, tier, seed, 12000, 200000, func(c *Ctx, name string, f *ref.File) {
				b := f.Encode()
				c4 := len(b)%2 == 1
				sut.C4(c4)
				c.Eval()
				smf, err := sut.Decode(b)
				if err != nil {
					c.Fail(fmt.Sprintf("well formed file rejected: %v", err), "midi", b)
					return
				}
				js, err := sut.JSON(smf)
				if err != nil {
					c.Fail(fmt.Sprintf("export failed: %v", err), "midi", b)
					return
				}
				if d := diffJSON(f.JSONValue(c4), js); d != "" {
					c.Fail("export: "+d, "midi", b)
					return
				}
				out, err := sut.AssembleJSON(js)
				if err != nil {
					c.Fail(fmt.Sprintf("exported JSON cannot be assembled: %v", err), "midi", b, "json", js)
					return
				}
				g, err := ref.Decode(out)
				if err != nil {
					c.Fail(fmt.Sprintf("assembled file is malformed: %v", err), "midi", b, "json", js, "assembled", out)
					return
				}
				if d := ref.Diff(f, g); d != "" {
					c.Fail("export+assemble changed the file: "+d, "midi", b, "json", js, "assembled", out)
					return
				}
				observe(c, f)
				sample(c, name, b)
			})
		},
	})
}
