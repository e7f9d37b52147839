package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"

	"midiverif/gen"
	"midiverif/ref"
	"midiverif/sut"
)

func rng(seed int64, salt string, i int) *rand.Rand {
	h := int64(1469598103934665603)
	for _, c := range salt {
		h = (h ^ int64(c)) * 1099511628211
	}
	return rand.New(rand.NewSource(h ^ seed*7919 ^ int64(i)*104729))
}

func clip(s string) string {
	if len(s) > 400 {
		return s[:400] + "…"
	}
	return s
}

// diffLines compares two listings line by line, ignoring column widths.
func diffLines(want, got string) string {
	if want == got {
		return ""
	}
	p := strings.Split(want, "\n")
	q := strings.Split(got, "\n")
	for i := 0; i < len(p) && i < len(q); i++ {
		if ref.Squash(p[i]) != ref.Squash(q[i]) {
			return fmt.Sprintf("line %d:\n   want: %s\n   got:  %s", i+1, clip(p[i]), clip(q[i]))
		}
	}
	if len(p) != len(q) {
		return fmt.Sprintf("want %d lines, got %d", len(p), len(q))
	}
	return ""
}

// diffValue compares two decoded JSON values.
func diffValue(path string, want, got any) string {
	switch w := want.(type) {
	case map[string]any:
		g, ok := got.(map[string]any)
		if !ok {
			return fmt.Sprintf("%s: want an object, got %v", path, clip(fmt.Sprint(got)))
		}
		keys := []string{}
		for k := range w {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			v, ok := g[k]
			if !ok {
				return fmt.Sprintf("%s: missing %q", path, k)
			}
			if d := diffValue(path+"."+k, w[k], v); d != "" {
				return d
			}
		}
		return ""
	case []any:
		g, ok := got.([]any)
		if !ok {
			return fmt.Sprintf("%s: want an array, got %v", path, clip(fmt.Sprint(got)))
		}
		for i := 0; i < len(w) && i < len(g); i++ {
			if d := diffValue(fmt.Sprintf("%s[%d]", path, i), w[i], g[i]); d != "" {
				return d
			}
		}
		if len(w) != len(g) {
			return fmt.Sprintf("%s: want %d elements, got %d", path, len(w), len(g))
		}
		return ""
	}
	if !reflect.DeepEqual(want, got) {
		return fmt.Sprintf("%s: want %v, got %v", path, clip(fmt.Sprintf("%#v", want)), clip(fmt.Sprintf("%#v", got)))
	}
	return ""
}

func diffJSON(want any, got []byte) string {
	var v any
	if err := json.Unmarshal(got, &v); err != nil {
		return fmt.Sprintf("invalid JSON (%v)", err)
	}
	return diffValue("$", want, v)
}

// listings decodes b with the real decoder and compares everything that is
// shown for it with the reference model of f.
func listings(c *Ctx, f *ref.File, b []byte, c4 bool) bool {
	smf, err := sut.Decode(b)
	if err != nil {
		c.Fail(fmt.Sprintf("well formed file rejected: %v", err), "midi", b)
		return false
	}
	if d := diffEvents(f, smf, c4); d != "" {
		c.Fail(d, "midi", b)
		return false
	}
	return true
}

func diffEvents(f *ref.File, smf *sut.SMF, c4 bool) string {
	tracks, err := sut.List(smf)
	if err != nil {
		return err.Error()
	}
	if len(tracks) != len(f.Tracks) {
		return fmt.Sprintf("want %d tracks, got %d", len(f.Tracks), len(tracks))
	}
	for i, t := range f.Tracks {
		views := ref.Views(t, c4)
		for j, v := range views {
			if j >= len(tracks[i]) {
				break
			}
			e := tracks[i][j]
			if e.Tick != v.Tick || e.Delta != v.Ev.Delta || e.Tag != v.Tag || string(e.Bytes) != string(v.Ev.Raw) {
				return fmt.Sprintf("track %d event %d: want %s tick:%d delta:%d bytes:%s, got %s tick:%d delta:%d bytes:%s", i, j, v.Tag, v.Tick, v.Ev.Delta, clip(ref.Hex(v.Ev.Raw)), e.Tag, e.Tick, e.Delta, clip(ref.Hex(e.Bytes)))
			}
		}
		if len(tracks[i]) != len(views) {
			return fmt.Sprintf("track %d: want %d events, got %d", i, len(views), len(tracks[i]))
		}
	}
	text, err := sut.Text(smf)
	if err != nil {
		return fmt.Sprintf("disassembly failed: %v", err)
	}
	if d := diffLines(f.Text(c4), text); d != "" {
		return "disassembly: " + d
	}
	js, err := sut.JSON(smf)
	if err != nil {
		return fmt.Sprintf("export failed: %v", err)
	}
	if d := diffJSON(f.JSONValue(c4), js); d != "" {
		return "JSON: " + d
	}
	return ""
}

// fileCases turns the sweeps plus n random files into cases.
func fileCases(id string, o gen.Opt, tier string, seed int64, quick, thorough int, run func(c *Ctx, name string, f *ref.File)) []Case {
	list := []Case{}
	for _, s := range gen.Sweeps(o, tier == "thorough") {
		s := s
		list = append(list, Case{"sweep: " + s.Name, func(c *Ctx) { run(c, s.Name, s.File) }})
	}
	n := quick
	if tier == "thorough" {
		n = thorough
	}
	const batch = 50
	for k := 0; k < n; k += batch {
		k := k
		list = append(list, Case{fmt.Sprintf("random files %d..%d", k, k+batch-1), func(c *Ctx) {
			for i := k; i < k+batch && !c.Failed(); i++ {
				run(c, fmt.Sprintf("random %d", i), gen.Random(rng(c.Seed, id, i), o))
			}
		}})
	}
	return list
}

// observe counts what a file exercises
func observe(c *Ctx, f *ref.File) {
	for _, t := range f.Tracks {
		prev := "-"
		for _, v := range ref.Views(t, false) {
			tag := v.Tag
			if v.Ev.IsChannel() && len(v.Ev.Raw) > 0 && int(len(ref.VLQ(v.Ev.Delta, v.Ev.DeltaPad)))+len(v.Ev.Data) == len(v.Ev.Raw) {
				tag += "/rs"
			}
			c.res.Events[v.Tag]++
			c.Cover(prev + ">" + tag)
			prev = tag
			c.Cover(fmt.Sprintf("%s|%d|%d", tag, len(ref.VLQ(v.Ev.Delta, 0)), bucket(len(v.Ev.Data))))
			if v.Ev.IsChannel() {
				c.Cover(fmt.Sprintf("%02X:%d", v.Ev.Status, v.Ev.Data[0]))
			}
		}
	}
	c.Cover(fmt.Sprintf("f%d t%d d%04X", f.Format, len(f.Tracks), f.Division))
}

func bucket(n int) int {
	if n < 300 {
		return n
	}
	b := 300
	for n > b {
		b *= 2
	}
	return b
}

func sample(c *Ctx, name string, b []byte) {
	c.Sample(map[string]any{"case": name, "bytes": len(b), "hex": clip(ref.Hex(b))})
}
