package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"strings"
	"testing/iotest"

	"midiverif/gen"
	"midiverif/ref"
	"midiverif/sut"
)

// --- manufacturer definitions

func definitions(r *rand.Rand) []ref.Manuf {
	l := []ref.Manuf{}
	used := map[string]bool{}
	names := map[string]bool{}
	for _, m := range ref.Manufacturers {
		names[m.Name] = true
	}
	words := []string{"Acme", "Синтез", "ヤマハ", "O'Neill & Sons", "\"Quoted\"", "a:b", "x;y", "100%", "Ünïcode", "#1", "<unknown>?", "tab", "Delta:5", "SysExMessage", "{{.}}", "F0 43", "C3"}
	for n := 1 + r.Intn(12); n > 0; n-- {
		var id []byte
		switch r.Intn(4) {
		case 0: // another name for a known one
			id = ref.Manufacturers[r.Intn(len(ref.Manufacturers))].ID
		case 1:
			id = []byte{byte(1 + r.Intn(127))}
		case 2: // same digits as another
			id = []byte{0, 0, byte(1 + r.Intn(127))}
		default:
			id = []byte{0, byte(r.Intn(256)), byte(r.Intn(256))}
		}
		if used[string(id)] && r.Intn(2) == 0 {
			continue
		}
		used[string(id)] = true
		region := []string{"", "Nowhere", "Européen"}[r.Intn(3)]
		name := fmt.Sprintf("%s %X", words[r.Intn(len(words))], id)
		if other := ref.Manufacturers[r.Intn(len(ref.Manufacturers))].Name; r.Intn(4) == 0 {
			// a different name, in letter case or by a word only
			variant := []string{strings.ToUpper(other), strings.ToLower(other), other + " Inc", strings.TrimSuffix(other, ".") + ".", strings.Fields(other)[0]}[r.Intn(5)]
			if !names[variant] {
				name = variant
			}
		}
		if names[name] {
			continue
		}
		names[name] = true
		l = append(l, ref.Manuf{ID: id, Region: region, Name: name})
	}
	return l
}

func definitionFile(r *rand.Rand, l []ref.Manuf) []byte {
	list := []any{}
	for _, m := range l {
		id := []int{}
		for _, b := range m.ID {
			id = append(id, int(b))
		}
		x := map[string]any{"id": id, "region": m.Region, "name": m.Name}
		if m.Region == "" && r.Intn(2) == 0 {
			delete(x, "region")
		}
		if r.Intn(3) == 0 {
			x["name"] = "  " + m.Name + " "
			x["region"] = " " + m.Region + "  "
		}
		if r.Intn(3) == 0 {
			x["comment"] = []any{1, "x"}
		}
		list = append(list, x)
	}
	b, _ := json.Marshal(map[string]any{"manufacturers": list, "version": 1})
	if r.Intn(2) == 0 {
		b, _ = json.MarshalIndent(map[string]any{"manufacturers": list}, "", "\t")
	}
	return b
}

var badDefinitions = []string{
	``, `x`, `[]`, `{"manufacturers":{}}`, `{"manufacturers":[1]}`, `{"manufacturers":[{"id":"43","name":"x"}]}`,
	`{"manufacturers":[{"id":[1],"name":"Good"},{"id":[],"name":"x"}]}`,
	`{"manufacturers":[{"id":[2],"name":"Good"},{"id":[1,2],"name":"x"}]}`,
	`{"manufacturers":[{"id":[3],"name":"Good"},{"id":[0,1,2,3],"name":"x"}]}`,
	`{"manufacturers":[{"id":[4],"name":"Good"},{"id":[256],"name":"x"}]}`,
	`{"manufacturers":[{"id":[5],"name":"Good"},{"id":[-1],"name":"x"}]}`,
	`{"manufacturers":[{"id":[6],"name":"Good"},{"id":[1.5],"name":"x"}]}`,
	`{"manufacturers":[{"id":[7],"name":"Good"},{"id":[9],"name":""}]}`,
	`{"manufacturers":[{"id":[8],"name":"Good"},{"id":[9],"name":"   "}]}`,
	`{"manufacturers":[{"id":[67],"name":"Good"},{"id":[9]}]}`,
	`{"manufacturers":[{"id":[67],"name":"Good"},{"id":[0],"name":"x"}]}`,
	`{"manufacturers":[{"id":[67],"name":"Good"},{"id":[1,2,3],"name":"x"}]}`,
	`{"manufacturers":[{"id":[67],"name":"Good"},{"id":[0,300,3],"name":"x"}]}`,
	`{"manufacturers":[{"id":[67],"name":"Good"},{"name":"x"}]}`,
	`{"manufacturers":[{"id":[67],"name":"Good"}`,
}

func manufacturerCase(c *Ctx, k int) {
	r := rng(c.Seed, "C29", k)
	c4 := r.Intn(2) == 0
	sut.C4(c4)
	files := func(n int, source bool) bool {
		for i := 0; i < n; i++ {
			o := gen.Opt{Format: -1, MaxTracks: 4, MaxTextLen: 60}
			if source {
				o = sourceOpt()
			}
			f := gen.Random(r, o)
			if len(f.Tracks) == 0 {
				continue
			}
			evs := []ref.Ev{}
			for j := 0; j < 12; j++ { // with plenty of manufacturers
				m := ref.Manufacturers[r.Intn(len(ref.Manufacturers))]
				if j%3 == 0 { // the latest
					m = ref.Manufacturers[len(ref.Manufacturers)-1-r.Intn(12)]
				}
				x := byte(r.Intn(128))
				evs = append(evs, ref.Ev{Status: 0xff, Type: 0x7f, Data: append(append([]byte{}, m.ID...), x, 2, 3)})
				if len(m.ID) == 1 && m.ID[0] < 128 {
					evs = append(evs, ref.Ev{Status: 0xf0, Data: append(append([]byte{}, m.ID...), x, 2, 0xf7)})
				}
			}
			t := len(f.Tracks) - 1
			f.Tracks[t] = append(evs, f.Tracks[t]...)
			b := f.Encode()
			c.Eval()
			if !listings(c, f, b, c4) {
				return false
			}
			observe(c, f)
			if !source {
				continue
			}
			smf, err := sut.Decode(b)
			if err != nil {
				c.Fail(fmt.Sprintf("well formed file rejected: %v", err), "midi", b)
				return false
			}
			text, e1 := sut.Text(smf)
			js, e2 := sut.JSON(smf)
			if e1 != nil || e2 != nil {
				c.Fail(fmt.Sprintf("%v %v", e1, e2), "midi", b)
				return false
			}
			p, e1 := sut.AssembleText([]byte(text))
			q, e2 := sut.AssembleJSON(js)
			for _, x := range []struct {
				name string
				b    []byte
				err  error
				src  []byte
			}{{"text", p, e1, []byte(text)}, {"JSON", q, e2, js}} {
				c.Eval()
				if x.err != nil {
					c.Fail(fmt.Sprintf("%s with defined manufacturers rejected: %v", x.name, x.err), "midi", b, "source", x.src)
					return false
				}
				g, err := ref.Decode(x.b)
				if err != nil {
					c.Fail(fmt.Sprintf("%s: assembled file is malformed: %v", x.name, err), "midi", b, "source", x.src)
					return false
				}
				if d := ref.Diff(f, g); d != "" {
					c.Fail(fmt.Sprintf("%s with defined manufacturers assembles to something else: %s", x.name, d), "midi", b, "source", x.src)
					return false
				}
			}
		}
		return true
	}
	if k%2 == 0 && !files(2, false) {
		return
	}
	for round := 0; round < 3 && !c.Failed(); round++ {
		// nothing is taken from a file that is not usable
		for i := 0; i < 6; i++ {
			s := badDefinitions[r.Intn(len(badDefinitions))]
			c.Eval()
			if err := sut.DefineManufacturers(strings.NewReader(s)); err == nil || sut.IsPanic(err) {
				c.Fail(fmt.Sprintf("unusable definitions %s: %v", s, err))
				return
			}
		}
		l := definitions(r)
		b := definitionFile(r, l)
		if err := sut.DefineManufacturers(iotest.TimeoutReader(iotest.OneByteReader(strings.NewReader(string(b))))); err == nil {
			c.Fail("definitions that cannot be read completely are accepted", "definitions", b)
			return
		}
		if err := sut.DefineManufacturers(iotest.ErrReader(errors.New("unreadable"))); err == nil {
			c.Fail("unreadable definitions are accepted")
			return
		}
		if !files(2, r.Intn(2) == 0) {
			return
		}
		c.Eval()
		if err := sut.DefineManufacturers(iotest.HalfReader(strings.NewReader(string(b)))); err != nil {
			c.Fail(fmt.Sprintf("definitions rejected: %v", err), "definitions", b)
			return
		}
		for _, m := range l {
			keep := []ref.Manuf{}
			for _, x := range ref.Manufacturers {
				if string(x.ID) != string(m.ID) {
					keep = append(keep, x)
				}
			}
			ref.Manufacturers = append(keep, m)
			c.Cover(fmt.Sprintf("%X", m.ID))
		}
		gen.Refresh()
		c.Observe("definitions", len(l))
		if !files(8, false) || !files(8, true) {
			return
		}
	}
	// one name for several manufacturers (which cannot be assembled)
	same := []ref.Manuf{}
	for i := 0; i < 2; i++ {
		m := ref.Manufacturers[r.Intn(len(ref.Manufacturers))]
		m.ID = []byte{0, byte(0x70 + i), byte(r.Intn(256))}
		same = append(same, m)
	}
	b := definitionFile(r, same)
	c.Eval()
	if err := sut.DefineManufacturers(strings.NewReader(string(b))); err != nil {
		c.Fail(fmt.Sprintf("definitions rejected: %v", err), "definitions", b)
		return
	}
	for _, m := range same {
		keep := []ref.Manuf{}
		for _, x := range ref.Manufacturers {
			if string(x.ID) != string(m.ID) {
				keep = append(keep, x)
			}
		}
		ref.Manufacturers = append(keep, m)
	}
	gen.Refresh()
	var all []ref.Ev
	for _, m := range ref.Manufacturers {
		all = append(all, ref.Ev{Status: 0xff, Type: 0x7f, Data: append(append([]byte{}, m.ID...), 1)})
	}
	f := &ref.File{Format: 0, Division: 96, Tracks: [][]ref.Ev{append(all, gen.EOT(0))}}
	c.Eval()
	listings(c, f, f.Encode(), c4)
}

func init() {
	register(&Check{ID: "C29", Level: "exploration",
		Rule: "fresh processes that define manufacturers (new, renamed, same digits, one and three byte IDs) in three rounds with unusable definitions in between; every listing and reassembly compared with the reference; distinct = manufacturer IDs defined and event observations",
		Cases: func(tier string, seed int64) []Case {
			list := []Case{}
			n := 120
			if tier == "thorough" {
				n = 6000
			}
			for k := 0; k < n; k++ {
				k := k
				list = append(list, coldCase(fmt.Sprintf("manufacturer definitions %d", k), func(c *Ctx) { manufacturerCase(c, k) }))
			}
			return list
		}})
}
