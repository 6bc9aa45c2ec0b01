package harness

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"unicode/utf16"

	"pgregory.net/rapid"
)

type fmtCase struct {
	Levels   [][]Val    `json:"levels"` // hashes of each level, one for each path
	Yaml     [][]string `json:"yaml"`   // the same hashes as YAML
	JSON     [][]string `json:"json"`   // and as JSON
	Mixed    []bool     `json:"mixed"`  // levels that are JSON in the mixed configuration
	Keys     []string   `json:"keys"`
	Strategy string     `json:"strategy"`
	Style    []string   `json:"style,omitempty"`
}

// jsonText writes a value as JSON, with a style that is drawn for each node
func jsonText(t *rapid.T, v V) string {
	b := &strings.Builder{}
	ws := func() {
		b.WriteString(pick(t, `ws`, ``, ``, ` `, "\n", "\t", "\r\n  "))
	}
	var write func(v V)
	str := func(s string) {
		if chance(t, 7, `plainstr`) {
			bs, err := json.Marshal(s)
			must(err)
			b.Write(bs)
			return
		}
		b.WriteByte('"')
		for _, r := range s {
			switch {
			case r == '/':
				b.WriteString(`\/`)
			case r > 0xffff:
				hi, lo := utf16.EncodeRune(r)
				fmt.Fprintf(b, `\u%04x\u%04X`, hi, lo)
			default:
				fmt.Fprintf(b, `\u%04x`, r)
			}
		}
		b.WriteByte('"')
	}
	write = func(v V) {
		ws()
		switch v := v.(type) {
		case L:
			b.WriteByte('[')
			for i, e := range v {
				if i > 0 {
					b.WriteByte(',')
				}
				write(e)
			}
			ws()
			b.WriteByte(']')
		case M:
			b.WriteByte('{')
			ks := keys(v)
			if len(ks) > 1 && rapid.Bool().Draw(t, `reverse`) {
				for i, j := 0, len(ks)-1; i < j; i, j = i+1, j-1 {
					ks[i], ks[j] = ks[j], ks[i]
				}
			}
			for i, k := range ks {
				if i > 0 {
					b.WriteByte(',')
				}
				ws()
				str(k)
				ws()
				b.WriteByte(':')
				write(v[k])
			}
			ws()
			b.WriteByte('}')
		case string:
			str(v)
		case float64:
			s := flow(v)
			if strings.Contains(s, `e`) && rapid.Bool().Draw(t, `E`) {
				s = strings.Replace(s, `e`, `E`, 1)
			}
			b.WriteString(s)
		default:
			b.WriteString(flow(v))
		}
		ws()
	}
	write(v)
	return b.String()
}

var fmtKeys = []string{`a`, `b`, `c`, `d e`, `true`, `1`, `x.y`, `Å`}

func genFmtCase(t *rapid.T) fmtCase {
	c := fmtCase{Strategy: pick(t, `strategy`, ``, ``, `unique`, `hash`, `deep`)}
	pad := 0
	if rapid.IntRange(0, 39).Draw(t, `large`) == 17 {
		pad = pick(t, `pad`, 5000, 70000, 1100000)
	}
	ks := append([]string{}, fmtKeys[:rapid.IntRange(2, len(fmtKeys)).Draw(t, `nkeys`)]...)
	for i := rapid.IntRange(0, 2).Draw(t, `nodd`); i > 0; i-- {
		ks = append(ks, genOddString(t))
	}
	used := map[string]bool{}
	for i := rapid.IntRange(1, 3).Draw(t, `nlevels`); i > 0; i-- {
		var hs []Val
		var ys, js []string
		for j := rapid.IntRange(1, 2).Draw(t, `npaths`); j > 0; j-- {
			m := M{}
			for _, k := range ks {
				if k != `lookup_options` && chance(t, 5, `has`) {
					m[k] = genOddValue(t, 3, false)
				}
			}
			w := &docWriter{t: t, used: used, noAnchors: true}
			var y string
			if pad > 0 {
				// A large file, where the other data is after, or before, what makes it large
				m[pick(t, `padkey`, `AA`, `zz`)] = strings.Repeat(`x y`, pad/3)
				w.use(`large`)
			}
			switch rapid.IntRange(0, 5).Draw(t, `yamlas`) {
			case 0:
				y = flow(m)
			case 1:
				y = jsonYaml(t, m)
			default:
				y = w.document(m)
			}
			if chance(t, 1, `crlf`) && !strings.Contains(y, "\r") {
				y = strings.ReplaceAll(y, "\n", "\r\n")
				w.use(`crlf`)
			}
			if chance(t, 1, `bom`) {
				y = "\ufeff" + y
				w.use(`bom`)
			}
			hs, ys, js = append(hs, Val{m}), append(ys, y), append(js, jsonText(t, m))
		}
		c.Levels, c.Yaml, c.JSON = append(c.Levels, hs), append(c.Yaml, ys), append(c.JSON, js)
		c.Mixed = append(c.Mixed, rapid.Bool().Draw(t, `mixed`))
	}
	for _, k := range ks {
		q := writeSeg(k, rapid.IntRange(0, 2).Draw(t, `how`))
		c.Keys = append(c.Keys, q)
		if chance(t, 4, `dotted`) {
			c.Keys = append(c.Keys, q+pick(t, `dig`, `.0`, `.1`, `.a`, `.""`, `.dup`, `.0.a`, `."a: b"`))
		}
	}
	c.Style = (&docWriter{used: used}).styles()
	return c
}

// jsonYaml is JSON text that is YAML too
func jsonYaml(t *rapid.T, m M) string {
	bs, err := json.MarshalIndent(jsonFloats(m), ``, pick(t, `indent`, ` `, `  `, `    `))
	must(err)
	if got, err := parseYAML(bs); err != nil || !eq(got, V(m)) {
		return flow(m)
	}
	return string(bs)
}

// jsonFloats makes the encoder of the standard library write floats with a fraction
func jsonFloats(v V) V {
	switch v := v.(type) {
	case L:
		l := make(L, len(v))
		for i, e := range v {
			l[i] = jsonFloats(e)
		}
		return l
	case M:
		m := M{}
		for k, e := range v {
			m[k] = jsonFloats(e)
		}
		return m
	case float64:
		return json.RawMessage(flow(v))
	}
	return v
}

// world is the case where the levels for which the function returns true use JSON
func (c *fmtCase) world(useJSON func(level int) bool) World {
	var w World
	for i, hs := range c.Levels {
		l := Level{Name: fmt.Sprintf(`l%d`, i), Kind: `data_hash`, Fn: `yaml_data`, LocKey: `paths`}
		text := c.Yaml[i]
		if useJSON(i) {
			l.Fn, text = `json_data`, c.JSON[i]
		}
		for j := range hs {
			p := fmt.Sprintf(`l%d_%d.data`, i, j)
			l.Locs = append(l.Locs, p, `missing_`+p)
			w.Files = append(w.Files, File{Path: filepath.Join(`data`, p), Data: hs[j], Raw: text[j]})
		}
		w.Cfg.Levels = append(w.Cfg.Levels, l)
	}
	return w
}

func runFmtCase(x *X, c fmtCase) error {
	for _, s := range c.Style {
		x.Label(`style %s`, s)
	}
	type variant struct {
		name string
		w    World
		dir  string
	}
	vs := []variant{
		{`YAML`, c.world(func(int) bool { return false }), ``},
		{`JSON`, c.world(func(int) bool { return true }), ``},
		{`mixed`, c.world(func(i int) bool { return c.Mixed[i] }), ``},
	}
	for i := range vs {
		vs[i].dir = filepath.Join(x.Dir(), vs[i].name)
		vs[i].w.write(vs[i].dir)
	}
	plain := vs[0].w
	plain.Files = append([]File{}, plain.Files...)
	for i := range plain.Files {
		plain.Files[i].Raw = ``
	}
	for _, k := range c.Keys {
		for _, strategy := range []string{``, c.Strategy} {
			want := newModel(&plain, vs[0].dir).lookup(k, strategy)
			if want.Err != nil {
				x.Label(`error`)
			} else if want.Found {
				x.Label(`found`)
				switch want.V.(type) {
				case L, M:
					x.NonTrivial()
				}
			} else {
				x.Label(`not found`)
			}
			for _, v := range vs {
				got := v.w.lookup(v.dir, k, strategy)
				if !got.same(want) || got.Err != nil && isRuntime(got.Err) {
					return fmt.Errorf("key %s, strategy %q, %s: got %s, expected %s", k, strategy, v.name, got, want)
				}
			}
		}
	}
	return nil
}

type badFileCase struct {
	As     string `json:"as"` // yaml_data or json_data
	What   string `json:"what"`
	Text   string `json:"text"`
	Before bool   `json:"before"` // there's a level before the one with the bad file
	After  bool   `json:"after"`
	First  bool   `json:"first"` // the bad file is the first of two
	LocKey string `json:"lockey"`
}

var badYaml = []string{`a: [b`, `a: b: c`, "a:\n\t- b\n", `"abc`, `'abc: d`, `a: *x`, "a: b\n c: d\n", "a: b\n- c\n", `a: @b`, `a: "\q"`, "k: a\n b\nc", "k: 1\n\x00", "k: |2\n a\n", "k: [1,\n2", "k: {x: 1"}

var badJSON = []string{`{"k": 1,}`, `{"k": [1,]}`, `{'k': 1}`, `{k: 1}`, `{"k" 1}`, `{"k": 1 "b": 2}`, `{"k": NaN}`, `{"k": 01}`, `{"k": +1}`, `{"k": 1.}`, `{"k": tru}`, `{"k": "\q"}`, "{\"k\": \"a\nb\"}", `{"k": 1} x`, `{"k": 1}{"b": 2}`, `{"k": 1}}`, `{"k": 1}]`, `{"k": 1} // c`, "# c\n{\"k\": 1}", `{"k": [1}`, `{"k": {"a": 1]}`, `{"k"}`, `{"k":}`, `{:1}`, `{,}`, `k: 1`, `{"k": "\ud800x"`, "{\"k\": 1}\x00", `{"k": .5}`, `{"k": 0x10}`, `{1: 2}`, `{null: 1}`, `{"k": 'a'}`}

func genBadFile(t *rapid.T) badFileCase {
	c := badFileCase{As: pick(t, `as`, `yaml_data`, `json_data`), Before: rapid.Bool().Draw(t, `before`), After: rapid.Bool().Draw(t, `after`), First: rapid.Bool().Draw(t, `first`),
		LocKey: pick(t, `lockey`, `paths`, `path`, `glob`, `globs`)}
	switch c.What = pick(t, `what`, `truncated`, `truncated`, `malformed`, `malformed`, `malformed`, `list`, `scalar`, `empty`, `null`, `directory`, `forbidden`); c.What {
	case `truncated`:
		m := M{`k`: genOddValue(t, 2, false), `m`: genOddValue(t, 2, false)}
		s := flow(m)
		if c.As == `json_data` {
			s = strings.TrimSpace(jsonText(t, m))
		}
		c.Text = s[:rapid.IntRange(1, len(s)-1).Draw(t, `cut`)]
	case `malformed`:
		if c.As == `yaml_data` {
			c.Text = pick(t, `bad`, badYaml...)
		} else {
			c.Text = pick(t, `bad`, badJSON...)
		}
	case `forbidden`:
		c.Text = `{"k": 1}`
	case `list`:
		c.Text = pick(t, `list`, `[]`, `["k"]`, `[{"k": 1}]`)
	case `scalar`:
		c.Text = pick(t, `scalar`, `1`, `"k"`, `true`, `"k: 1"`, `3.5`)
	case `null`:
		c.Text = `null`
	case `empty`:
		c.Text = pick(t, `empty`, ``, "\n", `   `, "\n\n")
		if c.As == `yaml_data` {
			c.Text = pick(t, `yempty`, ``, "\n", "# comment\n", "---\n", "---\n...\n", "~\n")
		}
	}
	return c
}

func runBadFile(x *X, c badFileCase) (err error) {
	x.Label(`%s %s`, c.As, c.What)
	dir := x.Dir()
	ext := map[string]string{`yaml_data`: `yaml`, `json_data`: `json`}[c.As]
	good := func(name, own string) {
		writeFile(filepath.Join(dir, `data`, name), fmt.Sprintf(`{"k": "value in %s", %q: 1}`, name, own))
	}
	good(`before.`+ext, `before`)
	good(`after.`+ext, `after`)
	bad := `b.` + ext
	if c.First {
		bad = `a.` + ext
		good(`b.`+ext, `beside`)
	} else {
		good(`a.`+ext, `beside`)
	}
	level := Level{Name: `bad`, Kind: `data_hash`, Fn: c.As, LocKey: c.LocKey}
	switch c.LocKey {
	case `paths`:
		level.Locs = []string{`a.` + ext, `b.` + ext}
	case `path`:
		level.Locs = []string{bad}
	default:
		level.Locs = []string{`[ab].` + ext}
	}
	w := World{}
	add := func(l Level) { w.Cfg.Levels = append(w.Cfg.Levels, l) }
	if c.Before {
		add(Level{Name: `before`, Kind: `data_hash`, Fn: c.As, LocKey: `path`, Locs: []string{`before.` + ext}})
	}
	add(level)
	if c.After {
		add(Level{Name: `after`, Kind: `data_hash`, Fn: c.As, LocKey: `path`, Locs: []string{`after.` + ext}})
	}
	w.write(dir)
	p := filepath.Join(dir, `data`, bad)
	if c.What == `directory` {
		must(os.MkdirAll(p, 0755))
	} else {
		writeFile(p, c.Text)
	}
	if c.What == `forbidden` {
		must(os.Chmod(p, 0))
		if !asNobody(dir, func() { err = c.check(x, &w, dir, ext, bad) }) {
			x.Label(`forbidden is impossible`)
		}
		return
	}
	return c.check(x, &w, dir, ext, bad)
}

func (c *badFileCase) check(x *X, w *World, dir, ext, bad string) error {
	x.NonTrivial()
	for _, strategy := range []string{``, `unique`, `hash`, `deep`} {
		for _, k := range []string{`k`, `after`, `nowhere`, `before`, `m`, `beside`} {
			got := w.lookup(dir, k, strategy)
			if got.Err != nil {
				if isRuntime(got.Err) {
					return fmt.Errorf("key %s: %s, %q holds %q", k, got, bad, c.Text)
				}
				continue
			}
			// A value of higher priority is acceptable
			if strategy == `` && c.Before && k == `before` && got.same(value(int64(1))) {
				continue
			}
			if strategy == `` && c.Before && k == `k` && got.same(value(`value in before.`+ext)) {
				continue
			}
			if strategy == `` && !c.First && c.LocKey != `path` && (k == `beside` && got.same(value(int64(1))) || k == `k` && got.same(value(`value in a.`+ext))) {
				continue
			}
			return fmt.Errorf("key %s, strategy %q: got %s although %s is a %s file: %s", k, strategy, got, bad, c.What, strconv.Quote(c.Text))
		}
	}
	return nil
}

func init() {
	register(&Property{
		ID:   `C26`,
		Rule: `a collection is found, or a file is unusable`,
		Assumptions: []string{
			`YAML anchors, aliases, merge keys, timestamps and integers of more than 64 bits have no JSON equivalent, or are subject to peculiarities of the library that reads them, and aren't generated.`,
			`A file is made unreadable with the file system user of the thread, since the checks run as root, or by making it a directory.`,
		},
		Subs: []subCheck{
			Spec[fmtCase]{`formats`, 1200, 40000, genFmtCase, runFmtCase},
			Spec[badFileCase]{`unusable`, 1000, 20000, genBadFile, runBadFile},
		},
	})
}
