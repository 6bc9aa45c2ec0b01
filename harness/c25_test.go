package harness

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"

	"pgregory.net/rapid"
)

type docCase struct {
	Doc   string   `json:"doc"`
	Want  Val      `json:"want"`
	Bad   string   `json:"bad,omitempty"` // what's wrong with the document
	Style []string `json:"style,omitempty"`
	Pad   int      `json:"pad,omitempty"` // elements that are added to make a large document
}

// docWriter writes a value as YAML, with a style that is drawn for each node
type docWriter struct {
	t       *rapid.T
	anchors map[string]string // text of a value to the anchor that holds it
	n       int
	used    map[string]bool

	noAnchors bool
}

func (w *docWriter) use(s string) { w.used[s] = true }

func (w *docWriter) styles() []string {
	m := M{}
	for k := range w.used {
		m[k] = true
	}
	return keys(m)
}

var plainText = regexp.MustCompile(`\A[A-Za-z](?:[A-Za-z0-9_./-]| [A-Za-z0-9_])*[A-Za-z0-9]\z`)

var reservedText = regexp.MustCompile(`(?i)\A(?:y|n|yes|no|on|off|true|false|null|nan|inf)\z`)

func printable(s string) bool {
	for _, r := range s {
		if r < 0x20 || r == 0x7f || r >= 0x80 && r < 0xa0 || r == 0xfeff || r >= 0x2028 && r <= 0x2029 || r >= 0xfffd && r <= 0xffff {
			return false
		}
	}
	return true
}

// inline is a scalar that is written on one line
func (w *docWriter) inline(v V, key bool) string {
	t := w.t
	switch v := v.(type) {
	case nil:
		return pick(t, `null`, `null`, `~`, `Null`, `NULL`)
	case bool:
		if v {
			return pick(t, `true`, `true`, `True`, `TRUE`)
		}
		return pick(t, `false`, `false`, `False`, `FALSE`)
	case int64:
		switch k := rapid.IntRange(0, 5).Draw(t, `intstyle`); {
		case k == 0 && v >= 0:
			w.use(`hex`)
			return fmt.Sprintf(`0x%X`, v)
		case k == 1 && v >= 0:
			w.use(`octal`)
			return fmt.Sprintf(`0o%o`, v)
		case k == 2 && v >= 0:
			return `+` + strconv.FormatInt(v, 10)
		}
		return strconv.FormatInt(v, 10)
	case string:
		k := rapid.IntRange(0, 3).Draw(t, `strstyle`)
		switch {
		case k <= 1 && plainText.MatchString(v) && !reservedText.MatchString(v):
			w.use(`plain`)
			return v
		case k == 2 && printable(v):
			w.use(`single`)
			return `'` + strings.ReplaceAll(v, `'`, `''`) + `'`
		case k == 1 && !key && plainScalarInt.MatchString(v):
			w.use(`tag`)
			return `!!str ` + v
		}
		s := jstr(v)
		if k == 0 && !strings.Contains(s, `\\`) {
			w.use(`escapes`)
			s = strings.NewReplacer(`\u00`, `\x`, `\t`, `\	`).Replace(s)
		}
		return s
	}
	return flow(v)
}

var plainScalarInt = regexp.MustCompile(`\A(?:-?[0-9]+|true|null|~|[0-9]+\.[0-9]+)\z`)

// flow writes a value in flow style
func (w *docWriter) flow(v V) string {
	b := &strings.Builder{}
	sp := func() {
		if rapid.Bool().Draw(w.t, `sp`) {
			b.WriteByte(' ')
		}
	}
	switch v := v.(type) {
	case L:
		w.use(`flow`)
		b.WriteByte('[')
		for i, e := range v {
			if i > 0 {
				b.WriteString(`, `)
			}
			b.WriteString(w.flow(e))
			sp()
		}
		b.WriteByte(']')
	case M:
		w.use(`flow`)
		b.WriteByte('{')
		for i, k := range keys(v) {
			if i > 0 {
				b.WriteString(`, `)
			}
			b.WriteString(w.inline(k, true))
			b.WriteString(`: `)
			b.WriteString(w.flow(v[k]))
			sp()
		}
		b.WriteByte('}')
	default:
		return w.inline(v, false)
	}
	return b.String()
}

// anchored returns the alias of an equal value, or else maybe an anchor for this value
func (w *docWriter) anchored(v V) (anchor, alias string) {
	if w.noAnchors {
		return
	}
	switch c := v.(type) {
	case L:
		if len(c) == 0 {
			return
		}
	case M:
		if len(c) == 0 {
			return
		}
	case string:
		if len(c) == 0 {
			return
		}
	default:
		return
	}
	s := show(v)
	if a, ok := w.anchors[s]; ok {
		if a != `` && chance(w.t, 7, `alias`) {
			w.use(`alias`)
			return ``, `*` + a
		}
		return
	}
	if chance(w.t, 5, `anchor`) {
		w.n++
		a := fmt.Sprintf(`a%d`, w.n)
		return a, ``
	}
	return
}

func (w *docWriter) comment() string {
	switch rapid.IntRange(0, 7).Draw(w.t, `comment`) {
	case 0:
		w.use(`comment`)
		return ` # a "comment" with {chars: [}`
	case 1:
		return `  `
	}
	return ``
}

// block returns the text that follows a key or a dash. It starts with a space or a newline and ends with a newline
func (w *docWriter) block(v V, indent int, mapping bool) string {
	a, alias := w.anchored(v)
	if alias != `` {
		return ` ` + alias + w.comment() + "\n"
	}
	pre := ``
	if a != `` {
		// The anchor is not available until the value is complete
		defer func() { w.anchors[show(v)] = a }()
		pre = ` &` + a
	}
	in := strings.Repeat(` `, indent)
	switch v := v.(type) {
	case L:
		if len(v) == 0 || chance(w.t, 3, `flow`) {
			break
		}
		w.use(`block`)
		li := indent
		if mapping && indent > 0 && rapid.Bool().Draw(w.t, `noindent`) {
			li -= 2
		}
		b := &strings.Builder{}
		b.WriteString(pre + w.comment() + "\n")
		for _, e := range v {
			item := w.block(e, li+2, false)
			b.WriteString(strings.Repeat(` `, li) + `-` + item)
			if chance(w.t, 1, `blank`) && !strings.Contains(item, `|+`) {
				b.WriteString("\n")
			}
		}
		return b.String()
	case M:
		if len(v) == 0 || chance(w.t, 3, `flow`) {
			break
		}
		w.use(`block`)
		b := &strings.Builder{}
		b.WriteString(pre + w.comment() + "\n")
		for _, k := range w.shuffled(v) {
			if chance(w.t, 1, `explicit`) {
				w.use(`explicit key`)
				b.WriteString(in + `? ` + w.inline(k, true) + "\n" + in + `:` + w.block(v[k], indent+2, false))
				continue
			}
			b.WriteString(in + w.inline(k, true) + `:` + w.block(v[k], indent+2, true))
		}
		return b.String()
	case string:
		switch rapid.IntRange(0, 3).Draw(w.t, `blockscalar`) {
		case 0:
			if s, ok := blockLiteral(v, in); ok {
				w.use(`literal`)
				return pre + s
			}
		case 1:
			if foldable.MatchString(v) {
				w.use(`folded`)
				words := strings.Split(v, ` `)
				b := &strings.Builder{}
				b.WriteString(pre + " >-\n" + in + words[0])
				for _, s := range words[1:] {
					if rapid.Bool().Draw(w.t, `fold`) {
						b.WriteString("\n" + in + s)
					} else {
						b.WriteString(` ` + s)
					}
				}
				return b.String() + "\n"
			}
		case 2:
			if foldable.MatchString(v) {
				w.use(`multi-line`)
				return pre + ` "` + strings.ReplaceAll(v, ` `, "\n"+in+"  ") + `"` + w.comment() + "\n"
			}
		}
	case nil:
		if rapid.Bool().Draw(w.t, `empty`) {
			w.use(`empty null`)
			return pre + w.comment() + "\n"
		}
	}
	return pre + ` ` + w.flow(v) + w.comment() + "\n"
}

var foldable = regexp.MustCompile(`\A[A-Za-z0-9]+(?: [A-Za-z0-9]+)+\z`)

// blockLiteral returns the string as a literal block, unless the string cannot be written that way
func blockLiteral(s, indent string) (string, bool) {
	body := strings.TrimRight(s, "\n")
	if body == `` || indent == `` {
		return ``, false
	}
	chomp := `|+`
	switch len(s) - len(body) {
	case 0:
		chomp = `|-`
	case 1:
		chomp = `|`
	}
	lines := strings.Split(s, "\n")
	for i, l := range lines {
		if !printable(l) || i == 0 && (l == `` || l[0] == ' ') || l != `` && strings.TrimSpace(l) == `` {
			return ``, false
		}
		if l != `` {
			lines[i] = indent + l
		}
	}
	text := ` ` + chomp + "\n" + strings.Join(lines, "\n")
	if chomp == `|-` {
		text += "\n"
	}
	return text, true
}

func (w *docWriter) shuffled(m M) []string {
	ks := keys(m)
	if len(ks) > 1 {
		i := rapid.IntRange(0, len(ks)-1).Draw(w.t, `rotate`)
		ks = append(append([]string{}, ks[i:]...), ks[:i]...)
	}
	return ks
}

func (w *docWriter) document(v V) string {
	doc := ``
	switch v.(type) {
	case L, M:
		doc = strings.TrimPrefix(w.block(v, 0, false), "\n")
		if strings.HasPrefix(doc, ` &`) {
			doc = `---` + doc
		} else if !strings.HasPrefix(doc, `---`) && rapid.Bool().Draw(w.t, `start`) {
			doc = "---\n" + doc
		}
	default:
		doc = w.inline(v, false) + "\n"
	}
	if chance(w.t, 1, `nonl`) && !strings.HasSuffix(doc, "\n\n") && !strings.Contains(doc, `|`) {
		doc = strings.TrimSuffix(doc, "\n")
	}
	return doc
}

func genDocCase(t *rapid.T) docCase {
	w := &docWriter{t: t, anchors: map[string]string{}, used: map[string]bool{}}
	v := genOddValue(t, 4, false)
	if chance(t, 7, `collection`) {
		l := L{v, genOddValue(t, 3, false), genOddValue(t, 2, false)}
		if rapid.Bool().Draw(t, `again`) {
			l = append(l, cp(l[rapid.IntRange(0, 2).Draw(t, `which`)]), M{genOddString(t): cp(l[0])})
		}
		v = l
		if rapid.Bool().Draw(t, `map`) {
			m := M{}
			for _, e := range l {
				m[genOddString(t)] = e
			}
			v = m
		}
	}
	if chance(t, 3, `words`) {
		v = M{`text`: pick(t, `w1`, `some words to fold`, "first\nsecond\n", "one\n\ntwo", "x\n\n"), `more`: v, `last`: L{`1`, `true`, `-3`, `abc`}}
	}
	c := docCase{Want: Val{v}}
	switch rapid.IntRange(0, 9).Draw(t, `docstyle`) {
	case 0:
		w.use(`json`)
		c.Doc = flow(v)
		if chance(t, 3, `large`) {
			c.Pad = pick(t, `pad`, 400, 5000, 12000, 100000)
		}
	case 1:
		// Merge keys of YAML 1.1
		w.use(`merge key`)
		base, over := genMapOf(t), genMapOf(t)
		all := M{}
		for k, e := range base {
			all[k] = e
		}
		for k, e := range over {
			all[k] = e
		}
		b := &strings.Builder{}
		b.WriteString("base: &base " + flow(base) + "\nuse:\n- first: ~\n- nested:\n    <<: *base\n")
		for _, k := range keys(over) {
			b.WriteString(`    ` + jstr(k) + `: ` + w.flow(over[k]) + "\n")
		}
		b.WriteString("other:" + w.block(v, 2, true))
		c.Doc, c.Want = b.String(), Val{M{`base`: base, `use`: L{M{`first`: nil}, M{`nested`: all}}, `other`: v}}
	default:
		c.Doc = w.document(v)
	}
	c.Style = w.styles()
	return c
}

func genMapOf(t *rapid.T) M {
	m := M{}
	for i := rapid.IntRange(0, 3).Draw(t, `size`); i > 0; i-- {
		m[pick(t, `key`, `a`, `b`, `c`, ``, `true`, `1`)] = genOddValue(t, 1, false)
	}
	return m
}

var badDocs = []struct{ what, text string }{
	{`syntax`, `[a`}, {`syntax`, `{a: b`}, {`syntax`, `"abc`}, {`syntax`, `'abc`}, {`syntax`, `"\q"`}, {`syntax`, `@x`}, {`syntax`, "`x`"}, {`syntax`, `a: b: c`}, {`syntax`, `[a]]`}, {`syntax`, "{a\n: b"},
	{`alias`, `*nosuch`}, {`alias`, `&self [*self]`}, {`alias`, `&self {a: *self}`}, {`duplicate`, `{a: 1, a: 2}`}, {`duplicate`, `{a: 1, b: [], "a": 2}`},
	{`key`, `{1: 2}`}, {`key`, `{~: a}`}, {`key`, `{true: a}`}, {`key`, `{1.5: a}`}, {`key`, `{[a]: b}`}, {`key`, `{{a: b}: c}`}, {`key`, `{a: b, 0x10: c, 16: d}`}, {`key`, `{? : a}`}, {`key`, `{a: {b: [{2: c}]}}`},
	{`number`, `.nan`}, {`number`, `.inf`}, {`number`, `-.Inf`}, {`number`, `{a: [.NaN]}`},
	{`tag`, `!!int abc`}, {`tag`, `!!float x`}, {`tag`, `!!bool maybe`},
}

func genBadDoc(t *rapid.T) docCase {
	b := badDocs[rapid.IntRange(0, len(badDocs)-1).Draw(t, `bad`)]
	w := &docWriter{t: t, anchors: map[string]string{}, used: map[string]bool{}}
	good := w.flow(genOddValue(t, 2, false))
	c := docCase{Bad: b.what}
	switch rapid.IntRange(0, 4).Draw(t, `wrap`) {
	case 0:
		c.Doc = b.text
	case 1:
		c.Doc = `- ` + good + "\n- " + b.text + "\n"
	case 2:
		c.Doc = `a: ` + good + "\nb:\n  c:\n  - x\n  - " + b.text + "\n"
	case 3:
		c.Doc = `- &x [` + good + "]\n- {y: *x}\n- - " + b.text + "\n- z\n"
	default:
		c.Doc = "a: &x {z: 1}\nb:\n  <<: *x\n  q:\n  - " + b.text + "\n"
	}
	if c.Doc == `[a]]` {
		c.Doc = `- ` + c.Doc // The parser doesn't look at what follows a complete document
	}
	return c
}

func runYaml2json(doc string) (stdout, stderr string, status int) {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, filepath.Join(os.Getenv(`VERIF_BIN`), `yaml2json`))
	cmd.Stdin = strings.NewReader(doc)
	out, errs := &bytes.Buffer{}, &bytes.Buffer{}
	cmd.Stdout, cmd.Stderr = out, errs
	err := cmd.Run()
	if _, ok := err.(*exec.ExitError); err != nil && !ok {
		must(err)
	}
	return out.String(), errs.String(), cmd.ProcessState.ExitCode()
}

func runDocCase(x *X, c docCase) error {
	if c.Pad > 0 {
		x.Label(`large`)
		w := make(L, 0, c.Pad+1)
		for i := 0; i < c.Pad; i++ {
			w = append(w, `lorem ipsum`)
		}
		c.Doc = `[` + strings.Repeat(`"lorem ipsum",`, c.Pad) + c.Doc + `]`
		c.Want = Val{append(w, c.Want.V)}
	}
	out, errs, status := runYaml2json(c.Doc)
	if c.Bad != `` {
		x.Label(`bad %s`, c.Bad)
		x.NonTrivial()
		switch {
		case status == 0:
			return fmt.Errorf("the document, which has a bad %s, was accepted:\n%s\noutput %q", c.Bad, c.Doc, out)
		case out != ``:
			return fmt.Errorf("output %q in spite of an error, for the document\n%s", out, c.Doc)
		case strings.TrimSpace(errs) == ``:
			return fmt.Errorf("no message about the bad %s in the document\n%s", c.Bad, c.Doc)
		case status != 1 || strings.Contains(errs, `goroutine `):
			return fmt.Errorf("crash, status %d, for the document\n%s\n%s", status, c.Doc, head(errs, 300))
		}
		return nil
	}
	for _, s := range c.Style {
		x.Label(`style %s`, s)
	}
	switch v := c.Want.V.(type) {
	case L:
		x.Label(`list`)
		if len(v) > 0 {
			x.NonTrivial()
		}
	case M:
		x.Label(`hash`)
		if len(v) > 0 {
			x.NonTrivial()
		}
	default:
		x.Label(`scalar`)
	}
	if status != 0 {
		return fmt.Errorf("status %d, %s for the document\n%s", status, head(errs, 300), c.Doc)
	}
	got, err := parseJSON([]byte(out))
	if err != nil {
		return fmt.Errorf("invalid JSON %s: %q for the document\n%s", err, out, c.Doc)
	}
	if !sameData(got, c.Want.V) {
		return fmt.Errorf("got %s, expected %s for the document\n%s", head(show(got), 2000), head(show(c.Want.V), 2000), head(c.Doc, 2000))
	}
	if lines := strings.Count(strings.TrimSpace(out), "\n"); lines == 0 && hasEntries(c.Want.V) {
		return fmt.Errorf("the output %q isn't formatted", head(out, 300))
	}
	return nil
}

func hasEntries(v V) bool {
	switch v := v.(type) {
	case L:
		return len(v) > 0
	case M:
		return len(v) > 0
	}
	return false
}

func init() {
	register(&Property{
		ID:   `C25`,
		Rule: `the document is a collection with elements, or is one that must be rejected`,
		Assumptions: []string{
			`The documents use string keys and the types that JSON has. Timestamps, binaries, several documents in one stream and integers of more than 64 bits are not generated.`,
			`How the YAML parser reads a plain scalar is taken for granted: strings are written plain only when they are letters, digits and spaces and no word that some version of YAML treats as a boolean.`,
		},
		Subs: []subCheck{
			Spec[docCase]{`documents`, 1500, 40000, genDocCase, runDocCase},
			Spec[docCase]{`rejected`, 400, 8000, genBadDoc, runDocCase},
		},
	})
}
