package harness

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/hiera"
	sdk "github.com/lyraproj/hierasdk/hiera"
	y3 "gopkg.in/yaml.v3"
	"pgregory.net/rapid"
)

type renderCase struct {
	Vals  []Val  `json:"vals"`
	As    string `json:"as"`
	Via   string `json:"via"` // direct, lookup, all or default
	Share bool   `json:"share"`
}

var oddStrings = []string{``, ` `, `a`, `true`, `False`, `yes`, `off`, `y`, `N`, `null`, `Null`, `~`, `1`, `-7`, `007`, `0x1F`, `0o7`, `0b1`, `1_000`, `1.5`, `1e3`, `.5`, `-.inf`, `.NaN`,
	`2001-01-01`, `2001-12-14t21:59:43.10-05:00`, `12:30:45`, `=`, `<<`, `!t`, `&a`, `*a`, `|`, `>`, `%x`, `@x`, "`x`", `- a`, `? a`, `a: b`, `a:`, `:a`, `a #b`, `#a`, `[a]`, `{a: b}`, `a,b`,
	`"`, `'`, `"a"`, `'a'`, `\`, `\n`, `a\`, "a\nb", "\n", "a\n", "\na", "a\n\n", "a\n \n", "  a\n b", "a \nb", "\ta", "a\tb", "a\r\nb", "\r", "---", "...", "--- a", "a\n---\nb", "\x00", "\x01\x1f", "\x7f", "\u0080\u009f",
	"å", "日本語", "😀", "\u2028", "\u2029", "\ufeff", "\ufeffa", "\u00a0", "\ufffd", "e\u0301", "</script>&", "a very long text that is longer than the threshold for references to text", `_ref`, `$ref`, strings.Repeat(`long words `, 20), strings.Repeat(`x`, 200)}

var oddInts = []int64{0, 1, -1, 7, 255, 256, math.MaxInt32, math.MinInt32, 1 << 53, 1<<53 + 1, math.MaxInt64, math.MinInt64, -(1 << 53) - 1}

var oddFloats = []float64{0, math.Copysign(0, -1), 1, -1, 100, 0.1, 0.5, 1.0 / 3, 1e6, 1e15, 123456789012345678, 1e20, 1e21, 1e22, 1e-6, 1e-7, 5e-324, 2.2250738585072014e-308, math.MaxFloat64, -math.MaxFloat64, 3.141592653589793, 1e100}

func genOddString(t *rapid.T) string {
	switch rapid.IntRange(0, 4).Draw(t, `strkind`) {
	case 0, 1, 2:
		return pick(t, `odd`, oddStrings...)
	case 3:
		return pick(t, `odd1`, oddStrings...) + pick(t, `odd2`, oddStrings...)
	}
	return rapid.StringOfN(rapid.Rune(), 0, 12, -1).Draw(t, `any`)
}

func genOddValue(t *rapid.T, depth int, intKeys bool) V {
	max := 8
	if depth <= 0 {
		max = 5
	}
	switch k := rapid.IntRange(0, max).Draw(t, `node`); {
	case k <= 1:
		return genOddString(t)
	case k == 2:
		return pick(t, `int`, oddInts...)
	case k == 3:
		return pick(t, `float`, oddFloats...)
	case k == 4:
		return rapid.Bool().Draw(t, `bool`)
	case k == 5:
		return nil
	case k <= 7 && k != 6:
		l := L{}
		for i := rapid.IntRange(0, 4).Draw(t, `len`); i > 0; i-- {
			l = append(l, genOddValue(t, depth-1, intKeys))
		}
		if len(l) > 0 && chance(t, 3, `dup`) {
			l = append(l, cp(l[0]))
		}
		return l
	default:
		m := M{}
		for i := rapid.IntRange(0, 4).Draw(t, `len`); i > 0; i-- {
			k := genOddString(t)
			if intKeys && chance(t, 2, `ik`) {
				k = intKey + strconv.FormatInt(pick(t, `iki`, oddInts...), 10)
			}
			m[k] = genOddValue(t, depth-1, intKeys)
		}
		if len(m) > 0 && chance(t, 3, `dup`) {
			m[`dup`] = cp(m[keys(m)[0]])
		}
		return m
	}
}

func genRenderCase(t *rapid.T) renderCase {
	c := renderCase{As: pick(t, `as`, `json`, `yaml`), Via: pick(t, `via`, `direct`, `lookup`, `all`)}
	n := rapid.IntRange(1, 3).Draw(t, `n`)
	for i := 0; i < n; i++ {
		c.Vals = append(c.Vals, Val{genOddValue(t, 3, true)})
	}
	if c.As == `yaml` && chance(t, 3, `default`) {
		c.As = ``
	}
	c.Share = rapid.Bool().Draw(t, `share`)
	return c
}

// shared converts a value such that equal collections and strings are the same object
func shared(v V, seen map[string]dgo.Value) dgo.Value {
	k := show(v)
	if d, ok := seen[k]; ok {
		return d
	}
	var d dgo.Value
	switch v := v.(type) {
	case L:
		a := make([]dgo.Value, len(v))
		for i, e := range v {
			a[i] = shared(e, seen)
		}
		d = vf.Array(a)
	case M:
		m := vf.MutableMap()
		for _, k := range keys(v) {
			var kv dgo.Value = vf.String(k)
			if strings.HasPrefix(k, intKey) {
				i, err := strconv.ParseInt(k[len(intKey):], 10, 64)
				must(err)
				kv = vf.Integer(i)
			}
			m.Put(kv, shared(v[k], seen))
		}
		d = m
	default:
		d = toD(v)
	}
	seen[k] = d
	return d
}

// parseJSON is an independent parser of one JSON value. Numbers without a fraction and exponent are integers.
func parseJSON(bs []byte) (V, error) {
	d := json.NewDecoder(bytes.NewReader(bs))
	d.UseNumber()
	var x interface{}
	if err := d.Decode(&x); err != nil {
		return nil, err
	}
	if d.More() {
		return nil, fmt.Errorf(`more than one value`)
	}
	return fromNumbers(x)
}

func fromNumbers(x interface{}) (V, error) {
	switch x := x.(type) {
	case json.Number:
		if !strings.ContainsAny(string(x), `.eE`) {
			if i, err := x.Int64(); err == nil {
				return i, nil
			}
		}
		return x.Float64()
	case L:
		for i, e := range x {
			v, err := fromNumbers(e)
			if err != nil {
				return nil, err
			}
			x[i] = v
		}
	case M:
		for k, e := range x {
			v, err := fromNumbers(e)
			if err != nil {
				return nil, err
			}
			x[k] = v
		}
	}
	return x, nil
}

// parseYAML is an independent parser of one YAML document. Tags are resolved by yaml.v3, values are converted here.
func parseYAML(bs []byte) (V, error) {
	d := y3.NewDecoder(bytes.NewReader(bs))
	var n y3.Node
	if err := d.Decode(&n); err != nil {
		if len(bytes.TrimSpace(bs)) == 0 {
			return nil, nil // an empty document is null
		}
		return nil, err
	}
	var second y3.Node
	if d.Decode(&second) == nil {
		return nil, fmt.Errorf(`more than one document`)
	}
	return yamlNode(&n)
}

func yamlNode(n *y3.Node) (V, error) {
	switch n.Kind {
	case y3.DocumentNode:
		return yamlNode(n.Content[0])
	case y3.SequenceNode:
		l := L{}
		for _, e := range n.Content {
			v, err := yamlNode(e)
			if err != nil {
				return nil, err
			}
			l = append(l, v)
		}
		return l, nil
	case y3.MappingNode:
		m := M{}
		for i := 0; i < len(n.Content); i += 2 {
			k, err := yamlNode(n.Content[i])
			if err != nil {
				return nil, err
			}
			v, err := yamlNode(n.Content[i+1])
			if err != nil {
				return nil, err
			}
			var ks string
			switch k := k.(type) {
			case string:
				ks = k
			case int64:
				ks = intKey + strconv.FormatInt(k, 10)
			default:
				return nil, fmt.Errorf(`key %v of type %T`, k, k)
			}
			if _, ok := m[ks]; ok {
				return nil, fmt.Errorf(`duplicate key %s`, ks)
			}
			m[ks] = v
		}
		return m, nil
	case y3.ScalarNode:
		switch n.ShortTag() {
		case `!!str`, `!!merge`: // merge keys are not part of YAML 1.2
			return n.Value, nil
		case `!!null`:
			return nil, nil
		case `!!bool`:
			var b bool
			err := n.Decode(&b)
			return b, err
		case `!!int`:
			i, err := strconv.ParseInt(n.Value, 10, 64)
			return i, err
		case `!!float`:
			f, err := strconv.ParseFloat(n.Value, 64)
			return f, err
		}
		return nil, fmt.Errorf(`scalar %q with tag %s`, n.Value, n.ShortTag())
	}
	return nil, fmt.Errorf(`unexpected YAML node of kind %d`, n.Kind)
}

// unrich converts the rich data form of hashes with keys that aren't strings, a list of alternating keys and values
func unrich(v V) V {
	switch v := v.(type) {
	case L:
		for i, e := range v {
			v[i] = unrich(e)
		}
	case M:
		if l, ok := v[`__value`].(L); ok && v[`__type`] == `map` && len(v) == 2 && len(l)%2 == 0 {
			m := M{}
			for i := 0; i < len(l); i += 2 {
				switch k := l[i].(type) {
				case string:
					m[k] = unrich(l[i+1])
				case int64:
					m[intKey+strconv.FormatInt(k, 10)] = unrich(l[i+1])
				default:
					return v
				}
			}
			if len(m) == len(l)/2 {
				return m
			}
			return v
		}
		for k, e := range v {
			v[k] = unrich(e)
		}
	}
	return v
}

// rich is the opposite of unrich
func rich(v V) V {
	switch v := v.(type) {
	case L:
		c := make(L, len(v))
		for i, e := range v {
			c[i] = rich(e)
		}
		return c
	case M:
		c, l, ints := M{}, L{}, false
		for _, k := range keys(v) {
			e := rich(v[k])
			c[k] = e
			if strings.HasPrefix(k, intKey) {
				i, err := strconv.ParseInt(k[len(intKey):], 10, 64)
				must(err)
				l, ints = append(l, i, e), true
			} else {
				l = append(l, k, e)
			}
		}
		if ints {
			return M{`__type`: `map`, `__value`: l}
		}
		return c
	}
	return v
}

// emits tells if yaml.v3, used on its own, writes the value so that it can read it. Its emitter writes invalid block scalars in
// sequences.
func emits(v V) bool {
	bs, err := y3.Marshal(rich(v))
	if err != nil {
		return false
	}
	got, err := parseYAML(bs)
	return err == nil && sameData(unrich(got), v)
}

// sameData compares values. A float with an integral value may be written without a fraction.
func sameData(got, want V) bool {
	switch w := want.(type) {
	case float64:
		if i, ok := got.(int64); ok {
			return float64(i) == w
		}
		g, ok := got.(float64)
		return ok && g == w
	case L:
		g, ok := got.(L)
		if !ok || len(g) != len(w) {
			return false
		}
		for i := range w {
			if !sameData(g[i], w[i]) {
				return false
			}
		}
		return true
	case M:
		g, ok := got.(M)
		if !ok || len(g) != len(w) {
			return false
		}
		for k, e := range w {
			ge, ok := g[k]
			if !ok || !sameData(ge, e) {
				return false
			}
		}
		return true
	}
	return got == want
}

// valuesSession runs a session with a provider that has the given values as keys v0, v1...
func valuesSession(vs []dgo.Value, f func(api.Session)) {
	tp := func(pc sdk.ProviderContext, key string) dgo.Value {
		if pc.(api.ServerContext).Invocation().LookupOptionsMode() {
			return nil
		}
		if i, err := strconv.Atoi(strings.TrimPrefix(key, `v`)); err == nil && i < len(vs) {
			return vs[i]
		}
		return nil
	}
	withSession(tp, nil, f)
}

func runRender(x *X, c renderCase) (err error) {
	vs := make([]dgo.Value, len(c.Vals))
	seen := map[string]dgo.Value{}
	interpolates := false
	for i, v := range c.Vals {
		if c.Share {
			vs[i] = shared(v.V, seen)
		} else {
			vs[i] = toD(v.V)
		}
		interpolates = interpolates || strings.Contains(show(v.V), `%{`)
	}
	if interpolates {
		// can't be looked up and be the same value
		c.Via = `direct`
	}
	as := hiera.RenderName(c.As)
	b := &bytes.Buffer{}
	var outs [][]byte
	want := make([]V, 0, len(vs))
	valuesSession(vs, func(s api.Session) {
		step := func(v V, f func()) {
			p := b.Len()
			if r := capture(func() dgo.Value { f(); return nil }); r.Err != nil && err == nil {
				err = fmt.Errorf(`rendering %s as %s fails: %v`, show(v), c.As, r.Err)
			}
			outs = append(outs, append([]byte{}, b.Bytes()[p:]...))
			want = append(want, v)
		}
		switch c.Via {
		case `direct`:
			if c.As == `` {
				as = hiera.YAML
			}
			for i, v := range vs {
				step(c.Vals[i].V, func() { hiera.Render(s, as, v, b) })
			}
		case `lookup`:
			for i := range vs {
				step(c.Vals[i].V, func() {
					if !hiera.LookupAndRender(s, &hiera.CommandOptions{RenderAs: c.As}, []string{fmt.Sprintf(`v%d`, i)}, b) && err == nil {
						err = fmt.Errorf(`v%d is not found`, i)
					}
				})
			}
		default:
			m, args := M{}, []string{}
			for i := range vs {
				k := fmt.Sprintf(`v%d`, i)
				m[k] = c.Vals[i].V
				args = append(args, k)
			}
			step(m, func() {
				if !hiera.LookupAndRender(s, &hiera.CommandOptions{RenderAs: c.As, LookupAll: true}, args, b) && err == nil {
					err = fmt.Errorf(`lookup of all finds nothing`)
				}
			})
		}
	})
	if err != nil {
		return err
	}
	for i, o := range outs {
		var v V
		var perr error
		if c.As != `json` && !emits(want[i]) {
			x.Label(`yaml.v3 defect`)
			continue
		}
		if c.As == `json` {
			if bytes.Count(o, []byte("\n")) != 1 || o[len(o)-1] != '\n' {
				return fmt.Errorf("%s as JSON is not one line:\n%q", show(want[i]), o)
			}
			v, perr = parseJSON(o)
		} else {
			v, perr = parseYAML(o)
		}
		if perr != nil {
			return fmt.Errorf("%s as %s cannot be parsed: %v\n%q", show(want[i]), c.As, perr, o)
		}
		v = unrich(v)
		if !sameData(v, want[i]) {
			return fmt.Errorf("%s as %s is\n%q\nwhich is parsed as %s", show(want[i]), c.As, o, show(v))
		}
		switch want[i].(type) {
		case L, M:
			x.Label(`collection`)
			if len(o) > 4 {
				x.NonTrivial()
			}
		case string:
			x.Label(`string`)
			x.NonTrivial()
		case float64:
			x.Label(`float`)
			x.NonTrivial()
		default:
			x.Label(`scalar`)
		}
	}
	x.Label(`as=%s`, c.As)
	x.Label(`via=%s`, c.Via)
	return nil
}

type rawCase struct {
	As   string `json:"as"`
	Bin  []byte `json:"bin"`
	Val  Val    `json:"val"`
	Kind string `json:"kind"` // binary, bytes, base64, value
	Via  string `json:"via"`
}

func genRawCase(t *rapid.T) rawCase {
	c := rawCase{As: pick(t, `as`, `binary`, `binary`, `binary`, `s`, `s`, `s`, `other`), Via: pick(t, `via`, `direct`, `lookup`)}
	c.Kind = `value`
	if c.As == `binary` {
		c.Kind = pick(t, `kind`, `binary`, `bytes`, `base64`, `value`)
	}
	if c.As == `other` {
		c.As = pick(t, `name`, `text`, `JSON`, `Yaml`, `xml`, `S`, ` json`, `bin`, `yml`, `js`, `j`)
	}
	if c.Kind == `value` {
		c.Val = Val{genOddValue(t, 1, true)}
	} else {
		c.Bin = rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, `bytes`)
	}
	return c
}

func (c *rawCase) value() (dgo.Value, V) {
	switch c.Kind {
	case `binary`:
		return vf.Binary(c.Bin, true), nil
	case `bytes`:
		l := make(L, len(c.Bin))
		for i, b := range c.Bin {
			l[i] = int64(b)
		}
		return toD(l), l
	case `base64`:
		s := base64.StdEncoding.EncodeToString(c.Bin)
		return vf.String(s), s
	}
	return toD(c.Val.V), c.Val.V
}

func runRaw(x *X, c rawCase) (err error) {
	d, v := c.value()
	if c.Via != `direct` && strings.Contains(show(v), `%{`) {
		c.Via = `direct`
	}
	b := &bytes.Buffer{}
	var r Res
	valuesSession([]dgo.Value{d}, func(s api.Session) {
		r = capture(func() dgo.Value {
			if c.Via == `direct` {
				hiera.Render(s, hiera.RenderName(c.As), d, b)
			} else if !hiera.LookupAndRender(s, &hiera.CommandOptions{RenderAs: c.As}, []string{`v0`}, b) {
				err = fmt.Errorf(`not found`)
			}
			return nil
		})
	})
	if err != nil {
		return err
	}
	x.Label(`as=%s`, c.As)
	switch {
	case c.As == `binary`:
		want, ok := []byte(nil), false
		if c.Kind != `value` {
			want, ok = c.Bin, true
		} else if s, is := v.(string); is {
			if bs, derr := base64.StdEncoding.Strict().DecodeString(s); derr == nil {
				want, ok = bs, true
			}
		} else if l, is := v.(L); is {
			ok = true
			for _, e := range l {
				i, is := e.(int64)
				if !is || i < 0 || i > 255 {
					ok = false
					break
				}
				want = append(want, byte(i))
			}
		}
		if !ok {
			x.Label(`not binary`)
			if r.Err == nil || isRuntime(r.Err) {
				return fmt.Errorf(`rendering %s as binary should be an error but is %q (%v)`, show(v), b.Bytes(), r.Err)
			}
			return nil
		}
		if r.Err != nil || !bytes.Equal(b.Bytes(), want) {
			return fmt.Errorf(`rendering %s %s as binary: expected %q, got %q (%v)`, c.Kind, show(v), want, b.Bytes(), r.Err)
		}
		if len(want) > 0 {
			x.NonTrivial()
		}
	case c.As == `s`:
		if r.Err != nil {
			return fmt.Errorf(`rendering %s as text fails: %v`, show(v), r.Err)
		}
		s, ok := v.(string)
		if !ok {
			if s, ok = scalarText(v); !ok {
				s = d.String()
			}
		}
		if b.String() != s+"\n" {
			return fmt.Errorf(`rendering %s as text: expected %q, got %q`, show(v), s+"\n", b.String())
		}
		x.NonTrivial()
	default:
		if r.Err == nil || isRuntime(r.Err) || b.Len() > 0 {
			return fmt.Errorf(`rendering as %q should be an error but is %q (%v)`, c.As, b.Bytes(), r.Err)
		}
		x.NonTrivial()
	}
	return nil
}

func scalarText(v V) (string, bool) {
	switch v := v.(type) {
	case nil:
		return `null`, true
	case bool:
		return strconv.FormatBool(v), true
	case int64:
		return strconv.FormatInt(v, 10), true
	}
	return ``, false
}

func init() {
	register(&Property{
		ID: `C19`,
		Rule: `data: one to three values of any depth with odd strings (control characters, YAML look-alikes, unicode), extreme numbers, nulls, empty and
shared collections are rendered as JSON or YAML, directly, by LookupAndRender and as the map of a lookup of all keys, on one writer. Each output is
parsed by encoding/json or yaml.v3 and compared with the value. Non-trivial when a string, a float or a collection that is not empty was rendered.
raw: text and binary renderings are compared byte by byte with what the value denotes, and unknown renderings must be errors. Non-trivial unless
nothing was rendered.`,
		Assumptions: []string{`values contain no key with a special meaning in rich data (__ref, __type, __value), are not NaN or infinite; hashes with integer keys are compared in their rich data form. Values that yaml.v3 on its own writes as YAML that it cannot read are not compared`},
		Subs: []subCheck{
			Spec[renderCase]{Name: `data`, Quick: 6000, Thorough: 300000, Gen: genRenderCase, Run: runRender},
			Spec[renderCase]{Name: `large`, Quick: 400, Thorough: 10000, Gen: genLargeRender, Run: runRender},
			Spec[rawCase]{Name: `raw`, Quick: 4000, Thorough: 100000, Gen: genRawCase, Run: runRaw},
		},
	})
}
