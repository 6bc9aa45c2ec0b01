package harness

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/hiera"
	"pgregory.net/rapid"
)

func toParts(ps []interface{}) ([]part, error) {
	r := make([]part, len(ps))
	for i, p := range ps {
		switch p := p.(type) {
		case int:
			r[i] = part{i: p, isI: true}
		case string:
			r[i] = part{s: p}
		default:
			return nil, fmt.Errorf(`segment %d is a %T`, i, p)
		}
	}
	return r, nil
}

func showParts(ps []part) string {
	ss := make([]string, len(ps))
	for i, p := range ps {
		if p.isI {
			ss[i] = strconv.Itoa(p.i)
		} else {
			ss[i] = strconv.Quote(p.s)
		}
	}
	return `[` + strings.Join(ss, `, `) + `]`
}

func sameParts(a, b []part) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func newKey(s string) (k api.Key, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = panicError(e)
		}
	}()
	return api.NewKey(s), nil
}

type keyCase struct {
	S string `json:"s"`
}

// checkKey compares the key with the reference parser
func checkKey(x *X, s string) error {
	want, werr := parseKey(s)
	k, err := newKey(s)
	if err != nil {
		x.Label(`rejected`)
		if isRuntime(err) {
			return fmt.Errorf(`parsing %q crashed: %v`, s, err)
		}
		if werr == nil {
			return fmt.Errorf(`%q was rejected (%v) but denotes %s`, s, err, showParts(want))
		}
		return nil
	}
	got, err := toParts(k.Parts())
	if err != nil {
		return fmt.Errorf(`%q: %v`, s, err)
	}
	if werr != nil {
		return fmt.Errorf(`%q should be rejected (%v) but gives %s`, s, werr, showParts(got))
	}
	x.Label(`segments=%d`, min(len(got), 4))
	if !sameParts(got, want) {
		return fmt.Errorf("%q:\n  got  %s\n  want %s", s, showParts(got), showParts(want))
	}
	if k.Root() != want[0].s {
		return fmt.Errorf(`%q has root %q`, s, k.Root())
	}
	if k.Source() != s {
		return fmt.Errorf(`%q has source %q`, s, k.Source())
	}
	if k2, _ := newKey(s); !k.Equals(k2) {
		return fmt.Errorf(`the key %q isn't equal to itself`, s)
	}
	return nil
}

func genKeyString(t *rapid.T) keyCase {
	toks := []string{`.`, `.`, `'`, `"`, `a`, `b`, `0`, `1`, `12`, `-1`, `+2`, ` `, `å`, `::`, `_`, `x y`, `2147483647`, `2147483648`,
		`-2147483648`, `1e3`, `0x1`, `1_0`, `007`, `%{a}`, `\`, "\n", "\x00", `世`, `-`, `+`, `.0`, `''`, `""`, `'.'`, `"1"`, `'a.b'`}
	return keyCase{strings.Join(rapid.SliceOfN(rapid.SampledFrom(toks), 0, 8).Draw(t, `toks`), ``)}
}

func hasAny(s string, chars string) bool { return strings.ContainsAny(s, chars) }

func runKey(x *X, c keyCase) error {
	if hasAny(c.S, `.'"`) {
		x.NonTrivial()
	}
	return checkKey(x, c.S)
}

type segsCase struct {
	Segs []Val  `json:"segs"`
	How  []int  `json:"how"`
	Key  string `json:"key"`
}

// writeSeg writes a segment as it may occur in a key
func writeSeg(v V, how int) string {
	s, ok := v.(string)
	if !ok {
		return strconv.FormatInt(v.(int64), 10)
	}
	if how == 0 && s != `` && !hasAny(s, `.'"`) && !intSegment.MatchString(s) {
		return s
	}
	if strings.Contains(s, `'`) || how == 2 {
		if strings.Contains(s, `"`) {
			// Concatenated quoted sequences
			b := ``
			for _, r := range s {
				if r == '"' {
					b += `'"'`
				} else {
					b += `"` + string(r) + `"`
				}
			}
			return b
		}
		return `"` + s + `"`
	}
	return `'` + s + `'`
}

func genSegs(t *rapid.T) segsCase {
	var c segsCase
	str := rapid.OneOf(
		rapid.SampledFrom([]string{`a`, `k`, ``, `a.b`, `0`, `12`, `-3`, `it's`, `say "x"`, `'"`, `x y`, `å`, `mod::k`, `.`, `lookup_options`, `1.5`}),
		rapid.StringN(0, 6, 20))
	n := rapid.IntRange(1, 5).Draw(t, `n`)
	var ss []string
	for i := 0; i < n; i++ {
		var v V
		if i > 0 && chance(t, 3, `index`) {
			v = int64(rapid.Int32().Draw(t, `i`))
		} else {
			v = str.Draw(t, `s`)
		}
		h := rapid.IntRange(0, 2).Draw(t, `how`)
		c.Segs = append(c.Segs, Val{v})
		c.How = append(c.How, h)
		ss = append(ss, writeSeg(v, h))
	}
	c.Key = strings.Join(ss, `.`)
	return c
}

func runSegs(x *X, c segsCase) error {
	if len(c.Segs) > 1 {
		x.NonTrivial()
	}
	k, err := newKey(c.Key)
	if err != nil {
		return fmt.Errorf(`%q was rejected: %v`, c.Key, err)
	}
	if name, ok := c.Segs[len(c.Segs)-1].V.(string); ok {
		// A name that isn't parsed
		rk := api.NewRootKey(name)
		for i := 0; i < 2; i++ {
			if got, err := toParts(rk.Parts()); err != nil || rk.Root() != name || !sameParts(got, []part{{s: name}}) {
				return fmt.Errorf(`root key %q, round %d, is %s, %v`, name, i, showParts(got), err)
			}
			src := rk.Source()
			if rk, err = newKey(src); err != nil {
				return fmt.Errorf(`root key %q has source %q that's rejected: %v`, name, src, err)
			}
		}
	}
	var want []part
	for _, s := range c.Segs {
		if i, ok := s.V.(int64); ok {
			want = append(want, part{i: int(i), isI: true})
		} else {
			want = append(want, part{s: s.V.(string)})
		}
	}
	got, err := toParts(k.Parts())
	if err != nil {
		return err
	}
	if !sameParts(got, want) {
		return fmt.Errorf("%q:\n  got  %s\n  want %s", c.Key, showParts(got), showParts(want))
	}
	return nil
}

type keyLookupCase struct {
	Key string `json:"key"`
	In  int    `json:"in"` // direct, interpolated lookup, interpolated variable
}

// A key that is used in a lookup is parsed in the same way
func runKeyLookup(x *X, c keyLookupCase) error {
	want, werr := parseKey(c.Key)
	var v V = int64(42)
	data := M{}
	if werr == nil {
		x.NonTrivial()
		for i := len(want) - 1; i > 0; i-- {
			k := want[i].s
			if want[i].isI {
				k = fmt.Sprintf(`%s%d`, intKey, want[i].i)
			}
			v = M{k: v}
		}
		data[want[0].s] = v
	}
	kq := `"`
	if strings.Contains(c.Key, kq) {
		kq = `'`
	}
	key := c.Key
	w := World{Cfg: Config{Levels: []Level{{Name: `a`, LocKey: `paths`, Locs: []string{`a.yaml`, `b.yaml`}}}}}
	wantRes := value(int64(42))
	switch c.In {
	case 1:
		data2 := M{`zzz`: `%{lookup(` + kq + c.Key + kq + `)}`}
		w.Files = append(w.Files, File{Path: `data/b.yaml`, Data: Val{data2}})
		key, wantRes = `zzz`, value(`42`)
	case 2:
		data2 := M{`zzz`: `%{` + c.Key + `}`}
		w.Files = append(w.Files, File{Path: `data/b.yaml`, Data: Val{data2}})
		w.Scope = Val{data}
		data = M{}
		key, wantRes = `zzz`, value(`42`)
	}
	w.Files = append(w.Files, File{Path: `data/a.yaml`, Data: Val{data}})
	dir := x.Dir()
	w.write(dir)
	var got Res
	w.inSession(dir, func(s api.Session) {
		got = capture(func() dgo.Value { return hiera.Lookup(s.Invocation(w.scope(), nil), key, nil, nil) })
	})
	if got.Err != nil && isRuntime(got.Err) {
		return fmt.Errorf(`lookup of %q crashed: %v`, key, got.Err)
	}
	if werr != nil {
		if got.Err == nil {
			return fmt.Errorf(`lookup with the key %q should fail (%v) but gives %s`, c.Key, werr, got)
		}
		return nil
	}
	if want[0].s == `lookup_options` && c.In < 2 {
		wantRes = Res{}
		if c.In == 1 {
			wantRes = value(``)
		}
	}
	if !got.same(wantRes) {
		return differ(fmt.Sprintf(`lookup with the key %q`, c.Key), got, wantRes)
	}
	return nil
}

func genKeyLookup(t *rapid.T) keyLookupCase {
	var c keyLookupCase
	c.In = rapid.IntRange(0, 2).Draw(t, `in`)
	for {
		if chance(t, 7, `valid`) {
			c.Key = genSegs(t).Key
		} else {
			c.Key = genKeyString(t).S
		}
		if c.In == 0 {
			break
		}
		// What can be written in an expression
		if hasAny(c.Key, "}%") || strings.TrimSpace(c.Key) != c.Key || c.Key == `` || c.Key == `::` || c.Key == `''` || c.Key == `""` || c.Key == `'::'` || c.Key == `"::"` {
			c.Key = `a.'b'`
		}
		if c.In == 1 && strings.Contains(c.Key, `'`) && strings.Contains(c.Key, `"`) {
			c.In = 0
		}
		if c.In == 2 && hasAny(c.Key, `()`) {
			c.In = 0
		}
		break
	}
	// The data must survive interpolation
	if strings.Contains(c.Key, `%{`) {
		c.Key = `a`
	}
	return c
}

func init() {
	register(&Property{
		ID: `C04`,
		Rule: `Strings assembled from dots, quotes, digits, signs and unicode, arbitrary strings, lists of segments that are written as a
key with each way of quoting, and such keys used in real lookups, lookup() expressions and variable expressions. Non-trivial:
the string has a dot or a quote; the list has several segments; the key is well-formed.`,
		Assumptions: []string{`strings are valid UTF-8`},
		Subs: []subCheck{
			Spec[keyCase]{Name: `tokens`, Quick: 20000, Thorough: 1000000, Gen: genKeyString, Run: runKey},
			Spec[keyCase]{Name: `strings`, Quick: 10000, Thorough: 300000, Gen: func(t *rapid.T) keyCase { return keyCase{rapid.String().Draw(t, `s`)} }, Run: runKey},
			Spec[segsCase]{Name: `segments`, Quick: 10000, Thorough: 300000, Gen: genSegs, Run: runSegs},
			Spec[keyLookupCase]{Name: `lookup`, Quick: 1500, Thorough: 30000, Gen: genKeyLookup, Run: runKeyLookup},
		},
	})
}
