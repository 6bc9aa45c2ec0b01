package harness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"pgregory.net/rapid"
)

// A V is a data value of the reference model: nil, bool, int64, float64, string, []V or map[string]V. Integer keys of a
// map are encoded as strings that start with intKey. Two special values occur in results only: sens and other.
type V = interface{}

// L and M are the collections of the model
type (
	L = []interface{}
	M = map[string]interface{}
)

const intKey = "#i:"

// sens is a sensitive value
type sens struct{ v V }

// other is a value that isn't data
type other string

// Val is a V in a case. Its JSON form is lossless.
type Val struct{ V }

// MarshalJSON writes the value
func (v Val) MarshalJSON() ([]byte, error) { return json.Marshal(enc(v.V)) }

// UnmarshalJSON reads the value
func (v *Val) UnmarshalJSON(bs []byte) error {
	d := json.NewDecoder(bytes.NewReader(bs))
	d.UseNumber()
	var x interface{}
	if err := d.Decode(&x); err != nil {
		return err
	}
	v.V = dec(x)
	return nil
}

func enc(v V) interface{} {
	switch v := v.(type) {
	case float64:
		return M{`#f`: strconv.FormatFloat(v, 'g', -1, 64)}
	case L:
		c := make(L, len(v))
		for i, e := range v {
			c[i] = enc(e)
		}
		return c
	case M:
		c := M{}
		for k, e := range v {
			c[k] = enc(e)
		}
		return c
	}
	return v
}

func dec(v interface{}) V {
	switch v := v.(type) {
	case json.Number:
		i, err := v.Int64()
		if err != nil {
			panic(infra{err})
		}
		return i
	case L:
		for i, e := range v {
			v[i] = dec(e)
		}
		return v
	case M:
		if f, ok := v[`#f`]; ok && len(v) == 1 {
			x, err := strconv.ParseFloat(f.(string), 64)
			must(err)
			return x
		}
		for k, e := range v {
			v[k] = dec(e)
		}
		return v
	}
	return v
}

func keys(m M) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func eq(a, b V) bool { return reflect.DeepEqual(norm(a), norm(b)) }

// norm makes empty collections comparable
func norm(v V) V {
	switch v := v.(type) {
	case L:
		c := make(L, len(v))
		for i, e := range v {
			c[i] = norm(e)
		}
		return c
	case M:
		c := M{}
		for k, e := range v {
			c[k] = norm(e)
		}
		return c
	case sens:
		return sens{norm(v.v)}
	}
	return v
}

// flow writes a value as a YAML flow value, which is also JSON unless there are integer keys.
func flow(v V) string {
	b := &strings.Builder{}
	writeFlow(b, v)
	return b.String()
}

func jstr(s string) string {
	b := &bytes.Buffer{}
	e := json.NewEncoder(b)
	e.SetEscapeHTML(false)
	must(e.Encode(s))
	// DEL and the C1 controls aren't printable in YAML
	out := &strings.Builder{}
	for _, r := range strings.TrimSuffix(b.String(), "\n") {
		if r == 0x7f || r >= 0x80 && r < 0xa0 || r == 0xfeff || r >= 0x2028 && r <= 0x2029 || r == 0xfffe || r == 0xffff {
			fmt.Fprintf(out, `\u%04x`, r)
		} else {
			out.WriteRune(r)
		}
	}
	return out.String()
}

func writeFlow(b *strings.Builder, v V) {
	switch v := v.(type) {
	case nil:
		b.WriteString(`null`)
	case bool:
		b.WriteString(strconv.FormatBool(v))
	case int64:
		b.WriteString(strconv.FormatInt(v, 10))
	case float64:
		s := strconv.FormatFloat(v, 'g', -1, 64)
		if !strings.ContainsAny(s, `.e`) {
			s += `.0`
		}
		if strings.Contains(s, `e`) && !strings.Contains(s, `.`) {
			s = strings.Replace(s, `e`, `.0e`, 1)
		}
		b.WriteString(s)
	case string:
		b.WriteString(jstr(v))
	case L:
		b.WriteByte('[')
		for i, e := range v {
			if i > 0 {
				b.WriteString(`, `)
			}
			writeFlow(b, e)
		}
		b.WriteByte(']')
	case M:
		b.WriteByte('{')
		for i, k := range keys(v) {
			if i > 0 {
				b.WriteString(`, `)
			}
			if strings.HasPrefix(k, intKey) {
				b.WriteString(k[len(intKey):])
			} else {
				b.WriteString(jstr(k))
			}
			b.WriteString(`: `)
			writeFlow(b, v[k])
		}
		b.WriteByte('}')
	default:
		panic(infra{fmt.Errorf(`cannot write %T`, v)})
	}
}

// toV converts a value of the code under test
func toV(v dgo.Value) V {
	switch v := v.(type) {
	case nil:
		return nil
	case dgo.Sensitive:
		return sens{toV(v.Unwrap())}
	case dgo.Boolean:
		return v.GoBool()
	case dgo.Integer:
		return v.GoInt()
	case dgo.Float:
		return v.GoFloat()
	case dgo.String:
		return v.GoString()
	case dgo.Array:
		a := make(L, 0, v.Len())
		v.Each(func(e dgo.Value) { a = append(a, toV(e)) })
		return a
	case dgo.Map:
		m := M{}
		v.EachEntry(func(e dgo.MapEntry) {
			var k string
			switch ek := e.Key().(type) {
			case dgo.String:
				k = ek.GoString()
			case dgo.Integer:
				k = intKey + strconv.FormatInt(ek.GoInt(), 10)
			default:
				k = fmt.Sprintf("#k:%T:%s", ek, ek)
			}
			m[k] = toV(e.Value())
		})
		return m
	}
	if v == vf.Nil {
		return nil
	}
	return other(fmt.Sprintf(`%T:%s`, v, v))
}

// toD converts a value to one of the code under test
func toD(v V) dgo.Value {
	switch v := v.(type) {
	case nil:
		return vf.Nil
	case bool:
		return vf.Boolean(v)
	case int64:
		return vf.Integer(v)
	case float64:
		return vf.Float(v)
	case string:
		return vf.String(v)
	case L:
		a := make([]dgo.Value, len(v))
		for i, e := range v {
			a[i] = toD(e)
		}
		return vf.Array(a)
	case M:
		return toDMap(v)
	case sens:
		return vf.Sensitive(toD(v.v))
	}
	panic(infra{fmt.Errorf(`cannot convert %T`, v)})
}

func toDMap(v M) dgo.Map {
	m := vf.MutableMap()
	for _, k := range keys(v) {
		if strings.HasPrefix(k, intKey) {
			i, err := strconv.ParseInt(k[len(intKey):], 10, 64)
			must(err)
			m.Put(i, toD(v[k]))
		} else {
			m.Put(k, toD(v[k]))
		}
	}
	return m
}

func cp(v V) V {
	switch v := v.(type) {
	case L:
		c := make(L, len(v))
		for i, e := range v {
			c[i] = cp(e)
		}
		return c
	case M:
		c := M{}
		for k, e := range v {
			c[k] = cp(e)
		}
		return c
	}
	return v
}

func show(v V) string {
	switch v := v.(type) {
	case sens:
		return `sensitive(` + show(v.v) + `)`
	case other:
		return string(v)
	}
	bs, err := json.Marshal(enc(v))
	if err != nil {
		return fmt.Sprintf(`%#v`, v)
	}
	return string(bs)
}

// ---- generators

// scalars never contain an interpolation expression
func genScalar() *rapid.Generator[V] {
	return rapid.OneOf(
		rapid.Custom(func(t *rapid.T) V {
			return rapid.SampledFrom([]string{``, `a`, `b`, `c`, `x y`, `å`, `1`, `true`, `null`, `100%`, `{a}`, `a.b`, `a: b`, `- x`, `#c`}).Draw(t, `s`)
		}),
		rapid.Custom(func(t *rapid.T) V { return int64(rapid.IntRange(-2, 4).Draw(t, `i`)) }),
		rapid.Custom(func(t *rapid.T) V { return rapid.Bool().Draw(t, `b`) }),
		rapid.Custom(func(t *rapid.T) V { return rapid.SampledFrom([]float64{0.5, -1.25, 3.75}).Draw(t, `f`) }),
		rapid.Just(V(nil)),
	)
}

// genValue generates a value with small domains so that keys and elements collide
func genValue(depth int) *rapid.Generator[V] {
	return rapid.Custom(func(t *rapid.T) V {
		max := 5
		if depth <= 0 {
			max = 2
		} else if rapid.IntRange(0, 199).Draw(t, `islarge`) == 137 {
			return genLargeValue(t, 100)
		}
		switch k := rapid.IntRange(0, max).Draw(t, `kind`); {
		case k <= 2:
			return genScalar().Draw(t, `scalar`)
		case k == 3:
			return V(rapid.SliceOfN(genValue(depth-1), 0, 4).Draw(t, `list`))
		default:
			return V(genMap(depth-1, 4).Draw(t, `map`))
		}
	})
}

var mapKeys = []string{`a`, `b`, `c`, `d`, `x y`, `a.b`, intKey + `1`, `1`}

func genMap(depth, n int) *rapid.Generator[M] {
	return rapid.Custom(func(t *rapid.T) M {
		m := M{}
		for i := rapid.IntRange(0, n).Draw(t, `n`); i > 0; i-- {
			m[rapid.SampledFrom(mapKeys).Draw(t, `k`)] = genValue(depth).Draw(t, `v`)
		}
		return m
	})
}

// chance is true with a probability of n in 10
func chance(t *rapid.T, n int, what string) bool {
	// The simplest outcome is false
	return rapid.IntRange(0, 9).Draw(t, what) >= 10-n
}

func pick[T any](t *rapid.T, what string, from ...T) T {
	return rapid.SampledFrom(from).Draw(t, what)
}
