package harness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"slices"
	"strings"
	"sync"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/hiera/config"
	"pgregory.net/rapid"
)

const schemaFile = `/repo/schema/hiera_v5.yaml`

// theSchema converts the schema of the configuration to JSON in the documented way
var theSchema = sync.OnceValues(func() (interface{}, error) {
	in, err := os.ReadFile(schemaFile)
	if err != nil {
		return nil, err
	}
	cmd := exec.Command(filepath.Join(os.Getenv(`VERIF_BIN`), `yaml2json`))
	cmd.Stdin = bytes.NewReader(in)
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf(`yaml2json fails for the schema: %v`, err)
	}
	var s interface{}
	if err = json.Unmarshal(out, &s); err != nil {
		return nil, fmt.Errorf(`the schema isn't JSON after yaml2json: %v`, err)
	}
	return s, nil
})

// schemaDoc evaluates the validation keywords of JSON schema draft 4
type schemaDoc struct{ root interface{} }

func (d schemaDoc) ref(r string) (interface{}, error) {
	if !strings.HasPrefix(r, `#`) {
		return nil, fmt.Errorf(`unsupported $ref %q`, r)
	}
	c := d.root
	for _, p := range strings.Split(strings.TrimPrefix(r, `#`), `/`) {
		if p == `` {
			continue
		}
		p = strings.ReplaceAll(strings.ReplaceAll(p, `~1`, `/`), `~0`, `~`)
		m, ok := c.(map[string]interface{})
		if !ok {
			return nil, fmt.Errorf(`$ref %q doesn't lead anywhere`, r)
		}
		if c, ok = m[p]; !ok {
			return nil, fmt.Errorf(`$ref %q doesn't lead anywhere`, r)
		}
	}
	return c, nil
}

func schemaType(t string, v V) bool {
	switch t {
	case `object`:
		_, ok := v.(M)
		return ok
	case `array`:
		_, ok := v.(L)
		return ok
	case `string`:
		_, ok := v.(string)
		return ok
	case `boolean`:
		_, ok := v.(bool)
		return ok
	case `null`:
		return v == nil
	case `integer`:
		_, ok := v.(int64)
		return ok
	case `number`:
		switch v.(type) {
		case int64, float64:
			return true
		}
	}
	return false
}

// valid tells if the value conforms to a schema. The error is for a schema that isn't right.
func (d schemaDoc) valid(schema interface{}, v V, depth int) (bool, error) {
	s, ok := schema.(map[string]interface{})
	if !ok {
		return false, fmt.Errorf(`a schema is %v`, schema)
	}
	if depth > 100 {
		return false, fmt.Errorf(`endless $ref`)
	}
	sub := func(s interface{}, v V) (bool, error) { return d.valid(s, v, depth+1) }
	if r, ok := s[`$ref`].(string); ok {
		t, err := d.ref(r)
		if err != nil {
			return false, err
		}
		return sub(t, v)
	}
	list := func(k string) (l []interface{}, n int, err error) {
		if s[k] == nil {
			return
		}
		l, ok := s[k].([]interface{})
		if !ok || len(l) == 0 {
			return nil, 0, fmt.Errorf(`%s is %v`, k, s[k])
		}
		for _, e := range l {
			ok, err := sub(e, v)
			if err != nil {
				return nil, 0, err
			}
			if ok {
				n++
			}
		}
		return
	}
	num := func(k string) (float64, bool, error) {
		if s[k] == nil {
			return 0, false, nil
		}
		f, ok := s[k].(float64)
		if !ok {
			return 0, false, fmt.Errorf(`%s is %v`, k, s[k])
		}
		return f, true, nil
	}
	// Everything is evaluated, to find a schema that isn't right
	result := true
	switch t := s[`type`].(type) {
	case nil:
	case string:
		result = schemaType(t, v)
	case []interface{}:
		result = slices.ContainsFunc(t, func(e interface{}) bool { es, _ := e.(string); return schemaType(es, v) })
	default:
		return false, fmt.Errorf(`type is %v`, t)
	}
	if l, n, err := list(`allOf`); err != nil {
		return false, err
	} else if n < len(l) {
		result = false
	}
	if l, n, err := list(`anyOf`); err != nil {
		return false, err
	} else if len(l) > 0 && n == 0 {
		result = false
	}
	if l, n, err := list(`oneOf`); err != nil {
		return false, err
	} else if len(l) > 0 && n != 1 {
		result = false
	}
	if s[`not`] != nil {
		ok, err := sub(s[`not`], v)
		if err != nil {
			return false, err
		}
		if ok {
			result = false
		}
	}
	if l, ok := s[`enum`].([]interface{}); ok {
		if !slices.ContainsFunc(l, func(e interface{}) bool {
			if f, ok := e.(float64); ok {
				i, ok := v.(int64)
				return ok && float64(i) == f
			}
			return reflect.DeepEqual(e, v)
		}) {
			result = false
		}
	}
	switch v := v.(type) {
	case string:
		for _, k := range []string{`minLength`, `maxLength`} {
			f, ok, err := num(k)
			if err != nil {
				return false, err
			}
			n := float64(len([]rune(v)))
			if ok && (k == `minLength` && n < f || k == `maxLength` && n > f) {
				result = false
			}
		}
		if p, ok := s[`pattern`].(string); ok {
			rx, err := regexp.Compile(p)
			if err != nil {
				return false, err
			}
			if !rx.MatchString(v) {
				result = false
			}
		}
	case int64:
		for _, k := range []string{`minimum`, `maximum`} {
			f, ok, err := num(k)
			if err != nil {
				return false, err
			}
			ex, _ := s[`exclusive`+strings.ToUpper(k[:1])+k[1:]].(bool)
			if ok && (k == `minimum` && float64(v) < f || k == `maximum` && float64(v) > f || ex && float64(v) == f) {
				result = false
			}
		}
	case L:
		for _, k := range []string{`minItems`, `maxItems`} {
			f, ok, err := num(k)
			if err != nil {
				return false, err
			}
			if ok && (k == `minItems` && len(v) < int(f) || k == `maxItems` && len(v) > int(f)) {
				result = false
			}
		}
		if u, _ := s[`uniqueItems`].(bool); u {
			for i := range v {
				for j := 0; j < i; j++ {
					if show(v[i]) == show(v[j]) {
						result = false
					}
				}
			}
		}
		for i, e := range v {
			var is interface{}
			switch items := s[`items`].(type) {
			case []interface{}:
				if i < len(items) {
					is = items[i]
				} else {
					is = s[`additionalItems`]
				}
			default:
				is = items
			}
			if is == nil || is == true {
				continue
			}
			if is == false {
				result = false
				continue
			}
			ok, err := sub(is, e)
			if err != nil {
				return false, err
			}
			if !ok {
				result = false
			}
		}
	case M:
		props, _ := s[`properties`].(map[string]interface{})
		pats, _ := s[`patternProperties`].(map[string]interface{})
		if r, ok := s[`required`]; ok {
			l, ok := r.([]interface{})
			if !ok || len(l) == 0 {
				return false, fmt.Errorf(`required is %v`, r)
			}
			for _, n := range l {
				ns, ok := n.(string)
				if !ok {
					return false, fmt.Errorf(`required is %v`, r)
				}
				if _, ok = v[ns]; !ok {
					result = false
				}
			}
		}
		for _, k := range []string{`minProperties`, `maxProperties`} {
			f, ok, err := num(k)
			if err != nil {
				return false, err
			}
			if ok && (k == `minProperties` && len(v) < int(f) || k == `maxProperties` && len(v) > int(f)) {
				result = false
			}
		}
		for _, k := range keys(v) {
			known := false
			if ps, ok := props[k]; ok {
				known = true
				ok, err := sub(ps, v[k])
				if err != nil {
					return false, err
				}
				if !ok {
					result = false
				}
			}
			for p, ps := range pats {
				rx, err := regexp.Compile(p)
				if err != nil {
					return false, err
				}
				if rx.MatchString(k) {
					known = true
					ok, err := sub(ps, v[k])
					if err != nil {
						return false, err
					}
					if !ok {
						result = false
					}
				}
			}
			if known {
				continue
			}
			switch ap := s[`additionalProperties`].(type) {
			case nil:
			case bool:
				if !ap {
					result = false
				}
			default:
				ok, err := sub(ap, v[k])
				if err != nil {
					return false, err
				}
				if !ok {
					result = false
				}
			}
		}
	}
	return result, nil
}

// structure replaces what the schema says nothing about: the text of strings, the number of locations in an array,
// names that must be unique and what the options are
func structure(v V) V {
	m, ok := v.(M)
	if !ok {
		return v
	}
	c := cp(m).(M)
	entry := func(v V, name string) V {
		m, ok := v.(M)
		if !ok {
			return v
		}
		for k, e := range m {
			switch e := e.(type) {
			case string:
				m[k] = `x`
				if k == `name` {
					m[k] = name
				}
			case L:
				if len(e) == 0 && slices.Contains([]string{`paths`, `globs`, `uris`}, k) {
					m[k] = L{`x`}
				}
				for i, s := range e {
					if _, ok := s.(string); ok {
						e[i] = `x`
					}
				}
			case M:
				if k == `options` {
					m[k] = M{}
				}
			}
		}
		return m
	}
	if d, ok := c[`defaults`]; ok {
		c[`defaults`] = entry(d, ``)
	}
	for _, k := range []string{`hierarchy`, `default_hierarchy`} {
		if l, ok := c[k].(L); ok {
			for i, e := range l {
				l[i] = entry(e, fmt.Sprintf(`level %d`, i))
			}
		}
	}
	return c
}

func runSchema(x *X, c cfgCase) error {
	v := c.V.V
	s, err := theSchema()
	if err != nil {
		return err
	}
	sm, ok := s.(map[string]interface{})
	if !ok {
		return fmt.Errorf(`the schema isn't an object`)
	}
	d := schemaDoc{s}
	bySchema, err := d.valid(sm, v, 0)
	if err != nil {
		return fmt.Errorf(`bad schema: %v`, err)
	}
	file := filepath.Join(x.Dir(), `hiera.yaml`)
	load := func(v V) error {
		writeFile(file, flow(v)+"\n")
		return capture(func() dgo.Value { config.New(file); return nil }).Err
	}
	if m, ok := v.(M); ok {
		if _, ok := m[`version`].(float64); ok {
			// 5.0 is the same as 5 in JSON
			return nil
		}
	}
	loadErr := load(v)
	if loadErr == nil {
		x.Label(`accepted`)
		x.NonTrivial()
		if !bySchema {
			return fmt.Errorf(`the schema rejects a configuration that is accepted: %s`, flow(v))
		}
		return nil
	}
	st := structure(v)
	stErr := load(st)
	if stErr == nil {
		x.Label(`not of the schema's concern`)
	} else {
		x.NonTrivial()
		lbl := invalidConfig(st)
		if i := strings.Index(lbl, `: `); i > 0 {
			lbl = lbl[i+2:]
		}
		if strings.HasPrefix(lbl, `unknown key`) {
			lbl = `unknown key`
		}
		x.Label(`rejected: %s`, lbl)
		if bySchema {
			return fmt.Errorf(`the schema accepts a configuration that is rejected (%v): %s`, stErr, flow(v))
		}
	}
	// The schema must have the same opinion about everything that has this structure, or a stronger one when it
	// constrains more than the structure
	if bySt, err := d.valid(sm, st, 0); err != nil {
		return err
	} else if bySt != (stErr == nil) {
		return fmt.Errorf(`by the schema, valid is %v but loading gives the error %v: %s`, bySt, stErr, flow(st))
	}
	return nil
}

func init() {
	edited := func(edits int) func(*rapid.T) cfgCase {
		return func(t *rapid.T) cfgCase {
			v := V(genValidCfg(t))
			for i := rapid.IntRange(0, edits).Draw(t, `edits`); i > 0; i-- {
				v = editCfg(t, v)
			}
			return cfgCase{Val{v}}
		}
	}
	register(&Property{
		ID: `C34`,
		Rule: `A configuration is generated and edited up to three times at random places, or has a value that is almost valid, or has two settings of which one is
permitted. The published schema, converted by yaml2json as documented and evaluated by an evaluator of JSON schema that is written for this check, must accept it when it is accepted by config.New
and must reject it when config.New rejects it for its structure. Non-trivial: accepted, or rejected for its structure.`,
		Assumptions: []string{`structure is keys, types, sizes of mapped_paths and exclusive settings. The schema says nothing about empty strings, empty arrays, unique names and the contents of options`,
			`a version that is a float isn't considered`},
		Subs: []subCheck{
			Spec[cfgCase]{Name: `edited`, Quick: 4000, Thorough: 100000, Gen: edited(3), Run: runSchema},
			Spec[cfgCase]{Name: `near`, Quick: 4000, Thorough: 60000, Gen: genNearCfg, Run: runSchema},
			Spec[cfgCase]{Name: `exclusive`, Quick: 2000, Thorough: 20000, Gen: func(t *rapid.T) cfgCase {
				m := genValidCfg(t)
				where := pick(t, `where`, `defaults`, `hierarchy`, `hierarchy`, `default_hierarchy`)
				e := genCfgEntry(t, `only`, where == `defaults`)
				ks := append(append([]string{}, cfgFns...), cfgLocs...)
				for i := rapid.IntRange(1, 2).Draw(t, `n`); i > 0; i-- {
					switch k := pick(t, `key`, ks...); k {
					case `paths`, `globs`, `uris`, `mapped_paths`:
						e[k] = L{`a`, `b`, `c`}
					default:
						e[k] = `x`
					}
				}
				if where == `defaults` {
					m[where] = e
				} else {
					m[where] = L{e}
				}
				return cfgCase{Val{m}}
			}, Run: runSchema},
		},
	})
}
