package harness

import (
	"context"
	"fmt"
	"path/filepath"
	"regexp"
	"slices"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/config"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/provider"
	y3 "gopkg.in/yaml.v3"
	"pgregory.net/rapid"
)

var optionName = regexp.MustCompile(`^[A-Za-z]([0-9A-Za-z_-]*[0-9A-Za-z])?$`)

var cfgFns = []string{`data_hash`, `lookup_key`, `data_dig`}
var cfgLocs = []string{`path`, `paths`, `glob`, `globs`, `uri`, `uris`, `mapped_paths`}

// invalidConfig is the reference validator. It returns the reason for why a configuration is invalid, or an empty string.
func invalidConfig(v V) string {
	m, ok := v.(M)
	if !ok {
		return `not a hash`
	}
	if ver, ok := m[`version`]; !ok || ver != V(int64(5)) {
		return `version isn't 5`
	}
	for _, k := range keys(m) {
		switch k {
		case `version`:
		case `defaults`:
			d, ok := m[k].(M)
			if !ok {
				return `defaults isn't a hash`
			}
			if r := invalidEntry(d, true); r != `` {
				return `defaults: ` + r
			}
		case `hierarchy`, `default_hierarchy`:
			h, ok := m[k].(L)
			if !ok {
				return k + ` isn't an array`
			}
			names := map[string]bool{}
			for i, e := range h {
				em, ok := e.(M)
				if !ok {
					return fmt.Sprintf(`%s[%d] isn't a hash`, k, i)
				}
				if r := invalidEntry(em, false); r != `` {
					return fmt.Sprintf(`%s[%d]: %s`, k, i, r)
				}
				n := em[`name`].(string)
				if names[n] {
					return fmt.Sprintf(`duplicate name %s`, n)
				}
				names[n] = true
			}
		default:
			return `unknown key ` + k
		}
	}
	return ``
}

func isStr(v V) bool {
	s, ok := v.(string)
	return ok && s != ``
}

func invalidEntry(m M, defaults bool) string {
	if _, ok := m[`name`]; !ok && !defaults {
		return `no name`
	}
	fns, locs := 0, 0
	for _, k := range keys(m) {
		v := m[k]
		switch k {
		case `data_hash`, `lookup_key`, `data_dig`, `datadir`, `plugindir`:
			if !isStr(v) {
				return k + ` isn't a non-empty string`
			}
			if k != `datadir` && k != `plugindir` {
				fns++
			}
		case `options`:
			o, ok := v.(M)
			if !ok {
				return `options isn't a hash`
			}
			for _, n := range keys(o) {
				if !optionName.MatchString(n) {
					return `bad option name ` + n
				}
				if n == `path` || n == `uri` {
					return `reserved option name ` + n
				}
				if !isData(o[n]) {
					return `option isn't data`
				}
			}
		case `name`, `pluginfile`, `path`, `glob`, `uri`:
			if defaults {
				return k + ` isn't allowed in defaults`
			}
			if !isStr(v) {
				return k + ` isn't a non-empty string`
			}
			if k != `name` && k != `pluginfile` {
				locs++
			}
		case `paths`, `globs`, `uris`, `mapped_paths`:
			if defaults {
				return k + ` isn't allowed in defaults`
			}
			l, ok := v.(L)
			if !ok || len(l) == 0 || k == `mapped_paths` && len(l) != 3 {
				return k + ` isn't an array of the right size`
			}
			for _, e := range l {
				if !isStr(e) {
					return k + ` has an element that isn't a non-empty string`
				}
			}
			locs++
		default:
			return `unknown key ` + k
		}
	}
	if fns > 1 {
		return `several functions`
	}
	if locs > 1 {
		return `several locations`
	}
	return ``
}

// isData tells if a value consists of what options may have. Hash keys must be strings
func isData(v V) bool {
	switch v := v.(type) {
	case L:
		for _, e := range v {
			if !isData(e) {
				return false
			}
		}
	case M:
		for k, e := range v {
			if strings.HasPrefix(k, intKey) || !isData(e) {
				return false
			}
		}
	case other:
		return false
	}
	return true
}

func genCfgStr(t *rapid.T) V {
	return pick[V](t, `str`, `a`, `x.yaml`, `%{env}`, `a b`, `Å/%{x}.yaml`, `/abs/x`, `1`, `5`, `true`, `null`, `~`, `{a}`, `a: b`)
}

func genCfgEntry(t *rapid.T, name string, defaults bool) M {
	m := M{}
	if !defaults {
		m[`name`] = name
	}
	if chance(t, 6, `fn`) {
		m[pick(t, `fnkey`, cfgFns...)] = genCfgStr(t)
	}
	if chance(t, 4, `datadir`) {
		m[`datadir`] = genCfgStr(t)
	}
	if chance(t, 3, `plugindir`) {
		m[`plugindir`] = genCfgStr(t)
	}
	if chance(t, 5, `options`) {
		o := M{}
		for i := rapid.IntRange(0, 3).Draw(t, `nopts`); i > 0; i-- {
			o[pick(t, `on`, `a`, `b1`, `C-d`, `e_f`, `paths`, `pathx`, `Path`, `glob`, `urix`, `z--9`, `merge`, `x__y`)] = genOptData(t, 2)
		}
		m[`options`] = o
	}
	if defaults {
		return m
	}
	if chance(t, 2, `pluginfile`) {
		m[`pluginfile`] = genCfgStr(t)
	}
	if chance(t, 8, `loc`) {
		switch k := pick(t, `lockey`, cfgLocs...); k {
		case `path`, `glob`, `uri`:
			m[k] = genCfgStr(t)
		default:
			n := 3
			if k != `mapped_paths` {
				n = rapid.IntRange(1, 3).Draw(t, `nloc`)
			}
			l := L{}
			for ; n > 0; n-- {
				l = append(l, genCfgStr(t))
			}
			m[k] = l
		}
	}
	return m
}

func genOptData(t *rapid.T, depth int) V {
	v := genValue(depth).Draw(t, `opt`)
	return jsonSafe(v)
}

func genValidCfg(t *rapid.T) M {
	m := M{`version`: int64(5)}
	if chance(t, 5, `defaults`) {
		m[`defaults`] = genCfgEntry(t, ``, true)
	}
	h := func(n int) L {
		l := L{}
		for i := 0; i < n; i++ {
			l = append(l, genCfgEntry(t, fmt.Sprintf(pick(t, `nameform`, `level %d`, `L%d`, `%d`), i), false))
		}
		return l
	}
	if chance(t, 9, `hierarchy`) {
		m[`hierarchy`] = h(rapid.IntRange(0, 3).Draw(t, `levels`))
	}
	if chance(t, 2, `dh`) {
		m[`default_hierarchy`] = h(rapid.IntRange(0, 2).Draw(t, `dlevels`))
	}
	return m
}

// anything that might be misplaced in a configuration
func genCfgJunk(t *rapid.T) V {
	switch rapid.IntRange(0, 4).Draw(t, `junk`) {
	case 0:
		return pick[V](t, `jscalar`, ``, int64(5), int64(4), 5.0, 5.5, `5`, nil, true, `x`, int64(0), ` `)
	case 1:
		return genCfgStr(t)
	case 2:
		return pick[V](t, `jlist`, L{}, L{`a`}, L{``}, L{`a`, `b`, `c`}, L{`a`, `b`}, L{`a`, int64(1), `c`}, L{L{`a`}}, L{nil}, L{M{}}, L{`a`, `b`, ``}, L{`a`, `b`, `c`, `d`})
	case 3:
		return pick[V](t, `jmap`, M{}, M{`a`: `b`}, M{`path`: `x`}, M{`uri`: nil}, M{`1a`: int64(1)}, M{`a_`: int64(1)}, M{`a b`: int64(1)}, M{``: `x`}, M{`a`: M{intKey + `1`: `x`}}, M{intKey + `1`: `x`}, M{`name`: `n`}, M{`å`: `x`}, M{`-a`: `x`}, M{`a.b`: `x`})
	}
	return genValue(2).Draw(t, `jany`)
}

var cfgJunkKeys = []string{`version`, `defaults`, `hierarchy`, `default_hierarchy`, `hierarchies`, `name`, `path`, `paths`, `glob`, `globs`, `uri`, `uris`, `mapped_paths`, `mapped_path`, `data_hash`, `lookup_key`,
	`data_dig`, `hiera3_backend`, `options`, `option`, `datadir`, `data_dir`, `plugindir`, `pluginfile`, `Path`, ``, `path `, intKey + `5`, `VERSION`}

// editCfg makes one edit at a random place
func editCfg(t *rapid.T, v V) V {
	switch v := v.(type) {
	case M:
		c := cp(v).(M)
		ks := keys(c)
		act := rapid.IntRange(0, 4).Draw(t, `act`)
		if len(ks) == 0 {
			act = 0
		}
		if _, ok := c[`version`]; ok && len(ks) > 1 && chance(t, 9, `notversion`) {
			ks = keys(c)[:0:0]
			for _, k := range keys(c) {
				if k != `version` {
					ks = append(ks, k)
				}
			}
			if chance(t, 7, `inside`) {
				act = 4
			}
		}
		switch act {
		case 0: // add
			c[pick(t, `newkey`, cfgJunkKeys...)] = genCfgJunk(t)
		case 1: // remove
			delete(c, pick(t, `delkey`, ks...))
		case 2: // rename
			k := pick(t, `renkey`, ks...)
			e := c[k]
			delete(c, k)
			c[pick(t, `newkey`, cfgJunkKeys...)] = e
		default: // go into
			k := pick(t, `inkey`, ks...)
			if k != `version` && chance(t, 6, `deeper`) {
				c[k] = editCfg(t, c[k])
			} else {
				c[k] = genCfgJunk(t)
			}
		}
		return c
	case L:
		c := cp(v).(L)
		act := rapid.IntRange(0, 4).Draw(t, `act`)
		if len(c) == 0 {
			act = 0
		}
		switch act {
		case 0:
			return append(c, genCfgJunk(t))
		case 1:
			i := rapid.IntRange(0, len(c)-1).Draw(t, `dup`)
			return append(c, cp(c[i]))
		case 2:
			i := rapid.IntRange(0, len(c)-1).Draw(t, `del`)
			return append(c[:i:i], c[i+1:]...)
		default:
			i := rapid.IntRange(0, len(c)-1).Draw(t, `in`)
			c[i] = editCfg(t, c[i])
			return c
		}
	}
	return genCfgJunk(t)
}

// genNearCfg generates a configuration in which one entry has one value that is valid or almost valid where it is
func genNearCfg(t *rapid.T) cfgCase {
	m := genValidCfg(t)
	where := pick(t, `where`, `defaults`, `hierarchy`, `default_hierarchy`, `root`)
	if where == `root` {
		k := pick(t, `rootkey`, `version`, `defaults`, `hierarchy`, `default_hierarchy`)
		m[k] = pick[V](t, `rootvalue`, int64(5), int64(4), int64(6), int64(-5), 5.0, `5`, L{int64(5)}, M{}, L{}, nil, true, false, ``, `x`, L{M{}}, L{L{}}, L{nil}, L{`x`},
			L{M{`name`: `x`}}, L{M{`name`: `x`}, M{`name`: `x`}}, L{M{`name`: `x`}, M{`name`: `X`}}, L{M{`name`: `x`}, M{`name`: `x `}}, M{`name`: `x`}, M{`datadir`: `x`}, M{`path`: `x`}, M{`data_hash`: `x`, `data_dig`: `x`})
		return cfgCase{Val{m}}
	}
	var e M
	if where == `defaults` {
		e = genCfgEntry(t, ``, true)
		m[where] = e
	} else {
		l, _ := m[where].(L)
		if len(l) == 0 {
			l = L{genCfgEntry(t, `only`, false)}
		}
		m[where] = l
		e = l[rapid.IntRange(0, len(l)-1).Draw(t, `level`)].(M)
	}
	k := pick(t, `key`, append(append([]string{`name`, `datadir`, `plugindir`, `pluginfile`, `options`}, cfgFns...), cfgLocs...)...)
	if chance(t, 8, `alone`) {
		// It's the only function or location
		for _, ks := range [][]string{cfgFns, cfgLocs} {
			for _, o := range ks {
				if o != k && slices.Contains(ks, k) {
					delete(e, o)
				}
			}
		}
	}
	switch k {
	case `options`:
		n := pick(t, `optname`, `a`, `Z`, `a1`, `a_b`, `a-b`, `a-_-b`, `a1b2`, `path`, `uri`, `paths`, `uris`, `Path`, `URI`, ``, `1`, `1a`, `_a`, `-a`, `a_`, `a-`, `a b`, ` a`, `a.b`, `a/b`, "a\n", `å`, `aå`, `aåb`, intKey+`1`)
		e[k] = pick[V](t, `optform`, M{n: int64(1)}, M{n: int64(1)}, M{`ok`: true, n: `x`}, M{n: M{`path`: `x`, ``: L{}}}, M{n: M{intKey + `1`: `x`}}, M{n: nil}, M{}, L{}, L{M{n: `x`}}, nil, `x`, true)
	case `paths`, `globs`, `uris`, `mapped_paths`:
		e[k] = pick[V](t, `list`, L{}, L{`a`}, L{`a`, `b`}, L{`a`, `b`, `c`}, L{`a`, `a`, `a`}, L{`a`, `b`, `c`, `d`}, L{``}, L{`a`, ``, `c`}, L{`a`, `b`, ``}, L{``, `b`, `c`}, L{` `, `b`, `c`},
			L{`a`, `b`, int64(1)}, L{`a`, nil, `c`}, L{`a`, L{`b`}, `c`}, L{L{`a`, `b`, `c`}}, L{M{}}, L{true, `b`, `c`}, `a`, ``, nil, M{}, M{`a`: `b`}, int64(3))
	default:
		e[k] = pick[V](t, `value`, `a`, ` `, ``, `5`, int64(5), 5.5, true, nil, L{}, L{`a`}, M{}, M{`a`: `b`}, `%{}`)
	}
	return cfgCase{Val{m}}
}

type cfgCase struct {
	V Val `json:"v"`
}

// tryLookup does a lookup in the way that programs do, and returns its error
func tryLookup(dir, key string) (v V, err error) {
	err = hiera.TryWithParent(context.Background(), provider.ConfigLookupKey, map[string]interface{}{api.HieraRoot: dir}, func(s api.Session) error {
		if r := hiera.Lookup(s.Invocation(nil, nil), key, nil, nil); r != nil {
			v = toV(r)
		}
		return nil
	})
	return
}

func runCfg(x *X, c cfgCase) error {
	return checkCfg(x, c.V.V, flow(c.V.V)+"\n")
}

func checkCfg(x *X, v V, text string) (err error) {
	reason := invalidConfig(v)
	dir := x.Dir()
	file := filepath.Join(dir, `hiera.yaml`)
	writeFile(file, text)
	var cfg api.Config
	r := capture(func() dgo.Value { cfg = config.New(file); return nil })
	if reason != `` {
		x.NonTrivial()
		lbl := reason
		if i := strings.Index(lbl, `: `); i > 0 {
			lbl = lbl[i+2:]
		}
		if i := strings.Index(lbl, ` name `); i > 0 {
			lbl = lbl[:i]
		}
		if strings.HasPrefix(lbl, `unknown key`) {
			lbl = `unknown key`
		}
		x.Label(`invalid: %s`, lbl)
		if r.Err == nil {
			return fmt.Errorf(`accepted but invalid (%s): %s`, reason, text)
		}
		if isRuntime(r.Err) {
			return fmt.Errorf(`crash for a configuration that is invalid (%s): %v: %s`, reason, r.Err, text)
		}
		if _, lerr := tryLookup(dir, `k`); lerr == nil {
			return fmt.Errorf(`a lookup succeeds with a configuration that is invalid (%s): %s`, reason, text)
		}
		return nil
	}
	x.Label(`valid`)
	m := v.(M)
	if len(m) > 1 {
		x.NonTrivial()
	}
	if r.Err != nil {
		return fmt.Errorf(`rejected but valid: %v: %s`, r.Err, text)
	}
	if cfg.Root() != dir || cfg.Path() != file {
		return fmt.Errorf(`root %q path %q, want %q %q`, cfg.Root(), cfg.Path(), dir, file)
	}
	d, _ := m[`defaults`].(M)
	if m[`defaults`] != nil {
		if err = sameEntry(`defaults`, cfg.Defaults(), d, true); err != nil {
			return err
		}
	}
	for _, k := range []string{`hierarchy`, `default_hierarchy`} {
		es := cfg.Hierarchy()
		if k == `default_hierarchy` {
			es = cfg.DefaultHierarchy()
		}
		h, ok := m[k].(L)
		if !ok {
			continue
		}
		if len(es) != len(h) {
			return fmt.Errorf(`%s has %d levels, want %d: %s`, k, len(es), len(h), text)
		}
		for i, e := range es {
			if err = sameEntry(fmt.Sprintf(`%s[%d]`, k, i), e, h[i].(M), false); err != nil {
				return err
			}
		}
	}
	return nil
}

// sameEntry compares an entry with what was written
func sameEntry(what string, e api.Entry, m M, defaults bool) error {
	str := func(k string) string { s, _ := m[k].(string); return s }
	check := func(k, got, want string) error {
		if got != want {
			return fmt.Errorf(`%s: %s is %q, want %q`, what, k, got, want)
		}
		return nil
	}
	name := str(`name`)
	if defaults {
		name = e.Name()
	}
	fn, wantFn := ``, ``
	if f := e.Function(); f != nil {
		fn = string(f.Kind()) + ` ` + f.Name()
	}
	for _, k := range cfgFns {
		if m[k] != nil {
			wantFn = k + ` ` + str(k)
		}
	}
	var opts, wantOpts V
	if o := e.Options(); o != nil {
		opts = toV(o)
	}
	wantOpts = m[`options`]
	if wantOpts == nil && opts != nil {
		wantOpts = M{}
	}
	kinds := map[string]string{`path`: `path`, `paths`: `path`, `glob`: `glob`, `globs`: `glob`, `uri`: `uri`, `uris`: `uri`, `mapped_paths`: `mapped_paths`}
	var locs, wantLocs []string
	for _, l := range e.Locations() {
		locs = append(locs, string(l.Kind())+` `+l.Original())
	}
	for _, k := range cfgLocs {
		switch v := m[k].(type) {
		case string:
			wantLocs = append(wantLocs, kinds[k]+` `+v)
		case L:
			if k == `mapped_paths` {
				wantLocs = append(wantLocs, fmt.Sprintf(`mapped_paths mapped_paths{sourceVar:%s, key:%s, template:%s}`, v...))
				continue
			}
			for _, s := range v {
				wantLocs = append(wantLocs, kinds[k]+` `+s.(string))
			}
		}
	}
	for _, c := range [][3]string{{`name`, e.Name(), name}, {`function`, fn, wantFn}, {`datadir`, e.DataDir(), str(`datadir`)}, {`plugindir`, e.PluginDir(), str(`plugindir`)},
		{`pluginfile`, e.PluginFile(), str(`pluginfile`)}, {`options`, show(opts), show(wantOpts)}, {`locations`, strings.Join(locs, `|`), strings.Join(wantLocs, `|`)}} {
		if err := check(c[0], c[1], c[2]); err != nil {
			return err
		}
	}
	return nil
}

type cfgTextCase struct {
	Text string `json:"text"`
}

// A document that isn't exactly what the generator wrote. An independent YAML reader decides what it means.
func runCfgText(x *X, c cfgTextCase) error {
	var n y3.Node
	err := y3.Unmarshal([]byte(c.Text), &n)
	if err == nil && n.Kind == 0 {
		return checkCfg(x, nil, c.Text)
	}
	if err == nil {
		var v V
		if v, err = fromNode(&n); err == nil {
			if v == V(nil) {
				// JSON null and an empty document
				return checkCfg(x, nil, c.Text)
			}
			return checkCfg(x, v, c.Text)
		}
		if err == errSkip {
			return nil
		}
	}
	x.Label(`malformed`)
	x.NonTrivial()
	dir := x.Dir()
	writeFile(filepath.Join(dir, `hiera.yaml`), c.Text)
	r := capture(func() dgo.Value { config.New(filepath.Join(dir, `hiera.yaml`)); return nil })
	if r.Err == nil {
		return fmt.Errorf(`malformed YAML is accepted: %q`, c.Text)
	}
	if _, lerr := tryLookup(dir, `k`); lerr == nil {
		return fmt.Errorf(`lookup succeeds with malformed YAML: %q`, c.Text)
	}
	return nil
}

var errSkip = fmt.Errorf(`uses what the model doesn't handle`)

// fromNode converts what yaml.v3 has read
func fromNode(n *y3.Node) (V, error) {
	switch n.Kind {
	case y3.DocumentNode:
		return fromNode(n.Content[0])
	case y3.SequenceNode:
		l := L{}
		for _, e := range n.Content {
			v, err := fromNode(e)
			if err != nil {
				return nil, err
			}
			l = append(l, v)
		}
		return l, nil
	case y3.MappingNode:
		m := M{}
		for i := 0; i < len(n.Content); i += 2 {
			k, err := fromNode(n.Content[i])
			if err != nil {
				return nil, err
			}
			v, err := fromNode(n.Content[i+1])
			if err != nil {
				return nil, err
			}
			ks, ok := k.(string)
			if !ok {
				if _, ok := k.(int64); !ok {
					return nil, errSkip
				}
				ks = fmt.Sprintf(`%s%d`, intKey, k)
			}
			if _, dup := m[ks]; dup || ks == `<<` {
				return nil, errSkip
			}
			m[ks] = v
		}
		return m, nil
	case y3.ScalarNode:
		var v interface{}
		if err := n.Decode(&v); err != nil {
			return nil, errSkip
		}
		switch v := v.(type) {
		case int:
			return int64(v), nil
		case nil, bool, float64, string:
			return v, nil
		}
	}
	return nil, errSkip
}

func genCfgText(t *rapid.T) cfgTextCase {
	v := V(genValidCfg(t))
	if chance(t, 3, `edit`) {
		v = editCfg(t, v)
	}
	s := flow(v)
	if chance(t, 6, `block`) {
		bs, err := y3.Marshal(unkey(v))
		must(err)
		s = string(bs)
	}
	rs := []rune(s)
	for i := rapid.IntRange(0, 2).Draw(t, `edits`); i > 0 && len(rs) > 0; i-- {
		p := rapid.IntRange(0, len(rs)-1).Draw(t, `pos`)
		switch rapid.IntRange(0, 3).Draw(t, `op`) {
		case 0:
			rs = append(rs[:p:p], rs[p+1:]...)
		case 1:
			ins := []rune(pick(t, `ins`, ` `, `"`, `:`, "\n", `-`, `{`, `]`, `,`, `#`, `x`, "\t", `'`, `|`, `- `, `5`, "---\n", `!`, `@`, `?`))
			rs = append(rs[:p:p], append(ins, rs[p:]...)...)
		case 2:
			rs = rs[:p]
		default:
			q := rapid.IntRange(p, min(len(rs), p+12)).Draw(t, `to`)
			rs = append(rs[:p:p], rs[q:]...)
		}
	}
	return cfgTextCase{string(rs)}
}

// unkey converts integer keys for a YAML writer
func unkey(v V) interface{} {
	switch v := v.(type) {
	case L:
		c := make(L, len(v))
		for i, e := range v {
			c[i] = unkey(e)
		}
		return c
	case M:
		c := map[interface{}]interface{}{}
		for k, e := range v {
			if strings.HasPrefix(k, intKey) {
				var i int
				_, _ = fmt.Sscan(k[len(intKey):], &i)
				c[i] = unkey(e)
			} else {
				c[k] = unkey(e)
			}
		}
		return c
	}
	return v
}

func init() {
	register(&Property{
		ID: `C10`,
		Rule: `A configuration is generated and edited up to three times at random places (keys added, removed, renamed, values replaced,
elements duplicated), or is edited as text, or one entry has a value that is almost valid. A validator that is written by hand, with its own reading of YAML, decides whether it is valid. Invalid
ones must be rejected by config.New and by a lookup, without a run time error; valid ones must expose what was written. Non-trivial: invalid,
malformed, or valid with more than a version.`,
		Assumptions: []string{`documents that use anchors, duplicate keys or YAML-only types are skipped`,
			`an option name is a letter optionally followed by letters, digits, _ and -, ending with a letter or digit; names with a colon aren't generated`},
		Subs: []subCheck{
			Spec[cfgCase]{Name: `edited`, Quick: 6000, Thorough: 200000, Gen: func(t *rapid.T) cfgCase {
				v := V(genValidCfg(t))
				for i := rapid.IntRange(0, 3).Draw(t, `edits`); i > 0; i-- {
					v = editCfg(t, v)
				}
				return cfgCase{Val{v}}
			}, Run: runCfg},
			Spec[cfgCase]{Name: `near`, Quick: 4000, Thorough: 60000, Gen: genNearCfg, Run: runCfg},
			Spec[cfgCase]{Name: `large`, Quick: 200, Thorough: 5000, Gen: genLargeCfg, Run: runCfg},
			Spec[cfgTextCase]{Name: `text`, Quick: 4000, Thorough: 100000, Gen: genCfgText, Run: runCfgText},
		},
	})
}
