package harness

import (
	"context"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/explain"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/provider"
	sdk "github.com/lyraproj/hierasdk/hiera"
	"pgregory.net/rapid"
)

// failOp is one step of a history
type failOp struct {
	What    string `json:"what"` // lookup, repair
	Keys    []int  `json:"keys,omitempty"`
	Entry   string `json:"entry,omitempty"` // lookup, first (of keys), all, default
	F       int    `json:"f"`               // scope
	Merge   string `json:"merge,omitempty"`
	New     bool   `json:"new,omitempty"` // in a new invocation
	Repair  int    `json:"repair"`        // what is repaired
	Explain bool   `json:"explain,omitempty"`
}

type failCase struct {
	Root     string   `json:"root"`  // text of hiera.yaml until it's repaired, empty when it's good
	Files    []string `json:"files"` // texts of f/<n>.yaml or f/<n>.json, dir means that it's a directory
	JSON     bool     `json:"json"`
	Mods     []string `json:"mods"` // texts of the hiera.yaml of modules m<n>
	ModData  []string `json:"moddata"`
	Values   []Val    `json:"values"`   // faulty values
	Conv     []Val    `json:"conv"`     // faulty options, a list of value and option
	Mix      [][]int  `json:"mix"`      // values that refer to other keys
	Good     []Val    `json:"good"`     // values of good keys
	Order    []int    `json:"order"`    // of levels
	FnKinds  []string `json:"fn_kinds"` // how functions fail
	FnLevel  string   `json:"fn_level"` // lookup_key or data_dig
	Missing  bool     `json:"missing"`  // there is a level with a function that isn't found in one scope
	Ops      []failOp `json:"ops"`
	Explains bool     `json:"explains"`
}

var badConfigs = []string{"a: [", "- x\n", "x", "version: 6\n", "version: 5\nfoo: 1\n", `{"version": 5, "hierarchy": {"a": 1}}`, `{"version": 5, "hierarchy": [{"name": "x", "bad": 1}]}`,
	`{"version": 5, "hierarchy": [{"name": "x", "data_hash": "a", "lookup_key": "b"}]}`, `{"version": 5, "hierarchy": [{"name": "x", "path": "a", "paths": ["b"]}]}`,
	`{"version": 5, "hierarchy": [{"name": "x", "path": 1}]}`, `{"version": 5, "hierarchy": [{"path": "x"}]}`, `{"version": "5"}`, `{"version": 5, "defaults": []}`, "{\"version\": 5, \"hierarchy\": [\n", "\x00",
	`{"version": 5, "hierarchy": [{"name": "x", "path": "a"}, {"name": "x", "path": "b"}]}`, `{"version": 5, "hierarchy": [{"name": "x", "data_hash": "no_such_function"}]}`,
	`{"version": 5, "hierarchy": [{"name": "x", "lookup_key": "no_such_function"}]}`, `{"version": 5, "hierarchy": [{"name": "x", "data_hash": "flt"}]}`,
	`{"version": 5, "hierarchy": [{"name": "%{scope('a"}, {"name": "y", "path": "%{lookup('a.'}"}]}`, `{"version": 5, "hierarchy": [{"name": "y", "path": "%{bad('a')}"}]}`,
	`{"version": 5, "hierarchy": [{"name": "y", "path": "%{loopv}"}]}`, `{"version": 5, "hierarchy": [{"name": "y", "path": "%{lookup('m0::k')}"}]}`}

var badFiles = append(append([]string{}, badYaml...), `[a, b]`, `text`, `dir`, `3`, `"x"`)
var badValues = []V{`%{nofn('x')}`, `%{lookup('a..b')}`, `%{lookup('it"s')}`, `%{alias('a.')}`, `x%{alias('g0')}`, `%{strict_alias('g0')}x`, `%{loopv}`, `%{scope('loopv')}`, `%{loopv.x}`, `%{lookup('self')}`, `%{alias('self')}`,
	`%{lookup('loopk')}`, `%{lookup('3')}`, `%{scope('a.')}`, `%{'}`, `%{lookup(')}`}
var badOptions = []V{M{`merge`: `bogus`}, M{`merge`: M{`strategy`: `bogus`}}, M{`merge`: ``}, M{`merge`: M{}}, M{`merge`: M{`strategy`: int64(1)}}, M{`convert_to`: `int`}, M{`convert_to`: `map[`}, M{`convert_to`: L{`int`, `x`, `y`}},
	M{`convert_to`: int64(5)}, M{`convert_to`: L{int64(5)}}, M{`convert_to`: M{`a`: `b`}}, M{`convert_to`: L{L{`int`}}}, M{`convert_to`: `"x"`}, M{`convert_to`: ``}, M{`convert_to`: `nosuchtype`}, M{`convert_to`: nil}, M{`convert_to`: L{nil}}, M{`convert_to`: nil, `merge`: `nope`}}
var badKeys = []string{`g0..a`, `g0.`, `.g0`, `'g0`, `1`, `1.g0`, ``, `g0."a`, `g0.a'b`}
var fnFails = []string{`error`, `string`, `runtime`, `nested`, `sprintf`}

func genFailCase(t *rapid.T) failCase {
	var c failCase
	some := func(what string, min, max int) int { return rapid.IntRange(min, max).Draw(t, what) }
	if chance(t, 3, `badroot`) {
		c.Root = pick(t, `root`, badConfigs...)
	}
	c.JSON = chance(t, 3, `json`)
	bf := badFiles
	if c.JSON {
		bf = append(append([]string{}, badJSON...), `dir`, `[1]`, `"x"`, `3`, ``)
	}
	for i := some(`files`, 1, 3); i > 0; i-- {
		c.Files = append(c.Files, pick(t, `badfile`, bf...))
	}
	for i := some(`mods`, 1, 3); i > 0; i-- {
		c.Mods = append(c.Mods, pick(t, `badmod`, append([]string{``}, badConfigs...)...))
		c.ModData = append(c.ModData, pick(t, `moddata`, append([]string{``, ``}, badFiles...)...))
	}
	for i := some(`values`, 1, 3); i > 0; i-- {
		v := pick(t, `badvalue`, badValues...)
		switch some(`wrap`, 0, 3) {
		case 1:
			v = L{`ok %{who}`, v}
		case 2:
			v = M{`a`: M{`b`: v}, `c`: `%{who}`}
		}
		c.Values = append(c.Values, Val{v})
	}
	for i := some(`conv`, 1, 3); i > 0; i-- {
		c.Conv = append(c.Conv, Val{pick(t, `badopt`, badOptions...)})
	}
	for i := 0; i < 3; i++ {
		c.Good = append(c.Good, Val{genValue(2).Draw(t, `good`)})
	}
	c.Order = rapid.Permutation(seq(4)).Draw(t, `order`)
	for i := some(`fns`, 1, 2); i > 0; i-- {
		c.FnKinds = append(c.FnKinds, pick(t, `fnkind`, fnFails...))
	}
	c.FnLevel = pick(t, `fnlevel`, `lookup_key`, `data_dig`)
	c.Missing = chance(t, 2, `missing`)
	n := len(c.keys())
	for i := some(`mixes`, 1, 3); i > 0; i-- {
		var m []int
		for j := some(`mix`, 1, 3); j > 0; j-- {
			m = append(m, some(`mixk`, 0, n-1))
		}
		c.Mix = append(c.Mix, m)
	}
	n = len(c.keys())
	c.Explains = chance(t, 5, `explains`)
	for i := some(`ops`, 3, 14); i > 0; i-- {
		o := failOp{What: `lookup`, F: some(`f`, 0, len(c.Files)+1), New: chance(t, 3, `new`), Merge: pick(t, `opmerge`, ``, ``, ``, `first`, `unique`, `deep`, `bogus`)}
		if o.F > 0 && chance(t, 5, `f0`) {
			o.F = 0
		}
		if chance(t, 2, `repair`) {
			o.What = `repair`
			o.Repair = some(`which`, 0, len(c.Files)+2*len(c.Mods))
			if c.Root != `` && chance(t, 5, `rootrepair`) {
				o.Repair = 0
			}
		}
		o.Entry = pick(t, `entry`, `lookup`, `lookup`, `lookup`, `first`, `all`, `default`)
		for j := some(`nkeys`, 1, 3); j > 0; j-- {
			o.Keys = append(o.Keys, some(`opkey`, 0, n-1))
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

// keys are all keys that are looked up
func (c *failCase) keys() []string {
	ks := []string{`g0`, `g1`, `g2`, `g0`, `g1.a`, `none`}
	for i := range c.Files {
		ks = append(ks, fmt.Sprintf(`f%d`, i))
	}
	for i := range c.Mods {
		ks = append(ks, fmt.Sprintf(`m%d::k`, i))
	}
	for i := range c.Values {
		ks = append(ks, fmt.Sprintf(`i%d`, i), fmt.Sprintf(`try_i%d`, i))
	}
	for i := range c.Conv {
		ks = append(ks, fmt.Sprintf(`c%d`, i), fmt.Sprintf(`try_c%d`, i))
	}
	for i := range c.FnKinds {
		ks = append(ks, fmt.Sprintf(`p%d`, i), fmt.Sprintf(`try_p%d`, i))
	}
	ks = append(ks, `try_g0`, `try_g1`, `try_none`, `scoped_g0`, `scoped_f0`, `scoped_f0`, `scoped_i0`, `scoped_c0`, `scoped_p0`, `loopk`, `try_loopk`, `missingfn`)
	for i := range c.Mods {
		ks = append(ks, fmt.Sprintf(`try_m%d::k`, i))
	}
	ks = append(ks, badKeys...)
	for i := range c.Mix {
		ks = append(ks, fmt.Sprintf(`mix%d`, i), fmt.Sprintf(`mix%d`, i))
	}
	return ks
}

func (c *failCase) rootText() string {
	ext, fn := `yaml`, `yaml_data`
	if c.JSON {
		ext, fn = `json`, `json_data`
	}
	levels := []Level{
		{Name: `good`, Datadir: `data`, LocKey: `paths`, Locs: []string{`good.yaml`, `good2.yaml`}},
		{Name: `file`, Datadir: `data`, Kind: `data_hash`, Fn: fn, LocKey: `path`, Locs: []string{`f/%{f}.` + ext}},
		{Name: `fn`, Kind: c.FnLevel, Fn: `flt`},
		{Name: `more`, Datadir: `data`, LocKey: `path`, Locs: []string{`more.yaml`}},
	}
	cfg := Config{}
	for _, i := range c.Order {
		cfg.Levels = append(cfg.Levels, levels[i])
	}
	cfg.Levels = append(cfg.Levels, Level{Name: `try`, Kind: `lookup_key`, Fn: `try`})
	if c.Missing {
		cfg.Levels = append(cfg.Levels, Level{Name: `missing`, Kind: `lookup_key`, Fn: `no_such_function`, LocKey: `path`, Locs: []string{`%{missing}`}})
	}
	return cfg.text()
}

func (c *failCase) install(dir string, clean bool) {
	d := filepath.Join(dir, `data`)
	g, g2 := M{}, M{}
	for i, v := range c.Good {
		g[fmt.Sprintf(`g%d`, i)] = v.V
		g2[fmt.Sprintf(`g%d`, (i+1)%3)] = v.V
	}
	g[`self`] = `%{alias('self')}`
	writeFile(filepath.Join(d, `good.yaml`), flow(g)+"\n")
	writeFile(filepath.Join(d, `good2.yaml`), flow(g2)+"\n")
	writeFile(filepath.Join(d, `here`), `x`)
	more, lo := M{`loopk`: `%{lookup('loopk2')}`, `loopk2`: `%{lookup('loopk')}`}, M{}
	for i, v := range c.Values {
		more[fmt.Sprintf(`i%d`, i)] = v.V
	}
	for i, v := range c.Conv {
		more[fmt.Sprintf(`c%d`, i)] = `not a number`
		lo[fmt.Sprintf(`c%d`, i)] = v.V
	}
	ks := (&failCase{Files: c.Files, Mods: c.Mods, Values: c.Values, Conv: c.Conv, FnKinds: c.FnKinds}).keys()
	for i, m := range c.Mix {
		s := ``
		for _, k := range m {
			s += fmt.Sprintf(`%%{lookup("%s")};`, ks[k])
		}
		more[fmt.Sprintf(`mix%d`, i)] = s + `%{f}`
	}
	more[`lookup_options`] = lo
	writeFile(filepath.Join(d, `more.yaml`), flow(more)+"\n")
	for i := 0; i <= len(c.Files)+2*len(c.Mods); i++ {
		c.place(dir, i, clean)
	}
}

// permanent tells if the thing with the given index is a configuration that is loaded, and thus remembered, although
// it's not possible to use it.
func (c *failCase) permanent(i int) bool {
	text := c.Root
	if i -= 1 + len(c.Files); i >= 0 && i%2 == 0 {
		text = c.Mods[i/2]
	} else if i != -1-len(c.Files) {
		return false
	}
	return strings.Contains(text, `no_such_function`) || strings.Contains(text, `flt`) || strings.Contains(text, `%{`)
}

// place writes the thing with the given index
func (c *failCase) place(dir string, i int, clean bool) {
	put := func(file, bad, good string) {
		p := filepath.Join(dir, file)
		removeFile(p)
		if clean || bad == good {
			writeFile(p, good)
		} else if bad == `dir` {
			must(os.MkdirAll(p, 0755))
		} else {
			writeFile(p, bad)
		}
	}
	if i == 0 {
		bad := c.Root
		if bad == `` {
			bad = c.rootText()
		}
		put(`hiera.yaml`, bad, c.rootText())
		return
	}
	i--
	if i < len(c.Files) {
		ext := `yaml`
		if c.JSON {
			ext = `json`
		}
		put(fmt.Sprintf(`data/f/%d.%s`, i+1, ext), c.Files[i], fmt.Sprintf(`{"f%d": "file%d"}`, i, i))
		return
	}
	i -= len(c.Files)
	m := i / 2
	if i%2 == 0 {
		good := `{"version": 5, "hierarchy": [{"name": "m", "path": "m.yaml"}]}`
		bad := c.Mods[m]
		if bad == `` {
			bad = good
		}
		put(fmt.Sprintf(`modules/m%d/hiera.yaml`, m), bad, good)
	} else {
		good := fmt.Sprintf(`{"m%d::k": "module%d"}`, m, m)
		bad := c.ModData[m]
		if bad == `` {
			bad = good
		}
		put(fmt.Sprintf(`modules/m%d/data/m.yaml`, m), bad, good)
	}
}

func (c *failCase) options(dir string) (sdk.LookupKey, map[string]interface{}) {
	fault := func(pc sdk.ProviderContext, key string) dgo.Value {
		for i, k := range c.FnKinds {
			if key != fmt.Sprintf(`p%d`, i) {
				continue
			}
			switch k {
			case `error`:
				panic(errors.New(`deliberate error`))
			case `string`:
				panic(`deliberate panic`)
			case `sprintf`:
				panic(fmt.Errorf(`deliberate %s`, k))
			case `runtime`:
				var m map[string]int
				m[key] = 1
			case `nested`:
				if len(c.Values) == 0 {
					break
				}
				return pc.(api.ServerContext).Invocation().Lookup(api.NewKey(`i0`), nil)
			}
		}
		return nil
	}
	o := map[string]interface{}{api.HieraRoot: dir, provider.ModulePath: filepath.Join(dir, `modules`), provider.LookupKeyFunctions: []sdk.LookupKey{provider.ConfigLookupKey, provider.ModuleLookupKey}}
	fns := map[string]interface{}{
		`try`: vf.Value(func(pc sdk.ProviderContext, key string) dgo.Value {
			ic := pc.(api.ServerContext).Invocation()
			var r Res
			switch {
			case strings.HasPrefix(key, `try_`):
				r = capture(func() dgo.Value { return ic.Lookup(api.NewKey(key[4:]), nil) })
			case strings.HasPrefix(key, `scoped_`):
				r = capture(func() (v dgo.Value) {
					ic.DoWithScope(c.scope(1), func() { v = ic.Lookup(api.NewKey(key[7:]), nil) })
					return
				})
			default:
				return nil
			}
			if r.Err != nil {
				return vf.String(`failed`)
			}
			if r.Found {
				return vf.String(`found`)
			}
			return vf.String(`not found`)
		}),
	}
	if c.FnLevel == `data_dig` {
		fns[`flt`] = vf.Value(func(pc sdk.ProviderContext, key dgo.Array) dgo.Value { return fault(pc, key.Get(0).String()) })
	} else {
		fns[`flt`] = vf.Value(fault)
	}
	o[api.HieraFunctions] = fns
	return provider.MuxLookupKey, o
}

func (c *failCase) scope(f int) dgo.Map {
	m := M{`f`: fmt.Sprint(f), `who`: `me`, `loopv`: `%{loopw}`, `loopw`: `%{loopv}`, `missing`: `nothing`}
	if f > len(c.Files) {
		m[`missing`] = `here` // makes the function that doesn't exist be called
	}
	return toDMap(m)
}

// What is known of the outcome of a lookup
const (
	unknown = iota
	fails
	isFound
	isMissing
)

// all tells if every lookup through the configuration in the given scope fails
func (c *failCase) allFail(f int, fixed map[int]bool) bool {
	return c.Root != `` && !fixed[0] || f > 0 && f <= len(c.Files) && !fixed[f] || f > len(c.Files) && c.Missing && f > 0
}

// expect returns what is known about the outcome of a lookup of the key
func (c *failCase) expect(key, merge string, f int, fixed map[int]bool) (int, V) {
	for _, k := range badKeys {
		if k == key {
			return fails, nil
		}
	}
	if c.allFail(f, fixed) || merge == `bogus` {
		return fails, nil
	}
	name, n := key, 0
	if g := keyIndex.FindStringSubmatch(key); g != nil {
		name = g[1]
		n, _ = strconv.Atoi(g[2])
	}
	switch name {
	case `g`, `g::a`:
		return isFound, nil
	case `none`, `missingfn`:
		return isMissing, nil
	case `c`:
		if _, conv := c.Conv[n].V.(M)[`convert_to`]; !conv && merge != `` {
			return isFound, `not a number` // the given strategy is used
		}
		return fails, nil
	case `i`, `loopk`:
		return fails, nil
	case `p`:
		return fails, nil
	case `f`:
		if f == n+1 {
			return isFound, fmt.Sprintf(`file%d`, n)
		}
		return isMissing, nil
	case `m`:
		b := 1 + len(c.Files) + 2*n
		if c.Mods[n] != `` && !fixed[b] || c.ModData[n] != `` && !fixed[b+1] {
			return fails, nil
		}
		return isFound, fmt.Sprintf(`module%d`, n)
	case `mix`:
		s, known := ``, true
		ks := c.keys()
		for _, m := range c.Mix[n] {
			k := ks[m]
			if strings.ContainsAny(k, `'"`) || k == `` {
				return unknown, nil
			}
			e, v := c.expect(k, ``, f, fixed)
			if e == fails || e == unknown {
				return e, nil
			}
			if e == isFound {
				known = known && v != nil
				s += strOf(v)
			}
			s += `;`
		}
		if !known {
			return isFound, nil
		}
		return isFound, s + fmt.Sprint(f)
	}
	if strings.HasPrefix(key, `try_`) {
		key = key[4:]
	} else if strings.HasPrefix(key, `scoped_`) {
		key = key[7:]
		f = 1
	} else {
		return unknown, nil
	}
	switch e, _ := c.expect(key, ``, f, fixed); e {
	case fails:
		return isFound, `failed`
	case isFound:
		return isFound, `found`
	case isMissing:
		return isFound, `not found`
	}
	return unknown, nil
}

var keyIndex = regexp.MustCompile(`^(g|i|c|p|f|m|mix)(\d+)(?:::k)?$`)

// check returns a description of what is expected when the outcome is not
func (o *failOp) check(c *failCase, ks []string, fixed map[int]bool, got Res) string {
	name := ks[o.Keys[0]]
	e, v := c.expect(name, o.Merge, o.F, fixed)
	if e == isMissing && o.Entry == `default` {
		e, v = isFound, `default`
	}
	if o.Entry == `first` || o.Entry == `all` {
		return `` // compared with a fresh session only
	}
	switch e {
	case fails:
		if got.Err == nil {
			return `want an error`
		}
	case isFound:
		if got.Err != nil || !got.Found {
			return `want a value`
		}
		if v != nil && (o.Merge == `` || o.Merge == `first`) && !eq(got.V, v) {
			return fmt.Sprintf(`want %s`, show(v))
		}
	case isMissing:
		if got.Err != nil || got.Found {
			return `want nothing`
		}
	}
	return ``
}

func (o *failOp) do(ic api.Invocation, ks []string) Res {
	var opts dgo.Map
	if o.Merge != `` {
		opts = vf.Map(`merge`, o.Merge)
	}
	var names []string
	for _, k := range o.Keys {
		names = append(names, ks[k])
	}
	return capture(func() dgo.Value {
		switch o.Entry {
		case `first`:
			return hiera.Lookup2(ic, names, typ.Any, nil, nil, nil, opts, nil)
		case `all`:
			return hiera.LookupAll(ic, names, nil, nil, nil, opts)
		case `default`:
			return hiera.Lookup2(ic, names[:1], typ.Any, vf.String(`default`), nil, nil, opts, nil)
		}
		return hiera.Lookup2(ic, names[:1], typ.Any, nil, nil, nil, opts, nil)
	})
}

func runFail(x *X, c failCase) (err error) {
	dir := x.Dir()
	c.install(dir, false)
	tp, so := c.options(dir)
	ks := c.keys()
	fixed := map[int]bool{}
	failed, succeeded, afterRepair := 0, 0, 0
	withSession(tp, so, func(s api.Session) {
		var ic api.Invocation
		var ex api.Explainer
		cur := -1
		text := ``
		for n, o := range c.Ops {
			o := o
			if o.What == `repair` {
				if c.permanent(o.Repair) {
					continue
				}
				c.place(dir, o.Repair, true)
				fixed[o.Repair] = true
				ic = nil
				continue
			}
			if ic == nil || o.New || cur != o.F {
				if ex = nil; c.Explains {
					ex = explain.NewExplainer(false, false)
				}
				ic = s.Invocation(c.scope(o.F), ex)
				cur = o.F
				text = ``
			}
			what := fmt.Sprintf(`op %d (%s of`, n, o.Entry)
			for i, k := range o.Keys {
				if i == 0 || o.Entry == `first` || o.Entry == `all` {
					what += ` ` + ks[k]
				}
			}
			what += fmt.Sprintf(`, f=%d, repaired %v)`, o.F, ints(fixed))
			got := o.do(ic, ks)
			if isRuntime(got.Err) && !strings.Contains(got.Err.Error(), `assignment to entry in nil map`) {
				err = fmt.Errorf(`%s crashes: %v`, what, got.Err)
				return
			}
			// The same in a session that isn't used for anything else
			var want Res
			var wex api.Explainer
			if ex != nil {
				wex = explain.NewExplainer(false, false)
			}
			tp2, so2 := c.options(dir)
			withSession(tp2, so2, func(s2 api.Session) { want = o.do(s2.Invocation(c.scope(o.F), wex), ks) })
			if !got.same(want) {
				err = differ(what, got, want)
				return
			}
			if got.Err != nil && got.Err.Error() != want.Err.Error() {
				err = fmt.Errorf("%s fails with\n%v\nwant\n%v", what, got.Err, want.Err)
				return
			}
			if e := o.check(&c, ks, fixed, got); e != `` {
				err = fmt.Errorf(`%s is %s, %s`, what, got, e)
				return
			}
			if got.Err != nil {
				failed++
			} else {
				if failed > 0 {
					succeeded++
				}
				if len(fixed) > 0 {
					afterRepair++
				}
			}
			if ex != nil {
				full := ex.String()
				if !strings.HasPrefix(full, text) {
					err = fmt.Errorf("%s changes the explanation from\n%s\nto\n%s", what, text, full)
					return
				}
				if g, w := strings.TrimSpace(full[len(text):]), strings.TrimSpace(wex.String()); g != w {
					err = fmt.Errorf("%s is explained by\n%s\nwant\n%s", what, g, w)
					return
				}
				text = full
			}
			// as an error
			e := hiera.TryWithParent(context.Background(), tp, so, func(s api.Session) error {
				r := o.do(s.Invocation(c.scope(o.F), nil), ks)
				if r.Err != nil && n%2 == 0 {
					panic(r.Err)
				}
				return r.Err
			})
			if (e != nil) != (got.Err != nil) || e != nil && e.Error() != got.Err.Error() {
				err = fmt.Errorf(`TryWithParent with %s returns %v, want %v`, what, e, got.Err)
				return
			}
		}
	})
	if err == nil && failed > 0 && succeeded > 0 {
		x.NonTrivial()
		x.Label(`success after failure`)
		if afterRepair > 0 {
			x.Label(`success after repair`)
		}
	}
	return
}

func ints(m map[int]bool) []int {
	is := []int{}
	for i := range m {
		is = append(is, i)
	}
	sort.Ints(is)
	return is
}

// ---- a configuration that is repaired while it's in use

type repairCase struct {
	Bad    string `json:"bad"`
	Module bool   `json:"module"`
	Procs  int    `json:"procs"`
	N      int    `json:"n"`
	After  int    `json:"after"` // lookups that are done before the repair
}

func genRepairCase(t *rapid.T) repairCase {
	var bad []string
	for _, b := range badConfigs {
		if c := (&failCase{Root: b}); !c.permanent(0) {
			bad = append(bad, b)
		}
	}
	return repairCase{Bad: pick(t, `bad`, bad...), Module: chance(t, 5, `module`), Procs: rapid.IntRange(2, 6).Draw(t, `procs`), N: rapid.IntRange(1, 6).Draw(t, `n`),
		After: rapid.IntRange(0, 12).Draw(t, `after`)}
}

func runRepair(x *X, c repairCase) (err error) {
	dir := x.Dir()
	good := `{"version": 5, "hierarchy": [{"name": "a", "path": "a.yaml"}]}`
	root := filepath.Join(dir, `hiera.yaml`)
	cfg, key := root, `k`
	if c.Module {
		writeFile(root, good)
		cfg, key = filepath.Join(dir, `modules/m/hiera.yaml`), `m::k`
	}
	writeFile(cfg, c.Bad)
	writeFile(cfg+`.good`, good)
	writeFile(filepath.Join(filepath.Dir(cfg), `data/a.yaml`), `{"`+key+`": "v"}`)
	o := map[string]interface{}{api.HieraRoot: dir, provider.ModulePath: filepath.Join(dir, `modules`), provider.LookupKeyFunctions: []sdk.LookupKey{provider.ConfigLookupKey, provider.ModuleLookupKey}}
	withSession(provider.MuxLookupKey, o, func(s api.Session) {
		var done, failures int32
		repaired := make(chan bool)
		errs := make(chan error, c.Procs)
		one := func(must bool) error {
			r := capture(func() dgo.Value { return lookup(s.Invocation(nil, nil), key, ``) })
			switch {
			case isRuntime(r.Err):
				return fmt.Errorf(`lookup crashes: %v`, r.Err)
			case r.Err == nil && (!r.Found || !eq(r.V, `v`)):
				return fmt.Errorf(`lookup is %s`, r)
			case r.Err != nil && must:
				return fmt.Errorf(`lookup is %s after the configuration is repaired`, r)
			case r.Err != nil:
				atomic.AddInt32(&failures, 1)
			}
			return nil
		}
		for i := 0; i < c.Procs; i++ {
			go func() {
				var e error
				for j := 0; j < c.N && e == nil; j++ {
					e = one(false)
					atomic.AddInt32(&done, 1)
				}
				<-repaired
				for j := 0; j < c.N && e == nil; j++ {
					e = one(true)
				}
				errs <- e
			}()
		}
		for want := int32(min(c.After, c.Procs*c.N)); atomic.LoadInt32(&done) < want; {
			time.Sleep(10 * time.Microsecond)
			if len(errs) > 0 {
				break
			}
		}
		must(os.Rename(cfg+`.good`, cfg))
		close(repaired)
		for i := 0; i < c.Procs; i++ {
			if e := <-errs; err == nil {
				err = e
			}
		}
		if failures > 0 {
			x.NonTrivial()
		}
	})
	return
}

func init() {
	register(&Property{
		ID: `C28`,
		Rule: `history: histories of lookups in one session, in one or several invocations and scopes, where the configuration, data files, modules,
values, options, keys, merge strategies and functions have faults that are repaired at random points. Each outcome, error message and explanation
is compared with that of the same lookup in a session of its own, and with what the construction of the case says about it: faulty lookups fail,
others don't. TryWithParent must return the error. Non-trivial when a lookup succeeds after another one has failed. parallel: a configuration
that cannot be loaded is repaired while several goroutines use it. Non-trivial when a lookup fails. unreadable: a file or directory that an
unprivileged user (the file system user of the thread) isn't permitted to read makes the lookups that need it fail, and only those, until it's
readable. Non-trivial unless that cannot be arranged.`,
		Subs: []subCheck{
			Spec[failCase]{Name: `history`, Quick: 2500, Thorough: 60000, Gen: genFailCase, Run: runFail},
			Spec[unreadableCase]{Name: `unreadable`, Quick: 400, Thorough: 10000, Gen: genUnreadable, Run: runUnreadable},
			Spec[repairCase]{Name: `parallel`, Quick: 400, Thorough: 15000, Gen: genRepairCase, Run: runRepair},
		},
	})
}
