package harness

import (
	"context"
	"fmt"
	"sort"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/loader"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/session"
	sdk "github.com/lyraproj/hierasdk/hiera"
	"pgregory.net/rapid"
)

// fnCase is a world where levels use custom functions
type fnCase struct {
	W       World  `json:"w"`
	Tables  Val    `json:"tables"` // function to key to value. A function that's a hash for a data_hash function
	Lookups []look `json:"lookups"`
	Module  bool   `json:"module,omitempty"`
	Loader  int    `json:"loader,omitempty"` // 1 if all functions are in the parent loader of the session, 2 if some are, 3 for a loader without functions
}

type look struct {
	Key      string `json:"key"`
	Strategy string `json:"strategy"`
}

const echo = `#echo` // stands for a value that shows the call

var customFns = map[string]string{`hash1`: `data_hash`, `hash2`: `data_hash`, `prod_hash`: `data_hash`, `key1`: `lookup_key`, `key2`: `lookup_key`, `x_key`: `lookup_key`, `dig1`: `data_dig`, `dig2`: `data_dig`}

var customNames = keysOf(customFns)

func keysOf(m map[string]string) (ks []string) {
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return
}

func genOptions(t *rapid.T) *Val {
	if !chance(t, 5, `hasopts`) {
		return nil
	}
	m := M{}
	for i := rapid.IntRange(0, 3).Draw(t, `noptions`); i > 0; i-- {
		k := pick(t, `optname`, `a`, `b`, `long-name_1`, `Merge`, `k0`, `z9`)
		var v V
		switch rapid.IntRange(0, 4).Draw(t, `optval`) {
		case 0:
			v = `%{` + pick(t, `ov`, pathVars...) + `}`
		case 1:
			v = `x-%{` + pick(t, `ov`, pathVars...) + `}-%{roles.0}`
		case 2:
			v = L{`%{env}`, int64(1), M{`%{os}`: `%{role}`}}
		case 3:
			v = M{`n`: M{`v`: `%{ env }`, `t`: true}, `e`: L{}}
		default:
			v = jsonSafe(genValue(2).Draw(t, `opt`))
		}
		m[k] = v
	}
	return &Val{m}
}

func genFn(t *rapid.T, l *Level) {
	n := pick(t, `fn`, customNames...)
	l.Kind, l.Fn = customFns[n], n
	switch {
	case n == `prod_hash` && rapid.Bool().Draw(t, `fnvar`):
		l.Fn = `%{env}_hash`
	case n == `x_key` && rapid.Bool().Draw(t, `fnvar`):
		l.Fn = `%{role}_key`
	}
}

// alikeURIs are different locations that something which compares them by anything else than the text takes for the same one
var alikeURIs = []string{`http://h/x`, `http://h/x/`, `http://h//x`, `http://h/./x`, `http://h/y/../x`, `HTTP://h/x`, `http://h:80/x`, `http://h/X`,
	`http://h/x?`, `http://h/x?a=1`, `http://h/x?a=2`, `http://h/x#a`, `http://h/x#b`, `http://h/%78`, `http://h/x `, `http://u@h/x`, `https://h/x`}

func genFnWorld(t *rapid.T, faults bool) fnCase {
	var c fnCase
	c.W = genWorld(t, worldOpts{maxLevels: 4, keys: []string{`k0`, `k1`, `k2`}, luOpts: genLuOpts, json: true})
	if c.W.Scope.V == nil {
		c.W.Scope.V = M{}
	}
	custom := func(l *Level) {
		genFn(t, l)
		if faults && chance(t, 1, `unknown`) {
			l.Fn = `nosuch`
		} else if faults && chance(t, 1, `wrongkind`) {
			l.Kind = pick(t, `kind`, `data_hash`, `lookup_key`, `data_dig`)
		}
		switch rapid.IntRange(0, 5).Draw(t, `fnloc`) {
		case 0, 1:
			l.LocKey, l.Locs = ``, nil
		case 2:
			l.LocKey, l.Locs = `uri`, []string{pick(t, `uri`, `http://example.com/%{env}`, `k%{role}`, `a/../b?c=%{os}`)}
		case 3:
			l.LocKey = `uris`
			l.Locs = []string{pick(t, `uri`, `x:%{env}`, `x:1`), `y:%{os}`}
		case 4:
			l.LocKey, l.Locs = `uris`, rapid.SliceOfNDistinct(rapid.SampledFrom(alikeURIs), 2, 5, func(s string) string { return s }).Draw(t, `alike`)
		}
	}
	for i := range c.W.Cfg.Levels {
		l := &c.W.Cfg.Levels[i]
		if chance(t, 7, `custom`) {
			custom(l)
		}
		l.Opts = genOptions(t)
	}
	if rapid.Bool().Draw(t, `defaults`) {
		d := &Level{Datadir: pick(t, `datadir`, dataDirs...)}
		if chance(t, 5, `dcustom`) {
			genFn(t, d)
		}
		d.Opts = genOptions(t)
		c.W.Cfg.Defaults = d
	}
	tables := M{}
	ks := []string{`k0`, `k1`, `k2`, `lookup_options`}
	for _, n := range customNames {
		tb := M{}
		for _, k := range ks {
			switch {
			case k == `lookup_options`:
				if chance(t, 2, `fnopts`) {
					tb[k] = genLuOpts(t, ks[:3])
				}
			case chance(t, 5, `has`):
				if rapid.Bool().Draw(t, `echo`) {
					tb[k] = echo
				} else {
					tb[k] = genMergeable(t)
				}
			}
		}
		tables[n] = tb
	}
	c.Tables = Val{tables}
	for i := rapid.IntRange(1, 3).Draw(t, `nlookups`); i > 0; i-- {
		c.Lookups = append(c.Lookups, look{pick(t, `key`, `k0`, `k0`, `k1`, `k2`, `k0.a`, `k1.0`, `k2.opts.path`, `missing`), pick(t, `strategy`, ``, ``, `first`, `unique`, `hash`, `deep`)})
	}
	return c
}

// fnCall is a call that has been made
type fnCall struct{ fn, key, opts string }

func (c fnCall) String() string { return fmt.Sprintf(`%s(%s, %s)`, c.fn, c.key, c.opts) }

// result is what a function returns for a key, and for a data_hash function what it returns when the key is empty
func (c *fnCase) result(fn, key string, opts M) V {
	tb := c.Tables.V.(M)[fn].(M)
	one := func(k string) V {
		v, ok := tb[k]
		switch {
		case !ok:
			return absent
		case eq(v, echo):
			return M{`fn`: fn, `key`: k, `opts`: opts}
		}
		return v
	}
	if customFns[fn] != `data_hash` {
		return one(key)
	}
	if _, ok := tb[`k2`]; ok && fn == `hash2` {
		return L{`not a hash`}
	}
	m := M{}
	for k := range tb {
		m[k] = one(k)
	}
	return m
}

// functions are the functions for a session. They append their calls.
func (c *fnCase) functions(calls *[]fnCall) map[string]interface{} {
	fns := map[string]interface{}{}
	for n, kind := range customFns {
		n := n
		call := func(pc sdk.ProviderContext, key string) dgo.Value {
			opts, _ := toV(optsOf(pc)).(M)
			*calls = append(*calls, fnCall{n, key, show(opts)})
			// A second way to get an option
			for k, v := range opts {
				if o := pc.Option(k); o == nil || !eq(toV(o), v) {
					*calls = append(*calls, fnCall{n, key, `option ` + k + ` differs`})
				}
			}
			if pc.Option(`no such option`) != nil {
				*calls = append(*calls, fnCall{n, key, `an option that isn't there`})
			}
			v := c.result(n, key, opts)
			if v == absent {
				return nil
			}
			return toD(v)
		}
		switch kind {
		case `data_hash`:
			fns[n] = vf.Value(func(pc sdk.ProviderContext) dgo.Value { return call(pc, ``) })
		case `lookup_key`:
			fns[n] = vf.Value(func(pc sdk.ProviderContext, key string) dgo.Value { return call(pc, key) })
		default:
			fns[n] = vf.Value(func(pc sdk.ProviderContext, key dgo.Array) dgo.Value {
				s := make([]string, key.Len())
				for i := range s {
					s[i] = key.Get(i).String()
				}
				return call(pc, strings.Join(s, `+`))
			})
		}
	}
	return fns
}

// model is a model where the functions append their calls
func (c *fnCase) model(dir string, calls *[]fnCall) *model {
	m := newModel(&c.W, dir)
	m.strict = true
	m.fns = map[string]func(opts M, key string) V{}
	m.fnKinds = customFns
	for n := range customFns {
		n := n
		m.fns[n] = func(opts M, key string) V {
			*calls = append(*calls, fnCall{n, key, show(opts)})
			return c.result(n, key, opts)
		}
	}
	return m
}

// withoutRepeats removes repeated calls of data_hash functions. They are expected just once for each location of a level, and two levels may be
// the same.
func withoutRepeats(calls []fnCall, want bool) (res []fnCall) {
	seen := map[fnCall]bool{}
	for _, c := range calls {
		if customFns[c.fn] == `data_hash` {
			if seen[c] {
				continue
			}
			seen[c] = true
		}
		res = append(res, c)
	}
	return
}

func sameCalls(a, b []fnCall) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// dataHashLimit is how many times each data_hash call can occur, one for each level that may make it
func (c *fnCase) dataHashLimit(calls []fnCall, levels int) error {
	n := map[fnCall]int{}
	for _, f := range calls {
		if customFns[f.fn] == `data_hash` {
			if n[f]++; n[f] > levels {
				return fmt.Errorf(`%s was called %d times for %d levels`, f, n[f], levels)
			}
		}
	}
	return nil
}

func withLoader(tp sdk.LookupKey, o map[string]interface{}, parent dgo.Loader, f func(s api.Session)) {
	s := session.New(context.Background(), tp, o, parent)
	defer s.KillPlugins()
	f(s)
}

func runFnCase(x *X, c fnCase) (err error) {
	dir := x.Dir()
	c.W.write(dir)
	var calls []fnCall
	tp, o := c.W.options(dir)
	fns := c.functions(&calls)
	var parent dgo.Loader
	if c.Loader > 0 {
		x.Label(`parent loader %d`, c.Loader)
		pfns := vf.MutableMap()
		for i, n := range customNames {
			if c.Loader == 1 || c.Loader == 2 && i%2 == 0 {
				pfns.Put(n, fns[n])
				delete(fns, n)
			}
		}
		parent = loader.New(nil, ``, nil, nil, func(l dgo.Loader, name string) dgo.Loader {
			if name == `function` && c.Loader != 3 {
				return loader.New(l, name, pfns, nil, nil)
			}
			return nil
		})
	}
	if len(fns) > 0 {
		o[api.HieraFunctions] = fns
	}
	withLoader(tp, o, parent, func(s api.Session) {
		for _, lk := range c.Lookups {
			calls = nil
			got := capture(func() dgo.Value { return lookup(s.Invocation(c.W.scope(), nil), lk.Key, lk.Strategy) })
			gotCalls := calls
			var wantCalls []fnCall
			want := c.model(dir, &wantCalls).lookup(lk.Key, lk.Strategy)
			if !got.same(want) {
				err = differ(fmt.Sprintf(`lookup of %s, strategy %q, calls %v`, lk.Key, lk.Strategy, gotCalls), got, want)
				return
			}
			switch {
			case want.Err != nil:
				x.Label(`error`)
				if isRuntime(got.Err) {
					err = fmt.Errorf(`lookup of %s: %s`, lk.Key, got)
					return
				}
				continue
			case want.Found:
				x.Label(`found`)
			default:
				x.Label(`not found`)
			}
			// The same function can be used by several levels. Each has calls of its own.
			if err = c.dataHashLimit(gotCalls, len(c.W.Cfg.Levels)); err != nil {
				return
			}
			g, w := withoutRepeats(gotCalls, false), withoutRepeats(wantCalls, true)
			if !sameCalls(g, w) {
				err = fmt.Errorf("calls made by the lookup of %s, strategy %q:\n  got  %v\n  want %v", lk.Key, lk.Strategy, g, w)
				return
			}
			for _, f := range g {
				if f.key != `lookup_options` {
					x.NonTrivial()
					x.Label(`called %s`, customFns[f.fn])
				}
				if strings.Contains(f.opts, `"path"`) {
					x.Label(`with location`)
				}
			}
		}
	})
	return
}

func init() {
	register(&Property{
		ID:   `C32`,
		Rule: `a custom function is called, with something else than the key lookup_options unless it is a data_hash function`,
		Assumptions: []string{
			`A data_hash function that two levels use with the same options and location is expected to be called at least once and at most once for each level.`,
			`A data_hash function that returns something that isn't a hash has no data.`,
		},
		Subs: []subCheck{
			Spec[fnCase]{`calls`, 3000, 100000, func(t *rapid.T) fnCase {
				c := genFnWorld(t, true)
				c.Loader = max(0, rapid.IntRange(-4, 3).Draw(t, `loader`))
				return c
			}, runFnCase},
		},
	})
}
