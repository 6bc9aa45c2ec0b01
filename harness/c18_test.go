package harness

import (
	"fmt"
	"os"
	"path/filepath"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/provider"
	sdk "github.com/lyraproj/hierasdk/hiera"
	"pgregory.net/rapid"
)

// TopFn is a top level function that is given to the session in Go
type TopFn struct {
	Data Val `json:"data"`
	Opts Val `json:"opts"` // lookup options that it declares
}

type muxCase struct {
	W      World           `json:"w"`
	Custom []TopFn         `json:"custom"`
	Yaml   Val             `json:"yaml"` // contents of the file that the yaml function reads
	Env    map[string]bool `json:"env"`  // variables that are set
	Keys   []string        `json:"keys"`
	MapOpt bool            `json:"mapopt,omitempty"`
	Single string          `json:"single,omitempty"` // compare with this function alone
}

const envPrefix = `VERIF_C18_`

var muxKeys = []string{`k0`, `k1`, `mod::k`, `env::` + envPrefix + `A`, `k2`, `k0.a`, `k1.0`, `mod::k.b.a`, `missing`, `other::k`, `lookup_options`}

func genMuxOpts(t *rapid.T, ks []string) V {
	m := genLuOpts(t, ks).(M)
	if chance(t, 2, `convert`) {
		m[pick(t, `optkey`, ks...)] = M{`convert_to`: `sensitive`}
	}
	return m
}

func genMuxCase(t *rapid.T) muxCase {
	var c muxCase
	ks := []string{`k0`, `k1`, `k2`, `mod::k`, `env::` + envPrefix + `A`}
	vals := func(t *rapid.T) V {
		if chance(t, 4, `mergeable`) {
			return genMergeable(t)
		}
		if chance(t, 2, `optlike`) {
			// a value that looks like lookup options
			return M{`merge`: pick(t, `olm`, `unique`, `deep`, `nosuch`), pick(t, `olc`, `convert_to`, `a`): pick(t, `olt`, `sensitive`, `int`)}
		}
		return genValue(2).Draw(t, `v`)
	}
	wo := worldOpts{maxLevels: 2, noGlob: true, luOpts: genMuxOpts, keys: ks, density: 5, values: vals}
	c.W = genWorld(t, wo)
	mw := genWorld(t, wo)
	c.W.ModulePath = []string{`modules`}
	c.W.Modules = []Module{{Root: `modules`, Name: `mod`, Cfg: mw.Cfg, Files: mw.Files}}
	data := func() M {
		m := M{}
		for _, k := range ks {
			if chance(t, 5, `has`) {
				m[k] = vals(t)
			}
		}
		return m
	}
	for i := rapid.IntRange(0, 3).Draw(t, `ncustom`); i > 0; i-- {
		f := TopFn{Data: Val{data()}, Opts: Val{M{}}}
		if chance(t, 4, `declares`) {
			f.Opts = Val{genMuxOpts(t, ks)}
		}
		c.Custom = append(c.Custom, f)
	}
	clash := ``
	if chance(t, 3, `clash`) {
		// Options that are complete, or different, when those of several providers are put together
		clash = pick(t, `clashkey`, `k0`, `k1`)
		for len(c.Custom) < 2 {
			c.Custom = append(c.Custom, TopFn{Data: Val{data()}, Opts: Val{M{}}})
		}
		for i := range c.Custom {
			c.Custom[i].Opts.V.(M)[clash] = M{`merge`: pick[V](t, `half`, M{`x`: int64(1)}, M{`strategy`: `unique`}, M{`strategy`: `hash`, `y`: L{int64(2)}}, M{`strategy`: `deep`})}
		}
	}
	c.Yaml = Val{data()}
	if chance(t, 3, `yamlopts`) {
		c.Yaml.V.(M)[`lookup_options`] = genMuxOpts(t, ks)
	}
	c.Env = map[string]bool{`A`: rapid.Bool().Draw(t, `env`)}
	pool := []string{`config`, `module`, `yaml`, `env`}
	for i := range c.Custom {
		pool = append(pool, fmt.Sprintf(`c%d`, i))
	}
	for i := rapid.IntRange(1, 5).Draw(t, `nfns`); i > 0; i-- {
		c.W.Mux = append(c.W.Mux, pick(t, `fn`, pool...))
	}
	if clash != `` {
		c.W.Mux = append(c.W.Mux, `c0`, `c1`)
		c.Keys = append(c.Keys, clash)
	}
	for i := rapid.IntRange(1, 4).Draw(t, `nkeys`); i > 0; i-- {
		c.Keys = append(c.Keys, pick(t, `key`, muxKeys...))
	}
	c.MapOpt = chance(t, 3, `mapopt`)
	c.Single = pick(t, `single`, pool...)
	return c
}

func (c *muxCase) functions() map[string]sdk.LookupKey {
	fs := map[string]sdk.LookupKey{}
	for n, f := range topFunctions {
		fs[n] = f
	}
	for i := range c.Custom {
		f := &c.Custom[i]
		fs[fmt.Sprintf(`c%d`, i)] = func(pc sdk.ProviderContext, key string) dgo.Value {
			m := f.Data.V.(M)
			if pc.(api.ServerContext).Invocation().LookupOptionsMode() {
				m = f.Opts.V.(M)
			}
			if v, ok := m[key]; ok {
				return toD(v)
			}
			return nil
		}
	}
	return fs
}

func muxEnvValue(n string) string { return `value of ` + n }

func (c *muxCase) prepare(x *X) (string, *model, map[string]interface{}) {
	dir := x.Dir()
	c.W.write(dir)
	yp := filepath.Join(dir, `top.yaml`)
	writeFile(yp, flow(c.Yaml.V))
	mux := c.W.Mux
	c.W.Mux = nil
	_, o := c.W.options(dir)
	c.W.Mux = mux
	o[`path`] = yp
	m := newModel(&c.W, dir)
	for n, set := range c.Env {
		n = envPrefix + n
		if set {
			must(os.Setenv(n, muxEnvValue(n)))
			m.env[n] = muxEnvValue(n)
			x.Cleanup(func() { _ = os.Unsetenv(n) })
		} else {
			must(os.Unsetenv(n))
		}
	}
	inMap := func(v V) func(string) V {
		return func(k string) V {
			if e, ok := v.(M)[k]; ok {
				return e
			}
			return absent
		}
	}
	m.top = map[string]func(string) V{`yaml`: inMap(c.Yaml.V)}
	m.topOpts = map[string]func(string) V{}
	for i := range c.Custom {
		n := fmt.Sprintf(`c%d`, i)
		m.top[n] = inMap(c.Custom[i].Data.V)
		m.topOpts[n] = inMap(c.Custom[i].Opts.V)
	}
	return dir, m, o
}

func runMux(x *X, c muxCase) (err error) {
	_, m, o := c.prepare(x)
	fns := c.functions()
	var list []sdk.LookupKey
	for _, n := range c.W.Mux {
		list = append(list, fns[n])
	}
	o[provider.LookupKeyFunctions] = list
	x.Label(`functions=%d`, len(list))
	withSession(provider.MuxLookupKey, o, func(s api.Session) {
		ic := s.Invocation(c.W.scope(), nil)
		for i, k := range c.Keys {
			for _, st := range []string{``, `first`, `unique`, `hash`, `deep`} {
				if i == 1 {
					ic = s.Invocation(c.W.scope(), nil)
				}
				want := m.lookup(k, st)
				got := capture(func() dgo.Value {
					if c.MapOpt && st != `` {
						return hiera.Lookup(ic, k, nil, map[string]interface{}{`merge`: map[string]interface{}{`strategy`: st}})
					}
					return lookup(ic, k, st)
				})
				if isRuntime(got.Err) && want.Err == nil {
					err = fmt.Errorf(`lookup of %s with merge %q crashes: %v`, k, st, got.Err)
					return
				}
				if !got.same(want) && !loneUnique(got, want) {
					err = differ(fmt.Sprintf(`lookup of %s with merge %q from %v`, k, st, c.W.Mux), got, want)
					return
				}
				if want.Found {
					n := 0
					for _, f := range c.W.Mux {
						p, _ := parseKey(k)
						if v := m.topFind(f, p[0].s, `first`); v != absent {
							n++
						}
					}
					x.Label(`providers with key: %d`, n)
					if n > 1 {
						x.NonTrivial()
					}
				}
			}
		}
	})
	return
}

// runMuxSingle compares a list of one with the function alone
func runMuxSingle(x *X, c muxCase) (err error) {
	_, _, o := c.prepare(x)
	f := c.functions()[c.Single]
	x.Label(`%s`, c.Single)
	one := map[string]interface{}{provider.LookupKeyFunctions: []sdk.LookupKey{f}}
	for k, v := range o {
		one[k] = v
	}
	for _, k := range c.Keys {
		for _, st := range []string{``, `first`, `unique`, `hash`, `deep`} {
			do := func(tp sdk.LookupKey, o map[string]interface{}) Res {
				return capture(func() (v dgo.Value) {
					withSession(tp, o, func(s api.Session) { v = lookup(s.Invocation(c.W.scope(), nil), k, st) })
					return
				})
			}
			got, want := do(provider.MuxLookupKey, one), do(f, o)
			if want.Found {
				x.NonTrivial()
			}
			switch c.Single {
			case `config`, `module`:
			default:
				// Such a function merges nothing by itself, and options that it declares have no effect when it's alone
				if st != `` && st != `first` || c.Single[0] == 'c' && len(c.Custom[c.Single[1]-'0'].Opts.V.(M)) > 0 {
					continue
				}
			}
			if !got.same(want) && !(st == `unique` && loneUnique(want, got)) {
				return differ(fmt.Sprintf(`lookup of %s with merge %q from %s in a list of one`, k, st, c.Single), got, want)
			}
		}
	}
	return
}

func init() {
	register(&Property{
		ID: `C18`,
		Rule: `A case is a list of one to five top level functions drawn from the configuration, modules, the environment, a YAML file
and up to three functions in Go that may declare lookup options, with data for the same few keys in all of them, and one to
four keys that are looked up with each strategy. It is non-trivial when more than one of the functions has a key, or for the
check of single functions when the key is found.`,
		Assumptions: []string{`functions in Go follow the protocol: in lookup options mode they return options`},
		Subs: []subCheck{
			Spec[muxCase]{Name: `several`, Quick: 500, Thorough: 15000, Gen: genMuxCase, Run: runMux},
			Spec[muxCase]{Name: `many`, Quick: 40, Thorough: 800, Gen: genLargeMux, Run: runMux},
			Spec[muxCase]{Name: `single`, Quick: 300, Thorough: 5000, Gen: genMuxCase, Run: runMuxSingle},
		},
	})
}
