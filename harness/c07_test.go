package harness

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/hiera"
	sdk "github.com/lyraproj/hierasdk/hiera"
	"pgregory.net/rapid"
)

// RefSrc is a level that defines the referring key
type RefSrc struct {
	How string `json:"how"` // yaml, json, or the name of a function
	V   Val    `json:"v"`
}

type refCase struct {
	W        World    `json:"w"`
	Refs     []RefSrc `json:"refs"`
	Module   bool     `json:"module,omitempty"` // the referring key is in the module
	Opts     *Val     `json:"opts,omitempty"`   // lookup_options of the referring key
	Strategy string   `json:"strategy"`
	Dig      string   `json:"dig,omitempty"`
}

var refKeys = []string{`k0`, `k1`, `k2`, `mod::k`, `'dotted.key'`, `missing`, `k0.a`, `k1.0`, `k2.b.a`, `k0.'a.b'`, `k1.'1'`, `k0.1`, `mod::k.a`, `'dotted.key'.b`, `other::k`, `chain`, `var`}

func refExpr(t *rapid.T, method string) string {
	k := pick(t, `k`, refKeys...)
	q := `'`
	if strings.Contains(k, q) || chance(t, 3, `dq`) {
		q = `"`
	}
	return fmt.Sprintf(`%%{%s(%s%s%s)}`, method, q, k, q)
}

func genRefString(t *rapid.T) V {
	switch rapid.IntRange(0, 4).Draw(t, `form`) {
	case 0, 1:
		if rapid.IntRange(0, 19).Draw(t, `notwhole`) == 0 {
			// Not allowed
			s := refExpr(t, pick(t, `m`, `alias`, `strict_alias`))
			return pick(t, `around`, ` `+s, s+` `, s+"\n", "\t"+s, s+s, `x`+s, s+`%{''}`, `%{env}`+s)
		}
		return refExpr(t, `alias`)
	case 2:
		return refExpr(t, `strict_alias`)
	case 3:
		return refExpr(t, pick(t, `m`, `lookup`, `hiera`))
	}
	return pick(t, `pre`, `x `, ``) + refExpr(t, pick(t, `m`, `lookup`, `hiera`)) + pick(t, `mid`, ` `, `%{env}`) + refExpr(t, `lookup`)
}

func genRefValue(t *rapid.T, depth int) V {
	if depth > 0 {
		switch rapid.IntRange(0, 4).Draw(t, `node`) {
		case 3:
			l := L{}
			for i := rapid.IntRange(1, 3).Draw(t, `n`); i > 0; i-- {
				l = append(l, genRefValue(t, depth-1))
			}
			return l
		case 4:
			m := M{}
			for i := rapid.IntRange(1, 3).Draw(t, `n`); i > 0; i-- {
				k := pick(t, `mk`, `a`, `b`, `c`, `e_%{lookup('kname')}`)
				m[k] = genRefValue(t, depth-1)
			}
			return m
		}
	}
	if chance(t, 2, `plain`) {
		return genScalar().Draw(t, `v`)
	}
	return genRefString(t)
}

func genRefOpts(t *rapid.T, keys []string) V {
	m := M{}
	for i := rapid.IntRange(1, 3).Draw(t, `nopts`); i > 0; i-- {
		m[pick(t, `optkey`, keys...)] = genOneOpt(t)
	}
	return m
}

func genOneOpt(t *rapid.T) M {
	o := M{}
	if chance(t, 7, `merge`) {
		o[`merge`] = pick(t, `strategy`, strategies...)
	}
	if chance(t, 4, `convert`) {
		o[`convert_to`] = pick(t, `ct`, `sensitive`, `sensitive`, `string`)
	}
	return o
}

func genRefCase(t *rapid.T) refCase {
	var c refCase
	wo := worldOpts{maxLevels: 3, json: true, noGlob: true, luOpts: genRefOpts, keys: []string{`k0`, `k1`, `k2`, `mod::k`, `dotted.key`}}
	c.W = genWorld(t, wo)
	c.W.Scope.V.(M)[`var`] = `%{env}!`
	// Keys that refer to others
	c.W.Cfg.Levels = append(c.W.Cfg.Levels, Level{Name: `chain`, LocKey: `path`, Locs: []string{`chain.yaml`}})
	dd := c.W.Cfg.datadir(len(c.W.Cfg.Levels) - 1)
	c.W.Files = append(c.W.Files, File{Path: dd + `/chain.yaml`, Data: Val{M{
		`chain`: genRefString2(t), `kname`: `N`,
		`lookup_options`: M{`chain`: genOneOpt(t)}}}})
	if chance(t, 5, `mux`) {
		c.W.Mux = pick(t, `muxes`, []string{`config`}, []string{`config`, `module`}, []string{`module`, `config`}, []string{`env`, `config`, `module`})
		if len(c.W.Mux) > 1 {
			mw := genWorld(t, worldOpts{maxLevels: 2, noGlob: true, luOpts: genRefOpts, keys: []string{`mod::k`, `mod::k2`, `k0`}})
			c.W.ModulePath = []string{`modules`}
			c.W.Modules = []Module{{Root: `modules`, Name: `mod`, Cfg: mw.Cfg, Files: mw.Files}}
			c.Module = chance(t, 4, `inmodule`)
		}
	}
	c.Strategy = pick(t, `strategy`, ``, ``, `first`, `unique`, `hash`, `deep`)
	if chance(t, 5, `hasopts`) {
		c.Opts = &Val{genOneOpt(t)}
	}
	hows := []string{`yaml`, `yaml`, `json`, `lk`, `dd`, `dh`}
	if strategyOf(c.Strategy, c.opts()) == `first` && c.opts()[`convert_to`] == nil {
		// What a function returns is interpolated once the merge and the conversion have been done
		hows = append(hows, `rawlk`, `rawlk`, `rawdd`)
	}
	for i := rapid.IntRange(1, 2).Draw(t, `refs`); i > 0; i-- {
		c.Refs = append(c.Refs, RefSrc{How: pick(t, `how`, hows...), V: Val{genRefValue(t, 2)}})
	}
	c.Dig = pick(t, `dig`, ``, ``, ``, `.a`, `.0`, `.b.a`, `.1`)
	return c
}

// a value that refers to one of the keys that don't refer to others
func genRefString2(t *rapid.T) V {
	for {
		v := genRefString(t)
		if !strings.Contains(v.(string), `chain`) {
			return v
		}
	}
}

var refPattern = regexp.MustCompile(`%\{(\w+)\((?:'([^']*)'|"([^"]*)")\)\}`)

// rawRef is a value with expressions that have yet to be replaced
type rawRef struct{ v V }

type refOracle struct {
	w       *World
	dir     string
	fns     map[string]interface{}
	env     string
	direct  map[string]dgo.Value
	lookups int
}

// lookup does a direct lookup in a session of its own
func (o *refOracle) lookup(key string) dgo.Value {
	o.lookups++
	if v, ok := o.direct[key]; ok {
		return v
	}
	var v dgo.Value
	r := capture(func() dgo.Value {
		tp, opts := o.w.options(o.dir)
		opts[api.HieraFunctions] = o.fns
		withSession(tp, opts, func(s api.Session) { v = hiera.Lookup(s.Invocation(o.w.scope(), nil), key, nil, nil) })
		return v
	})
	if r.Err != nil {
		fail(`%v`, r.Err)
	}
	o.direct[key] = v
	return v
}

func (o *refOracle) expand(v V) V {
	switch v := v.(type) {
	case L:
		r := make(L, len(v))
		for i, e := range v {
			if r[i] = o.expand(e); r[i] == absent {
				r[i] = nil
			}
		}
		return r
	case M:
		r := M{}
		for _, k := range keys(v) {
			e := o.expand(v[k])
			if e == absent {
				e = nil
			}
			r[o.expand(k).(string)] = e
		}
		return r
	case string:
		var whole V
		isWhole := false
		s := refPattern.ReplaceAllStringFunc(v, func(e string) string {
			g := refPattern.FindStringSubmatch(e)
			r := o.lookup(g[2] + g[3])
			switch g[1] {
			case `alias`, `strict_alias`:
				if e != v {
					fail(`'%s' isn't the entire string %q`, g[1], v)
				}
				isWhole = true
				switch {
				case r != nil:
					whole = toV(r)
				case g[1] == `alias`:
					whole = ``
				default:
					whole = absent
				}
				return ``
			}
			if r == nil {
				return ``
			}
			return r.String()
		})
		if isWhole {
			return whole
		}
		return strings.ReplaceAll(s, `%{env}`, o.env)
	}
	return v
}

func (c *refCase) opts() M {
	if c.Opts != nil {
		return c.Opts.V.(M)
	}
	return M{}
}

// install adds the levels with the referring key and writes all files
func (c *refCase) install(x *X) (key, dir string, fns map[string]interface{}) {
	key = `ref`
	cfg, files := &c.W.Cfg, &c.W.Files
	if c.Module {
		key = `mod::ref`
		cfg, files = &c.W.Modules[0].Cfg, &c.W.Modules[0].Files
	}
	// Levels with the referring key come first
	var ls []Level
	opts := c.opts()
	own := func(i int) M {
		m := M{key: c.Refs[i].V.V}
		if i == 0 && c.Opts != nil {
			m[`lookup_options`] = M{key: opts}
		}
		return m
	}
	fns = map[string]interface{}{}
	for i := range c.Refs {
		i := i
		r := &c.Refs[i]
		n := fmt.Sprintf(`ref%d`, i)
		l := Level{Name: n}
		switch r.How {
		case `yaml`:
			l.LocKey, l.Locs, l.Datadir, l.Kind, l.Fn = `path`, []string{n + `.yaml`}, `refs`, `data_hash`, `yaml_data`
			*files = append(*files, File{Path: `refs/` + n + `.yaml`, Data: Val{own(i)}})
		case `json`:
			l.LocKey, l.Locs, l.Datadir, l.Kind, l.Fn = `path`, []string{n + `.json`}, `refs`, `data_hash`, `json_data`
			*files = append(*files, File{Path: `refs/` + n + `.json`, Data: Val{own(i)}})
		case `dh`:
			l.Kind, l.Fn = `data_hash`, n
			fns[n] = vf.Value(func(pc sdk.ProviderContext) dgo.Value { return toD(own(i)) })
		case `rawlk`:
			l.Kind, l.Fn = `lookup_key`, n
			fns[n] = vf.Value(func(pc sdk.ProviderContext, k string) dgo.Value {
				if v, ok := own(i)[k]; ok {
					return toD(v)
				}
				return nil
			})
		case `rawdd`:
			l.Kind, l.Fn = `data_dig`, n
			fns[n] = vf.Value(func(pc sdk.ProviderContext, k dgo.Array) dgo.Value {
				if v, ok := own(i)[k.Get(0).String()]; ok {
					return toD(v)
				}
				return nil
			})
		case `lk`:
			// A function of this kind does its own interpolation
			l.Kind, l.Fn = `lookup_key`, n
			fns[n] = vf.Value(func(pc sdk.ProviderContext, k string) dgo.Value {
				if v, ok := own(i)[k]; ok {
					return pc.(api.ServerContext).Interpolate(toD(v))
				}
				return nil
			})
		case `dd`:
			l.Kind, l.Fn = `data_dig`, n
			fns[n] = vf.Value(func(pc sdk.ProviderContext, k dgo.Array) dgo.Value {
				if v, ok := own(i)[k.Get(0).String()]; ok {
					return pc.(api.ServerContext).Interpolate(toD(v))
				}
				return nil
			})
		}
		ls = append(ls, l)
	}
	cfg.Levels = append(ls, cfg.Levels...)
	dir = x.Dir()
	c.W.write(dir)
	return
}

func runRef(x *X, c refCase) error {
	key, dir, fns := c.install(x)
	opts := c.opts()

	o := &refOracle{w: &c.W, dir: dir, fns: fns, direct: map[string]dgo.Value{}}
	m := newModel(&c.W, dir)
	if e, ok := m.vars[`env`]; ok {
		o.env = e.(string)
	}
	want := func() (r Res) {
		defer func() {
			if e := recover(); e != nil {
				me, ok := e.(merr)
				if !ok {
					panic(e)
				}
				r = Res{Err: fmt.Errorf(`%s`, me.msg)}
			}
		}()
		strategy := strategyOf(c.Strategy, opts)
		var srcs []func() V
		for i := range c.Refs {
			i := i
			srcs = append(srcs, func() V {
				if strings.HasPrefix(c.Refs[i].How, `raw`) {
					return rawRef{c.Refs[i].V.V}
				}
				return o.expand(c.Refs[i].V.V)
			})
		}
		// The other levels don't have the key
		srcs = append(srcs, func() V { return absent })
		v := mMerge(strategy, srcs)
		if raw, ok := v.(rawRef); ok {
			v = o.expand(raw.v)
		}
		if v == absent {
			return Res{}
		}
		switch opts[`convert_to`] {
		case `sensitive`:
			v = convertTo(`sensitive`, v)
		case `string`:
			if _, ok := v.(string); !ok {
				v = vf.New(typ.String, toD(v)).String()
			}
		}
		p, err := parseKey(`x` + c.Dig)
		must(err)
		if v = dig(v, p[1:]); v == absent {
			return Res{}
		}
		return value(v)
	}()
	x.Label(`strategy=%s`, strategyOf(c.Strategy, opts))
	x.Label(`convert=%v`, opts[`convert_to`])
	x.Label(`module=%v mux=%d`, c.Module, len(c.W.Mux))
	for _, r := range c.Refs {
		x.Label(`how=%s`, r.How)
	}
	for _, v := range o.direct {
		if v != nil {
			x.Label(`referred key found`)
			if strings.Contains(fmt.Sprintf(`%T`, v), `ensitive`) {
				x.Label(`referred sensitive`)
			}
			x.NonTrivial()
		}
	}
	if want.Err != nil {
		x.Label(`error`)
	}
	tp, so := c.W.options(dir)
	so[api.HieraFunctions] = fns
	got := Res{}
	k := key + c.Dig
	withSession(tp, so, func(s api.Session) {
		got = capture(func() dgo.Value { return lookup(s.Invocation(c.W.scope(), nil), k, c.Strategy) })
	})
	if isRuntime(got.Err) {
		return fmt.Errorf(`lookup of %s crashes: %v`, k, got.Err)
	}
	if !got.same(want) {
		// A unique merge with a single source may keep a scalar as it is
		if l, ok := want.V.(L); ok && strategyOf(c.Strategy, opts) == `unique` && len(l) == 1 && len(c.Refs) == 1 && c.Dig == `` && got.same(value(l[0])) {
			return nil
		}
		return differ(`lookup of `+k, got, want)
	}
	return nil
}

func init() {
	register(&Property{
		ID: `C07`,
		Rule: `A key with alias, strict_alias and lookup expressions at any depth is defined in one or two levels of any kind (YAML, JSON,
data_hash, lookup_key and data_dig functions; in the main hierarchy or in a module) on top of a generated hierarchy, and is looked up with
any merge strategy, its own lookup_options (merge and convert_to), alone or below a list of top-level providers. The referred keys have
lookup_options of their own. The expected value is put together from direct lookups of the referred keys in fresh sessions. A case is
non-trivial when at least one referred key is found.`,
		Assumptions: []string{`functions of kind lookup_key and data_dig interpolate what they return, as the values of several such functions are otherwise merged before they are interpolated`},
		Subs: []subCheck{
			Spec[refCase]{Name: `references`, Quick: 1500, Thorough: 40000, Gen: genRefCase, Run: runRef},
		},
	})
}
