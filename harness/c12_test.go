package harness

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/streamer/pcore"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/explain"
	"github.com/lyraproj/hiera/hiera"
	sdk "github.com/lyraproj/hierasdk/hiera"
	"pgregory.net/rapid"
)

const secret = `TOPSECRET`

type secretCase struct {
	W        World  `json:"w"`
	Pcore    bool   `json:"pcore"`
	Fn       string `json:"fn,omitempty"` // kind of function that supplies a part
	FnV      Val    `json:"fnv"`
	Redacts  bool   `json:"redacts,omitempty"` // the function uses DoRedacted
	Key      string `json:"key"`
	Strategy string `json:"strategy"`
	Options  bool   `json:"options"` // explain options
	Only     bool   `json:"only"`
}

func genSecretLeaf(t *rapid.T) V {
	return pick[V](t, `leaf`, secret, `x`+secret, `%{sv}`, `a%{scope('sv')}b`, `%{lookup('part')}`, `%{alias('part')}`, `%{literal('`+secret+`')}`,
		`%{lookup('s2')}`, `%{alias('s2')}`, `%{svm.a}`, int64(1), `plain`, nil, true)
}

func genSecretValue(t *rapid.T, depth int) V {
	k := 0
	if depth > 0 {
		k = rapid.IntRange(0, 3).Draw(t, `node`)
	}
	switch k {
	case 2:
		l := L{}
		for i := rapid.IntRange(1, 3).Draw(t, `n`); i > 0; i-- {
			l = append(l, genSecretValue(t, depth-1))
		}
		return l
	case 3:
		m := M{}
		for i := rapid.IntRange(1, 3).Draw(t, `n`); i > 0; i-- {
			m[pick(t, `mk`, `a`, `b`, secret, `k%{sv}`, `%{lookup('part')}z`)] = genSecretValue(t, depth-1)
		}
		return m
	}
	return genSecretLeaf(t)
}

func genSensType(t *rapid.T, pc bool) V {
	n := pick(t, `senstype`, `sensitive`, `sensitive`, `sensitive`, `sensitive[any]`, `sensitive[string]`, `sensitive[[]any]`, `sensitive[map[string]any]`)
	if pc {
		n = pick(t, `Senstype`, `Sensitive`, `Sensitive`, `Sensitive`, `Sensitive[Any]`, `Sensitive[String]`, `Sensitive[Array]`, `Sensitive[Hash]`)
	}
	if chance(t, 3, `list`) {
		return L{n}
	}
	return n
}

func genSecretCase(t *rapid.T) secretCase {
	var c secretCase
	c.Pcore = chance(t, 4, `pcore`)
	sensOpts := func() M {
		o := M{`convert_to`: genSensType(t, c.Pcore)}
		if chance(t, 6, `merge`) {
			o[`merge`] = pick(t, `strategy`, strategies...)
		}
		return o
	}
	c.W = genWorld(t, worldOpts{maxLevels: 3, json: true, density: 7, keys: []string{`s`}, values: func(t *rapid.T) V { return genSecretValue(t, 2) }})
	sc := c.W.Scope.V.(M)
	sc[`sv`] = secret
	sc[`svm`] = M{`a`: secret}
	lo := M{`s`: sensOpts(), `s2`: sensOpts(), `mod::s`: sensOpts()}
	if chance(t, 3, `alopts`) {
		o := M{}
		if chance(t, 5, `alm`) {
			o[`merge`] = pick(t, `alstrategy`, strategies...)
		}
		if chance(t, 5, `alc`) {
			if c.Pcore {
				o[`convert_to`] = `Sensitive`
			} else {
				o[`convert_to`] = `sensitive`
			}
		}
		lo[`al`] = o
	}
	c.W.Cfg.Levels = append(c.W.Cfg.Levels, Level{Name: `opts`, Datadir: `optsdir`, LocKey: `path`, Locs: []string{`opts.yaml`}})
	c.W.Files = append(c.W.Files, File{Path: `optsdir/opts.yaml`, Data: Val{M{
		`part`: secret + `part`, `s2`: genSecretValue2(t), `al`: `%{alias('s')}`, `str`: `<%{lookup('s')}>`,
		`col`:            L{`x`, `%{alias('s')}`, M{`h`: `%{alias('s')}`, `g`: `%{lookup('s2')}`}},
		`lookup_options`: lo}}})
	if c.Fn = pick(t, `fn`, ``, ``, `data_hash`, `lookup_key`, `data_dig`); c.Fn != `` {
		c.FnV = Val{genSecretValue(t, 2)}
		c.Redacts = chance(t, 3, `redacts`)
		l := Level{Name: `fn`, Kind: c.Fn, Fn: `sfn`}
		if chance(t, 5, `first`) {
			c.W.Cfg.Levels = append([]Level{l}, c.W.Cfg.Levels...)
		} else {
			c.W.Cfg.Levels = append(c.W.Cfg.Levels, l)
		}
	}
	c.Key = pick(t, `key`, `s`, `s`, `s`, `s.a`, `s.0`, `al`, `al`, `al.a`, `str`, `col`, `col.2`, `s2`)
	if chance(t, 5, `mux`) {
		c.W.Mux = pick(t, `muxes`, []string{`config`}, []string{`config`, `module`}, []string{`module`, `config`}, []string{`env`, `config`})
		if len(c.W.Mux) > 1 && c.W.Mux[0] != `env` {
			mw := genWorld(t, worldOpts{maxLevels: 2, density: 8, noGlob: true, keys: []string{`mod::s`}, values: func(t *rapid.T) V { return genSecretValue(t, 1) }})
			c.W.ModulePath = []string{`modules`}
			c.W.Modules = []Module{{Root: `modules`, Name: `mod`, Cfg: mw.Cfg, Files: mw.Files}}
			c.Key = pick(t, `mkey`, c.Key, `mod::s`)
		}
	}
	c.Strategy = pick(t, `cs`, ``, ``, `first`, `unique`, `hash`, `deep`)
	c.Options, c.Only = chance(t, 3, `options`), chance(t, 1, `only`)
	return c
}

// a value without references to s2
func genSecretValue2(t *rapid.T) V {
	for {
		if v := genSecretValue(t, 1); !strings.Contains(show(v), `s2`) {
			return v
		}
	}
}

func (c *secretCase) functions() map[string]interface{} {
	var f interface{}
	redact := func(pc sdk.ProviderContext) {
		if c.Redacts {
			pc.(api.ServerContext).Invocation().DoRedacted(func() {
				pc.(api.ServerContext).Interpolate(vf.String(`%{sv}`))
			})
		}
	}
	switch c.Fn {
	case `data_hash`:
		f = func(pc sdk.ProviderContext) dgo.Value { redact(pc); return vf.Map(`s`, toD(c.FnV.V)) }
	case `lookup_key`:
		f = func(pc sdk.ProviderContext, key string) dgo.Value {
			if key == `s` {
				redact(pc)
				return pc.(api.ServerContext).Interpolate(toD(c.FnV.V))
			}
			return nil
		}
	case `data_dig`:
		f = func(pc sdk.ProviderContext, key dgo.Array) dgo.Value {
			if key.Get(0).Equals(`s`) {
				redact(pc)
				return pc.(api.ServerContext).Interpolate(toD(c.FnV.V))
			}
			return nil
		}
	default:
		return nil
	}
	return map[string]interface{}{`sfn`: vf.Value(f)}
}

func runSecret(x *X, c secretCase) (err error) {
	dir := x.Dir()
	c.W.write(dir)
	tp, o := c.W.options(dir)
	if fns := c.functions(); fns != nil {
		o[api.HieraFunctions] = fns
	}
	if c.Pcore {
		o[api.HieraDialect] = `pcore`
	}
	reveals := func(what, text string) {
		if err == nil && strings.Contains(text, secret) {
			err = fmt.Errorf("%s of lookup of %s reveals a sensitive value:\n%s", what, c.Key, text)
		}
	}
	withSession(tp, o, func(s api.Session) {
		var v dgo.Value
		r := capture(func() dgo.Value { v = lookup(s.Invocation(c.W.scope(), nil), c.Key, c.Strategy); return v })
		if isRuntime(r.Err) {
			err = fmt.Errorf(`lookup of %s crashes: %v`, c.Key, r.Err)
			return
		}
		ex := explain.NewExplainer(c.Options, c.Only)
		re := capture(func() dgo.Value { return lookup(s.Invocation(c.W.scope(), ex), c.Key, c.Strategy) })
		if !r.same(re) {
			err = differ(`explained lookup of `+c.Key, re, r)
			return
		}
		reveals(`explanation`, ex.String())
		var cx *hiera.CommandOptions
		for _, args := range [][]string{{c.Key}, {`missing`, c.Key}} {
			cx = &hiera.CommandOptions{Merge: c.Strategy, ExplainData: true, ExplainOptions: c.Options, RenderAs: `s`, Variables: []string{`sv=` + secret, `svm={"a":"` + secret + `"}`}}
			if !c.Pcore {
				b := &bytes.Buffer{}
				capture(func() dgo.Value { hiera.LookupAndRender(s, cx, args, b); return nil })
				reveals(`command explanation`, b.String())
			}
		}
		if r.Err != nil {
			x.Label(`error`)
			return
		}
		if v == nil {
			x.Label(`not found`)
			return
		}
		if isSens(r.V) && !strings.Contains(c.Key, `.`) {
			x.Label(`sensitive`)
			if strings.Contains(fmt.Sprintf(`%#v`, r.V), secret) {
				x.Label(`with secret`)
			}
		}
		if hasSecret(r.V) {
			x.NonTrivial()
		}
		b := &bytes.Buffer{}
		hiera.Render(s, hiera.Text, v, b)
		reveals(`text rendering`, b.String())
		reveals(`String()`, v.String())
		switch c.Key {
		case `s`, `s2`, `mod::s`:
			// What is found is always sensitive
			if !isSens(r.V) {
				err = fmt.Errorf(`%s should be sensitive but is %s`, c.Key, show(r.V))
			} else if isSens(r.V.(sens).v) {
				err = fmt.Errorf(`%s is sensitive twice: %s`, c.Key, show(r.V))
			}
		case `s.a`, `s.0`:
			err = fmt.Errorf(`%s should not be found in a sensitive value but is %s`, c.Key, show(r.V))
		}
	})
	x.Label(`key=%s`, c.Key)
	x.Label(`fn=%s`, c.Fn)
	return
}

func isSens(v V) bool {
	_, ok := v.(sens)
	return ok
}

// hasSecret tells if the secret is in a sensitive value somewhere
func hasSecret(v V) bool {
	switch v := v.(type) {
	case sens:
		return strings.Contains(fmt.Sprintf(`%v`, v.v), secret) || hasSecret(v.v)
	case L:
		for _, e := range v {
			if hasSecret(e) {
				return true
			}
		}
	case M:
		for _, e := range v {
			if hasSecret(e) {
				return true
			}
		}
	}
	return false
}

// ---- conversion

type convCase struct {
	W        World  `json:"w"`
	Pcore    bool   `json:"pcore"`
	To       Val    `json:"to"`
	Merge    string `json:"merge"`    // in lookup_options
	Strategy string `json:"strategy"` // given by caller
	Dig      string `json:"dig,omitempty"`
	Alias    bool   `json:"alias,omitempty"`
	OptFirst bool   `json:"opt_first,omitempty"`
}

var convTypes = []struct {
	dgo, pcore string
	args       []V
}{
	{`string`, `String`, nil},
	{`int`, `Integer`, nil},
	{`int`, `Integer`, []V{int64(16)}},
	{`int`, `Integer`, []V{int64(16)}},
	{`int`, `Integer`, []V{int64(8)}},
	{`int`, `Integer`, []V{int64(10), true}},
	{`string`, `String`, []V{`%5d`}},
	{`string`, `String`, []V{`%v`}},
	{`string`, `String`, []V{`bad`}},
	{`binary`, `Binary`, []V{`%s`}},
	{`float`, `Float`, nil},
	{`bool`, `Boolean`, nil},
	{`sensitive`, `Sensitive`, nil},
	{`sensitive`, `Sensitive`, nil},
	{`[]any`, `Array`, nil},
	{`[]string`, `Array[String]`, nil},
	{`[]int`, `Array[Integer]`, nil},
	{`map[string]any`, `Hash[String,Any]`, nil},
	{`0..3`, `Integer[0,3]`, nil},
	{`string[2]`, `String[2]`, nil},
}

func genConvValue(t *rapid.T) V {
	switch rapid.IntRange(0, 7).Draw(t, `cv`) {
	case 0, 1:
		return pick[V](t, `num`, `1`, `23`, `ff`, `-4`, `0x1f`, `1.5`, int64(2), int64(-7), 2.5, `%{two}`, `1%{two}`)
	case 2:
		return pick[V](t, `bool`, true, false, `true`, `no`, `yes`, int64(0))
	case 3:
		return L{pick[V](t, `e`, `1`, `a`, int64(1), L{`b`, int64(2)}), pick[V](t, `e2`, `x`, int64(3), `%{two}`)}
	case 4:
		return L{L{`a`, `1`}, L{`b`, int64(2)}}
	case 5:
		return M{`a`: pick[V](t, `me`, int64(1), `x`, `%{two}`), `b`: L{`1`}}
	}
	return genScalar().Draw(t, `sc`)
}

func genConvCase(t *rapid.T) convCase {
	var c convCase
	c.W = genWorld(t, worldOpts{maxLevels: 3, density: 7, json: true, keys: []string{`k`, `o`}, values: genConvValue})
	c.W.Scope.V.(M)[`two`] = `2`
	c.Pcore = chance(t, 4, `pcore`)
	ct := pick(t, `type`, convTypes...)
	n := ct.dgo
	if c.Pcore {
		n = ct.pcore
	}
	c.To = Val{n}
	if ct.args != nil || chance(t, 2, `list`) {
		c.To = Val{append(L{n}, ct.args...)}
	}
	c.Merge = pick(t, `merge`, ``, `first`, `unique`, `hash`, `deep`)
	c.Strategy = pick(t, `cs`, ``, ``, `first`, `unique`, `hash`, `deep`)
	c.Dig = pick(t, `dig`, ``, ``, ``, `.a`, `.0`, `.1.0`)
	c.Alias = chance(t, 3, `alias`)
	c.OptFirst = chance(t, 5, `optfirst`)
	if chance(t, 4, `mux`) {
		c.W.Mux = pick(t, `muxes`, []string{`config`}, []string{`env`, `config`})
	}
	return c
}

func runConv(x *X, c convCase) (err error) {
	lo := M{}
	if c.Merge != `` {
		lo[`merge`] = c.Merge
	}
	l := Level{Name: `opts`, Datadir: `optsdir`, LocKey: `path`, Locs: []string{`opts.yaml`}}
	if c.OptFirst {
		c.W.Cfg.Levels = append([]Level{l}, c.W.Cfg.Levels...)
	} else {
		c.W.Cfg.Levels = append(c.W.Cfg.Levels, l)
	}
	n := len(c.W.Files)
	dirs := [2]string{x.Dir() + `/without`, x.Dir() + `/with`}
	for i, d := range dirs {
		if i == 1 {
			lo[`convert_to`] = c.To.V
		}
		al := M{}
		if c.Alias {
			al[`al`] = `%{alias('k` + c.Dig + `')}`
		}
		al[`lookup_options`] = M{`k`: cp(lo)}
		c.W.Files = append(c.W.Files[:n:n], File{Path: `optsdir/opts.yaml`, Data: Val{al}})
		c.W.write(d)
	}
	do := func(dir, key, strategy string) (v dgo.Value, r Res) {
		tp, o := c.W.options(dir)
		if c.Pcore {
			o[api.HieraDialect] = `pcore`
		}
		withSession(tp, o, func(s api.Session) {
			r = capture(func() dgo.Value { v = lookup(s.Invocation(c.W.scope(), nil), key, strategy); return v })
		})
		return
	}
	// A lookup for an alias has no strategy of its own
	strategy := c.Strategy
	if c.Alias {
		strategy = ``
	}
	plain, want := do(dirs[0], `k`, strategy)
	if want.Err != nil {
		return fmt.Errorf(`lookup without conversion fails: %v`, want.Err)
	}
	if plain != nil {
		want = capture(func() dgo.Value {
			dl := streamer.DgoDialect()
			if c.Pcore {
				dl = pcore.Dialect()
			}
			arg, tn := plain, c.To.V
			if ls, ok := tn.(L); ok {
				tn = ls[0]
				if len(ls) > 1 {
					arg = vf.ArgumentsFromArray(toD(append(L{toV(plain)}, ls[1:]...)).(dgo.Array))
				}
			}
			return vf.New(dl.ParseType(nil, vf.String(tn.(string))), arg)
		})
	}
	// The conversion of a numeric string is known without the library
	if ls, ok := c.To.V.(L); ok && len(ls) == 2 {
		if radix, ok := ls[1].(int64); ok {
			if sv, ok := toV(plain).(string); ok {
				if n, perr := strconv.ParseInt(sv, int(radix), 64); perr == nil {
					want = value(n)
					x.Label(`radix`)
				}
			}
		}
	}
	if want.Err == nil && want.Found && c.Dig != `` {
		p, perr := parseKey(`x` + c.Dig)
		must(perr)
		if v := dig(want.V, p[1:]); v == absent {
			want = Res{}
		} else {
			want = value(v)
		}
	}
	key := `k` + c.Dig
	if c.Alias {
		key = `al`
		if want.Err == nil && !want.Found {
			want = value(``)
		}
	}
	_, got := do(dirs[1], key, c.Strategy)
	x.Label(`to=%s`, show(c.To.V))
	switch {
	case plain == nil:
		x.Label(`not found`)
	case want.Err != nil:
		x.Label(`failed conversion`)
		x.NonTrivial()
	default:
		x.Label(`converted`)
		if !eq(toV(plain), want.V) {
			x.NonTrivial()
			x.Label(`changed`)
		}
	}
	if c.Alias && want.Err == nil && (c.Strategy == `unique`) {
		// covered by C07
		return nil
	}
	if !got.same(want) {
		return differ(fmt.Sprintf(`lookup of %s with convert_to %s`, key, show(c.To.V)), got, want)
	}
	return nil
}

func init() {
	register(&Property{
		ID: `C12`,
		Rule: `secret: values that contain a marker text, as strings, hash keys, results of interpolation and of nested lookups, in several sources of
any kind and also found by custom functions, are made sensitive by lookup_options, with any merge strategy and any kind of session. The marker
must neither be in the text rendering of the value nor in the text of any explanation of a lookup of the key, a sub key or a key that refers to
it. Non-trivial when the value that was found has the marker in a sensitive value. convert: the same hierarchy with and without convert_to.
The value found with it must be the conversion of the value found without it. Non-trivial when the conversion changes the value or fails.`,
		Assumptions: []string{`the conversion itself (vf.New of the dgo library) is taken as given`, `text given by a custom function to Explain is the responsibility of that function`},
		Subs: []subCheck{
			Spec[secretCase]{Name: `secret`, Quick: 2000, Thorough: 60000, Gen: genSecretCase, Run: runSecret},
			Spec[convCase]{Name: `convert`, Quick: 2000, Thorough: 50000, Gen: genConvCase, Run: runConv},
		},
	})
}
