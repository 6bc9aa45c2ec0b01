package harness

import (
	"fmt"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/hiera"
	"pgregory.net/rapid"
)

type namesCase struct {
	W         World    `json:"w"`
	Names     []string `json:"names"`
	Override  *Val     `json:"override,omitempty"`
	Defaults  *Val     `json:"defaults,omitempty"`
	Default   *Val     `json:"default,omitempty"`
	Func      *Val     `json:"func,omitempty"`
	FuncNil   bool     `json:"func_nil,omitempty"` // the default function returns nothing
	Type      string   `json:"type,omitempty"`
	Types     []string `json:"types,omitempty"` // by name
	Strategy  string   `json:"strategy"`
	All       bool     `json:"all"`
	FuncFails bool     `json:"func_fails,omitempty"`
}

var namePool = []string{`k0`, `k1`, `k2`, `k0.a`, `k1.0`, `k1.b.c`, `k2.'a.b'`, `mod::k`, `missing`, `missing2`, `missing.a`, `lookup_options`, `bad`, `bad..key`, `'dotted.key'`}

var someTypes = []string{``, ``, ``, `any`, `string`, `string[3]`, `int`, `-1..2`, `float`, `bool`, `[]any`, `[]string`, `[]int`, `map[string]any`, `"x"|"y"`, `int|bool`, `sensitive`, `string|nil`}

func genNameMap(t *rapid.T, names []string) *Val {
	m := M{}
	for i := rapid.IntRange(0, 2).Draw(t, `n`); i > 0; i-- {
		k := pick(t, `from`, namePool...)
		if chance(t, 6, `wanted`) {
			k = pick(t, `name`, names...)
		}
		m[k] = genValue(1).Draw(t, `mv`)
	}
	return &Val{m}
}

func genNamesCase(t *rapid.T) namesCase {
	var c namesCase
	c.W = genWorld(t, worldOpts{maxLevels: 3, noGlob: true, density: 3, luOpts: genLuOpts})
	if chance(t, 7, `badlevel`) {
		c.W.Cfg.Levels = append(c.W.Cfg.Levels, Level{Name: `bad`, Datadir: `bad`, LocKey: `path`, Locs: []string{`bad.yaml`}})
		c.W.Files = append(c.W.Files, File{Path: `bad/bad.yaml`, Data: Val{M{`bad`: `%{nosuch('x')}`}}})
	}
	ws := append([]string{}, namePool...)
	if chance(t, 7, `nobad`) {
		ws = ws[:0]
		for _, n := range namePool {
			if !strings.HasPrefix(n, `bad`) {
				ws = append(ws, n)
			}
		}
	}
	if chance(t, 3, `scarce`) {
		ws = []string{`missing`, `missing2`, `missing.a`, `k0`, `lookup_options`}
	}
	for i := rapid.IntRange(1, 4).Draw(t, `nnames`); i > 0; i-- {
		c.Names = append(c.Names, pick(t, `name`, ws...))
	}
	c.All = chance(t, 4, `all`)
	if chance(t, 4, `override`) {
		c.Override = genNameMap(t, c.Names)
	}
	if chance(t, 5, `defaults`) {
		c.Defaults = genNameMap(t, c.Names)
	}
	if chance(t, 4, `default`) {
		c.Default = &Val{genValue(1).Draw(t, `dv`)}
	}
	if chance(t, 5, `func`) {
		c.Func = &Val{genValue(1).Draw(t, `fv`)}
		c.FuncNil = chance(t, 2, `funcnil`)
		c.FuncFails = chance(t, 1, `funcfails`)
	}
	if c.All {
		if chance(t, 5, `types`) {
			for range c.Names {
				c.Types = append(c.Types, pick(t, `type`, someTypes[3:]...))
			}
		}
	} else {
		c.Type = pick(t, `type`, someTypes...)
	}
	c.Strategy = pick(t, `strategy`, ``, ``, ``, `first`, `unique`, `hash`, `deep`)
	return c
}

func optMap(v *Val) dgo.Map {
	if v == nil {
		return nil
	}
	return toDMap(v.V.(M))
}

type actual struct {
	dv dgo.Value
	v  V
}

// coerce is the reference for what happens with a value that should have a type
func coerce(t dgo.Type, v V) V {
	return coerceD(t, toD(v), v)
}

func coerceD(t dgo.Type, dv dgo.Value, v V) V {
	if t == nil || t.Instance(dv) {
		return v
	}
	var r V
	res := capture(func() dgo.Value { return vf.New(t, dv) })
	if res.Err != nil {
		fail(`%v`, res.Err)
	}
	r = res.V
	return r
}

func runNames(x *X, c namesCase) (err error) {
	dir := x.Dir()
	c.W.write(dir)
	m := newModel(&c.W, dir)
	inMap := func(v *Val, n string) V {
		if v != nil {
			if e, ok := v.V.(M)[n]; ok {
				return e
			}
		}
		return absent
	}
	var misfit error
	found := func(n string) V {
		r := m.lookup(n, c.Strategy)
		if r.Err != nil {
			fail(`%v`, r.Err)
		}
		if !r.Found {
			return absent
		}
		// The order of the entries of a merged hash isn't specified, but it may affect the outcome of a conversion
		var dv dgo.Value
		a := capture(func() dgo.Value {
			c.W.inSession(dir, func(s api.Session) { dv = lookup(s.Invocation(c.W.scope(), nil), n, c.Strategy) })
			return dv
		})
		if !a.same(r) {
			misfit = differ(`lookup of `+n, a, r)
			return r.V
		}
		return actual{dv, r.V}
	}
	conv := func(t dgo.Type, v V) V {
		if a, ok := v.(actual); ok {
			return coerceD(t, a.dv, a.v)
		}
		return coerce(t, v)
	}
	var tp dgo.Type
	if c.Type != `` {
		tp = tf.ParseType(c.Type)
	}
	typeOf := map[string]dgo.Type{}
	var stp dgo.StructMapType
	if len(c.Types) > 0 {
		var es []string
		for i, n := range c.Names {
			if typeOf[n] == nil {
				typeOf[n] = tf.ParseType(c.Types[i])
				es = append(es, fmt.Sprintf(`%s:%s`, jstr(n), c.Types[i]))
			}
		}
		stp = tf.ParseType(`{` + strings.Join(es, `,`) + `}`).(dgo.StructMapType)
	}
	how := ``
	wantCalls := 0
	want := func() (r Res) {
		defer func() {
			if e := recover(); e != nil {
				me, ok := e.(merr)
				if !ok {
					panic(e)
				}
				r = Res{Err: fmt.Errorf(`%s`, me.msg)}
			}
		}()
		if c.All {
			all := M{}
			for _, n := range c.Names {
				for _, f := range []func() V{func() V { return inMap(c.Override, n) }, func() V { return found(n) }, func() V { return inMap(c.Defaults, n) }} {
					if v := f(); v != absent {
						all[n] = conv(typeOf[n], v)
						break
					}
				}
			}
			how = fmt.Sprintf(`all: %d of %d`, len(all), len(c.Names))
			return value(all)
		}
		for _, n := range c.Names {
			if v := inMap(c.Override, n); v != absent {
				how = `override`
				return value(coerce(tp, v))
			}
		}
		for i, n := range c.Names {
			if v := found(n); v != absent {
				how = fmt.Sprintf(`name %d`, i+1)
				return value(conv(tp, v))
			}
		}
		for _, n := range c.Names {
			if v := inMap(c.Defaults, n); v != absent {
				how = `default values`
				return value(coerce(tp, v))
			}
		}
		if c.Default != nil {
			how = `default`
			return value(coerce(tp, c.Default.V))
		}
		if c.Func != nil {
			how = `function`
			wantCalls = 1
			if c.FuncFails {
				how = `failing function`
				fail(`failed`)
			}
			if !c.FuncNil {
				return value(coerce(tp, c.Func.V))
			}
			how = `function without result`
			return Res{}
		}
		how = `nothing`
		return Res{}
	}()
	if misfit != nil {
		return misfit
	}
	x.Label(`%s`, how)
	if want.Err != nil {
		x.Label(`error`)
	}
	if how != `nothing` && how != `name 1` && how != `all: 0 of 1` {
		x.NonTrivial()
	}
	ov, dh := optMap(c.Override), optMap(c.Defaults)
	var opts dgo.Map
	if c.Strategy != `` {
		opts = vf.Map(`merge`, c.Strategy)
	}
	calls := 0
	var fn dgo.Producer
	if c.Func != nil {
		fn = func() dgo.Value {
			calls++
			if c.FuncFails {
				panic(errDeliberate)
			}
			if c.FuncNil {
				return nil
			}
			return toD(c.Func.V)
		}
	}
	var got Res
	c.W.inSession(dir, func(s api.Session) {
		got = capture(func() dgo.Value {
			ic := s.Invocation(c.W.scope(), nil)
			if c.All {
				return hiera.LookupAll(ic, c.Names, stp, ov, dh, opts)
			}
			var dv dgo.Value
			if c.Default != nil {
				dv = toD(c.Default.V)
			}
			return hiera.Lookup2(ic, c.Names, tp, dv, ov, dh, opts, fn)
		})
	})
	if isRuntime(got.Err) && want.Err == nil {
		return fmt.Errorf(`lookup of %v crashes: %v`, c.Names, got.Err)
	}
	if !got.same(want) {
		return differ(fmt.Sprintf(`lookup of %v (%s)`, c.Names, how), got, want)
	}
	if calls != wantCalls && !(want.Err != nil && wantCalls == 0 && calls == 0) {
		return fmt.Errorf(`the default function is called %d times, want %d`, calls, wantCalls)
	}
	for _, g := range []struct {
		m dgo.Map
		v *Val
	}{{ov, c.Override}, {dh, c.Defaults}} {
		if g.v != nil && !eq(toV(g.m), g.v.V) {
			return fmt.Errorf(`a map given by the caller is changed from %s to %s`, show(g.v.V), show(toV(g.m)))
		}
	}
	return nil
}

func init() {
	register(&Property{
		ID: `C13`,
		Rule: `Lookup2 and LookupAll are called with one to four names (dotted, quoted, missing, failing), over generated hierarchies, with any
combination of overrides, default values, default value, default function (that may fail or return nothing), type and merge strategy. The
outcome, including how often the default function is called, is compared with a model. Non-trivial unless nothing is found or the first name
in the hierarchy.`,
		Assumptions: []string{`whether a value is an instance of a type, and how it's converted to one, is decided by the dgo library`},
		Subs: []subCheck{
			Spec[namesCase]{Name: `many`, Quick: 150, Thorough: 4000, Gen: genLargeNames, Run: runNames},
			Spec[namesCase]{Name: `names`, Quick: 4000, Thorough: 120000, Gen: genNamesCase, Run: runNames},
		},
	})
}
