package harness

import (
	"fmt"
	"strconv"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/hiera/api"
	"pgregory.net/rapid"
)

type digCase struct {
	W        World  `json:"w"`
	Strategy string `json:"strategy"`
	Paths    [][]Val
}

// genRest generates a path that mostly exists in the given value
func genRest(t *rapid.T, v V) []Val {
	var ps []Val
	for i := rapid.IntRange(1, 4).Draw(t, `len`); i > 0; i-- {
		if chance(t, 2, `wild`) {
			ps = append(ps, Val{pick[V](t, `seg`, `a`, `b`, `nokey`, `0`, ``, int64(0), int64(1), int64(-1), int64(7), int64(1<<31-1), `x.y`)})
			v = nil
			continue
		}
		switch c := v.(type) {
		case L:
			if len(c) == 0 {
				return append(ps, Val{int64(0)})
			}
			n := rapid.IntRange(0, len(c)-1).Draw(t, `ix`)
			ps = append(ps, Val{int64(n)})
			v = c[n]
		case M:
			if len(c) == 0 {
				return append(ps, Val{`a`})
			}
			k := pick(t, `key`, keys(c)...)
			v = c[k]
			if len(k) > len(intKey) && k[:len(intKey)] == intKey {
				n, _ := strconv.ParseInt(k[len(intKey):], 10, 64)
				ps = append(ps, Val{n})
			} else {
				ps = append(ps, Val{k})
			}
		default:
			if len(ps) > 0 {
				return ps
			}
			ps = append(ps, Val{pick[V](t, `seg`, `a`, int64(0), int64(1))})
		}
	}
	return ps
}

func genConvOpts(t *rapid.T, ks []string) V {
	m := genLuOpts(t, ks).(M)
	if chance(t, 3, `convert`) {
		k := pick(t, `ck`, ks...)
		o, _ := m[k].(M)
		if o == nil {
			o = M{}
		}
		o[`convert_to`] = `sensitive`
		m[k] = o
	}
	return m
}

func genDig(t *rapid.T) digCase {
	c := digCase{Strategy: pick(t, `strategy`, ``, ``, `first`, `unique`, `hash`, `deep`)}
	ks := []string{`k0`, `k1`, `dotted.key`}
	c.W = genWorld(t, worldOpts{maxLevels: 3, keys: ks, values: genMergeable, luOpts: genConvOpts, density: 8, noGlob: true})
	var vals []V
	for _, f := range c.W.Files {
		for _, k := range ks {
			if v, ok := f.Data.V.(M)[k]; ok {
				vals = append(vals, M{k: v})
			}
		}
	}
	for i := 0; i < 6; i++ {
		if len(vals) > 0 && !chance(t, 1, `other`) {
			m := pick(t, `from`, vals...).(M)
			k := keys(m)[0]
			c.Paths = append(c.Paths, append([]Val{{k}}, genRest(t, m[k])...))
		} else {
			c.Paths = append(c.Paths, append([]Val{{pick(t, `k`, ks...)}}, genRest(t, nil)...))
		}
	}
	return c
}

func digV(v V, ps []Val) Res {
	var parts []part
	for _, p := range ps {
		if i, ok := p.V.(int64); ok {
			parts = append(parts, part{i: int(i), isI: true})
		} else {
			parts = append(parts, part{s: p.V.(string)})
		}
	}
	if r := dig(v, parts); r != absent {
		return value(r)
	}
	return Res{}
}

func pathKey(ps []Val) string {
	s := ``
	for i, p := range ps {
		if i > 0 {
			s += `.`
		}
		s += writeSeg(p.V, i%3)
	}
	return s
}

func runDig(x *X, c digCase) (err error) {
	dir := x.Dir()
	c.W.write(dir)
	m := newModel(&c.W, dir)
	for _, ps := range c.Paths {
		root := pathKey(ps[:1])
		key := pathKey(ps)
		all := c.W.lookup(dir, root, c.Strategy)
		got := c.W.lookup(dir, key, c.Strategy)
		var want Res
		switch {
		case all.Err != nil:
			want = all
		case all.Found:
			want = digV(all.V, ps[1:])
			x.Label(`dig found=%v`, want.Found)
			x.NonTrivial()
		}
		if !got.same(want) {
			return differ(fmt.Sprintf(`lookup of %s where %s is %s`, key, root, all), got, want)
		}
		if mr := m.lookup(root, c.Strategy); !all.same(mr) {
			if cfg := m.config(&c.W.Cfg, dir, ``); !sameMerged(strategyOf(c.Strategy, cfg.optionsFor(ps[0].V.(string))), all, mr) {
				return differ(`lookup of `+root, all, mr)
			}
		}
	}
	return nil
}

type buryCase struct {
	Path []Val `json:"path"`
	V    Val   `json:"v"`
}

func runBury(x *X, c buryCase) error {
	if len(c.Path) > 1 {
		x.NonTrivial()
	}
	s := pathKey(c.Path)
	k := api.NewKey(s)
	var err error
	w := World{}
	w.inSession(x.Dir(), func(ss api.Session) {
		ic := ss.Invocation(nil, nil)
		b := k.Bury(toD(c.V.V))
		if got := capture(func() dgo.Value { return k.Dig(ic, b) }); !got.same(value(c.V.V)) {
			err = differ(fmt.Sprintf(`dig %s in %s`, s, b), got, value(c.V.V))
			return
		}
		want := c.V.V
		for i := len(c.Path) - 1; i > 0; i-- {
			if n, ok := c.Path[i].V.(int64); ok {
				want = M{intKey + strconv.FormatInt(n, 10): want}
			} else {
				want = M{c.Path[i].V.(string): want}
			}
		}
		if !eq(toV(b), want) {
			err = fmt.Errorf("%s buries %s in %s, want %s", s, show(c.V.V), show(toV(b)), show(want))
		}
	})
	return err
}

type digAnyCase struct {
	V    Val   `json:"v"`
	Path []Val `json:"path"`
}

// Dig into any value, without a lookup
func runDigAny(x *X, c digAnyCase) (err error) {
	s := pathKey(append([]Val{{`root`}}, c.Path...))
	w := World{}
	w.inSession(x.Dir(), func(ss api.Session) {
		want := digV(c.V.V, c.Path)
		x.Label(`found=%v`, want.Found)
		if len(c.Path) > 1 || want.Found {
			x.NonTrivial()
		}
		k := api.NewKey(s)
		if got := capture(func() dgo.Value { return k.Dig(ss.Invocation(nil, nil), toD(c.V.V)) }); !got.same(want) {
			err = differ(fmt.Sprintf(`dig %s in %s`, s, show(c.V.V)), got, want)
		}
	})
	return
}

func init() {
	register(&Property{
		ID: `C05`,
		Rule: `Cases are hierarchies with nested values, lookup options and conversions together with six paths each, drawn from the
values themselves and then perturbed (wrong type, out of range, negative, past a scalar), plus values and paths for Dig and
Bury alone. A case is non-trivial when the root of a path is found, or the path has several segments.`,
		Subs: []subCheck{
			Spec[digCase]{Name: `lookup`, Quick: 700, Thorough: 15000, Gen: genDig, Run: runDig},
			Spec[buryCase]{Name: `bury`, Quick: 4000, Thorough: 100000, Gen: func(t *rapid.T) buryCase {
				return buryCase{append([]Val{{`r`}}, genRest(t, genValue(3).Draw(t, `for`))...), Val{genValue(2).Draw(t, `v`)}}
			}, Run: runBury},
			Spec[digAnyCase]{Name: `large`, Quick: 600, Thorough: 15000, Gen: genLargeDig, Run: runDigAny},
			Spec[digAnyCase]{Name: `dig`, Quick: 6000, Thorough: 200000, Gen: func(t *rapid.T) digAnyCase {
				v := genValue(4).Draw(t, `v`)
				return digAnyCase{Val{v}, genRest(t, v)}
			}, Run: runDigAny},
		},
	})
}
