package harness

import (
	"fmt"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/hiera"
	"pgregory.net/rapid"
)

type optsCase struct {
	W     World  `json:"w"`
	Merge string `json:"merge"` // strategy of the caller
	Form  int    `json:"form"`  // string or hash
	Keys  []string
}

var optKeys = []string{`k0`, `k1`, `k10`, `mod::k`, `dotted.key`}

func genOptsCase(t *rapid.T) optsCase {
	c := optsCase{W: genWorld(t, worldOpts{keys: optKeys, values: genMergeable, luOpts: genLuOpts, json: true, maxLevels: 4})}
	c.Merge = pick(t, `merge`, ``, ``, `first`, `unique`, `hash`, `deep`)
	c.Form = rapid.IntRange(0, 1).Draw(t, `form`)
	if chance(t, 3, `mux`) {
		c.W.Mux = []string{`config`, `env`}
	}
	for _, k := range optKeys {
		c.Keys = append(c.Keys, quoteKey(k))
		if chance(t, 3, `dotted`) {
			c.Keys = append(c.Keys, quoteKey(k)+pick(t, `rest`, `.a`, `.b.a`, `.0`, `.merge`))
		}
	}
	c.Keys = append(c.Keys, pick(t, `lo`, `lookup_options`, `lookup_options.k0`, `'lookup_options'`, `"lookup_options".k1.merge`))
	return c
}

func runOpts(x *X, c optsCase) (err error) {
	dir := x.Dir()
	c.W.write(dir)
	m := newModel(&c.W, dir)
	cfg := m.config(&c.W.Cfg, dir, ``)
	c.W.inSession(dir, func(s api.Session) {
		ic := s.Invocation(c.W.scope(), nil)
		for _, k := range c.Keys {
			var o interface{}
			switch {
			case c.Merge == ``:
			case c.Form == 0:
				o = mergeOpt(c.Merge)
			default:
				o = map[string]interface{}{`merge`: map[string]interface{}{`strategy`: c.Merge}}
			}
			want := m.lookup(k, c.Merge)
			got := capture(func() dgo.Value { return hiera.Lookup(ic, k, nil, o) })
			ps, _ := parseKey(k)
			st := strategyOf(c.Merge, cfg.optionsFor(ps[0].s))
			src, _ := m.sources(ps[0].s)
			if len(src) > 1 && cfg.optionsFor(ps[0].s) != nil {
				x.NonTrivial()
				x.Label(`options %s caller %q`, st, c.Merge)
			}
			if ps[0].s == `lookup_options` {
				want = Res{}
			}
			ok := got.same(want)
			if len(ps) == 1 {
				ok = sameMerged(st, got, want)
			}
			if !ok {
				err = differ(fmt.Sprintf(`lookup of %s with merge option %q and lookup options %s`, k, c.Merge, show(cfg.luOpts)), got, want)
				return
			}
		}
	})
	return
}

func init() {
	register(&Property{
		ID: `C03`,
		Rule: `A case is a hierarchy of up to 4 levels where several files declare lookup_options for overlapping sets of keys in string
and hash form, and a merge option of the caller or none. All keys are looked up, plain and dotted, including
lookup_options itself. Non-trivial when a key with several definitions has lookup options.`,
		Subs: []subCheck{
			Spec[optsCase]{Name: `options`, Quick: 2000, Thorough: 50000, Gen: genOptsCase, Run: runOpts},
			Spec[optsCase]{Name: `many`, Quick: 100, Thorough: 2500, Gen: genManyOpts, Run: runOpts},
		},
	})
}
