package harness

import (
	"fmt"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/merge"
	sdk "github.com/lyraproj/hierasdk/hiera"
	"pgregory.net/rapid"
)

// sameMerged compares the outcome of a merged lookup. A single value that isn't an array may be returned as it is or in
// an array by the unique strategy.
func sameMerged(strategy string, got, want Res) bool {
	if got.same(want) {
		return true
	}
	if strategy == `unique` && got.Found && want.Found {
		w := want.V
		if _, ok := w.(L); !ok {
			w = L{w}
		}
		g := got.V
		if _, ok := g.(L); !ok {
			g = L{g}
		}
		return eq(g, w)
	}
	return false
}

func runMerge(x *X, c worldCase) error {
	dir, m := c.setup(x)
	src, _ := m.sources(c.Key)
	want := m.lookup(quoteKey(c.Key), c.Strategy)
	got := c.W.lookup(dir, quoteKey(c.Key), c.Strategy)
	x.Label(`%s`, c.Strategy)
	if len(src) > 1 {
		x.Label(`%s of several`, c.Strategy)
		if !eq(src[0], want.V) || c.Strategy == `first` {
			x.NonTrivial()
		}
	}
	if !sameMerged(c.Strategy, got, want) {
		return differ(fmt.Sprintf(`%s lookup of %s with sources %s`, c.Strategy, c.Key, show(L(src))), got, want)
	}
	return nil
}

// memCase is a hierarchy where each level is backed by in-memory data
type memCase struct {
	Levels [][]Val `json:"levels"` // per level, the locations. A missing value has the V absentMark
	Ops    []int   `json:"ops"`    // strategies, in order
}

const absentMark = "#absent"

func genMem(t *rapid.T) memCase {
	var c memCase
	for i := rapid.IntRange(1, 4).Draw(t, `levels`); i > 0; i-- {
		var lv []Val
		for j := rapid.IntRange(1, 3).Draw(t, `locs`); j > 0; j-- {
			if chance(t, 2, `absent`) {
				lv = append(lv, Val{absentMark})
			} else {
				lv = append(lv, Val{genValue(3).Draw(t, `v`)})
			}
		}
		c.Levels = append(c.Levels, lv)
	}
	c.Ops = rapid.SliceOfN(rapid.IntRange(0, 3), 1, 6).Draw(t, `ops`)
	return c
}

// A session with a data_hash function that returns the given values, each time the very same map
func memSession(x *X, c *memCase, frozen bool, f func(s api.Session, maps []dgo.Map)) {
	cfg := Config{}
	hashes := map[string]dgo.Map{}
	var all []dgo.Map
	for i, lv := range c.Levels {
		l := Level{Name: fmt.Sprintf(`l%d`, i), Kind: `data_hash`, Fn: `mem`, LocKey: `uris`}
		for j, v := range lv {
			u := fmt.Sprintf(`mem:%d/%d`, i, j)
			l.Locs = append(l.Locs, u)
			h := vf.MutableMap()
			if v.V != absentMark {
				h.Put(`k`, toD(v.V))
			}
			if frozen {
				h = h.FrozenCopy().(dgo.Map)
			}
			hashes[u] = h
			all = append(all, h)
		}
		cfg.Levels = append(cfg.Levels, l)
	}
	w := World{Cfg: cfg}
	dir := x.Dir()
	w.write(dir)
	tp, o := w.options(dir)
	o[api.HieraFunctions] = map[string]interface{}{
		`mem`: vf.Value(func(pc sdk.ProviderContext) dgo.Value {
			p, _ := pc.StringOption(`path`)
			if h, ok := hashes[p]; ok {
				return h
			}
			return nil
		}),
	}
	withSession(tp, o, func(s api.Session) { f(s, all) })
}

func (c *memCase) want(strategy string) V {
	var srcs []func() V
	for _, lv := range c.Levels {
		var locs []func() V
		for _, v := range lv {
			v := v.V
			locs = append(locs, func() V {
				if v == absentMark {
					return absent
				}
				return v
			})
		}
		srcs = append(srcs, func() V { return mMerge(strategy, locs) })
	}
	return mMerge(strategy, srcs)
}

func runMem(x *X, c memCase) (err error) {
	n := 0
	for _, lv := range c.Levels {
		for _, v := range lv {
			if v.V != absentMark {
				n++
			}
		}
	}
	if n > 1 && len(c.Ops) > 1 {
		x.NonTrivial()
	}
	memSession(x, &c, len(c.Ops)%2 == 0, func(s api.Session, maps []dgo.Map) {
		var before []V
		for _, h := range maps {
			before = append(before, toV(h))
		}
		ic := s.Invocation(nil, nil)
		for _, op := range c.Ops {
			st := strategies[op]
			x.Label(`%s`, st)
			want := Res{}
			if v := c.want(st); v != absent {
				want = value(v)
			}
			got := capture(func() dgo.Value { return lookup(ic, `k`, st) })
			if !sameMerged(st, got, want) {
				err = differ(st+` lookup`, got, want)
				return
			}
			for i, h := range maps {
				if !eq(before[i], toV(h)) {
					err = fmt.Errorf("%s lookup changed the source %s to %s", st, show(before[i]), show(toV(h)))
					return
				}
			}
		}
	})
	return
}

type pairCase struct {
	A Val `json:"a"`
	B Val `json:"b"`
}

func runDeep(x *X, c pairCase) error {
	a, b := toD(c.A.V), toD(c.B.V)
	want := mDeep(c.A.V, c.B.V)
	got, merged := merge.Deep(a, b, nil)
	if !eq(want, c.A.V) {
		x.NonTrivial()
	}
	if !eq(toV(got), want) {
		return fmt.Errorf("deep merge of %s and %s:\n  got  %s\n  want %s", show(c.A.V), show(c.B.V), show(toV(got)), show(want))
	}
	if !merged && !eq(toV(got), c.A.V) {
		return fmt.Errorf("deep merge of %s and %s is %s but said to be the first argument", show(c.A.V), show(c.B.V), show(toV(got)))
	}
	if !eq(toV(a), c.A.V) || !eq(toV(b), c.B.V) {
		return fmt.Errorf("deep merge of %s and %s changed its arguments to %s and %s", show(c.A.V), show(c.B.V), show(toV(a)), show(toV(b)))
	}
	return nil
}

type badStrategyCase struct {
	Name string `json:"name"`
	How  int    `json:"how"` // option, option as hash, lookup_options
	Mux  bool   `json:"mux"`
}

func runBadStrategy(x *X, c badStrategyCase) error {
	x.NonTrivial()
	data := M{`k`: M{`a`: int64(1)}, `other`: int64(3)}
	if c.How >= 2 {
		var mv V = c.Name
		if c.How == 3 {
			mv = M{`strategy`: c.Name}
		}
		data[`lookup_options`] = M{`k`: M{`merge`: mv}}
	}
	w := World{Cfg: Config{Levels: []Level{{Name: `a`, LocKey: `path`, Locs: []string{`a.yaml`}}, {Name: `b`, LocKey: `path`, Locs: []string{`b.yaml`}}}},
		Files: []File{{Path: `data/a.yaml`, Data: Val{data}}, {Path: `data/b.yaml`, Data: Val{M{`k`: M{`b`: int64(2)}}}}}}
	if c.Mux {
		w.Mux = []string{`config`, `env`}
	}
	dir := x.Dir()
	w.write(dir)
	var got, other Res
	w.inSession(dir, func(s api.Session) {
		ic := s.Invocation(nil, nil)
		got = capture(func() dgo.Value {
			switch c.How {
			case 0:
				return ic.Lookup(api.NewKey(`k`), vf.Map(`merge`, c.Name))
			case 1:
				return ic.Lookup(api.NewKey(`k`), vf.Map(`merge`, vf.Map(`strategy`, c.Name)))
			}
			return ic.Lookup(api.NewKey(`k`), nil)
		})
		other = capture(func() dgo.Value { return ic.Lookup(api.NewKey(`other`), nil) })
	})
	if got.Err == nil {
		return fmt.Errorf("strategy %q: got %s, want an error", c.Name, got)
	}
	if !other.same(value(int64(3))) {
		return differ(`lookup of another key`, other, value(int64(3)))
	}
	return nil
}

func init() {
	register(&Property{
		ID: `C02`,
		Rule: `Cases are hierarchies whose files hold overlapping nested values (scalars, arrays, hashes from small domains), in-memory
sources merged with a sequence of strategies, pairs of values for merge.Deep, and unknown strategy names. A case is
non-trivial when several sources define the key and the merged result differs from the first of them (files, Deep),
when several in-memory sources are merged more than once, and always for unknown strategies.`,
		Assumptions: []string{`merging is hierarchical: first the locations within a level, then the levels`,
			`a single scalar found with unique is accepted both as it is and in an array`},
		Subs: []subCheck{
			Spec[worldCase]{Name: `files`, Quick: 1500, Thorough: 40000, Gen: genWorldCase(worldOpts{maxLevels: 4, json: true, values: genMergeable, density: 8}, `unique`, `hash`, `deep`), Run: runMerge},
			Spec[memCase]{Name: `memory`, Quick: 1500, Thorough: 40000, Gen: genMem, Run: runMem},
			Spec[pairCase]{Name: `deep`, Quick: 10000, Thorough: 400000, Gen: func(t *rapid.T) pairCase {
				return pairCase{Val{genMergeable(t)}, Val{genMergeable(t)}}
			}, Run: runDeep},
			Spec[worldCase]{Name: `large-files`, Quick: 200, Thorough: 4000, Gen: genLargeWorld(`unique`, `hash`, `deep`), Run: runMerge},
			Spec[memCase]{Name: `large-memory`, Quick: 150, Thorough: 3000, Gen: genLargeMem, Run: runMem},
			Spec[pairCase]{Name: `large-deep`, Quick: 800, Thorough: 20000, Gen: genLargePair, Run: runDeep},
			Spec[badStrategyCase]{Name: `unknown`, Quick: 150, Thorough: 2000, Gen: func(t *rapid.T) badStrategyCase {
				return badStrategyCase{pick(t, `name`, ``, `firs`, `First`, `union`, `deeper`, `reverse_deep`, `unique `, `unconstrained_deep`, `hash.`),
					rapid.IntRange(0, 3).Draw(t, `how`), rapid.Bool().Draw(t, `mux`)}
			}, Run: runBadStrategy},
		},
	})
}

// genMergeable generates values that are likely to merge
func genMergeable(t *rapid.T) V {
	switch rapid.IntRange(0, 5).Draw(t, `shape`) {
	case 0:
		return genValue(2).Draw(t, `any`)
	case 1, 2:
		return V(rapid.SliceOfN(genValue(1), 0, 5).Draw(t, `list`))
	default:
		return V(genMap(3, 5).Draw(t, `map`))
	}
}
