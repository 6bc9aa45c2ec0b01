package harness

import (
	"fmt"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/hiera/api"

	"pgregory.net/rapid"
)

type worldCase struct {
	W        World  `json:"w"`
	Key      string `json:"key"`
	Strategy string `json:"strategy"`
}

func (c *worldCase) setup(x *X) (string, *model) {
	dir := x.Dir()
	c.W.write(dir)
	return dir, newModel(&c.W, dir)
}

// sources is what the key has in each location of the hierarchy, in order
func (m *model) sources(root string) (found []V, locations int) {
	c := m.config(&m.w.Cfg, m.dir, ``)
	for i := range c.levels {
		l := &c.levels[i]
		for j := range l.locs {
			if loc := &l.locs[j]; loc.exists {
				locations++
				if v := m.call(l, loc, root); v != absent {
					found = append(found, v)
				}
			}
		}
	}
	return
}

func differ(what string, got, want Res) error {
	return fmt.Errorf("%s:\n  got  %s\n  want %s", what, got, want)
}

func runFirst(x *X, c worldCase) (err error) {
	dir, m := c.setup(x)
	got := c.W.lookup(dir, quoteKey(c.Key), c.Strategy)
	// The law of C01, evaluated directly
	src, locs := m.sources(c.Key)
	want := Res{}
	if len(src) > 0 {
		want = value(src[0])
	}
	x.Label(`found=%v`, want.Found)
	x.Label(`definitions=%d`, len(src))
	if want.Found {
		switch want.V {
		case nil, false, int64(0), ``:
			x.Label(`falsy`)
		}
	}
	if locs > 1 && len(src) > 0 && !eq(src[0], src[len(src)-1]) || locs > 1 && len(src) == 0 {
		x.NonTrivial()
	}
	if !got.same(want) {
		return differ(`lookup of `+c.Key, got, want)
	}
	// All keys through the same invocation
	c.W.inSession(dir, func(s api.Session) {
		ic := s.Invocation(c.W.scope(), nil)
		for _, k := range rootKeys {
			src, _ := m.sources(k)
			want := Res{}
			if len(src) > 0 {
				want = value(src[0])
			}
			if got := capture(func() dgo.Value { return lookup(ic, quoteKey(k), c.Strategy) }); !got.same(want) {
				err = differ(`lookup of `+k+` in the same invocation`, got, want)
			}
		}
	})
	return err
}

func genFalsy(t *rapid.T) V {
	return pick[V](t, `falsy`, nil, false, int64(0), ``, L{}, M{}, 0.5, `x`, L{nil}, M{`a`: nil})
}

func genWorldCase(o worldOpts, strategies ...string) func(t *rapid.T) worldCase {
	return func(t *rapid.T) worldCase {
		return worldCase{W: genWorld(t, o), Key: pick(t, `key`, rootKeys...), Strategy: pick(t, `strategy`, strategies...)}
	}
}

func init() {
	register(&Property{
		ID: `C01`,
		Rule: `A case is a hierarchy of 1-6 levels with path, paths, glob, globs or mapped_paths locations over a tree of generated
data files, some of which don't exist or don't define the key, a scope and a key. It is non-trivial when more than one
existing location is consulted and the first and last definitions of the key differ, or none of several has it.`,
		Assumptions: []string{`the reference model resolves locations by itself, from the documented rules (see C09)`},
		Subs: []subCheck{
			Spec[worldCase]{Name: `first`, Quick: 1200, Thorough: 30000, Gen: genWorldCase(worldOpts{maxLevels: 6, json: true}, ``, `first`), Run: runFirst},
			Spec[worldCase]{Name: `large`, Quick: 200, Thorough: 4000, Gen: genLargeWorld(``, `first`), Run: runFirst},
			Spec[worldCase]{Name: `falsy`, Quick: 800, Thorough: 15000, Gen: genWorldCase(worldOpts{maxLevels: 4, json: true, values: genFalsy}, ``, `first`), Run: runFirst},
		},
	})
}
