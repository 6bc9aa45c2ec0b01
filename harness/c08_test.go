package harness

import (
	"fmt"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/provider"
	sdk "github.com/lyraproj/hierasdk/hiera"
	"pgregory.net/rapid"
)

// RefNode is a key or a variable and its references
type RefNode struct {
	Name string `json:"name"`
	V    Val    `json:"v"`
	To   []int  `json:"to"` // index of the nodes that the value refers to
}

type graphCase struct {
	Nodes []RefNode `json:"nodes"`
	Keys  int       `json:"keys"`   // the first nodes are keys, the others are variables
	Place []int     `json:"place"`  // where each key is defined, see below
	Order []int     `json:"order"`  // lookups
	Fresh []bool    `json:"fresh"`  // whether the lookup is in a new invocation
	Dig   []string  `json:"dig"`    // what is added to the key
	Merge []string  `json:"merge"`  // merge option
	Path  []int     `json:"path"`   // variables in paths
	Opts  []string  `json:"opts"`   // merge option of key in lookup_options
	Shape string    `json:"shape"`  // how the graph was made
	Mux   bool      `json:"mux"`    // use several top level providers
	SessV bool      `json:"sess_v"` // variables are in the scope of the session
}

func genEdgeText(t *rapid.T, c *graphCase, to int) string {
	n := c.Nodes[to].Name
	if to >= c.Keys {
		return fmt.Sprintf(pick(t, `varform`, `%%{%s}`, `%%{%s.x}`, `%%{scope('%s')}`, `%%{scope("%s.0")}`), n)
	}
	return fmt.Sprintf(pick(t, `keyform`, `%%{lookup('%s')}`, `%%{hiera("%s")}`, `%%{alias('%s')}`, `%%{strict_alias("%s")}`, `%%{lookup('%s.x')}`, `%%{alias("%s.0.y")}`), n)
}

func genNode(t *rapid.T, c *graphCase, i int, to []int) {
	n := &c.Nodes[i]
	n.To = to
	// The expressions are placed in a string or in different parts of a collection
	var strs []V
	cur := ``
	for _, e := range to {
		s := genEdgeText(t, c, e)
		if strings.Contains(s, `alias`) {
			strs = append(strs, s)
			continue
		}
		cur += s
		if chance(t, 5, `split`) {
			strs = append(strs, cur)
			cur = ``
		}
	}
	if cur != `` || len(strs) == 0 {
		strs = append(strs, cur+`.`)
	}
	switch k := rapid.IntRange(0, 3).Draw(t, `struct`); {
	case len(strs) == 1 && k < 3:
		n.V = Val{strs[0]}
	case k == 2:
		m := M{}
		for j, s := range strs {
			if ss := s.(string); !strings.Contains(ss, `alias`) && chance(t, 3, `askey`) {
				m[fmt.Sprintf(`%s#%d`, ss, j)] = int64(j)
			} else {
				m[string(rune('x'+j))] = s
			}
		}
		n.V = Val{m}
	default:
		n.V = Val{L{M{`y`: strs}, `end`}}
	}
}

func genGraph(t *rapid.T) graphCase {
	c := graphCase{Keys: rapid.IntRange(1, 6).Draw(t, `keys`), Mux: chance(t, 3, `mux`), SessV: chance(t, 3, `sessvars`)}
	vars := rapid.IntRange(0, 4).Draw(t, `vars`)
	n := c.Keys + vars
	for i := 0; i < n; i++ {
		nm := fmt.Sprintf(`k%d`, i)
		if i >= c.Keys {
			nm = fmt.Sprintf(`v%d`, i)
		}
		c.Nodes = append(c.Nodes, RefNode{Name: nm})
	}
	c.Shape = pick(t, `shape`, `acyclic`, `any`, `one back edge`, `diamonds`)
	perm := rapid.Permutation(seq(n)).Draw(t, `perm`)
	pos := make([]int, n)
	for i, p := range perm {
		pos[p] = i
	}
	for i := 0; i < n; i++ {
		var to []int
		max := 3
		if c.Shape == `diamonds` {
			max = 4
		}
		for j := rapid.IntRange(0, max).Draw(t, `edges`); j > 0; j-- {
			e := rapid.IntRange(0, n-1).Draw(t, `edge`)
			if c.Shape != `any` {
				if pos[i] == n-1 {
					break
				}
				e = perm[rapid.IntRange(pos[i]+1, n-1).Draw(t, `edge`)]
				if c.Shape == `diamonds` {
					e = perm[pos[i]+1+rapid.IntRange(0, min(1, n-2-pos[i])).Draw(t, `near`)]
				}
			}
			to = append(to, e)
		}
		if c.Shape == `one back edge` && pos[i] == n-1 {
			to = append(to, perm[rapid.IntRange(0, n-1).Draw(t, `back`)])
		}
		genNode(t, &c, i, to)
		c.Place = append(c.Place, rapid.IntRange(0, 3).Draw(t, `place`))
		opt := pick(t, `opt`, ``, ``, ``, `unique`, `hash`)
		if c.Place[i] == 2 {
			// The value of the scope function is interpolated after it is merged
			opt = ``
		}
		c.Opts = append(c.Opts, opt)
	}
	for i := rapid.IntRange(1, 8).Draw(t, `lookups`); i > 0; i-- {
		c.Order = append(c.Order, rapid.IntRange(0, c.Keys-1).Draw(t, `lookup`))
		c.Fresh = append(c.Fresh, rapid.Bool().Draw(t, `fresh`))
		c.Dig = append(c.Dig, pick(t, `dig`, ``, ``, `.x`, `.0`, `.0.y.1`))
		m := pick(t, `m`, ``, ``, `first`, `unique`, `hash`, `deep`)
		if c.Place[c.Order[len(c.Order)-1]] == 2 {
			m = ``
		}
		c.Merge = append(c.Merge, m)
	}
	return c
}

func seq(n int) []int {
	a := make([]int, n)
	for i := range a {
		a[i] = i
	}
	return a
}

// reachesCycle tells if a cycle can be reached from a node
func reachesCycle(edges func(int) []int, from int) bool {
	state := map[int]int{}
	var visit func(n int) bool
	visit = func(n int) bool {
		switch state[n] {
		case 1:
			return true
		case 2:
			return false
		}
		state[n] = 1
		for _, e := range edges(n) {
			if visit(e) {
				return true
			}
		}
		state[n] = 2
		return false
	}
	return visit(from)
}

// Where a key is defined: 0, 1 in the first or second file, 2 by the scope function (as a variable of that name), 3 in JSON
func (c *graphCase) world() World {
	w := World{Scope: Val{M{}}, SessScope: Val{M{}}}
	a, b, j, lo := M{}, M{}, M{}, M{}
	vars := w.Scope.V.(M)
	if c.SessV {
		vars = w.SessScope.V.(M)
	}
	for i, n := range c.Nodes {
		switch {
		case i >= c.Keys || c.Place[i] == 2:
			vars[n.Name] = n.V.V
		case c.Place[i] == 0:
			a[n.Name] = n.V.V
		case c.Place[i] == 1:
			b[n.Name] = n.V.V
		default:
			j[n.Name] = n.V.V
		}
		if c.Opts[i] != `` {
			lo[n.Name] = M{`merge`: c.Opts[i]}
		}
	}
	a[`plain`] = `%{lookup('plain2')}`
	b[`plain2`] = int64(42)
	b[`lookup_options`] = lo
	w.Cfg.Levels = []Level{{Name: `a`, LocKey: `path`, Locs: []string{`a.yaml`}}, {Name: `b`, LocKey: `path`, Locs: []string{`b.yaml`}},
		{Name: `j`, Kind: `data_hash`, Fn: `json_data`, LocKey: `path`, Locs: []string{`j.json`}}, {Name: `s`, Kind: `lookup_key`, Fn: `scope`}}
	w.Files = []File{{Path: `data/a.yaml`, Data: Val{a}}, {Path: `data/b.yaml`, Data: Val{b}}, {Path: `data/j.json`, Data: Val{j}}}
	if c.Mux {
		w.Mux = []string{`config`, `env`}
	}
	return w
}

func runGraph(x *X, c graphCase) (err error) {
	w := c.world()
	dir := x.Dir()
	w.write(dir)
	m := newModel(&w, dir)
	// A key that comes from the scope level is not found when it's a key reference from within that level, but the graph
	// of names is the same
	edges := func(i int) []int { return c.Nodes[i].To }
	x.Label(`shape=%s`, c.Shape)
	failed := false
	w.inSession(dir, func(s api.Session) {
		ic := s.Invocation(w.scope(), nil)
		for i, k := range c.Order {
			if c.Fresh[i] {
				ic = s.Invocation(w.scope(), nil)
			}
			key := c.Nodes[k].Name + c.Dig[i]
			cyclic := reachesCycle(edges, k)
			if cyclic {
				failed = true
				x.NonTrivial()
				x.Label(`cyclic`)
			} else {
				x.Label(`acyclic`)
				if failed {
					x.Label(`acyclic after cyclic`)
				}
				if len(c.Nodes[k].To) > 1 {
					x.NonTrivial()
				}
			}
			got := capture(func() dgo.Value { return lookup(ic, key, c.Merge[i]) })
			switch {
			case isRuntime(got.Err):
				err = fmt.Errorf(`lookup of %s crashes: %v`, key, got.Err)
			case cyclic && got.Err == nil:
				err = fmt.Errorf(`lookup of %s recurses endlessly but gives %s`, key, got)
			case !cyclic && got.Err != nil && strings.Contains(got.Err.Error(), `recursive`):
				err = fmt.Errorf(`lookup of %s doesn't recurse endlessly but gives %s`, key, got)
			case !cyclic:
				if want := m.lookup(key, c.Merge[i]); !got.same(want) && !loneUnique(got, want) {
					err = differ(`lookup of `+key, got, want)
				}
			}
			if err == nil {
				// The invocation keeps working
				if p := capture(func() dgo.Value { return lookup(ic, `plain`, ``) }); !p.same(value(`42`)) {
					err = fmt.Errorf(`lookup of a plain key after %s gives %s`, key, p)
				}
			}
			if err != nil {
				return
			}
		}
	})
	return
}

// loneUnique tells if the only difference is that the only value of a unique merge isn't in an array
func loneUnique(got, want Res) bool {
	if l, ok := want.V.(L); ok && len(l) == 1 && want.Err == nil {
		return got.same(value(l[0]))
	}
	if l, ok := got.V.(L); ok && len(l) == 1 && got.Err == nil {
		return want.same(value(l[0]))
	}
	return false
}

type pathGraphCase struct {
	Vars [][]int `json:"vars"` // references between the variables
	At   string  `json:"at"`
	Dots []bool  `json:"dots"`
}

// Variables that refer to each other are used in the configuration
func runPathGraph(x *X, c pathGraphCase) (err error) {
	vars := M{}
	for i, to := range c.Vars {
		s := `f`
		for _, e := range to {
			s += fmt.Sprintf(`%%{v%d}`, e)
		}
		var v V = s
		if c.Dots[i] {
			v = M{`x`: L{s}}
		}
		vars[fmt.Sprintf(`v%d`, i)] = v
	}
	cyclic := reachesCycle(func(i int) []int { return c.Vars[i] }, 0)
	src := `%{v0}`
	w := World{Scope: Val{vars}, SessScope: Val{M{}}}
	l := Level{Name: `l`, LocKey: `path`, Locs: []string{`x.yaml`}}
	switch c.At {
	case `path`:
		l.Locs = []string{src + `.yaml`}
	case `glob`:
		l.LocKey, l.Locs = `glob`, []string{src + `*`}
	case `uri`:
		l.LocKey, l.Locs, l.Kind, l.Fn = `uri`, []string{src}, `lookup_key`, `environment`
	case `datadir`:
		l.Datadir = `d` + src
	case `mapped var`:
		l.LocKey, l.Locs = `mapped_paths`, []string{`v0`, `m`, `%{m}.yaml`}
	case `mapped template`:
		vars[`one`] = `1`
		l.LocKey, l.Locs = `mapped_paths`, []string{`one`, `m`, `%{m}` + src}
	case `mapped self`:
		l.LocKey, l.Locs = `mapped_paths`, []string{`v0`, `v0`, `%{v0}.yaml`}
	case `options`:
		l.Kind, l.Fn, l.LocKey, l.Locs, l.Opts = `lookup_key`, `environment`, ``, nil, &Val{M{`o`: L{src}}}
	}
	w.Cfg.Levels = []Level{l, {Name: `z`, LocKey: `path`, Locs: []string{`z.yaml`}, Datadir: `data`}}
	w.Files = []File{{Path: `data/z.yaml`, Data: Val{M{`plain`: `p`}}}}
	dir := x.Dir()
	w.write(dir)
	x.Label(`%s cyclic=%v`, c.At, cyclic)
	if cyclic || len(c.Vars[0]) > 0 {
		x.NonTrivial()
	}
	w.inSession(dir, func(s api.Session) {
		for i := 0; i < 3; i++ {
			var sc interface{} = w.scope()
			ok := !cyclic
			if i == 1 {
				// An invocation that hides the cycle
				sc, ok = toDMap(M{`v0`: `plain`, `one`: `1`}), true
			}
			got := capture(func() dgo.Value { return lookup(s.Invocation(sc, nil), `plain`, ``) })
			switch {
			case isRuntime(got.Err):
				err = fmt.Errorf(`lookup crashes: %v`, got.Err)
			case ok && !got.same(value(`p`)):
				err = fmt.Errorf(`lookup %d gives %s`, i, got)
			case !ok && got.Err == nil:
				err = fmt.Errorf(`lookup %d with variables that refer to each other gives %s`, i, got)
			}
			if err != nil {
				return
			}
		}
	})
	return
}

type chainCase struct {
	N    int    `json:"n"`
	Form string `json:"form"`
	Back int    `json:"back"` // where the last one refers to, or -1
	From int    `json:"from"`
}

// Long chains
func runChain(x *X, c chainCase) (err error) {
	d, vars := M{}, M{}
	for i := 0; i < c.N; i++ {
		var v V = `end`
		to := i + 1
		if i == c.N-1 {
			to = c.Back
		}
		if to >= 0 {
			v = fmt.Sprintf(c.Form, fmt.Sprintf(`k%d`, to))
		}
		d[fmt.Sprintf(`k%d`, i)] = v
		vars[fmt.Sprintf(`k%d`, i)] = v
	}
	w := World{Scope: Val{vars}, Cfg: Config{Levels: []Level{{Name: `a`, LocKey: `path`, Locs: []string{`a.yaml`}}}}, Files: []File{{Path: `data/a.yaml`, Data: Val{d}}}}
	dir := x.Dir()
	w.write(dir)
	x.NonTrivial()
	x.Label(`cyclic=%v`, c.Back >= 0)
	want := value(`end`)
	if c.Back >= 0 {
		want = Res{Err: fmt.Errorf(`recursion`)}
	}
	got := w.lookup(dir, fmt.Sprintf(`k%d`, c.From%c.N), ``)
	if isRuntime(got.Err) || !got.same(want) {
		err = differ(`lookup`, got, want)
	}
	return
}

type fnGraphCase struct {
	Edges [][]int  `json:"edges"`
	How   []string `json:"how"` // yaml, lookup_key, data_dig, top
	Via   []string `json:"via"` // lookup or interpolate
	Order []int    `json:"order"`
	Mux   bool     `json:"mux"`
}

// runFnGraph is for values that are computed by functions that do lookups
func runFnGraph(x *X, c fnGraphCase) (err error) {
	kn := func(i int) string { return fmt.Sprintf(`k%d`, i) }
	val := map[string]int{}
	d := M{`plain`: `p`}
	for i := range c.Edges {
		val[kn(i)] = i
		if c.How[i] == `yaml` {
			s := fmt.Sprintf(`<%d`, i)
			for _, e := range c.Edges[i] {
				s += fmt.Sprintf(`%%{lookup('%s')}`, kn(e))
			}
			d[kn(i)] = s + `>`
		}
	}
	calls := 0
	compute := func(how string, pc sdk.ProviderContext, key string) dgo.Value {
		i, ok := val[key]
		if !ok || c.How[i] != how {
			return nil
		}
		if calls++; calls > 100000 {
			panic(infra{fmt.Errorf(`too many calls`)})
		}
		sc := pc.(api.ServerContext)
		s := fmt.Sprintf(`<%d`, i)
		for _, e := range c.Edges[i] {
			if c.Via[i] == `scoped` {
				// The variable of the outer scope is being interpolated. This is another one
				sc.Invocation().DoWithScope(vf.Map(`v`, `%{lookup('`+kn(e)+`')}`), func() {
					s += sc.Interpolate(vf.String(`%{v}`)).String()
				})
			} else if c.Via[i] == `lookup` {
				if v := sc.Invocation().Lookup(api.NewKey(kn(e)), nil); v != nil {
					s += v.String()
				}
			} else {
				s += sc.Interpolate(vf.String(`%{lookup('` + kn(e) + `')}`)).String()
			}
		}
		return vf.String(s + `>`)
	}
	w := World{Scope: Val{M{}}, SessScope: Val{M{}}, Files: []File{{Path: `data/a.yaml`, Data: Val{d}}}}
	w.Cfg.Levels = []Level{{Name: `f`, Kind: `lookup_key`, Fn: `fkey`}, {Name: `a`, LocKey: `path`, Locs: []string{`a.yaml`}}, {Name: `g`, Kind: `data_dig`, Fn: `fdig`}}
	dir := x.Dir()
	w.write(dir)
	tp, o := w.options(dir)
	o[api.HieraFunctions] = map[string]interface{}{
		`fkey`: vf.Value(func(pc sdk.ProviderContext, key string) dgo.Value { return compute(`lookup_key`, pc, key) }),
		`fdig`: vf.Value(func(pc sdk.ProviderContext, key dgo.Array) dgo.Value {
			return compute(`data_dig`, pc, key.Get(0).String())
		})}
	top := func(pc sdk.ProviderContext, key string) dgo.Value {
		if pc.(api.ServerContext).Invocation().LookupOptionsMode() {
			return nil
		}
		return compute(`top`, pc, key)
	}
	if c.Mux {
		tp = provider.MuxLookupKey
		o[provider.LookupKeyFunctions] = []sdk.LookupKey{top, provider.ConfigLookupKey}
	}
	edges := func(i int) []int {
		if c.How[i] == `top` && !c.Mux {
			return nil
		}
		return c.Edges[i]
	}
	var text func(i int) string
	text = func(i int) string {
		if c.How[i] == `top` && !c.Mux {
			return ``
		}
		s := fmt.Sprintf(`<%d`, i)
		for _, e := range c.Edges[i] {
			s += text(e)
		}
		return s + `>`
	}
	withSession(tp, o, func(s api.Session) {
		ic := s.Invocation(nil, nil)
		for _, k := range c.Order {
			var want Res
			switch {
			case reachesCycle(edges, k):
				want.Err = fmt.Errorf(`recursion`)
				x.NonTrivial()
				x.Label(`cyclic`)
			case c.How[k] == `top` && !c.Mux:
			default:
				want = value(text(k))
				x.Label(`acyclic`)
				if len(c.Edges[k]) > 1 {
					x.NonTrivial()
				}
			}
			got := capture(func() dgo.Value { return lookup(ic, kn(k), ``) })
			if isRuntime(got.Err) || !got.same(want) {
				err = differ(`lookup of `+kn(k), got, want)
				return
			}
			if p := capture(func() dgo.Value { return lookup(ic, `plain`, ``) }); !p.same(value(`p`)) {
				err = fmt.Errorf(`lookup of a plain key after %s gives %s`, kn(k), p)
				return
			}
		}
	})
	return
}

func genFnGraph(t *rapid.T) fnGraphCase {
	c := fnGraphCase{Mux: chance(t, 4, `mux`)}
	n := rapid.IntRange(1, 5).Draw(t, `n`)
	acyclic := rapid.Bool().Draw(t, `acyclic`)
	for i := 0; i < n; i++ {
		var to []int
		for j := rapid.IntRange(0, 3).Draw(t, `edges`); j > 0; j-- {
			if !acyclic {
				to = append(to, rapid.IntRange(0, n-1).Draw(t, `edge`))
			} else if i < n-1 {
				to = append(to, rapid.IntRange(i+1, n-1).Draw(t, `edge`))
			}
		}
		c.Edges = append(c.Edges, to)
		c.How = append(c.How, pick(t, `how`, `yaml`, `lookup_key`, `data_dig`, `top`))
		c.Via = append(c.Via, pick(t, `via`, `lookup`, `interpolate`, `scoped`))
	}
	for i := rapid.IntRange(1, 4).Draw(t, `lookups`); i > 0; i-- {
		c.Order = append(c.Order, rapid.IntRange(0, n-1).Draw(t, `k`))
	}
	return c
}

func init() {
	register(&Property{
		ID: `C08`,
		Rule: `A case is a graph of up to six keys and four variables whose values, of any structure, refer to each other by lookup, hiera, alias,
strict_alias, scope and plain expressions, with or without subkeys, defined in files, as variables, by the scope function or computed by functions that do lookups, and a sequence
of lookups in one session. The lookup must fail exactly when a cycle can be reached in the graph. Non-trivial: a cycle is reachable, or the
key that is looked up has several references.`,
		Subs: []subCheck{
			Spec[graphCase]{Name: `graphs`, Quick: 2500, Thorough: 80000, Gen: genGraph, Run: runGraph},
			Spec[pathGraphCase]{Name: `config`, Quick: 800, Thorough: 20000, Gen: func(t *rapid.T) pathGraphCase {
				n := rapid.IntRange(1, 4).Draw(t, `n`)
				c := pathGraphCase{At: pick(t, `at`, `path`, `glob`, `uri`, `datadir`, `mapped var`, `mapped template`, `options`)}
				acyclic := rapid.Bool().Draw(t, `acyclic`)
				for i := 0; i < n; i++ {
					var to []int
					for j := rapid.IntRange(0, 2).Draw(t, `edges`); j > 0; j-- {
						if !acyclic {
							to = append(to, rapid.IntRange(0, n-1).Draw(t, `edge`))
						} else if i < n-1 {
							to = append(to, rapid.IntRange(i+1, n-1).Draw(t, `edge`))
						}
					}
					c.Vars = append(c.Vars, to)
					c.Dots = append(c.Dots, false)
				}
				return c
			}, Run: runPathGraph},
			Spec[fnGraphCase]{Name: `functions`, Quick: 800, Thorough: 20000, Gen: genFnGraph, Run: runFnGraph},
			Spec[chainCase]{Name: `chains`, Quick: 100, Thorough: 1000, Gen: func(t *rapid.T) chainCase {
				n := rapid.IntRange(1, 150).Draw(t, `n`)
				if chance(t, 1, `longer`) {
					n += pick(t, `more`, 200, 500, 1000)
				}
				return chainCase{N: n, Form: pick(t, `form`, `%%{lookup('%s')}`, `%%{alias('%s')}`, `%%{%s}`, `%%{scope('%s')}`), Back: rapid.IntRange(-n, n-1).Draw(t, `back`), From: rapid.IntRange(0, n-1).Draw(t, `from`)}
			}, Run: runChain},
		},
	})
}
