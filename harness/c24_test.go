package harness

import (
	"fmt"
	"strings"
	"sync"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/explain"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/provider"
	sdk "github.com/lyraproj/hierasdk/hiera"
	"pgregory.net/rapid"
)

// CtxOp is something that a lookup function does with its context
type CtxOp struct {
	Op  string `json:"op"`
	K   string `json:"k,omitempty"`
	V   Val    `json:"v"`
	Via string `json:"via,omitempty"` // derived context
}

type ctxStep struct {
	S       int     `json:"s"`
	I       int     `json:"i"`
	Where   string  `json:"where"` // lk, dd, dh or top
	Explain bool    `json:"explain,omitempty"`
	Within  *Val    `json:"within,omitempty"` // nested scope
	Opt     *Val    `json:"opt,omitempty"`    // lookup options
	Ops     []CtxOp `json:"ops"`
}

type ctxCase struct {
	Opts   map[string]Val `json:"opts"` // of the levels
	Scopes []Val          `json:"scopes"`
	Mux    bool           `json:"mux,omitempty"`
	Steps  []ctxStep      `json:"steps"`
}

var ctxKeys = []string{`a`, `b`, ``, `c d`, `1`, `env`, `Hiera::Path`, `åäö`}

func genCtxOps(t *rapid.T, max int) (ops []CtxOp) {
	for i := rapid.IntRange(1, max).Draw(t, `nops`); i > 0; i-- {
		o := CtxOp{Op: pick(t, `op`, `set`, `set`, `set`, `get`, `get`, `get`, `all`, `entries`, `interpolate`, `option`, `explain`, `scope`), K: pick(t, `k`, ctxKeys...), Via: pick(t, `via`, ``, ``, ``, `data`, `options`)}
		switch o.Op {
		case `set`:
			o.V = Val{genValue(2).Draw(t, `v`)}
		case `all`:
			m := M{}
			for j := rapid.IntRange(0, 3).Draw(t, `n`); j > 0; j-- {
				k := pick(t, `ak`, ctxKeys...)
				if chance(t, 2, `int`) {
					k = intKey + `1`
					delete(m, `1`)
				} else if k == `1` {
					delete(m, intKey+`1`)
				}
				m[k] = genValue(1).Draw(t, `v`)
			}
			if rapid.IntRange(0, 30).Draw(t, `manyentries`) == 17 {
				for j := genSize(t, 300); j > 0; j-- {
					m[fmt.Sprintf(`many%d`, j)] = int64(j)
				}
			}
			o.V = Val{m}
		case `interpolate`:
			o.V = Val{pick[V](t, `text`, `<%{env}>`, `%{role} %{os}`, L{`%{env}`}, M{`%{env}`: `%{lookup('plain')}`}, `%{alias('plain')}`, int64(1))}
		}
		ops = append(ops, o)
	}
	return
}

func genCtxCase(t *rapid.T) ctxCase {
	c := ctxCase{Opts: map[string]Val{}, Mux: rapid.Bool().Draw(t, `mux`)}
	for _, w := range []string{`lk`, `dd`, `dh`} {
		m := M{}
		for i := rapid.IntRange(0, 3).Draw(t, `nopt`); i > 0; i-- {
			m[pick(t, `opt`, `a`, `b`, `x_y`)] = jsonSafe(genValue(1).Draw(t, `v`))
		}
		c.Opts[w] = Val{m}
	}
	for i := 0; i < 3; i++ {
		s, _ := genScope(t)
		c.Scopes = append(c.Scopes, Val{s})
	}
	for i := rapid.IntRange(2, 10).Draw(t, `nsteps`); i > 0; i-- {
		s := ctxStep{S: rapid.IntRange(0, 1).Draw(t, `s`), I: rapid.IntRange(0, 2).Draw(t, `i`), Where: pick(t, `where`, `lk`, `dd`, `dh`, `top`), Explain: chance(t, 3, `explain`)}
		if chance(t, 2, `within`) {
			v, _ := genScope(t)
			s.Within = &Val{v}
		}
		if chance(t, 3, `luopts`) {
			s.Opt = &Val{pick[V](t, `merge`, M{`merge`: `unique`}, M{`merge`: `first`, `a`: int64(7)}, M{`b`: `x`})}
		}
		s.Ops = genCtxOps(t, 6)
		c.Steps = append(c.Steps, s)
	}
	return c
}

// ctxRun is the step in progress
type ctxRun struct {
	step  *ctxStep
	key   string
	ran   bool
	err   error
	texts []string
}

// perform does what the step says and compares with the model of the cache
func (r *ctxRun) perform(pc sdk.ProviderContext, cache M, opts M, vars M) {
	if r.ran {
		return
	}
	r.ran = true
	fail := func(o *CtxOp, format string, args ...interface{}) {
		if r.err == nil {
			r.err = fmt.Errorf(`%s %q in %s: %s`, o.Op, o.K, r.step.Where, fmt.Sprintf(format, args...))
		}
	}
	for i := range r.step.Ops {
		o := &r.step.Ops[i]
		sc, ok := pc.(api.ServerContext)
		if !ok {
			fail(o, `the context is a %T`, pc)
			return
		}
		switch o.Via {
		case `data`:
			sc = sc.ForData()
		case `options`:
			sc = sc.ForLookupOptions()
		}
		same := func(got dgo.Value, want V, has bool) {
			if !has {
				if got != nil {
					fail(o, `gives %s, want nothing`, show(toV(got)))
				}
				return
			}
			if got == nil || !eq(toV(got), want) {
				fail(o, `gives %s, want %s`, show(toV(got)), show(want))
			}
		}
		switch o.Op {
		case `set`:
			old, has := cache[o.K]
			same(sc.Cache(o.K, toD(o.V.V)), old, has)
			cache[o.K] = o.V.V
		case `get`:
			v, ok := sc.CachedValue(o.K)
			want, has := cache[o.K]
			if ok != has {
				fail(o, `is present: %t, want %t`, ok, has)
			}
			same(v, want, has)
		case `all`:
			m := o.V.V.(M)
			sc.CacheAll(toDMap(m))
			for k, v := range m {
				cache[strings.TrimPrefix(k, intKey)] = v
			}
		case `entries`:
			got := M{}
			sc.CachedEntries(func(k string, v dgo.Value) {
				if _, ok := got[k]; ok {
					fail(o, `gives %q twice`, k)
				}
				got[k] = toV(v)
			})
			if !eq(got, cache) {
				fail(o, `gives %s, want %s`, show(got), show(cache))
			}
		case `interpolate`:
			same(sc.Interpolate(toD(o.V.V)), expandCtx(o.V.V, vars), true)
		case `option`:
			for _, k := range []string{o.K, `a`, `b`, `x_y`, `merge`} {
				want, has := opts[k]
				same(sc.Option(k), want, has)
			}
		case `scope`:
			for _, k := range []string{`env`, `os`, `role`, `nosuch`} {
				want, has := vars[k]
				same(sc.Invocation().Scope().Get(k), want, has)
			}
		case `explain`:
			called := false
			text := fmt.Sprintf(`note %d of %s`, i, r.key)
			sc.Explain(func() string {
				called = true
				return text
			})
			if called && !r.step.Explain {
				fail(o, `produces a message although nothing is explained`)
			}
			if called {
				r.texts = append(r.texts, text)
			} else if r.step.Explain && o.Via != `options` {
				fail(o, `doesn't produce a message`)
			}
		}
	}
}

// expandCtx knows what the few texts denote
func expandCtx(v V, vars M) V {
	str := func(n string) string {
		if s, ok := vars[n].(string); ok {
			return s
		}
		return ``
	}
	switch v := v.(type) {
	case string:
		switch v {
		case `<%{env}>`:
			return `<` + str(`env`) + `>`
		case `%{role} %{os}`:
			return str(`role`) + ` ` + str(`os`)
		case `%{alias('plain')}`:
			return L{int64(1), `plain`}
		}
	case L:
		return L{str(`env`)}
	case M:
		return M{str(`env`): `{1,"plain"}`}
	}
	return v
}

func runCtx(x *X, c ctxCase) error {
	var w World
	w.Cfg.Levels = []Level{{Name: `lk`, Kind: `lookup_key`, Fn: `lk`}, {Name: `dd`, Kind: `data_dig`, Fn: `dd`}, {Name: `dh`, Kind: `data_hash`, Fn: `dh`}, {Name: `y`, LocKey: `path`, Locs: []string{`y.yaml`}}}
	for i, n := range []string{`lk`, `dd`, `dh`} {
		o := c.Opts[n]
		w.Cfg.Levels[i].Opts = &o
	}
	w.Files = []File{{Path: `data/y.yaml`, Data: Val{M{`plain`: L{int64(1), `plain`}}}}}
	w.write(x.Dir())

	var cur *ctxRun
	var cache, vars M
	done := func() dgo.Value { return vf.String(`done`) }
	fns := map[string]interface{}{
		`lk`: vf.Value(func(pc sdk.ProviderContext, key string) dgo.Value {
			if cur == nil || cur.step.Where != `lk` || key != cur.key {
				return nil
			}
			cur.perform(pc, cache, c.Opts[`lk`].V.(M), vars)
			return done()
		}),
		`dd`: vf.Value(func(pc sdk.ProviderContext, key dgo.Array) dgo.Value {
			if cur == nil || cur.step.Where != `dd` || !key.Get(0).Equals(cur.key) {
				return nil
			}
			cur.perform(pc, cache, c.Opts[`dd`].V.(M), vars)
			return done()
		}),
		`dh`: vf.Value(func(pc sdk.ProviderContext) dgo.Value {
			if cur != nil && cur.step.Where == `dh` {
				// No lookups may be made here
				saved := cur.step.Ops
				ops := []CtxOp{}
				for _, o := range saved {
					if o.Op != `interpolate` && o.Op != `explain` {
						ops = append(ops, o)
					}
				}
				s := *cur.step
				s.Ops = ops
				cur.step = &s
				cur.perform(pc, cache, c.Opts[`dh`].V.(M), vars)
			}
			return vf.Map(`always`, 1)
		}),
	}
	top := func(pc sdk.ProviderContext, key string) dgo.Value {
		if c.Mux && pc.(api.ServerContext).Invocation().LookupOptionsMode() {
			// The mux asks for the lookup options of the key
			return nil
		}
		if cur != nil && cur.step.Where == `top` && key == cur.key {
			opts := M{}
			if cur.step.Opt != nil {
				opts = cur.step.Opt.V.(M)
			}
			cur.perform(pc, cache, opts, vars)
			return done()
		}
		if c.Mux {
			return nil
		}
		return provider.ConfigLookupKey(pc, key)
	}
	tp, o := w.options(x.Dir())
	o[api.HieraFunctions] = fns
	if c.Mux {
		x.Label(`mux`)
		tp = provider.MuxLookupKey
		o[provider.LookupKeyFunctions] = []sdk.LookupKey{top, provider.ConfigLookupKey}
	} else {
		tp = top
	}
	type inv struct{ s, i int }
	sessions := map[int]api.Session{}
	invs := map[inv]api.Invocation{}
	exps := map[inv]api.Explainer{}
	caches := map[int]M{}
	ran := 0
	var err error
	withSession(tp, o, func(s0 api.Session) {
		withSession(tp, o, func(s1 api.Session) {
			sessions[0], sessions[1] = s0, s1
			for n := range c.Steps {
				st := &c.Steps[n]
				id := inv{st.S, st.I}
				if caches[st.S] == nil {
					caches[st.S] = M{}
				}
				if st.Explain || invs[id] == nil || exps[id] != nil {
					exps[id] = nil
					var ex api.Explainer
					if st.Explain {
						ex = explain.NewExplainer(false, false)
						exps[id] = ex
					}
					invs[id] = sessions[st.S].Invocation(toDMap(c.Scopes[st.I].V.(M)), ex)
				}
				cur = &ctxRun{step: st, key: fmt.Sprintf(`s%d`, n)}
				if st.Where == `dh` {
					cur.key = `always`
				}
				cache, vars = caches[st.S], c.Scopes[st.I].V.(M)
				look := func() dgo.Value {
					if st.Opt != nil {
						return hiera.Lookup(invs[id], cur.key, nil, toDMap(st.Opt.V.(M)))
					}
					return hiera.Lookup(invs[id], cur.key, nil, nil)
				}
				r := capture(func() (v dgo.Value) {
					if st.Within == nil {
						return look()
					}
					m := M{}
					for k, v := range vars {
						m[k] = v
					}
					for k, v := range st.Within.V.(M) {
						m[k] = v
					}
					vars = m
					invs[id].DoWithScope(toDMap(m), func() { v = look() })
					return
				})
				if cur.ran {
					x.Label(`%s`, st.Where)
					ran++
				}
				if cur.err == nil {
					switch {
					case r.Err != nil || !r.Found:
						cur.err = fmt.Errorf(`the lookup gives %s`, r)
					case !cur.ran && st.Where != `dh`:
						cur.err = fmt.Errorf(`the function isn't called`)
					}
				}
				// Texts are shown for levels only
				if cur.err == nil && st.Explain && st.Where != `top` {
					text := exps[id].String()
					for _, s := range cur.texts {
						if !strings.Contains(text, s) {
							cur.err = fmt.Errorf("the explanation\n%s\ndoesn't contain %q", text, s)
						}
					}
				}
				if cur.err != nil {
					err = fmt.Errorf(`step %d: %w`, n, cur.err)
					return
				}
				cur = nil
			}
		})
	})
	if ran > 1 {
		x.NonTrivial()
	}
	return err
}

// ---- concurrent use

type ctxThreads struct {
	Threads [][]CtxOp `json:"threads"`
}

func genCtxThreads(t *rapid.T) (c ctxThreads) {
	for i := rapid.IntRange(2, 8).Draw(t, `threads`); i > 0; i-- {
		ops := genCtxOps(t, 12)
		for j := range ops {
			switch ops[j].Op {
			case `set`, `get`, `all`, `entries`:
			default:
				ops[j].Op = `get`
			}
		}
		c.Threads = append(c.Threads, ops)
	}
	return
}

// runCtxThreads lets each goroutine use keys of its own in the shared cache
func runCtxThreads(x *X, c ctxThreads) error {
	w := World{Cfg: Config{Levels: []Level{{Name: `lk`, Kind: `lookup_key`, Fn: `lk`}}}}
	w.write(x.Dir())
	errs := make([]error, len(c.Threads))
	all := M{}
	var lock sync.Mutex
	tp, o := w.options(x.Dir())
	o[api.HieraFunctions] = map[string]interface{}{`lk`: vf.Value(func(pc sdk.ProviderContext, key string) dgo.Value {
		if !strings.HasPrefix(key, `t`) {
			return nil
		}
		n := int(key[1] - '0')
		pfx := key + `:`
		own := M{}
		sc := pc.(api.ServerContext)
		for i, op := range c.Threads[n] {
			fail := func(got, want V) {
				if errs[n] == nil {
					errs[n] = fmt.Errorf(`operation %d of goroutine %d, %s %q, gives %s, want %s`, i, n, op.Op, op.K, show(got), show(want))
				}
			}
			switch op.Op {
			case `set`:
				if got, want := toV(sc.Cache(pfx+op.K, toD(op.V.V))), own[op.K]; !eq(got, want) {
					fail(got, want)
				}
				own[op.K] = op.V.V
			case `get`:
				v, ok := sc.CachedValue(pfx + op.K)
				want, has := own[op.K]
				if ok != has || !eq(toV(v), want) {
					fail(toV(v), want)
				}
			case `all`:
				m := vf.MutableMap()
				for k, v := range op.V.V.(M) {
					k = strings.TrimPrefix(k, intKey)
					own[k] = v
					m.Put(pfx+k, toD(v))
				}
				sc.CacheAll(m)
			case `entries`:
				got := M{}
				sc.CachedEntries(func(k string, v dgo.Value) {
					if strings.HasPrefix(k, pfx) {
						if _, ok := got[k[len(pfx):]]; ok {
							fail(`twice`, k)
						}
						got[k[len(pfx):]] = toV(v)
					}
				})
				if !eq(got, own) {
					fail(got, own)
				}
			}
		}
		lock.Lock()
		for k, v := range own {
			all[pfx+k] = v
		}
		lock.Unlock()
		return vf.Integer(int64(n))
	})}
	var err error
	withSession(tp, o, func(s api.Session) {
		var wg sync.WaitGroup
		start := make(chan bool)
		for i := range c.Threads {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-start
				r := capture(func() dgo.Value { return lookup(s.Invocation(nil, nil), fmt.Sprintf(`t%d`, i), ``) })
				if errs[i] == nil && !r.same(value(int64(i))) {
					errs[i] = fmt.Errorf(`goroutine %d gives %s`, i, r)
				}
			}(i)
		}
		close(start)
		wg.Wait()
		for _, e := range errs {
			if e != nil {
				err = e
				return
			}
		}
		got := M{}
		s.Invocation(nil, nil).ServerContext(nil).CachedEntries(func(k string, v dgo.Value) { got[k] = toV(v) })
		if !eq(got, all) {
			err = fmt.Errorf(`the cache has %s, want %s`, show(got), show(all))
		}
	})
	if len(all) > 1 {
		x.NonTrivial()
	}
	return err
}

// ---- concurrent use of the same keys

type ctxRace struct {
	Threads int `json:"threads"`
	Keys    int `json:"keys"`
	Rounds  int `json:"rounds"`
}

// runCtxRace lets goroutines store values of their own using the same keys. A value that was stored first has no previous
// value, so exactly one goroutine gets none, and all others get what some other goroutine stored, or what it stored itself
// earlier.
func runCtxRace(x *X, c ctxRace) (err error) {
	w := World{Cfg: Config{Levels: []Level{{Name: `lk`, Kind: `lookup_key`, Fn: `lk`}}}}
	w.write(x.Dir())
	var lock sync.Mutex
	var wg, ready sync.WaitGroup
	firsts := map[string]int{}
	tp, o := w.options(x.Dir())
	ready.Add(c.Threads)
	o[api.HieraFunctions] = map[string]interface{}{`lk`: vf.Value(func(pc sdk.ProviderContext, key string) dgo.Value {
		if !strings.HasPrefix(key, `t`) {
			return nil
		}
		sc := pc.(api.ServerContext)
		own := map[string]int{}
		var bad error
		ready.Done()
		ready.Wait()
		for r := 0; r < c.Rounds; r++ {
			for i := 0; i < c.Keys; i++ {
				k := fmt.Sprintf(`k%d`, i)
				old := sc.Cache(k, vf.Strings(k, key))
				switch a, ok := old.(dgo.Array); {
				case old == nil:
					own[k]++
				case !ok || a.Len() != 2 || !a.Get(0).Equals(k):
					bad = fmt.Errorf(`the previous value of %s is %s`, k, old)
				}
				if v, ok := sc.CachedValue(k); !ok || v == nil || !v.(dgo.Array).Get(0).Equals(k) {
					bad = fmt.Errorf(`%s has the value %v`, k, v)
				}
			}
		}
		lock.Lock()
		defer lock.Unlock()
		for k, n := range own {
			firsts[k] += n
		}
		if bad != nil {
			err = bad
		}
		return vf.String(key)
	})}
	withSession(tp, o, func(s api.Session) {
		for i := 0; i < c.Threads; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				k := fmt.Sprintf(`t%d`, i)
				if r := capture(func() dgo.Value { return lookup(s.Invocation(nil, nil), k, ``) }); !r.same(value(k)) {
					lock.Lock()
					err = fmt.Errorf(`goroutine %d gives %s`, i, r)
					lock.Unlock()
				}
			}(i)
		}
		wg.Wait()
	})
	for i := 0; i < c.Keys && err == nil; i++ {
		if n := firsts[fmt.Sprintf(`k%d`, i)]; n != 1 {
			err = fmt.Errorf(`%d of the calls that stored a value for k%d got no previous value`, n, i)
		}
	}
	x.NonTrivial()
	return
}

func init() {
	register(&Property{
		ID: `C24`,
		Rule: `histories: lookups through any of three invocations in each of two sessions call lookup_key, data_dig, data_hash or top level functions
that perform random operations on their context, or on contexts derived from it: storing, storing all, reading and enumerating cached values,
interpolating, and reading options and scope. All results are compared with a map per session, the options of the level or lookup, and the scope in
effect, which may be nested. Non-trivial when two functions or more perform operations. threads: goroutines use keys of their own in the cache of one
session, under the race detector, each compares with its own map and all entries must be there in the end. Non-trivial when two entries are stored.
first: goroutines store values using the same keys; exactly one call per key may see that there was no previous value.`,
		Assumptions: []string{`two concurrent calls that replace the value of a key may get the same previous value`},
		Subs: []subCheck{
			Spec[ctxCase]{Name: `histories`, Quick: 1500, Thorough: 60000, Gen: genCtxCase, Run: runCtx},
			Spec[ctxThreads]{Name: `threads`, Quick: 500, Thorough: 20000, Gen: genCtxThreads, Run: runCtxThreads},
			Spec[ctxRace]{Name: `first`, Quick: 60, Thorough: 2000, Gen: func(t *rapid.T) ctxRace {
				return ctxRace{rapid.IntRange(2, 8).Draw(t, `threads`), rapid.IntRange(50, 400).Draw(t, `keys`), rapid.IntRange(1, 2).Draw(t, `rounds`)}
			}, Run: runCtxRace},
		},
	})
}
