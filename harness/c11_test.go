package harness

import (
	"errors"
	"fmt"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	sdk "github.com/lyraproj/hierasdk/hiera"
	"pgregory.net/rapid"
)

// ScopeOp is an operation on an invocation of a session. It's either a lookup, a read of a variable, or a DoWithScope with
// a body.
type ScopeOp struct {
	Inv   int       `json:"inv"`
	Key   string    `json:"key,omitempty"`
	Var   string    `json:"var,omitempty"`
	Scope *Val      `json:"scope,omitempty"`
	Body  []ScopeOp `json:"body,omitempty"`
	Panic bool      `json:"panic,omitempty"`
	Ref   int       `json:"ref,omitempty"` // scope to use again
}

type scopeCase struct {
	W      World     `json:"w"`
	Scopes []Val     `json:"scopes"` // of the invocations
	Forms  []int     `json:"forms"`  // how the scopes are passed
	Ops    []ScopeOp `json:"ops"`
	Late   *Val      `json:"late,omitempty"` // what the caller puts in its own map after the session is created with it
}

var scopeVars = []string{`env`, `os`, `role`, `roles`, `facts`, `v1`}

func genVarValue(t *rapid.T) V {
	switch rapid.IntRange(0, 7).Draw(t, `vform`) {
	case 0, 1, 2:
		return pick(t, `vs`, pathVals...)
	case 3:
		return pick[V](t, `vo`, nil, false, int64(0), int64(3), ``, 1.5)
	case 4:
		return pick(t, `vi`, `%{os}`, `p%{env}`, `%{facts.a}`, `%{role}-%{v1}`, `%{scope('role')}`)
	case 5:
		return L{pick(t, `e0`, pathVals...), pick[V](t, `e1`, `a`, `%{env}`, int64(1))}
	default:
		m := M{`a`: pick[V](t, `ma`, `a`, `%{os}`, L{`x`, `b`})}
		if chance(t, 1, `two`) {
			m[`b`] = genScalar().Draw(t, `mb`)
		}
		return m
	}
}

func genVars(t *rapid.T, n int) M {
	m := M{}
	for i := rapid.IntRange(0, n).Draw(t, `nvars`); i > 0; i-- {
		m[pick(t, `var`, scopeVars...)] = genVarValue(t)
	}
	return m
}

func genScopeData(t *rapid.T) V {
	return pick[V](t, `data`, `%{env}`, `%{os}/%{role}`, `x`, `%{facts.a}`, `%{scope('facts.a')}`, `%{roles.0}`, `%{v1}`, `<%{v1}>`, M{`%{env}`: L{`%{os}`}}, L{`%{role}`, `%{facts.a.1}`}, `%{lookup('k2')}`, `%{alias('env')}`, nil)
}

func genScopeOps(t *rapid.T, depth, n int, invs int) []ScopeOp {
	var ops []ScopeOp
	for i := rapid.IntRange(1, n).Draw(t, `nops`); i > 0; i-- {
		op := ScopeOp{Inv: rapid.IntRange(0, invs-1).Draw(t, `inv`)}
		switch k := rapid.IntRange(0, 9).Draw(t, `op`); {
		case k <= 4 || depth == 0:
			op.Key = pick(t, `key`, `k0`, `k1`, `k2`, `k0.a`, `env`, `os`, `role`, `roles`, `facts`, `facts.a`, `v1`, `opts`, `missing`)
		case k == 5:
			op.Var = pick(t, `var`, scopeVars...)
		default:
			op.Scope = &Val{genVars(t, 4)}
			op.Body = genScopeOps(t, depth-1, 4, invs)
			op.Panic = chance(t, 3, `panic`)
		}
		ops = append(ops, op)
	}
	return ops
}

func genScopeCase(t *rapid.T) scopeCase {
	var c scopeCase
	c.W = genWorld(t, worldOpts{maxLevels: 3, values: genScopeData, keys: []string{`k0`, `k1`, `k2`}, noGlob: chance(t, 5, `noglob`)})
	c.W.SessScope = Val{genVars(t, 5)}
	c.W.Scope = Val{}
	n := rapid.IntRange(1, 3).Draw(t, `invs`)
	for i := 0; i < n; i++ {
		c.Scopes = append(c.Scopes, Val{genVars(t, 4)})
		c.Forms = append(c.Forms, rapid.IntRange(0, 3).Draw(t, `form`))
	}
	extra := []Level{{Name: `scope`, Kind: `lookup_key`, Fn: `scope`}}
	if chance(t, 7, `optlevel`) {
		l := Level{Name: `opts`, Kind: `data_hash`, Fn: `optfn`, Opts: &Val{M{`a`: `%{env}`, `b`: L{`%{os}`, M{`%{role}`: `%{facts.a}`}}}}}
		if chance(t, 5, `uri`) {
			l.LocKey, l.Locs = `uris`, []string{`http://%{env}/%{v1}`, `u:%{os}`}
		}
		extra = append(extra, l)
	}
	if chance(t, 5, `before`) {
		c.W.Cfg.Levels = append(extra, c.W.Cfg.Levels...)
	} else {
		c.W.Cfg.Levels = append(c.W.Cfg.Levels, extra...)
	}
	c.Ops = genScopeOps(t, 3, 6, n)
	if chance(t, 3, `late`) {
		c.Late = &Val{genVars(t, 3)}
	}
	return c
}

// optFn is a data_hash function that has the options of its level as data
func optFn(pc sdk.ProviderContext) dgo.Value {
	return vf.Map(`opts`, pc.OptionsMap())
}

var errDeliberate = errors.New(`deliberate`)

type scopeRun struct {
	c      *scopeCase
	x      *X
	dir    string
	s      api.Session
	invs   []api.Invocation
	models []*model
	given  []givenMap
	hasUri bool
}

// givenMap is a map that was passed as an argument, and what it held then
type givenMap struct {
	m  dgo.Map
	gm map[string]interface{}
	v  V
	fz bool // it was frozen when it was passed
}

func (g *givenMap) check() error {
	var now V
	if g.m != nil {
		now = toV(g.m)
		if g.m.Frozen() && !g.fz {
			return fmt.Errorf(`a scope that was passed by the caller, %s, is frozen`, show(g.v))
		}
	} else {
		now = toV(vf.Value(g.gm))
	}
	if !eq(now, g.v) {
		return fmt.Errorf(`a scope that was passed by the caller is changed from %s to %s`, show(g.v), show(now))
	}
	return nil
}

func (r *scopeRun) run(ops []ScopeOp, depth int) error {
	for i := range ops {
		op := &ops[i]
		ic, m := r.invs[op.Inv], r.models[op.Inv]
		switch {
		case op.Key != ``:
			want := m.lookup(op.Key, ``)
			got := capture(func() dgo.Value { return lookup(ic, op.Key, ``) })
			if isRuntime(got.Err) {
				return fmt.Errorf(`lookup of %s crashes: %v`, op.Key, got.Err)
			}
			if want.Unsure {
				r.x.Label(`unsure`)
				continue
			}
			if !got.same(want) {
				return differ(fmt.Sprintf(`lookup of %s by invocation %d at depth %d with variables %s`, op.Key, op.Inv, depth, show(m.vars)), got, want)
			}
			if want.Found {
				r.x.Label(`found at depth %d`, depth)
			}
			if want.Err != nil {
				r.x.Label(`error`)
			}
		case op.Var != ``:
			var got, want Res
			got = capture(func() dgo.Value { return ic.Scope().Get(vf.String(op.Var)) })
			if v, ok := m.vars[op.Var]; ok {
				want = value(v)
			}
			if !got.same(want) {
				return differ(fmt.Sprintf(`variable %s of invocation %d at depth %d`, op.Var, op.Inv, depth), got, want)
			}
		default:
			vars := op.Scope.V.(M)
			sm := toDMap(vars)
			r.given = append(r.given, givenMap{m: sm, v: cp(vars)})
			old := m.vars
			m.vars = cp(vars).(M)
			var err error
			called := 0
			res := capture(func() dgo.Value {
				ic.DoWithScope(sm, func() {
					called++
					err = r.run(op.Body, depth+1)
					if err == nil && op.Panic {
						panic(errDeliberate)
					}
				})
				return nil
			})
			m.vars = old
			if err != nil {
				return err
			}
			if called != 1 {
				return fmt.Errorf(`the function given to DoWithScope was called %d times`, called)
			}
			if op.Panic != (res.Err != nil) || op.Panic && res.Err != errDeliberate {
				return fmt.Errorf(`DoWithScope ends with %v when its function panics=%v`, res.Err, op.Panic)
			}
			if op.Panic {
				r.x.Label(`panic in scope`)
			}
			r.x.NonTrivial()
		}
	}
	return nil
}

func runScope(x *X, c scopeCase) error {
	dir := x.Dir()
	c.W.write(dir)
	r := &scopeRun{c: &c, x: x, dir: dir}
	optfn := func(opts M, _ string) V { return M{`opts`: opts} }
	for i := range c.Scopes {
		w := c.W
		w.Scope = Val{cp(c.Scopes[i].V)}
		m := newModel(&w, dir)
		m.fns = map[string]func(M, string) V{`optfn`: optfn}
		r.models = append(r.models, m)
	}
	tp, o := c.W.options(dir)
	o[api.HieraFunctions] = map[string]interface{}{`optfn`: vf.Value(optFn)}
	sess := givenMap{v: M{}}
	if s, ok := o[api.HieraScope].(dgo.Map); ok {
		sess = givenMap{m: s, v: cp(c.W.SessScope.V)}
		r.given = append(r.given, sess)
	}
	var err error
	withSession(tp, o, func(s api.Session) {
		r.s = s
		if c.Late != nil && sess.m != nil && !sess.m.Frozen() {
			// The caller's map is the caller's. The session has the variables it was created with
			for k, v := range c.Late.V.(M) {
				sess.m.Put(k, toD(v))
			}
			r.given[0].v = toV(sess.m)
			x.Label(`caller changes its map`)
		}
		for i := range c.Scopes {
			vars := c.Scopes[i].V.(M)
			var arg interface{}
			switch c.Forms[i] {
			case 0:
				if len(vars) > 0 {
					dm := toDMap(vars)
					r.given = append(r.given, givenMap{m: dm, v: cp(vars)})
					arg = dm
				}
			case 1:
				dm := toDMap(vars).FrozenCopy().(dgo.Map)
				r.given = append(r.given, givenMap{m: dm, v: cp(vars), fz: true})
				arg = dm
			default:
				gm := map[string]interface{}{}
				for k, v := range vars {
					gm[k] = toD(v)
				}
				r.given = append(r.given, givenMap{gm: gm, v: cp(vars)})
				arg = gm
			}
			r.invs = append(r.invs, s.Invocation(arg, nil))
		}
		if err = r.run(c.Ops, 0); err != nil {
			return
		}
		// At the end, everything is as it was
		for i, ic := range r.invs {
			for _, n := range scopeVars {
				var want Res
				if v, ok := r.models[i].vars[n]; ok {
					want = value(v)
				}
				if got := capture(func() dgo.Value { return ic.Scope().Get(vf.String(n)) }); !got.same(want) {
					err = differ(fmt.Sprintf(`variable %s of invocation %d in the end`, n, i), got, want)
					return
				}
			}
		}
	})
	if err != nil {
		return err
	}
	for i := range r.given {
		if err = r.given[i].check(); err != nil {
			return err
		}
	}
	shadow := false
	for _, s := range c.Scopes {
		for k := range s.V.(M) {
			if _, ok := c.W.SessScope.V.(M)[k]; ok {
				shadow = true
			}
		}
	}
	if shadow {
		x.Label(`shadowing`)
		x.NonTrivial()
	}
	if strings.Contains(c.W.Cfg.text(), `mapped_paths`) {
		x.Label(`mapped_paths`)
	}
	return nil
}

func init() {
	register(&Property{
		ID: `C11`,
		Rule: `Random histories of lookups, reads of variables and nested DoWithScope calls (some of which panic) are performed on one to three
invocations of a session, over hierarchies whose paths, globs, mapped paths, URIs, options, data and scope provider level depend on variables.
Each outcome is compared with that of the reference model for the variables that a stack of scopes has at that point. In the end all
invocations must have their original variables and all maps that were passed in must be unchanged. A case is non-trivial when an invocation
variable shadows a session variable or when a scope was set for the duration of a call.`,
		Subs: []subCheck{
			Spec[scopeCase]{Name: `scopes`, Quick: 2500, Thorough: 80000, Gen: genScopeCase, Run: runScope},
		},
	})
}
