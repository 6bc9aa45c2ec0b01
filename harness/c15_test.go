package harness

import (
	"fmt"
	"path/filepath"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/explain"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/provider"
	sdk "github.com/lyraproj/hierasdk/hiera"
	"pgregory.net/rapid"
)

// HistOp is a lookup of a history
type HistOp struct {
	Inv      int      `json:"inv"` // -1 is a new invocation with an explainer
	Scope    int      `json:"scope"`
	Within   []int    `json:"within,omitempty"` // indexes of scopes for DoWithScope, outermost first
	How      string   `json:"how"`              // lookup, names or all
	Names    []string `json:"names"`
	Strategy string   `json:"strategy"`
	MapForm  bool     `json:"mapform,omitempty"` // strategy is given in a hash
	Override *Val     `json:"override,omitempty"`
	Defaults *Val     `json:"defaults,omitempty"`
	Default  *Val     `json:"default,omitempty"`
	Type     string   `json:"type,omitempty"`
	Options  bool     `json:"options,omitempty"` // explain options
}

// histCase is a history of lookups over the world of a refCase
type histCase struct {
	R      refCase  `json:"r"`
	Self   bool     `json:"self,omitempty"` // the module path contains the main configuration
	Scopes []Val    `json:"scopes"`
	Invs   []int    `json:"invs"` // the scope of each invocation
	Ops    []HistOp `json:"ops"`
}

var histNames = []string{`ref`, `mod::ref`, `k0`, `k1`, `k2`, `mod::k`, `'dotted.key'`, `k0.a`, `k1.0`, `ref.a`, `missing`, `chain`, `kname`, `app::k0`, `app::memo`,
	`bad`, `cyc`, `badmerge`, `badconv`, `badtype`, `badkey`, `other::k`, `lookup_options`, `..`, `MOD::k`, `memo`, `var::env`, `sens`, `env::VERIF_C15`}

func genHistOp(t *rapid.T, c *histCase) HistOp {
	o := HistOp{Inv: rapid.IntRange(-1, len(c.Invs)-1).Draw(t, `inv`), How: pick(t, `how`, `lookup`, `lookup`, `lookup`, `names`, `all`)}
	if o.Inv < 0 {
		o.Scope = rapid.IntRange(0, len(c.Scopes)-1).Draw(t, `scope`)
		o.Options = rapid.Bool().Draw(t, `options`)
	}
	if chance(t, 2, `within`) {
		for i := rapid.IntRange(1, 2).Draw(t, `nwithin`); i > 0; i-- {
			o.Within = append(o.Within, rapid.IntRange(0, len(c.Scopes)-1).Draw(t, `scope`))
		}
	}
	n := 1
	if o.How != `lookup` {
		n = rapid.IntRange(1, 3).Draw(t, `nnames`)
	}
	for ; n > 0; n-- {
		ns := histNames
		if c.Self && chance(t, 4, `selfname`) {
			ns = []string{`app::k0`, `k0`, `k1`, `k2`, `chain`}
		}
		o.Names = append(o.Names, pick(t, `name`, ns...))
	}
	o.Strategy = pick(t, `strategy`, ``, ``, `first`, `unique`, `hash`, `deep`, `nosuch`)
	o.MapForm = chance(t, 3, `mapform`)
	if o.How != `lookup` {
		if chance(t, 3, `override`) {
			o.Override = &Val{M{pick(t, `name`, histNames...): genValue(2).Draw(t, `v`)}}
		}
		if chance(t, 4, `defaults`) {
			o.Defaults = &Val{M{pick(t, `name`, o.Names...): genValue(2).Draw(t, `v`)}}
		}
	}
	if o.How == `names` && chance(t, 3, `type`) {
		o.Type = pick(t, `type`, `string`, `[]any`, `int`, `map[string]any`)
	}
	if o.How != `all` && chance(t, 3, `default`) {
		o.Default = &Val{genValue(2).Draw(t, `v`)}
	}
	return o
}

func genHist(t *rapid.T) histCase {
	c := histCase{R: genRefCase(t)}
	c.Scopes = []Val{c.R.W.Scope}
	for i := rapid.IntRange(1, 2).Draw(t, `nscopes`); i > 0; i-- {
		s, _ := genScope(t)
		if chance(t, 5, `sub`) {
			s[`sub`] = M{`a`: M{`b`: L{int64(1), `x`}}}
		}
		c.Scopes = append(c.Scopes, Val{s})
	}
	if len(c.R.W.Mux) > 1 {
		if c.Self = chance(t, 3, `self`); c.Self && chance(t, 6, `modulefirst`) {
			c.R.W.Mux = []string{`module`, `config`}
		}
	}
	c.Invs = []int{0}
	for i := rapid.IntRange(0, 2).Draw(t, `ninvs`); i > 0; i-- {
		c.Invs = append(c.Invs, rapid.IntRange(0, len(c.Scopes)-1).Draw(t, `scope`))
	}
	for i := rapid.IntRange(3, 14).Draw(t, `nops`); i > 0; i-- {
		c.Ops = append(c.Ops, genHistOp(t, &c))
	}
	return c
}

// memoFn keeps what it has produced in the cache of the session. The outcome doesn't depend on that.
func memoFn(pc sdk.ProviderContext, key string) dgo.Value {
	if key != `memo` {
		return nil
	}
	sc := pc.(api.ServerContext)
	if v, ok := sc.CachedValue(`memo`); ok {
		return v
	}
	v := vf.MutableMap(`a`, vf.MutableValues(`x`, vf.MutableMap(`b`, 1)), `c`, 3)
	sc.Cache(`memo`, v)
	return v
}

// addFaults adds a level with keys that cannot be looked up
func addFaults(cfg *Config, files *[]File) {
	cfg.Levels = append(cfg.Levels, Level{Name: `bad`, Datadir: `bad`, LocKey: `path`, Kind: `data_hash`, Fn: `yaml_data`, Locs: []string{`bad.yaml`}},
		Level{Name: `memo`, Kind: `lookup_key`, Fn: `memo`})
	*files = append(*files, File{Path: `bad/bad.yaml`, Data: Val{M{
		`bad`: `x %{nosuch('x')}`, `cyc`: L{`%{alias('cyc')}`}, `badmerge`: int64(1), `badconv`: `abc`, `badtype`: `abc`, `badkey`: `%{lookup('a..b')}`,
		`sens`: M{`a`: `s3cret`, `b`: `%{alias('k0')}`},
		`lookup_options`: M{`badmerge`: M{`merge`: `nosuch`}, `badconv`: M{`convert_to`: `int`}, `badtype`: M{`convert_to`: `[]nosuch[`},
			`sens`: M{`convert_to`: `sensitive`}, `memo`: M{`merge`: `deep`}}}}})
}

// snapshot is a value that must stay as it was
type snapshot struct {
	what string
	dv   dgo.Value
	v    V
	text string
	fz   bool
}

func isFrozen(v dgo.Value) bool {
	f, ok := v.(dgo.Freezable)
	return ok && f.Frozen()
}

type history struct {
	c     *histCase
	tp    sdk.LookupKey
	o     map[string]interface{}
	fresh map[string]histRes
	given []snapshot
}

type histRes struct {
	Res
	text string
}

func (h *history) keep(what string, v dgo.Value) {
	if v != nil {
		h.given = append(h.given, snapshot{what, v, toV(v), v.String(), isFrozen(v)})
	}
}

func (h *history) unchanged() error {
	for _, s := range h.given {
		if !eq(toV(s.dv), s.v) || s.dv.String() != s.text {
			return fmt.Errorf(`%s is changed from %s to %s`, s.what, show(s.v), show(toV(s.dv)))
		}
		if isFrozen(s.dv) != s.fz {
			return fmt.Errorf(`%s is no longer frozen=%t`, s.what, s.fz)
		}
	}
	return nil
}

func (h *history) scope(i int, what string) dgo.Map {
	m := toDMap(h.c.Scopes[i].V.(M))
	h.keep(what, m)
	return m
}

func (h *history) do(ic api.Invocation, op *HistOp) Res {
	var opts, ov, defs dgo.Map
	if op.Strategy != `` {
		var s dgo.Value = vf.String(op.Strategy)
		if op.MapForm {
			s = vf.MutableMap(`strategy`, s)
		}
		opts = vf.MutableMap(`merge`, s)
		h.keep(`the options`, opts)
	}
	if ov = optMap(op.Override); ov != nil {
		h.keep(`the override values`, ov)
	}
	if defs = optMap(op.Defaults); defs != nil {
		h.keep(`the default values`, defs)
	}
	var dv dgo.Value
	if op.Default != nil {
		dv = toD(op.Default.V)
		h.keep(`the default`, dv)
	}
	var tp dgo.Type
	if op.Type != `` {
		tp = tf.ParseType(op.Type)
	}
	look := func() (v dgo.Value) {
		switch op.How {
		case `lookup`:
			if opts != nil {
				v = hiera.Lookup(ic, op.Names[0], dv, opts)
			} else {
				v = hiera.Lookup(ic, op.Names[0], dv, nil)
			}
		case `names`:
			v = hiera.Lookup2(ic, op.Names, tp, dv, ov, defs, opts, nil)
		default:
			v = hiera.LookupAll(ic, op.Names, nil, ov, defs, opts)
		}
		h.keep(fmt.Sprintf(`the result of the lookup of %v`, op.Names), v)
		return
	}
	for i := len(op.Within) - 1; i >= 0; i-- {
		inner, sc := look, h.scope(op.Within[i], `the scope`)
		look = func() (v dgo.Value) {
			ic.DoWithScope(sc, func() { v = inner() })
			return
		}
	}
	return capture(look)
}

func (h *history) explained(s api.Session, op *HistOp) histRes {
	ex := explain.NewExplainer(op.Options, false)
	ic := s.Invocation(h.scope(op.Scope, `the scope`), ex)
	r := histRes{Res: h.do(ic, op)}
	r.text = ex.String()
	return r
}

func (o *HistOp) id() string {
	return fmt.Sprintf(`%v %d %v %s %q %s %t %s %s %s %s %t`, o.Inv, o.Scope, o.Within, o.How, o.Names, o.Strategy, o.MapForm, valText(o.Override), valText(o.Defaults), valText(o.Default), o.Type, o.Options)
}

// want is the outcome of the operation in a session of its own
func (h *history) want(op HistOp) histRes {
	if op.Inv >= 0 {
		op.Scope, op.Inv = h.c.Invs[op.Inv], 0
	}
	k := op.id()
	if r, ok := h.fresh[k]; ok {
		return r
	}
	var r histRes
	withSession(h.tp, h.o, func(s api.Session) {
		if op.Inv < 0 {
			r = h.explained(s, &op)
		} else {
			r = histRes{Res: h.do(s.Invocation(h.scope(op.Scope, `the scope`), nil), &op)}
		}
	})
	h.fresh[k] = r
	return r
}

func valText(v *Val) string {
	if v == nil {
		return `-`
	}
	return show(v.V)
}

// prepare writes the world and creates the session options
func (c *histCase) prepare(x *X) (sdk.LookupKey, map[string]interface{}) {
	if c.R.Module {
		addFaults(&c.R.W.Modules[0].Cfg, &c.R.W.Modules[0].Files)
	}
	addFaults(&c.R.W.Cfg, &c.R.W.Files)
	top := x.Dir()
	x.dir = filepath.Join(top, `app`)
	_, dir, fns := c.R.install(x)
	x.dir = top
	fns[`memo`] = vf.Value(memoFn)
	tp, o := c.R.W.options(dir)
	o[api.HieraFunctions] = fns
	if c.Self {
		o[provider.ModulePath] = o[provider.ModulePath].(string) + string(filepath.ListSeparator) + top
		x.Label(`configuration is a module too`)
	}
	return tp, o
}

func runHist(x *X, c histCase) (err error) {
	h := &history{c: &c, fresh: map[string]histRes{}}
	h.tp, h.o = c.prepare(x)
	found, failed := 0, 0
	withSession(h.tp, h.o, func(s api.Session) {
		invs := make([]api.Invocation, len(c.Invs))
		for i, sc := range c.Invs {
			invs[i] = s.Invocation(h.scope(sc, `the scope`), nil)
		}
		for i := range c.Ops {
			op := &c.Ops[i]
			var got histRes
			if op.Inv < 0 {
				got = h.explained(s, op)
				x.Label(`explained`)
			} else {
				got = histRes{Res: h.do(invs[op.Inv], op)}
			}
			want := h.want(*op)
			if !got.same(want.Res) {
				err = differ(fmt.Sprintf(`operation %d, %s of %v`, i, op.How, op.Names), got.Res, want.Res)
				return
			}
			if got.text != want.text {
				err = fmt.Errorf("operation %d, the explanation of the lookup of %v is\n%s\nwant\n%s", i, op.Names, got.text, want.text)
				return
			}
			if got.Err != nil {
				failed++
			} else if got.Found {
				found++
			}
			if err = h.unchanged(); err != nil {
				err = fmt.Errorf(`after operation %d: %v`, i, err)
				return
			}
		}
	})
	x.Label(`failed=%t`, failed > 0)
	if found >= 2 && len(c.Ops) > 2 {
		x.NonTrivial()
	}
	return
}

func init() {
	register(&Property{
		ID: `C15`,
		Rule: `A case is a generated world (files, aliases, lookup options, conversions, custom functions, modules, providers, and keys
that can only fail) and a history of 3-14 lookups through up to three invocations with scopes of their own and through
explained invocations, also within DoWithScope, with all forms of names, options and defaults. It is non-trivial when at
least two of the lookups find a value.`,
		Assumptions: []string{`data files don't change during a session`, `custom functions are deterministic`},
		Subs: []subCheck{
			Spec[histCase]{Name: `history`, Quick: 550, Thorough: 20000, Gen: genHist, Run: runHist},
			Spec[histCase]{Name: `long`, Quick: 24, Thorough: 600, Gen: genLongHist, Run: runHist},
		},
	})
}
