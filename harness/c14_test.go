package harness

import (
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/explain"
	"github.com/lyraproj/hiera/merge"
	sdk "github.com/lyraproj/hierasdk/hiera"
	"pgregory.net/rapid"
)

type explainCase struct {
	W        World  `json:"w"`
	Key      string `json:"key"`
	Strategy string `json:"strategy"`
	Options  bool   `json:"options"`
	Only     bool   `json:"only"`
}

func genExplainCase(t *rapid.T) explainCase {
	var c explainCase
	c.W = genWorld(t, worldOpts{maxLevels: 4, luOpts: genLuOpts, json: true, density: 4, keys: []string{`k0`, `k1`, `dotted.key`}})
	if chance(t, 4, `extra`) {
		l := pick(t, `extral`,
			Level{Name: `x0`, Kind: `lookup_key`, Fn: `scope`},
			Level{Name: `x1`, Kind: `data_hash`, Fn: `xhash`},
			Level{Name: `x2`, Kind: `lookup_key`, Fn: `xkey`, LocKey: `uris`, Locs: []string{`http://%{env}/a`, `http://b`}},
			Level{Name: `x3`, Kind: `data_dig`, Fn: `xdig`, LocKey: `uri`, Locs: []string{`x:%{os}`}})
		i := rapid.IntRange(0, len(c.W.Cfg.Levels)).Draw(t, `at`)
		c.W.Cfg.Levels = append(c.W.Cfg.Levels[:i:i], append([]Level{l}, c.W.Cfg.Levels[i:]...)...)
	}
	c.Key = pick(t, `key`, `k0`, `k0`, `k1`, `k0.a`, `k0.b.0`, `k1.1`, `'dotted.key'`, `'dotted.key'.c`, `env`, `missing`, `lookup_options`)
	c.Strategy = pick(t, `strategy`, ``, ``, `first`, `unique`, `hash`, `deep`)
	c.Options = chance(t, 3, `options`)
	c.Only = c.Options && chance(t, 3, `only`)
	return c
}

// genExplainNested generates a lookup that leads to other lookups, and to modules
func genExplainNested(t *rapid.T) explainCase {
	var c explainCase
	ks := []string{`k0`, `k1`, `mod::k`, `mod::n`, `other::k`}
	values := func(t *rapid.T) V {
		if chance(t, 5, `plain`) {
			return genMergeable(t)
		}
		return pick[V](t, `ipl`, `%{lookup('k1')}`, `<%{env}>`, `%{alias('mod::n')}`, L{`%{os}`, `x`, `%{alias('k1')}`}, M{`a`: `%{env}`, `b`: L{`%{role}`}}, `%{lookup('k1.a')}+%{unset}`, `%{strict_alias('nosuch::k')}`, `%{nested}`, `%{facts.os} %{facts.a.b}`,
			`%{scope('nested')}`, `%{literal('x')}`, M{`%{env}`: `%{lookup('missing')}`}, `%{lookup('lookup_options')}`, `%{}`)
	}
	c.W = genWorld(t, worldOpts{maxLevels: 3, luOpts: genLuOpts, density: 4, keys: ks, values: values, noGlob: true})
	sc, ok := c.W.Scope.V.(M)
	if !ok {
		sc = M{}
	}
	sc[`nested`] = `%{env}-%{os}`
	sc[`facts`] = M{`os`: `linux`, `a`: `scalar`}
	c.W.Scope = Val{sc}
	if chance(t, 7, `modules`) {
		c.W.Mux = pick(t, `mux`, []string{`config`, `module`}, []string{`module`, `config`}, []string{`module`}, []string{`config`})
		c.W.ModulePath = []string{`modules`}
		for _, n := range []string{`mod`, `other`} {
			if chance(t, 6, `module`) {
				mw := genWorld(t, worldOpts{maxLevels: 2, luOpts: genLuOpts, density: 6, keys: ks, values: values, noGlob: true})
				c.W.Modules = append(c.W.Modules, Module{Root: `modules`, Name: n, Cfg: mw.Cfg, Files: mw.Files})
			}
		}
	}
	c.Key = pick(t, `key`, `k0`, `mod::k`, `k0`, `mod::n`, `other::k`, `k0.a`, `mod::k.b.0`, `Mod::k`, `nosuch::k`)
	c.Strategy = pick(t, `strategy`, ``, ``, ``, `first`, `unique`, `hash`, `deep`)
	c.Options = chance(t, 3, `options`)
	return c
}

func xFunctions() map[string]interface{} {
	return map[string]interface{}{
		`xhash`: vf.Value(func(pc sdk.ProviderContext) dgo.Value { return toD(M{`k0`: `xh`, `k1`: L{`xh`, `a`}}) }),
		`xkey`: vf.Value(func(pc sdk.ProviderContext, key string) dgo.Value {
			if v := xkey(toV(pc.OptionsMap()).(M), key); v != absent {
				return toD(v)
			}
			return nil
		}),
		`xdig`: vf.Value(func(pc sdk.ProviderContext, key dgo.Array) dgo.Value {
			if v := xkey(toV(pc.OptionsMap()).(M), key.Get(0).String()); v != absent {
				return toD(v)
			}
			return nil
		}),
	}
}

func xkey(o M, key string) V {
	p, _ := o[`path`].(string)
	switch key {
	case `k0`:
		if p != `http://b` {
			return M{`a`: p}
		}
	case `k1`:
		return L{p}
	}
	return absent
}

func xModelFunctions() map[string]func(M, string) V {
	x := func(o M, key string) V { return xkey(o, key) }
	return map[string]func(M, string) V{`xhash`: func(M, string) V { return M{`k0`: `xh`, `k1`: L{`xh`, `a`}} }, `xkey`: x, `xdig`: x}
}

// plain is the text of a value without regard to the order of the characters and to white space
func plain(s string) string {
	rs := []rune(strings.Join(strings.Fields(s), ``))
	sort.Slice(rs, func(i, j int) bool { return rs[i] < rs[j] })
	return string(rs)
}

func valueText(v V) string {
	switch v := v.(type) {
	case nil:
		return `nil`
	case string:
		return strconv.Quote(v)
	case L:
		ss := make([]string, len(v))
		for i, e := range v {
			ss[i] = valueText(e)
		}
		return `{` + strings.Join(ss, `,`) + `}`
	case M:
		var ss []string
		for _, k := range keys(v) {
			kt := strconv.Quote(k)
			if strings.HasPrefix(k, intKey) {
				kt = k[len(intKey):]
			}
			ss = append(ss, kt+`:`+valueText(v[k]))
		}
		return `{` + strings.Join(ss, `,`) + `}`
	}
	return strOf(v)
}

// explanation is the reference for explanations. It's a list of lines
type explanation struct {
	m     *model
	lines []string
	n     int // consulted
	// kind of explainer
	options, only bool
	shown         map[string]bool // configurations with lookup options that have been explained
	mergeOpts     M               // of the lookup in progress
}

// withOpts sets the options of merges during a call
func (e *explanation) withOpts(o M, f func() V) V {
	if e == nil {
		return f()
	}
	old := e.mergeOpts
	defer func() { e.mergeOpts = old }()
	e.mergeOpts = o
	return f()
}

// mergeOptions gives the options of the merge that lookup options ask for
func mergeOptions(explicit string, opts M) M {
	o, _ := opts[`merge`].(M)
	if explicit != `` || o == nil {
		return nil
	}
	r := M{}
	for k, v := range o {
		if k != `strategy` {
			r[k] = v
		}
	}
	return r
}

func (e *explanation) add(format string, args ...interface{}) {
	e.lines = append(e.lines, fmt.Sprintf(format, args...))
}

func (e *explanation) outcome(key string, v V) {
	if v == absent {
		e.add(`No such key: "%s"`, key)
	} else {
		e.add(`Found key: "%s" value: %s`, key, plain(valueText(v)))
	}
}

func (e *explanation) merge(strategy string, n int, f func(i int) V) V {
	var srcs []func() V
	branches := 0
	for i := 0; i < n; i++ {
		i := i
		srcs = append(srcs, func() V {
			before := len(e.lines)
			v := f(i)
			if len(e.lines) > before {
				branches++
			}
			return v
		})
	}
	at := len(e.lines)
	shown := n > 1 && strategy != `first`
	if shown {
		e.add(`Merge strategy "%s"`, merge.GetStrategy(strategy, nil).Label())
		if strategy == `deep` && len(e.mergeOpts) > 0 {
			e.add(`Options: %s`, plain(valueText(e.mergeOpts)))
		}
	}
	head := len(e.lines) - at
	v := mMerge(strategy, srcs)
	if shown && branches < 2 {
		// There is nothing to merge
		shown = false
		e.lines = append(e.lines[:at], e.lines[at+head:]...)
	}
	if shown && v != absent {
		e.add(`Merged result: %s`, plain(valueText(v)))
	}
	return v
}

func (e *explanation) search(c *mconfig, root, strategy string) V {
	return e.merge(strategy, len(c.levels), func(i int) V {
		l := &c.levels[i]
		e.n++
		e.add(`%s function '%s'`, l.kind, l.fn)
		if l.noLoc {
			v := e.m.call(l, nil, root)
			e.outcome(root, v)
			return v
		}
		src := c.cfg.Levels[i]
		return e.merge(strategy, len(l.locs), func(j int) V {
			loc := l.locs[j]
			e.n++
			kind := `path`
			if strings.HasPrefix(src.LocKey, `uri`) {
				kind = `uri`
				e.add(`URI "%s"`, loc.path)
			} else {
				e.add(`Path "%s"`, loc.path)
			}
			switch src.LocKey {
			case `glob`, `globs`:
				// which of the patterns isn't checked
				e.add(`Original %s`, kind)
			case `mapped_paths`:
				e.add(`Original %s: "%s"`, kind, src.Locs[2])
			default:
				e.add(`Original %s: "%s"`, kind, src.Locs[j])
			}
			if !loc.exists {
				e.add(`%s not found`, kind)
				return absent
			}
			v := e.m.call(l, &loc, root)
			e.outcome(root, v)
			return v
		})
	})
}

var explainLine = regexp.MustCompile(`^(Searching for "|Using merge options|Merge strategy "|Options: |Merged result: |\w+ function '|Path "|URI "|Original |path not found|uri not found|No such key: "|Found key: "|Sub key: "|Invalid key "|Interpolation on "|Module ")`)
var valueLine = regexp.MustCompile(`^((?:Found key: ".*?" value:|Merged result:|Options:) )((?s).*)$`)

var quotedKey = regexp.MustCompile(`^((?:Searching for|(?:Found|Invalid|No such) key:?) )"'([^']*)'"`)

// normalize splits an explanation in lines that can be compared
func normalize(text string, globs bool) []string {
	var ls []string
	for _, l := range strings.Split(text, "\n") {
		l = strings.TrimSpace(l)
		if l == `` {
			continue
		}
		if explainLine.MatchString(l) || len(ls) == 0 {
			ls = append(ls, l)
		} else {
			ls[len(ls)-1] += l
		}
	}
	for i, l := range ls {
		if !strings.HasPrefix(l, `Merged`) && !strings.HasPrefix(l, `Options`) && !strings.HasPrefix(l, `Interp`) {
			// A key may be shown with its quotes
			l = quotedKey.ReplaceAllString(l, `$1"$2"`)
			ls[i] = l
		}
		if g := valueLine.FindStringSubmatch(l); g != nil {
			ls[i] = g[1] + plain(g[2])
		}
	}
	return ls
}

func runExplain(x *X, c explainCase) (err error) {
	dir := x.Dir()
	c.W.write(dir)
	m := newModel(&c.W, dir)
	m.fns = xModelFunctions()
	e := &explanation{m: m, options: c.Options, only: c.Only, shown: map[string]bool{}}
	m.ex = e
	want := m.lookup(c.Key, c.Strategy)
	tp, o := c.W.options(dir)
	o[api.HieraFunctions] = xFunctions()
	do := func(ex api.Explainer, twice bool) (r Res) {
		withSession(tp, o, func(s api.Session) {
			r = capture(func() dgo.Value { return lookup(s.Invocation(c.W.scope(), ex), c.Key, c.Strategy) })
		})
		return
	}
	without := do(nil, false)
	ex := explain.NewExplainer(c.Options, c.Only)
	with := do(ex, false)
	if !without.same(with) {
		return differ(`explained lookup of `+c.Key, with, without)
	}
	if !with.same(want) {
		return differ(`lookup of `+c.Key, with, want)
	}
	if want.Err != nil {
		x.Label(`error`)
		return nil
	}
	if want.Unsure {
		x.Label(`unsure`)
		return nil
	}
	got := normalize(ex.String(), true)
	for i := range got {
		if strings.HasPrefix(got[i], `Original path: `) && i < len(e.lines) && e.lines[i] == `Original path` {
			got[i] = e.lines[i]
		}
	}
	for i := 0; i < len(got) || i < len(e.lines); i++ {
		if i >= len(got) || i >= len(e.lines) || got[i] != e.lines[i] {
			g, w := `nothing`, `nothing`
			if i < len(got) {
				g = got[i]
			}
			if i < len(e.lines) {
				w = e.lines[i]
			}
			return fmt.Errorf("explanation of %s has %s\n where %s is expected:\n%s", c.Key, g, w, ex.String())
		}
	}
	if e.n > 1 {
		x.NonTrivial()
	}
	for _, l := range got {
		if g := explainLine.FindString(l); g != `` {
			x.Label(`%s`, strings.Trim(g, `" :'`))
		}
	}
	x.Label(`options=%v only=%v`, c.Options, c.Only)
	return nil
}

func subKeyText(ps []part) string {
	var ss []string
	for _, p := range ps {
		if p.isI {
			ss = append(ss, strconv.Itoa(p.i))
		} else {
			ss = append(ss, p.s)
		}
	}
	return strings.Join(ss, `.`)
}

// ---- explaining changes nothing, for anything that can be looked up

func runExplainSame(x *X, c refCase) error {
	key, dir, fns := c.install(x)
	tp, so := c.W.options(dir)
	so[api.HieraFunctions] = fns
	do := func(s api.Session, ex api.Explainer, k string) Res {
		return capture(func() dgo.Value { return lookup(s.Invocation(c.W.scope(), ex), k, c.Strategy) })
	}
	var err error
	for _, k := range []string{key + c.Dig, `chain`, `k0`, `mod::k`, `missing`} {
		for _, o := range [][2]bool{{false, false}, {true, false}, {true, true}} {
			withSession(tp, so, func(s api.Session) {
				var without, with Res
				ex := explain.NewExplainer(o[0], o[1])
				if c.Dig == `` {
					without, with = do(s, nil, k), do(s, ex, k)
				} else {
					with, without = do(s, ex, k), do(s, nil, k)
				}
				if !with.same(without) {
					err = differ(`explained lookup of `+k, with, without)
					return
				}
				if with.Err != nil && with.Err.Error() != without.Err.Error() {
					err = fmt.Errorf(`explained lookup of %s fails with %v, want %v`, k, with.Err, without.Err)
					return
				}
				text := ex.String()
				if ex.String() != text {
					err = fmt.Errorf("the text of the explanation of %s isn't stable", k)
					return
				}
				if with.Found || with.Err != nil {
					x.NonTrivial()
				}
				if with.Err != nil {
					x.Label(`error`)
				}
				// What the explanation shows of the value of the key itself
				if !o[1] && text == `` {
					err = fmt.Errorf(`the explanation of %s is empty`, k)
				}
			})
			if err != nil {
				return err
			}
		}
	}
	return nil
}

func init() {
	register(&Property{
		ID: `C14`,
		Rule: `text: over generated hierarchies (paths, globs, mapped paths, URIs, custom functions, lookup_options) the text of the explanation of a
lookup is compared, line by line except for the order of entries in a hash, with the events that the reference model produces, for all kinds
of explainers. Non-trivial when at least two levels or locations are consulted. same: lookups of keys with nested lookups through all kinds of
providers give the same result, or the same error, with and without each kind of explainer. Non-trivial when a value is found or the lookup
fails.`,
		Subs: []subCheck{
			Spec[explainCase]{Name: `text`, Quick: 2000, Thorough: 60000, Gen: genExplainCase, Run: runExplain},
			Spec[explainCase]{Name: `nested`, Quick: 1500, Thorough: 40000, Gen: genExplainNested, Run: runExplain},
			Spec[explainCase]{Name: `large`, Quick: 150, Thorough: 3000, Gen: genLargeExplain, Run: runExplain},
			Spec[refCase]{Name: `same`, Quick: 500, Thorough: 15000, Gen: genRefCase, Run: runExplainSame},
		},
	})
}
