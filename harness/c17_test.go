package harness

import (
	"fmt"
	"path/filepath"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/provider"
	"pgregory.net/rapid"
)

type modCase struct {
	W        World    `json:"w"`
	Alone    bool     `json:"alone,omitempty"` // ModuleLookupKey is the top level function
	Keys     []string `json:"keys"`
	TwoCases bool     `json:"twocases,omitempty"` // a directory has two entries whose names differ in case only
	Absent   []string `json:"absent,omitempty"`   // elements of the module path that don't exist
}

var modNames = []string{`mod`, `other`, `my_mod2`}

func caseVariant(t *rapid.T, s string) string {
	switch rapid.IntRange(0, 4).Draw(t, `case`) {
	case 3:
		return strings.ToUpper(s)
	case 4:
		return strings.ToUpper(s[:1]) + s[1:]
	}
	return s
}

var modLocal = []string{`k`, `k2`, `sub::k`}

func genModKey(t *rapid.T) string {
	switch rapid.IntRange(0, 11).Draw(t, `keyform`) {
	case 8:
		return pick(t, `plain`, `k`, `k0`, `::k`, `::mod::k`, `mod:k`, `mod`, `mod::`)
	case 9:
		return pick(t, `unknown`, `nosuch::k`, `hiera::k`, `..::k`, `*::k`, `.::k`)
	}
	return caseVariant(t, pick(t, `mod`, modNames...)) + `::` + pick(t, `local`, modLocal...)
}

func genModOpts(t *rapid.T, ks []string) V {
	m := genLuOpts(t, ks).(M)
	if chance(t, 3, `convert`) {
		m[pick(t, `optkey`, ks...)] = M{`convert_to`: `sensitive`, `merge`: pick(t, `strategy`, strategies...)}
	}
	return m
}

func genModCase(t *rapid.T) modCase {
	var c modCase
	allKeys := []string{`k`, `k0`}
	for _, n := range modNames {
		for _, l := range modLocal {
			allKeys = append(allKeys, n+`::`+l)
		}
	}
	allKeys = append(allKeys, `MOD::k`, `Other::k2`)
	c.W = genWorld(t, worldOpts{maxLevels: 2, noGlob: true, luOpts: genModOpts, keys: allKeys, density: 2})
	roots := []string{`modules`, `site/modules`, `vendor`}[:rapid.IntRange(1, 3).Draw(t, `roots`)]
	for _, r := range roots {
		c.W.ModulePath = append(c.W.ModulePath, r)
		for _, n := range modNames {
			if chance(t, 4, `nomodule`) {
				continue
			}
			mw := genWorld(t, worldOpts{maxLevels: 2, noGlob: true, luOpts: genModOpts, keys: allKeys, density: 6})
			m := Module{Root: r, Name: caseVariant(t, n), Cfg: mw.Cfg, Files: mw.Files}
			m.Link = chance(t, 6, `link`)
			switch rapid.IntRange(0, 12).Draw(t, `odd`) {
			case 12:
				m.Odd = `dangling`
			case 9:
				m.NoCfg = true
			case 10:
				m.Odd = `file`
			case 11:
				m.Odd = `cfgdir`
			}
			c.W.Modules = append(c.W.Modules, m)
		}
	}
	if n := len(c.W.Modules); n > 0 && chance(t, 3, `twocases`) {
		// Another one in the same directory, with the same name in another case
		m := c.W.Modules[rapid.IntRange(0, n-1).Draw(t, `of`)]
		if nn := caseVariant(t, strings.ToLower(m.Name)); nn != m.Name {
			mw := genWorld(t, worldOpts{maxLevels: 2, noGlob: true, luOpts: genModOpts, keys: allKeys, density: 6})
			m = Module{Root: m.Root, Name: nn, Cfg: mw.Cfg, Files: mw.Files, NoCfg: chance(t, 2, `nocfg`), Link: chance(t, 5, `link`)}
			at := rapid.IntRange(0, n).Draw(t, `at`)
			c.W.Modules = append(c.W.Modules[:at:at], append([]Module{m}, c.W.Modules[at:]...)...)
			c.TwoCases = true
		}
	}
	if chance(t, 2, `absent`) {
		c.Absent = []string{`nowhere`}
	}
	if chance(t, 3, `alone`) {
		c.Alone = true
		c.W.Mux = []string{`module`}
	} else {
		c.W.Mux = pick(t, `mux`, []string{`module`}, []string{`config`, `module`}, []string{`module`, `config`})
	}
	for i := rapid.IntRange(2, 6).Draw(t, `nkeys`); i > 0; i-- {
		c.Keys = append(c.Keys, genModKey(t))
	}
	return c
}

func runMod(x *X, c modCase) (err error) {
	dir := x.Dir()
	c.W.write(dir)
	m := newModel(&c.W, dir)
	tp, o := c.W.options(dir)
	if len(c.Absent) > 0 {
		var ps []string
		for _, a := range c.Absent {
			ps = append(ps, filepath.Join(dir, a))
		}
		o[provider.ModulePath] = strings.Join(ps, string(filepath.ListSeparator)) + string(filepath.ListSeparator) + o[provider.ModulePath].(string)
	}
	if c.Alone {
		tp = provider.ModuleLookupKey
		x.Label(`alone`)
	}
	if c.TwoCases {
		x.Label(`names that differ in case only`)
	}
	from := map[string]bool{}
	withSession(tp, o, func(s api.Session) {
		ic := s.Invocation(c.W.scope(), nil)
		for i, k := range c.Keys {
			for _, st := range []string{``, `unique`} {
				if parts, e := parseKey(k); e != nil || len(parts) > 1 {
					continue
				}
				if i%2 == 1 {
					ic = s.Invocation(c.W.scope(), nil)
				}
				want := m.lookup(k, st)
				got := capture(func() dgo.Value { return lookup(ic, k, st) })
				if !got.same(want) && !loneUnique(got, want) {
					err = differ(fmt.Sprintf(`lookup of %s with merge %q`, k, st), got, want)
					return
				}
				if want.Found {
					x.Label(`found`)
					from[k] = true
				}
			}
			if mc := m.module(k); mc == nil {
				x.Label(`no module`)
			} else if !strings.HasPrefix(k, mc.module+`::`) {
				x.Label(`other case`)
			}
			for _, mod := range c.W.Modules {
				if mod.Link && from[k] && strings.HasPrefix(strings.ToLower(k), strings.ToLower(mod.Name)+`::`) {
					x.Label(`linked module`)
				}
			}
		}
	})
	// The same name on several elements of the module path
	seen := map[string]int{}
	for _, mod := range c.W.Modules {
		seen[strings.ToLower(mod.Name)]++
	}
	for n, k := range seen {
		if k > 1 {
			x.Label(`shadowed module`)
		}
		for f := range from {
			if k > 1 && strings.HasPrefix(strings.ToLower(f), n+`::`) {
				x.NonTrivial()
			}
		}
	}
	if len(from) > 1 {
		x.NonTrivial()
	}
	return err
}

func init() {
	register(&Property{
		ID: `C17`,
		Rule: `A case is a main hierarchy and a module path of one to three elements with up to three modules in each, with names in
different case, some without a configuration or not a directory, all of which define keys of all modules and have lookup
options for them, and two to six keys. Lookups are made with ModuleLookupKey alone or together with the main hierarchy. It is
non-trivial when a key is found whose module is on several elements of the path, or more than one key is found.`,
		Subs: []subCheck{
			Spec[modCase]{Name: `modules`, Quick: 700, Thorough: 20000, Gen: genModCase, Run: runMod},
			Spec[modCase]{Name: `many`, Quick: 40, Thorough: 800, Gen: genLargeMod, Run: runMod},
		},
	})
}
