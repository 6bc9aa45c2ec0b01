package harness

import (
	"fmt"
	"path/filepath"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/provider"
	"pgregory.net/rapid"
)

// inheritCase is a world where levels inherit settings from the defaults
type inheritCase struct {
	F        fnCase `json:"f"`
	Other    Level  `json:"other"` // other defaults, used where everything is overridden
	Explicit []bool `json:"explicit"`
	Module   bool   `json:"module"`
}

func genInherit(t *rapid.T) inheritCase {
	c := inheritCase{F: genFnWorld(t, false), Module: chance(t, 3, `module`)}
	w := &c.F.W
	for i := range w.Cfg.Levels {
		l := &w.Cfg.Levels[i]
		if chance(t, 5, `inherits function`) {
			l.Kind, l.Fn = ``, ``
		}
		if chance(t, 2, `level plugindir`) {
			l.Plugindir = pick(t, `plugindir`, `p1`, `p%{env}`)
		}
		c.Explicit = append(c.Explicit, rapid.Bool().Draw(t, `explicit`))
	}
	if w.Cfg.Defaults == nil && chance(t, 6, `usually`) {
		d := &Level{Datadir: pick(t, `datadir`, dataDirs...)}
		if chance(t, 6, `dcustom`) {
			genFn(t, d)
		}
		d.Opts = genOptions(t)
		w.Cfg.Defaults = d
	}
	if d := w.Cfg.Defaults; d != nil {
		if chance(t, 2, `default datadir`) {
			d.Datadir = pick(t, `dvar`, `%{env}`, `data/%{os}`)
		}
		if chance(t, 3, `default plugindir`) {
			d.Plugindir = pick(t, `plugindir`, `p2`, `../p`, `p%{os}`)
		}
		if d.Kind == `` && chance(t, 5, `json`) {
			d.Kind, d.Fn = `data_hash`, `json_data`
		}
	}
	c.Other = Level{Datadir: `nowhere`, Plugindir: `nowhere`}
	genFn(t, &c.Other)
	c.Other.Opts = &Val{M{`other`: true}}
	return c
}

// explicit writes the settings that a level inherits in the level itself
func explicit(l Level, d *Level) Level {
	if d == nil {
		d = &Level{}
	}
	first := func(s ...string) string {
		for _, e := range s {
			if e != `` {
				return e
			}
		}
		return ``
	}
	if l.Kind == `` {
		l.Kind, l.Fn = first(d.Kind, `data_hash`), first(d.Fn, `yaml_data`)
	}
	l.Datadir = first(l.Datadir, d.Datadir, `data`)
	l.Plugindir = first(l.Plugindir, d.Plugindir, `plugin`)
	if l.Opts == nil {
		l.Opts = d.Opts
	}
	if l.Opts == nil {
		l.Opts = &Val{M{}}
	}
	return l
}

func runInherit(x *X, c inheritCase) error {
	w := c.F.W
	d := w.Cfg.Defaults
	inherits := 0
	variant := func(defaults *Level, isExplicit func(i int) bool) World {
		v := w
		v.Cfg = Config{Defaults: defaults}
		for i, l := range w.Cfg.Levels {
			if isExplicit(i) {
				l = explicit(l, d)
			}
			v.Cfg.Levels = append(v.Cfg.Levels, l)
		}
		return v
	}
	all := func(int) bool { return true }
	for i := range w.Cfg.Levels {
		l := &w.Cfg.Levels[i]
		if d != nil {
			if l.Kind == `` && d.Kind != `` {
				inherits++
				x.Label(`inherits function`)
			}
			if l.Datadir == `` && d.Datadir != `` && l.LocKey != `` {
				inherits++
				x.Label(`inherits datadir`)
			}
			if l.Opts == nil && d.Opts != nil {
				inherits++
				x.Label(`inherits options`)
			}
		}
		if l.Kind == `` && (d == nil || d.Kind == ``) {
			x.Label(`built-in function`)
		}
	}
	if inherits > 0 {
		x.NonTrivial()
	}
	variants := []struct {
		name string
		w    World
	}{
		{`as it is`, w},
		{`all settings in the levels, and defaults`, variant(d, all)},
		{`all settings in some of the levels`, variant(d, func(i int) bool { return c.Explicit[i] })},
		{`all settings in the levels, no defaults`, variant(nil, all)},
		{`all settings in the levels, empty defaults`, variant(&Level{}, all)},
		{`all settings in the levels, other defaults`, variant(&c.Other, all)},
	}
	type outcome struct {
		res   Res
		calls []fnCall
	}
	// All variants use the same directory, since paths are shown in results
	dir := x.Dir()
	w.write(dir)
	cfg := filepath.Join(dir, `hiera.yaml`)
	if c.Module {
		// The configuration and the data of the module are those of the world. Keys need a prefix
		dir = filepath.Join(dir, `modules`, `mod`)
		v := w
		v.Files = nil
		for _, f := range w.Files {
			f.Data = Val{modKeys(f.Data.V)}
			v.Files = append(v.Files, f)
		}
		v.write(dir)
		cfg = filepath.Join(dir, `hiera.yaml`)
		x.Label(`module`)
		tb := M{}
		for fn, t := range c.F.Tables.V.(M) {
			tb[fn] = modKeys(t)
		}
		c.F.Tables = Val{tb}
	}
	var base []outcome
	for vi, v := range variants {
		writeFile(cfg, v.w.Cfg.text())
		for li, lk := range c.F.Lookups {
			var calls []fnCall
			tp, o := w.options(x.Dir())
			o[api.HieraFunctions] = c.F.functions(&calls)
			key := lk.Key
			if c.Module {
				key = `mod::` + key
				tp = provider.ModuleLookupKey
				o[provider.ModulePath] = filepath.Join(x.Dir(), `modules`)
			}
			res := capture(func() (r dgo.Value) {
				withSession(tp, o, func(s api.Session) { r = lookup(s.Invocation(w.scope(), nil), key, lk.Strategy) })
				return
			})
			if vi == 0 {
				base = append(base, outcome{res, calls})
				switch {
				case res.Err != nil:
					x.Label(`error`)
				case res.Found:
					x.Label(`found`)
				default:
					x.Label(`not found`)
				}
				continue
			}
			b := base[li]
			if !res.same(b.res) {
				return differ(fmt.Sprintf(`lookup of %s, strategy %q, with %s`, key, lk.Strategy, v.name), res, b.res)
			}
			if res.Err == nil && !sameCalls(calls, b.calls) {
				return fmt.Errorf("calls made by the lookup of %s, strategy %q, with %s:\n  got  %v\n  want %v", key, lk.Strategy, v.name, calls, b.calls)
			}
		}
	}
	return nil
}

// modKeys gives the keys of data the prefix of the module
func modKeys(v V) V {
	m, ok := v.(M)
	if !ok {
		return v
	}
	r := M{}
	for k, e := range m {
		if k == `lookup_options` {
			r[k] = modKeys(e)
		} else {
			r[`mod::`+k] = e
		}
	}
	return r
}

// inheritPluginCase decides which program that a level starts
type inheritPluginCase struct {
	Default string `json:"default,omitempty"`
	Level   string `json:"level,omitempty"`
	File    string `json:"file,omitempty"`
	Scope   Val    `json:"scope"`
}

func genInheritPlugin(t *rapid.T) inheritPluginCase {
	inv, _ := genScope(t)
	dirs := []string{``, ``, `p1`, `p1/sub`, `../beside`, `p%{env}`, `%{env}`, `@abs`, `@abs/%{env}`, `.`}
	return inheritPluginCase{Default: pick(t, `default`, dirs...), Level: pick(t, `level`, dirs...), File: pick(t, `file`, ``, ``, `prog`, `sub/prog`, `../prog`, `@prog`), Scope: Val{inv}}
}

func runInheritPlugin(x *X, c inheritPluginCase) error {
	base := x.Dir()
	root := filepath.Join(base, `root`)
	pids, started := filepath.Join(base, `pids`), filepath.Join(base, `started`)
	x.Cleanup(func() { reap(pids) })
	text := func(s string) string {
		if len(s) > 0 && s[0] == '@' {
			return filepath.Join(base, s[1:])
		}
		return s
	}
	l := Level{Name: `l`, Kind: `lookup_key`, Fn: `fn`, Plugindir: text(c.Level), Pluginfile: text(c.File)}
	w := World{Cfg: Config{Levels: []Level{l}}, Scope: c.Scope}
	if c.Default != `` {
		w.Cfg.Defaults = &Level{Plugindir: text(c.Default)}
	}
	x.Label(`defaults %v, level %v, file %v`, c.Default != ``, c.Level != ``, c.File != ``)
	if c.Default != `` {
		x.NonTrivial()
	}
	m := newModel(&w, root)
	dirOf := func(s string) string {
		s = m.interpText(text(s))
		if !filepath.IsAbs(s) {
			s = filepath.Join(root, s)
		}
		return s
	}
	dir := `plugin`
	if c.Default != `` {
		dir = c.Default
	}
	if c.Level != `` {
		dir = c.Level
	}
	file := text(c.File)
	if file == `` {
		file = `fn`
	}
	path := func(d string) string {
		if filepath.IsAbs(file) {
			return filepath.Clean(file)
		}
		return filepath.Join(dirOf(d), file)
	}
	want := path(dir)
	for _, d := range []string{`plugin`, c.Default, c.Level, `.`} {
		plugScript(path(d), pids, `echo "$0" >> '`+started+`'; exit 3`)
	}
	type variant struct {
		name string
		cfg  Config
	}
	e := l
	e.Plugindir = text(dir)
	for _, v := range []variant{{`as it is`, w.Cfg}, {`explicit`, Config{Levels: []Level{e}, Defaults: w.Cfg.Defaults}}, {`explicit without defaults`, Config{Levels: []Level{e}}}} {
		v2 := w
		v2.Cfg = v.cfg
		v2.write(root)
		removeFile(started)
		got := v2.lookup(root, `k`, ``)
		if got.Err == nil {
			return fmt.Errorf(`%s: no error from a plugin that doesn't work: %s`, v.name, got)
		}
		for _, s := range readLines(started) {
			if s != want {
				return fmt.Errorf(`%s: plugin %s was started, expected %s`, v.name, s, want)
			}
		}
		if len(readLines(started)) == 0 {
			return fmt.Errorf(`%s: no plugin was started, expected %s: %s`, v.name, want, got)
		}
	}
	return nil
}

func init() {
	register(&Property{
		ID:   `C30`,
		Rule: `some level inherits a setting that the defaults have`,
		Assumptions: []string{
			`The configurations are compared with each other. What the settings mean is checked by C09, C29 and C32.`,
		},
		Subs: []subCheck{
			Spec[inheritCase]{`written out`, 1500, 50000, genInherit, runInherit},
			Spec[inheritPluginCase]{`plugins`, 400, 8000, genInheritPlugin, runInheritPlugin},
		},
	})
}
