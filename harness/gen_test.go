package harness

import (
	"fmt"
	"path"
	"strings"

	"pgregory.net/rapid"
)

// worldOpts selects what genWorld generates
type worldOpts struct {
	maxLevels int
	values    func(t *rapid.T) V // values of keys
	keys      []string           // root keys
	luOpts    func(t *rapid.T, keys []string) V
	json      bool // use json_data for some levels
	noGlob    bool
	noVars    bool
	density   int // chance, in tenths, of a key being defined
}

// plain variables that paths can refer to
var pathVars = []string{`env`, `os`, `role`}
var pathVals = []string{`prod`, `dev`, `x`, `linux`}

func genScope(t *rapid.T) (M, M) {
	inv, sess := M{}, M{}
	for _, n := range pathVars {
		switch rapid.IntRange(0, 3).Draw(t, `var`) {
		case 1:
			inv[n] = pick(t, `val`, pathVals...)
		case 2:
			sess[n] = pick(t, `val`, pathVals...)
		case 3:
			inv[n], sess[n] = pick(t, `val`, pathVals...), pick(t, `val`, pathVals...)
		}
	}
	if rapid.IntRange(0, 2).Draw(t, `roles`) > 0 {
		l := L{}
		for i := rapid.IntRange(0, 3).Draw(t, `nroles`); i > 0; i-- {
			l = append(l, pick(t, `role`, pathVals...))
		}
		inv[`roles`] = l
	}
	return inv, sess
}

// the data files that exist are drawn from a small set of names so that levels share them
var fileNames = []string{`common`, `a`, `b`, `prod`, `dev`, `linux`, `sub/a`, `sub/prod`, `sub/b`}

func genPath(t *rapid.T, ext string, vars bool) string {
	if vars && chance(t, 3, `pathvar`) {
		v := pick(t, `pv`, pathVars...)
		return pick(t, `pp`, ``, `sub/`) + fmt.Sprintf(pick(t, `form`, `%%{%s}`, `%%{%s}`, `%%{ %s }`), v) + ext
	}
	return pick(t, `file`, append(append([]string{}, fileNames...), `missing`)...) + ext
}

func genGlob(t *rapid.T, ext string, vars bool) string {
	if vars && chance(t, 2, `globvar`) {
		return `%{` + pick(t, `pv`, pathVars...) + `}*` + ext
	}
	return pick(t, `glob`, `*`, `**/*`, `sub/*`, `[ab]`, `{a,b}`, `?`, `c*`, `sub/{a,prod}`, `nomatch*`) + ext
}

var dataDirs = []string{``, ``, `data`, `other`, `data/sub`}

func genLevel(t *rapid.T, i int, o *worldOpts) (Level, string) {
	l := Level{Name: fmt.Sprintf(`l%d`, i)}
	ext := `.yaml`
	switch {
	case o.json && chance(t, 3, `json`):
		l.Kind, l.Fn, ext = `data_hash`, `json_data`, `.json`
	case chance(t, 3, `explicit`):
		l.Kind, l.Fn = `data_hash`, `yaml_data`
	}
	l.Datadir = pick(t, `datadir`, dataDirs...)
	vars := !o.noVars
	max := 5
	if o.noGlob {
		max = 2
	}
	switch k := rapid.IntRange(0, max).Draw(t, `loc`); {
	case k == 0:
		l.LocKey, l.Locs = `path`, []string{genPath(t, ext, vars)}
	case k <= 2:
		l.LocKey = `paths`
		for j := rapid.IntRange(1, 4).Draw(t, `npaths`); j > 0; j-- {
			l.Locs = append(l.Locs, genPath(t, ext, vars))
		}
	case k == 3:
		l.LocKey, l.Locs = `glob`, []string{genGlob(t, ext, vars)}
	case k == 4:
		l.LocKey = `globs`
		for j := rapid.IntRange(1, 2).Draw(t, `nglobs`); j > 0; j-- {
			l.Locs = append(l.Locs, genGlob(t, ext, vars))
		}
	default:
		l.LocKey = `mapped_paths`
		l.Locs = []string{pick(t, `src`, `roles`, `roles`, `env`, `unset`), `r`, pick(t, `tpl`, `%{r}`, `sub/%{r}`, `%{r}`) + ext}
	}
	return l, ext
}

// effective data directory of a level
func (c *Config) datadir(i int) string {
	if d := c.Levels[i].Datadir; d != `` {
		return d
	}
	if c.Defaults != nil && c.Defaults.Datadir != `` {
		return c.Defaults.Datadir
	}
	return `data`
}

func genConfig(t *rapid.T, o *worldOpts) (Config, map[string]bool) {
	var c Config
	dirs := map[string]bool{}
	n := rapid.IntRange(1, o.maxLevels).Draw(t, `levels`)
	for i := 0; i < n; i++ {
		l, ext := genLevel(t, i, o)
		c.Levels = append(c.Levels, l)
		dirs[c.datadir(i)+ext] = true
	}
	return c, dirs
}

func genFiles(t *rapid.T, c *Config, o *worldOpts) []File {
	var fs []File
	seen := map[string]bool{}
	for i := range c.Levels {
		ext := `.yaml`
		if c.Levels[i].Fn == `json_data` {
			ext = `.json`
		}
		d := c.datadir(i)
		if seen[d+ext] {
			continue
		}
		seen[d+ext] = true
		for _, n := range fileNames {
			p := path.Join(d, n) + ext
			if seen[p] || chance(t, 3, `nofile`) {
				continue
			}
			seen[p] = true
			d := genData(t, o)
			if ext == `.json` {
				d = jsonSafe(d).(M)
			}
			fs = append(fs, File{Path: p, Data: Val{d}})
		}
	}
	return fs
}

func genData(t *rapid.T, o *worldOpts) M {
	m := M{}
	for _, k := range o.keys {
		if chance(t, o.density, `has`) {
			m[k] = o.values(t)
		}
	}
	if o.luOpts != nil && chance(t, 4, `hasopts`) {
		m[`lookup_options`] = o.luOpts(t, o.keys)
	}
	return m
}

var rootKeys = []string{`k0`, `k1`, `k2`, `mod::k`, `dotted.key`}

func genWorld(t *rapid.T, o worldOpts) World {
	if o.maxLevels == 0 {
		o.maxLevels = 4
	}
	if o.density == 0 {
		o.density = 5
	}
	if o.values == nil {
		o.values = func(t *rapid.T) V { return genValue(2).Draw(t, `value`) }
	}
	if o.keys == nil {
		o.keys = rootKeys
	}
	var w World
	if !o.noVars {
		i, s := genScope(t)
		w.Scope, w.SessScope = Val{i}, Val{s}
	}
	w.Cfg, _ = genConfig(t, &o)
	w.Files = genFiles(t, &w.Cfg, &o)
	return w
}

// quoteKey writes a root key such that it's parsed as one segment
func quoteKey(k string) string {
	if strings.ContainsAny(k, `.`) {
		return `'` + k + `'`
	}
	return k
}

var strategies = []string{`first`, `unique`, `hash`, `deep`}

// genLuOpts generates a lookup_options hash
func genLuOpts(t *rapid.T, ks []string) V {
	m := M{}
	for i := rapid.IntRange(1, 2).Draw(t, `nopts`); i > 0; i-- {
		k := pick(t, `optkey`, ks...)
		s := pick(t, `strategy`, strategies...)
		switch rapid.IntRange(0, 3).Draw(t, `optform`) {
		case 0, 1:
			m[k] = M{`merge`: s}
		case 2:
			o := M{`strategy`: s}
			if chance(t, 3, `mergeoption`) {
				o[pick(t, `mopt`, `knockout_prefix`, `sort_merged_arrays`, `x`)] = pick[V](t, `mval`, `--`, true, L{`a`, M{`b`: int64(1)}})
			}
			m[k] = M{`merge`: o}
		default:
			m[k] = M{`other`: s}
		}
	}
	return m
}

// hits counts the existing files that define a key
func (w *World) hits(key string) int {
	n := 0
	for _, f := range w.Files {
		if m, ok := f.Data.V.(M); ok {
			if _, ok := m[key]; ok {
				n++
			}
		}
	}
	return n
}

// jsonSafe removes what JSON cannot express
func jsonSafe(v V) V {
	switch v := v.(type) {
	case L:
		c := make(L, len(v))
		for i, e := range v {
			c[i] = jsonSafe(e)
		}
		return c
	case M:
		c := M{}
		for k, e := range v {
			if !strings.HasPrefix(k, intKey) {
				c[k] = jsonSafe(e)
			}
		}
		return c
	}
	return v
}
