package harness

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	sdk "github.com/lyraproj/hierasdk/hiera"
	"pgregory.net/rapid"
)

type locCase struct {
	W      World    `json:"w"`
	Dirs   []string `json:"dirs"`   // directories that exist
	Scopes []Val    `json:"scopes"` // one for each lookup
	Abs    bool     `json:"abs"`    // absolute datadir
	Links  []File   `json:"links"`  // symbolic links and what they lead to
}

var treeNames = []string{`a`, `b`, `prod`, `dev`, `linux`, `x`, `a b`, `å`, `.hidden`, `B`, `c-1`, ``}
var treeDirs = []string{``, ``, `sub/`, `sub/`, `sub/deep/`, `prod/`, `d.yaml/`, `s p/`}

func genTreePath(t *rapid.T, varOK bool) string {
	s := pick(t, `dir`, treeDirs...)
	switch k := rapid.IntRange(0, 9).Draw(t, `form`); {
	case k < 4 || !varOK:
		s += pick(t, `name`, treeNames...) + `.yaml`
	case k < 7:
		s += `%{` + pick(t, `v`, `env`, `os`, `role`, `facts.os.name`, `facts.list.1`, `nested`, ` env `) + `}.yaml`
	case k == 7:
		s = `%{` + pick(t, `v`, `env`, `role`) + `}/%{os}.yaml`
	case k == 8:
		s = pick(t, `up`, `../other/`, `./`, `sub/../`, `sub//`) + pick(t, `name`, treeNames...) + `.yaml`
	default:
		s = pick(t, `odd`, `sub`, `missing/a.yaml`, `a`, `x%{unset}.yaml`, `%{env}%{os}.yaml`, `a.yaml/b.yaml`, `%{env}.yaml/%{role}.yaml`, `sub/a.yaml/`, `b.yaml/../a.yaml`, `link.yaml`, `sub/link.yaml`)
	}
	return s
}

func genTreeGlob(t *rapid.T) string {
	var segs []string
	for i := rapid.IntRange(0, 2).Draw(t, `segs`); i > 0; i-- {
		segs = append(segs, pick(t, `seg`, `*`, `**`, `sub`, `s*`, `{sub,prod}`, `%{env}`, `?????`))
	}
	segs = append(segs, pick(t, `last`, `*`, `*.yaml`, `**`, `?.yaml`, `[ab].yaml`, `[a-c]*`, `{a,b,%{role}}.yaml`, `%{env}.yaml`, `%{env}*`, `*%{unset}.yaml`, `nomatch*`, `a.yaml`, `*x*`, `{a,prod}*`, `.*`))
	g := strings.Join(segs, `/`)
	if strings.Count(g, `**`) > 1 {
		// The library in use has a meaning of its own for this
		g = `**/*.yaml`
	}
	return g
}

func genTreeLevel(t *rapid.T, i int) Level {
	l := Level{Name: fmt.Sprintf(`l%d`, i), Kind: `data_hash`, Fn: fmt.Sprintf(`rec%d`, i)}
	l.Datadir = pick(t, `datadir`, ``, ``, `data`, `other`, `%{env}`, `od[d`, `{b,c}`, `data/sub`, `nodir`, `st*r`, `q?y`, `ba\ck`)
	many := func(g func() string) (r []string) {
		for j := rapid.IntRange(1, 4).Draw(t, `n`); j > 0; j-- {
			r = append(r, g())
		}
		return
	}
	p := func() string { return genTreePath(t, true) }
	g := func() string { return genTreeGlob(t) }
	u := func() string {
		return pick(t, `uri`, `http://h/a`, `http://h/%{env}?q=1#f`, `u:%{os}/../x`, `file:///x//y/./z`, `%{role}`, `a b`, `http://[::1]/%{facts.os.name}`)
	}
	switch l.LocKey = pick(t, `kind`, `path`, `paths`, `paths`, `glob`, `globs`, `uri`, `uris`, `mapped_paths`, `mapped_paths`); l.LocKey {
	case `path`:
		l.Locs = []string{p()}
	case `paths`:
		l.Locs = many(p)
	case `glob`:
		l.Locs = []string{g()}
	case `globs`:
		l.Locs = many(g)
	case `uri`:
		l.Locs = []string{u()}
	case `uris`:
		l.Locs = many(u)
	default:
		v := pick(t, `mv`, `r`, `r`, `env`, `roles`, `å`)
		l.Locs = []string{pick(t, `src`, `roles`, `roles`, `env`, `unset`, `facts.list`, `facts.os`, `facts.os.name`, `objs`, `nroles`, `facts.nope`, `emptylist`),
			v, fmt.Sprintf(pick(t, `tpl`, `%%{%s}.yaml`, `%%{%s}.yaml`, `sub/%%{%s}.yaml`, `%%{%s}/%%{os}.yaml`, `%%{%s.name}.yaml`, `%%{ %s }`, `x.yaml%.0s`, `%%{%s}-%%{env}.yaml`), v)}
	}
	return l
}

func genTreeScope(t *rapid.T) M {
	m := M{}
	for _, n := range pathVars {
		if chance(t, 8, `has`) {
			m[n] = pick(t, `val`, `prod`, `dev`, `x`, `linux`, `a`, `sub`, `å`, ``)
		}
	}
	name := func() V { return pick[V](t, `role`, `prod`, `dev`, `a`, `b`, `x`, `a b`, `sub/a`, `link`, `sub/link`, ``) }
	list := func(what string) L {
		l := L{}
		for i := rapid.IntRange(0, 3).Draw(t, what); i > 0; i-- {
			l = append(l, name())
		}
		return l
	}
	m[`roles`] = list(`roles`)
	m[`nroles`] = L{`%{env}`, int64(1), `b`}
	m[`emptylist`] = L{}
	m[`nested`] = `%{role}`
	m[`objs`] = L{M{`name`: name()}, M{`name`: `b`}, `plain`}
	m[`facts`] = M{`os`: M{`name`: name()}, `list`: list(`fl`)}
	return m
}

func genLocCase(t *rapid.T) locCase {
	var c locCase
	if chance(t, 3, `defdir`) {
		c.W.Cfg.Defaults = &Level{Datadir: pick(t, `dd`, `other`, `data/sub`, `%{os}`)}
	}
	for i := rapid.IntRange(1, 3).Draw(t, `levels`) - 1; i >= 0; i-- {
		c.W.Cfg.Levels = append(c.W.Cfg.Levels, genTreeLevel(t, i))
	}
	seen := map[string]bool{}
	for _, d := range []string{`data/`, `data/`, `other/`, `prod/`, `od[d/`, `{b,c}/`, `st*r/`, `b/`, `stxr/`, `q?y/`, `qxy/`, `ba\ck/`, `back/`} {
		for i := rapid.IntRange(0, 6).Draw(t, `files`); i > 0; i-- {
			p := d + pick(t, `dir`, treeDirs...) + pick(t, `name`, treeNames...) + `.yaml`
			if !seen[p] {
				seen[p] = true
				c.W.Files = append(c.W.Files, File{Path: p, Data: Val{M{}}})
			}
		}
	}
	if chance(t, 3, `emptydir`) {
		c.Dirs = append(c.Dirs, pick(t, `edir`, `data/empty`, `data/e.yaml`, `data/sub/xd.yaml`))
	}
	globs := false
	for i := range c.W.Cfg.Levels {
		globs = globs || strings.HasPrefix(c.W.Cfg.Levels[i].LocKey, `glob`)
	}
	for _, p := range []string{`data/link.yaml`, `data/sub/link.yaml`, `other/link.yaml`} {
		if !globs && chance(t, 3, `link`) {
			c.Links = append(c.Links, File{Path: p, Raw: pick(t, `target`, `a.yaml`, `../data/b.yaml`, `nowhere.yaml`, `link.yaml`, `sub`, `a.yaml/x`)})
		}
	}
	c.W.SessScope = Val{M{`env`: pick(t, `senv`, `prod`, `dev`)}}
	for i := rapid.IntRange(1, 3).Draw(t, `lookups`); i > 0; i-- {
		c.Scopes = append(c.Scopes, Val{genTreeScope(t)})
	}
	c.Abs = chance(t, 2, `abs`)
	return c
}

func runLoc(x *X, c locCase) (err error) {
	dir := x.Dir()
	if c.Abs {
		for i := range c.W.Cfg.Levels {
			if l := &c.W.Cfg.Levels[i]; l.Datadir != `` {
				l.Datadir = filepath.Join(dir, l.Datadir)
			}
		}
	}
	c.W.write(dir)
	for _, d := range c.Dirs {
		p := filepath.Join(dir, d)
		writeFile(filepath.Join(p, `.keep`), `{}`)
	}
	for _, l := range c.Links {
		p := filepath.Join(dir, l.Path)
		must(os.MkdirAll(filepath.Dir(p), 0755))
		must(os.Symlink(l.Raw, p))
	}
	tp, o := c.W.options(dir)
	calls := map[string]L{}
	fns := map[string]interface{}{}
	for i := range c.W.Cfg.Levels {
		n := c.W.Cfg.Levels[i].Fn
		fns[n] = vf.Value(func(pc sdk.ProviderContext) dgo.Value {
			calls[n] = append(calls[n], toV(pc.Option(`path`)))
			return nil
		})
	}
	o[api.HieraFunctions] = fns
	withSession(tp, o, func(s api.Session) {
		for i, sc := range c.Scopes {
			c.W.Scope = sc
			m := newModel(&c.W, dir)
			calls = map[string]L{}
			got := capture(func() dgo.Value { return lookup(s.Invocation(c.W.scope(), nil), `k`, `unique`) })
			if got.Err != nil || got.Found {
				err = fmt.Errorf(`lookup %d gives %s`, i, got)
				return
			}
			for j := range c.W.Cfg.Levels {
				l := m.resolveLevel(&c.W.Cfg.Levels[j], c.W.Cfg.Defaults, dir)
				want := L{}
				missing := 0
				for _, p := range l.locs {
					if p.exists {
						want = append(want, p.path)
					} else {
						missing++
					}
				}
				// A location that occurs twice needs to be read just once
				want = uniq(want)
				x.Label(`%s existing=%d missing=%v`, c.W.Cfg.Levels[j].LocKey, min(len(want), 3), missing > 0)
				if len(want) > 0 && (missing > 0 || len(want) > 1) || strings.Contains(strings.Join(c.W.Cfg.Levels[j].Locs, ` `), `%{`) {
					x.NonTrivial()
				}
				if !eq(uniq(calls[l.fn]), want) {
					err = fmt.Errorf("lookup %d, level %s: %s %v in %s\n  consulted %s\n  want      %s\n  existing: %s", i, l.name, c.W.Cfg.Levels[j].LocKey, c.W.Cfg.Levels[j].Locs, c.W.Cfg.Levels[j].Datadir,
						show(calls[l.fn]), show(want), c.paths())
					return
				}
			}
		}
	})
	return
}

func (c *locCase) paths() string {
	var ps []string
	for _, f := range c.W.Files {
		ps = append(ps, f.Path)
	}
	ps = append(ps, c.Dirs...)
	sort.Strings(ps)
	return strings.Join(ps, `, `)
}

// Each file contains its own name
func runFiles(x *X, c locCase) (err error) {
	dir := x.Dir()
	for i := range c.W.Cfg.Levels {
		l := &c.W.Cfg.Levels[i]
		l.Kind, l.Fn = `data_hash`, `yaml_data`
		if strings.HasPrefix(l.LocKey, `uri`) {
			l.LocKey, l.Locs = `path`, []string{`a.yaml`}
		}
	}
	for i := range c.W.Files {
		c.W.Files[i].Data = Val{M{`name`: c.W.Files[i].Path, `list`: L{c.W.Files[i].Path}}}
	}
	c.W.write(dir)
	c.W.inSession(dir, func(s api.Session) {
		for i, sc := range c.Scopes {
			c.W.Scope = sc
			m := newModel(&c.W, dir)
			m.files[filepath.Join(dir, `hiera.yaml`)] = &File{Data: Val{M{}}}
			for _, st := range []string{`first`, `unique`, `deep`} {
				k := `list`
				if st == `first` {
					k = `name`
				}
				want := m.lookup(k, st)
				got := capture(func() dgo.Value { return lookup(s.Invocation(c.W.scope(), nil), k, st) })
				if want.Err != nil {
					x.Label(`directory`)
				}
				if want.Found {
					x.NonTrivial()
				}
				if !got.same(want) {
					err = differ(fmt.Sprintf(`lookup %d, %s`, i, st), got, want)
					return
				}
			}
		}
	})
	return
}

func init() {
	register(&Property{
		ID: `C09`,
		Rule: `A case is a tree of files and directories (names with spaces, non-ASCII and pattern characters, some paths lead through a file or a symbolic link), one to three levels with any kind of
location and datadir, and a sequence of lookups in one session with different scopes. A recording function is used by each level; the paths
it was called with must be those that the configuration denotes, in that order, found by the model by walking the whole tree. Non-trivial:
more than one location exists, some but not all exist, or the location contains an expression.`,
		Assumptions: []string{`a location that occurs several times in a level may be read just once`},
		Subs: []subCheck{
			Spec[locCase]{Name: `recorded`, Quick: 2500, Thorough: 40000, Gen: genLocCase, Run: runLoc},
			Spec[locCase]{Name: `large`, Quick: 150, Thorough: 2500, Gen: genLargeLoc, Run: runLoc},
			Spec[locCase]{Name: `files`, Quick: 1200, Thorough: 20000, Gen: genLocCase, Run: runFiles},
		},
	})
}
