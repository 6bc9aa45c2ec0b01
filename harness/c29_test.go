package harness

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/cli"
	"github.com/lyraproj/hiera/provider"
	sdk "github.com/lyraproj/hierasdk/hiera"
	"pgregory.net/rapid"
)

// prefCase is a combination of the ways to appoint a configuration. A leading @ in a path means that it's absolute, below the directory of the
// case. Other paths are relative
type prefCase struct {
	Cwd      string   `json:"cwd"`
	Root     string   `json:"root,omitempty"`
	FileName string   `json:"filename,omitempty"`
	Explicit string   `json:"explicit,omitempty"`
	Env      string   `json:"env,omitempty"`
	Files    []string `json:"files"` // the configurations that exist
	Datadirs []string `json:"datadirs"`
	Links    []bool   `json:"links,omitempty"` // if they are symbolic links to files in another directory
	Dirs     []bool   `json:"dirs,omitempty"`  // if they are directories
	Plain    []string `json:"plain"`           // directories with files that the default configuration reads
	Via      string   `json:"via"`             // session, mux or cli
	Plugin   bool     `json:"plugin"`
}

var prefDirs = []string{`w`, `w/sub`, `r`, `r/sub`, `o`}

var prefNames = []string{`hiera.yaml`, `alt.yaml`, `x.conf`, `noext`, `a b.yaml`, `.hidden`}

func genPrefCase(t *rapid.T) prefCase {
	c := prefCase{Cwd: pick(t, `cwd`, `w`, `w`, `r`, `o`), Via: pick(t, `via`, `session`, `session`, `mux`, `cli`)}
	// rel generates a path relative to some directory, or an absolute one
	file := func(what string) string {
		n := pick(t, what+`name`, prefNames...)
		switch rapid.IntRange(0, 5).Draw(t, what+`kind`) {
		case 0:
			return `sub/` + n
		case 1:
			return `../` + pick(t, what+`dir`, `w`, `r`, `o`) + `/` + n
		case 2, 3:
			return `@` + pick(t, what+`dir`, prefDirs...) + `/` + n
		case 4:
			return `./` + n
		}
		return n
	}
	if chance(t, 3, `explicit`) {
		c.Explicit = file(`explicit`)
	}
	if c.Via != `cli` {
		if chance(t, 6, `root`) {
			c.Root = pick(t, `rootdir`, `@r`, `@w`, `../r`, `../o`, `.`, `sub`, `@r/sub/..`)
		}
		if chance(t, 3, `filename`) {
			c.FileName = file(`filename`)
		}
	}
	if chance(t, 4, `env`) {
		c.Env = file(`env`)
	}
	for _, d := range prefDirs {
		for _, n := range prefNames {
			if chance(t, 8, `exists`) {
				c.Files = append(c.Files, d+`/`+n)
				c.Datadirs = append(c.Datadirs, pick(t, `datadir`, ``, ``, `data`, `other/data`, `..`, `@o/abs`))
				c.Links = append(c.Links, chance(t, 2, `link`))
				c.Dirs = append(c.Dirs, chance(t, 1, `dir`))
			}
		}
		if chance(t, 7, `plain`) {
			c.Plain = append(c.Plain, d)
		}
	}
	c.Plugin = chance(t, 2, `plugin`)
	return c
}

func runPrefCase(x *X, c prefCase) error {
	base := x.Dir()
	abs := func(rel, p string) string {
		if strings.HasPrefix(p, `@`) {
			return filepath.Join(base, p[1:])
		}
		return filepath.Join(rel, p)
	}
	text := func(p string) string {
		if strings.HasPrefix(p, `@`) {
			return base + `/` + p[1:] // as it is
		}
		return p
	}
	for _, d := range prefDirs {
		must(os.MkdirAll(filepath.Join(base, d), 0755))
	}
	datadir := map[string]string{} // directory with data of each configuration
	pids, started := filepath.Join(base, `pids`), filepath.Join(base, `started`)
	x.Cleanup(func() { reap(pids) })
	for i, f := range c.Files {
		p := filepath.Join(base, f)
		dd := abs(filepath.Dir(p), c.Datadirs[i])
		l := Level{Name: f, LocKey: `paths`, Locs: []string{filepath.Base(f) + `.d.yaml`, `nosuch.yaml`}}
		if c.Datadirs[i] == `` {
			dd = filepath.Join(filepath.Dir(p), `data`)
		} else {
			l.Datadir = text(c.Datadirs[i])
		}
		datadir[p] = dd
		cfg := Config{Levels: []Level{l}}
		if c.Plugin {
			cfg.Levels = append(cfg.Levels, Level{Name: `plugin`, Kind: `lookup_key`, Fn: `fn`})
			plugScript(filepath.Join(filepath.Dir(p), `plugin`, `fn`), pids, `echo "$0" >> '`+started+`'; exit 3`)
		}
		if i < len(c.Dirs) && c.Dirs[i] {
			must(os.Mkdir(p, 0755))
			datadir[p] = ``
			continue
		}
		if i < len(c.Links) && c.Links[i] {
			// Nothing that is beside the target is used
			t := filepath.Join(base, `t`, fmt.Sprint(i), `target.yaml`)
			writeFile(t, cfg.text())
			must(os.Symlink(t, p))
			if dd := c.Datadirs[i]; !filepath.IsAbs(text(dd)) {
				if dd == `` {
					dd = `data`
				}
				d := filepath.Join(filepath.Dir(t), dd, l.Locs[0])
				writeFile(d, flow(M{`k`: d})+"\n")
			}
			if c.Plugin {
				plugScript(filepath.Join(filepath.Dir(t), `plugin`, `fn`), pids, `echo "$0" >> '`+started+`'; exit 3`)
			}
			x.Label(`links`)
		} else {
			writeFile(p, cfg.text())
		}
		d := filepath.Join(dd, l.Locs[0])
		old, err := os.ReadFile(d)
		must2(err)
		if len(old) == 0 {
			writeFile(d, flow(M{`k`: d})+"\n")
		}
	}
	for _, d := range c.Plain {
		for _, f := range []string{`data.yaml`, `data/common.yaml`} {
			p := filepath.Join(base, d, f)
			writeFile(p, flow(M{`k`: p})+"\n")
		}
	}

	wd, err := os.Getwd()
	must(err)
	cwd := filepath.Join(base, c.Cwd)
	must(os.Chdir(cwd))
	defer func() { must(os.Chdir(wd)) }()
	if c.Env != `` {
		must(os.Setenv(`HIERA_CONFIGFILE`, text(c.Env)))
		defer func() { must(os.Unsetenv(`HIERA_CONFIGFILE`)) }()
	}

	// What's expected
	root := cwd
	if c.Root != `` {
		root = abs(cwd, c.Root)
	}
	var cfg string
	switch {
	case c.Explicit != ``:
		cfg = abs(cwd, c.Explicit)
		x.Label(`explicit`)
	case c.FileName != ``:
		cfg = abs(root, c.FileName)
		x.Label(`file name`)
	case c.Env != ``:
		cfg = abs(root, c.Env)
		x.Label(`environment`)
	default:
		cfg = filepath.Join(root, `hiera.yaml`)
		x.Label(`default`)
	}
	var want L
	exists := false
	if dd, ok := datadir[cfg]; ok {
		want, exists = L{filepath.Join(dd, filepath.Base(cfg)+`.d.yaml`)}, true
		x.Label(`exists`)
	} else {
		for _, f := range []string{`data.yaml`, `data/common.yaml`} {
			p := filepath.Join(filepath.Dir(cfg), f)
			if _, err := os.Stat(p); err == nil {
				want = append(want, p)
			}
		}
		x.Label(`does not exist`)
	}
	x.NonTrivial()

	// Look it up
	var got Res
	describe := ``
	if c.Via == `cli` {
		args := []string{`k`, `--merge`, `unique`, `--render-as`, `json`}
		if c.Explicit != `` {
			args = append(args, `--config`, text(c.Explicit))
		}
		describe = fmt.Sprintf(`lookup %q`, args)
		out, err := cli.ExecuteLookup(args...)
		if err != nil {
			got.Err = err
		} else if len(out) > 0 {
			v, err := parseJSON(out)
			if err != nil {
				return fmt.Errorf(`%s gave %q: %v`, describe, out, err)
			}
			got = value(v)
		}
	} else {
		o := map[string]interface{}{}
		if c.Explicit != `` {
			o[api.HieraConfig] = text(c.Explicit)
		}
		if c.Root != `` {
			o[api.HieraRoot] = text(c.Root)
		}
		if c.FileName != `` {
			o[api.HieraConfigFileName] = text(c.FileName)
		}
		tp := provider.ConfigLookupKey
		if c.Via == `mux` {
			tp = provider.MuxLookupKey
			o[provider.LookupKeyFunctions] = []sdk.LookupKey{provider.ConfigLookupKey, provider.Environment}
		}
		describe = fmt.Sprintf(`session with options %v`, o)
		got = capture(func() (v dgo.Value) {
			withSession(tp, o, func(s api.Session) { v = lookup(s.Invocation(nil, nil), `k`, `unique`) })
			return
		})
	}
	describe += fmt.Sprintf(` in %s, HIERA_CONFIGFILE=%q`, c.Cwd, c.Env)
	if exists && datadir[cfg] == `` {
		// It can't be read
		x.Label(`directory`)
		if got.Err == nil || isRuntime(got.Err) {
			return fmt.Errorf(`%s: got %s, expected an error since %s is a directory`, describe, got, cfg)
		}
		return nil
	}
	if exists && c.Plugin {
		p := filepath.Join(filepath.Dir(cfg), `plugin`, `fn`)
		bs, _ := os.ReadFile(started)
		if got.Err == nil || len(bs) == 0 {
			return fmt.Errorf(`%s: got %s, expected an error from plugin %s`, describe, got, p)
		}
		for _, l := range strings.Split(strings.TrimSpace(string(bs)), "\n") {
			if l != p {
				return fmt.Errorf(`%s: plugin %s was started, expected %s`, describe, l, p)
			}
		}
		x.Label(`plugin`)
		return nil
	}
	w := Res{}
	if len(want) > 0 {
		w = value(want)
	}
	if !got.same(w) {
		return fmt.Errorf(`%s: got %s, expected %s from %s`, describe, got, w, cfg)
	}
	return nil
}

// must2 is like must but it's fine if a file doesn't exist
func must2(err error) {
	if !os.IsNotExist(err) {
		must(err)
	}
}

func init() {
	register(&Property{
		ID:   `C29`,
		Rule: `always: each case decides which configuration is used`,
		Assumptions: []string{
			`An empty HIERA_CONFIGFILE isn't generated.`,
		},
		Subs: []subCheck{
			Spec[prefCase]{`precedence`, 3000, 60000, genPrefCase, runPrefCase},
		},
	})
}
