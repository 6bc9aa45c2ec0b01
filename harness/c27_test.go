package harness

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/provider"
	sdk "github.com/lyraproj/hierasdk/hiera"
	"pgregory.net/rapid"
)

const c27Prefix = `VERIF_C27_`

// envStep changes the environment or looks something up in it
type envStep struct {
	Op    string `json:"op"` // set, unset, get, dig, all, pick or other
	Name  string `json:"name,omitempty"`
	Value string `json:"value,omitempty"`
	How   int    `json:"how,omitempty"` // how the name is quoted
	New   bool   `json:"new,omitempty"` // use a new invocation
}

type envCase struct {
	Alone bool      `json:"alone"` // the environment is the only top level function
	Steps []envStep `json:"steps"`
}

func genEnvName(t *rapid.T) string {
	switch rapid.IntRange(0, 9).Draw(t, `namekind`) {
	case 0:
		s := strings.NewReplacer(`=`, ``, "\x00", ``).Replace(genOddString(t))
		return c27Prefix + s
	case 1:
		return c27Prefix + pick(t, `odd`, `a.b`, `a::b`, `it's`, `"q"`, `x y`, `0`, `::`, `a.`, `env::A`)
	}
	return c27Prefix + pick(t, `name`, `A`, `B`, `AB`, `a`, ``)
}

func genEnvCase(t *rapid.T) envCase {
	c := envCase{Alone: chance(t, 3, `alone`)}
	var set []string
	for i := rapid.IntRange(2, 14).Draw(t, `nsteps`); i > 0; i-- {
		s := envStep{Op: pick(t, `op`, `set`, `set`, `set`, `unset`, `get`, `get`, `get`, `get`, `dig`, `all`, `pick`, `other`), New: rapid.Bool().Draw(t, `new`), How: rapid.IntRange(0, 2).Draw(t, `how`)}
		if s.Op != `all` {
			s.Name = genEnvName(t)
			if len(set) > 0 && chance(t, 6, `known`) {
				s.Name = set[rapid.IntRange(0, len(set)-1).Draw(t, `which`)]
			}
		}
		if s.Op == `set` {
			set = append(set, s.Name)
			s.Value = strings.ReplaceAll(genOddString(t), "\x00", ``)
			if chance(t, 2, `typical`) {
				s.Value = pick(t, `value`, `a=b`, `=`, `/usr/bin:/bin`, `true`, `10`, `{"a": 1}`, `null`, "two\nlines", ` x `, `x%{v}y`, `%{w}`, `50%`)
			}
		}
		c.Steps = append(c.Steps, s)
	}
	return c
}

func runEnvCase(x *X, c envCase) error {
	env := map[string]string{} // the variables with our prefix
	x.Cleanup(func() {
		for n := range env {
			_ = os.Unsetenv(n)
		}
	})
	o := map[string]interface{}{api.HieraRoot: x.Dir(), api.HieraScope: toDMap(M{`v`: `V`})}
	tp := provider.Environment
	if !c.Alone {
		tp = provider.MuxLookupKey
		o[provider.LookupKeyFunctions] = []sdk.LookupKey{provider.ConfigLookupKey, provider.Environment}
	}
	interp := strings.NewReplacer(`%{v}`, `V`, `%{w}`, ``).Replace
	var err error
	withSession(tp, o, func(s api.Session) {
		ic := s.Invocation(nil, nil)
		for i, st := range c.Steps {
			if st.New {
				ic = s.Invocation(nil, nil)
			}
			look := func(key string) Res {
				return capture(func() dgo.Value { return hiera.Lookup(ic, key, nil, nil) })
			}
			var key string
			want := Res{}
			switch st.Op {
			case `set`:
				must(os.Setenv(st.Name, st.Value))
				env[st.Name] = st.Value
				continue
			case `unset`:
				must(os.Unsetenv(st.Name))
				delete(env, st.Name)
				continue
			case `get`, `dig`:
				key = writeSeg(`env::`+st.Name, st.How)
				if v, ok := env[st.Name]; ok {
					want = value(interp(v))
				}
				if st.Op == `dig` {
					key += `.` + pick2(st.How, `0`, `a`, `length`)
					want = Res{}
				}
			case `pick`:
				key = `env.` + writeSeg(st.Name, st.How)
				if v, ok := env[st.Name]; ok {
					want = value(interp(v))
				}
			case `other`:
				// Similar keys have nothing to do with the environment
				key = writeSeg(pick2(st.How, `ENV::`, `env:`, `::env::`)+st.Name, 1)
			case `all`:
				got := look(`env`)
				m, ok := got.V.(M)
				if got.Err != nil || !ok {
					err = fmt.Errorf(`step %d: env is %s`, i, head(got.String(), 300))
					return
				}
				all := os.Environ()
				n := 0
				for _, kv := range all {
					ix := strings.IndexByte(kv, '=')
					if ix <= 0 {
						continue
					}
					n++
					name, val := kv[:ix], kv[ix+1:]
					if strings.HasPrefix(name, c27Prefix) {
						val = interp(val)
					}
					if v, ok := m[name]; !ok || !eq(v, val) && !strings.Contains(val, `%{`) {
						err = fmt.Errorf(`step %d: variable %s of env is %s, expected %q`, i, name, show(v), val)
						return
					}
				}
				if n != len(m) {
					err = fmt.Errorf(`step %d: env has %d variables, expected %d`, i, len(m), n)
					return
				}
				x.Label(`all`)
				continue
			}
			got := look(key)
			if !got.same(want) {
				err = fmt.Errorf(`step %d: got %s for key %s, expected %s`, i, got, key, want)
				return
			}
			if want.Found {
				x.Label(`%s found`, st.Op)
				x.NonTrivial()
			} else {
				x.Label(`%s not found`, st.Op)
			}
		}
	})
	return err
}

func pick2(i int, s ...string) string { return s[i%len(s)] }

// dirCase is a combination of settings of directories
type dirCase struct {
	DataEnv   *string  `json:"dataenv,omitempty"` // value of HIERA_DATADIR. A leading @ means absolute
	PluginEnv *string  `json:"pluginenv,omitempty"`
	Defaults  bool     `json:"defaults"` // there's a section with defaults
	DefData   string   `json:"defdata,omitempty"`
	DefPlugin string   `json:"defplugin,omitempty"`
	LvlData   []string `json:"lvldata"` // datadir of each level
	LvlPlugin string   `json:"lvlplugin,omitempty"`
	Cfg       string   `json:"cfg,omitempty"` // empty, none for no file, nohierarchy for a file without a hierarchy
	Module    bool     `json:"module"`        // the configuration is that of a module
}

var dirNames = []string{`data`, `d1`, `d2/sub`, `@d3`, `../beside`, `.`, `d%{v}`}

func genDirCase(t *rapid.T) dirCase {
	dir := func(what string, p int) string {
		if !chance(t, p, what) {
			return ``
		}
		return pick(t, what+`dir`, dirNames...)
	}
	env := func(what string) *string {
		if !chance(t, 6, what) {
			return nil
		}
		s := pick(t, what+`env`, `data`, `plugin`, `d1`, `d4`, `@d5`, `d4/x`, ``, `.`)
		return &s
	}
	c := dirCase{DataEnv: env(`dataenv`), PluginEnv: env(`pluginenv`), Cfg: pick(t, `cfg`, ``, ``, ``, ``, `none`, `nohierarchy`), Module: chance(t, 3, `module`)}
	if c.Cfg == `none` {
		c.Module = false
	} else {
		c.Defaults = rapid.Bool().Draw(t, `defaults`)
		if c.Defaults {
			c.DefData, c.DefPlugin = dir(`defdata`, 5), dir(`defplugin`, 5)
		}
	}
	if c.Cfg == `` {
		for i := rapid.IntRange(1, 3).Draw(t, `nlevels`); i > 0; i-- {
			c.LvlData = append(c.LvlData, dir(`lvldata`, 4))
		}
		c.LvlPlugin = dir(`lvlplugin`, 4)
	}
	return c
}

func runDirCase(x *X, c dirCase) error {
	base := x.Dir()
	root := filepath.Join(base, `root`)
	if c.Module {
		root = filepath.Join(base, `root`, `modules`, `mod`)
	}
	must(os.MkdirAll(root, 0755))
	text := func(s string) string {
		if strings.HasPrefix(s, `@`) {
			return filepath.Join(base, s[1:])
		}
		return s
	}
	setenv := func(n string, v *string) {
		if v == nil {
			must(os.Unsetenv(n))
			return
		}
		must(os.Setenv(n, text(*v)))
		x.Cleanup(func() { _ = os.Unsetenv(n) })
	}
	setenv(`HIERA_DATADIR`, c.DataEnv)
	setenv(`HIERA_PLUGINDIR`, c.PluginEnv)

	// resolve is the directory that a setting denotes
	resolve := func(s string) string {
		s = strings.ReplaceAll(text(s), `%{v}`, `V`)
		if filepath.IsAbs(s) {
			return filepath.Clean(s)
		}
		return filepath.Join(root, s)
	}
	effective := func(level, def string, env *string, builtin string) string {
		switch {
		case level != ``:
			return resolve(level)
		case def != ``:
			return resolve(def)
		case env != nil:
			return resolve(*env)
		}
		return resolve(builtin)
	}

	// All directories that can be involved have the files of all levels
	dirs := map[string]bool{}
	for _, d := range append([]string{`plugin`, `d4`, `@d5`, `d4/x`}, dirNames...) {
		dirs[resolve(d)] = true
	}
	pids, started := filepath.Join(base, `pids`), filepath.Join(base, `started`)
	x.Cleanup(func() { reap(pids) })
	const prefix = `mod::`
	for d := range dirs {
		for _, f := range []string{`l0`, `l1`, `l2`, `data`, `common`} {
			p := filepath.Join(d, f+`.yaml`)
			writeFile(p, flow(M{prefix + `k`: p})+"\n")
		}
		if c.LvlData != nil {
			plugScript(filepath.Join(d, `fn`), pids, `echo "$0" >> '`+started+`'; exit 3`)
		}
	}

	write := func(levels []Level) {
		m := M{`version`: int64(5)}
		if c.Defaults {
			d := Level{Datadir: text(c.DefData), Plugindir: text(c.DefPlugin)}
			m[`defaults`] = d.toM()
		}
		if levels != nil {
			var h L
			for i := range levels {
				h = append(h, levels[i].toM())
			}
			m[`hierarchy`] = h
		}
		writeFile(filepath.Join(root, `hiera.yaml`), flow(m)+"\n")
	}
	o := map[string]interface{}{api.HieraRoot: filepath.Join(base, `root`), api.HieraScope: toDMap(M{`v`: `V`})}
	tp := provider.ConfigLookupKey
	if c.Module {
		tp = provider.ModuleLookupKey
		o[provider.ModulePath] = filepath.Join(base, `root`, `modules`)
	}
	look := func() Res {
		return capture(func() (v dgo.Value) {
			withSession(tp, o, func(s api.Session) { v = lookup(s.Invocation(nil, nil), prefix+`k`, `unique`) })
			return
		})
	}

	var want L
	add := func(p string) {
		for _, e := range want {
			if e == p {
				return
			}
		}
		want = append(want, p)
	}
	if c.Cfg == `` {
		var ls []Level
		for i, d := range c.LvlData {
			ls = append(ls, Level{Name: fmt.Sprint(i), Kind: `data_hash`, Fn: `yaml_data`, LocKey: `path`, Locs: []string{fmt.Sprintf(`l%d.yaml`, i)}, Datadir: text(d)})
			add(filepath.Join(effective(d, c.DefData, c.DataEnv, `data`), fmt.Sprintf(`l%d.yaml`, i)))
		}
		write(ls)
	} else {
		if c.Cfg == `nohierarchy` {
			write(nil)
		}
		add(filepath.Join(root, `data.yaml`))
		add(filepath.Join(effective(``, c.DefData, c.DataEnv, `data`), `common.yaml`))
	}
	var data V = want
	if len(c.LvlData) == 1 {
		data = want[0] // a single source isn't merged with anything
	}
	if got := look(); !got.same(value(data)) {
		return fmt.Errorf(`got data %s, expected %s`, got, show(data))
	}
	from := `builtin`
	if c.DataEnv != nil {
		from = `environment`
	}
	if c.DefData != `` {
		from = `defaults`
	}
	x.Label(`datadir from %s`, from)
	if c.DataEnv != nil || c.PluginEnv != nil {
		x.NonTrivial()
	}
	x.Label(`cfg %s`, c.Cfg)

	if c.LvlData != nil {
		write([]Level{{Name: `p`, Kind: `lookup_key`, Fn: `fn`, Plugindir: text(c.LvlPlugin)}})
		p := filepath.Join(effective(c.LvlPlugin, c.DefPlugin, c.PluginEnv, `plugin`), `fn`)
		got := look()
		if got.Err == nil {
			return fmt.Errorf(`no error from a plugin that doesn't work: %s`, got)
		}
		bs, err := os.ReadFile(started)
		if err != nil {
			return fmt.Errorf(`no plugin was started, expected %s: %s`, p, got)
		}
		for _, l := range strings.Split(strings.TrimSpace(string(bs)), "\n") {
			if l != p {
				return fmt.Errorf(`plugin %s was started, expected %s`, l, p)
			}
		}
		x.Label(`plugin`)
	}
	return nil
}

func init() {
	register(&Property{
		ID:   `C27`,
		Rule: `a variable that is set is looked up, or HIERA_DATADIR or HIERA_PLUGINDIR is set`,
		Assumptions: []string{
			`Found values of environment variables are interpolated like all other data, so a value that contains an expression is expected in its interpolated form.`,
			`A setting that is empty in the environment denotes the directory of the configuration.`,
		},
		Subs: []subCheck{
			Spec[envCase]{`variables`, 3000, 100000, genEnvCase, runEnvCase},
			Spec[dirCase]{`directories`, 1000, 20000, genDirCase, runDirCase},
			Spec[prefCase]{`configfile`, 500, 10000, genPrefCase, runPrefCase},
		},
	})
}
