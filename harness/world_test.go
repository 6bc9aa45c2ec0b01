package harness

import (
	"context"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/provider"
	"github.com/lyraproj/hiera/session"
	sdk "github.com/lyraproj/hierasdk/hiera"
)

// Level is a level of a hierarchy, or the defaults
type Level struct {
	Name       string   `json:"name,omitempty"`
	Kind       string   `json:"kind,omitempty"` // data_hash, lookup_key, data_dig or empty
	Fn         string   `json:"fn,omitempty"`
	Datadir    string   `json:"datadir,omitempty"`
	Plugindir  string   `json:"plugindir,omitempty"`
	Pluginfile string   `json:"pluginfile,omitempty"`
	Opts       *Val     `json:"opts,omitempty"`
	LocKey     string   `json:"lockey,omitempty"`
	Locs       []string `json:"locs,omitempty"`
}

// Config is a hiera.yaml
type Config struct {
	Defaults *Level  `json:"defaults,omitempty"`
	Levels   []Level `json:"levels"`
}

// File is a data file
type File struct {
	Path string `json:"path"`
	Data Val    `json:"data"`
	Raw  string `json:"raw,omitempty"` // used as it is unless empty
}

// Module is a module directory
type Module struct {
	Root  string `json:"root"` // element of the module path
	Name  string `json:"name"` // name of directory
	Cfg   Config `json:"cfg"`
	NoCfg bool   `json:"nocfg,omitempty"`
	Odd   string `json:"odd,omitempty"`  // file: not a directory, cfgdir: hiera.yaml is a directory, dangling: a link to nothing
	Link  bool   `json:"link,omitempty"` // the directory, or file, is a symbolic link
	Files []File `json:"files"`
}

// World is everything that a lookup can see
type World struct {
	Cfg        Config   `json:"cfg"`
	Files      []File   `json:"files"`
	ModulePath []string `json:"modulepath,omitempty"`
	Modules    []Module `json:"modules,omitempty"`
	Scope      Val      `json:"scope"` // of the invocation
	SessScope  Val      `json:"sess_scope"`
	Mux        []string `json:"mux,omitempty"` // names of top level functions
}

func (l *Level) toM() M {
	m := M{}
	set := func(k, v string) {
		if v != `` {
			m[k] = v
		}
	}
	set(`name`, l.Name)
	if l.Kind != `` {
		m[l.Kind] = l.Fn
	}
	set(`datadir`, l.Datadir)
	set(`plugindir`, l.Plugindir)
	set(`pluginfile`, l.Pluginfile)
	if l.Opts != nil {
		m[`options`] = l.Opts.V
	}
	switch l.LocKey {
	case ``:
	case `path`, `glob`, `uri`:
		m[l.LocKey] = l.Locs[0]
	default:
		a := make(L, len(l.Locs))
		for i, s := range l.Locs {
			a[i] = s
		}
		m[l.LocKey] = a
	}
	return m
}

func (c *Config) text() string {
	m := M{`version`: int64(5)}
	if c.Defaults != nil {
		m[`defaults`] = c.Defaults.toM()
	}
	h := make(L, len(c.Levels))
	for i := range c.Levels {
		h[i] = c.Levels[i].toM()
	}
	m[`hierarchy`] = h
	return flow(m) + "\n"
}

func writeFile(path, content string) {
	must(os.MkdirAll(filepath.Dir(path), 0755))
	must(os.WriteFile(path, []byte(content), 0644))
}

func (f *File) text() string {
	if f.Raw != `` {
		return f.Raw
	}
	return flow(f.Data.V) + "\n"
}

// write creates all files under the given directory
func (w *World) write(dir string) {
	writeFile(filepath.Join(dir, `hiera.yaml`), w.Cfg.text())
	for _, f := range w.Files {
		writeFile(filepath.Join(dir, f.Path), f.text())
	}
	for _, p := range w.ModulePath {
		must(os.MkdirAll(filepath.Join(dir, p), 0755))
	}
	for i, m := range w.Modules {
		md := filepath.Join(dir, m.Root, m.Name)
		if m.Odd == `dangling` {
			must(os.Symlink(filepath.Join(dir, `nothing`, m.Name), md))
			continue
		}
		if m.Link {
			real := filepath.Join(dir, `linked`, fmt.Sprintf(`d%d`, i))
			must(os.MkdirAll(filepath.Dir(real), 0755))
			must(os.Symlink(real, md))
			md = real
		}
		if m.Odd == `file` {
			writeFile(md, m.Cfg.text())
			continue
		}
		must(os.MkdirAll(md, 0755))
		if m.Odd == `cfgdir` {
			must(os.MkdirAll(filepath.Join(md, `hiera.yaml`), 0755))
			continue
		}
		if !m.NoCfg {
			writeFile(filepath.Join(md, `hiera.yaml`), m.Cfg.text())
		}
		for _, f := range m.Files {
			writeFile(filepath.Join(md, f.Path), f.text())
		}
	}
}

var topFunctions = map[string]sdk.LookupKey{
	`config`: provider.ConfigLookupKey,
	`env`:    provider.Environment,
	`module`: provider.ModuleLookupKey,
	`yaml`:   provider.YamlLookupKey,
}

// options are the session options for this world
func (w *World) options(dir string) (sdk.LookupKey, map[string]interface{}) {
	o := map[string]interface{}{api.HieraRoot: dir}
	if m, ok := w.SessScope.V.(M); ok && len(m) > 0 {
		o[api.HieraScope] = toDMap(m)
	}
	if len(w.ModulePath) > 0 {
		ps := make([]string, len(w.ModulePath))
		for i, p := range w.ModulePath {
			ps[i] = filepath.Join(dir, p)
		}
		o[provider.ModulePath] = strings.Join(ps, string(os.PathListSeparator))
	}
	tp := provider.ConfigLookupKey
	if len(w.Mux) > 0 {
		tp = provider.MuxLookupKey
		fns := make([]sdk.LookupKey, len(w.Mux))
		for i, n := range w.Mux {
			f := topFunctions[n]
			if f == nil {
				panic(infra{fmt.Errorf(`no top function %s`, n)})
			}
			fns[i] = f
		}
		o[provider.LookupKeyFunctions] = fns
	}
	return tp, o
}

func (w *World) scope() interface{} {
	if m, ok := w.Scope.V.(M); ok {
		return toDMap(m)
	}
	return nil
}

// Res is the outcome of a lookup
type Res struct {
	Found  bool
	V      V
	Err    error
	Unsure bool // anything but an error. Only as an expectation
}

func (r Res) String() string {
	if r.Err != nil {
		return fmt.Sprintf(`error(%s)`, head(r.Err.Error(), 300))
	}
	if !r.Found {
		return `not found`
	}
	return show(r.V)
}

func value(v V) Res { return Res{Found: true, V: v} }
func (r Res) same(o Res) bool {
	if r.Unsure || o.Unsure {
		return r.Err == nil && o.Err == nil
	}
	if r.Err != nil || o.Err != nil {
		return r.Err != nil && o.Err != nil
	}
	return r.Found == o.Found && (!r.Found || eq(r.V, o.V))
}

// capture performs an action that may panic
func capture(f func() dgo.Value) (r Res) {
	defer func() {
		if e := recover(); e != nil {
			r = Res{Err: panicError(e)}
		}
	}()
	if v := f(); v != nil {
		r = value(toV(v))
	}
	return
}

func panicError(e interface{}) error {
	switch e := e.(type) {
	case infra:
		panic(e)
	case error:
		return e
	case string:
		return errors.New(e)
	default:
		// Not something that util.Catch makes an error of
		return fmt.Errorf(`unexpected panic %T: %v`, e, e)
	}
}

func isRuntime(err error) bool {
	var re runtime.Error
	return errors.As(err, &re)
}

func mergeOpt(strategy string) map[string]interface{} {
	if strategy == `` {
		return nil
	}
	return map[string]interface{}{`merge`: strategy}
}

// inSession performs the given function in a new session
func (w *World) inSession(dir string, f func(s api.Session)) {
	tp, o := w.options(dir)
	withSession(tp, o, f)
}

func withSession(tp sdk.LookupKey, o map[string]interface{}, f func(s api.Session)) {
	s := session.New(context.Background(), tp, o, nil)
	defer s.KillPlugins()
	f(s)
}

// lookup performs one lookup in a new session
func (w *World) lookup(dir, key, strategy string) Res {
	return capture(func() (v dgo.Value) {
		w.inSession(dir, func(s api.Session) {
			v = lookup(s.Invocation(w.scope(), nil), key, strategy)
		})
		return
	})
}

func lookup(ic api.Invocation, key, strategy string) dgo.Value {
	if strategy == `` {
		return hiera.Lookup(ic, key, nil, nil)
	}
	return hiera.Lookup(ic, key, nil, mergeOpt(strategy))
}
