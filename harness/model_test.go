package harness

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// The reference model. It evaluates lookups in a World in the most direct way, without caches and without sharing code
// with the implementation.

// merr is a failing lookup
type merr struct{ msg string }

func fail(format string, args ...interface{}) { panic(merr{fmt.Sprintf(format, args...)}) }

// unsure is the panic of a model that cannot predict a value
type unsure struct{}

// absent is the result of a lookup that found nothing
type absentType struct{}

var absent = absentType{}

type part struct {
	s   string
	i   int
	isI bool
}

var intSegment = regexp.MustCompile(`^[+-]?[0-9]+$`)

// parseKey is the reference key parser
func parseKey(s string) ([]part, error) {
	var parts []part
	rs := []rune(s)
	cur, quoted := ``, false
	end := func() error {
		switch {
		case quoted:
			parts = append(parts, part{s: cur})
		case cur == ``:
			return fmt.Errorf(`empty segment`)
		default:
			if intSegment.MatchString(cur) {
				if i, err := strconv.ParseInt(cur, 10, 64); err == nil && i >= -1<<31 && i < 1<<31 {
					if len(parts) == 0 {
						return fmt.Errorf(`index first`)
					}
					parts = append(parts, part{i: int(i), isI: true})
					break
				}
			}
			parts = append(parts, part{s: cur})
		}
		cur, quoted = ``, false
		return nil
	}
	for i := 0; i < len(rs); i++ {
		switch c := rs[i]; c {
		case '\'', '"':
			j := i + 1
			for j < len(rs) && rs[j] != c {
				j++
			}
			if j == len(rs) {
				return nil, fmt.Errorf(`unterminated quote`)
			}
			cur += string(rs[i+1 : j])
			quoted = true
			i = j
		case '.':
			if err := end(); err != nil {
				return nil, err
			}
		default:
			cur += string(c)
		}
	}
	if err := end(); err != nil {
		return nil, err
	}
	return parts, nil
}

func digPart(v V, p part) V {
	switch v := v.(type) {
	case L:
		if p.isI && p.i >= 0 && p.i < len(v) {
			return v[p.i]
		}
	case M:
		k := p.s
		if p.isI {
			k = intKey + strconv.Itoa(p.i)
		}
		if e, ok := v[k]; ok {
			return e
		}
	}
	return absent
}

func dig(v V, ps []part) V {
	for _, p := range ps {
		if v = digPart(v, p); v == absent {
			break
		}
	}
	return v
}

// ---- merging

func flatten(v L) L {
	r := L{}
	for _, e := range v {
		if a, ok := e.(L); ok {
			r = append(r, flatten(a)...)
		} else {
			r = append(r, e)
		}
	}
	return r
}

func uniq(v L) L {
	r := L{}
next:
	for _, e := range v {
		for _, o := range r {
			if eq(e, o) {
				continue next
			}
		}
		r = append(r, e)
	}
	return r
}

func mDeep(a, b V) V {
	switch a := a.(type) {
	case M:
		if bm, ok := b.(M); ok {
			r := M{}
			for k, v := range bm {
				r[k] = v
			}
			for k, v := range a {
				if bv, ok := bm[k]; ok {
					v = mDeep(v, bv)
				}
				r[k] = v
			}
			return r
		}
	case L:
		if bl, ok := b.(L); ok {
			return uniq(append(append(L{}, a...), bl...))
		}
	}
	return a
}

// mMerge merges what the sources find, in order
func mMerge(strategy string, sources []func() V) V {
	switch strategy {
	case `first`:
		for _, s := range sources {
			if v := s(); v != absent {
				return v
			}
		}
		return absent
	case `unique`, `hash`, `deep`:
	default:
		fail(`unknown strategy %s`, strategy)
	}
	var found L
	for _, s := range sources {
		if v := s(); v != absent {
			found = append(found, v)
		}
	}
	if len(found) == 0 {
		return absent
	}
	if strategy == `unique` {
		if len(sources) == 1 {
			if _, ok := found[0].(L); !ok {
				return found[0]
			}
		}
		return uniq(flatten(found))
	}
	r := found[0]
	for _, v := range found[1:] {
		if strategy == `deep` {
			r = mDeep(r, v)
			continue
		}
		if a, ok := r.(M); ok {
			if b, ok := v.(M); ok {
				c := M{}
				for k, e := range b {
					c[k] = e
				}
				for k, e := range a {
					c[k] = e
				}
				r = c
			}
		}
	}
	return r
}

// ---- model of a session

type model struct {
	w    *World
	dir  string
	vars M
	// custom functions by name. The key is a string for data_hash (empty) and lookup_key functions
	fns map[string]func(opts M, key string) V
	// files is a view of the data files, by absolute path
	files map[string]*File
	keys  []string // lookups in progress
	scope []string // variables in progress
	// when set, called for each expression
	onExpr func(kind string)
	env    map[string]string
	// custom top level functions
	top map[string]func(key string) V
	// the lookup options that they declare
	topOpts        map[string]func(key string) V
	defaultDatadir string
	// when set, functions that don't exist, or aren't of the expected kind, make a lookup fail
	strict  bool
	fnKinds map[string]string
	// when set, gets everything that an explanation has
	ex *explanation
}

func newModel(w *World, dir string) *model {
	m := &model{w: w, dir: dir, vars: M{}, files: map[string]*File{}, env: map[string]string{}, defaultDatadir: `data`}
	if s, ok := w.SessScope.V.(M); ok {
		for k, v := range s {
			m.vars[k] = v
		}
	}
	if s, ok := w.Scope.V.(M); ok {
		for k, v := range s {
			m.vars[k] = v
		}
	}
	for i := range w.Files {
		f := &w.Files[i]
		m.files[filepath.Join(dir, f.Path)] = f
	}
	for i := range w.Modules {
		mod := &w.Modules[i]
		for j := range mod.Files {
			f := &mod.Files[j]
			m.files[filepath.Join(dir, mod.Root, mod.Name, f.Path)] = f
		}
	}
	return m
}

func (m *model) lookup(key, strategy string) (r Res) {
	defer func() {
		if e := recover(); e != nil {
			m.keys, m.scope = nil, nil
			if _, ok := e.(unsure); ok {
				r = Res{Unsure: true}
				return
			}
			me, ok := e.(merr)
			if !ok {
				panic(e)
			}
			r = Res{Err: fmt.Errorf(`%s`, me.msg)}
		}
	}()
	if v := m.find(key, strategy); v != absent {
		return value(v)
	}
	return Res{}
}

// find is a lookup
func (m *model) find(key, strategy string) V {
	parts, err := parseKey(key)
	if err != nil {
		fail(`%s`, err)
	}
	if parts[0].s == `lookup_options` {
		m.explain(`Invalid key "%s"`, strings.Trim(key, `'`))
		return absent
	}
	for _, k := range m.keys {
		if k == key {
			fail(`recursive lookup of %s`, key)
		}
	}
	m.keys = append(m.keys, key)
	v := m.findRoot(parts[0].s, strategy)
	m.keys = m.keys[:len(m.keys)-1]
	if v == absent {
		return absent
	}
	return m.digInto(v, parts)
}

func (m *model) explain(format string, args ...interface{}) {
	if m.ex != nil {
		m.ex.add(format, args...)
	}
}

// silent calls the function without explaining anything
func (m *model) silent(f func()) {
	ex := m.ex
	m.ex = nil
	f()
	m.ex = ex
}

// digInto digs for all parts but the first one
func (m *model) digInto(v V, parts []part) V {
	if m.ex == nil || len(parts) == 1 {
		return dig(v, parts[1:])
	}
	m.explain(`Sub key: "%s"`, subKeyText(parts[1:]))
	for _, p := range parts[1:] {
		v = digPart(v, p)
		m.ex.outcome(subKeyText([]part{p}), v)
		if v == absent {
			break
		}
	}
	return v
}

// explainStrategy explains where the strategy comes from
func (m *model) explainStrategy(root, strategy string, opts M) {
	m.explain(`Searching for "%s"`, root)
	if strategy != `` {
		m.explain(`Using merge options from CLI option`)
	} else if opts[`merge`] != nil {
		m.explain(`Using merge options from "lookup_options" hash`)
	}
}

type mconfig struct {
	cfg    *Config
	root   string
	module string
	luOpts V
	levels []mlevel
}

func (m *model) findRoot(root, strategy string) V {
	return m.ex.withOpts(nil, func() V { return m.findRootIn(root, strategy) })
}

func (m *model) findRootIn(root, strategy string) V {
	if len(m.w.Mux) == 0 {
		c := m.config(&m.w.Cfg, m.dir, ``)
		opts := c.optionsFor(root)
		if m.ex != nil && m.ex.only {
			// nothing else is explained
			m.ex = nil
		}
		m.explainStrategy(root, strategy, opts)
		return m.convert(opts, func() V {
			return m.ex.withOpts(mergeOptions(strategy, opts), func() V { return m.hierarchy(c, root, strategyOf(strategy, opts)) })
		})
	}
	var opts V = absent
	merged := func() {
		var srcs []func() V
		for _, n := range m.w.Mux {
			n := n
			srcs = append(srcs, func() V { return m.topOptions(n, root) })
		}
		opts = m.merge(`deep`, srcs)
	}
	if m.ex != nil && !m.ex.options {
		m.silent(merged)
	} else {
		merged()
	}
	om, _ := opts.(M)
	st := strategyOf(strategy, om)
	m.explainStrategy(root, strategy, om)
	return m.convert(om, func() V {
		var srcs []func() V
		for _, n := range m.w.Mux {
			n := n
			srcs = append(srcs, func() V { return m.topFind(n, root, st) })
		}
		return m.ex.withOpts(mergeOptions(strategy, om), func() V { return m.merge(st, srcs) })
	})
}

func (m *model) topOptions(fn, root string) V {
	var c *mconfig
	switch fn {
	case `config`:
		c = m.config(&m.w.Cfg, m.dir, ``)
	case `module`:
		if c = m.module(root); c == nil {
			m.noModule(root)
		}
	default:
		if f, ok := m.topOpts[fn]; ok {
			return f(root)
		}
	}
	if c != nil {
		if o := c.optionsFor(root); o != nil {
			return o
		}
	}
	return absent
}

func (m *model) topFind(fn, root, strategy string) V {
	switch fn {
	case `config`:
		return m.hierarchy(m.config(&m.w.Cfg, m.dir, ``), root, strategy)
	case `module`:
		if c := m.module(root); c != nil {
			return m.hierarchy(c, root, strategy)
		}
		m.noModule(root)
		return absent
	case `env`:
		if strings.HasPrefix(root, `env::`) {
			if v, ok := m.env[root[5:]]; ok {
				return v
			}
		}
		return absent
	}
	if f, ok := m.top[fn]; ok {
		return f(root)
	}
	panic(infra{fmt.Errorf(`model has no top function %s`, fn)})
}

func (m *model) noModule(root string) {
	if ix := strings.Index(root, `::`); ix > 0 {
		m.explain(`Module "%s" not found`, strings.ToLower(root[:ix]))
	}
}

func (m *model) module(root string) *mconfig {
	ix := strings.Index(root, `::`)
	if ix <= 0 {
		return nil
	}
	name := strings.ToLower(root[:ix])
	for _, p := range m.w.ModulePath {
		// The first entry in alphabetical order is the one
		var first *Module
		for i := range m.w.Modules {
			mod := &m.w.Modules[i]
			if mod.Root == p && strings.ToLower(mod.Name) == name && (first == nil || mod.Name < first.Name) {
				first = mod
			}
		}
		if first != nil && !first.NoCfg && first.Odd == `` {
			return m.config(&first.Cfg, filepath.Join(m.dir, first.Root, first.Name), name)
		}
	}
	return nil
}

func (c *mconfig) optionsFor(root string) M {
	if c.module != `` && !strings.HasPrefix(root, c.module+`::`) {
		return nil
	}
	if all, ok := c.luOpts.(M); ok {
		if o, ok := all[root].(M); ok {
			return o
		}
	}
	return nil
}

func strategyOf(explicit string, opts M) string {
	if explicit != `` {
		return explicit
	}
	switch o := opts[`merge`].(type) {
	case string:
		return o
	case M:
		s, _ := o[`strategy`].(string)
		return s
	}
	return `first`
}

func (m *model) convert(opts M, f func() V) V {
	ct, ok := opts[`convert_to`]
	if !ok {
		return f()
	}
	tn, ok := ct.(string)
	if !ok {
		panic(infra{fmt.Errorf(`model doesn't do convert_to %s`, show(ct))})
	}
	v := f()
	if v == absent {
		return v
	}
	return convertTo(tn, v)
}

// convertTo is the conversion to types with an obvious meaning
func convertTo(tn string, v V) V {
	switch tn {
	case `sensitive`:
		if s, ok := v.(sens); ok {
			return s
		}
		return sens{v}
	case `string`:
		return strOf(v)
	case `int`:
		switch v := v.(type) {
		case int64:
			return v
		case bool:
			if v {
				return int64(1)
			}
			return int64(0)
		case string:
			if i, err := strconv.ParseInt(v, 10, 64); err == nil {
				return i
			}
		}
		fail(`cannot convert %s to int`, show(v))
	}
	panic(infra{fmt.Errorf(`model doesn't do convert_to %s`, tn)})
}

// mlevel is a resolved level
type mlevel struct {
	name  string
	kind  string
	fn    string
	opts  M
	locs  []mloc
	noLoc bool
}

type mloc struct {
	path   string
	exists bool
}

// config resolves a configuration
func (m *model) config(c *Config, root, module string) *mconfig {
	mc := &mconfig{cfg: c, root: root, module: module}
	luOpts := func() {
		mc.luOpts = m.ex.withOpts(nil, func() V { return m.hierarchy(mc, `lookup_options`, `deep`) })
	}
	m.silent(func() {
		for i := range c.Levels {
			mc.levels = append(mc.levels, m.resolveLevel(&c.Levels[i], c.Defaults, root))
		}
	})
	if m.ex != nil && m.ex.options && !m.ex.shown[root] {
		m.ex.shown[root] = true
		m.explain(`Searching for "lookup_options"`)
		luOpts()
	} else {
		m.silent(luOpts)
	}
	return mc
}

func (m *model) resolveLevel(l, d *Level, root string) mlevel {
	r := mlevel{name: l.Name, kind: l.Kind, fn: l.Fn}
	if r.kind == `` && d != nil {
		r.kind, r.fn = d.Kind, d.Fn
	}
	if r.kind == `` {
		r.kind, r.fn = `data_hash`, `yaml_data`
	}
	r.fn = m.interpText(r.fn)
	dd := l.Datadir
	if dd == `` && d != nil {
		dd = d.Datadir
	}
	if dd == `` {
		dd = m.defaultDatadir
	}
	dd = m.interpText(dd)
	if !filepath.IsAbs(dd) {
		dd = filepath.Join(root, dd)
	}
	o := l.Opts
	if o == nil && d != nil {
		o = d.Opts
	}
	r.opts = M{}
	if o != nil {
		r.opts = m.interp(o.V, false).(M)
	}
	add := func(p string) {
		_, err := os.Stat(p)
		r.locs = append(r.locs, mloc{p, err == nil})
	}
	switch l.LocKey {
	case ``:
		r.noLoc = true
	case `path`, `paths`:
		for _, p := range l.Locs {
			add(filepath.Join(dd, m.interpText(p)))
		}
	case `uri`, `uris`:
		for _, p := range l.Locs {
			r.locs = append(r.locs, mloc{m.interpText(p), true})
		}
	case `glob`, `globs`:
		for _, p := range l.Locs {
			for _, g := range mGlob(dd, m.interpText(p)) {
				r.locs = append(r.locs, mloc{g, true})
			}
		}
	case `mapped_paths`:
		var vals L
		switch v := m.scopeValue(l.Locs[0], false).(type) {
		case string:
			vals = L{v}
		case L:
			vals = v
		}
		for _, v := range vals {
			old, had := m.vars[l.Locs[1]]
			m.vars[l.Locs[1]] = v
			p := filepath.Join(dd, m.interpText(l.Locs[2]))
			if had {
				m.vars[l.Locs[1]] = old
			} else {
				delete(m.vars, l.Locs[1])
			}
			add(p)
		}
	}
	return r
}

// mGlob finds all files and directories under dir that match the pattern, in sorted order. It walks the whole tree.
func mGlob(dir, pattern string) []string {
	var res []string
	pat := strings.Split(filepath.Clean(strings.TrimLeft(pattern, `/`)), `/`)
	_ = filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || p == dir {
			return nil
		}
		rel, err := filepath.Rel(dir, p)
		must(err)
		if globMatch(pat, strings.Split(rel, `/`)) {
			res = append(res, p)
		}
		return nil
	})
	sort.Strings(res)
	return res
}

func globMatch(pat, path []string) bool {
	if len(pat) == 0 {
		return len(path) == 0
	}
	if pat[0] == `**` {
		if len(pat) == 1 {
			return len(path) > 0
		}
		return globMatch(pat[1:], path) || len(path) > 0 && globMatch(pat, path[1:])
	}
	if len(path) == 0 {
		return false
	}
	ok := false
	for _, alt := range braces(pat[0]) {
		if m, err := filepath.Match(alt, path[0]); err == nil && m {
			ok = true
		}
	}
	return ok && globMatch(pat[1:], path[1:])
}

func braces(p string) []string {
	i := strings.IndexByte(p, '{')
	if i < 0 {
		return []string{p}
	}
	j := i + strings.IndexByte(p[i:], '}')
	var res []string
	for _, a := range strings.Split(p[i+1:j], `,`) {
		for _, rest := range braces(p[j+1:]) {
			res = append(res, p[:i]+a+rest)
		}
	}
	return res
}

// merge is mMerge with an explanation
func (m *model) merge(strategy string, srcs []func() V) V {
	if m.ex == nil {
		return mMerge(strategy, srcs)
	}
	return m.ex.merge(strategy, len(srcs), func(i int) V { return srcs[i]() })
}

func (m *model) hierarchy(c *mconfig, root, strategy string) V {
	if m.ex != nil {
		return m.ex.search(c, root, strategy)
	}
	var srcs []func() V
	for i := range c.levels {
		l := &c.levels[i]
		srcs = append(srcs, func() V { return m.level(l, root, strategy) })
	}
	return mMerge(strategy, srcs)
}

func (m *model) level(l *mlevel, root, strategy string) V {
	if l.noLoc {
		return m.call(l, nil, root)
	}
	if len(l.locs) == 0 {
		return absent
	}
	var srcs []func() V
	for i := range l.locs {
		loc := &l.locs[i]
		srcs = append(srcs, func() V {
			if !loc.exists {
				return absent
			}
			return m.call(l, loc, root)
		})
	}
	return mMerge(strategy, srcs)
}

func (m *model) call(l *mlevel, loc *mloc, root string) V {
	opts := M{}
	for k, v := range l.opts {
		opts[k] = v
	}
	if loc != nil {
		opts[`path`] = loc.path
	}
	if m.strict && !builtinFn(l) {
		if m.fnKinds[l.fn] != l.kind {
			fail(`no %s function %s`, l.kind, l.fn)
		}
	}
	switch {
	case l.kind == `data_hash`:
		var data V
		if l.fn == `yaml_data` || l.fn == `json_data` {
			p, ok := opts[`path`].(string)
			if !ok {
				fail(`missing option path`)
			}
			data = m.dataFile(p)
		} else if f, ok := m.fns[l.fn]; ok {
			data = f(opts, ``)
		}
		dm, _ := data.(M)
		if v, ok := dm[root]; ok {
			return m.interp(v, true)
		}
		return absent
	case l.fn == `environment` && l.kind == `lookup_key`:
		if strings.HasPrefix(root, `env::`) {
			if v, ok := m.env[root[5:]]; ok {
				return v
			}
		}
		return absent
	case l.fn == `scope` && l.kind == `lookup_key`:
		if v, ok := m.vars[root]; ok {
			return m.interp(v, true)
		}
		return absent
	}
	if f, ok := m.fns[l.fn]; ok {
		v := f(opts, root)
		if v != absent {
			v = m.interp(v, true)
		}
		return v
	}
	return absent
}

func builtinFn(l *mlevel) bool {
	switch l.kind {
	case `data_hash`:
		return l.fn == `yaml_data` || l.fn == `json_data`
	case `lookup_key`:
		return l.fn == `environment` || l.fn == `scope`
	}
	return false
}

func (m *model) dataFile(p string) V {
	f := m.files[filepath.Clean(p)]
	if f == nil {
		if _, err := os.Stat(p); err != nil {
			return M{}
		}
		fail(`%s is not a file`, p)
	}
	if f.Raw != `` {
		fail(`%s is malformed`, p)
	}
	if d, ok := f.Data.V.(M); ok {
		return d
	}
	fail(`%s is not a hash`, p)
	return nil
}

// ---- interpolation

func (m *model) interpText(s string) string {
	return strOf(m.interp(s, false))
}

func (m *model) interp(v V, methods bool) V {
	switch v := v.(type) {
	case string:
		return m.interpString(v, methods)
	case L:
		r := make(L, len(v))
		for i, e := range v {
			if r[i] = m.interp(e, methods); r[i] == absent {
				r[i] = nil
			}
		}
		return r
	case M:
		r := M{}
		for _, k := range keys(v) {
			ik := m.interp(k, methods)
			if r[strOf(ik)] = m.interp(v[k], methods); r[strOf(ik)] == absent {
				r[strOf(ik)] = nil
			}
		}
		return r
	}
	return v
}

func (m *model) interpString(s string, methods bool) V {
	if strings.Contains(s, `%{`) {
		m.explain(`Interpolation on "%s"`, s)
	}
	res := ``
	for {
		i := strings.Index(s, `%{`)
		if i < 0 {
			return res + s
		}
		j := strings.IndexByte(s[i:], '}')
		if j < 0 {
			return res + s
		}
		whole := res == `` && i == 0 && j == len(s)-1
		v := m.expr(strings.TrimSpace(s[i+2:i+j]), whole, methods)
		if a, ok := v.(aliased); ok {
			return a.v
		}
		res += s[:i]
		if v != absent {
			res += strOf(v)
		}
		s = s[i+j+1:]
	}
}

type aliased struct{ v V }

func (m *model) expr(e string, whole, methods bool) V {
	if e == `` || strings.Trim(e, `"`) == `::` && (e == `::` || e == `"::"`) || e == `'::'` || e == `""` || e == `''` {
		return absent
	}
	if ix := strings.IndexByte(e, '('); ix > 0 && isWord(e[:ix]) && strings.HasSuffix(e, `)`) {
		arg := e[ix+1 : len(e)-1]
		if n := len(arg); n > 2 && (arg[0] == '"' || arg[0] == '\'') && strings.IndexByte(arg[1:], arg[0]) == n-2 {
			arg = arg[1 : n-1]
			if !methods {
				fail(`method not allowed`)
			}
			if m.onExpr != nil {
				m.onExpr(e[:ix])
			}
			switch e[:ix] {
			case `literal`:
				return arg
			case `scope`:
				return m.scopeValue(arg, methods)
			case `lookup`, `hiera`:
				return m.find(arg, ``)
			case `alias`, `strict_alias`:
				if !whole {
					fail(`alias in string`)
				}
				v := m.find(arg, ``)
				if v == absent && e[:ix] == `alias` {
					v = ``
				}
				return aliased{v}
			}
			fail(`unknown method`)
		}
	}
	if m.onExpr != nil {
		m.onExpr(`scope`)
	}
	return m.scopeValue(e, methods)
}

func isWord(s string) bool {
	for _, r := range s {
		if !(r == '_' || r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z') {
			return false
		}
	}
	return s != ``
}

// scopeValue is the value of a variable
func (m *model) scopeValue(expr string, methods bool) V {
	parts, err := parseKey(expr)
	if err != nil {
		fail(`%s`, err)
	}
	root := parts[0].s
	v, ok := m.vars[root]
	if !ok {
		return absent
	}
	for _, n := range m.scope {
		if n == root {
			fail(`recursive variable %s`, root)
		}
	}
	m.scope = append(m.scope, root)
	v = m.interp(v, methods)
	m.scope = m.scope[:len(m.scope)-1]
	if v == absent {
		return v
	}
	return m.digInto(v, parts)
}

// strOf is the string form of a value
func strOf(v V) string {
	switch v := v.(type) {
	case nil:
		return `null`
	case string:
		return v
	case bool:
		return strconv.FormatBool(v)
	case int64:
		return strconv.FormatInt(v, 10)
	case float64:
		return strconv.FormatFloat(v, 'g', -1, 64)
	case sens:
		return `sensitive [value redacted]`
	case L:
		ss := make([]string, len(v))
		for i, e := range v {
			switch e := e.(type) {
			case string:
				ss[i] = strconv.Quote(e)
			case nil:
				ss[i] = `nil`
			default:
				ss[i] = strOf(e)
			}
		}
		return `{` + strings.Join(ss, `,`) + `}`
	case M:
		// The order of the entries isn't specified
		if len(v) > 1 {
			panic(unsure{})
		}
		for k, e := range v {
			s := strOf(L{e})
			kt := strconv.Quote(k)
			if strings.HasPrefix(k, intKey) {
				kt = k[len(intKey):]
			}
			return `{` + kt + `:` + s[1:]
		}
		return `{}`
	}
	panic(infra{fmt.Errorf(`no string form of %s`, show(v))})
}
