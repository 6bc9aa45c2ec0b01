package harness

import (
	"fmt"
	"math"
	"net/http"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/explain"
	"github.com/lyraproj/hiera/hiera"
	sdk "github.com/lyraproj/hierasdk/hiera"
	"pgregory.net/rapid"
)

type plugOp struct {
	Key      string `json:"key"`
	Strategy string `json:"strategy,omitempty"`
	Type     string `json:"type,omitempty"`
	New      bool   `json:"new,omitempty"` // use a new invocation
}

type plugCase struct {
	W       World    `json:"w"`
	Fns     []plugFn `json:"fns"`
	Network string   `json:"network"`
	Silent  bool     `json:"silent,omitempty"` // the handshake doesn't mention the network
	Shared  bool     `json:"shared,omitempty"` // one plugin file for all functions
	Ops     []plugOp `json:"ops"`
	Option  string   `json:"option,omitempty"` // value of pluginTransport when it isn't the network
	SockDir string   `json:"sockdir,omitempty"`
	More    int      `json:"more,omitempty"`  // functions that are provided but not used
	Files   []string `json:"files,omitempty"` // when all functions have the same name, the plugin files that they are in
}

var oddKeys = []string{`x y`, `a&b=c`, `100%`, `%41`, `#h`, `q?`, `+`, `å`, "line\nbreak", `/`, `;`, `k"q`, `\`, `<&>`, `😀`, ` `}

func genPlugTable(t *rapid.T, dig bool) M {
	m := M{}
	for _, k := range append(append([]string{}, rootKeys...), pick(t, `ok`, oddKeys...), pick(t, `ok`, oddKeys...)) {
		if chance(t, 5, `has`) {
			switch {
			case chance(t, 2, `interp`):
				m[k] = pick[V](t, `iv`, `<%{env}>`, L{`%{lookup('k1')}`}, M{`a`: `%{alias('k2')}`, `b`: int64(1)}, `%{literal('%')}{x}`)
			case chance(t, 2, `rich`):
				m[k] = pick[V](t, `rv`, M{`#sens`: `s3cret`}, M{`#sens`: M{`a`: int64(1)}}, M{`a`: M{`#bin`: "\x00\xffab"}}, L{M{`#time`: int64(1600000000)}, `x`}, M{`b`: M{`#type`: `map[string]int`}})
			case !dig && chance(t, 1, `large`):
				// Much more than what fits in a buffer
				s := strings.Repeat(pick(t, `chunk`, `x`, `å"`, "\x01", `ab cd `), pick(t, `size`, 1000, 7000, 40000, 150000))
				m[k] = pick[V](t, `lv`, s, L{s, s, s}, M{`a`: s, `b`: int64(1)})
			case chance(t, 4, `plain`):
				m[k] = genValue(2).Draw(t, `v`)
			default:
				m[k] = fractions(genOddValue(t, 2, true))
			}
		}
	}
	if chance(t, 2, `luopts`) {
		m[`lookup_options`] = genLuOpts(t, rootKeys)
	}
	return m
}

// fractions replaces floats that are integers in the JSON that dgo writes
func fractions(v V) V {
	switch v := v.(type) {
	case float64:
		if v == math.Trunc(v) {
			return 0.5
		}
	case L:
		for i, e := range v {
			v[i] = fractions(e)
		}
	case M:
		for k, e := range v {
			v[k] = fractions(e)
		}
	}
	return v
}

func genPlugFns(t *rapid.T) []plugFn {
	var fns []plugFn
	for i := rapid.IntRange(1, 3).Draw(t, `nfns`); i > 0; i-- {
		f := plugFn{Kind: pick(t, `kind`, `lookup_key`, `data_hash`, `data_dig`), Name: fmt.Sprintf(pick(t, `fname`, `fn%d`, `my::fn%d`, `fn-%d`, `F.n%d`, `q?u%d`, `h#%d`, `z%%z%d`, `é+&=%d`), i)}
		f.Echo = chance(t, 5, `echo`)
		f.Table = Val{genPlugTable(t, f.Kind == `data_dig`)}
		fns = append(fns, f)
	}
	return fns
}

func genPlugOpts(t *rapid.T) V {
	m := M{}
	for i := rapid.IntRange(0, 3).Draw(t, `nopt`); i > 0; i-- {
		k := pick(t, `optname`, `opt`, `other`, `x_y`, `level`)
		switch rapid.IntRange(0, 3).Draw(t, `optkind`) {
		case 0:
			m[k] = genValue(2).Draw(t, `v`)
		case 1:
			m[k] = fractions(genOddValue(t, 2, true))
		default:
			m[k] = pick[V](t, `iv`, `<%{env}>`, L{`%{role}`, `x`}, M{`a`: `%{os}`})
		}
	}
	return jsonSafe(m)
}

func genPlugCase(t *rapid.T) plugCase { return genPlugCase2(t, false) }

func genSameCase(t *rapid.T) plugCase { return genPlugCase2(t, true) }

// genSameName gives all functions the same name. No two functions of the same kind are in the same plugin.
func genSameName(t *rapid.T, c *plugCase) {
	name := pick(t, `samename`, `fn`, `p`, `my::fn`, `a.b`)
	for i := rapid.IntRange(1, 3).Draw(t, `nmore`); i > 0; i-- {
		c.Fns = append(c.Fns, genPlugFns(t)...)
	}
	used := map[string]bool{}
	var fns []plugFn
	for _, f := range c.Fns {
		file := pick(t, `file`, `plugin/p`, `plugin/q`, `other/p`, `other/`+name)
		if u := f.Kind + file; !used[u] {
			used[u] = true
			f.Name = name
			fns = append(fns, f)
			c.Files = append(c.Files, file)
		}
	}
	c.Fns = fns
}

func genPlugCase2(t *rapid.T, same bool) plugCase {
	c := plugCase{W: genWorld(t, worldOpts{maxLevels: 2, density: 3, luOpts: genLuOpts}), Network: pick(t, `network`, `tcp`, `unix`)}
	if c.Network == `tcp` {
		c.Silent = chance(t, 3, `silent`)
	}
	c.Fns = genPlugFns(t)
	if same {
		genSameName(t, &c)
	} else {
		c.Shared = rapid.Bool().Draw(t, `shared`)
	}
	h := &c.W.Cfg.Levels
	for i := rapid.IntRange(1, 3).Draw(t, `nlevels`); i > 0; i-- {
		fi := rapid.IntRange(0, len(c.Fns)-1).Draw(t, `fn`)
		f := c.Fns[fi]
		l := Level{Name: fmt.Sprintf(`plug%d`, i), Kind: f.Kind, Fn: f.Name}
		if same {
			l.Name = fmt.Sprintf(`plug%d-%d`, i, fi)
			file := strings.Split(c.Files[fi], `/`)
			l.Plugindir, l.Pluginfile = file[0], file[1]
		}
		if chance(t, 6, `opts`) {
			l.Opts = &Val{genPlugOpts(t)}
		}
		switch rapid.IntRange(0, 4).Draw(t, `loc`) {
		case 0:
			l.LocKey, l.Locs = `path`, []string{genPath(t, `.yaml`, true)}
		case 1:
			l.LocKey, l.Locs = `paths`, []string{genPath(t, `.yaml`, true), genPath(t, `.yaml`, true)}
		case 2:
			l.LocKey, l.Locs = `uri`, []string{pick(t, `uri`, `http://example.com/%{env}?a=b&c#d`, `x:y`)}
		}
		at := rapid.IntRange(0, len(*h)).Draw(t, `at`)
		*h = append(*h, Level{})
		copy((*h)[at+1:], (*h)[at:])
		(*h)[at] = l
	}
	if c.Network == `unix` && chance(t, 4, `deftransport`) {
		// The default network is unix on all systems where this runs
		c.Option = pick(t, `option`, `none`, `bogus`, `UNIX`, `udp`)
	}
	if chance(t, 1, `more`) {
		c.More = pick(t, `nmore`, 20, 300, 3000)
	}
	c.SockDir = pick(t, `sockdir`, ``, `/a/socket dir`, `relative`, `$HOME`)
	for i := rapid.IntRange(1, 6).Draw(t, `nops`); i > 0; i-- {
		o := plugOp{Strategy: pick(t, `strategy`, ``, ``, ``, `first`, `unique`, `hash`, `deep`), New: chance(t, 3, `new`)}
		switch rapid.IntRange(0, 5).Draw(t, `keykind`) {
		case 0:
			o.Key = writeSeg(pick(t, `odd`, oddKeys...), 0)
		case 1:
			o.Key = `echo`
		default:
			o.Key = quoteKey(pick(t, `root`, rootKeys...))
		}
		o.Key += pick(t, `dig`, ``, ``, ``, `.a`, `.0`, `.options`, `.key`, `.a.b`, `.'x y'`, `.1`, `.-1`)
		if chance(t, 1, `type`) {
			o.Type = pick(t, `tp`, `string`, `map[string]any`, `[]any`)
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

type plugRes struct {
	Res
	text string
}

func (c *plugCase) perform(o map[string]interface{}) (rs []plugRes) {
	tp, wo := c.W.options(o[api.HieraRoot].(string))
	for k, v := range o {
		wo[k] = v
	}
	withSession(tp, wo, func(s api.Session) {
		ic := s.Invocation(c.W.scope(), nil)
		for _, op := range c.Ops {
			ic, ex := ic, api.Explainer(nil)
			if op.New {
				ex = explain.NewExplainer(false, false)
				ic = s.Invocation(c.W.scope(), ex)
			}
			r := plugRes{Res: capture(func() dgo.Value {
				var opts dgo.Map
				if op.Strategy != `` {
					opts = vf.Map(`merge`, op.Strategy)
				}
				var vt dgo.Type
				if op.Type != `` {
					vt = tf.ParseType(op.Type)
				}
				return hiera.Lookup2(ic, []string{op.Key}, vt, nil, nil, nil, opts, nil)
			})}
			if ex != nil && r.Err == nil {
				r.text = ex.String()
			}
			rs = append(rs, r)
		}
	})
	return
}

func runPlug(x *X, c plugCase) error {
	dir := filepath.Join(x.Dir(), `app`)
	network := c.Network
	if c.Silent {
		network = ``
		x.Label(`no network in handshake`)
	}
	x.Label(c.Network)
	pids := filepath.Join(x.Dir(), `pids`)
	x.Cleanup(func() { reap(pids) })
	var servers []*plugServer
	serve := func(fns []plugFn) (addr string, names map[string][]string) {
		h, names := serveFns(fns)
		sd := filepath.Join(x.Dir(), fmt.Sprintf(`s%d`, len(servers)))
		must(os.MkdirAll(sd, 0755))
		srv := startPlugServer(sd, c.Network, h)
		servers = append(servers, srv)
		return srv.addr, names
	}
	defer func() {
		for _, srv := range servers {
			srv.close()
		}
	}()
	script := func(file, addr string, fns map[string][]string) {
		hs := filepath.Join(x.Dir(), `hs-`+strings.ReplaceAll(file, `/`, `-`))
		for i := 0; i < c.More; i++ {
			k := faultKinds[i%3]
			fns[k] = append(append([]string{}, fns[k]...), fmt.Sprintf(`another_function_with_quite_a_long_name_%d`, i))
		}
		writeFile(hs, handshake(network, addr, fns)+"\n")
		sock := c.SockDir
		if sock == `` {
			sock = os.TempDir()
		}
		must(os.Setenv(`VF_PLUGIN_ENV`, `inherited by plugins`))
		test := fmt.Sprintf(`test "$HIERA_PLUGIN_TRANSPORT" = %s && test "$HIERA_PLUGIN_SOCKET_DIR" = '%s' && test "$HIERA_MAGIC_COOKIE" = %d && test "$VF_PLUGIN_ENV" = 'inherited by plugins' || exit 1`,
			c.Network, sock, sdk.MagicCookie)
		plugScript(filepath.Join(dir, file), pids, test+"\ncat '"+hs+"'\nexec sleep 1000")
	}
	for i := range c.W.Cfg.Levels {
		if l := &c.W.Cfg.Levels[i]; strings.HasPrefix(l.Name, `plug`) && c.Shared {
			l.Pluginfile = `all`
		}
	}
	fns := map[string]interface{}{}
	ref := c
	unref := func(text string) string { return text }
	if c.Files == nil {
		addr, names := serve(c.Fns)
		for i := range c.Fns {
			f := &c.Fns[i]
			fns[f.Name] = f.value()
			script(`plugin/`+f.Name, addr, map[string][]string{f.Kind: {f.Name}})
		}
		script(`plugin/all`, addr, names)
	} else {
		// Functions in process must have different names
		var rs []string
		byFile := map[string][]plugFn{}
		for i := range c.Fns {
			f := &c.Fns[i]
			fns[fmt.Sprintf(`ref%d`, i)] = f.value()
			byFile[c.Files[i]] = append(byFile[c.Files[i]], *f)
			rs = append(rs, fmt.Sprintf(`'ref%d'`, i), `'`+f.Name+`'`)
		}
		unref = strings.NewReplacer(rs...).Replace
		ref.W.Cfg.Levels = append([]Level{}, c.W.Cfg.Levels...)
		kinds, used := map[string]map[string]bool{}, map[int]bool{}
		for i := range ref.W.Cfg.Levels {
			l := &ref.W.Cfg.Levels[i]
			if _, n, ok := strings.Cut(l.Name, `-`); ok && strings.HasPrefix(l.Name, `plug`) {
				l.Fn = `ref` + n
				fi, err := strconv.Atoi(n)
				must(err)
				used[fi] = true
				if kinds[c.Files[fi]] == nil {
					kinds[c.Files[fi]] = map[string]bool{}
				}
				kinds[c.Files[fi]][l.Kind] = true
			}
		}
		if len(used) > 1 {
			x.Label(`several functions with the same name`)
		}
		for _, ks := range kinds {
			if len(ks) > 1 {
				x.Label(`several kinds of functions with the same name in one plugin`)
				break
			}
		}
		for file, fs := range byFile {
			addr, names := serve(fs)
			script(file, addr, names)
		}
	}
	ref.W.write(dir)
	want := ref.perform(map[string]interface{}{api.HieraRoot: dir, api.HieraFunctions: fns})
	for i := range want {
		want[i].text = unref(want[i].text)
	}
	c.W.write(dir)
	po := map[string]interface{}{api.HieraRoot: dir, `pluginTransport`: c.Network}
	switch c.Option {
	case ``:
	case `none`:
		delete(po, `pluginTransport`)
	default:
		po[`pluginTransport`] = c.Option
	}
	if c.SockDir != `` {
		po[`unixSocketDir`] = c.SockDir
	}
	got := c.perform(po)
	used := len(plugPids(pids)) > 0
	total := 0
	for _, srv := range servers {
		total += srv.total
	}
	if total == 0 && used {
		return fmt.Errorf(`a plugin was started but not called`)
	}
	found := 0
	for i, w := range want {
		if w.Found {
			found++
		}
		switch {
		case w.Err != nil:
			x.Label(`error`)
		case w.Found:
			x.Label(`found`)
		default:
			x.Label(`not found`)
		}
		what := fmt.Sprintf(`operation %d, %+v,`, i, c.Ops[i])
		if !got[i].same(w.Res) {
			return fmt.Errorf("%s gives %s with a plugin and %s in process", what, got[i].Res, w.Res)
		}
		if w.Err != nil && got[i].Err != nil && isRuntime(got[i].Err) && !isRuntime(w.Err) {
			return fmt.Errorf("%s fails with %v with a plugin and %v in process", what, got[i].Err, w.Err)
		}
		if got[i].text != w.text {
			return fmt.Errorf("%s is explained as\n%s\nwith a plugin and\n%s\nin process", what, got[i].text, w.text)
		}
	}
	if total > 0 && found > 0 {
		x.NonTrivial()
	}
	return nil
}

// ---- faulty answers

type faultOp struct {
	Key      string            `json:"key"`
	Strategy string            `json:"strategy,omitempty"`
	Inv      int               `json:"inv"`
	Fresh    bool              `json:"fresh,omitempty"`  // a new invocation takes the place of the given one
	Bad      map[string]string `json:"bad,omitempty"`    // kind of function -> what is wrong with its answers
	Server   string            `json:"server,omitempty"` // up or down
}

type faultCase struct {
	Network string            `json:"network"`
	Tables  map[string][]bool `json:"tables"` // level -> which of the keys it has
	Ops     []faultOp         `json:"ops"`
}

var faultKinds = []string{`lookup_key`, `data_dig`, `data_hash`}
var faultKeys = []string{`a`, `b`, `c`, `d`}
var faultLevels = []string{`y1`, `lookup_key`, `data_dig`, `data_hash`, `y2`}

var badAnswers = []string{`500`, `400`, `503`, `204`, `405`, `empty`, `brace`, `word`, `cut`, `badtype`, `reset`, `nothttp`}

func genFaultCase(t *rapid.T) faultCase {
	c := faultCase{Network: pick(t, `network`, `tcp`, `unix`), Tables: map[string][]bool{}}
	for _, l := range faultLevels {
		for range faultKeys {
			c.Tables[l] = append(c.Tables[l], rapid.Bool().Draw(t, `has`))
		}
	}
	up := true
	for i := rapid.IntRange(2, 10).Draw(t, `nops`); i > 0; i-- {
		o := faultOp{Key: pick(t, `key`, faultKeys...), Inv: rapid.IntRange(0, 1).Draw(t, `inv`), Strategy: pick(t, `strategy`, ``, ``, `unique`)}
		o.Fresh = chance(t, 2, `fresh`)
		if chance(t, 4, `isbad`) {
			o.Bad = map[string]string{pick(t, `kind`, faultKinds...): pick(t, `bad`, badAnswers...)}
			if chance(t, 2, `two`) {
				o.Bad[pick(t, `kind`, faultKinds...)] = pick(t, `bad`, badAnswers...)
			}
		}
		if up && chance(t, 2, `down`) {
			o.Server, up = `down`, false
		} else if !up && chance(t, 6, `up`) {
			o.Server, up = `up`, true
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

// genHangCase generates lookups before, during and after a call that isn't answered. Each such call takes five seconds.
func genHangCase(t *rapid.T) faultCase {
	c := faultCase{Network: pick(t, `network`, `tcp`, `unix`), Tables: map[string][]bool{}}
	for _, l := range faultLevels {
		for range faultKeys {
			c.Tables[l] = append(c.Tables[l], rapid.Bool().Draw(t, `has`))
		}
	}
	k := func() faultOp {
		return faultOp{Key: pick(t, `key`, faultKeys...), Inv: rapid.IntRange(0, 1).Draw(t, `inv`)}
	}
	bad := k()
	bad.Strategy = `unique`
	bad.Bad = map[string]string{pick(t, `kind`, faultKinds...): `hang`}
	c.Ops = []faultOp{k(), bad, k(), k()}
	return c
}

// faultHandler gives wrong answers
type faultHandler struct {
	lock sync.Mutex
	bad  map[string]string
	next http.Handler
	hang chan bool
}

func (h *faultHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	kind := strings.Split(r.URL.Path, `/`)[1]
	h.lock.Lock()
	bad := h.bad[kind]
	h.lock.Unlock()
	if strings.Contains(r.URL.Query().Get(`key`), `lookup_options`) {
		bad = ``
	}
	raw := func(s string) {
		c, _, err := w.(http.Hijacker).Hijack()
		if err == nil {
			_, _ = c.Write([]byte(s))
			_ = c.Close()
		}
	}
	say := func(s string) { _, _ = w.Write([]byte(s)) }
	switch bad {
	case ``:
		h.next.ServeHTTP(w, r)
	case `empty`:
		w.WriteHeader(200)
	case `brace`:
		say(`{"a":`)
	case `word`:
		say(`nonsense`)
	case `badtype`:
		say(`{"__type":"sensitive","__value":`)
	case `cut`:
		raw("HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nContent-Length: 100\r\n\r\n[1,2")
	case `reset`:
		raw(``)
	case `nothttp`:
		raw("hello\r\n\r\n")
	case `hang`:
		<-h.hang
	default:
		n, err := strconv.Atoi(bad)
		must(err)
		w.WriteHeader(n)
		if n != 204 {
			say(`"an answer with an error status"`)
		}
	}
}

func (c *faultCase) value(level, key string) string { return level + ` ` + key }

func runFault(x *X, c faultCase) (err error) {
	dir := filepath.Join(x.Dir(), `app`)
	var fns []plugFn
	var w World
	names := map[string]string{`lookup_key`: `lk`, `data_dig`: `dd`, `data_hash`: `dh`}
	for _, l := range faultLevels {
		m := M{}
		for i, k := range faultKeys {
			if c.Tables[l][i] {
				m[k] = c.value(l, k)
			}
		}
		if n, ok := names[l]; ok {
			fns = append(fns, plugFn{Kind: l, Name: n, Table: Val{m}})
			w.Cfg.Levels = append(w.Cfg.Levels, Level{Name: l, Kind: l, Fn: n, Pluginfile: `all`})
		} else {
			w.Files = append(w.Files, File{Path: `data/` + l + `.yaml`, Data: Val{m}})
			w.Cfg.Levels = append(w.Cfg.Levels, Level{Name: l, LocKey: `path`, Locs: []string{l + `.yaml`}})
		}
	}
	next, fnames := serveFns(fns)
	h := &faultHandler{next: next, hang: make(chan bool)}
	defer close(h.hang)
	srv := startPlugServer(x.Dir(), c.Network, h)
	defer func() { srv.close() }()
	pids := filepath.Join(x.Dir(), `pids`)
	x.Cleanup(func() { reap(pids) })
	writeFile(filepath.Join(x.Dir(), `hs`), handshake(c.Network, srv.addr, fnames)+"\n")
	plugScript(filepath.Join(dir, `plugin`, `all`), pids, "cat '"+filepath.Join(x.Dir(), `hs`)+"'\nexec sleep 1000")
	w.write(dir)
	tp, o := w.options(dir)
	o[`pluginTransport`] = c.Network
	failed, ok := 0, 0
	withSession(tp, o, func(s api.Session) {
		var invs [2]api.Invocation
		var resolved, loaded [2]bool
		up := true
		for i, op := range c.Ops {
			switch op.Server {
			case `down`:
				srv.close()
				up = false
			case `up`:
				srv.listen(h)
				up = true
			}
			h.lock.Lock()
			h.bad = op.Bad
			h.lock.Unlock()
			if invs[op.Inv] == nil || op.Fresh {
				invs[op.Inv] = s.Invocation(nil, nil)
				resolved[op.Inv], loaded[op.Inv] = false, false
			}
			// What happens
			want := Res{}
			fails := func(kind string) bool { return !up || op.Bad[kind] != `` }
			if !resolved[op.Inv] {
				// The lookup options are merged from all levels
				if !up || op.Bad[`data_hash`] != `` {
					want.Err = fmt.Errorf(`options cannot be found`)
				} else {
					resolved[op.Inv], loaded[op.Inv] = true, true
				}
			}
			if want.Err == nil {
				all := L{}
				for _, l := range faultLevels {
					if l == `lookup_key` || l == `data_dig` || l == `data_hash` && !loaded[op.Inv] {
						if fails(l) {
							want = Res{Err: fmt.Errorf(`%s fails`, l)}
							break
						}
					}
					for j, k := range faultKeys {
						if k == op.Key && c.Tables[l][j] {
							all = append(all, c.value(l, k))
						}
					}
					if op.Strategy == `` && len(all) > 0 {
						break
					}
				}
				if want.Err == nil && len(all) > 0 {
					want = value(all[0])
					if op.Strategy == `unique` {
						want = value(all)
					}
				}
			}
			got := capture(func() dgo.Value { return lookup(invs[op.Inv], op.Key, op.Strategy) })
			what := fmt.Sprintf(`operation %d (%+v)`, i, op)
			if want.Err != nil {
				failed++
				for _, b := range op.Bad {
					x.Label(`%s`, b)
				}
				if !up {
					x.Label(`no server`)
				}
			} else {
				ok++
			}
			if !got.same(want) {
				err = fmt.Errorf(`%s gives %s, want %s`, what, got, want)
				return
			}
			if got.Err != nil && (isRuntime(got.Err) || strings.HasPrefix(got.Err.Error(), `unexpected panic`)) {
				err = fmt.Errorf(`%s fails with a runtime error: %v`, what, got.Err)
				return
			}
		}
	})
	if failed > 0 && ok > 0 {
		x.NonTrivial()
	}
	if n := len(plugPids(pids)); err == nil && n > 1 {
		err = fmt.Errorf(`the plugin was started %d times`, n)
	}
	return
}

func init() {
	register(&Property{
		ID: `C22`,
		Rule: `equal: functions of all three kinds with random tables and echoes of their key and options, at random places in a random hierarchy with random
options and locations, are served over tcp or unix sockets by the handler that the SDK makes of them, and are announced by the handshake of a plugin
script. A sequence of lookups, some of them explained, must give the same values, errors and explanations as with the same functions in process.
Non-trivial when the plugin is called and a value is found. samename: as equal with functions that have the same name but are of different kinds or
in different plugin files. faults and unanswered: lookups over five levels, three of them functions of a plugin
whose answers have an error status, are malformed, cut off or missing for random calls, or whose server goes down and comes back; each outcome is
compared with a model of which functions the lookup must call. Non-trivial when some lookups fail and others don't.`,
		Assumptions: []string{`the handler that hierasdk makes of functions is that of a plugin`, `floats without a fraction are left out since the JSON of dgo makes integers of them`},
		Subs: []subCheck{
			Spec[plugCase]{Name: `equal`, Quick: 600, Thorough: 20000, Gen: genPlugCase, Run: runPlug},
			Spec[plugCase]{Name: `samename`, Quick: 250, Thorough: 10000, Gen: genSameCase, Run: runPlug},
			Spec[faultCase]{Name: `faults`, Quick: 500, Thorough: 20000, Gen: genFaultCase, Run: runFault},
			Spec[faultCase]{Name: `unanswered`, Quick: 2, Thorough: 40, Gen: genHangCase, Run: runFault},
		},
	})
}
