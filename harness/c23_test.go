package harness

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/loader"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/provider"
	"github.com/lyraproj/hiera/session"
	log "github.com/sirupsen/logrus"
	"pgregory.net/rapid"
)

// procMod is a module with one level
type procMod struct {
	Plugin int    `json:"plugin"`
	Kind   string `json:"kind"`
	Rel    bool   `json:"rel,omitempty"`  // plugindir is relative to the module
	File   int    `json:"file,omitempty"` // how the file is written
}

type procOp struct {
	Do   string `json:"do"` // lookup, lookups (concurrently) or end
	S    int    `json:"s"`
	M    int    `json:"m"`
	Ms   []int  `json:"ms,omitempty"`
	New  bool   `json:"new,omitempty"`
	How  string `json:"how,omitempty"` // of end
	Form string `json:"form,omitempty"`
}

type procCase struct {
	Network string    `json:"network"`
	Plugins []string  `json:"plugins"` // behaviour
	Mods    []procMod `json:"mods"`
	Ops     []procOp  `json:"ops"`
}

type procCases struct {
	Cases []procCase `json:"cases"`
}

// behaviour of a plugin process. In the body, HS is the path of the handshake.
type behaviour struct {
	body    string // script unless empty
	hs      string // handshake unless that of a good plugin. ADDR and NET are replaced
	fails   bool
	missing bool // it starts but doesn't have the function
	mode    os.FileMode
}

const wait = "\nexec sleep 1000"

var fastBehaviours = map[string]behaviour{
	`ok`:         {body: "cat HS" + wait},
	`ok2`:        {body: "cat HS" + wait},
	`graceful`:   {body: "trap 'exit 0' INT\ncat HS\nwhile :; do sleep 0.02; done"},
	`chatter`:    {body: "echo err >&2\ncat HS\nfor i in 0 1 2 3 4 5 6 7 8 9; do echo out; echo err >&2; done" + wait},
	`bigerr`:     {body: "head -c 200000 /dev/zero | tr '\\0' x >&2\ncat HS" + wait},
	`bigout`:     {body: "cat HS\nhead -c 200000 /dev/zero | tr '\\0' x" + wait},
	`closed`:     {body: "cat HS\nexec sleep 1000 >&- 2>&-"},
	`slowok`:     {body: "sleep 0.2\ncat HS" + wait},
	`child`:      {body: "sleep 1000 &\necho $! >> HS.extra\ncat HS" + wait},
	`spaces`:     {body: "echo\necho '  '\ncat HS" + wait},
	`extra meta`: {body: "cat HS" + wait, hs: `{"x": [1], "version": 1, "address": "ADDR", "network": "NET", "functions": {"lookup_key": ["lk", "o"], "data_dig": ["dd"], "data_hash": ["dh"]}, "y": null}`},
	`exit0`:      {body: "exit 0", fails: true},
	`exit1`:      {body: "echo sorry >&2; exit 1", fails: true},
	`killed`:     {body: "kill -9 $$", fails: true},
	`text`:       {body: "echo hello" + wait, fails: true},
	`cut`:        {body: "printf '{\"version\":1,'", fails: true},
	`array`:      {body: "echo '[]'" + wait, fails: true},
	`null`:       {body: "echo null" + wait, fails: true},
	`string`:     {body: "echo '\"x\"'" + wait, fails: true},
	`version2`:   {body: "cat HS" + wait, hs: `{"version": 2, "address": "ADDR", "network": "NET", "functions": {"lookup_key": ["lk"]}}`, fails: true},
	`version s`:  {body: "cat HS" + wait, hs: `{"version": "1", "address": "ADDR", "network": "NET", "functions": {"lookup_key": ["lk"]}}`, fails: true},
	`no version`: {body: "cat HS" + wait, hs: `{"address": "ADDR", "network": "NET", "functions": {"lookup_key": ["lk"]}}`, fails: true},
	`no addr`:    {body: "cat HS" + wait, hs: `{"version": 1, "network": "NET", "functions": {"lookup_key": ["lk"]}}`, fails: true},
	`addr int`:   {body: "cat HS" + wait, hs: `{"version": 1, "address": 7, "network": "NET", "functions": {"lookup_key": ["lk"]}}`, fails: true},
	`no funcs`:   {body: "cat HS" + wait, hs: `{"version": 1, "address": "ADDR", "network": "NET"}`, fails: true},
	`func array`: {body: "cat HS" + wait, hs: `{"version": 1, "address": "ADDR", "network": "NET", "functions": ["lk"]}`, fails: true},
	`func null`:  {body: "cat HS" + wait, hs: `{"version": 1, "address": "ADDR", "network": "NET", "functions": null}`, fails: true},
	`names str`:  {body: "cat HS" + wait, hs: `{"version": 1, "address": "ADDR", "network": "NET", "functions": {"lookup_key": "lk"}}`, fails: true},
	`names int`:  {body: "cat HS" + wait, hs: `{"version": 1, "address": "ADDR", "network": "NET", "functions": {"lookup_key": [1]}}`, fails: true},
	`names null`: {body: "cat HS" + wait, hs: `{"version": 1, "address": "ADDR", "network": "NET", "functions": {"data_hash": null}}`, fails: true},
	`empty`:      {body: "cat HS" + wait, hs: `{"version": 1, "address": "ADDR", "network": "NET", "functions": {}}`, missing: true},
	`other`:      {body: "cat HS" + wait, hs: `{"version": 1, "address": "ADDR", "network": "NET", "functions": {"lookup_key": ["other"]}}`, missing: true},
	`not exec`:   {body: "cat HS" + wait, fails: true, mode: 0644},
	`none`:       {fails: true},
	`dir`:        {fails: true},
}

var slowBehaviours = map[string]behaviour{
	`stubborn`: {body: "trap '' INT\ncat HS" + wait},
	`silent`:   {body: "exec sleep 1000", fails: true},
	`late`:     {body: "sleep 3.6\ncat HS" + wait, fails: true},
	`cut`:      {body: "printf '{\"version\":1,'" + wait, fails: true},
	`blank`:    {body: "echo; echo" + wait, fails: true},
	`noout`:    {body: "exec sleep 1000 2>&-", fails: true},
	`deaf`:     {body: "trap '' INT\nexec sleep 1000", fails: true},
}

func behaves(name string) behaviour {
	if b, ok := fastBehaviours[name]; ok {
		return b
	}
	if b, ok := slowBehaviours[strings.TrimPrefix(name, `slow `)]; ok {
		return b
	}
	panic(infra{fmt.Errorf(`no behaviour %s`, name)})
}

func sortedNames(m map[string]behaviour) []string {
	x := M{}
	for k := range m {
		x[k] = nil
	}
	return keys(x)
}

func genProcMods(t *rapid.T, c *procCase) {
	c.Network = pick(t, `network`, `unix`, `tcp`)
	for i := rapid.IntRange(1, 4).Draw(t, `nmods`); i > 0; i-- {
		c.Mods = append(c.Mods, procMod{Plugin: rapid.IntRange(0, len(c.Plugins)-1).Draw(t, `plugin`), Kind: pick(t, `kind`, `lookup_key`, `data_dig`, `data_hash`), Rel: rapid.Bool().Draw(t, `rel`), File: max(0, rapid.IntRange(-3, 3).Draw(t, `file`))})
	}
}

var endings = []string{`try`, `try`, `try error`, `try panic`, `try string`, `try lookup`, `do`, `do panic`, `kill`, `kill twice`}

func genProcCase(t *rapid.T) procCase {
	var c procCase
	for i := rapid.IntRange(1, 3).Draw(t, `nplugins`); i > 0; i-- {
		b := `ok`
		if chance(t, 6, `other`) {
			b = pick(t, `behaviour`, sortedNames(fastBehaviours)...)
		}
		c.Plugins = append(c.Plugins, b)
	}
	genProcMods(t, &c)
	mod := func() int { return rapid.IntRange(0, len(c.Mods)-1).Draw(t, `mod`) }
	for i := rapid.IntRange(1, 10).Draw(t, `nops`); i > 0; i-- {
		o := procOp{S: rapid.IntRange(0, 2).Draw(t, `session`)}
		switch rapid.IntRange(0, 5).Draw(t, `op`) {
		default:
			o.Do, o.M, o.New = `lookup`, mod(), rapid.Bool().Draw(t, `new`)
		case 4:
			o.Do = `lookups`
			for j := rapid.IntRange(2, 6).Draw(t, `n`); j > 0; j-- {
				o.Ms = append(o.Ms, mod())
			}
		case 5:
			o.Do, o.M, o.How = `end`, mod(), pick(t, `how`, endings...)
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

// genSlowCases generates several short histories which are run at the same time, since each of them takes seconds
func genSlowCases(t *rapid.T) procCases {
	var cs procCases
	for i := 0; i < 8; i++ {
		c := procCase{Plugins: []string{`slow ` + pick(t, `behaviour`, sortedNames(slowBehaviours)...)}}
		if chance(t, 3, `two`) {
			c.Plugins = append(c.Plugins, `ok`)
		}
		genProcMods(t, &c)
		mod := func() int { return rapid.IntRange(0, len(c.Mods)-1).Draw(t, `mod`) }
		for j := rapid.IntRange(1, 2).Draw(t, `nops`); j > 0; j-- {
			if chance(t, 3, `conc`) {
				c.Ops = append(c.Ops, procOp{Do: `lookups`, Ms: []int{mod(), mod()}})
			} else {
				c.Ops = append(c.Ops, procOp{Do: `lookup`, M: mod()})
			}
		}
		c.Ops = append(c.Ops, procOp{Do: `end`, M: mod(), How: pick(t, `how`, endings...)})
		cs.Cases = append(cs.Cases, c)
	}
	return cs
}

// procSession is a session that runs in a goroutine of its own
type procSession struct {
	cmds chan func(s api.Session) error
	acks chan bool
	done chan error
	invs map[int]api.Invocation
	used map[int]bool // plugins that have been started
}

var quietLog sync.Once

// loaders are the parent loaders of sessions
var loaders = map[string]dgo.Loader{`kill`: loader.New(nil, `system`, nil, nil, func(l dgo.Loader, name string) dgo.Loader {
	if name == `function` {
		return loader.New(l, name, vf.Map(`unused`, 1), nil, nil)
	}
	return nil
})}

var errStop = errors.New(`stop`)

// startSession starts a session which ends in the given way
func startSession(o map[string]interface{}, how string) *procSession {
	p := &procSession{cmds: make(chan func(s api.Session) error), acks: make(chan bool), done: make(chan error, 1), invs: map[int]api.Invocation{}, used: map[int]bool{}}
	body := func(s api.Session) error {
		for c := range p.cmds {
			if err := c(s); err != nil {
				if err == errStop {
					return nil
				}
				return err
			}
			p.acks <- true
		}
		return nil
	}
	go func() {
		defer func() {
			if e := recover(); e != nil {
				p.done <- fmt.Errorf(`panic: %v`, e)
			}
		}()
		switch strings.Fields(how)[0] {
		case `try`:
			p.done <- hiera.TryWithParent(context.Background(), provider.ModuleLookupKey, o, body)
		case `do`:
			hiera.DoWithParent(context.Background(), provider.ModuleLookupKey, o, func(s api.Session) {
				if err := body(s); err != nil {
					panic(err)
				}
			})
			p.done <- nil
		default:
			s := session.New(context.Background(), provider.ModuleLookupKey, o, loaders[how])
			err := body(s)
			s.KillPlugins()
			if how == `kill twice` {
				s.KillPlugins()
				s.KillPlugins()
			}
			p.done <- err
		}
	}()
	return p
}

func (p *procSession) do(f func(s api.Session)) {
	p.cmds <- func(s api.Session) error {
		f(s)
		return nil
	}
	<-p.acks
}

func (c *procCase) key(m int) string { return fmt.Sprintf(`m%d::k`, m) }

// plugHandler is a plugin that has a value for all keys
func plugHandler(id int) http.Handler {
	return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		key := r.URL.Query().Get(`key`)
		var v interface{}
		val := func(k string) string { return fmt.Sprintf(`%d %s`, id, k) }
		switch r.URL.Path {
		case `/lookup_key/lk`:
			v = val(key)
		case `/data_dig/dd`:
			var ks []string
			if err := json.Unmarshal([]byte(key), &ks); err != nil {
				http.Error(w, err.Error(), 500)
				return
			}
			key = ks[0]
			v = val(key)
		case `/data_hash/dh`:
			m := M{}
			for i := 0; i < 9; i++ {
				k := fmt.Sprintf(`m%d::k`, i)
				m[k] = val(k)
			}
			v = m
		}
		if v == nil || key == `lookup_options` {
			http.Error(w, `not found`, 404)
			return
		}
		bs, _ := json.Marshal(v)
		_, _ = w.Write(bs)
	})
}

var kindFns = map[string]string{`lookup_key`: `lk`, `data_dig`: `dd`, `data_hash`: `dh`}

func runProc(x *X, c procCase) error {
	err := runProcIn(x, x.Dir(), &c)
	return err
}

func runProcs(x *X, cs procCases) error {
	errs := make([]error, len(cs.Cases))
	dirs := make([]string, len(cs.Cases))
	for i := range cs.Cases {
		dirs[i] = filepath.Join(x.Dir(), fmt.Sprint(i))
		must(os.Mkdir(dirs[i], 0755))
		cs.Cases[i].prepare(dirs[i])
	}
	var wg sync.WaitGroup
	for i := range cs.Cases {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			errs[i] = runProcIn(nil, dirs[i], &cs.Cases[i])
		}(i)
	}
	wg.Wait()
	for i := range cs.Cases {
		for _, p := range cs.Cases[i].Plugins {
			x.Label(`%s`, p)
		}
	}
	x.NonTrivial()
	return errors.Join(errs...)
}

// pluginPath is where a plugin is
func pluginPath(dir string, i int) string {
	return filepath.Join(dir, `plugins`, fmt.Sprintf(`p%d`, i))
}

// prepare writes the modules
func (c *procCase) prepare(dir string) {
	for i, m := range c.Mods {
		l := Level{Name: `l`, Kind: m.Kind, Fn: kindFns[m.Kind], Plugindir: filepath.Join(dir, `plugins`), Pluginfile: fmt.Sprintf(`p%d`, m.Plugin)}
		if m.Rel {
			l.Plugindir = `../../plugins`
		}
		switch m.File {
		case 1:
			l.Plugindir, l.Pluginfile = ``, filepath.Join(dir, `plugins`, l.Pluginfile)
		case 2:
			l.Plugindir, l.Pluginfile = `nowhere`, dir+`/modules/../plugins//./`+l.Pluginfile
		case 3:
			l.Pluginfile = `../plugins/./` + l.Pluginfile
		}
		cfg := Config{Levels: []Level{l}}
		writeFile(filepath.Join(dir, `modules`, fmt.Sprintf(`m%d`, i), `hiera.yaml`), cfg.text())
	}
	for i, p := range c.Plugins {
		b := behaves(p)
		hs := filepath.Join(dir, fmt.Sprintf(`hs%d`, i))
		switch {
		case p == `dir`:
			must(os.MkdirAll(pluginPath(dir, i), 0755))
		case b.body != ``:
			plugScript(pluginPath(dir, i), filepath.Join(dir, fmt.Sprintf(`pids%d`, i)), strings.ReplaceAll(b.body, `HS`, hs))
			if b.mode != 0 {
				must(os.Chmod(pluginPath(dir, i), b.mode))
			}
		}
	}
}

// runProcIn runs one history. The explorer of the case is nil when it runs together with others.
func runProcIn(x *X, dir string, c *procCase) error {
	quietLog.Do(func() { log.SetOutput(io.Discard) })
	if x != nil {
		c.prepare(dir)
		for _, p := range c.Plugins {
			x.Label(`%s`, p)
		}
	}
	pids := func(i int) string { return filepath.Join(dir, fmt.Sprintf(`pids%d`, i)) }
	srvs := make([]*plugServer, len(c.Plugins))
	for i := range c.Plugins {
		sd := filepath.Join(dir, fmt.Sprint(`s`, i))
		must(os.Mkdir(sd, 0755))
		srvs[i] = startPlugServer(sd, c.Network, plugHandler(i))
		defer srvs[i].close()
		hs := filepath.Join(dir, fmt.Sprintf(`hs%d`, i))
		text := behaves(c.Plugins[i]).hs
		if text == `` {
			text = handshake(c.Network, srvs[i].addr, map[string][]string{`lookup_key`: {`lk`}, `data_dig`: {`dd`}, `data_hash`: {`dh`}})
		}
		writeFile(hs, strings.NewReplacer(`ADDR`, srvs[i].addr, `NET`, c.Network).Replace(text)+"\n")
		defer reap(pids(i))
		defer reap(hs + `.extra`)
	}
	o := map[string]interface{}{api.HieraRoot: dir, provider.ModulePath: filepath.Join(dir, `modules`), `pluginTransport`: c.Network}
	ss := map[int]*procSession{}
	starts := map[int]int{}

	// check compares the outcome of a lookup in a module
	check := func(m int, r Res) error {
		p := c.Mods[m].Plugin
		b := behaves(c.Plugins[p])
		what := fmt.Sprintf(`the lookup of %s that uses plugin %d (%s)`, c.key(m), p, c.Plugins[p])
		switch {
		case b.fails:
			if r.Err == nil {
				return fmt.Errorf(`%s gives %s, want an error`, what, r)
			}
			if isRuntime(r.Err) || !strings.Contains(r.Err.Error(), pluginPath(dir, p)) {
				return fmt.Errorf(`%s gives an error that doesn't name the plugin: %v`, what, r.Err)
			}
		case b.missing:
			if r.Err == nil || isRuntime(r.Err) {
				return fmt.Errorf(`%s gives %s, want an error`, what, r)
			}
		default:
			if want := value(fmt.Sprintf(`%d %s`, p, c.key(m))); !r.same(want) {
				return fmt.Errorf(`%s gives %s, want %s`, what, r, want)
			}
		}
		return nil
	}
	// processes compares the processes that exist with those that should
	processes := func(after string) error {
		for i, p := range c.Plugins {
			b := behaves(p)
			want := 0
			for _, s := range ss {
				if s.used[i] {
					want++
				}
			}
			alive := 0
			var all []int
			if !within(2*time.Second, func() bool {
				alive, all = 0, plugPids(pids(i))
				for _, pid := range all {
					if procState(pid) != 0 {
						alive++
					}
				}
				return alive == want
			}) {
				return fmt.Errorf(`%s there are %d processes of plugin %d (%s), want %d. Started %d`, after, alive, i, p, want, len(all))
			}
			if !b.fails && len(all) != starts[i] {
				return fmt.Errorf(`%s plugin %d (%s) has been started %d times, want %d`, after, i, p, len(all), starts[i])
			}
			for _, pid := range all {
				if want == 0 && procState(pid) == 'Z' {
					return fmt.Errorf(`%s process of plugin %d (%s) is a zombie`, after, i, p)
				}
			}
			if want == 0 && !within(2*time.Second, func() bool { return srvs[i].open() == 0 }) {
				return fmt.Errorf(`%s there are %d open connections to plugin %d (%s)`, after, srvs[i].open(), i, p)
			}
		}
		return nil
	}
	uses := func(s *procSession, m int) {
		p := c.Mods[m].Plugin
		if !behaves(c.Plugins[p]).fails && !s.used[p] {
			s.used[p] = true
			starts[p]++
		}
	}
	lookups := 0
	lookupKey := func(ic api.Invocation, m int) Res {
		return capture(func() dgo.Value { return lookup(ic, c.key(m), ``) })
	}
	// How a session ends is decided when it starts
	ending := func(s, from int) procOp {
		for _, o := range c.Ops[from:] {
			if o.S == s && o.Do == `end` {
				return o
			}
		}
		return procOp{Do: `end`, S: s, How: `try`}
	}
	end := func(o procOp) error {
		s := ss[o.S]
		delete(ss, o.S)
		var want string
		s.cmds <- func(as api.Session) error {
			switch o.How {
			case `try error`:
				want = `an error`
				return errors.New(want)
			case `try panic`, `do panic`:
				want = `a panic`
				panic(errors.New(want))
			case `try string`:
				want = `a string`
				panic(want)
			case `try lookup`:
				r := lookupKey(as.Invocation(nil, nil), o.M)
				uses(s, o.M)
				if r.Err != nil {
					want = r.Err.Error()
				}
				lookup(as.Invocation(nil, nil), c.key(o.M), ``)
			}
			return errStop
		}
		err := <-s.done
		if o.How == `do panic` {
			want = `panic: ` + want
		}
		if want == `` && err != nil || want != `` && (err == nil || err.Error() != want) {
			return fmt.Errorf(`the session ends with %v, want %q`, err, want)
		}
		return processes(fmt.Sprintf(`after session %d has ended (%s)`, o.S, o.How))
	}
	run := func() error {
		for i, op := range c.Ops {
			s := ss[op.S]
			if s == nil {
				s = startSession(o, ending(op.S, i).How)
				ss[op.S] = s
			}
			var err error
			switch op.Do {
			case `lookup`:
				lookups++
				s.do(func(as api.Session) {
					ic := s.invs[0]
					if ic == nil || op.New {
						ic = as.Invocation(nil, nil)
						s.invs[0] = ic
					}
					err = check(op.M, lookupKey(ic, op.M))
				})
				uses(s, op.M)
			case `lookups`:
				lookups += len(op.Ms)
				s.do(func(as api.Session) {
					errs := make([]error, len(op.Ms))
					var wg sync.WaitGroup
					for j, m := range op.Ms {
						wg.Add(1)
						go func(j, m int) {
							defer wg.Done()
							errs[j] = check(m, lookupKey(as.Invocation(nil, nil), m))
						}(j, m)
					}
					wg.Wait()
					err = errors.Join(errs...)
				})
				for _, m := range op.Ms {
					uses(s, m)
				}
			case `end`:
				err = end(op)
			}
			if err == nil {
				err = processes(fmt.Sprintf(`after operation %d (%s)`, i, op.Do))
			}
			if err != nil {
				return fmt.Errorf(`operation %d: %w`, i, err)
			}
		}
		for i := 0; i < 3; i++ {
			if ss[i] != nil {
				if err := end(ending(i, len(c.Ops))); err != nil {
					return err
				}
			}
		}
		return nil
	}
	err := run()
	for _, s := range ss {
		close(s.cmds)
		<-s.done
	}
	if x != nil && lookups > 1 {
		x.NonTrivial()
	}
	return err
}

// ---- the lookup program

type progCase struct {
	Plugins []string `json:"plugins"`
	Network string   `json:"network"`
	Args    []string `json:"args"`
	Env     bool     `json:"env,omitempty"` // HIERA_PLUGINDIR instead of plugindir
}

func genProgCase(t *rapid.T) progCase {
	c := progCase{Network: pick(t, `network`, `unix`, `tcp`), Env: rapid.Bool().Draw(t, `env`)}
	for i := rapid.IntRange(1, 3).Draw(t, `n`); i > 0; i-- {
		b := `ok`
		if chance(t, 4, `other`) {
			b = pick(t, `behaviour`, sortedNames(fastBehaviours)...)
		}
		c.Plugins = append(c.Plugins, b)
	}
	c.Args = pick(t, `args`, []string{`m0::k`}, []string{`m0::k`}, []string{`missing`}, []string{`m0::k`, `--type`, `Integer`}, []string{`m0::k`, `--render-as`, `nothing`},
		[]string{`m0::k`, `--merge`, `nosuch`}, []string{`m0::k`, `--explain`}, []string{`a..b`}, []string{`m0::k`, `--merge`, `unique`}, []string{`m0::k`, `missing`, `--all`})
	return c
}

func runProg(x *X, c progCase) error {
	dir := x.Dir()
	var w World
	var pids []string
	fails := false
	for i, p := range c.Plugins {
		b := behaves(p)
		fails = fails || b.fails || b.missing
		x.Label(`%s`, p)
		sd := filepath.Join(dir, fmt.Sprint(`s`, i))
		must(os.Mkdir(sd, 0755))
		srv := startPlugServer(sd, c.Network, plugHandler(i))
		defer srv.close()
		hs, pf := filepath.Join(dir, fmt.Sprintf(`hs%d`, i)), filepath.Join(dir, fmt.Sprintf(`pids%d`, i))
		pids = append(pids, pf)
		defer reap(pf)
		defer reap(hs + `.extra`)
		text := b.hs
		if text == `` {
			text = handshake(c.Network, srv.addr, map[string][]string{`lookup_key`: {`lk`}, `data_dig`: {`dd`}, `data_hash`: {`dh`}})
		}
		writeFile(hs, strings.NewReplacer(`ADDR`, srv.addr, `NET`, c.Network).Replace(text)+"\n")
		switch {
		case p == `dir`:
			must(os.MkdirAll(pluginPath(dir, i), 0755))
		case b.body != ``:
			plugScript(pluginPath(dir, i), pf, strings.ReplaceAll(b.body, `HS`, hs))
			if b.mode != 0 {
				must(os.Chmod(pluginPath(dir, i), b.mode))
			}
		}
		l := Level{Name: fmt.Sprint(`l`, i), Kind: `lookup_key`, Fn: `lk`, Plugindir: `plugins`, Pluginfile: fmt.Sprintf(`p%d`, i)}
		if c.Env {
			l.Plugindir = ``
		}
		w.Cfg.Levels = append(w.Cfg.Levels, l)
	}
	w.write(dir)
	ctx, cancel := context.WithTimeout(context.Background(), 40*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, filepath.Join(os.Getenv(`VERIF_BIN`), `lookup`), c.Args...)
	cmd.Dir = dir
	if c.Env {
		cmd.Env = append(os.Environ(), `HIERA_PLUGINDIR=plugins`)
	}
	// Processes that outlive the program may not keep this check waiting
	out, err := os.Create(filepath.Join(dir, `out`))
	must(err)
	defer out.Close()
	cmd.Stdout, cmd.Stderr = out, out
	err = cmd.Run()
	must(ctx.Err())
	if fails && err == nil && c.Args[0] == `m0::k` {
		return fmt.Errorf(`lookup %q succeeds although a plugin (%q) cannot be used`, c.Args, c.Plugins)
	}
	if !fails && err != nil && len(c.Args) == 1 && c.Args[0] == `m0::k` {
		bs, _ := os.ReadFile(out.Name())
		return fmt.Errorf("lookup %q fails (plugins %q): %s", c.Args, c.Plugins, head(string(bs), 500))
	}
	started := 0
	for i, pf := range pids {
		ps := plugPids(pf)
		started += len(ps)
		if !fails && len(ps) > 1 {
			return fmt.Errorf(`lookup %q starts plugin %d %d times`, c.Args, i, len(ps))
		}
		for _, p := range ps {
			// A process that has been waited for by nobody else is waited for by init, sooner or later
			if !within(300*time.Millisecond, func() bool { s := procState(p); return s == 0 || s == 'Z' }) {
				return fmt.Errorf(`lookup %q (plugins %q) leaves process %d of plugin %d behind`, c.Args, c.Plugins, p, i)
			}
		}
	}
	if err != nil {
		x.Label(`error`)
	} else {
		x.Label(`success`)
	}
	if started > 0 {
		x.NonTrivial()
	}
	return nil
}

func init() {
	register(&Property{
		ID: `C23`,
		Rule: `histories: up to three sessions look up keys, one after the other or concurrently, that come from up to three plugins through
functions of all kinds, and end in different ways (normally, with an error, with panics, with a failing lookup). A plugin is a script with one of 35
behaviours: most are faulty at start, others write much, are slow, or leave processes of their own. After each step the table of processes must have
one process of each plugin that works per session that has used it, and none of one that doesn't, no plugin may have been started more than that, no
connection may be left when no session uses the plugin, and each lookup must give the value of its plugin or an error that names it. Built with the
race detector. Non-trivial with two lookups or more. program: the lookup program is run with such plugins and no process may be there when it has
ended. slow: plugins that take, or are given, seconds. They don't answer or must be killed; eight such histories are run at the same time.`,
		Assumptions: []string{`a plugin that works answers its handshake within three seconds on this machine`, `processes that a plugin starts itself are its own business`},
		Subs: []subCheck{
			Spec[procCase]{Name: `histories`, Quick: 300, Thorough: 10000, Gen: genProcCase, Run: runProc},
			Spec[progCase]{Name: `program`, Quick: 60, Thorough: 1000, Gen: genProgCase, Run: runProg},
			Spec[procCases]{Name: `slow`, Quick: 3, Thorough: 60, Gen: genSlowCases, Run: runProcs},
		},
	})
}
