package harness

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/hiera"
	"pgregory.net/rapid"
)

type restReq struct {
	C     Cmd    `json:"c"`
	Other string `json:"other,omitempty"` // a path that isn't that of a lookup
	Query string `json:"query,omitempty"` // added to the query as it is
}

type restBatch struct {
	Reqs   []restReq `json:"reqs"`
	Repeat int       `json:"repeat,omitempty"` // concurrent unless zero
}

type restCase struct {
	W       World       `json:"w"`
	BadCfg  bool        `json:"badcfg,omitempty"`
	Server  Cmd         `json:"server"`
	Batches []restBatch `json:"batches"`
}

var restKeys = []string{`sl/ash`, `sp ace`, `pl+us`, `per%cent`, `ünï`, `que?ry`, `ha#sh`, `a&b=c`, "new\nline", `semi;colon`, `%41`, `lookup`, `k0/`, `a//b`, `http://h/p`, `/abs`, `k0/../k1`, `a/./b`, `up/..`}

func genRestReq(t *rapid.T, w *World) restReq {
	var r restReq
	if chance(t, 1, `other`) {
		r.Other = pick(t, `path`, `/`, `/other`, `/lookup`, `/lookupk0`, `/other/lookup/k0`, `/k0`, `/LOOKUP/k0`, `//lookup/k0`, `/./lookup/k0`, `/x/../lookup/k0`)
		return r
	}
	faulty := chance(t, 2, `faulty`)
	if chance(t, 2, `oddkey`) {
		r.C.Keys = []string{pick(t, `rkey`, restKeys...)}
	} else {
		r.C.Keys = []string{genCmdKey(t, faulty)}
	}
	r.C.Vars = genCmdVars(t, w, false, faulty)
	if chance(t, 3, `hasdefault`) {
		l := genLit(t, false, faulty)
		if chance(t, 3, `emptydefault`) {
			l = Lit{Val: Val{``}}
		}
		r.C.Default = &l
	}
	r.C.Merge = genMergeName(t, faulty)
	if chance(t, 2, `hastype`) {
		r.C.Type = genCmdType(t, false, faulty)
	}
	if chance(t, 1, `oddquery`) {
		r.Query = pick(t, `query`, `other=1`, `%zz=1`, `&&`, `vars=x.yaml`, `render-as=yaml`, `all=true`, `facts`, `var`+`s`)
	}
	return r
}

func genRestCase(t *rapid.T) restCase {
	c := restCase{W: genCmdWorld(t)}
	m := M{`loop`: `%{lookup('loop')}`, `dotted.key`: `dotted %{env}`}
	for _, k := range restKeys {
		if chance(t, 6, `has`) {
			m[k] = pick[V](t, `v`, `found`, `%{env}`, L{`%{role}`, int64(1)})
		}
	}
	c.W.Cfg.Levels = append(c.W.Cfg.Levels, Level{Name: `extra`, Datadir: `extradir`, LocKey: `path`, Locs: []string{`extra.yaml`}})
	c.W.Files = append(c.W.Files, File{Path: `extradir/extra.yaml`, Data: Val{m}})
	c.BadCfg = rapid.IntRange(0, 19).Draw(t, `badcfg`) == 19
	// Several variables so that appending to the slice of variables can find room in it
	for i := rapid.IntRange(0, 3).Draw(t, `nserver`); i > 0; i-- {
		c.Server.Vars = append(c.Server.Vars, genCVar(t, cmdVarNames, false, false))
	}
	if chance(t, 3, `serverfile`) {
		c.Server.VarFiles = []CFile{genCFile(t, genFileName(t, `server`, 0), false)}
	}
	for i := rapid.IntRange(1, 3).Draw(t, `nbatch`); i > 0; i-- {
		var b restBatch
		for j := rapid.IntRange(1, 6).Draw(t, `nreq`); j > 0; j-- {
			r := genRestReq(t, &c.W)
			if chance(t, 1, `loop`) && r.Other == `` {
				r.C.Keys = []string{`loop`}
			}
			b.Reqs = append(b.Reqs, r)
		}
		if rapid.Bool().Draw(t, `concurrent`) {
			b.Repeat = rapid.IntRange(1, 4).Draw(t, `repeat`)
		}
		c.Batches = append(c.Batches, b)
	}
	return c
}

func (r *restReq) url(base string) string {
	if r.Other != `` {
		return base + r.Other
	}
	q := url.Values{}
	for i := range r.C.Vars {
		q.Add(`var`, r.C.Vars[i].text())
	}
	if r.C.Default != nil {
		q.Set(`default`, r.C.Default.Text)
	}
	if r.C.Merge != `` {
		q.Set(`merge`, r.C.Merge)
	}
	if r.C.Type != `` {
		q.Set(`type`, r.C.Type)
	}
	s := q.Encode()
	if r.Query != `` {
		if s != `` {
			s += `&`
		}
		s += r.Query
	}
	u := base + `/lookup/` + url.PathEscape(r.C.Keys[0])
	if s != `` {
		u += `?` + s
	}
	return u
}

type server struct {
	cmd  *exec.Cmd
	out  bytes.Buffer
	base string
	done chan error
}

// start starts the server. It gives an error if the server ends instead of listening.
func (s *server) start(args ...string) error {
	for try := 0; ; try++ {
		l, err := net.Listen(`tcp`, `127.0.0.1:0`)
		must(err)
		port := l.Addr().(*net.TCPAddr).Port
		must(l.Close())
		s.base = fmt.Sprintf(`http://127.0.0.1:%d`, port)
		s.cmd = exec.Command(filepath.Join(os.Getenv(`VERIF_BIN`), `rest`), append(args, `--addr`, `127.0.0.1`, `--port`, fmt.Sprint(port))...)
		s.out.Reset()
		s.cmd.Stdout, s.cmd.Stderr = &s.out, &s.out
		must(s.cmd.Start())
		s.done = make(chan error, 1)
		go func() { s.done <- s.cmd.Wait() }()
		for i := 0; ; i++ {
			if c, err := net.DialTimeout(`tcp`, fmt.Sprintf(`127.0.0.1:%d`, port), time.Second); err == nil {
				_ = c.Close()
				return nil
			}
			select {
			case err := <-s.done:
				if try < 5 && strings.Contains(s.out.String(), `address already in use`) {
					break
				}
				s.done <- err
				return fmt.Errorf("the server does not start: %v\n%s", err, head(s.out.String(), 1500))
			case <-time.After(5 * time.Millisecond):
				if i > 4000 {
					panic(infra{fmt.Errorf(`the server does not listen`)})
				}
				continue
			}
			break
		}
	}
}

func (s *server) stop() {
	_ = s.cmd.Process.Kill()
	<-s.done
}

// died tells why the server has ended
func (s *server) died() error {
	select {
	case err := <-s.done:
		s.done <- err
		out := s.out.String()
		if ix := strings.Index(out, `WARNING: DATA RACE`); ix >= 0 {
			out = out[ix:]
		}
		return fmt.Errorf("the server has ended: %v\n%s", err, head(out, 3000))
	case <-time.After(10 * time.Millisecond):
		return nil
	}
}

func runRest(x *X, c restCase) error {
	dir := x.Dir()
	c.W.write(dir)
	if c.BadCfg {
		writeFile(filepath.Join(dir, `hiera.yaml`), "version: 4\n")
	}
	args := []string{`--config`, filepath.Join(dir, `hiera.yaml`)}
	for i := range c.Server.Vars {
		args = append(args, `--var`, c.Server.Vars[i].text())
	}
	for i := range c.Server.VarFiles {
		args = append(args, `--vars`, c.Server.VarFiles[i].write(dir))
	}
	// What is expected is computed one request at a time, each in a session of its own
	o := map[string]interface{}{api.HieraConfig: filepath.Join(dir, `hiera.yaml`)}
	want := make([][]CmdRes, len(c.Batches))
	for i, b := range c.Batches {
		want[i] = make([]CmdRes, len(b.Reqs))
		for j, r := range b.Reqs {
			if r.Other != `` {
				continue
			}
			cmd := r.C
			cmd.Vars = append(append([]CVar{}, c.Server.Vars...), r.C.Vars...)
			cmd.VarFiles = c.Server.VarFiles
			want[i][j] = cmd.expected(o, hiera.JSON)
		}
	}

	var s server
	startErr := s.start(args...)
	defer s.stop()
	if startErr != nil {
		return startErr
	}
	tr := &http.Transport{MaxIdleConnsPerHost: 32}
	defer tr.CloseIdleConnections()
	client := &http.Client{Transport: tr, Timeout: 30 * time.Second, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
	get := func(r restReq, want CmdRes) error {
		u := r.url(s.base)
		resp, err := client.Get(u)
		if err != nil {
			if d := s.died(); d != nil {
				err = d
			}
			return fmt.Errorf("GET %s fails: %v", u, err)
		}
		defer resp.Body.Close()
		body, err := io.ReadAll(resp.Body)
		if err != nil {
			return fmt.Errorf("GET %s: %v", u, err)
		}
		answer := fmt.Sprintf("GET %s answers %d %q", u, resp.StatusCode, head(string(body), 500))
		switch {
		case r.Other != ``:
			if resp.StatusCode != 404 {
				return fmt.Errorf("%s, expected 404", answer)
			}
		case want.Err == errUnsureLit:
		case want.Err != nil:
			if resp.StatusCode != 500 {
				return fmt.Errorf("%s, expected 500: %v", answer, want.Err)
			}
		case !want.Found:
			if resp.StatusCode != 404 {
				return fmt.Errorf("%s, expected 404", answer)
			}
		default:
			if resp.StatusCode != 200 || !bytes.Equal(body, want.Out) {
				return fmt.Errorf("%s, expected 200 %q", answer, head(string(want.Out), 500))
			}
			if ct := resp.Header.Get(`Content-Type`); !strings.HasPrefix(ct, `application/json`) {
				return fmt.Errorf("%s with content type %s", answer, ct)
			}
			v, err := parseJSON(body)
			if err != nil {
				return fmt.Errorf("%s, which isn't JSON: %v", answer, err)
			}
			if lv := toV(want.Value); !hasRich(lv) && !sameData(unrich(v), lv) {
				return fmt.Errorf("%s, expected the JSON of %s", answer, show(lv))
			}
		}
		return nil
	}
	found, failed := 0, 0
	for i, b := range c.Batches {
		for j, r := range b.Reqs {
			switch {
			case r.Other != ``:
				x.Label(`other path`)
			case want[i][j].Err != nil:
				x.Label(`500`)
				failed++
			case want[i][j].Found:
				x.Label(`200`)
				found++
			default:
				x.Label(`404`)
			}
		}
		if b.Repeat == 0 {
			for j, r := range b.Reqs {
				if err := get(r, want[i][j]); err != nil {
					return err
				}
			}
			continue
		}
		x.Label(`concurrent`)
		var wg sync.WaitGroup
		var lock sync.Mutex
		var first error
		for n := 0; n < b.Repeat; n++ {
			for j, r := range b.Reqs {
				wg.Add(1)
				go func(r restReq, w CmdRes) {
					defer wg.Done()
					if err := get(r, w); err != nil {
						lock.Lock()
						if first == nil {
							first = err
						}
						lock.Unlock()
					}
				}(r, want[i][j])
			}
		}
		wg.Wait()
		if first != nil {
			return first
		}
	}
	if err := get(restReq{Other: `/ping`}, CmdRes{}); err != nil {
		return err
	}
	if err := s.died(); err != nil {
		return err
	}
	if found > 0 && (found > 1 || failed > 0) {
		x.NonTrivial()
	}
	return nil
}

// hasRich tells if a value has something that isn't data, or special keys of rich data
func hasRich(v V) bool {
	switch v := v.(type) {
	case sens, other:
		return true
	case L:
		for _, e := range v {
			if hasRich(e) {
				return true
			}
		}
	case M:
		for k, e := range v {
			if strings.HasPrefix(k, `__`) || strings.HasPrefix(k, `#k:`) || hasRich(e) {
				return true
			}
		}
	}
	return false
}

func init() {
	register(&Property{
		ID: `C20`,
		Rule: `The REST server, built with the race detector, is started on a loopback port with random variables and variable files over a random
hierarchy that depends on variables. Batches of requests (keys of all kinds, variables, defaults, merges and types, valid or not, other paths) are
sent one after the other or concurrently and repeatedly. Each answer must have the status and the JSON that a library lookup, made in a session of
its own with the scope computed by a model, gives. In the end the server must still be there and have reported no data race. Non-trivial when at
least two of the requests find a value, or one does and another one fails.`,
		Subs: []subCheck{
			Spec[restCase]{Name: `requests`, Quick: 150, Thorough: 3000, Gen: genRestCase, Run: runRest},
			Spec[restCase]{Name: `large`, Quick: 24, Thorough: 400, Gen: genLargeRest, Run: runRest},
		},
	})
}
