package harness

import (
	"encoding/json"
	"fmt"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/vf"
	sdk "github.com/lyraproj/hierasdk/hiera"
	sdkreg "github.com/lyraproj/hierasdk/register"
	"github.com/lyraproj/hierasdk/routes"
)

// A plugin of a check is a shell script that registers its process id, prints its handshake, and waits to be
// terminated. The functions that the handshake announces are served by the harness itself.

// plugServer serves the functions of plugins
type plugServer struct {
	dir     string
	network string
	addr    string
	lis     net.Listener
	srv     *http.Server
	lock    sync.Mutex
	conns   map[net.Conn]bool
	total   int
}

// startPlugServer starts serving on a socket in the given directory or on a loopback port
func startPlugServer(dir, network string, h http.Handler) *plugServer {
	s := &plugServer{dir: dir, network: network, conns: map[net.Conn]bool{}}
	s.listen(h)
	return s
}

func (s *plugServer) listen(h http.Handler) {
	var err error
	if s.network == `unix` {
		if s.addr == `` {
			s.addr = filepath.Join(s.dir, `s`)
		}
	} else if s.addr == `` {
		s.addr = `127.0.0.1:0`
	}
	for i := 0; ; i++ {
		if s.lis, err = net.Listen(s.network, s.addr); err == nil || i > 50 {
			break
		}
		time.Sleep(20 * time.Millisecond)
	}
	must(err)
	s.addr = s.lis.Addr().String()
	s.srv = &http.Server{Handler: h, ConnState: func(c net.Conn, st http.ConnState) {
		s.lock.Lock()
		switch st {
		case http.StateNew:
			s.conns[c] = true
			s.total++
		case http.StateClosed, http.StateHijacked:
			delete(s.conns, c)
		}
		s.lock.Unlock()
	}}
	srv, lis := s.srv, s.lis
	go func() { _ = srv.Serve(lis) }()
}

func (s *plugServer) close() { _ = s.srv.Close() }

// open returns the number of connections that are open
func (s *plugServer) open() int {
	s.lock.Lock()
	defer s.lock.Unlock()
	return len(s.conns)
}

// within waits until the condition holds
func within(d time.Duration, f func() bool) bool {
	for end := time.Now().Add(d); ; time.Sleep(2 * time.Millisecond) {
		if f() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
	}
}

// handshake is what a plugin prints. A nil network means that it says nothing about that.
func handshake(network, addr string, functions map[string][]string) string {
	m := map[string]interface{}{`version`: 1, `address`: addr, `functions`: functions}
	if network != `` {
		m[`network`] = network
	}
	bs, err := json.Marshal(m)
	must(err)
	return string(bs)
}

// plugScript writes the script of a plugin. Its body is executed after the process id is registered.
func plugScript(path, pids, body string) {
	must(os.MkdirAll(filepath.Dir(path), 0755))
	must(os.WriteFile(path, []byte("#!/bin/sh\necho $$ >> '"+pids+"'\n"+body+"\n"), 0755))
}

// plugPids returns the processes that have been started
func plugPids(pids string) (ps []int) {
	bs, err := os.ReadFile(pids)
	if err != nil {
		return nil
	}
	for _, l := range strings.Fields(string(bs)) {
		p, err := strconv.Atoi(l)
		must(err)
		ps = append(ps, p)
	}
	return
}

// procState returns the state of a process or zero if there is none
func procState(pid int) byte {
	bs, err := os.ReadFile(fmt.Sprintf(`/proc/%d/stat`, pid))
	if err != nil {
		return 0
	}
	s := string(bs)
	s = s[strings.LastIndexByte(s, ')')+1:]
	return strings.TrimSpace(s)[0]
}

// reap ends processes that a case has left behind
func reap(pids string) {
	for _, p := range plugPids(pids) {
		if procState(p) != 0 {
			if pr, err := os.FindProcess(p); err == nil {
				_ = pr.Kill()
				go func() { _, _ = pr.Wait() }()
			}
		}
	}
}

// plugFn is a function that is made available both by a plugin and in process
type plugFn struct {
	Kind  string `json:"kind"`
	Name  string `json:"name"`
	Echo  bool   `json:"echo,omitempty"`  // the result shows the key and the options
	Table Val    `json:"table,omitempty"` // results
}

func (f *plugFn) lookupKey(pc sdk.ProviderContext, key string) dgo.Value {
	if v, ok := f.Table.V.(M)[key]; ok {
		return richD(v)
	}
	if f.Echo && key != `lookup_options` {
		return vf.Map(`fn`, f.Name, `key`, key, `options`, optsOf(pc))
	}
	return nil
}

func (f *plugFn) dataHash(pc sdk.ProviderContext) dgo.Map {
	m := richD(f.Table.V).(dgo.Map)
	if f.Echo {
		m.Put(`echo`, optsOf(pc))
	}
	return m
}

func (f *plugFn) dataDig(pc sdk.ProviderContext, key dgo.Array) dgo.Value {
	var v V = f.Table.V
	found := true
	for i := 0; i < key.Len() && found; i++ {
		switch c := v.(type) {
		case M:
			s, ok := key.Get(i).(dgo.String)
			if found = ok; ok {
				v, found = c[s.GoString()]
			}
		case L:
			n, ok := key.Get(i).(dgo.Integer)
			if found = ok && n.GoInt() >= 0 && int(n.GoInt()) < len(c); found {
				v = c[n.GoInt()]
			}
		default:
			found = false
		}
	}
	if found {
		return richD(v)
	}
	if f.Echo && !key.Get(0).Equals(`lookup_options`) {
		return vf.Map(`fn`, f.Name, `key`, key, `options`, optsOf(pc))
	}
	return nil
}

// value is the function for use in process
func (f *plugFn) value() interface{} {
	switch f.Kind {
	case `lookup_key`:
		return vf.Value(func(pc sdk.ProviderContext, key string) dgo.Value { return f.lookupKey(pc, key) })
	case `data_hash`:
		return vf.Value(func(pc sdk.ProviderContext) dgo.Value { return f.dataHash(pc) })
	}
	return vf.Value(func(pc sdk.ProviderContext, key dgo.Array) dgo.Value { return f.dataDig(pc, key) })
}

// serveFns is the handler that the SDK makes of the functions, and what its handshake says about them
func serveFns(fns []plugFn) (http.Handler, map[string][]string) {
	sdkreg.Clean()
	names := map[string][]string{}
	for i := range fns {
		f := &fns[i]
		names[f.Kind] = append(names[f.Kind], f.Name)
		switch f.Kind {
		case `lookup_key`:
			sdkreg.LookupKey(f.Name, f.lookupKey)
		case `data_hash`:
			sdkreg.DataHash(f.Name, f.dataHash)
		default:
			sdkreg.DataDig(f.Name, f.dataDig)
		}
	}
	h, _ := routes.Register()
	return h, names
}

// optsOf returns the options. There is no map when a plugin gets no options
func optsOf(pc sdk.ProviderContext) dgo.Map {
	if m := pc.OptionsMap(); m != nil {
		return m
	}
	return vf.Map()
}

// richD is like toD but hashes with one special key denote values that aren't data
func richD(v V) dgo.Value {
	switch v := v.(type) {
	case L:
		a := make([]dgo.Value, len(v))
		for i, e := range v {
			a[i] = richD(e)
		}
		return vf.Array(a)
	case M:
		if len(v) == 1 {
			if e, ok := v[`#sens`]; ok {
				return vf.Sensitive(richD(e))
			}
			if e, ok := v[`#bin`]; ok {
				return vf.Binary([]byte(e.(string)), true)
			}
			if e, ok := v[`#time`]; ok {
				return vf.Time(time.Unix(e.(int64), 123000000).UTC())
			}
			if e, ok := v[`#type`]; ok {
				return tf.ParseType(e.(string))
			}
		}
		m := vf.MutableMap()
		for _, k := range keys(v) {
			if strings.HasPrefix(k, intKey) {
				i, err := strconv.ParseInt(k[len(intKey):], 10, 64)
				must(err)
				m.Put(i, richD(v[k]))
			} else {
				m.Put(k, richD(v[k]))
			}
		}
		return m
	}
	return toD(v)
}

func removeFile(p string) {
	if err := os.Remove(p); err != nil && !os.IsNotExist(err) {
		must(err)
	}
}

// readLines returns the lines of a file, none if it doesn't exist
func readLines(p string) []string {
	bs, err := os.ReadFile(p)
	if os.IsNotExist(err) {
		return nil
	}
	must(err)
	return strings.Split(strings.TrimSuffix(string(bs), "\n"), "\n")
}
