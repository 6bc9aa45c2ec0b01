package harness

import (
	"bytes"
	"errors"
	"fmt"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/provider"
	log "github.com/sirupsen/logrus"
	"pgregory.net/rapid"
)

// errLine is a line that a plugin writes
type errLine struct {
	Text string `json:"text"`
	Pad  int    `json:"pad,omitempty"` // up to this length
	Bin  int    `json:"bin,omitempty"` // number of bytes that aren't UTF-8
}

func (l errLine) String() string {
	s := l.Text
	for i := 0; i < l.Bin; i++ {
		s += string([]byte{byte(255 - i*7%128)})
	}
	if n := l.Pad - len(s); n > 0 {
		const pad = `abcdefghijklmnopqrstuvwxyz0123456789-`
		s += strings.Repeat(pad, n/len(pad)+1)[:n]
	}
	return s
}

type errCase struct {
	Network  string      `json:"network"`
	Fails    string      `json:"fails,omitempty"` // how the plugin fails
	Phases   [][]errLine `json:"phases"`          // before the handshake, after it and when terminated
	Open     bool        `json:"open,omitempty"`  // the last line isn't ended
	Out      int         `json:"out,omitempty"`   // what is written on stdout after the handshake
	Lookups  int         `json:"lookups"`
	Slow     bool        `json:"slow,omitempty"` // the log is slow
	Endings  []string    `json:"endings"`        // of the sessions
	Pipeline bool        `json:"pipeline,omitempty"`
	Child    bool        `json:"child,omitempty"` // a process that the plugin starts keeps stderr open
}

// slowLog records what is logged
type slowLog struct {
	lock  sync.Mutex
	buf   bytes.Buffer
	delay int
}

func (l *slowLog) Write(bs []byte) (int, error) {
	l.lock.Lock()
	defer l.lock.Unlock()
	if l.delay > 0 {
		l.delay--
		time.Sleep(10 * time.Millisecond)
	}
	return l.buf.Write(bs)
}

func (l *slowLog) text() string {
	l.lock.Lock()
	defer l.lock.Unlock()
	return l.buf.String()
}

func genErrLine(t *rapid.T) errLine {
	var l errLine
	switch rapid.IntRange(0, 9).Draw(t, `line`) {
	case 0:
	case 1, 2:
		l.Text = rapid.StringMatching(`[ -~]{0,60}`).Draw(t, `ascii`)
	case 3:
		l.Text = pick(t, `text`, `%d %s %%`, "\t x ", ` `, `{"version":1}`, `level=error msg="x"`, `日本語 é`, "\x1b[31mred\x1b[0m", "nul\x00nul", "\x7f\x01\x02")
	case 4:
		l.Text = strings.ReplaceAll(strings.ReplaceAll(rapid.StringN(0, 20, 60).Draw(t, `string`), "\n", ``), "\r", ``)
	case 5, 6:
		l.Text = `x`
		l.Pad = pick(t, `pad`, 4095, 4096, 4097, 8192, 32768, 65534, 65535, 65536, 65537, 131071, 131072, 131073, 196608, 200000)
	case 7:
		l.Text, l.Pad = `y`, rapid.IntRange(60000, 140000).Draw(t, `pad`)
	default:
		l.Text = pick(t, `word`, `warning`, `starting`, `error: something`)
	}
	if chance(t, 1, `binary`) {
		l.Bin = rapid.IntRange(1, 200).Draw(t, `bytes`)
	}
	return l
}

func genErrCase(t *rapid.T) errCase {
	c := errCase{Network: pick(t, `network`, `unix`, `tcp`), Lookups: rapid.IntRange(1, 3).Draw(t, `lookups`)}
	if chance(t, 3, `fails`) {
		c.Fails = pick(t, `how`, `exit`, `bad`, `version`, `cut`)
	}
	for i := 0; i < 3; i++ {
		ls := []errLine{}
		for j := pick(t, `n`, 0, 1, 2, 3, 5, 12); j > 0; j-- {
			ls = append(ls, genErrLine(t))
		}
		c.Phases = append(c.Phases, ls)
	}
	if chance(t, 4, `out`) {
		c.Out = pick(t, `outsize`, 1, 5000, 200000)
	}
	c.Open, c.Slow, c.Pipeline = chance(t, 3, `open`), chance(t, 3, `slow`), chance(t, 4, `pipeline`)
	c.Child = c.Fails != `exit` && c.Fails != `cut` && rapid.IntRange(0, 29).Draw(t, `child`) == 29 // it takes seconds when the plugin ends by itself
	for i := rapid.IntRange(1, 2).Draw(t, `sessions`); i > 0; i-- {
		c.Endings = append(c.Endings, pick(t, `ending`, `try`, `try error`, `try panic`, `do`, `do panic`, `kill`, `kill twice`))
	}
	if c.Open {
		// It isn't specified if a newline is added, so nothing more must be logged
		c.Endings = c.Endings[:1]
		if c.Fails != `` {
			c.Lookups = 1
		}
	}
	return c
}

// text returns what is written in a phase
func (c *errCase) text(phase int) string {
	var b strings.Builder
	last := -1
	for i := range c.Phases {
		if len(c.Phases[i]) > 0 && (c.Fails == `` || i == 0) {
			last = i
		}
	}
	for i, l := range c.Phases[phase] {
		b.WriteString(l.String())
		if !(c.Open && phase == last && i == len(c.Phases[phase])-1) {
			b.WriteByte('\n')
		}
	}
	return b.String()
}

func differs(got, want string) string {
	if got == want {
		return ``
	}
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	cut := func(s string) string { return s[max(0, i-20):min(len(s), i+20)] }
	return fmt.Sprintf(`%d bytes are logged, want %d. At %d there is %q, want %q`, len(got), len(want), i, cut(got), cut(want))
}

func runErrLog(x *X, c errCase) error {
	dir := x.Dir()
	buf := &slowLog{}
	if c.Slow {
		buf.delay = 20
	}
	log.SetOutput(buf)
	srv := startPlugServer(dir, c.Network, plugHandler(0))
	defer srv.close()
	pids := filepath.Join(dir, `pids`)
	defer reap(pids)
	hs := filepath.Join(dir, `hs`)
	hst := handshake(c.Network, srv.addr, map[string][]string{`lookup_key`: {`lk`}})
	switch c.Fails {
	case `bad`:
		hst = `[]`
	case `version`:
		hst = strings.Replace(hst, `"version":1`, `"version":7`, 1)
	case `cut`:
		hst = hst[:len(hst)/2]
	}
	writeFile(hs, hst+"\n")
	total := 0
	for i := range c.Phases {
		s := c.text(i)
		total += len(s)
		writeFile(filepath.Join(dir, fmt.Sprintf(`text%d`, i)), s)
	}
	marker := filepath.Join(dir, `marker`)
	write := func(i int) string {
		f := filepath.Join(dir, fmt.Sprintf(`text%d`, i))
		if c.Pipeline {
			return fmt.Sprintf("cat '%s' | dd bs=1000 >&2 2>/dev/null\n", f)
		}
		return fmt.Sprintf("cat '%s' >&2\n", f)
	}
	var body string
	switch c.Fails {
	case ``:
		body = fmt.Sprintf("bye() {\n%secho >> '%s2'\nexit 0\n}\ntrap bye INT\n%scat '%s'\n", write(2), marker, write(0), hs)
		if c.Out > 0 {
			body += fmt.Sprintf("head -c %d /dev/zero\n", c.Out)
		}
		body += fmt.Sprintf("%secho >> '%s1'\nwhile :; do sleep 0.01; done", write(1), marker)
	case `exit`:
		body = write(0) + `exit 1`
	case `cut`:
		body = fmt.Sprintf("%scat '%s'\nexit 0", write(0), hs)
	default:
		body = fmt.Sprintf("%scat '%s'\nexec sleep 1000", write(0), hs)
	}
	if c.Child {
		defer reap(pids + `.child`)
		body = fmt.Sprintf("sleep 1000 &\necho $! >> '%s.child'\n%s", pids, body)
		x.Label(`child`)
	}
	plugScript(pluginPath(dir, 0), pids, body)
	cfg := Config{Levels: []Level{{Name: `l`, Kind: `lookup_key`, Fn: `lk`, Plugindir: filepath.Join(dir, `plugins`), Pluginfile: `p0`}}}
	writeFile(filepath.Join(dir, `modules`, `m0`, `hiera.yaml`), cfg.text())
	o := map[string]interface{}{api.HieraRoot: dir, provider.ModulePath: filepath.Join(dir, `modules`), `pluginTransport`: c.Network}
	if c.Fails != `` {
		x.Label(`fails: %s`, c.Fails)
	}
	if total > 0x10000 {
		x.Label(`more than 64K`)
	}
	if c.Open {
		x.Label(`last line not ended`)
	}
	want := ``
	ended := func() {
		if want != `` && !strings.HasSuffix(want, "\n") {
			want += "\n"
		}
	}
	logged := func(when string) error {
		got := buf.text()
		if strings.HasSuffix(want, "\n") && !strings.HasSuffix(got, "\n") {
			got += "\n"
		}
		if d := differs(got, want); d != `` {
			return fmt.Errorf(`%s: %s`, when, d)
		}
		return nil
	}
	written := func(phase, n int) bool {
		return within(20*time.Second, func() bool { return len(readLines(fmt.Sprintf(`%s%d`, marker, phase))) == n })
	}
	session := func(n int, how string) (err error) {
		p := startSession(o, how)
		x.Label(`%s`, how)
		p.do(func(as api.Session) {
			for i := 0; i < c.Lookups && err == nil; i++ {
				r := capture(func() dgo.Value { return lookup(as.Invocation(nil, nil), `m0::k`, ``) })
				if c.Fails == `` {
					if !r.same(value(`0 m0::k`)) {
						err = fmt.Errorf(`the lookup gives %s`, r)
					}
					continue
				}
				want += c.text(0)
				ended()
				if r.Err == nil || isRuntime(r.Err) {
					err = fmt.Errorf(`the lookup gives %s, want an error`, r)
				} else {
					err = logged(`when the lookup fails`)
				}
			}
			if err == nil && c.Fails == `` && !written(1, n+1) {
				err = fmt.Errorf(`the plugin can't write %d bytes on stderr and %d on stdout`, len(c.text(0))+len(c.text(1)), c.Out)
			}
		})
		p.cmds <- func(api.Session) error {
			switch how {
			case `try error`:
				return errors.New(`x`)
			case `try panic`, `do panic`:
				panic(errors.New(`x`))
			}
			return errStop
		}
		<-p.done
		if err != nil {
			return err
		}
		if c.Fails == `` {
			for i := range c.Phases {
				want += c.text(i)
			}
			ended()
			if len(readLines(marker+`2`)) != n+1 {
				return fmt.Errorf(`the plugin couldn't write %d bytes on stderr when it was terminated`, len(c.text(2)))
			}
		}
		return logged(`when the session has ended`)
	}
	if total > 0 {
		x.NonTrivial()
	}
	for i, how := range c.Endings {
		if err := session(i, how); err != nil {
			return fmt.Errorf(`session %d (%s): %w`, i, how, err)
		}
	}
	return nil
}

func init() {
	register(&Property{
		ID: `C35`,
		Rule: `A plugin writes generated text on stderr before it prints its handshake, after that, and when it is terminated, and it may write on stdout too. It may also fail to start. It is used by lookups of
one or two sessions that end in a generated way. Everything that it writes must be logged, in order and as it was written, before the lookup fails or the session has ended, and the plugin must never be blocked.
Non-trivial: something is written on stderr.`,
		Assumptions: []string{`carriage returns aren't written`, `a newline may be added to a last line without one`, `one plugin writes at a time`},
		Subs: []subCheck{
			Spec[errCase]{Name: `stderr`, Quick: 300, Thorough: 6000, Gen: genErrCase, Run: runErrLog},
		},
	})
}
