package harness

import (
	"bufio"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// The engine drives every property: it generates cases with rapid, runs them against the code under test, keeps the
// shrunk failing case as a replay file and counts what was covered. The surrounding process is ../check.py.

// Spec is one generated check. C must survive a round trip through JSON, since that is what a replay file contains.
type Spec[C any] struct {
	Name            string
	Quick, Thorough int
	Gen             func(t *rapid.T) C
	Run             func(x *X, c C) error
}

// X is what a case reports about itself.
type X struct {
	labels     map[string]bool
	nontrivial bool
	dir        string
	cleanup    []func()
}

// Label classifies the case
func (x *X) Label(format string, args ...interface{}) {
	x.labels[fmt.Sprintf(format, args...)] = true
}

// NonTrivial marks the case as non trivial, by the rule of the property
func (x *X) NonTrivial() { x.nontrivial = true }

// Dir is a scratch directory that is removed after the case
func (x *X) Dir() string {
	if x.dir == `` {
		d, err := os.MkdirTemp(os.Getenv(`VERIF_SCRATCH`), `case`)
		if err != nil {
			panic(infra{err})
		}
		x.dir = d
	}
	return x.dir
}

// Cleanup registers a function to call after the case
func (x *X) Cleanup(f func()) { x.cleanup = append(x.cleanup, f) }

func (x *X) done() {
	for i := len(x.cleanup) - 1; i >= 0; i-- {
		x.cleanup[i]()
	}
	if x.dir != `` {
		_ = os.RemoveAll(x.dir)
	}
}

// infra is an error of the machinery as opposed to one of the code under test
type infra struct{ error }

func must(err error) {
	if err != nil {
		panic(infra{err})
	}
}

// Property is what is registered under an id
type Property struct {
	ID   string
	Rule string
	// Assumptions are copied to the evidence
	Assumptions []string
	Subs        []subCheck
}

type subCheck interface {
	name() string
	check(t *testing.T, r *run)
	replay(raw json.RawMessage) error
}

var properties = map[string]*Property{}

func register(p *Property) {
	if properties[p.ID] != nil {
		panic(`duplicate property ` + p.ID)
	}
	properties[p.ID] = p
}

type sample struct {
	Sub    string          `json:"sub"`
	Labels []string        `json:"labels,omitempty"`
	Case   json.RawMessage `json:"case"`
}

type run struct {
	prop       *Property
	tier       string
	seed       int
	mu         sync.Mutex
	evals      int
	distinct   map[uint64]bool
	perSub     map[string]map[string]int
	samples    []sample
	violations []violation
	infraErr   error
}

type violation struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Error    string          `json:"error"`
	Case     json.RawMessage `json:"case"`
	Shrunk   bool            `json:"shrunk"`
}

func (s Spec[C]) name() string { return s.Name }

func (s Spec[C]) replay(raw json.RawMessage) error {
	var c C
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(infra{err})
	}
	x := &X{labels: map[string]bool{}}
	defer x.done()
	return s.safeRun(x, c)
}

func (s Spec[C]) safeRun(x *X, c C) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if ie, ok := r.(infra); ok {
				panic(ie)
			}
			err = fmt.Errorf("panic: %v\n%s", r, debug.Stack())
		}
	}()
	return s.Run(x, c)
}

// currentFile holds the case that is being run, for when the process does not survive it
func writeCurrent(prop, sub string, raw []byte) {
	if f := os.Getenv(`VERIF_CURRENT`); f != `` {
		v := violation{Property: prop, Sub: sub, Case: raw, Error: `the process did not survive this case`}
		bs, _ := json.Marshal(v)
		must(os.WriteFile(f, bs, 0600))
	}
}

var errHang = errors.New(`the case did not finish`)

const caseTimeout = 60 * time.Second

// guarded runs a case with a watchdog. A case that does not finish cannot be abandoned safely so it ends the process.
func guarded(f func() error) error {
	ch := make(chan interface{}, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				ch <- r
			}
		}()
		ch <- f()
	}()
	select {
	case v := <-ch:
		if ie, ok := v.(infra); ok {
			panic(ie)
		}
		if err, ok := v.(error); ok {
			return err
		}
		return nil
	case <-time.After(caseTimeout):
		fmt.Fprintln(os.Stderr, `HANG: the case did not finish`)
		os.Exit(exitHang)
		return errHang
	}
}

const (
	exitInfra = 3
	exitHang  = 4
)

func (s Spec[C]) check(t *testing.T, r *run) {
	n := s.Quick
	if r.tier == `thorough` {
		n = s.Thorough
	}
	if d := os.Getenv(`VERIF_CASES`); d != `` {
		n, _ = strconv.Atoi(d)
	}
	if n == 0 {
		return
	}
	must(flag.Set(`rapid.checks`, strconv.Itoa(n)))
	counts := map[string]int{}
	r.perSub[s.Name] = counts
	var last *violation
	ok := t.Run(s.Name, func(t *testing.T) {
		rapid.Check(t, func(rt *rapid.T) {
			c := s.Gen(rt)
			raw, err := json.Marshal(c)
			if err != nil {
				r.fail(err)
				rt.Fatalf(`infra: %v`, err)
			}
			x := &X{labels: map[string]bool{}}
			defer func() {
				if e := recover(); e != nil {
					if ie, ok := e.(infra); ok {
						r.fail(ie)
						rt.Fatalf(`infra: %v`, ie)
					}
					panic(e)
				}
			}()
			var cerr error
			if os.Getenv(`VERIF_ISOLATE`) != `` {
				cerr = theWorker.run(r.prop.ID, s.Name, raw)
			} else {
				writeCurrent(r.prop.ID, s.Name, raw)
				cerr = guarded(func() error {
					defer x.done()
					return s.safeRun(x, c)
				})
			}
			if last == nil {
				r.record(s.Name, raw, x, counts)
			}
			if cerr != nil {
				last = &violation{Property: r.prop.ID, Sub: s.Name, Error: cerr.Error(), Case: raw, Shrunk: true}
				rt.Fatalf("%v", cerr)
			}
		})
	})
	if !ok {
		if last != nil {
			r.violations = append(r.violations, *last)
		} else if r.infraErr == nil {
			r.fail(fmt.Errorf(`%s/%s failed without a failing case`, r.prop.ID, s.Name))
		}
	}
}

func (r *run) fail(err error) {
	if r.infraErr == nil {
		r.infraErr = err
	}
}

func (r *run) record(sub string, raw []byte, x *X, counts map[string]int) {
	r.evals++
	counts[`evaluations`]++
	labels := make([]string, 0, len(x.labels))
	for l := range x.labels {
		labels = append(labels, l)
		counts[`label: `+l]++
	}
	sort.Strings(labels)
	if !x.nontrivial {
		return
	}
	h := fnv.New64a()
	_, _ = h.Write([]byte(sub))
	_, _ = h.Write(raw)
	k := h.Sum64()
	if r.distinct[k] {
		return
	}
	r.distinct[k] = true
	counts[`distinct_nontrivial`]++
	// Samples: the first of each sub check and then some later ones
	if n := counts[`distinct_nontrivial`]; n == 1 || n == 40 {
		if len(raw) < 6000 {
			r.samples = append(r.samples, sample{Sub: sub, Labels: labels, Case: raw})
		} else {
			q, _ := json.Marshal(string(raw[:3000]) + ` ... (truncated)`)
			r.samples = append(r.samples, sample{Sub: sub, Labels: labels, Case: q})
		}
	}
}

// worker runs cases in a separate process that may die
type worker struct {
	cmd *exec.Cmd
	in  *bufio.Writer
	out *bufio.Reader
	err *tail
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 4000 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

var theWorker = &worker{}

func (w *worker) start() {
	exe, err := os.Executable()
	must(err)
	cmd := exec.Command(exe, `-test.run`, `^TestProperty$`)
	cmd.Env = append(os.Environ(), `VERIF_WORKER=1`, `VERIF_ISOLATE=`)
	in, err := cmd.StdinPipe()
	must(err)
	out, err := cmd.StdoutPipe()
	must(err)
	w.err = &tail{}
	cmd.Stderr = w.err
	must(cmd.Start())
	w.cmd, w.in, w.out = cmd, bufio.NewWriter(in), bufio.NewReader(out)
}

func (w *worker) run(prop, sub string, raw []byte) error {
	if w.cmd == nil {
		w.start()
	}
	bs, _ := json.Marshal(violation{Property: prop, Sub: sub, Case: raw})
	_, err := w.in.Write(append(bs, '\n'))
	if err == nil {
		err = w.in.Flush()
	}
	must(err)
	type answer struct {
		s   string
		err error
	}
	ch := make(chan answer, 1)
	go func() {
		for {
			s, err := w.out.ReadString('\n')
			if err != nil || strings.HasPrefix(s, workerPrefix) {
				ch <- answer{strings.TrimPrefix(s, workerPrefix), err}
				return
			}
		}
	}()
	var a answer
	select {
	case a = <-ch:
	case <-time.After(25 * time.Second):
		_ = w.cmd.Process.Kill()
		<-ch
		a = answer{err: errHang}
	}
	if a.err == nil {
		var msg string
		must(json.Unmarshal([]byte(a.s), &msg))
		if strings.HasPrefix(msg, `infra: `) {
			panic(infra{errors.New(msg)})
		}
		if msg == `` {
			return nil
		}
		return errors.New(msg)
	}
	_ = w.cmd.Process.Kill()
	werr := w.cmd.Wait()
	w.cmd = nil
	if a.err == errHang {
		return fmt.Errorf(`the case did not finish in 25 seconds`)
	}
	return fmt.Errorf("the process did not survive the case: %v\n%s", werr, head(string(w.err.b), 1500))
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + `...`
	}
	return s
}

const workerPrefix = `@@RESULT `

func serveWorker() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var v violation
		must(json.Unmarshal(line, &v))
		msg := ``
		func() {
			defer func() {
				if r := recover(); r != nil {
					msg = fmt.Sprintf(`infra: %v`, r)
				}
			}()
			if err := replayCase(v); err != nil {
				msg = err.Error()
			}
		}()
		bs, _ := json.Marshal(msg)
		fmt.Printf("%s%s\n", workerPrefix, bs)
	}
}

func replayCase(v violation) error {
	p := properties[v.Property]
	if p == nil {
		panic(infra{fmt.Errorf(`no such property %s`, v.Property)})
	}
	for _, s := range p.Subs {
		if s.name() == v.Sub {
			return s.replay(v.Case)
		}
	}
	panic(infra{fmt.Errorf(`no such check %s/%s`, v.Property, v.Sub)})
}

func TestMain(m *testing.M) {
	flag.Parse()
	if os.Getenv(`VERIF_HELPER`) != `` {
		helperMain(os.Getenv(`VERIF_HELPER`))
		os.Exit(0)
	}
	debug.SetMaxStack(256 << 20)
	if os.Getenv(`VERIF_WORKER`) != `` {
		serveWorker()
		os.Exit(0)
	}
	if f := os.Getenv(`VERIF_REPLAY`); f != `` {
		os.Exit(replayMain(f))
	}
	os.Exit(m.Run())
}

func replayMain(f string) int {
	bs, err := os.ReadFile(f)
	must(err)
	var v violation
	must(json.Unmarshal(bs, &v))
	tries := 1
	if t, err := strconv.Atoi(os.Getenv(`VERIF_TRIES`)); err == nil {
		tries = t
	}
	for i := 0; i < tries; i++ {
		if err = guarded(func() error { return replayCase(v) }); err != nil {
			fmt.Printf("REPRODUCED %s/%s: %v\n", v.Property, v.Sub, err)
			return 1
		}
	}
	fmt.Printf("NOT REPRODUCED %s/%s\n", v.Property, v.Sub)
	return 0
}

func TestProperty(t *testing.T) {
	id := os.Getenv(`VERIF_PROP`)
	p := properties[id]
	if p == nil {
		t.Skip(`VERIF_PROP is not set`)
	}
	seed, _ := strconv.Atoi(os.Getenv(`VERIF_SEED`))
	tier := os.Getenv(`VERIF_TIER`)
	if tier == `` {
		tier = `quick`
	}
	must(flag.Set(`rapid.seed`, strconv.Itoa(seed*7919+104729)))
	must(flag.Set(`rapid.nofailfile`, `true`))
	must(flag.Set(`rapid.shrinktime`, `20s`))
	r := &run{prop: p, tier: tier, seed: seed, distinct: map[uint64]bool{}, perSub: map[string]map[string]int{}}
	start := time.Now()
	only := os.Getenv(`VERIF_SUB`)
	for _, s := range p.Subs {
		if only != `` && s.name() != only {
			continue
		}
		s.check(t, r)
		if r.infraErr != nil || len(r.violations) > 0 && !strings.HasPrefix(s.name(), `known-`) {
			break
		}
	}
	out := map[string]interface{}{
		`property`:    id,
		`tier`:        tier,
		`seed`:        seed,
		`level`:       `exploration`,
		`wall_s`:      time.Since(start).Seconds(),
		`violations`:  len(r.violations),
		`assumptions`: append([]string{}, p.Assumptions...),
		`coverage`: map[string]interface{}{
			`evaluations`:         r.evals,
			`distinct_nontrivial`: len(r.distinct),
			`rule`:                p.Rule,
			`samples`:             r.samples,
			`checks`:              r.perSub,
		},
	}
	res := map[string]interface{}{`evidence`: out, `violations`: r.violations}
	if r.infraErr != nil {
		res[`infra`] = r.infraErr.Error()
	}
	bs, err := json.MarshalIndent(res, ``, ` `)
	if err == nil {
		err = os.WriteFile(filepath.Clean(os.Getenv(`VERIF_RESULT`)), bs, 0600)
	}
	if err != nil {
		t.Fatal(err)
	}
}
