package harness

import (
	"bytes"
	"context"
	"fmt"
	"path/filepath"
	"sync"
	"sync/atomic"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/session"
	"pgregory.net/rapid"
)

// ConcOp is a lookup by one goroutine
type ConcOp struct {
	HistOp
	Render string   `json:"render,omitempty"` // name of rendering, for LookupAndRender
	Vars   []string `json:"vars,omitempty"`
	New    bool     `json:"new,omitempty"` // use a new invocation
}

type concCase struct {
	H        histCase   `json:"h"` // without operations
	Threads  [][]ConcOp `json:"threads"`
	Broken   string     `json:"broken,omitempty"`     // replaces hiera.yaml
	BrokenM  string     `json:"broken_mod,omitempty"` // replaces hiera.yaml of the module
	Sessions int        `json:"sessions"`
}

// concNames has fewer names than histNames since concurrent use of the same things is more interesting
var concNames = []string{`ref`, `mod::ref`, `k0`, `k1`, `mod::k`, `k0.a`, `missing`, `chain`, `bad`, `cyc`, `badmerge`, `badconv`, `badtype`, `other::k`, `MOD::k`, `sens`, `memo`}

var brokenConfigs = []string{`version: 4`, `version: 5` + "\n" + `hierarchy: [{name: a, path: x, paths: [y]}]`, `[`, `version: 5` + "\n" + `hierarchy: [{name: a, nope: x}]`}

func genConc(t *rapid.T) concCase {
	c := concCase{H: histCase{R: genRefCase(t)}, Sessions: 1}
	h := &c.H
	h.Scopes = []Val{h.R.W.Scope}
	for i := rapid.IntRange(0, 2).Draw(t, `nscopes`); i > 0; i-- {
		s, _ := genScope(t)
		h.Scopes = append(h.Scopes, Val{s})
	}
	for i := range h.Scopes {
		h.Invs = append(h.Invs, i)
	}
	if len(h.R.W.Mux) > 1 {
		h.Self = chance(t, 2, `self`)
		if chance(t, 1, `brokenmod`) {
			c.BrokenM = pick(t, `config`, brokenConfigs...)
		}
	}
	if chance(t, 1, `broken`) {
		c.Broken = pick(t, `config`, brokenConfigs...)
	}
	if chance(t, 2, `sessions`) {
		c.Sessions = 2
	}
	names := concNames
	if chance(t, 4, `few`) {
		names = []string{pick(t, `name`, concNames...), pick(t, `name`, concNames...)}
	}
	for i := rapid.IntRange(2, 8).Draw(t, `threads`); i > 0; i-- {
		var ops []ConcOp
		for j := rapid.IntRange(1, 5).Draw(t, `nops`); j > 0; j-- {
			o := ConcOp{HistOp: genHistOp(t, h)}
			for k := range o.Names {
				o.Names[k] = pick(t, `name`, names...)
			}
			o.New = rapid.Bool().Draw(t, `new`)
			if chance(t, 3, `render`) {
				o.Render = pick(t, `as`, `yaml`, `json`, `s`)
				o.How = pick(t, `how`, `lookup`, `names`, `all`)
				o.Override, o.Defaults, o.Default, o.Within = nil, nil, nil, nil
				if o.How != `all` && chance(t, 5, `type`) {
					o.Type = pick(t, `type`, `string`, `[]any`, `"a"`, `map[string]any`)
				}
				for _, v := range pathVars {
					if rapid.Bool().Draw(t, `hasvar`) {
						o.Vars = append(o.Vars, v+`=`+pick(t, `val`, `prod`, `"dev"`, `{a:1}`, `linux`))
					}
				}
			}
			ops = append(ops, o)
		}
		c.Threads = append(c.Threads, ops)
	}
	return c
}

// perform does the operation, using one of the given invocations or a new one
func (c *concCase) perform(h *history, s api.Session, invs []api.Invocation, o *ConcOp) (r histRes) {
	if o.Render != `` {
		b := &bytes.Buffer{}
		r.Res = capture(func() dgo.Value {
			co := &hiera.CommandOptions{Merge: o.Strategy, RenderAs: o.Render, Variables: o.Vars, Type: o.Type, LookupAll: o.How == `all`}
			return vf.Boolean(hiera.LookupAndRender(s, co, o.Names, b))
		})
		r.text = b.String()
		return
	}
	if o.Inv < 0 {
		return h.explained(s, &o.HistOp)
	}
	if o.New || invs[o.Inv] == nil {
		invs[o.Inv] = s.Invocation(h.scope(h.c.Invs[o.Inv], `the scope`), nil)
	}
	r.Res = h.do(invs[o.Inv], &o.HistOp)
	return
}

const concRounds = 3

func runConc(x *X, c concCase) (err error) {
	w := &c.H.R.W
	w.Cfg.Levels = append(w.Cfg.Levels[:len(w.Cfg.Levels):len(w.Cfg.Levels)], Level{Name: `unique`, Datadir: `unique`, LocKey: `path`, Locs: []string{`unique.yaml`}})
	w.Files = append(w.Files[:len(w.Files):len(w.Files)], File{Path: `unique/unique.yaml`, Data: Val{uniqueData()}})
	threads := c.Threads
	c.Threads = nil
	for _, ops := range threads {
		c.Threads = append(c.Threads, append([]ConcOp{{HistOp: HistOp{How: `lookup`, Names: []string{`uniq`}}}}, ops...))
	}
	tp, o := c.H.prepare(x)
	dir := o[api.HieraRoot].(string)
	if c.Broken != `` {
		writeFile(filepath.Join(dir, `hiera.yaml`), c.Broken)
		x.Label(`invalid configuration`)
	}
	if c.BrokenM != `` {
		writeFile(filepath.Join(dir, `modules`, `mod`, `hiera.yaml`), c.BrokenM)
		x.Label(`invalid module configuration`)
	}
	x.Label(`goroutines=%d`, len(c.Threads))
	// Nothing has been done alone when the goroutines start, so that everything is used by them for the first time
	gots := make([][][]histRes, concRounds)
	for round := range gots {
		ss := make([]api.Session, c.Sessions)
		for i := range ss {
			ss[i] = session.New(context.Background(), tp, o, nil)
		}
		var wg sync.WaitGroup
		start := make(chan bool)
		errs := make([]error, len(c.Threads))
		gots[round] = make([][]histRes, len(c.Threads))
		for i := range c.Threads {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				h := &history{c: &c.H}
				s := ss[i%len(ss)]
				invs := make([]api.Invocation, len(c.H.Invs))
				<-start
				for j := range c.Threads[i] {
					gots[round][i] = append(gots[round][i], c.perform(h, s, invs, &c.Threads[i][j]))
				}
				errs[i] = h.unchanged()
			}(i)
		}
		close(start)
		wg.Wait()
		for _, s := range ss {
			s.KillPlugins()
		}
		for _, e := range errs {
			if e != nil {
				return e
			}
		}
	}

	// The outcome of each operation alone
	fresh := map[string]histRes{}
	found := 0
	for i, ops := range c.Threads {
		for j := range ops {
			op := &ops[j]
			k := fmt.Sprintf(`%s %q %s`, op.Render, op.Vars, op.id())
			want, ok := fresh[k]
			if !ok {
				withSession(tp, o, func(s api.Session) {
					want = c.perform(&history{c: &c.H}, s, make([]api.Invocation, len(c.H.Invs)), op)
				})
				fresh[k] = want
			}
			if want.Found {
				found++
			}
			for round := range gots {
				got := gots[round][i][j]
				if !got.same(want.Res) {
					return differ(fmt.Sprintf(`operation %d of goroutine %d, %s of %v`, j, i, op.How, op.Names), got.Res, want.Res)
				}
				if got.text != want.text {
					return fmt.Errorf("operation %d of goroutine %d, %s of %v gives the text\n%s\nwant\n%s", j, i, op.How, op.Names, got.text, want.text)
				}
			}
		}
	}
	if len(c.Threads) >= 2 && found >= 2 {
		x.NonTrivial()
	}
	return
}

// uniqueData returns data with texts that this process has not seen before
func uniqueData() M {
	n := atomic.AddInt64(&uniqueCount, 1)
	l := L{}
	for i := 0; i < 8; i++ {
		l = append(l, fmt.Sprintf(`%%{u%d_%d}x%%{lookup('u%d_%d')}%%{ "::u%d" }%%{literal('u%d_%d')}`, n, i, n, i, n, n, i), M{fmt.Sprintf(`k%d_%d`, n, i): fmt.Sprintf(`%%{u%d.k%d.%d}`, n, n, i)})
	}
	return M{`uniq`: l, fmt.Sprintf(`u%d_0`, n): fmt.Sprintf(`%%{scope("uu%d")}`, n)}
}

var uniqueCount int64

func init() {
	register(&Property{
		ID: `C16`,
		Rule: `A case is a world as for C15, in some cases with an invalid main or module configuration, and two to eight goroutines
that each look up a key whose expressions, hash keys and texts the process has never seen before and then do 1-5 lookups
(plain, with several names, explained, or rendered) through invocations of their own on one or two sessions that nothing
has used before. What each lookup gives alone is determined afterwards. Each case is run three times. It is non-trivial when two goroutines or more are
involved and two or more of the lookups find a value.`,
		Assumptions: []string{`the race detector sees all synchronization`, `schedules are those of the Go runtime`},
		Subs: []subCheck{
			Spec[concCase]{Name: `lookups`, Quick: 120, Thorough: 6000, Gen: genConc, Run: runConc},
			Spec[concCase]{Name: `many`, Quick: 16, Thorough: 500, Gen: genManyConc, Run: runConc},
		},
	})
}
