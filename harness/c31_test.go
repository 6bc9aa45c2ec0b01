package harness

import (
	"bytes"
	"encoding/json"
	"fmt"
	y3 "gopkg.in/yaml.v3"
	"strings"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/dgoyaml/yaml"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/explain"
	"github.com/lyraproj/hiera/hiera"
	sdk "github.com/lyraproj/hierasdk/hiera"
	"pgregory.net/rapid"
)

type serCase struct {
	Exp     *explainCase `json:"exp,omitempty"`
	Ref     *refCase     `json:"ref,omitempty"`
	Sec     *secretCase  `json:"sec,omitempty"`
	Keys    []string     `json:"keys"`
	Merges  []string     `json:"merges"`
	More    string       `json:"more"` // is looked up with the explainer that is read
	Rich    int          `json:"rich"`
	Texts   []string     `json:"texts,omitempty"` // what a function explains
	Options bool         `json:"options"`
	Only    bool         `json:"only"`
}

var serKeys = []string{`k0`, `k1`, `k2`, `k0.a`, `k0.b.0`, `k1.1`, `k1.'1'`, `k1."0"`, `k0.'a.b'`, `k0.'c'`, `k0.-1`, `'k0'.a`, `'k''1'`, `k0.'it"s'.x`, `k0."it's"`,
	`'dotted.key'`, `'dotted.key'.c`, `"dotted.key".'a b'`, `k0.''`, `chain`, `chain.a`, `mod::k`, `mod::k.a`, `nomod::k`, `env`, `var`, `missing`,
	`missing.a`, `lookup_options`, `lookup_options.k0`, `s`, `s.a`, `col`, `col.2`, `str`, `al`, `mod::s`, `k0.a.`, `k0..b`, `3`, `k0.'`, `k0.+1`, `k0.007`, `k0.200`, `k1.70000.a`, `k0.a.2147483647`, `ключ.é`}

func genSerCase(t *rapid.T) serCase {
	var c serCase
	switch rapid.IntRange(0, 2).Draw(t, `world`) {
	case 0:
		e := genExplainCase(t)
		if rapid.IntRange(0, 19).Draw(t, `large`) == 19 {
			e = genLargeExplain(t)
		}
		if chance(t, 4, `richlevel`) {
			e.W.Cfg.Levels = append(e.W.Cfg.Levels, Level{Name: `rich`, Kind: `data_hash`, Fn: `xhash`})
			c.Rich = rapid.IntRange(1, 7).Draw(t, `rich`)
		}
		if chance(t, 4, `talk`) {
			l := pick(t, `talkl`, Level{Name: `talk`, Kind: `lookup_key`, Fn: `talk`}, Level{Name: `talk`, Kind: `lookup_key`, Fn: `talk`, LocKey: `uri`, Locs: []string{`x:%{env}`}})
			e.W.Cfg.Levels = append([]Level{l}, e.W.Cfg.Levels...)
			c.Texts = rapid.SliceOfN(rapid.SampledFrom([]string{`one`, `two`, ``, `a "b"`, ` c`, "d\ne", `å%{x}`}), 1, 4).Draw(t, `texts`)
		}
		for _, f := range e.W.Files {
			if m, ok := f.Data.V.(M); ok && chance(t, 4, `mergeoptions`) {
				o := M{`strategy`: pick(t, `s`, `deep`, `deep`, `hash`)}
				for i := rapid.IntRange(1, 2).Draw(t, `nmopt`); i > 0; i-- {
					o[pick(t, `mopt`, `knockout_prefix`, `sort_merged_arrays`, `x`)] = pick[V](t, `mval`, `--`, true, L{`a`, M{`b`: int64(1)}})
				}
				m[`lookup_options`] = M{pick(t, `mk`, `k0`, `k1`): M{`merge`: o}}
			}
		}
		c.Exp = &e
		c.Keys = append(c.Keys, e.Key)
	case 1:
		e := genRefCase(t)
		c.Ref = &e
	case 2:
		e := genSecretCase(t)
		c.Sec = &e
		c.Keys = append(c.Keys, e.Key)
	}
	for i := rapid.IntRange(1, 3).Draw(t, `n`); len(c.Keys) < i; {
		c.Keys = append(c.Keys, pick(t, `key`, serKeys...))
	}
	for range c.Keys {
		c.Merges = append(c.Merges, pick(t, `merge`, ``, ``, `first`, `unique`, `hash`, `deep`, `bad`))
	}
	c.More = pick(t, `more`, serKeys...)
	c.Options = chance(t, 3, `options`)
	c.Only = c.Options && chance(t, 3, `only`)
	return c
}

// richValue is a hash with values that aren't data. There are no types, which dgo's streamer cannot write.
func richValue(n int) dgo.Value {
	all := []dgo.Value{
		vf.Sensitive(vf.Strings(`x`)), vf.Time(time.Unix(12345678, 120000000).UTC()), vf.Binary([]byte("\x00\xffab"), true), vf.Integer(-9007199254740993),
		vf.Map(1, `one`, vf.Strings(`a`), `array`), vf.Float(1.25e300), vf.Sensitive(vf.Nil), vf.String("two\nlines\r\n\t\"'%{x}\u2028")}
	return vf.Map(`k0`, vf.Map(`a`, all[n-1], `b`, vf.Values(all[n-1], all[n%len(all)], vf.Nil)), `k1`, all[n-1], `dotted.key`, all[n])
}

// readBack reads what Render produced
func readBack(as hiera.RenderName, bs []byte) (v dgo.Value, err error) {
	r := capture(func() dgo.Value {
		if as == hiera.JSON {
			v = streamer.UnmarshalJSON(bs, nil)
			return nil
		}
		d, err := yaml.Unmarshal(bs)
		if err != nil {
			panic(err)
		}
		dc := streamer.DataDecoder(nil, streamer.DgoDialect())
		streamer.New(nil, streamer.DefaultOptions()).Stream(d, dc)
		v = dc.Value()
		return nil
	})
	return v, r.Err
}

func runSer(x *X, c serCase) (err error) {
	var w *World
	var dir string
	fns := map[string]interface{}{}
	keys := append([]string{}, c.Keys...)
	pcore := false
	switch {
	case c.Exp != nil:
		dir, w, fns = x.Dir(), &c.Exp.W, xFunctions()
		w.write(dir)
		x.Label(`explain`)
		if len(c.Texts) > 0 {
			x.Label(`texts`)
			fns[`talk`] = vf.Value(func(pc sdk.ProviderContext, _ string) dgo.Value {
				for _, s := range c.Texts {
					s := s
					pc.(api.ServerContext).Explain(func() string { return s })
				}
				return nil
			})
		}
		if c.Rich > 0 {
			x.Label(`rich data`)
			fns[`xhash`] = vf.Value(func(pc sdk.ProviderContext) dgo.Value { return richValue(c.Rich) })
		}
	case c.Ref != nil:
		var k string
		k, dir, fns = c.Ref.install(x)
		w = &c.Ref.W
		keys = append(keys, k+c.Ref.Dig)
		x.Label(`refs`)
	default:
		dir, w = x.Dir(), &c.Sec.W
		w.write(dir)
		fns = c.Sec.functions()
		pcore = c.Sec.Pcore
		x.Label(`secret`)
	}
	tp, o := w.options(dir)
	if fns != nil {
		o[api.HieraFunctions] = fns
	}
	if pcore {
		o[api.HieraDialect] = `pcore`
	}
	withSession(tp, o, func(s api.Session) {
		do := func(ex api.Explainer, k, m string) error {
			r := capture(func() dgo.Value { return lookup(s.Invocation(w.scope(), ex), k, m) })
			if isRuntime(r.Err) {
				return fmt.Errorf(`lookup of %s crashes: %v`, k, r.Err)
			}
			if r.Err != nil {
				x.Label(`failed lookup`)
			} else if r.Found {
				x.Label(`found`)
			}
			return nil
		}
		ex := explain.NewExplainer(c.Options, c.Only)
		for i, k := range keys {
			m := ``
			if i < len(c.Merges) {
				m = c.Merges[i]
			}
			if err = do(ex, k, m); err != nil {
				return
			}
		}
		text := ex.String()
		if err = checkSer(x, s, ex, text); err != nil {
			return
		}
		yamlOK := true
		for _, as := range []hiera.RenderName{hiera.JSON, hiera.YAML} {
			b := &bytes.Buffer{}
			hiera.Render(s, as, ex, b)
			if as == hiera.JSON {
				yamlOK = yamlKeeps(b.Bytes())
			} else if !yamlOK {
				continue
			}
			v, _ := readBack(as, b.Bytes())
			e2 := v.(api.Explainer)
			if e2.Options() != c.Options || e2.OnlyOptions() != c.Only {
				err = fmt.Errorf(`the options of an explainer read from %s are %v, %v, not %v, %v`, as, e2.Options(), e2.OnlyOptions(), c.Options, c.Only)
				return
			}
			// it is an explainer
			e1 := explain.NewExplainer(c.Options, c.Only)
			if err = do(e1, c.More, ``); err != nil {
				return
			}
			if err = do(e2, c.More, ``); err != nil {
				return
			}
			want := strings.TrimSpace(strings.TrimSpace(text) + "\n" + strings.TrimSpace(e1.String()))
			if got := strings.TrimSpace(e2.String()); got != want {
				err = fmt.Errorf("explanation read from %s to which a lookup of %s is added is\n%s\nwant\n%s", as, c.More, got, want)
				return
			}
		}
		if strings.Count(text, "\n") > 4 {
			x.NonTrivial()
		}
		for _, l := range strings.Split(text, "\n") {
			if g := explainLine.FindString(strings.TrimSpace(l)); g != `` {
				x.Label(`%s`, strings.Trim(g, `" :'`))
			}
		}
	})
	return
}

// yamlKeeps tells if yaml.v3, used on its own, writes the data of a JSON document so that it can read it. Its emitter writes
// invalid block scalars in sequences.
func yamlKeeps(doc []byte) bool {
	var v, back interface{}
	must(json.Unmarshal(doc, &v))
	bs, err := y3.Marshal(v)
	return err == nil && y3.Unmarshal(bs, &back) == nil && fmt.Sprint(back) == fmt.Sprint(v)
}

func checkSer(x *X, s api.Session, ex api.Explainer, text string) error {
	yamlOK := true
	for _, as := range []hiera.RenderName{hiera.JSON, hiera.YAML} {
		b := &bytes.Buffer{}
		if r := capture(func() dgo.Value { hiera.Render(s, as, ex, b); return nil }); r.Err != nil {
			return fmt.Errorf("the explanation cannot be rendered as %s: %v\n%s", as, r.Err, text)
		}
		if got := ex.String(); got != text {
			return fmt.Errorf("rendering an explanation as %s changes it from\n%s\nto\n%s", as, text, got)
		}
		if as == hiera.JSON {
			yamlOK = yamlKeeps(b.Bytes())
		} else if !yamlOK {
			x.Label(`yaml.v3 defect`)
			continue
		}
		v, err := readBack(as, b.Bytes())
		if err != nil {
			return fmt.Errorf("the explanation rendered as %s cannot be read: %v\n%s\n%s", as, err, text, b)
		}
		e2, ok := v.(api.Explainer)
		if !ok {
			return fmt.Errorf(`the explanation rendered as %s is read as %T`, as, v)
		}
		if got := e2.String(); got != text {
			return fmt.Errorf("explanation read from %s is\n%s\nwant\n%s\n%s", as, got, text, b)
		}
		b2 := &bytes.Buffer{}
		if r := capture(func() dgo.Value { hiera.Render(s, as, e2, b2); return nil }); r.Err != nil {
			return fmt.Errorf("the explanation read from %s cannot be rendered: %v", as, r.Err)
		}
		if b2.String() != b.String() {
			return fmt.Errorf("the explanation read from %s is rendered as\n%s\nwant\n%s", as, b2, b)
		}
	}
	return nil
}

func init() {
	register(&Property{
		ID: `C31`,
		Rule: `read: explanations of sequences of one to four lookups (generated hierarchies of all location kinds, custom functions, modules, nested
lookups, sensitive values, lookup_options, lookups that fail halfway, unusual keys) are rendered as JSON and YAML, which must not change them,
and read back, which must give the same text, the same rendering, the same options, and an explainer that goes on to explain another lookup as
a new one does. Non-trivial when the explanation has at least six lines.`,
		Assumptions: []string{`explanations that yaml.v3 on its own writes as YAML that it cannot read are compared as JSON only`},
		Subs: []subCheck{
			Spec[serCase]{Name: `read`, Quick: 1000, Thorough: 20000, Gen: genSerCase, Run: runSer},
		},
	})
}
