package harness

import (
	"fmt"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	sdk "github.com/lyraproj/hierasdk/hiera"
	"pgregory.net/rapid"
)

// IPart is a part of a string and what it denotes
type IPart struct {
	Src    string `json:"src"`
	Want   string `json:"want"`
	Error  bool   `json:"error,omitempty"`
	Method bool   `json:"method,omitempty"`
}

// The variables and keys that expressions refer to
var iplScope = M{
	`s`: `text`, `n`: int64(42), `t`: true, `f`: 0.5, `e`: ``, `sp ace`: `spaced`, `dotted.var`: `dv`, `å`: `ring`, `m::v`: `mv`,
	`deep`: M{`a`: L{`first`, M{`x`: `bottom`}, int64(7)}, `b.c`: `bc`, `0`: `zero`, intKey + `3`: `three`},
	``:     `unnamed`, `::`: `colons`, `nested`: `<%{s}-%{n}>`, `nestedmap`: M{`k`: `%{deep.a.0}`}, `braced`: `}x{`, "new\nline": `nl`, "tab\there": `tb`, `%`: `pct`, `a{b`: `open`,
}

var iplData = M{
	`ks`: `kvalue`, `kn`: int64(-3), `kb`: false, "k\nl": `knl`, `kd`: M{`a`: L{`d0`, `d1`}}, `k.dot`: `kdot`, `kref`: `r(%{ks})%{lookup('ks')}%{s}`,
}

var iplExprs = []IPart{
	{Src: `%{s}`, Want: `text`}, {Src: `%{n}`, Want: `42`}, {Src: `%{t}`, Want: `true`}, {Src: `%{f}`, Want: `0.5`}, {Src: `%{e}`, Want: ``},
	{Src: `%{ s }`, Want: `text`}, {Src: `%{s }`, Want: `text`}, {Src: `%{sp ace}`, Want: `spaced`}, {Src: `%{'dotted.var'}`, Want: `dv`}, {Src: `%{"dotted.var"}`, Want: `dv`},
	{Src: `%{å}`, Want: `ring`}, {Src: `%{m::v}`, Want: `mv`}, {Src: `%{deep.a.0}`, Want: `first`}, {Src: `%{deep.a.1.x}`, Want: `bottom`},
	{Src: `%{deep.a.2}`, Want: `7`}, {Src: `%{deep."b.c"}`, Want: `bc`}, {Src: `%{deep.'0'}`, Want: `zero`}, {Src: `%{deep.3}`, Want: `three`},
	{Src: `%{deep.a.3}`, Want: ``}, {Src: `%{deep.a.-1}`, Want: ``}, {Src: `%{deep.nope.x}`, Want: ``}, {Src: `%{s.x}`, Want: ``}, {Src: `%{dotted.var}`, Want: ``}, {Src: `%{missing}`, Want: ``},
	{Src: `%{missing.a.b}`, Want: ``}, {Src: `%{nested}`, Want: `<text-42>`}, {Src: `%{nestedmap.k}`, Want: `first`}, {Src: `%{braced}`, Want: `}x{`},
	{Src: `%{}`, Want: ``}, {Src: `%{::}`, Want: ``}, {Src: `%{''}`, Want: ``}, {Src: `%{""}`, Want: ``}, {Src: `%{'::'}`, Want: ``}, {Src: `%{"::"}`, Want: ``}, {Src: `%{ }`, Want: ``},
	{Src: `%{scope('s')}`, Want: `text`, Method: true}, {Src: `%{scope("deep.a.0")}`, Want: `first`, Method: true}, {Src: `%{scope('missing')}`, Want: ``, Method: true}, {Src: `%{ scope('n') }`, Want: `42`, Method: true},
	{Src: `%{scope("'dotted.var'")}`, Want: `dv`, Method: true},
	{Src: `%{literal('%')}`, Want: `%`, Method: true}, {Src: `%{literal("a'b")}`, Want: `a'b`, Method: true}, {Src: `%{literal('s')}`, Want: `s`, Method: true},
	{Src: `%{literal('{x')}`, Want: `{x`, Method: true}, {Src: `%{literal(' ')}`, Want: ` `, Method: true},
	{Src: `%{lookup('ks')}`, Want: `kvalue`, Method: true}, {Src: `%{hiera("kn")}`, Want: `-3`, Method: true}, {Src: `%{lookup("kb")}`, Want: `false`, Method: true},
	{Src: `%{lookup('kd.a.1')}`, Want: `d1`, Method: true}, {Src: `%{lookup("'k.dot'")}`, Want: `kdot`, Method: true}, {Src: `%{hiera('nokey')}`, Want: ``, Method: true},
	{Src: "%{new\nline}", Want: `nl`}, {Src: "%{tab\there}", Want: `tb`}, {Src: "%{literal('a\nb')}", Want: "a\nb", Method: true}, {Src: "%{literal(\"\t\")}", Want: "\t", Method: true},
	{Src: "%{scope('new\nline')}", Want: `nl`, Method: true}, {Src: "%{lookup(\"k\nl\")}", Want: `knl`, Method: true}, {Src: `%{%}`, Want: `pct`}, {Src: `%{a{b}`, Want: `open`}, {Src: `%{%{s}`, Want: ``},
	{Src: `%{literal('scope("s")')}`, Want: `scope("s")`, Method: true}, {Src: `%{literal('lookup(ks)')}`, Want: `lookup(ks)`, Method: true}, {Src: `%{scope_('s').x}`, Want: ``}, {Src: `%{S}`, Want: ``},
	{Src: `%{lookup('kref')}`, Want: `r()kvaluetext`, Method: true}, {Src: `%{ hiera('ks') }`, Want: `kvalue`, Method: true}, {Src: `%{lookup('kd.b')}`, Want: ``, Method: true},
}

var iplErrors = []IPart{
	{Src: `%{foo('s')}`}, {Src: `%{Lookup('ks')}`, Method: true}, {Src: `%{s..x}`}, {Src: `%{'s}`}, {Src: `%{"}`}, {Src: `%{1.s}`}, {Src: `%{12}`}, {Src: `%{.s}`}, {Src: `%{s.}`},
	{Src: `%{lookup('a..b')}`}, {Src: `%{lookup('1')}`}, {Src: `%{scope('s.')}`}, {Src: `%{alias_('ks')}`}, {Src: `%{hiera("'ks")}`}, {Src: `%{literals('ks')}`},
}

func genText(t *rapid.T) string {
	s := strings.Join(rapid.SliceOfN(rapid.SampledFrom([]string{`a`, ` `, `{`, `}`, `%`, `"`, `'`, `(`, `)`, `å`, "\n", `:`, `.`, `$`, `\`, `{s}`, `$1`, `${s}`, `lookup('ks')`, `% {s}`, `%%`, `}}`}), 1, 5).Draw(t, `text`), ``)
	s = strings.ReplaceAll(s, `%{`, `% {`)
	return s
}

// genParts generates a string in parts. At most one of them is an error
func genParts(t *rapid.T, errs bool) []IPart {
	var ps []IPart
	n := rapid.IntRange(0, 5).Draw(t, `parts`)
	bad := -1
	if errs {
		bad = rapid.IntRange(0, n).Draw(t, `bad`)
		n++
	}
	for i := 0; i < n; i++ {
		var p IPart
		switch {
		case i == bad:
			p = pick(t, `error`, iplErrors...)
			if n > 1 && chance(t, 3, `alias`) {
				p = IPart{Src: pick(t, `ax`, `%{alias('ks')}`, `%{strict_alias("ks")}`, `%{alias("kd.a.0")}`), Method: true}
				if i > 0 && ps[i-1].Src == `` {
					ps[i-1] = IPart{Src: `x`, Want: `x`}
				}
				if i == 0 {
					ps = append(ps, IPart{Src: `x`, Want: `x`})
				}
			}
			p.Error = true
		case rapid.Bool().Draw(t, `istext`):
			s := genText(t)
			p = IPart{Src: s, Want: s}
		default:
			p = pick(t, `expr`, iplExprs...)
		}
		if strings.HasPrefix(p.Src, `%{`) && strings.HasSuffix(p.Src, `}`) && chance(t, 2, `pad`) {
			// White space around the expression isn't a part of it
			p.Src = `%{` + pick(t, `before`, ``, ` `, `  `, "\t", "\n", "\r\n ") + p.Src[2:len(p.Src)-1] + pick(t, `after`, ``, ` `, "\t", "\n", " \r\n") + `}`
		}
		ps = append(ps, p)
	}
	// What comes out must not be an expression, and text must not become part of one
	for {
		src, want := ``, ``
		redo := -1
		for i, p := range ps {
			if strings.HasSuffix(src, `%`) && strings.HasPrefix(p.Src, `{`) || strings.HasSuffix(want, `%`) && strings.HasPrefix(p.Want, `{`) {
				redo = i
				break
			}
			src += p.Src
			want += p.Want
		}
		if redo < 0 {
			return ps
		}
		ps = append(ps[:redo:redo], append([]IPart{{Src: `.`, Want: `.`}}, ps[redo:]...)...)
	}
}

func partsText(ps []IPart) (src, want string, bad, method bool) {
	for _, p := range ps {
		src += p.Src
		want += p.Want
		bad = bad || p.Error
		method = method || p.Method
	}
	return
}

// IVal is a value with strings in parts
type IVal struct {
	Parts []IPart  `json:"parts,omitempty"`
	Plain *Val     `json:"plain,omitempty"`
	List  []IVal   `json:"list,omitempty"`
	Map   []IEntry `json:"map,omitempty"`
	Kind  string   `json:"kind"`
}

// IEntry is an entry of a map
type IEntry struct {
	K []IPart `json:"k"`
	V IVal    `json:"v"`
}

func (v *IVal) sides() (src, want V, bad, method bool) {
	or := func(b, m bool) { bad, method = bad || b, method || m }
	switch v.Kind {
	case `parts`:
		return partsText(v.Parts)
	case `list`:
		sl, wl := L{}, L{}
		for i := range v.List {
			s, w, b, m := v.List[i].sides()
			sl, wl = append(sl, s), append(wl, w)
			or(b, m)
		}
		return sl, wl, bad, method
	case `map`:
		sm, wm := M{}, M{}
		for i := range v.Map {
			ks, kw, b, m := partsText(v.Map[i].K)
			or(b, m)
			s, w, b, m := v.Map[i].V.sides()
			or(b, m)
			// The suffix keeps keys distinct
			suffix := fmt.Sprintf(`#%d`, i)
			sm[ks+suffix], wm[kw+suffix] = s, w
		}
		return sm, wm, bad, method
	}
	return v.Plain.V, v.Plain.V, false, false
}

func genIVal(t *rapid.T, depth int, errs bool) IVal {
	if depth > 0 {
		switch rapid.IntRange(0, 3).Draw(t, `kind`) {
		case 2:
			r := IVal{Kind: `list`}
			n := rapid.IntRange(0, 3).Draw(t, `n`)
			bad := -1
			if errs {
				bad = rapid.IntRange(0, n).Draw(t, `at`)
				n++
			}
			for i := 0; i < n; i++ {
				r.List = append(r.List, genIVal(t, depth-1, i == bad))
			}
			return r
		case 3:
			r := IVal{Kind: `map`}
			n := rapid.IntRange(0, 3).Draw(t, `n`)
			bad, inKey := -1, false
			if errs {
				bad, inKey = rapid.IntRange(0, n).Draw(t, `at`), rapid.Bool().Draw(t, `inkey`)
				n++
			}
			for i := 0; i < n; i++ {
				r.Map = append(r.Map, IEntry{K: genParts(t, i == bad && inKey), V: genIVal(t, depth-1, i == bad && !inKey)})
			}
			return r
		}
	}
	if !errs && chance(t, 2, `plain`) {
		return IVal{Kind: `plain`, Plain: &Val{genScalar().Draw(t, `v`)}}
	}
	return IVal{Kind: `parts`, Parts: genParts(t, errs)}
}

type iplCase struct {
	V     IVal `json:"v"`
	Where int  `json:"where"`
}

const (
	inYaml = iota
	inJSON
	inLookupKey
	inDataDig
	inAPI
	inVariable
	inTop
	inScopeLevel
	whereCount
)

// A method call keeps the name of the location
var whereNames = []string{`yaml`, `json`, `lookup_key`, `data_dig`, `Interpolate`, `variable`, `top`, `scope level`}

func runIpl(x *X, c iplCase) error {
	src, want, bad, _ := c.V.sides()
	x.Label(`%s`, whereNames[c.Where])
	x.Label(`error=%v`, bad)
	if bad || !eq(src, want) {
		x.NonTrivial()
	}
	w := World{Scope: Val{cp(iplScope)}, Cfg: Config{Levels: []Level{{Name: `base`, LocKey: `path`, Locs: []string{`base.yaml`}}}},
		Files: []File{{Path: `data/base.yaml`, Data: Val{iplData}}}}
	data := M{`the`: src}
	add := func(l Level) { w.Cfg.Levels = append(w.Cfg.Levels, l) }
	key := `the`
	switch c.Where {
	case inYaml:
		add(Level{Name: `x`, LocKey: `path`, Locs: []string{`x.yaml`}})
		w.Files = append(w.Files, File{Path: `data/x.yaml`, Data: Val{data}})
	case inJSON:
		add(Level{Name: `x`, Kind: `data_hash`, Fn: `json_data`, LocKey: `path`, Locs: []string{`x.json`}})
		w.Files = append(w.Files, File{Path: `data/x.json`, Data: Val{data}})
	case inLookupKey:
		add(Level{Name: `x`, Kind: `lookup_key`, Fn: `lk`})
	case inDataDig:
		add(Level{Name: `x`, Kind: `data_dig`, Fn: `dd`})
	case inVariable:
		w.Scope.V.(M)[`thevar`] = src
	case inScopeLevel:
		w.Scope.V.(M)[`the`] = src
		add(Level{Name: `x`, Kind: `lookup_key`, Fn: `scope`})
	}
	dir := x.Dir()
	w.write(dir)
	tp, o := w.options(dir)
	o[api.HieraFunctions] = map[string]interface{}{
		`lk`: vf.Value(func(pc sdk.ProviderContext, key string) dgo.Value {
			if v, ok := data[key]; ok {
				return toD(v)
			}
			return nil
		}),
		`dd`: vf.Value(func(pc sdk.ProviderContext, key dgo.Array) dgo.Value {
			if v, ok := data[key.Get(0).String()]; ok {
				return toD(v)
			}
			return nil
		}),
	}
	if c.Where == inTop {
		orig := tp
		tp = func(pc sdk.ProviderContext, key string) dgo.Value {
			if v, ok := data[key]; ok {
				return toD(v)
			}
			return orig(pc, key)
		}
	}
	var got Res
	srcD := toD(src)
	withSession(tp, o, func(s api.Session) {
		ic := s.Invocation(w.scope(), nil)
		got = capture(func() dgo.Value {
			switch c.Where {
			case inAPI:
				return ic.Interpolate(srcD, true)
			case inVariable:
				return ic.InterpolateInScope(`thevar`, true)
			}
			return lookup(ic, key, ``)
		})
	})
	if !eq(toV(srcD), src) {
		return fmt.Errorf(`the value %s was changed to %s`, show(src), show(toV(srcD)))
	}
	if bad {
		if got.Err == nil {
			return fmt.Errorf(`%s: %s should be an error but gives %s`, whereNames[c.Where], show(src), got)
		}
		if isRuntime(got.Err) {
			return fmt.Errorf(`%s: %s crashes: %v`, whereNames[c.Where], show(src), got.Err)
		}
		return nil
	}
	if !got.same(value(want)) {
		return differ(whereNames[c.Where]+`: `+show(src), got, value(want))
	}
	return nil
}

type cfgIplCase struct {
	Parts []IPart `json:"parts"`
	At    int     `json:"at"`
}

var cfgPlaces = []string{`path`, `option`, `function`, `datadir`, `uri`, `glob`, `default option`, `option key`, `mapped template`, `plugindir`, `default datadir`}

// In a configuration only variables are allowed
func runCfgIpl(x *X, c cfgIplCase) error {
	src, want, bad, method := partsText(c.Parts)
	x.Label(`%s method=%v`, cfgPlaces[c.At], method)
	if bad || method || src != want {
		x.NonTrivial()
	}
	var called []M
	rec := vf.Value(func(pc sdk.ProviderContext) dgo.Value {
		called = append(called, toV(pc.OptionsMap()).(M))
		return nil
	})
	l := Level{Name: `x`, Kind: `data_hash`, Fn: `rec`}
	w := World{Scope: Val{cp(iplScope)}}
	w.Scope.V.(M)[`one`] = L{`1`}
	switch cfgPlaces[c.At] {
	case `path`:
		l.LocKey, l.Locs = `path`, []string{`f` + src}
	case `uri`:
		l.LocKey, l.Locs = `uri`, []string{`u:` + src}
	case `glob`:
		l.LocKey, l.Locs = `glob`, []string{`f` + src}
	case `mapped template`:
		l.LocKey, l.Locs = `mapped_paths`, []string{`one`, `v`, `f` + src}
	case `option`:
		l.Opts = &Val{M{`o`: L{M{`p`: src}}}}
	case `default option`:
		w.Cfg.Defaults = &Level{Opts: &Val{M{`o`: L{M{`p`: src}}}}}
	case `option key`:
		l.Opts = &Val{M{`o`: M{src + `#`: int64(1)}}}
	case `function`:
		l.Fn = `rec` + src
	case `default datadir`:
		w.Cfg.Defaults = &Level{Datadir: `/nodir/` + src}
		l.LocKey, l.Locs = `path`, []string{`x`}
	case `plugindir`:
		l.Plugindir = `/nodir/` + src
	case `datadir`:
		l.Datadir = `/nodir/` + src
		l.LocKey, l.Locs = `path`, []string{`x`}
	}
	w.Cfg.Levels = []Level{l}
	dir := x.Dir()
	w.write(dir)
	tp, o := w.options(dir)
	fns := map[string]interface{}{`rec`: rec}
	if cfgPlaces[c.At] == `function` && !bad && !method {
		delete(fns, `rec`)
		fns[`rec`+want] = rec
	}
	o[api.HieraFunctions] = fns
	var got Res
	withSession(tp, o, func(s api.Session) {
		got = capture(func() dgo.Value { return lookup(s.Invocation(w.scope(), nil), `k`, ``) })
	})
	if bad || method {
		if got.Err == nil {
			return fmt.Errorf(`%s: %s should be an error but the functions is called with %v`, cfgPlaces[c.At], show(src), called)
		}
		return nil
	}
	if got.Err != nil || got.Found {
		return fmt.Errorf(`%s: %s gives %s`, cfgPlaces[c.At], show(src), got)
	}
	var wantOpts M
	switch cfgPlaces[c.At] {
	case `uri`:
		wantOpts = M{`path`: `u:` + want}
	case `option`, `default option`:
		wantOpts = M{`o`: L{M{`p`: want}}}
	case `option key`:
		wantOpts = M{`o`: M{want + `#`: int64(1)}}
	case `function`:
		wantOpts = M{}
	default:
		return nil
	}
	if len(called) == 0 {
		return fmt.Errorf(`%s: %s: the function wasn't called`, cfgPlaces[c.At], show(src))
	}
	for _, m := range called {
		if !eq(m, wantOpts) {
			return fmt.Errorf(`%s: %s: the function was called with %s, want %s`, cfgPlaces[c.At], show(src), show(m), show(wantOpts))
		}
	}
	return nil
}

type rawIplCase struct {
	S string `json:"s"`
}

// Arbitrary strings never crash and what is outside of expressions stays
func runRawIpl(x *X, c rawIplCase) (err error) {
	w := World{Scope: Val{iplScope}}
	w.inSession(x.Dir(), func(s api.Session) {
		ic := s.Invocation(w.scope(), nil)
		got := capture(func() dgo.Value { return ic.Interpolate(vf.String(c.S), true) })
		if got.Err != nil {
			x.Label(`error`)
			if isRuntime(got.Err) {
				err = fmt.Errorf(`%q: %v`, c.S, got.Err)
			}
			if !strings.Contains(c.S, `%{`) {
				err = fmt.Errorf(`%q has no expression but fails: %v`, c.S, got.Err)
			}
			return
		}
		// The text between expressions, in order
		rest, ok := ``, false
		if rest, ok = got.V.(string); !ok {
			if !strings.Contains(c.S, `alias`) {
				err = fmt.Errorf(`%q gives %s`, c.S, got)
			}
			return
		}
		src := c.S
		first := true
		for {
			i := strings.Index(src, `%{`)
			j := -1
			if i >= 0 {
				j = strings.IndexByte(src[i:], '}')
			}
			txt := src
			if j >= 0 {
				x.NonTrivial()
				txt = src[:i]
			}
			k := strings.Index(rest, txt)
			if j < 0 {
				// The last text must be at the end
				if !strings.HasSuffix(rest, txt) || first && rest != txt {
					err = fmt.Errorf(`%q gives %q`, c.S, rest)
				}
				return
			}
			if k < 0 || first && k != 0 {
				err = fmt.Errorf(`%q gives %s`, c.S, got)
				return
			}
			rest = rest[k+len(txt):]
			first = false
			src = src[i+j+1:]
		}
	})
	return
}

type doubleCase struct {
	Tail string `json:"tail"`
}

// Known finding: what comes out of an interpolation is interpolated again
func runDouble(x *X, c doubleCase) error {
	x.NonTrivial()
	w := World{Cfg: Config{Levels: []Level{{Name: `base`, LocKey: `path`, Locs: []string{`base.yaml`}}}},
		Files: []File{{Path: `data/base.yaml`, Data: Val{M{`the`: `%{literal('%')}` + c.Tail}}}}}
	dir := x.Dir()
	w.write(dir)
	got := w.lookup(dir, `the`, ``)
	if !got.same(value(`%` + c.Tail)) {
		return differ(`lookup of "%{literal('%')}`+c.Tail+`"`, got, value(`%`+c.Tail))
	}
	return nil
}

func init() {
	gen := func(errs bool) func(t *rapid.T) iplCase {
		return func(t *rapid.T) iplCase {
			e := errs && chance(t, 3, `errs`)
			return iplCase{V: genIVal(t, 3, e), Where: rapid.IntRange(0, whereCount-1).Draw(t, `where`)}
		}
	}
	register(&Property{
		ID: `C06`,
		Rule: `Strings are assembled from text (full of braces, percent signs, quotes and dollars) and expressions whose expansion is known,
placed at any depth of a value (also as hash key) and found through a file, a function, a variable, the Interpolate method or
at places in hiera.yaml. A case is non-trivial when the expansion differs from the source or is an error.`,
		Assumptions: []string{`variables and values that are inserted in strings are scalars`,
			`the known finding about literal('%') followed by a brace is excluded from the other checks by construction`},
		Subs: []subCheck{
			Spec[iplCase]{Name: `values`, Quick: 3000, Thorough: 80000, Gen: gen(true), Run: runIpl},
			Spec[iplCase]{Name: `large`, Quick: 300, Thorough: 6000, Gen: genLargeIpl, Run: runIpl},
			Spec[cfgIplCase]{Name: `config`, Quick: 1500, Thorough: 30000, Gen: func(t *rapid.T) cfgIplCase {
				c := cfgIplCase{At: rapid.IntRange(0, len(cfgPlaces)-1).Draw(t, `at`), Parts: genParts(t, chance(t, 2, `bad`))}
				if cfgPlaces[c.At] == `function` || cfgPlaces[c.At] == `glob` || cfgPlaces[c.At] == `path` || cfgPlaces[c.At] == `datadir` || cfgPlaces[c.At] == `mapped template` {
					// Names without special meaning
					for i := range c.Parts {
						if p := &c.Parts[i]; p.Src == p.Want {
							p.Src, p.Want = `t`, `t`
						}
					}
				}
				return c
			}, Run: runCfgIpl},
			Spec[rawIplCase]{Name: `raw`, Quick: 5000, Thorough: 200000, Gen: func(t *rapid.T) rawIplCase {
				toks := []string{`%`, `{`, `}`, `%{`, `%{`, `}`, `s`, `n`, `'`, `"`, `.`, `0`, `(`, `)`, `scope(`, `literal('`, `')`, ` `, `::`, `missing`, `%{s}`, `%{n}`, "\n", `å`, `lookup('k')`}
				return rawIplCase{strings.Join(rapid.SliceOfN(rapid.SampledFrom(toks), 0, 10).Draw(t, `toks`), ``)}
			}, Run: runRawIpl},
			Spec[doubleCase]{Name: `known-double-interpolation`, Quick: 20, Thorough: 20, Gen: func(t *rapid.T) doubleCase {
				return doubleCase{pick(t, `tail`, `{x}`, `{SERVER_NAME}/a`)}
			}, Run: runDouble},
		},
	})
}
