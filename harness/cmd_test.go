package harness

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/explain"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/provider"
	sdk "github.com/lyraproj/hierasdk/hiera"
	"pgregory.net/rapid"
)

// Lit is a value as it's written on the command line or in the parameter of a request
type Lit struct {
	Text string `json:"text"`
	Val  Val    `json:"val"` // what the text denotes
	Bad  bool   `json:"bad,omitempty"`
}

// CVar is a variable that is given as text
type CVar struct {
	Raw string `json:"raw,omitempty"` // used instead of the rest unless empty
	Key string `json:"key,omitempty"`
	Sep string `json:"sep,omitempty"`
	Lit Lit    `json:"lit"`
}

func (v *CVar) text() string {
	if v.Raw != `` {
		return v.Raw
	}
	return v.Key + v.Sep + v.Lit.Text
}

// CFile is a file with variables
type CFile struct {
	Name string `json:"name"`
	Kind string `json:"kind,omitempty"` // empty, missing, malformed, list or scalar unless it's a hash
	Data Val    `json:"data"`
}

func (f *CFile) write(dir string) string {
	p := filepath.Join(dir, f.Name)
	switch f.Kind {
	case `missing`:
	case `empty`:
		writeFile(p, ``)
	case `malformed`:
		writeFile(p, "a: [b\nc: d\n")
	case `list`:
		writeFile(p, "[a, b]\n")
	case `scalar`:
		writeFile(p, "just text\n")
	default:
		writeFile(p, flow(f.Data.V)+"\n")
	}
	return p
}

// Cmd is what a lookup command or a request can specify
type Cmd struct {
	Keys        []string `json:"keys"`
	Vars        []CVar   `json:"vars,omitempty"`
	VarFiles    []CFile  `json:"varfiles,omitempty"`
	FactFiles   []CFile  `json:"factfiles,omitempty"`
	Default     *Lit     `json:"default,omitempty"`
	Merge       string   `json:"merge,omitempty"`
	Type        string   `json:"type,omitempty"`
	RenderAs    string   `json:"renderas,omitempty"`
	All         bool     `json:"all,omitempty"`
	Explain     bool     `json:"explain,omitempty"`
	ExplainOpts bool     `json:"explainopts,omitempty"`
}

// splitVar is an independent definition of how a variable is split: at the first : or = that has something on both sides and
// isn't next to another : or =
func splitVar(s string) (string, string, bool) {
	sep := func(i int) bool { return s[i] == ':' || s[i] == '=' }
	for i := 1; i < len(s)-1; i++ {
		if sep(i) && !sep(i-1) && !sep(i+1) {
			return strings.TrimSpace(s[:i]), strings.TrimSpace(s[i+1:]), true
		}
	}
	return ``, ``, false
}

// literal writes a value in the syntax of a dialect
func literal(v V, pcore bool) string {
	switch v := v.(type) {
	case nil:
		return `undef`
	case string:
		return strconv.Quote(v)
	case L:
		es := make([]string, len(v))
		for i, e := range v {
			es[i] = literal(e, pcore)
		}
		if pcore {
			return `[` + strings.Join(es, `, `) + `]`
		}
		return `{` + strings.Join(es, `, `) + `}`
	case M:
		es := []string{}
		for _, k := range keys(v) {
			kt := strconv.Quote(k)
			if pcore {
				es = append(es, kt+` => `+literal(v[k], pcore))
			} else {
				es = append(es, kt+`: `+literal(v[k], pcore))
			}
		}
		return `{` + strings.Join(es, `, `) + `}`
	case float64:
		return strconv.FormatFloat(v, 'f', -1, 64)
	}
	return fmt.Sprint(v)
}

func genLitValue(t *rapid.T, depth int, pcore bool) V {
	max := 5
	if depth <= 0 {
		max = 3
	}
	switch rapid.IntRange(0, max).Draw(t, `lv`) {
	case 0:
		return pick[V](t, `ls`, pathVals[0], pathVals[1], pathVals[2], pathVals[3], `a b`, `a=b`, `a:b`, `x"y`, `it's`, ``, `1`, `å`)
	case 1:
		return pick[V](t, `ls`, pathVals[0], pathVals[1], pathVals[2], pathVals[3])
	case 2:
		return pick[V](t, `li`, int64(0), int64(1), int64(-3), int64(42))
	case 3:
		if pcore && chance(t, 3, `undef`) {
			return nil
		}
		return pick[V](t, `lb`, true, false, 1.5)
	case 4:
		l := L{}
		for i := rapid.IntRange(1, 3).Draw(t, `n`); i > 0; i-- {
			l = append(l, genLitValue(t, depth-1, pcore))
		}
		return l
	default:
		m := M{}
		for i := rapid.IntRange(0, 3).Draw(t, `n`); i > 0; i-- {
			m[pick(t, `mk`, `a`, `b`, `c d`, `env`)] = genLitValue(t, depth-1, pcore)
		}
		return m
	}
}

// genLit generates the text of a value
func genLit(t *rapid.T, pcore, faulty bool) Lit {
	switch rapid.IntRange(0, 5).Draw(t, `lit`) {
	case 0, 1, 2:
		s := pick(t, `plain`, pathVals[0], pathVals[1], pathVals[2], pathVals[3], `a=b`, `a::b`, `a:b=c`, `1`, `true`, `null`, `1.5`, `x y`, `a"b`, `a'`, `x]`, `%`, `å`, `-x`, `a,b`, `$x`, `\n`, "two\nlines", "a\n=b\n")
		return Lit{Text: pick(t, `pad`, ``, ``, ` `) + s + pick(t, `pad2`, ``, ``, ` `), Val: Val{strings.TrimSpace(s)}}
	case 3:
		if faulty && chance(t, 5, `bad`) {
			return Lit{Text: pick(t, `badtext`, `{`, `[1`, `"abc`, `{"a`, `["a"`, `"a" "b"`, `[`, `"`), Bad: true}
		}
	}
	v := genLitValue(t, 2, pcore)
	switch v.(type) {
	case string, L, M:
	default:
		v = L{v}
	}
	s := literal(v, pcore)
	return Lit{Text: pick(t, `pad`, ``, ``, ` `) + s + pick(t, `pad2`, ``, ``, ` `), Val: Val{v}}
}

func genCVar(t *rapid.T, names []string, pcore, faulty bool) CVar {
	if faulty && chance(t, 2, `badvar`) {
		return CVar{Raw: pick(t, `rawbad`, `novalue`, `=x`, `env=`, `::`, `a==b`, `:`, `env`, `=`, `a::b`, `env:`, `env :=prod`)}
	}
	if chance(t, 1, `rawvar`) {
		// The separator is the first one that stands alone
		r := pick(t, `rawodd`, `a::env=prod`, `env==x=dev`, `env=:x:y`, `x::y::z:1`, `env=prod=x`, `role:dev:x`, `:env=prod`, `a==b=c`, "a\nb=c", "\nenv:prod", "env\n=prod")
		_, text, _ := splitVar(r)
		return CVar{Raw: r, Lit: Lit{Text: text, Val: Val{text}}}
	}
	v := CVar{Key: pick(t, `vname`, names...), Sep: pick(t, `sep`, `=`, `=`, `:`), Lit: genLit(t, pcore, faulty)}
	if chance(t, 2, `padname`) {
		v.Key = ` ` + v.Key + ` `
	}
	return v
}

// value is the name and value of the variable
func (v *CVar) value() (string, V, error) {
	name, text, ok := splitVar(v.text())
	if !ok {
		return ``, nil, fmt.Errorf(`malformed variable %s`, v.text())
	}
	if text == strings.TrimSpace(v.Lit.Text) {
		if v.Lit.Bad {
			return ``, nil, fmt.Errorf(`malformed value %s`, v.Lit.Text)
		}
		return name, v.Lit.Val.V, nil
	}
	// the text was split elsewhere
	for _, p := range []string{`{`, `[`, `"`, `'`} {
		if strings.HasPrefix(text, p) {
			return ``, nil, errUnsureLit
		}
	}
	return name, text, nil
}

var errUnsureLit = errors.New(`unsure`)

var cmdVarNames = []string{`env`, `os`, `role`, `roles`, `svm`, `a::b`}

// genFileName gives the name of the i:th file of its kind
func genFileName(t *rapid.T, kind string, i int) string {
	ext := pick(t, `ext`, `yaml`, `json`)
	if chance(t, 2, `oddname`) {
		kind += pick(t, `odd`, `,`, ` `, `=`, `:`, `"`, `'`, `,x.yaml,`, `%2C`, `$HOME`, `*`, `å`, `\\`, `[0]`, `.`, "\n")
	}
	return fmt.Sprintf(`%s%d.%s`, kind, i, ext)
}

func genCFile(t *rapid.T, name string, faulty bool) CFile {
	f := CFile{Name: name}
	if chance(t, 1, `emptyfile`) {
		f.Kind = `empty`
	}
	if faulty && chance(t, 2, `oddfile`) {
		f.Kind = pick(t, `filekind`, `missing`, `malformed`, `list`, `scalar`)
	}
	m := M{}
	for i := rapid.IntRange(0, 3).Draw(t, `nvars`); i > 0; i-- {
		m[pick(t, `vname`, append([]string{`facts`, `facts`}, cmdVarNames...)...)] = pick[V](t, `fv`, M{`role`: `fr`, `facts`: M{`role`: `ffr`}}, pathVals[0], pathVals[1], pathVals[2], L{pathVals[0], pathVals[1]}, M{`a`: pathVals[2]}, int64(3), `%{os}`, nil, true)
	}
	f.Data = Val{m}
	return f
}

// scope is the model of createScope
func (c *Cmd) scope() (M, error) {
	m := M{}
	for i := range c.Vars {
		n, v, err := c.Vars[i].value()
		if err != nil {
			return nil, err
		}
		m[n] = v
	}
	add := func(to M, fs []CFile) error {
		for i := range fs {
			switch f := &fs[i]; f.Kind {
			case `empty`:
			case ``:
				for k, v := range f.Data.V.(M) {
					to[k] = v
				}
			default:
				return fmt.Errorf(`%s is a %s file`, f.Name, f.Kind)
			}
		}
		return nil
	}
	if err := add(m, c.VarFiles); err != nil {
		return nil, err
	}
	if len(c.FactFiles) > 0 {
		facts := M{}
		if err := add(facts, c.FactFiles); err != nil {
			return nil, err
		}
		for k, v := range facts {
			m[k] = v
		}
		m[`facts`] = facts
	}
	return m, nil
}

// CmdRes is the outcome of a command
type CmdRes struct {
	Out   []byte
	Found bool
	Value dgo.Value
	Err   error
}

func (r CmdRes) String() string {
	if r.Err != nil {
		return fmt.Sprintf(`error(%s)`, head(r.Err.Error(), 300))
	}
	if !r.Found {
		return fmt.Sprintf(`not found %q`, r.Out)
	}
	return fmt.Sprintf(`%q`, r.Out)
}

// expected performs the lookup using the library, in a session of its own
func (c *Cmd) expected(o map[string]interface{}, render hiera.RenderName) (r CmdRes) {
	vars, err := c.scope()
	if err != nil {
		return CmdRes{Err: err}
	}
	so := map[string]interface{}{provider.LookupKeyFunctions: []sdk.LookupKey{provider.ConfigLookupKey, provider.Environment}}
	for k, v := range o {
		so[k] = v
	}
	b := &bytes.Buffer{}
	res := capture(func() dgo.Value {
		withSession(provider.MuxLookupKey, so, func(s api.Session) {
			var tp dgo.Type = typ.Any
			if c.Type != `` {
				tp = s.Dialect().ParseType(nil, vf.String(c.Type))
			}
			var lo dgo.Map
			if c.Merge != `` && c.Merge != `first` {
				lo = vf.Map(`merge`, c.Merge)
			}
			var dv dgo.Value
			if c.Default != nil {
				if c.Default.Bad {
					panic(errors.New(`malformed default`))
				}
				dv = toD(c.Default.Val.V)
			}
			var ex api.Explainer
			if c.Explain || c.ExplainOpts {
				ex = explain.NewExplainer(c.ExplainOpts, !c.Explain)
			}
			ic := s.Invocation(toDMap(vars), ex)
			var v dgo.Value
			if c.All {
				st, ok := tp.(dgo.StructMapType)
				if !ok && c.Type != `` {
					panic(errors.New(`not a struct type`))
				}
				v = hiera.LookupAll(ic, c.Keys, st, nil, nil, lo)
			} else {
				v = hiera.Lookup2(ic, c.Keys, tp, dv, nil, nil, lo, nil)
			}
			r.Found, r.Value = v != nil, v
			switch {
			case ex != nil && render == hiera.Text:
				b.WriteString(ex.String() + "\n")
			case ex != nil:
				hiera.Render(s, render, ex, b)
			case v != nil:
				hiera.Render(s, render, v, b)
			}
		})
		return nil
	})
	if res.Err != nil {
		return CmdRes{Err: res.Err}
	}
	r.Out = b.Bytes()
	return
}

var cmdTypes = map[bool][]string{
	false: {`string`, `[]any`, `map[string]any`, `any`, `string`, `any`, `int`, `[]string`, `bool`, `float`, `string[5]`},
	true:  {`String`, `Array`, `Hash[String,Any]`, `Any`, `String`, `Any`, `Integer`, `Array[String]`, `Boolean`, `Float`, `String[5]`},
}

func genCmdType(t *rapid.T, pcore, faulty bool) string {
	if faulty && chance(t, 2, `badtype`) {
		return pick(t, `btype`, `[`, `nosuchtype`, `String[`)
	}
	return pick(t, `type`, cmdTypes[pcore]...)
}

var cmdKeys = []string{`k0`, `k0`, `k1`, `k2`, `mod::k`, `'dotted.key'`, `dotted.key`, `k0.a`, `k1.0`, `k2.a.b`, `env::VERIF_ENV`, `env::VERIF_UNSET`, `env.VERIF_ENV`, `missing`, `lookup_options`, `"k0"`, `facts`, `facts.role`, `facts.facts.role`, `role`, `svm.a`, `roles.0`}
var badCmdKeys = []string{`k0.`, `'k0`, `1`, ``, `k0..a`, `'k0'.`}

func genCmdKey(t *rapid.T, faulty bool) string {
	if faulty && chance(t, 2, `badkey`) {
		return pick(t, `bkey`, badCmdKeys...)
	}
	return pick(t, `key`, cmdKeys...)
}

// genCmdWorld generates a world that depends on variables
func genCmdWorld(t *rapid.T) World {
	w := genWorld(t, worldOpts{maxLevels: 3, density: 6, json: true, luOpts: genLuOpts, values: func(t *rapid.T) V {
		if chance(t, 4, `ipl`) {
			s := pick[V](t, `iplv`, `%{env}`, `<%{os}>`, `%{facts.role}`, `%{svm.a}`, `%{lookup('k1')}`, `%{alias('k2')}`, `%{role}-%{roles}`, `%{a::b}`, `%{env} x`)
			if chance(t, 3, `nest`) {
				return M{`a`: s, `b`: L{s}}
			}
			return s
		}
		return genValue(2).Draw(t, `value`)
	}})
	w.SessScope = Val{M{}}
	if chance(t, 4, `scopelevel`) {
		// The variables are data too
		w.Cfg.Levels = append(w.Cfg.Levels, Level{Name: `scope`, Kind: `lookup_key`, Fn: `scope`})
	}
	return w
}

func genMergeName(t *rapid.T, faulty bool) string {
	if faulty && chance(t, 2, `badmerge`) {
		return pick(t, `bogus`, `bogus`, `First`, `deeper`)
	}
	return pick(t, `merge`, ``, ``, ``, `first`, `unique`, `hash`, `deep`)
}

// genCmdVars generates variables such that most path variables have a value
func genCmdVars(t *rapid.T, w *World, pcore, faulty bool) []CVar {
	var vs []CVar
	sc, _ := w.Scope.V.(M)
	for _, k := range keys(sc) {
		if chance(t, 6, `given`) {
			text := literal(sc[k], pcore)
			if s, ok := sc[k].(string); ok && chance(t, 5, `plainvar`) {
				text = s
			}
			if l, ok := sc[k].(L); ok && len(l) == 0 {
				continue
			}
			vs = append(vs, CVar{Key: k, Sep: pick(t, `sep`, `=`, `:`), Lit: Lit{Text: text, Val: Val{sc[k]}}})
		}
	}
	for i := rapid.IntRange(0, 2).Draw(t, `nvar`); i > 0; i-- {
		vs = append(vs, genCVar(t, cmdVarNames, pcore, faulty))
	}
	return vs
}

// isStrange tells if a text cannot be passed in an argument
func isStrange(s string) bool { return strings.ContainsRune(s, 0) || !utf8.ValidString(s) }

const cmdEnv = `VERIF_ENV`

func init() { must(os.Setenv(cmdEnv, `from the environment`)) }
