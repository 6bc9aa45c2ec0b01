package harness

import (
	"fmt"
	"path/filepath"
	"strings"

	"pgregory.net/rapid"
)

// Generators of cases that are larger than what random generation gives: what holds for a few elements must hold for many

var largeSizes = []int{9, 17, 33, 65, 100, 129, 257, 300}

func genSize(t *rapid.T, max int) int {
	n := pick(t, `size`, largeSizes...)
	if n > max {
		n = max
	}
	return n
}

// elements that may be mistaken for each other
var likeValues = []V{int64(1), `1`, 1.5, `1.5`, true, `true`, nil, `null`, ``, ` `, L{}, M{}, L{int64(1)}, L{`1`}, M{`a`: int64(1)}, M{`a`: `1`}, `a`, `A`, `a `, int64(0), `0`, false, `false`, int64(-1), `-1`, L{nil}, L{``}, L{L{}},
	M{`a`: nil}, M{`b`: int64(1)}, `[1]`, `{"a":1}`, `å`, "a\u030a", int64(1) << 53, int64(1)<<53 + 1, M{`a`: int64(1), `b`: int64(1)}, L{int64(1), int64(1)}, L{int64(1), `1`}}

func genLargeList(t *rapid.T, n int) L {
	l := make(L, n)
	a, b, m := rapid.IntRange(1, 50).Draw(t, `a`), rapid.IntRange(0, 50).Draw(t, `b`), rapid.IntRange(1, 2*n).Draw(t, `m`)
	kind := pick(t, `elements`, `ints`, `strings`, `both`, `like`, `maps`, `lists`)
	for i := range l {
		x := (i*a + b) % m
		switch kind {
		case `ints`:
			l[i] = int64(x)
		case `strings`:
			l[i] = fmt.Sprintf(`e%d`, x)
		case `both`:
			l[i] = int64(x / 2)
			if x%2 == 1 {
				l[i] = fmt.Sprint(x / 2)
			}
		case `like`:
			l[i] = cp(likeValues[x%len(likeValues)])
		case `maps`:
			l[i] = M{`n`: int64(x), `s`: cp(likeValues[(i*b)%len(likeValues)])}
		default:
			l[i] = L{int64(x % 7), fmt.Sprint(x)}
		}
	}
	return l
}

func genLargeMap(t *rapid.T, n int) M {
	m := M{}
	off, w := rapid.IntRange(0, 20).Draw(t, `off`), rapid.IntRange(1, 30).Draw(t, `w`)
	f := pick(t, `keyform`, `k%d`, `%d`, `a.b%d`, `%03d`, `å%d`)
	for i := 0; i < n; i++ {
		var v V = int64(i % w)
		switch i % 5 {
		case 1:
			v = L{int64(i % w), fmt.Sprint(i % w)}
		case 2:
			v = M{fmt.Sprintf(`s%d`, i%w): int64(i)}
		case 3:
			v = cp(likeValues[(i*w)%len(likeValues)])
		}
		m[fmt.Sprintf(f, i+off)] = v
	}
	return m
}

// genDeepValue returns a value with many levels, and the path to the innermost one
func genDeepValue(t *rapid.T, n int) (V, []Val) {
	var v V = cp(pick(t, `core`, likeValues...))
	a := rapid.IntRange(1, 7).Draw(t, `pattern`)
	var rev []Val
	for i := 0; i < n; i++ {
		switch (i * a) % 5 {
		case 0, 2:
			v = L{int64(i), v}
			rev = append(rev, Val{int64(1)})
		case 1:
			v = L{v}
			rev = append(rev, Val{int64(0)})
		case 3:
			v = M{`d`: v, `x`: int64(i)}
			rev = append(rev, Val{`d`})
		default:
			v = M{`d.e`: v}
			rev = append(rev, Val{`d.e`})
		}
	}
	path := make([]Val, len(rev))
	for i := range rev {
		path[len(rev)-1-i] = rev[i]
	}
	return v, path
}

func genLargeString(t *rapid.T, n int) string {
	s := pick(t, `unit`, `x`, `word `, "line\n", "  indented\n", `å`, `"q" `, "\t", `\`, "a\r\n", `: `, ` #`, "\x01", "long words that follow one another\n\n", `'`, `{`, `😀`, `- `)
	return strings.Repeat(s, n) + pick(t, `end`, ``, `.`, "\n", ` `, "\n\n")
}

func genLargeValue(t *rapid.T, max int) V {
	n := genSize(t, max)
	switch pick(t, `large`, `list`, `list`, `map`, `map`, `deep`, `string`, `nested`) {
	case `list`:
		return genLargeList(t, n)
	case `map`:
		return genLargeMap(t, n)
	case `deep`:
		v, _ := genDeepValue(t, n)
		return v
	case `string`:
		return genLargeString(t, n*pick(t, `times`, 1, 10, 100))
	}
	m := M{}
	for i := 0; i < 3; i++ {
		m[fmt.Sprintf(`n%d`, i)] = L{genLargeList(t, n/3+1), M{`in`: genLargeMap(t, n/3+1)}}
	}
	return m
}

// genLargeWorld generates a hierarchy with many levels or many locations, a few of which exist
func genLargeWorld(st ...string) func(t *rapid.T) worldCase {
	return func(t *rapid.T) worldCase {
		c := worldCase{Key: pick(t, `key`, rootKeys[:3]...), Strategy: pick(t, `strategy`, st...)}
		levels := pick(t, `levels`, 1, 2, 10, 40, 100, 150)
		locs := 1
		if levels <= 10 {
			locs = pick(t, `locs`, 20, 70, 130, 260)
		} else if levels == 40 {
			locs = 3
		}
		total := levels * locs
		seen := map[int]bool{}
		for i := rapid.IntRange(1, 8).Draw(t, `files`); i > 0; i-- {
			n := rapid.IntRange(0, total-1).Draw(t, `at`)
			switch rapid.IntRange(0, 5).Draw(t, `edge`) {
			case 0:
				n = total - 1
			case 1:
				n = 0
			case 2:
				n = n / locs * locs // the first of its level
			}
			if !seen[n] {
				seen[n] = true
				d := M{}
				for _, k := range rootKeys[:3] {
					if chance(t, 6, `has`) {
						if chance(t, 5, `small`) {
							d[k] = genMergeable(t)
						} else {
							d[k] = genLargeValue(t, 65)
						}
					}
				}
				c.W.Files = append(c.W.Files, File{Path: fmt.Sprintf(`data/f%04d.yaml`, n), Data: Val{d}})
			}
		}
		for i := 0; i < levels; i++ {
			l := Level{Name: fmt.Sprintf(`l%d`, i), LocKey: `paths`}
			for j := 0; j < locs; j++ {
				l.Locs = append(l.Locs, fmt.Sprintf(`f%04d.yaml`, i*locs+j))
			}
			if locs > 1 && levels == 1 && chance(t, 3, `glob`) {
				l.LocKey, l.Locs = `glob`, []string{`f*.yaml`}
			}
			if locs > 1 && chance(t, 1, `mapped`) {
				roles := L{}
				for j := 0; j < locs; j++ {
					roles = append(roles, fmt.Sprintf(`f%04d`, i*locs+j))
				}
				n := fmt.Sprintf(`roles%d`, i)
				if c.W.Scope.V == nil {
					c.W.Scope.V = M{}
				}
				c.W.Scope.V.(M)[n] = roles
				l.LocKey, l.Locs = `mapped_paths`, []string{n, `r`, `%{r}.yaml`}
			}
			c.W.Cfg.Levels = append(c.W.Cfg.Levels, l)
		}
		return c
	}
}

func genLargeMem(t *rapid.T) memCase {
	var c memCase
	levels := pick(t, `levels`, 1, 2, 3, 12, 40)
	budget := 500
	same := genLargeList(t, 20)
	for i := 0; i < levels; i++ {
		var lv []Val
		for j := pick(t, `locs`, 1, 1, 2, 12); j > 0; j-- {
			switch {
			case chance(t, 2, `absent`):
				lv = append(lv, Val{absentMark})
			case budget > 0:
				n := genSize(t, min(budget, 300))
				budget -= n
				if rapid.Bool().Draw(t, `map`) {
					lv = append(lv, Val{genLargeMap(t, n)})
				} else {
					lv = append(lv, Val{genLargeList(t, n)})
				}
			default:
				lv = append(lv, Val{cp(same)})
			}
		}
		c.Levels = append(c.Levels, lv)
	}
	c.Ops = rapid.SliceOfN(rapid.IntRange(0, 3), 1, 2).Draw(t, `ops`)
	return c
}

func genLargePair(t *rapid.T) pairCase {
	n := genSize(t, 200)
	switch pick(t, `pair`, `lists`, `lists`, `maps`, `deep`, `mixed`) {
	case `lists`:
		return pairCase{Val{genLargeList(t, n)}, Val{genLargeList(t, genSize(t, 200))}}
	case `maps`:
		return pairCase{Val{genLargeMap(t, n)}, Val{genLargeMap(t, genSize(t, 200))}}
	case `deep`:
		v, p := genDeepValue(t, n)
		w := cp(v)
		// differ somewhere
		at := rapid.IntRange(0, len(p)-1).Draw(t, `differ`)
		c := w
		for _, s := range p[:at] {
			if i, ok := s.V.(int64); ok {
				c = c.(L)[i]
			} else {
				c = c.(M)[s.V.(string)]
			}
		}
		switch c := c.(type) {
		case L:
			c[0] = `other`
		case M:
			c[`more`] = int64(1)
		}
		return pairCase{Val{v}, Val{w}}
	}
	return pairCase{Val{M{`l`: genLargeList(t, n), `m`: genLargeMap(t, n), `x`: L{genLargeList(t, 9)}}}, Val{M{`l`: genLargeList(t, n), `m`: genLargeMap(t, n), `x`: L{genLargeList(t, 9)}}}}
}

func genLargeDig(t *rapid.T) digAnyCase {
	switch pick(t, `dig`, `deep`, `deep`, `list`, `map`) {
	case `deep`:
		v, p := genDeepValue(t, genSize(t, 300))
		if chance(t, 3, `beyond`) {
			p = append(p, Val{pick[V](t, `seg`, `a`, int64(0))})
		} else if chance(t, 3, `short`) {
			p = p[:rapid.IntRange(1, len(p)).Draw(t, `to`)]
		}
		return digAnyCase{Val{v}, p}
	case `list`:
		n := genSize(t, 300) * pick(t, `times`, 1, 10)
		return digAnyCase{Val{genLargeList(t, n)}, []Val{{int64(rapid.IntRange(n/2, n+1).Draw(t, `ix`))}}}
	}
	n := genSize(t, 300)
	m := genLargeMap(t, n)
	return digAnyCase{Val{m}, []Val{{pick(t, `k`, keys(m)...)}}}
}

func genLargeIpl(t *rapid.T) iplCase {
	n := genSize(t, 300)
	many := func(n int) (ps []IPart) {
		base := genParts(t, false)
		base = append(base, IPart{Src: `|`, Want: `|`})
		for len(ps) < n {
			ps = append(ps, base...)
		}
		return
	}
	bad := -1
	if chance(t, 3, `errs`) {
		bad = rapid.IntRange(0, n-1).Draw(t, `bad`)
	}
	c := iplCase{Where: rapid.IntRange(0, whereCount-1).Draw(t, `where`)}
	leaf := func(i int) IVal {
		if i == bad {
			return IVal{Kind: `parts`, Parts: []IPart{{Src: `x`, Want: `x`}, {Src: iplErrors[0].Src, Error: true}}}
		}
		p := iplExprs[i%len(iplExprs)]
		return IVal{Kind: `parts`, Parts: []IPart{{Src: `<`, Want: `<`}, p, {Src: `>`, Want: `>`}}}
	}
	switch pick(t, `shape`, `string`, `list`, `map`, `deep`) {
	case `string`:
		ps := many(n)
		if bad >= 0 {
			ps = append(ps, IPart{Src: iplErrors[0].Src, Error: true})
		}
		c.V = IVal{Kind: `parts`, Parts: ps}
	case `list`:
		c.V = IVal{Kind: `list`}
		for i := 0; i < n; i++ {
			c.V.List = append(c.V.List, leaf(i))
		}
	case `map`:
		c.V = IVal{Kind: `map`}
		for i := 0; i < n; i++ {
			c.V.Map = append(c.V.Map, IEntry{K: []IPart{{Src: fmt.Sprintf(`k%d`, i), Want: fmt.Sprintf(`k%d`, i)}}, V: leaf(i)})
		}
	default:
		if bad >= 0 {
			bad = n
		}
		c.V = leaf(n)
		for i := 0; i < n; i++ {
			if i%2 == 0 {
				c.V = IVal{Kind: `list`, List: []IVal{leaf(i), c.V}}
			} else {
				c.V = IVal{Kind: `map`, Map: []IEntry{{K: []IPart{{Src: `k`, Want: `k`}}, V: c.V}}}
			}
		}
	}
	return c
}

// genLargeLoc is like genLocCase with many files and locations
func genLargeLoc(t *rapid.T) locCase {
	var c locCase
	n := genSize(t, 257)
	form := pick(t, `form`, `f%d`, `%d`, `%03d`, `d%d/x`, `d/%d`, `a/b/c/d/e/f%d`)
	step := pick(t, `step`, 1, 2, 3, 7)
	l := Level{Name: `l0`, Kind: `data_hash`, Fn: `rec0`}
	switch l.LocKey = pick(t, `kind`, `paths`, `glob`, `globs`, `uris`, `mapped_paths`); l.LocKey {
	case `paths`:
		a := rapid.IntRange(1, 9).Draw(t, `a`)
		for i := 0; i < n; i++ {
			l.Locs = append(l.Locs, fmt.Sprintf(form, (i*a)%n)+`.yaml`)
		}
	case `glob`:
		l.Locs = []string{pick(t, `glob`, `**/*.yaml`, `*.yaml`, `*/*.yaml`, `f*`, `**/f*.yaml`, `d*/*.yaml`, `a/b/**/*.yaml`)}
	case `globs`:
		l.Locs = []string{`*.yaml`, `*/*.yaml`, `**/*1*.yaml`}
	case `uris`:
		for i := 0; i < n; i++ {
			l.Locs = append(l.Locs, fmt.Sprintf(`u:`+form, i))
		}
	default:
		l.Locs = []string{`many`, `r`, `%{r}.yaml`}
	}
	c.W.Cfg.Levels = []Level{l}
	for i := 0; i < n; i += step {
		c.W.Files = append(c.W.Files, File{Path: filepath.Join(`data`, fmt.Sprintf(form, i)+`.yaml`), Data: Val{M{}}})
	}
	for i := 0; i < 2; i++ {
		many := L{}
		for j := 0; j < n; j++ {
			many = append(many, fmt.Sprintf(form, (j*(i+2))%n))
		}
		c.Scopes = append(c.Scopes, Val{M{`many`: many}})
	}
	return c
}

func genLargeNames(t *rapid.T) namesCase {
	c := genNamesCase(t)
	names := make([]string, 0, 300)
	for n := genSize(t, 300); len(names) < n; {
		if chance(t, 9, `missing`) {
			names = append(names, fmt.Sprintf(`missing%d`, len(names)))
		} else {
			names = append(names, pick(t, `name`, c.Names...))
		}
	}
	names = append(names, c.Names...)
	if c.Types != nil {
		ts := make([]string, len(names))
		for i := range ts {
			ts[i] = `any`
		}
		copy(ts[len(ts)-len(c.Types):], c.Types)
		c.Types = ts
	}
	c.Names = names
	return c
}

func genLargeRender(t *rapid.T) renderCase {
	c := renderCase{As: pick(t, `as`, `json`, `yaml`), Via: pick(t, `via`, `direct`, `lookup`, `all`), Share: rapid.Bool().Draw(t, `share`)}
	n := 1
	if chance(t, 2, `many`) {
		n = 40
	}
	for i := 0; i < n; i++ {
		if n > 1 {
			c.Vals = append(c.Vals, Val{genOddValue(t, 1, true)})
		} else {
			c.Vals = append(c.Vals, Val{genLargeValue(t, 300)})
		}
	}
	return c
}

// genLargeCfg generates a configuration with many levels, which is valid unless something far apart clashes
func genLargeCfg(t *rapid.T) cfgCase {
	n := genSize(t, 129)
	levels := L{}
	for i := 0; i < n; i++ {
		l := M{`name`: fmt.Sprintf(`level %d`, i)}
		switch i % 4 {
		case 1:
			l[`paths`] = L{fmt.Sprintf(`p%d.yaml`, i), `%{x}.yaml`}
		case 2:
			l[`lookup_key`], l[`options`] = `environment`, M{`a`: int64(i)}
		case 3:
			l[`path`] = fmt.Sprintf(`p%d.yaml`, i)
		}
		levels = append(levels, l)
	}
	c := M{`version`: int64(5), `hierarchy`: levels}
	at := func(what string) int { return rapid.IntRange(0, n-1).Draw(t, what) }
	switch i, j := at(`i`), at(`j`); pick(t, `fault`, `none`, `none`, `name`, `name`, `key`, `type`, `function`, `location`, `reserved`, `default`) {
	case `name`:
		levels[i].(M)[`name`] = levels[j].(M)[`name`]
	case `key`:
		levels[i].(M)[`unknown`] = int64(1)
	case `type`:
		levels[i].(M)[`datadir`] = int64(1)
	case `function`:
		levels[i].(M)[`data_hash`], levels[i].(M)[`lookup_key`] = `yaml_data`, `environment`
	case `location`:
		levels[i].(M)[`path`], levels[i].(M)[`glob`] = `x`, `y`
	case `reserved`:
		levels[i].(M)[`options`] = M{`path`: `x`}
	case `default`:
		d := L{}
		for _, l := range levels {
			d = append(d, cp(l))
		}
		c[`default_hierarchy`] = d
		if i%2 == 0 {
			d[i].(M)[`name`] = d[j].(M)[`name`]
		}
	}
	return cfgCase{Val{c}}
}

// genLargeMod generates many modules on a long module path
func genLargeMod(t *rapid.T) modCase {
	var c modCase
	roots := pick(t, `roots`, 1, 2, 7, 12, 30)
	for i := 0; i < roots; i++ {
		c.W.ModulePath = append(c.W.ModulePath, fmt.Sprintf(`r%d`, i))
	}
	form := pick(t, `form`, `m%d`, `m%d`, `my_module%d`, `Mod%dx`, `Å%d`, `a_module_with_a_long_name_%d`)
	n := pick(t, `modules`, 10, 40, 120)
	name := func(i int) string { return fmt.Sprintf(form, i%(n*2/3)) } // some are shadowed
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		r := pick(t, `root`, c.W.ModulePath...)
		if seen[r+name(i)] {
			continue
		}
		seen[r+name(i)] = true
		m := Module{Root: r, Name: name(i), NoCfg: chance(t, 1, `nocfg`)}
		m.Cfg.Levels = []Level{{Name: `one`, LocKey: `path`, Locs: []string{`c.yaml`}}}
		k := strings.ToLower(name(i)) + `::`
		d := M{k + `k`: fmt.Sprintf(`%d in %s`, i, r), name(i) + `::k`: fmt.Sprintf(`%d in %s`, i, r)}
		if chance(t, 3, `more`) {
			d[k+`l`] = genLargeList(t, 10)
		}
		m.Files = []File{{Path: `data/c.yaml`, Data: Val{d}}}
		c.W.Modules = append(c.W.Modules, m)
	}
	c.W.Mux = []string{`module`}
	c.Alone = rapid.Bool().Draw(t, `alone`)
	for i := rapid.IntRange(5, 30).Draw(t, `nkeys`); i > 0; i-- {
		k := name(rapid.IntRange(0, n-1).Draw(t, `of`))
		if rapid.Bool().Draw(t, `lower`) {
			k = strings.ToLower(k)
		}
		c.Keys = append(c.Keys, k+`::`+pick(t, `local`, `k`, `k`, `l`))
	}
	return c
}

// genLargeMux generates long lists of functions
func genLargeMux(t *rapid.T) muxCase {
	c := genMuxCase(t)
	c.W.Mux, c.Custom = nil, nil
	n := pick(t, `functions`, 6, 9, 17, 33, 70)
	for i := 0; i < n; i++ {
		f := TopFn{Data: Val{M{}}, Opts: Val{M{}}}
		if chance(t, 2, `has`) || i == n-1 {
			f.Data.V.(M)[pick(t, `key`, muxKeys[:3]...)] = pick[V](t, `v`, `x`, fmt.Sprint(i), L{int64(i)}, L{`x`, int64(i)}, M{fmt.Sprintf(`a%d`, i): int64(i)}, M{`a`: int64(i), `b`: L{int64(i)}})
		}
		c.Custom = append(c.Custom, f)
		c.W.Mux = append(c.W.Mux, fmt.Sprintf(`c%d`, i))
		if chance(t, 1, `builtin`) {
			c.W.Mux = append(c.W.Mux, pick(t, `which`, `config`, `module`, `yaml`, `env`))
		}
	}
	c.Keys = muxKeys[:3]
	return c
}

// genManyVars gives n variables, and a string that shows them all
func genManyVars(n int, sep string) (vs []CVar, sum string) {
	for i := 0; i < n; i++ {
		v := fmt.Sprintf(`value %d`, i)
		vs = append(vs, CVar{Key: fmt.Sprintf(`v%d`, i), Sep: sep, Lit: Lit{Text: v, Val: Val{v}}})
		sum += fmt.Sprintf(`%%{v%d},`, i)
	}
	return
}

func genLargeRest(t *rapid.T) restCase {
	c := genRestCase(t)
	c.BadCfg = false
	vs, sum := genManyVars(pick(t, `vars`, 20, 70, 300), `=`)
	// The server reads all data for each request
	repeat, size, reqs := pick(t, `lrepeat`, 0, 1, 8), 1000, 4
	if repeat <= 1 {
		size = pick(t, `size`, 1000, 40000, 150000)
		reqs = pick(t, `reqs`, 3, 12)
		if size > 1000 {
			reqs = 3
		}
	}
	big := genLargeValue(t, 300)
	d := M{`big`: jsonSafe(big), `sum`: sum, `huge`: strings.Repeat(pick(t, `unit`, `x`, `å"`, `<b>`), size)}
	c.W.Cfg.Levels = append(c.W.Cfg.Levels, Level{Name: `large`, Datadir: `extradir`, LocKey: `path`, Locs: []string{`large.yaml`}})
	c.W.Files = append(c.W.Files, File{Path: `extradir/large.yaml`, Data: Val{d}})
	if chance(t, 3, `servervars`) {
		c.Server.Vars = vs
		vs = nil
	}
	var b restBatch
	for i := reqs; i > 0; i-- {
		var r restReq
		r.C.Keys = []string{pick(t, `lkey`, `big`, `sum`, `huge`, `big.n1.1.in`, `big.20`, `missing`)}
		if r.C.Keys[0] == `sum` || chance(t, 1, `withvars`) {
			r.C.Vars = vs
		}
		if chance(t, 2, `ldefault`) {
			s := strings.Repeat(`default `, pick(t, `dsize`, 10, 1000, 20000)) + `.`
			r.C.Default = &Lit{Text: s, Val: Val{s}}
		}
		b.Reqs = append(b.Reqs, r)
	}
	b.Repeat = repeat
	c.Batches = append(c.Batches, b)
	return c
}

func genLargeCli(t *rapid.T) cliCase {
	c := genCliCase(t)
	vs, sum := genManyVars(pick(t, `vars`, 20, 70, 300), pick(t, `sep`, `=`, `:`))
	d := M{`big`: genLargeValue(t, 300), `sum`: sum, `facts`: `%{facts.k7},%{k7}`}
	c.W.Cfg.Levels = append(c.W.Cfg.Levels, Level{Name: `large`, LocKey: `path`, Locs: []string{`large.yaml`}})
	c.W.Files = append(c.W.Files, File{Path: `data/large.yaml`, Data: Val{d}})
	if rapid.Bool().Draw(t, `vars`) {
		c.C.Vars = append(c.C.Vars, vs...)
	}
	if rapid.Bool().Draw(t, `file`) {
		f := CFile{Name: `large-vars.yaml`, Data: Val{M{}}}
		for i := pick(t, `entries`, 100, 3000, 6000); i > 0; i-- {
			f.Data.V.(M)[fmt.Sprintf(`k%d`, i)] = fmt.Sprintf(`fact number %d of a large file`, i)
		}
		if rapid.Bool().Draw(t, `facts`) {
			c.C.FactFiles = append(c.C.FactFiles, f)
		} else {
			c.C.VarFiles = append(c.C.VarFiles, f)
		}
	}
	c.Stdin = c.Stdin || rapid.Bool().Draw(t, `largestdin`)
	c.C.Keys = []string{pick(t, `lkey`, `big`, `sum`, `facts`, `big.20`)}
	if c.C.All {
		for i := pick(t, `names`, 1, 40, 200); i > 0; i-- {
			c.C.Keys = append(c.C.Keys, pick(t, `name`, `big`, `sum`, `facts`, `k0`, fmt.Sprintf(`missing%d`, i)))
		}
	}
	return c
}

// genManyOpts has options for many keys, spread over files
func genManyOpts(t *rapid.T) optsCase {
	c := genOptsCase(t)
	n := pick(t, `many`, 20, 100, 400)
	form := pick(t, `optform`, `many%d`, `m%d::k`, `%dk`)
	nf := rapid.IntRange(1, 3).Draw(t, `nfiles`)
	l := Level{Name: `many`, LocKey: `paths`}
	for f := 0; f < nf; f++ {
		lo, d := M{}, M{}
		for i := 0; i < n; i++ {
			k := fmt.Sprintf(form, i)
			d[k] = pick[V](t, `mv`, L{int64(f), `x`}, M{`a`: int64(f), fmt.Sprintf(`f%d`, f): L{int64(f)}}, int64(f))
			if (i+f)%3 > 0 {
				lo[k] = M{`merge`: strategies[(i*7+f*3)%len(strategies)]}
			}
		}
		d[`lookup_options`] = lo
		p := fmt.Sprintf(`many%d.yaml`, f)
		l.Locs = append(l.Locs, p)
		c.W.Files = append(c.W.Files, File{Path: `manydir/` + p, Data: Val{d}})
	}
	l.Datadir = `manydir`
	c.W.Cfg.Levels = append(c.W.Cfg.Levels, l)
	for i := 0; i < 20; i++ {
		c.Keys = append(c.Keys, fmt.Sprintf(form, rapid.IntRange(0, n-1).Draw(t, `mkey`)))
	}
	return c
}

// genLargeExplain explains lookups in large worlds
func genLargeExplain(t *rapid.T) explainCase {
	w := genLargeWorld(``, `first`, `unique`, `hash`, `deep`)(t)
	c := explainCase{W: w.W, Key: w.Key + pick(t, `dig`, ``, ``, `.5`, `.k5`), Strategy: w.Strategy}
	c.Options = chance(t, 3, `options`)
	return c
}

// genLongHist is a long history of similar lookups
func genLongHist(t *rapid.T) histCase {
	c := genHist(t)
	for i := rapid.IntRange(1, 4).Draw(t, `moreinvs`); i > 0; i-- {
		c.Invs = append(c.Invs, rapid.IntRange(0, len(c.Scopes)-1).Draw(t, `scope`))
	}
	base := len(c.Ops)
	a := pick(t, `a`, 1, 3, 5, 7)
	form := pick(t, `nameform`, `missing%d`, `k%d`, `mod::k%d`, `k0.%d`, `m%d::k`)
	for i := pick(t, `nlong`, 70, 150, 400); i > 0; i-- {
		op := c.Ops[(i*a)%base]
		if op.Inv >= 0 {
			op.Inv = i % len(c.Invs)
		}
		if i%3 == 0 {
			// A new name
			op.Names = []string{fmt.Sprintf(form, i)}
			op.Defaults, op.Override = nil, nil
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

// genManyConc has many goroutines
func genManyConc(t *rapid.T) concCase {
	c := genConc(t)
	base := len(c.Threads)
	for i := pick(t, `nthreads`, 20, 50); i > 0; i-- {
		c.Threads = append(c.Threads, c.Threads[i%base])
	}
	return c
}
