package harness

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"syscall"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/cli"
	"github.com/lyraproj/hiera/provider"
	sdk "github.com/lyraproj/hierasdk/hiera"
	"pgregory.net/rapid"
)

// asNobody calls the function in a thread that accesses files as an unprivileged user. The function isn't called when that's impossible
func asNobody(dir string, f func()) bool {
	const nobody = 65534
	for d := dir; strings.HasPrefix(d, os.Getenv(`VERIF_SCRATCH`)); d = filepath.Dir(d) {
		if st, err := os.Stat(d); err != nil || st.Mode()&0111 != 0111 {
			if err != nil || os.Chmod(d, st.Mode()|0111) != nil {
				return false
			}
		}
	}
	denied, granted := filepath.Join(dir, `denied`), filepath.Join(dir, `granted`)
	writeFile(denied, ``)
	writeFile(granted, ``)
	must(os.Chmod(denied, 0))
	must(os.Chmod(granted, 0644))
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	set := func(id uintptr) {
		_, _, _ = syscall.RawSyscall(syscall.SYS_SETFSUID, id, 0, 0)
	}
	uid := uintptr(os.Geteuid())
	set(nobody)
	defer set(uid)
	if _, err := os.ReadFile(denied); err == nil {
		return false
	}
	if _, err := os.ReadFile(granted); err != nil {
		return false
	}
	f()
	return true
}

type unreadableCase struct {
	What  string   `json:"what"`
	As    string   `json:"as"`
	Link  bool     `json:"link"` // it's a link to a file that cannot be read
	At    int      `json:"at"`   // level
	Loc   string   `json:"loc"`
	Merge []string `json:"merge"`
	Keys  []string `json:"keys"`
	First bool     `json:"first"` // there are lookups before the fault
}

func genUnreadable(t *rapid.T) unreadableCase {
	c := unreadableCase{What: pick(t, `what`, `data`, `data`, `config`, `modconfig`, `moddata`, `moddir`, `vars`), As: pick(t, `as`, `yaml_data`, `json_data`), Link: chance(t, 3, `link`),
		At: rapid.IntRange(0, 2).Draw(t, `at`), Loc: pick(t, `loc`, `path`, `paths`, `glob`), First: chance(t, 3, `first`)}
	for i := rapid.IntRange(1, 5).Draw(t, `n`); i > 0; i-- {
		c.Keys = append(c.Keys, pick(t, `key`, `k`, `l0`, `l1`, `l2`, `m::k`, `m::x`, `n::k`, `nope`))
		c.Merge = append(c.Merge, pick(t, `merge`, ``, ``, `unique`, `hash`, `deep`))
	}
	return c
}

func runUnreadable(x *X, c unreadableCase) (err error) {
	dir := x.Dir()
	ext := map[string]string{`yaml_data`: `yaml`, `json_data`: `json`}[c.As]
	var levels L
	for i := 0; i < 3; i++ {
		n := fmt.Sprintf(`l%d`, i)
		var loc V = n + `.` + ext
		if c.Loc == `paths` {
			loc = L{`missing.` + ext, loc}
		}
		if c.Loc == `glob` {
			loc = n + `.*`
		}
		levels = append(levels, M{`name`: n, `data_hash`: c.As, c.Loc: loc})
		writeFile(filepath.Join(dir, `data`, n+`.`+ext), flow(M{`k`: M{n: n}, n: M{`v`: n}}))
	}
	writeFile(filepath.Join(dir, `hiera.yaml`), flow(M{`version`: int64(5), `hierarchy`: levels}))
	for _, m := range []string{`m`, `n`} {
		writeFile(filepath.Join(dir, `modules`, m, `hiera.yaml`), flow(M{`version`: int64(5), `hierarchy`: L{M{`name`: `x`, `data_hash`: c.As, `path`: `x.` + ext}}}))
		writeFile(filepath.Join(dir, `modules`, m, `data/x.`+ext), flow(M{m + `::k`: M{m: m}}))
	}
	vars := filepath.Join(dir, `vars.yaml`)
	writeFile(vars, `{"a": "b"}`)

	good := func(key, merge string) Res {
		switch key {
		case `k`:
			if merge == `unique` {
				return value(L{M{`l0`: `l0`}, M{`l1`: `l1`}, M{`l2`: `l2`}})
			}
			if merge == `` {
				return value(M{`l0`: `l0`})
			}
			return value(M{`l0`: `l0`, `l1`: `l1`, `l2`: `l2`})
		case `l0`, `l1`, `l2`:
			if merge == `unique` {
				return value(L{M{`v`: key}})
			}
			return value(M{`v`: key})
		case `m::k`, `n::k`:
			if merge == `unique` {
				return value(L{M{key[:1]: key[:1]}})
			}
			return value(M{key[:1]: key[:1]})
		}
		return Res{}
	}
	// bad tells if the lookup must fail
	var target string
	var bad func(key string) bool
	all := func(string) bool { return true }
	switch c.What {
	case `data`:
		target, bad = filepath.Join(dir, `data`, fmt.Sprintf(`l%d.%s`, c.At, ext)), all
	case `config`:
		target, bad = filepath.Join(dir, `hiera.yaml`), all
	case `modconfig`:
		target, bad = filepath.Join(dir, `modules/m/hiera.yaml`), func(k string) bool { return k[0] == 'm' }
	case `moddata`:
		target, bad = filepath.Join(dir, `modules/m/data/x.`+ext), func(k string) bool { return k[0] == 'm' }
	case `moddir`:
		target, bad = filepath.Join(dir, `modules`), func(k string) bool { return k == `m::k` || k == `m::x` || k == `n::k` }
	case `vars`:
		target, bad = vars, all
	}
	mode := os.FileMode(0644)
	if c.What == `moddir` {
		mode = 0755
	} else if c.Link && c.What != `config` && c.What != `modconfig` {
		must(os.Rename(target, target+`.real`))
		must(os.Symlink(target+`.real`, target))
		target += `.real`
		if c.Loc == `glob` {
			// The glob must not match the file that the link leads to
			must(os.Remove(target[:len(target)-len(`.real`)]))
			real := filepath.Join(dir, `real`)
			must(os.Rename(target, real))
			must(os.Symlink(real, target[:len(target)-len(`.real`)]))
			target = real
		}
	}

	round := func(s api.Session, state string) error {
		for i, k := range c.Keys {
			what := fmt.Sprintf(`lookup of %s, merge %q, %s (%s, %s)`, k, c.Merge[i], state, c.What, target)
			var got Res
			if c.What == `vars` {
				args := []string{`--config`, filepath.Join(dir, `hiera.yaml`), `--vars`, vars, `--render-as`, `json`}
				if c.Merge[i] != `` {
					args = append(args, `--merge`, c.Merge[i])
				}
				if k == `m::k` || k == `n::k` {
					k = `nope`
				}
				out, err := cli.ExecuteLookup(append(args, k)...)
				if err != nil {
					got.Err = err
				} else if len(out) > 0 {
					v, err := parseJSON(out)
					if err != nil {
						return fmt.Errorf(`%s gives %q`, what, out)
					}
					got = value(v)
				}
			} else {
				got = capture(func() dgo.Value { return lookup(s.Invocation(nil, nil), k, c.Merge[i]) })
			}
			if isRuntime(got.Err) {
				return fmt.Errorf(`%s crashes: %v`, what, got.Err)
			}
			want := good(k, c.Merge[i])
			if state == `unreadable` && bad(k) {
				// A value of higher priority doesn't need the file
				if got.Err == nil && !(c.What == `data` && c.Merge[i] == `` && want.Found && got.same(want) && (k == `k` && c.At > 0 || k == `l0` && c.At > 0 || k == `l1` && c.At > 1)) {
					return fmt.Errorf(`%s is %s, want an error`, what, got)
				}
				continue
			}
			if !got.same(want) {
				return fmt.Errorf(`%s is %s, want %s`, what, got, want)
			}
		}
		return nil
	}
	o := map[string]interface{}{api.HieraRoot: dir, provider.ModulePath: filepath.Join(dir, `modules`), provider.LookupKeyFunctions: []sdk.LookupKey{provider.ConfigLookupKey, provider.ModuleLookupKey}}
	if c.First {
		withSession(provider.MuxLookupKey, o, func(s api.Session) { err = round(s, `before`) })
		if err != nil {
			return
		}
	}
	withSession(provider.MuxLookupKey, o, func(s api.Session) {
		must(os.Chmod(target, 0))
		if asNobody(dir, func() { err = round(s, `unreadable`) }) {
			x.NonTrivial()
			x.Label(`%s`, c.What)
		} else {
			x.Label(`impossible`)
		}
		if err == nil {
			must(os.Chmod(target, mode))
			err = round(s, `repaired`)
		}
	})
	return
}
