package harness

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/cli"
	"github.com/lyraproj/hiera/hiera"
	"pgregory.net/rapid"
)

type cliCase struct {
	W       World  `json:"w"`
	C       Cmd    `json:"c"`
	Dialect string `json:"dialect"` // default, pcore, dgo or something else
	Cwd     bool   `json:"cwd"`     // the configuration is in the current directory
	Equals  bool   `json:"equals"`  // use --flag=value
	Stdin   bool   `json:"stdin"`   // the last vars or facts file is stdin
	KeysAt  int    `json:"keysat"`
}

func genCliCase(t *rapid.T) cliCase {
	c := cliCase{W: genCmdWorld(t), Dialect: pick(t, `dialect`, ``, ``, `pcore`, `dgo`, `dgo`)}
	faulty := chance(t, 3, `faulty`)
	if faulty && chance(t, 1, `baddialect`) {
		c.Dialect = pick(t, `bd`, `PCORE`, `ruby`)
	}
	pcore := c.Dialect != `dgo`
	c.C.Vars = genCmdVars(t, &c.W, pcore, faulty)
	for i := rapid.IntRange(0, 3).Draw(t, `nfiles`); i > 0; i-- {
		if rapid.Bool().Draw(t, `facts`) {
			c.C.FactFiles = append(c.C.FactFiles, genCFile(t, genFileName(t, `facts`, i), faulty))
		} else {
			c.C.VarFiles = append(c.C.VarFiles, genCFile(t, genFileName(t, `vars`, i), faulty))
		}
	}
	n := pick(t, `nkeys`, 1, 1, 1, 2, 3)
	for i := 0; i < n; i++ {
		c.C.Keys = append(c.C.Keys, genCmdKey(t, faulty))
	}
	if chance(t, 4, `hasdefault`) {
		l := genLit(t, pcore, faulty)
		if chance(t, 3, `emptydefault`) {
			l = Lit{Val: Val{``}}
		}
		c.C.Default = &l
	}
	c.C.Merge = genMergeName(t, faulty)
	if chance(t, 3, `hastype`) {
		c.C.Type = genCmdType(t, pcore, faulty)
	}
	c.C.RenderAs = pick(t, `render`, ``, ``, `json`, `yaml`, `s`, `json`)
	if faulty && chance(t, 3, `badrender`) {
		c.C.RenderAs = pick(t, `brender`, `binary`, `nosuch`, `JSON`)
	}
	c.C.All = chance(t, 3, `all`)
	if c.C.All && c.C.Type != `` && chance(t, 7, `structtype`) {
		if pcore {
			c.C.Type = `Struct[{'k0' => Any, 'k1' => Any, 'k2' => String}]`
		} else {
			c.C.Type = `{k0: any, k1: any, k2: string}`
		}
	}
	if chance(t, 2, `explains`) {
		c.C.Explain, c.C.ExplainOpts = rapid.Bool().Draw(t, `explain`), rapid.Bool().Draw(t, `explainoptions`)
	}
	for i, k := range c.C.Keys {
		if c.C.Explain && k == `env.VERIF_ENV` {
			// The explanation has the entire environment, which is not the same in the program
			c.C.Keys[i] = `env::VERIF_ENV`
		}
	}
	c.Cwd, c.Equals, c.Stdin = rapid.Bool().Draw(t, `cwd`), rapid.Bool().Draw(t, `equals`), chance(t, 3, `stdin`)
	c.KeysAt = rapid.IntRange(0, 20).Draw(t, `keysat`)
	return c
}

func (c *cliCase) args(dir string) (args []string, stdin string) {
	var flags [][]string
	add := func(name, value string) {
		if c.Equals {
			flags = append(flags, []string{`--` + name + `=` + value})
		} else {
			flags = append(flags, []string{`--` + name, value})
		}
	}
	vdir := filepath.Join(dir, `vars`)
	files := func(flag string, fs []CFile) {
		for i := range fs {
			p := fs[i].write(vdir)
			if c.Stdin && stdin == `` && fs[i].Kind != `missing` && i == len(fs)-1 {
				stdin = p
				p = `-`
			}
			add(flag, p)
		}
	}
	for i := range c.C.Vars {
		add(`var`, c.C.Vars[i].text())
	}
	files(`vars`, c.C.VarFiles)
	files(`facts`, c.C.FactFiles)
	if c.C.Default != nil {
		add(`default`, c.C.Default.Text)
	}
	if c.C.Merge != `` {
		add(`merge`, c.C.Merge)
	}
	if c.C.Type != `` {
		add(`type`, c.C.Type)
	}
	if c.C.RenderAs != `` {
		add(`render-as`, c.C.RenderAs)
	}
	if c.Dialect != `` {
		add(`dialect`, c.Dialect)
	}
	if !c.Cwd {
		add(`config`, filepath.Join(dir, `hiera.yaml`))
	}
	if c.C.All {
		flags = append(flags, []string{`--all`})
	}
	if c.C.Explain {
		flags = append(flags, []string{`--explain`})
	}
	if c.C.ExplainOpts {
		flags = append(flags, []string{`--explain-options`})
	}
	// The keys may be anywhere between the flags
	at := c.KeysAt % (len(flags) + 1)
	for i, f := range flags {
		if i == at {
			args = append(args, c.C.Keys...)
		}
		args = append(args, f...)
	}
	if at == len(flags) {
		args = append(args, c.C.Keys...)
	}
	return
}

// expectation is what the command should do
func (c *cliCase) expectation(dir string) CmdRes {
	o := map[string]interface{}{api.HieraDialect: `pcore`, api.HieraConfig: filepath.Join(dir, `hiera.yaml`)}
	if c.Dialect != `` {
		o[api.HieraDialect] = c.Dialect
	}
	render := hiera.RenderName(c.C.RenderAs)
	if render == `` {
		render = hiera.YAML
		if c.C.Explain || c.C.ExplainOpts {
			render = hiera.Text
		}
	}
	return c.C.expected(o, render)
}

func (c *cliCase) judge(x *X, got, want CmdRes) error {
	if want.Err == errUnsureLit {
		x.Label(`unsure`)
		return nil
	}
	if isRuntime(want.Err) {
		// An odd conversion by a third party
		x.Label(`runtime error`)
		if got.Err == nil {
			return fmt.Errorf("the command prints %q but the lookup fails: %v", got.Out, want.Err)
		}
		return nil
	}
	switch {
	case want.Err != nil:
		x.Label(`error`)
		if got.Err == nil {
			return fmt.Errorf("the command prints %q but should fail: %v", got.Out, want.Err)
		}
		if isRuntime(got.Err) {
			return fmt.Errorf("the command crashes: %v\nexpected %v", got.Err, want.Err)
		}
	case got.Err != nil:
		return fmt.Errorf("the command fails: %v\nexpected %s", got.Err, want)
	case !bytes.Equal(got.Out, want.Out) && !c.otherOrder(got.Out, want.Out):
		return fmt.Errorf("the command prints\n%q\nexpected\n%q", got.Out, want.Out)
	case want.Found:
		x.Label(`found`)
		x.NonTrivial()
	default:
		x.Label(`not found`)
	}
	if len(c.C.VarFiles)+len(c.C.FactFiles) > 0 {
		x.Label(`files`)
	}
	if len(c.C.Vars) > 0 {
		x.Label(`vars`)
	}
	return nil
}

// otherOrder returns true if two outputs differ only in the order of the entries of the facts hash. Nothing says in what
// order the entries of several files are.
func (c *cliCase) otherOrder(a, b []byte) bool {
	if len(c.C.FactFiles) == 0 || !strings.Contains(strings.Join(c.C.Keys, ` `), `facts`) {
		return false
	}
	if !c.C.Explain && !c.C.ExplainOpts && c.C.RenderAs != `s` {
		va, ea := parseYAML(a)
		vb, eb := parseYAML(b)
		if ea != nil || eb != nil || !eq(va, vb) {
			return false
		}
	}
	order := func(s []byte) string {
		cs := strings.Split(string(s), ``)
		sort.Strings(cs)
		return strings.Join(cs, ``)
	}
	return order(a) == order(b)
}

func runCliInProcess(x *X, c cliCase) error {
	c.Cwd, c.Stdin = false, false
	dir := x.Dir()
	c.W.write(dir)
	args, _ := c.args(dir)
	want := c.expectation(dir)
	out, err := cli.ExecuteLookup(args...)
	if e := c.judge(x, CmdRes{Out: out, Err: err}, want); e != nil {
		return fmt.Errorf("lookup %q: %v", args, e)
	}
	return nil
}

func runCliProcess(x *X, c cliCase) error {
	dir := x.Dir()
	c.W.write(dir)
	args, stdin := c.args(dir)
	want := c.expectation(dir)
	ctx, cancel := context.WithTimeout(context.Background(), 40*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, filepath.Join(os.Getenv(`VERIF_BIN`), `lookup`), args...)
	cmd.Dir = dir
	if !c.Cwd {
		cmd.Dir = filepath.Join(dir, `elsewhere`)
		must(os.MkdirAll(cmd.Dir, 0755))
	}
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	if stdin != `` {
		f, err := os.Open(stdin)
		must(err)
		defer f.Close()
		cmd.Stdin = struct{ io.Reader }{f} // a pipe
		x.Label(`stdin`)
	}
	err := cmd.Run()
	if err != nil {
		ee, ok := err.(*exec.ExitError)
		if !ok || ctx.Err() != nil {
			must(fmt.Errorf(`cannot run lookup: %v %v`, err, ctx.Err()))
		}
		if ee.ExitCode() < 0 || bytes.Contains(errs.Bytes(), []byte("goroutine ")) {
			return fmt.Errorf("lookup %q crashes: %v\n%s", args, err, head(errs.String(), 1000))
		}
		if errs.Len() == 0 {
			return fmt.Errorf("lookup %q fails with %v and no message", args, err)
		}
		err = fmt.Errorf(`%v: %s`, err, head(errs.String(), 500))
	}
	if e := c.judge(x, CmdRes{Out: out.Bytes(), Err: err}, want); e != nil {
		return fmt.Errorf("lookup %q: %v", args, e)
	}
	return nil
}

func init() {
	register(&Property{
		ID: `C21`,
		Rule: `Random command lines (keys, --var, --vars, --facts, --default, --merge, --type, --render-as, --all, --explain, --explain-options,
--dialect, --config or the current directory, in both flag syntaxes, with the keys anywhere) are executed over random hierarchies that depend on
variables, by cli.ExecuteLookup and by the lookup program, which may also read a file from stdin. What is printed, and whether the command
fails, is compared with a library lookup in the scope that an independent model computes from the variables and files. Non-trivial when a value is
found.`,
		Subs: []subCheck{
			Spec[cliCase]{Name: `inprocess`, Quick: 2500, Thorough: 80000, Gen: genCliCase, Run: runCliInProcess},
			Spec[cliCase]{Name: `process`, Quick: 250, Thorough: 8000, Gen: genCliCase, Run: runCliProcess},
			Spec[cliCase]{Name: `large`, Quick: 60, Thorough: 1200, Gen: genLargeCli, Run: runCliProcess},
			Spec[cliCase]{Name: `large-inprocess`, Quick: 60, Thorough: 1200, Gen: genLargeCli, Run: runCliInProcess},
		},
	})
}
