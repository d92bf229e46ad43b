package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/alpha"
	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/core"
	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/model"
)

// verdict is what a run has to end with.
type verdict int

const (
	open verdict = iota // either, but cleanly
	ok
	fail
)

func (v verdict) String() string { return []string{"either", "success", "failure"}[v] }

// and: both have to be possible.
func (v verdict) and(w verdict) verdict {
	switch {
	case v == fail || w == fail:
		return fail
	case v == open || w == open:
		return open
	}
	return ok
}

// karg is a kind of argument.
type karg struct {
	name, arg string
	put       func(dir string, d D)
	schema    verdict // as a schema to compare
	dir       bool    // as a directory of source code
	source    verdict // as a source of generate
	dest      verdict // as a destination of generate
}

func put(path, text string) func(string, D) {
	return func(dir string, d D) {
		text := strings.NewReplacer("@TYPE@", gdefs(d)[0], "@SQL@", simpleSQL(d)).Replace(text)
		p := filepath.Join(dir, path)
		_ = os.MkdirAll(filepath.Dir(p), 0o755)
		_ = os.WriteFile(p, []byte(text), 0o644)
	}
}

func simpleSQL(d D) string { return alpha.T(d, "t", "id "+alpha.Vocs[d].Int+" NOT NULL") }

const annotatedSrc = "package m\n\n//ddlctl:table t\ntype T struct {\n\tID int64 `db:\"id\" ddlctl:\"@TYPE@\" pk:\"true\"`\n}\n"

func kargs() []karg {
	mk := func(path string) func(string, D) {
		return func(dir string, d D) { _ = os.MkdirAll(filepath.Join(dir, path), 0o755) }
	}
	ln := func(path, to string) func(string, D) {
		return func(dir string, d D) { _ = os.Symlink(to, filepath.Join(dir, path)) }
	}
	return []karg{
		{"SQL", "a.sql", put("a.sql", "@SQL@"), ok, false, fail, ok},
		{"other SQL", "b.sql", put("b.sql", "-- nothing\n"), ok, false, fail, ok},
		{"empty file", "empty.sql", put("empty.sql", ""), ok, false, fail, ok},
		{"unterminated SQL", "broken.sql", put("broken.sql", "CREATE TABLE t ("), fail, false, fail, ok},
		{"good and broken SQL", "half.sql", put("half.sql", "@SQL@\nCREATE TABLE"), fail, false, fail, ok},
		{"no SQL", "garbage.sql", put("garbage.sql", "HELLO WORLD;\n"), fail, false, fail, ok},
		{"binary", "junk.bin", put("junk.bin", "\x7fELF\x00\x01\x02\xff\xfe"), fail, false, fail, ok},
		{"directory", "dir", put("dir/m.go", annotatedSrc), ok, true, ok, ok},
		{"directory without annotations", "plain", put("plain/m.go", "package m\n"), ok, true, ok, ok},
		{"empty directory", "void", mk("void"), ok, true, ok, ok},
		{"directory with broken source", "bad", put("bad/m.go", annotatedSrc+"\nfunc {\n"), fail, true, fail, ok},
		{"directory whose schema is broken", "odd", put("odd/m.go", strings.ReplaceAll(annotatedSrc, "@TYPE@", "NO SUCH ( TYPE")), fail, true, open, ok},
		{"source file", "m.go", put("m.go", annotatedSrc), fail, false, ok, ok},
		{"source file without annotations", "n.go", put("n.go", "package m\n"), fail, false, open, ok},
		{"broken source file", "o.go", put("o.go", "package m\n\nfunc {\n"), fail, false, fail, ok},
		{"missing", "missing.sql", nil, fail, false, fail, ok},
		{"missing in a directory", "nodir/missing.sql", nil, fail, false, fail, fail},
		{"below a file", "a.sql/b", put("a.sql", "@SQL@"), fail, false, fail, fail},
		{"nothing", "", nil, fail, false, open, fail},
		{"dangling link", "dangling", ln("dangling", "nodir/nothing"), fail, false, fail, fail},
		{"loop", "loop", ln("loop", "loop"), fail, false, fail, fail},
		{"unreachable database", "@DSN@", nil, fail, false, fail, fail},
		{"device", "/dev/null", nil, open, false, fail, open},
		{"long name", strings.Repeat("x", 300), nil, fail, false, fail, fail},
		{"NUL", "a\x00b", nil, fail, false, fail, fail},
	}
}

func unreachable(d D) string {
	switch d {
	case model.MY:
		return "u:p@tcp(127.0.0.1:1)/db"
	case model.SP:
		return "projects/p/instances/i"
	}
	return "postgres://u:p@127.0.0.1:1/db?sslmode=disable&connect_timeout=2"
}

// cli is a run of the real program.
type cli struct {
	args   []string
	env    []string
	lay    []func(string, D)
	d      D // the content of the files is written for it
	stdout string
	want   verdict
	silent bool // nothing may be shown when it fails
}

func (x cli) run() core.Result {
	dir, err := os.MkdirTemp(pool.base, "cli")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	for _, f := range x.lay {
		if f != nil {
			f(dir, x.d)
		}
	}
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	var args []string
	for _, a := range x.args {
		if strings.ContainsRune(a, 0) { // cannot be passed to a program
			return core.Result{Outcome: "not judged: NUL in an argument"}
		}
		args = append(args, strings.ReplaceAll(a, "@DSN@", unreachable(x.d)))
	}
	cmd := exec.CommandContext(ctx, os.Getenv("VERIF_CLI"), args...)
	cmd.Dir = dir
	cmd.Env = append([]string{"PATH=/usr/bin:/bin", "HOME=" + dir, "GOOGLE_APPLICATION_CREDENTIALS=" + dir + "/none"}, x.env...)
	var out, errOut bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errOut
	if x.stdout != "" {
		f, err := os.OpenFile(x.stdout, os.O_WRONLY, 0)
		if err != nil {
			return skip("no " + x.stdout)
		}
		defer f.Close()
		cmd.Stdout = f
	}
	err = cmd.Run()
	code := 0
	var ee *exec.ExitError
	res := core.Result{Trans: 1, Trace: true, States: []string{list(x.args)}}
	bad := func(f string, a ...any) core.Result {
		res.Viol = fmt.Sprintf(f, a...)
		res.Detail = fmt.Sprintf("args: %q\nenv: %q\nexit status: %d\nstandard output:\n%s\nstandard error:\n%s", args, x.env, code, clip(out.String(), 1000), clip(errOut.String(), 2000))
		res.Outcome = "violation"
		return res
	}
	switch {
	case errors.As(err, &ee):
		code = ee.ExitCode()
	case err != nil:
		return skip("cannot be started: " + err.Error())
	}
	res.Outcome = fmt.Sprintf("%s: exit %d, required: %s", x.args[:min(1, len(x.args))], code, x.want)
	switch {
	case ctx.Err() != nil:
		return bad("does not terminate")
	case code < 0:
		return bad("is ended by a signal")
	case strings.Contains(errOut.String(), "goroutine ") || strings.Contains(errOut.String(), "panic:"):
		return bad("crashes: %s", clip(strings.SplitN(errOut.String(), "\n", 2)[0], 100))
	case x.want == ok && code != 0:
		return bad("can do its job, but fails: %s", clip(errOut.String(), 150))
	case x.want == fail && code == 0:
		return bad("cannot do its job, but ends with exit status 0")
	case code != 0 && strings.TrimSpace(errOut.String()) == "":
		return bad("fails without a message")
	case code != 0 && x.silent && strings.Contains(strings.ToUpper(out.String()), "CREATE"):
		return bad("fails, but shows a part of a migration: %s", clip(out.String(), 150))
	}
	return res
}

// choice is a dialect and a language as given on the command line.
type choice struct {
	args  []string
	d     D
	langs verdict
}

func choices() (out []choice) {
	for _, d := range model.Dialects {
		out = append(out, choice{[]string{"--dialect", string(d)}, d, ok})
	}
	return
}

var badDialects = [][]string{nil, {"--dialect", ""}, {"--dialect="}, {"--dialect", "sqlite3"}, {"--dialect", "Postgres"}, {"--dialect", "pg"}, {"--dialect", " mysql"}, {"--dialect", "spanner\n"}, {"--dialect", "postgresql"}}
var badLangs = []string{"", "java", "Go", "golang", " go", "go "}

// required is the verdict on a command with these arguments under a valid dialect.
func required(cmd string, as []karg, goodLang bool) verdict {
	lang := func(reads bool) verdict {
		if reads && !goodLang {
			return fail
		}
		return ok
	}
	switch cmd {
	case "generate", "gen":
		if len(as) < 2 || !goodLang {
			return fail
		}
		v := as[0].source.and(as[1].dest)
		if as[0].arg != "" && as[1].arg == as[0].arg && v == ok { // the destination is the source
			v = open
		}
		if len(as) > 2 && v == ok {
			v = open
		}
		return v
	case "diff":
		if len(as) != 2 {
			return fail
		}
		return as[0].schema.and(as[1].schema).and(lang(as[0].dir || as[1].dir))
	case "show":
		return fail // there is no database
	}
	return fail // apply: neither
}

func c23(c *core.Ctx) {
	ks := kargs()
	c.Rule = fmt.Sprintf("the built program: every command with no, one and two arguments (three: a selection) over %d kinds of argument, under each dialect, %d invalid dialects and %d invalid languages; unknown commands and options, options without a value, help; output that cannot be written; and the commands that reach a database, in process, over the kinds of argument and databases; every run ends in time, without a crash, with success exactly when it can do its job, and with a message otherwise", len(ks), len(badDialects), len(badLangs))
	if os.Getenv("VERIF_CLI") == "" {
		panic("VERIF_CLI is not set")
	}
	n := 0
	run := func(fam string, x cli) {
		n++
		c.Family(fam)
		c.Do(fmt.Sprintf("%s: %q %q as %s", fam, x.args, x.env, x.d)+x.stdout, func() core.Result { return x.run() })
	}
	cmds := []string{"generate", "gen", "diff", "show", "apply"}
	var tuples [][]karg
	tuples = append(tuples, nil)
	for _, a := range ks {
		tuples = append(tuples, []karg{a})
		for _, b := range ks {
			tuples = append(tuples, []karg{a, b})
		}
		tuples = append(tuples, []karg{a, ks[0], ks[1]}, []karg{ks[0], a, ks[2]}, []karg{ks[7], ks[8], a}, []karg{ks[12], ks[15], a})
	}
	of := func(cmd string, opts []string, as []karg) cli {
		x := cli{args: append([]string{cmd}, opts...), silent: cmd == "diff"}
		for _, a := range as {
			x.args = append(x.args, a.arg)
			x.lay = append(x.lay, a.put)
		}
		return x
	}
	for ti, as := range tuples {
		for ci, cmd := range cmds {
			for di, ch := range choices() {
				if !c.Thorough() && len(as) > 1 && (ti+ci+di)%4 != 0 {
					continue
				}
				x := of(cmd, ch.args, as)
				x.d, x.want = ch.d, required(cmd, as, true)
				if len(as) > 0 && cmd == "apply" {
					x.args = append(x.args, "--auto-approve")
				}
				run("arguments", x)
			}
			if len(as) < 2 || ti%3 == 0 || c.Thorough() {
				b := badDialects[(ti+ci)%len(badDialects)]
				x := of(cmd, b, as)
				x.d, x.want = model.PG, fail
				run("invalid dialects", x)
				if cmd != "show" {
					x := of(cmd, []string{"--dialect", "mysql", "--lang", badLangs[(ti+ci)%len(badLangs)]}, as)
					x.d, x.want = model.MY, required(cmd, as, false)
					run("invalid languages", x)
				}
			}
		}
	}
	// every invalid dialect and language where everything else is in order
	for _, b := range badDialects {
		for _, as := range [][]karg{{ks[0], ks[1]}, {ks[0], ks[0]}, {ks[2], ks[2]}, {ks[7], ks[7]}, {ks[7], ks[15]}, {ks[8], ks[9]}, {ks[12], ks[15]}, {ks[9], ks[15]}} {
			for _, cmd := range []string{"generate", "diff"} {
				for _, env := range [][]string{nil, {"DDLCTL_DIALECT=oracle"}} {
					x := of(cmd, b, as)
					x.d, x.want, x.env = model.PG, fail, env
					run("invalid dialects", x)
				}
			}
		}
	}
	for _, l := range badLangs {
		for _, ch := range choices() {
			for _, as := range [][]karg{{ks[7], ks[15]}, {ks[12], ks[15]}, {ks[9], ks[15]}, {ks[2], ks[7]}, {ks[7], ks[2]}, {ks[8], ks[9]}} {
				for _, cmd := range []string{"generate", "diff"} {
					x := of(cmd, append(ch.args, "--lang", l), as)
					x.d, x.want = ch.d, required(cmd, as, false)
					run("invalid languages", x)
				}
			}
		}
	}
	// command lines
	two := []karg{ks[0], ks[2]}
	line := func(want verdict, env []string, args ...string) {
		x := cli{args: args, env: env, d: model.PG, want: want, lay: []func(string, D){ks[0].put, ks[2].put, ks[7].put}}
		run("command lines", x)
	}
	_ = two
	for _, root := range [][]string{nil, {"--debug"}, {"--trace"}, {"--debug=false"}} {
		l := func(want verdict, env []string, args ...string) {
			line(want, env, append(append([]string(nil), root...), args...)...)
		}
		l(open, nil)
		l(ok, nil, "version")
		l(ok, nil, "--help")
		for _, cmd := range append(cmds, "version") {
			l(ok, nil, cmd, "--help")
			l(fail, nil, cmd, "--bogus")
			l(fail, nil, cmd, "--bogus=1", "a.sql", "empty.sql")
			if cmd == "version" {
				continue
			}
			l(fail, nil, cmd, "a.sql", "empty.sql", "--dialect")
			l(fail, nil, cmd, "--dialect", "postgres", "--debug=maybe", "a.sql", "empty.sql")
			l(fail, []string{"DDLCTL_DEBUG=maybe"}, cmd, "--dialect", "postgres", "dir", "out.sql")
			l(fail, []string{"DDLCTL_TRACE=2"}, cmd, "--dialect", "postgres", "dir", "out.sql")
			if cmd != "apply" {
				l(fail, nil, cmd, "--dialect", "postgres", "--auto-approve", "a.sql", "empty.sql")
			}
			if cmd == "show" {
				l(fail, nil, cmd, "--lang", "go", "--dialect", "postgres", "x")
			}
		}
		l(ok, nil, "diff", "--dialect", "postgres", "--", "a.sql", "empty.sql")
		l(fail, nil, "diff", "--dialect", "postgres", "--", "a.sql", "empty.sql", "--dialect")
		l(ok, []string{"DDLCTL_DIALECT=mysql"}, "diff", "--dialect", "postgres", "a.sql", "empty.sql")
		l(ok, []string{"DDLCTL_DIALECT=postgres"}, "diff", "a.sql", "empty.sql")
		for _, w := range []string{"nosuch", "aply", "Generate", "generat", "dif", "help", "a.sql", "--nosuch", "-x", "GEN", "shows"} {
			l(fail, nil, w)
			l(fail, nil, w, "--dialect", "postgres", "a.sql", "empty.sql")
			l(fail, nil, w, "a.sql")
		}
	}
	// output that cannot be written
	for _, ch := range choices() {
		for _, as := range [][]karg{{ks[0], ks[2]}, {ks[2], ks[0]}, {ks[7], ks[2]}, {ks[2], ks[7]}} {
			x := of("diff", ch.args, as)
			x.d, x.want, x.stdout = ch.d, fail, "/dev/full"
			run("output", x)
		}
		x := of("generate", ch.args, []karg{ks[7], {arg: "/dev/full"}})
		x.d, x.want = ch.d, fail
		run("output", x)
	}
	c23DB(c, ks)
}

// c23DB: runs that reach a database, in process.
func c23DB(c *core.Ctx, ks []karg) {
	type side struct {
		name, arg string
		good      verdict
		db        bool
		files     map[string]string
	}
	for _, d := range model.Dialects {
		d := d
		other := model.MY
		if d == model.MY {
			other = model.SP
		}
		good := v22DB(d)
		dbs := map[string]DBSpec{dsn[d]: {D: d, Text: good}, dsn[d] + "x": {D: d, Text: ""}, "wrong-kind": {D: other, Text: ""}}
		src := strings.ReplaceAll(annotatedSrc, "@TYPE@", gdefs(d)[0])
		sides := []side{
			{"database", dsn[d], ok, true, nil},
			{"empty database", dsn[d] + "x", ok, true, nil},
			{"database of another kind", "wrong-kind", fail, false, nil},
			{"unknown database", "unknown", fail, false, nil},
			{"no name", "", fail, false, nil},
			{"SQL", "a.sql", ok, false, map[string]string{"a.sql": simpleSQL(d)}},
			{"empty SQL", "empty.sql", ok, false, map[string]string{"empty.sql": ""}},
			{"broken SQL", "broken.sql", fail, false, map[string]string{"broken.sql": "CREATE TABLE t ("}},
			{"directory", "dir", ok, false, map[string]string{"dir/m.go": src}},
			{"broken directory", "bad", fail, false, map[string]string{"bad/m.go": src + "\nfunc {\n"}},
			{"missing", "missing.sql", fail, false, nil},
		}
		do := func(fam string, want verdict, args []string, env map[string]string, stdin string, ss ...side) {
			j := &Job{Args: args, Env: env, Files: map[string]string{}, DBs: dbs, Stdin: stdin}
			for _, s := range ss {
				for n, t := range s.files {
					j.Files[n] = t
				}
			}
			c.Family(fam)
			c.Do(fmt.Sprintf("%s: %s %v %q", fam, list(args), env, stdin), func() core.Result {
				r := pool.Run(j)
				res := core.Result{Outcome: fmt.Sprintf("%s err=%v, required: %s", args[0], r.Err != "", want), Trans: 1, Trace: true, Detail: "output:\n" + r.Out + "\nerror: " + r.Err + "\nlog: " + history(r)}
				if r.LoadErr != "" {
					return skip("not a database content: " + r.LoadErr)
				}
				switch x := abnormal(r); {
				case x != "":
					res.Viol = x
				case want == ok && r.Err != "":
					res.Viol = "can do its job, but fails: " + clip(r.Err, 150)
				case want == fail && r.Err == "":
					res.Viol = "cannot do its job, but reports success"
				}
				return res
			})
		}
		dargs := []string{"--dialect", string(d)}
		for ai, a := range sides {
			for k := 0; k < 3; k++ {
				args := append([]string{"show"}, dargs...)
				for m := 0; m < k; m++ {
					args = append(args, sides[(ai+m)%len(sides)].arg)
				}
				want := fail
				if k > 0 && a.db {
					want = ok
				}
				if k > 1 && want == ok {
					want = open
				}
				do("databases: show", want, args, nil, "", a)
			}
			for _, bd := range badDialects[1:] {
				do("databases: invalid dialects", fail, append(append([]string{"show"}, bd...), a.arg), nil, "", a)
				for _, b := range sides {
					do("databases: invalid dialects", fail, append(append([]string{"apply", "--auto-approve"}, bd...), a.arg, b.arg), nil, "", a, b)
					do("databases: invalid dialects", fail, append(append([]string{"diff"}, bd...), a.arg, b.arg), nil, "", a, b)
				}
			}
			for _, b := range sides {
				do("databases: diff", a.good.and(b.good), append(append([]string{"diff"}, dargs...), a.arg, b.arg), nil, "", a, b)
				want := a.good.and(b.good)
				if !a.db {
					want = fail
				}
				do("databases: apply", want, append(append([]string{"apply"}, dargs...), a.arg, b.arg, "--auto-approve"), nil, "", a, b)
				no := want
				if want == ok {
					no = fail
					if a.arg == b.arg || a.name == "empty database" && b.name == "empty SQL" {
						no = ok // nothing to approve
					}
				}
				do("databases: apply", no, append(append([]string{"apply"}, dargs...), a.arg, b.arg), nil, "no\n", a, b)
				do("databases: apply", want, append(append([]string{"apply"}, dargs...), a.arg, b.arg), nil, "yes\n", a, b)
				do("databases: number of arguments", fail, append(append([]string{"apply", "--auto-approve"}, dargs...), a.arg, b.arg, b.arg), nil, "", a, b)
				do("databases: number of arguments", fail, append(append([]string{"diff"}, dargs...), a.arg, b.arg, b.arg), nil, "", a, b)
				for _, l := range badLangs {
					want := want
					if b.name == "directory" {
						want = fail
					}
					do("databases: languages", want, append(append([]string{"apply", "--auto-approve"}, dargs...), "--lang", l, a.arg, b.arg), nil, "", a, b)
				}
			}
			do("databases: number of arguments", fail, append(append([]string{"apply", "--auto-approve"}, dargs...), a.arg), nil, "", a)
			do("databases: number of arguments", fail, append(append([]string{"diff"}, dargs...), a.arg), nil, "", a)
		}
		do("databases: number of arguments", fail, append([]string{"apply", "--auto-approve"}, dargs...), nil, "")
	}
}
