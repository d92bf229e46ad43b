package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/core"
	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/model"
)

// entry is one thing that may lie in a source tree.
type entry struct {
	path  string
	text  string
	link  string   // a symbolic link
	want  []string // what it declares
	alone []string // what it declares when it is named as the source itself, if that differs
	fails bool     // it has to be read and cannot be
}

func (e entry) file() bool { return !strings.HasSuffix(e.path, "/") }

// unit is an annotated file that declares a table and an index of its own.
func unit(n string) (text string, want []string) {
	up := strings.ToUpper(n[:1]) + n[1:]
	text = fmt.Sprintf("package p%s\n\n// %s is a type.\n//\n//ddlctl:table %s\n//ddlctl:index i%s ON %s (id)\ntype %s struct {\n\tID int64 `db:\"id\" ddlctl:\"INT64 NOT NULL\" pk:\"true\"`\n}\n", n, up, n, n, n, up)
	return text, []string{n}
}

func entries() (out []entry) {
	n := 0
	name := func() string { n++; return fmt.Sprintf("u%d", n) }
	good := func(paths ...string) {
		for _, p := range paths {
			t, w := unit(name())
			out = append(out, entry{path: p, text: t, want: w})
		}
	}
	ignored := func(paths ...string) {
		for _, p := range paths {
			t, w := unit(name())
			out = append(out, entry{path: p, text: t, alone: w})
		}
	}
	form := func(p string, f func(string) string) {
		t, w := unit(name())
		out = append(out, entry{path: p, text: f(t), want: w})
	}
	good("a.go", "b.go", "sub/a.go", "sub/b.go", "sub/deep/a.go", "sub/deep/deeper/deepest/z.go", "e.go/f.go", "e_test.go/g.go", "contest.go", "test.go", "a_tests.go", "x_test.go.go", "a_windows.go", "a_linux_arm.go", ".hidden.go", "_under.go", "vendor/v.go", "testdata/t.go", ".git/h.go", "_x/y.go", "node_modules/m.go", "sp ace.go", "日本.go", "zz/main.go", "internal/doc.go")
	ignored("a_test.go", "sub/x_test.go", "_test.go", "sub/deep/y_test.go", "notes.txt", "a.go.bak", "sub/c.GO", "xgo", "go", "sub/a.go~", "a.gox", "a.go.tmpl", "noext")
	form("generated.go", func(t string) string { return "// Code generated by x; DO NOT EDIT.\n\n" + t })
	form("ignored_by_build.go", func(t string) string { return "//go:build ignore\n\n" + t })
	form("crlf.go", func(t string) string { return strings.ReplaceAll(t, "\n", "\r\n") })
	form("bom.go", func(t string) string { return "\ufeff" + t })
	form("noeol.go", func(t string) string { return strings.TrimRight(t, "\n") })
	form("twice.go", func(t string) string { return t + "\n// Other is not annotated.\ntype Other struct{ ID int64 }\n" })
	form("undefined.go", func(t string) string { return t + "\nvar _ = undefined.Thing(1, \"x\")\n" })
	form("long.go", func(t string) string {
		return t + "\n/*\n" + strings.Repeat("This is a long comment.\n", 4000) + "*/\n"
	})
	plain := func(p, t string) { out = append(out, entry{path: p, text: t}) }
	plain("plain.go", "package p\n\n// T is a type.\ntype T struct {\n\tID int64 `db:\"id\"`\n}\n")
	plain("only.go", "package p\n")
	plain("sub/fields.go", "package p\n\ntype T struct {\n\tID int64 `db:\"id\" ddlctl:\"INT64 NOT NULL\" pk:\"true\"`\n}\n")
	t, _ := unit("other")
	plain("other_tag.go", strings.ReplaceAll(t, "ddlctl", "otherddl"))
	plain("dir/", "")
	plain("dir.go/", "")
	plain("broken_test.go", "package p\n\nfunc {\n")
	plain("broken.txt", "package p\n\nfunc {\n")
	fails := func(p, t string) { out = append(out, entry{path: p, text: t, fails: true}) }
	t, _ = unit(name())
	fails("broken.go", t+"\nfunc {\n")
	fails("sub/early.go", "func {\n"+t)
	fails("broken_plain.go", "package p\n\nfunc {\n")
	fails("empty.go", "")
	fails("sub/deep/binary.go", "\x7fELF\x00\x00package p\n")
	fails("unterminated.go", t+"\n/* and so on\n")
	t, w := unit(name())
	out = append(out, entry{path: "link.go", link: "../outside.go", text: t, want: w})
	out = append(out, entry{path: "sub/dangling.go", link: "../../missing.go", fails: true})
	return out
}

type arg struct {
	name string
	root string // where the tree lies
	arg  string
	cwd  string
	link string
}

var dirArgs = []arg{
	{"name", "src", "src", "", ""},
	{"name/", "src", "src/", "", ""},
	{"./name", "src", "./src", "", ""},
	{"name//.", "src", "src//.", "", ""},
	{"up and down", "src", "src/../src", "", ""},
	{"absolute", "src", "@DIR@/src", "", ""},
	{"dot", "src", ".", "src", ""},
	{"..", "src", "..", "src/inner", ""},
	{"deep", "x/y/src", "x/y/src", "", ""},
	{"from elsewhere", "src", "../src", "cwd", ""},
	{"link", "real", "src", "", "real"},
	{"link/", "real", "src/", "", "real"},
	{"name.go", "src.go", "src.go", "", ""},
	{"name_test.go", "src_test.go", "src_test.go", "", ""},
	{".name", ".src", ".src", "", ""},
	{"vendor", "vendor", "vendor", "", ""},
	{"space", "s r c", "s r c", "", ""},
}

// dest is a destination of generate.
type dest struct {
	name, arg, keep string
	files           map[string]string
	missing         bool
}

var old = "CREATE TABLE old_content (id INT64);\n" + strings.Repeat("-- a line of the old content\n", 400)

var dests = []dest{
	{"new file", "out.sql", "out.sql", nil, false},
	{"longer file", "out.sql", "out.sql", map[string]string{"out.sql": old}, false},
	{"directory", "out", "out/ddlctl.gen.sql", map[string]string{"out/": ""}, false},
	{"directory/", "out/", "out/ddlctl.gen.sql", map[string]string{"out/": ""}, false},
	{"directory with old content", "out", "out/ddlctl.gen.sql", map[string]string{"out/ddlctl.gen.sql": old, "out/other.sql": "x"}, false},
	{"missing directory", "none/out.sql", "none/out.sql", nil, true},
	{"below a file", "file/out.sql", "file/out.sql", map[string]string{"file": "x"}, true},
}

// lay puts the entries into a tree; conflicting ones are refused.
func lay(d D, j *Job, root string, es []entry) bool {
	for i, e := range es {
		p := root + "/" + e.path
		text := strings.ReplaceAll(e.text, "INT64 NOT NULL", gdefs(d)[0])
		for _, f := range es[:i] {
			a, b := strings.TrimSuffix(e.path, "/"), strings.TrimSuffix(f.path, "/")
			if strings.HasPrefix(a+"/", b+"/") || strings.HasPrefix(b+"/", a+"/") {
				return false
			}
		}
		if e.link == "" {
			j.Files[p] = text
			continue
		}
		j.Links[p] = e.link
		if !e.fails {
			up := root
			if i := strings.LastIndexByte(root, '/'); i >= 0 {
				up = root[:i+1]
			} else {
				up = ""
			}
			j.Files[up+strings.TrimPrefix(e.link, "../")] = text
		}
	}
	return true
}

// declared reads which units a generated text holds, each with its table and its index exactly once.
func declared(d D, text string, want []string) string {
	ss, err := split(d, text)
	if err != nil {
		return "the generated text is not a sequence of statements: " + err.Error()
	}
	var got, exp []string
	for _, s := range ss {
		got = append(got, strings.Join(s.Toks[:min(4, len(s.Toks))], " "))
	}
	for _, w := range want {
		exp = append(exp, "CREATE TABLE "+w+" (", "CREATE INDEX i"+w+" ON")
	}
	sort.Strings(got)
	sort.Strings(exp)
	if m := without1(exp, got); len(m) > 0 {
		return "not generated: " + list(m)
	}
	if m := without1(got, exp); len(m) > 0 {
		return "generated without a source, or more than once: " + list(m)
	}
	return ""
}

func c18Case(d D, es []entry, a arg, ds dest, diffToo bool) core.Result {
	j := &Job{Files: map[string]string{}, Links: map[string]string{}, Cwd: a.cwd, Keep: ds.keep}
	if !lay(d, j, a.root, es) {
		return skip("entries exclude each other")
	}
	j.Files[a.root+"/"] = ""
	if a.link != "" {
		j.Links["src"] = a.link
	}
	if a.cwd != "" {
		j.Files[a.cwd+"/"] = ""
	}
	for n, c := range ds.files {
		j.Files[n] = c
	}
	j.Args = []string{"generate", "--dialect", string(d), a.arg, "@DIR@/" + ds.arg}
	j.Files["empty.sql"] = "\n"
	j.Then = []Job{{Cwd: a.cwd, Args: []string{"diff", "--dialect", string(d), "@DIR@/empty.sql", a.arg}}}
	var want []string
	fails := false
	var names []string
	for _, e := range es {
		want = append(want, e.want...)
		fails = fails || e.fails
		names = append(names, e.path)
	}
	return c18Judge(d, j, want, fails, ds, names, diffToo)
}

func c18Judge(d D, j *Job, want []string, fails bool, ds dest, names []string, diffToo bool) core.Result {
	if !diffToo {
		j.Then = nil
	}
	r := pool.Run(j)
	res := core.Result{Outcome: fmt.Sprintf("err=%v", r.Err != ""), States: []string{list(names)}, Trans: 1 + len(j.Then), Trace: true,
		Detail: "tree: " + list(names) + "\nargs: " + list(j.Args) + "\nerror: " + r.Err + "\ngenerated:\n" + clip(r.Kept, 1500)}
	bad := func(f string, a ...any) core.Result {
		res.Viol = fmt.Sprintf(f, a...)
		return res
	}
	if x := abnormal(r); x != "" {
		return bad("%s", x)
	}
	if fails || ds.missing {
		if r.Err == "" {
			return bad("success is reported although the source cannot be read or the result cannot be written")
		}
		before, had := ds.files[ds.keep]
		if had && r.Kept != before {
			return bad("a failed run changes the destination")
		}
		if !had && !r.NoFile && strings.Contains(strings.ToUpper(r.Kept), "CREATE") {
			return bad("a failed run writes a partial schema")
		}
	} else {
		if r.Err != "" {
			return bad("generate fails: %s", clip(r.Err, 200))
		}
		if r.NoFile {
			return bad("success is reported and nothing is written")
		}
		if x := declared(d, r.Kept, want); x != "" {
			return bad("%s", x)
		}
	}
	for i := range r.Then {
		t := &r.Then[i]
		if x := abnormal(t); x != "" {
			return bad("diff: %s", x)
		}
		if fails != (t.Err != "") {
			return bad("diff from nothing to the source: error %q", clip(t.Err, 200))
		}
		if !fails {
			if x := declared(d, t.Out, want); x != "" {
				return bad("diff from nothing to the source: %s", x)
			}
		} else if t.Out != "" {
			return bad("a failing diff shows statements: %s", clip(t.Out, 200))
		}
	}
	return res
}

func c18(c *core.Ctx) {
	es := entries()
	c.Rule = fmt.Sprintf("all trees of up to 2 and half of those of 3 (thorough: all of up to 4) of %d entries (annotated, ignored, other kinds, broken, empty, linked; at several depths), read through %d ways of naming the directory, and every entry named as the source itself among neighbours; %d destinations; what is generated must be exactly the units declared by the files to be read, each once, and a run that cannot read one of them must fail and leave the destination alone; diff on the same directory must agree", len(es), len(dirArgs), len(dests))
	n := 0
	do := func(fam string, sel []entry, a arg, ds dest, diffToo bool) {
		var names []string
		for _, e := range sel {
			names = append(names, e.path)
		}
		d := model.Dialects[n%len(model.Dialects)]
		n++
		c.Family(fam)
		c.Do(fmt.Sprintf("%s: %s as %s to %s (%s)", fam, list(names), a.name, ds.name, d), func() core.Result { return c18Case(d, sel, a, ds, diffToo) })
	}
	// trees
	for i := -1; i < len(es); i++ {
		for k := i; k < len(es); k++ {
			if k == i && i >= 0 {
				continue
			}
			var sel []entry
			if i >= 0 {
				sel = append(sel, es[i])
			}
			if k >= 0 {
				sel = append(sel, es[k])
			}
			for _, a := range dirArgs {
				if c.Thorough() || len(sel) < 2 || n%3 == 0 {
					do("trees by argument", sel, a, dests[0], len(sel) < 2)
				} else {
					n++
				}
			}
			for _, ds := range dests {
				do("destinations", sel, dirArgs[n%len(dirArgs)], ds, false)
			}
			if len(sel) < 2 {
				continue
			}
			for l := k + 1; l < len(es); l++ {
				if !c.Thorough() && (i+k+l)%2 == 1 {
					continue
				}
				s3 := append(append([]entry(nil), sel...), es[l])
				do("trees of three", s3, dirArgs[n%len(dirArgs)], dests[n%2], false)
				if c.Thorough() {
					for m := l + 1; m < len(es); m++ {
						do("trees of four", append(append([]entry(nil), s3...), es[m]), dirArgs[n%len(dirArgs)], dests[n%2], false)
					}
				}
			}
		}
	}
	// files named as the source
	for i, e := range es {
		if !e.file() {
			continue
		}
		for k := range es {
			for ai, form := range []string{"src/%s", "./src/%s", "@DIR@/src/%s", "src//%s", "link.x"} {
				e, o, d := e, es[k], model.Dialects[(i+k+ai)%len(model.Dialects)]
				a := form
				if strings.Contains(form, "%") {
					a = fmt.Sprintf(form, e.path)
				}
				for _, ds := range dests[:2] {
					ds := ds
					c.Family("files")
					c.Do(fmt.Sprintf("files: %s beside %s to %s (%s)", a+" "+e.path, o.path, ds.name, d), func() core.Result {
						j := &Job{Files: map[string]string{}, Links: map[string]string{}, Keep: ds.keep, Args: []string{"generate", "--dialect", string(d), a, ds.arg}}
						sel := []entry{e}
						if o.path != e.path {
							sel = append(sel, o)
						}
						if !lay(d, j, "src", sel) {
							return skip("entries exclude each other")
						}
						if a == "link.x" {
							j.Links["link.x"] = "src/" + e.path
						}
						for n, c := range ds.files {
							j.Files[n] = c
						}
						want := append(append([]string(nil), e.want...), e.alone...)
						if len(want) == 0 && !e.fails { // nothing is declared: refused or empty
							return c18Nothing(d, j, ds)
						}
						return c18Judge(d, j, want, e.fails, ds, []string{e.path, o.path}, false)
					})
				}
			}
		}
	}
	// no source at all
	for _, d := range model.Dialects {
		for _, a := range []string{"missing", "missing/", "missing.go", "src/missing.go", "src/a.go/b.go", "dangling", "loop"} {
			for _, ds := range dests {
				d, a, ds := d, a, ds
				c.Family("missing sources")
				c.Do(fmt.Sprintf("missing: %s to %s (%s)", a, ds.name, d), func() core.Result {
					j := &Job{Files: map[string]string{}, Links: map[string]string{"dangling": "nowhere", "loop": "loop"}, Keep: ds.keep, Args: []string{"generate", "--dialect", string(d), a, ds.arg}}
					lay(d, j, "src", entries()[:2])
					for n, c := range ds.files {
						j.Files[n] = c
					}
					return c18Judge(d, j, nil, true, ds, []string{a}, false)
				})
			}
		}
	}
}

// c18Nothing: a file that declares nothing generates no statement, whether or not it is refused.
func c18Nothing(d D, j *Job, ds dest) core.Result {
	r := pool.Run(j)
	res := core.Result{Outcome: "nothing declared", Trans: 1, Trace: true, Detail: list(j.Args) + "\n" + r.Err + "\n" + clip(r.Kept, 500)}
	if x := abnormal(r); x != "" {
		res.Viol = x
	} else if r.Err != "" {
		if before, had := ds.files[ds.keep]; had && before != r.Kept {
			res.Viol = "a failed run changes the destination"
		}
	} else if x := declared(d, r.Kept, nil); x != "" {
		res.Viol = x
	}
	return res
}
