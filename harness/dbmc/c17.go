package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/core"
	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/model"
)

// gsource is a source tree with its expectation.
type gsource struct {
	d     D
	t     gtags
	key   string
	fam   string
	files []gfile
}

// job generates from the only file, or from the directory.
func (s gsource) job() *Job {
	j := &Job{Files: map[string]string{}, Keep: "out.sql"}
	for _, f := range s.files {
		j.Files["src/"+f.path] = f.text()
	}
	arg := "src"
	if len(s.files) == 1 {
		arg = "src/" + s.files[0].path
	}
	j.Args = s.args("generate", arg, "out.sql")
	return j
}

func (s gsource) args(cmd string, more ...string) []string {
	return append(append([]string{cmd, "--dialect", string(s.d)}, s.t.args()...), more...)
}

func (s gsource) detail() string {
	var b strings.Builder
	for _, f := range s.files {
		fmt.Fprintf(&b, "== %s\n%s\n", f.path, f.text())
	}
	fmt.Fprintf(&b, "== expected\n%s\n", expected(s.d, s.files...))
	return b.String()
}

// gsources enumerates the annotated sources of a dialect.
func gsources(d D, thorough bool) (out []gsource) {
	one := func(fam, key string, t gtags, ps ...gpiece) {
		out = append(out, gsource{d, t, fmt.Sprintf("%s %s: %s", d, fam, key), fam, []gfile{{"m.go", ps}}})
	}
	// fields: all sequences
	tf, cf, none := tforms[0], cforms[0], extra{name: "nothing"}
	var seqs [][]fform
	for _, a := range fforms {
		seqs = append(seqs, []fform{a})
		for _, b := range fforms {
			seqs = append(seqs, []fform{a, b})
			if thorough {
				for _, c := range fforms {
					seqs = append(seqs, []fform{a, b, c})
				}
			}
		}
	}
	if !thorough { // all of them around two plain columns
		for _, a := range fforms {
			seqs = append(seqs, []fform{fform1("key"), a, fform1("plain")}, []fform{a, fform1("key"), fform1("key 1 first"), a})
		}
	}
	for _, s := range seqs {
		var ns []string
		for _, f := range s {
			ns = append(ns, f.name)
		}
		if p, ok := annotated(d, stdTags, "users", "User", tf, cf, none, 0, false, s); ok {
			one("fields", strings.Join(ns, ", "), stdTags, p)
		}
	}
	// annotations: the product of the table form, the comment form, the further annotations, their order and the other lines
	fs := []fform{fform1("key"), fform1("plain"), fform1("no tag"), fform1("documented")}
	names := []string{"users", quoted(d, "users")}
	if d != model.MY && d != model.SP {
		names = append(names, "public.users")
	}
	for _, tf := range tforms {
		for _, cf := range cforms {
			for ni, n := range names {
				for _, ex := range extras(d, stdTags, n) {
					if ni > 0 && ex.name != "nothing" && !thorough {
						continue
					}
					for order := 0; order < 3; order++ {
						for _, nz := range []bool{false, true} {
							typ := "Users"
							nn := n
							if tf.create("x", "y") == "CREATE TABLE y" {
								nn = typ
								ex = extras(d, stdTags, typ)[indexOf(d, ex.name)]
							}
							if p, ok := annotated(d, stdTags, nn, typ, tf, cf, ex, order, nz, fs); ok {
								one("annotations", fmt.Sprintf("%s, %s, %s, %s, order %d, noise %v", tf.name, cf.name, n, ex.name, order, nz), stdTags, p)
							}
						}
					}
				}
			}
		}
	}
	// layouts: all sequences of pieces
	ls := layouts(d, stdTags)
	for i := range ls {
		one("layout", ls[i](0).name, stdTags, ls[i](0))
		for j := range ls {
			ps := []gpiece{ls[i](0), ls[j](1)}
			one("layout", ps[0].name+", "+ps[1].name, stdTags, ps...)
			for k := range ls {
				if !thorough && (i+j+k)%4 != 0 && i != 0 && k != 0 {
					continue
				}
				ps := []gpiece{ls[i](0), ls[j](1), ls[k](2)}
				one("layout", ps[0].name+", "+ps[1].name+", "+ps[2].name, stdTags, ps...)
			}
		}
	}
	// tags
	for _, t := range []gtags{{"pgddl", "db", "pk"}, {"ddl", "column", "primary"}, {"db", "ddlctl", "x"}, {"my_ddl", "db_name", "is_pk"}, {"d.l", "d-b", "p.k"}, {"ddlctl", "ddlctl_db", "ddlctl_pk"}} {
		for _, f := range fforms {
			for _, ex := range extras(d, t, "users") {
				for _, nz := range []bool{false, true} {
					if p, ok := annotated(d, t, "users", "User", tforms[1], cforms[0], ex, 0, nz, []fform{fform1("key"), f, fform1("other names")}); ok {
						one("tags", fmt.Sprintf("%v %s, %s, noise %v", t, f.name, ex.name, nz), t, p)
					}
				}
			}
		}
	}
	// several files
	for i := range ls {
		for j := range ls {
			a, b := gfile{"a.go", []gpiece{ls[i](0)}}, gfile{"b.go", []gpiece{ls[j](1)}}
			out = append(out, gsource{d, stdTags, fmt.Sprintf("%s files: %s | %s", d, a.pieces[0].name, b.pieces[0].name), "files", []gfile{a, b}})
		}
	}
	return out
}

func indexOf(d D, name string) int {
	for i, e := range extras(d, stdTags, "x") {
		if e.name == name {
			return i
		}
	}
	panic(name)
}

// sameText compares a generated text with what is expected: the same statements, the tables in the same order, the indexes in the same order.
func sameText(d D, got, want string) string {
	g, err := split(d, got)
	if err != nil {
		return "the generated text is not a sequence of statements: " + err.Error()
	}
	w, err := split(d, want)
	if err != nil {
		return ""
	}
	parts := func(ss []Stmt) (tables, indexes []string) {
		for _, s := range ss {
			x := s.String()
			if strings.Contains(strings.ToUpper(clip(x, 24)), "INDEX ") {
				indexes = append(indexes, x)
			} else {
				tables = append(tables, x)
			}
		}
		return
	}
	gt, gi := parts(g)
	wt, wi := parts(w)
	for _, p := range []struct {
		what      string
		got, want []string
	}{{"table", gt, wt}, {"index", gi, wi}} {
		gs, ws := append([]string(nil), p.got...), append([]string(nil), p.want...)
		sort.Strings(gs)
		sort.Strings(ws)
		if m := without1(ws, gs); len(m) > 0 {
			if x := without1(gs, ws); len(x) > 0 {
				return fmt.Sprintf("declared %s %q is generated as %q", p.what, clip(m[0], 200), clip(x[0], 200))
			}
			return fmt.Sprintf("declared %s %q is not generated", p.what, clip(m[0], 200))
		}
		if x := without1(gs, ws); len(x) > 0 {
			return fmt.Sprintf("%s %q is generated but not declared", p.what, clip(x[0], 200))
		}
		if list(p.got) != list(p.want) {
			return fmt.Sprintf("the %s statements are not in the order of their declaration: %s", p.what, clip(list(p.got), 300))
		}
	}
	return ""
}

// without1 removes the elements of b from a.
func without1(a, b []string) (out []string) {
	n := map[string]int{}
	for _, x := range b {
		n[x]++
	}
	for _, x := range a {
		if n[x] > 0 {
			n[x]--
			continue
		}
		out = append(out, x)
	}
	return
}

func c17(c *core.Ctx) {
	c.Rule = "all sequences of up to 2 (thorough 3) struct fields over 25 field forms, the product of 12 table forms x 11 comment forms x further annotations x their order x lines that declare nothing, all sequences of up to 3 pieces of a file over 22 forms (quick: all pairs and a third of the triples), six choices of tag names, pairs of files; for every dialect the generated text is compared with what the source was built to declare"
	for _, d := range model.Dialects {
		for _, s := range gsources(d, c.Thorough()) {
			s := s
			c.Family(s.fam)
			c.Do(s.key, func() core.Result {
				r := pool.Run(s.job())
				if x := abnormal(r); x != "" {
					return core.Result{Outcome: "abnormal", Viol: x, Detail: s.detail()}
				}
				res := core.Result{Outcome: fmt.Sprintf("%s err=%v", s.d, r.Err != ""), States: []string{r.Kept}, Trans: len(s.files), Trace: true}
				n := 0
				for _, f := range s.files {
					n += len(f.decls())
				}
				if r.Err != "" {
					if n == 0 && len(s.files) == 1 {
						res.Outcome = "nothing declared"
						return res // a file without annotations may be refused
					}
					res.Viol, res.Detail = "a well-formed source is refused: "+clip(r.Err, 200), s.detail()
					return res
				}
				if x := sameText(s.d, r.Kept, expected(s.d, s.files...)); x != "" {
					res.Viol, res.Detail = x, s.detail()+"== generated\n"+r.Kept
				}
				return res
			})
		}
	}
}
