package main

import (
	"fmt"
	"strings"

	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/core"
	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/model"
)

// gbase declares the tables to which the sources of the alphabet refer.
func gbase(d D, t gtags) gfile {
	id := gdefs(d)[0]
	tab := func(n, typ string, cols ...string) gpiece {
		p := gpiece{text: "// " + t.ddl + ": table: " + n + "\ntype " + typ + " struct {\n"}
		g := &gtable{create: "CREATE TABLE " + n}
		for i, c := range cols {
			pk := ""
			if i == 0 {
				pk, g.pk = "true", []string{c}
			}
			p.text += fmt.Sprintf("\tF%d int64 %s\n", i, rawTag(kv(t.db, c), kv(t.ddl, id), kv(t.pk, pk)))
			g.cols = append(g.cols, gcol{c, id})
		}
		p.text += "}\n"
		p.decls = []gdecl{{table: g}}
		return p
	}
	return gfile{"0base.go", []gpiece{tab("p", "P", "id"), tab("x", "XX", "key0", "a", "b")}}
}

func nothing(r *Reply) bool { return r.Err == "" && strings.TrimSpace(r.Out) == "" }

// c20 checks that a source and its generated text are the same schema for the tool.
func c20(c *core.Ctx) {
	c.Rule = "every source of the generation alphabet whose declarations form a valid schema: the generated text is compared with the source in both directions (no difference may be reported), migrations from nothing to the source and to the text are the same and, executed on the model of the dialect, create the declared schema"
	for _, d := range model.Dialects {
		for i, s := range gsources(d, c.Thorough()) {
			if !c.Thorough() && i%2 == 1 { // every source of the quick bound of C17 in the thorough tier
				continue
			}
			s := s
			s.files = append([]gfile{gbase(d, s.t)}, s.files...)
			c.Family(s.fam)
			want, err := model.ReadSchema(d, expected(d, s.files...))
			if err == nil {
				err = want.Valid()
			}
			if err != nil {
				c.Family("not judged: " + clip(strings.SplitN(err.Error(), ":", 2)[0], 40))
				continue
			}
			c.Do(s.key, func() core.Result {
				j := s.job()
				j.Args = s.args("generate", "src", "out.sql")
				j.Files["empty.sql"] = "\n"
				for _, a := range [][]string{{"src", "out.sql"}, {"out.sql", "src"}, {"empty.sql", "out.sql"}, {"empty.sql", "src"}, {"src", "src"}} {
					j.Then = append(j.Then, Job{Args: s.args("diff", a...)})
				}
				r := pool.Run(j)
				res := core.Result{Outcome: string(d), States: []string{r.Kept}, Trans: 6, Trace: true, Detail: s.detail() + "== generated\n" + r.Kept}
				bad := func(f string, a ...any) core.Result {
					res.Viol = fmt.Sprintf(f, a...)
					return res
				}
				if x := abnormal(r); x != "" {
					return bad("%s", x)
				}
				if r.Err != "" {
					return bad("generate fails: %s", clip(r.Err, 150))
				}
				for i, t := range r.Then {
					if x := abnormal(&t); x != "" {
						return bad("%s: %s", strings.Join(j.Then[i].Args, " "), x)
					}
					if t.Err != "" {
						return bad("the generated text is not accepted: %s", clip(t.Err, 200))
					}
				}
				res.Detail += "== migration\n" + r.Then[2].Out
				for _, i := range []int{0, 1, 4} {
					if !nothing(&r.Then[i]) {
						return bad("%s reports a difference: %s", strings.Join(j.Then[i].Args[len(j.Then[i].Args)-2:], " "), clip(r.Then[i].Out, 200))
					}
				}
				if r.Then[2].Out != r.Then[3].Out {
					return bad("the migration to the source differs from the migration to its text: %s", clip(r.Then[3].Out, 200))
				}
				sts, err := model.ReadStmts(d, r.Then[2].Out)
				if err != nil {
					return bad("the migration cannot be read: %v", err)
				}
				db := &model.Schema{D: d}
				for _, st := range sts {
					if err := db.Exec(st, true); err != nil {
						return bad("the migration cannot be executed: %v", err)
					}
				}
				g, w := model.Settle(db, want)
				if x := model.DiffFacts(g.Facts(true), w.Facts(true)); x != "" {
					return bad("the migration creates another schema: %s", clip(x, 300))
				}
				return res
			})
		}
	}
}
