package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/core"
	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/model"
)

// mapLimit bounds the runs per source.
func mapLimit(thorough bool) int {
	if thorough {
		return 20000
	}
	return 1200
}

// allStarts explores every choice of starts of the iterations over maps, depth first.
func allStarts(j *Job, limit int) (res core.Result) {
	var base *Reply
	var plan []int
	res.Trace = true
	for n := 0; ; n++ {
		k := *j
		k.Maps = plan
		r := pool.Run(&k)
		res.Trans++
		if x := abnormal(r); x != "" {
			res.Viol = x
			return
		}
		if base == nil {
			base = r
			res.States = append(res.States, r.Kept+r.Out+r.Err)
			if len(r.Choices) == 0 {
				res.Outcome = "no map is iterated"
			} else {
				res.Outcome = "maps are iterated"
			}
		} else if r.Kept != base.Kept || r.Out != base.Out || (r.Err == "") != (base.Err == "") {
			res.States = append(res.States, r.Kept+r.Out+r.Err)
			res.Viol = "the result depends on where the iteration over a map starts"
			res.Detail = fmt.Sprintf("starts: %v of %v\n== with starts 0\n%s%s%s\n== with these starts\n%s%s%s", plan, r.Choices, base.Kept, base.Out, base.Err, r.Kept, r.Out, r.Err)
			return
		}
		if n >= limit {
			res.Outcome = fmt.Sprintf("bounded at %d choices", limit)
			return
		}
		// the next plan: the last choice that has another option
		next := append(append([]int(nil), plan...), make([]int, max(0, len(r.Choices)-len(plan)))...)
		next = next[:len(r.Choices)]
		i := len(next) - 1
		for ; i >= 0; i-- {
			if next[i]+1 < r.Choices[i] {
				next[i]++
				break
			}
		}
		if i < 0 {
			return
		}
		plan = next[:i+1]
	}
}

func c19(c *core.Ctx) {
	c.Rule = "(a) for every source of up to three pieces and pairs of files of the generation alphabet: every start of every iteration over a map performed by the whole command (a runtime under the explorer's control), the generated text and the migration must not depend on it; (b) every sequence of up to three generate and diff runs over different sources, tags and dialects in one process gives for each run the result it has in a process of its own; (c) tables and indexes appear in the order of the files and of their position"
	for _, d := range model.Dialects {
		n := 0
		for _, s := range gsources(d, false) {
			s := s
			if s.fam == "fields" || s.fam == "tags" || s.fam == "annotations" && !strings.Contains(s.key, "indexes") {
				continue
			}
			n++
			if !c.Thorough() && d != model.PG && n%9 != 0 {
				continue
			}
			c.Family("map starts: " + s.fam)
			c.Do("starts "+s.key, func() core.Result {
				r := allStarts(s.job(), mapLimit(c.Thorough()))
				r.Detail += "\n" + s.detail()
				return r
			})
		}
	}
	// many statements: beyond the size up to which an unstable sort happens to be stable
	for _, d := range model.Dialects {
		var ps []gpiece
		ls := layouts(d, stdTags)
		for k := 0; k < 4; k++ {
			ps = append(ps, ls[1](k))
		}
		ex := extras(d, stdTags, "big")
		p, _ := annotated(d, stdTags, "big", "Big", tforms[0], cforms[0], ex[indexOf(d, "indexes")], 1, false, []fform{fform1("key"), fform1("plain")})
		blk, _ := annotated(d, stdTags, "blk", "Blk", tforms[0], cforms[5], extras(d, stdTags, "blk")[indexOf(d, "indexes")], 1, false, []fform{fform1("key"), fform1("plain")})
		for at := 0; at <= len(ps); at++ {
			qs := append(append(append([]gpiece(nil), ps[:at]...), p, blk), ps[at:]...)
			s := gsource{d, stdTags, fmt.Sprintf("%s many statements, %d", d, at), "many", []gfile{{"m.go", qs}}}
			c.Family("map starts: many statements")
			c.Do("starts "+s.key, func() core.Result {
				r := allStarts(s.job(), mapLimit(c.Thorough()))
				r.Detail += "\n" + s.detail()
				return r
			})
		}
	}
	histories(c)
	for _, d := range model.Dialects {
		for _, s := range gsources(d, false) {
			s := s
			if s.fam != "layout" && s.fam != "files" {
				continue
			}
			c.Family("order")
			c.Do("order "+s.key, func() core.Result {
				r := pool.Run(s.job())
				res := core.Result{Outcome: "order", States: []string{r.Kept}, Trans: 1, Trace: true}
				if r.Err != "" {
					res.Outcome = "refused"
					return res
				}
				if x := sameText(d, r.Kept, expected(d, s.files...)); strings.Contains(x, "order") {
					res.Viol, res.Detail = x, s.detail()+r.Kept
				}
				return res
			})
		}
	}
}

// histories: sequences of runs in one process.
func histories(c *core.Ctx) {
	type run struct {
		name string
		job  Job
	}
	var runs []run
	mk := func(name string, d D, t gtags, layout int, cmd string) {
		f := gfile{"m.go", []gpiece{layouts(d, t)[layout](0), layouts(d, t)[1](1)}}
		dir := fmt.Sprintf("s%d", len(runs))
		j := Job{Files: map[string]string{dir + "/m.go": f.text(), "empty.sql": "\n"}}
		s := gsource{d: d, t: t}
		if cmd == "generate" {
			j.Args, j.Keep = s.args("generate", dir, dir+".sql"), dir+".sql"
		} else {
			j.Args = s.args("diff", "empty.sql", dir)
		}
		runs = append(runs, run{name, j})
	}
	pg := gtags{"pgddl", "db", "pk"}
	mk("postgres", model.PG, stdTags, 0, "generate")
	mk("postgres with pgddl", model.PG, pg, 1, "generate")
	mk("spanner with other tags", model.SP, gtags{"spanddl", "col", "key"}, 1, "generate")
	mk("mysql", model.MY, stdTags, 17, "generate")
	mk("cockroachdb diff with pgddl", model.CR, pg, 0, "diff")
	mk("mysql diff", model.MY, stdTags, 18, "diff")
	runs = append(runs, run{"both tags, ddlctl", Job{}}, run{"both tags, pgddl", Job{}})
	both := gfile{"m.go", []gpiece{layouts(model.PG, stdTags)[1](0), layouts(model.PG, pg)[1](1)}}
	for i, t := range []gtags{stdTags, pg} {
		k := len(runs) - 2 + i
		runs[k].job = Job{Files: map[string]string{fmt.Sprintf("s%d/m.go", k): both.text()}, Args: gsource{d: model.PG, t: t}.args("generate", fmt.Sprintf("s%d", k), "o.sql"), Keep: "o.sql"}
	}
	runs = append(runs, run{"refused", Job{Files: map[string]string{"bad.go": "package"}, Args: []string{"generate", "--dialect", "postgres", "bad.go", "bad.sql"}, Keep: "bad.sql"}})
	alone := map[string]*Reply{}
	obs := func(r *Reply) string { return fmt.Sprintf("%q %q %v", r.Kept, r.Out, r.Err != "") }
	for _, r := range runs {
		alone[r.name] = pool.Fresh(&r.job)
		if os.Getenv("VERIF_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, r.name, obs(alone[r.name]))
		}
	}
	var seqs [][]run
	for _, a := range runs {
		for _, b := range runs {
			seqs = append(seqs, []run{a, b})
			for i, x := range runs {
				if c.Thorough() || i%3 == 0 {
					seqs = append(seqs, []run{a, b, x})
				}
			}
		}
	}
	for _, q := range seqs {
		q := q
		var ns []string
		for _, r := range q {
			ns = append(ns, r.name)
		}
		c.Family("histories")
		c.Do("history "+strings.Join(ns, " -> "), func() core.Result {
			j := q[0].job
			for _, r := range q[1:] {
				j.Then = append(j.Then, r.job)
			}
			r := pool.Fresh(&j)
			res := core.Result{Outcome: "history", Trans: len(q), Trace: true}
			if x := abnormal(r); x != "" {
				res.Viol = x
				return res
			}
			for i, x := range append([]Reply{*r}, r.Then...) {
				res.States = append(res.States, obs(&x))
				if v := abnormal(&x); v != "" {
					res.Viol = v
				} else if got, want := obs(&x), obs(alone[q[i].name]); got != want {
					res.Viol = fmt.Sprintf("%s behaves otherwise after other runs in the same process", q[i].name)
					res.Detail = "alone:\n" + want + "\nafter the others:\n" + got
				}
			}
			return res
		})
	}
}
