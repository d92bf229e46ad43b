package main

import (
	"fmt"
	"strings"

	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/alpha"
	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/core"
	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/fakedb"
	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/model"
)

func c13(c *core.Ctx) {
	const d = model.SP
	c.Rule = "every placement of up to two (thorough: three) faults at the driver calls of a Spanner apply (open, ping, each statement of the batch and its brackets rejected with every wording and well-known error, connection dropped before or after, close) over migrations of every shape and every pair of schemas of the families without fault: the calls of the run are accepted by the protocol automaton start, statements in order, run; nothing after a failure but an abort"
	depth := 2
	if c.Thorough() {
		depth = 3
	}
	v := alpha.Vocs[d]
	id := "id " + v.Int + " NOT NULL"
	ss := append(scens(d), moreScens(d)...)
	var many strings.Builder
	for i := 0; i < 12; i++ {
		many.WriteString(alpha.T(d, fmt.Sprintf("t%02d", i), id, "a "+v.Int) + fmt.Sprintf("CREATE INDEX i%02d ON t%02d (a);\n", i, i))
	}
	ss = append(ss, scen{"many tables", d, "", many.String()}, scen{"drop many tables", d, many.String(), alpha.T(d, "t03", id, "a "+v.Int)})
	for _, s := range ss {
		s := s
		p, why := getPlan(s)
		if p == nil || len(p.stmts) == 0 {
			c.Family("not judged: " + clip(why, 60))
			continue
		}
		c.Family("wordings of a failure")
		for _, kind := range wordings(d) {
			if len(p.stmts) > 4 && !c.Thorough() {
				break
			}
			kind := kind
			(&explorer{
				name:  string(d) + " " + s.name + " " + kind,
				depth: 1,
				job: func(f path) *Job {
					return &Job{Args: applyArgs(d, "--auto-approve"), Files: map[string]string{targetFile: s.want}, DBs: map[string]DBSpec{dsn[d]: {D: d, Text: s.db}}, Faults: f.faults()}
				},
				log: func(r *Reply) []fakedb.Event { return r.Log },
				kinds: func(f path, e *fakedb.Event, r *Reply) []string {
					if e.Out > 0 && (e.Call == "open" || e.Call == "ping" || e.Call == "exec" || e.Call == "cclose") {
						return []string{kind}
					}
					return nil
				},
				judge: func(f path, r *Reply) core.Result { return bracketed(p, f, r) },
			}).run(c)
		}
		c.Family("fault placements")
		dep := depth
		if len(p.stmts) > 12 {
			dep--
		}
		(&explorer{
			name:  string(d) + " " + s.name,
			depth: dep,
			job: func(f path) *Job {
				return &Job{Args: applyArgs(d, "--auto-approve"), Files: map[string]string{targetFile: s.want}, DBs: map[string]DBSpec{dsn[d]: {D: d, Text: s.db}}, Faults: f.faults()}
			},
			log: func(r *Reply) []fakedb.Event { return r.Log },
			kinds: func(f path, e *fakedb.Event, r *Reply) []string {
				if e.Out == 0 || strings.HasPrefix(e.Err, "dead") {
					return nil
				}
				switch e.Call {
				case "open", "ping":
					return []string{"err", "badconn"}
				case "cclose":
					if dropped(r, e.Conn) {
						return nil
					}
					return []string{"err"}
				case "exec":
					return []string{"err", "badconn", "lost"}
				}
				return nil
			},
			judge: func(f path, r *Reply) core.Result { return bracketed(p, f, r) },
		}).run(c)
	}
	c.Family("schema pairs")
	for _, f := range alpha.All(d, c.Thorough()) {
		w := 20
		if c.Thorough() {
			w = 60
		}
		ts := append([]string{""}, pick(f.Texts, w)...)
		for i, a := range ts {
			for k, b := range ts {
				if i == k {
					continue
				}
				s := scen{f.Name, d, a, b}
				for _, accept := range []bool{false, true} {
					accept := accept
					c.Do(fmt.Sprintf("accept=%v %q ==> %q", accept, a, b), func() core.Result { return bracketCase(s, accept) })
				}
			}
		}
	}
}

func bracketCase(s scen, accept bool) core.Result {
	j := &Job{Args: diffJob(s).Args, Files: map[string]string{targetFile: s.want}, DBs: map[string]DBSpec{dsn[s.d]: {D: s.d, Text: s.db, Accept: accept}}, Then: []Job{{Args: applyArgs(s.d, "--auto-approve")}}}
	r := pool.Run(j)
	if v := abnormal(r); v != "" {
		return viol("%s", v)
	}
	p, why := planOf(r, s.d)
	if p == nil {
		return skip(why)
	}
	if v := abnormal(&r.Then[0]); v != "" {
		return viol("%s", v)
	}
	if len(p.stmts) == 0 {
		if ex := r.Then[0].execs(dsn[s.d]); len(ex) > 0 {
			return viol("an empty migration sends %q", ex[0].Text)
		}
		return core.Result{Outcome: "nothing to do"}
	}
	return bracketed(p, nil, &r.Then[0])
}

// bracketed is the protocol automaton.
func bracketed(p *plan, f path, r *Reply) core.Result {
	d := model.SP
	res := core.Result{Outcome: fmt.Sprintf("faults=%d err=%v %s", len(f), r.Err != "", clip(shape(r), 0)), States: []string{clip(p.out, 200) + shape(r)}, Trans: len(r.Log), Trace: true}
	bad := func(x string, a ...any) core.Result {
		res.Viol = fmt.Sprintf(x, a...)
		res.Detail = fmt.Sprintf("migration:\n%s\nerr: %s\nlog: %s", p.out, r.Err, history(r))
		return res
	}
	want := []string{"START BATCH DDL"}
	for _, s := range p.stmts {
		want = append(want, s.String())
	}
	want = append(want, "RUN BATCH")
	ex := r.execs(dsn[d])
	at, failed, aborted := 0, "", false
	conn := -1
	for _, e := range ex {
		ss, err := split(d, e.Text)
		if err != nil || len(ss) != 1 {
			return bad("%q is sent, which is not one statement", clip(e.Text, 120))
		}
		got := ss[0].String()
		if batchCmd[strings.ToUpper(got)] {
			got = strings.ToUpper(got)
		}
		if conn < 0 {
			conn = e.Conn
		}
		if e.Conn != conn {
			// before the batch has started, a dropped connection may be replaced
			if at == 0 && got == want[0] {
				conn, failed = e.Conn, ""
			} else {
				return bad("%q is sent on another connection than the batch", clip(e.Text, 120))
			}
		}
		if got == "ABORT BATCH" {
			if failed == "" {
				return bad("the batch is aborted although nothing failed")
			}
			aborted = true
			continue
		}
		if failed != "" {
			return bad("%q is sent after %q failed", clip(e.Text, 120), clip(failed, 120))
		}
		if aborted {
			return bad("%q is sent after the batch was aborted", clip(e.Text, 120))
		}
		if at >= len(want) || got != want[at] {
			exp := "nothing"
			if at < len(want) {
				exp = want[at]
			}
			return bad("%q is sent where %q belongs", clip(e.Text, 120), clip(exp, 120))
		}
		if e.Err != "" {
			failed = got
			continue
		}
		at++
	}
	switch {
	case r.Err == "" && failed != "":
		return bad("%q failed, but success is reported", clip(failed, 120))
	case r.Err == "" && at < len(want):
		return bad("success is reported, but the batch ends before %q", clip(want[at], 120))
	case r.Err != "" && len(f) == 0 && failed == "":
		return bad("every statement was accepted, but apply reports: %s", r.Err)
	}
	for _, x := range f {
		if raised(x.kind) && x.i < len(r.Log) && r.Log[x.i].Err != "" && r.Err == "" {
			return bad("%s fails, but success is reported", x.label)
		}
	}
	return res
}
