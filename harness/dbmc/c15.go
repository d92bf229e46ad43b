package main

import (
	"fmt"
	"strings"

	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/alpha"
	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/core"
	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/fakedb"
	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/model"
)

// readContents are databases whose reading passes through every query of the dialect.
func readContents(d D, thorough bool) []string {
	v := alpha.Vocs[d]
	id := "id " + v.Int + " NOT NULL"
	var out []string
	for i, s := range append(scens(d), moreScens(d)...) {
		out = append(out, s.want)
		if i%2 == 1 || thorough {
			out = append(out, s.db)
		}
	}
	out = append(out, local(d, alpha.T(d, "a", id)+alpha.T(d, "b", id, "a "+v.Int)+alpha.T(d, "c", id)+"CREATE INDEX i ON b (a);\n"))
	if d == model.MY || d == model.PG {
		k := "PRIMARY KEY (id)"
		if d == model.PG {
			k = "CONSTRAINT t_pkey PRIMARY KEY (id)"
		}
		out = append(out, local(d, alpha.P(d)+alpha.T(d, "t", id, "a "+v.Int, k, "CONSTRAINT f FOREIGN KEY (a) REFERENCES p (id)", "CONSTRAINT k CHECK (a > 0)")+"CREATE UNIQUE INDEX i ON t (a);\n"))
	}
	if thorough {
		for _, f := range alpha.All(d, false) {
			for _, t := range pick(f.Texts, 3) {
				out = append(out, local(d, t))
			}
		}
	}
	var uniq []string
	seen := map[string]bool{}
	for _, t := range out {
		if !seen[t] {
			seen[t] = true
			uniq = append(uniq, t)
		}
	}
	return uniq
}

func c15(c *core.Ctx) {
	c.Rule = "for show, for diff with the database on the left and on the right, between two databases and for apply: every single fault (thorough and small contents: every pair) at every driver call of the reading of a database: connecting, pinging, querying (rejected with every wording and well-known error, connection dropped), fetching each row and the end of the rows (error, connection dropped, unexpected end), each value of each row undecodable or missing, closing rows and connection; the run must end with an error, print and execute nothing, or behave exactly as without the fault"
	type mode struct {
		name string
		args func(d D) []string
	}
	modes := []mode{
		{"show", func(d D) []string { return []string{"show", "--dialect", string(d), dsn[d]} }},
		{"diff database file", func(d D) []string { return []string{"diff", "--dialect", string(d), dsn[d], targetFile} }},
		{"diff file database", func(d D) []string { return []string{"diff", "--dialect", string(d), targetFile, dsn[d]} }},
		{"apply", func(d D) []string { return applyArgs(d, "--auto-approve") }},
		{"diff database database", func(d D) []string { return []string{"diff", "--dialect", string(d), dsn[d], dsn[d] + "2"} }},
	}
	for _, d := range model.Dialects {
		d := d
		v := alpha.Vocs[d]
		target := local(d, alpha.T(d, "t", "id "+v.Int+" NOT NULL", "z "+v.Int)+alpha.T(d, "zz", "id "+v.Int+" NOT NULL"))
		for ci, text := range readContents(d, c.Thorough()) {
			for mi, m := range modes {
				text, m := text, m
				job := func(f path) *Job {
					return &Job{Args: m.args(d), Files: map[string]string{targetFile: target}, DBs: map[string]DBSpec{dsn[d]: {D: d, Text: text}, dsn[d] + "2": {D: d, Text: target}}, Faults: f.faults()}
				}
				base := pool.Run(job(nil))
				if base.LoadErr != "" || base.Unsup != "" || abnormal(base) != "" {
					c.Family("not judged: " + clip(base.LoadErr+base.Unsup+abnormal(base), 60))
					continue
				}
				c.Family(m.name)
				depth := 1
				if c.Thorough() && (ci+mi)%3 == 0 || !c.Thorough() && (ci == 0 || ci == 3) && mi <= 1 {
					depth = 2
				}
				words := func(f path) []string {
					if len(f) > 0 {
						return nil
					}
					return unread(d, ci)
				}
				(&explorer{
					name:  fmt.Sprintf("%s %s %q", d, m.name, text),
					job:   job,
					depth: depth,
					log:   func(r *Reply) []fakedb.Event { return r.Log },
					kinds: func(f path, e *fakedb.Event, r *Reply) []string {
						if strings.HasPrefix(e.Err, "dead") || m.name == "apply" && e.Out > 0 {
							return nil
						}
						switch e.Call {
						case "open", "ping":
							return append([]string{"err", "badconn"}, words(f)...)
						case "query":
							return append([]string{"err", "badconn"}, words(f)...)
						case "rclose":
							return []string{"err"}
						case "cclose":
							if dropped(r, e.Conn) {
								return nil
							}
							return append([]string{"err"}, words(f)...)
						case "next":
							ks := []string{"err", "badconn", "unexpectedeof"}
							for _, w := range words(f) {
								if w != "is=io.EOF" { // the end of the rows
									ks = append(ks, w)
								}
							}
							// a definition that is asked for by name has one row
							if len(e.Cols) == 2 && strings.EqualFold(e.Cols[1], "Create Table") {
								ks = append(ks, "norows")
							}
							for i := range e.Cols {
								if i > 9 {
									break
								}
								ks = append(ks, fmt.Sprintf("junk%d", i))
								if !nullable[strings.ToLower(e.Cols[i])] {
									ks = append(ks, fmt.Sprintf("null%d", i))
								}
							}
							return ks
						}
						return nil
					},
					judge: func(f path, r *Reply) core.Result { return wholeOrNothing(d, base, f, r) },
				}).run(c)
			}
		}
	}
}

// unreadable: wordings of failed reads.
var unreadable = map[D][]string{
	model.MY: {"Error 1142 (42000): SHOW command denied to user 'u'@'h' for table 't'", "Error 1044 (42000): Access denied for user", "Error 3024 (HY000): Query execution was interrupted, maximum statement execution time exceeded", "invalid connection", "sql: no rows in result set"},
	model.PG: {"pq: permission denied for table pg_constraint", "pq: canceling statement due to statement timeout", "pq: relation \"pg_indexes\" does not exist", "sql: no rows in result set"},
	model.CR: {"pq: user u does not have privilege", "pq: unimplemented: this statement", "sql: no rows in result set"},
	model.SP: {"rpc error: code = PermissionDenied desc = denied", "rpc error: code = DeadlineExceeded desc = context deadline exceeded", "rpc error: code = NotFound desc = Table not found: INFORMATION_SCHEMA.COLUMN_OPTIONS", "rpc error: code = InvalidArgument desc = Unrecognized name", "sql: no rows in result set"},
}

// unread are the wordings of failed reads and the well-known errors in between.
func unread(d D, ci int) []string {
	var out []string
	for _, t := range unreadable[d] {
		out = append(out, "err="+t)
	}
	if ci > 3 {
		return out
	}
	for _, w := range wordings(d) {
		if strings.HasPrefix(w, "is=") {
			out = append(out, w)
		}
	}
	return out
}

// nullable: columns of the catalogue that may be null.
var nullable = map[string]bool{"column_default": true, "row_deletion_policy_expression": true, "generation_expression": true, "column_ordering": true, "parent_table_name": true, "option_value": true}

func wholeOrNothing(d D, base *Reply, f path, r *Reply) core.Result {
	res := core.Result{Outcome: fmt.Sprintf("%s faults=%d err=%v", d, len(f), r.Err != ""), States: []string{clip(base.Out, 2000) + shape(r)}, Trans: len(r.Log), Trace: true}
	bad := func(x string, a ...any) core.Result {
		res.Viol = fmt.Sprintf(x, a...)
		res.Detail = fmt.Sprintf("without fault:\n%s\nwith fault:\n%s\nerr: %s\nlog: %s", base.Out, r.Out, r.Err, history(r))
		return res
	}
	if len(f) == 0 {
		return res
	}
	for _, x := range f {
		if x.i >= len(r.Log) || r.Log[x.i].Err == "" {
			return skip("placement not reached")
		}
	}
	ex, bx := r.execs(dsn[d]), base.execs(dsn[d])
	same := r.Out == base.Out && len(ex) == len(bx) && (r.Err == "") == (base.Err == "")
	for i := range ex {
		same = same && ex[i].Text == bx[i].Text
	}
	if same {
		for _, x := range f {
			e := r.Log[x.i]
			if base.Err == "" && e.Err == "err" && e.Call != "rclose" {
				return bad("%s (%s) is swallowed", x.label, clip(squash(e.Text), 60))
			}
		}
		return res
	}
	if r.Err == "" {
		return bad("the database could not be read, but no error is reported and the output differs")
	}
	if len(ex) > 0 {
		return bad("the database could not be read, but %q is executed", clip(ex[0].Text, 120))
	}
	if strings.TrimSpace(r.Out) != "" {
		return bad("the database could not be read, but this is printed: %q", clip(r.Out, 120))
	}
	return res
}
