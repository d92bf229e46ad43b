package main

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/alpha"
	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/fakedb"
	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/model"
)

// scen is a migration: a database content and a target.
type scen struct {
	name string
	d    D
	db   string
	want string
}

var nameRes = []*regexp.Regexp{
	regexp.MustCompile("(?m)^(CREATE TABLE )([a-z0-9_\"`])"),
	regexp.MustCompile("(REFERENCES )([a-z0-9_\"`])"),
	regexp.MustCompile("(?m)^(CREATE (?:UNIQUE )?INDEX [^ \n]+ ON )([a-z0-9_\"`])"),
}

// local writes a schema text in the form in which the database names its tables.
func local(d D, text string) string {
	if d != model.PG && d != model.CR {
		return text
	}
	for _, re := range nameRes {
		text = re.ReplaceAllString(text, "${1}public.${2}")
	}
	return text
}

// scens are the migrations used where the shape of a migration does not matter.
func scens(d D) []scen {
	v := alpha.Vocs[d]
	id := "id " + v.Int + " NOT NULL"
	def := " DEFAULT 'a'"
	if d == model.SP {
		def = " DEFAULT ('a')"
	}
	str := v.Str
	if d == model.CR || d == model.PG {
		str = v.Lng
	}
	t1 := alpha.T(d, "t", id)
	t2 := alpha.T(d, "t", id, "a "+v.Int, "c "+str+" NOT NULL"+def)
	u := alpha.T(d, "u", id, "b "+v.Int)
	ix := "CREATE INDEX i ON t (a);\n"
	iu := "CREATE UNIQUE INDEX j ON u (b);\n"
	out := []scen{
		{"create one table", d, "", t1},
		{"create two tables and indexes", d, "", t2 + u + ix + iu},
		{"alter a table", d, t1, t2 + ix},
		{"drop", d, t2 + u + ix + iu, t1},
		{"change everything", d, t2 + ix, u + iu + alpha.T(d, "t", id, "c "+str+" NOT NULL", "d "+v.Int)},
	}
	if d == model.MY || d == model.PG {
		k := "PRIMARY KEY (id)"
		if d == model.PG {
			k = "CONSTRAINT %s_pkey PRIMARY KEY (id)"
		}
		kk := func(n string) string { return strings.ReplaceAll(k, "%s", n) }
		out = append(out, scen{"foreign keys", d, "", alpha.T(d, "p", id, kk("p")) + alpha.T(d, "t", id, "a "+v.Int, kk("t"), "CONSTRAINT f FOREIGN KEY (a) REFERENCES p (id)")})
	}
	for i := range out {
		out[i].db, out[i].want = local(d, out[i].db), local(d, out[i].want)
	}
	return out
}

const targetFile = "want.sql"

func diffJob(s scen) *Job {
	return &Job{Args: []string{"diff", "--dialect", string(s.d), dsn[s.d], targetFile}, Files: map[string]string{targetFile: s.want}, DBs: map[string]DBSpec{dsn[s.d]: {D: s.d, Text: s.db}}}
}

func applyArgs(d D, more ...string) []string {
	return append(append([]string{"apply", "--dialect", string(d)}, more...), dsn[d], targetFile)
}

// plan is what diff shows for a scenario.
type plan struct {
	out   string
	stmts []Stmt
	err   string
}

// want lists the statements as they must appear on the screen.
func (p *plan) want() (out []string) {
	for _, s := range p.stmts {
		out = append(out, squash(s.Text))
	}
	return
}

func planOf(r *Reply, d D) (*plan, string) {
	if r.LoadErr != "" {
		return nil, "not a database content: " + r.LoadErr
	}
	if r.Unsup != "" {
		return nil, "query outside the modelled SQL: " + r.Unsup
	}
	if r.Err != "" {
		return nil, "diff reports: " + r.Err
	}
	ss, err := split(d, r.Out)
	if err != nil {
		return nil, "the migration is no statement list: " + err.Error()
	}
	return &plan{out: r.Out, stmts: ss}, ""
}

func getPlan(s scen) (*plan, string) {
	r := pool.Run(diffJob(s))
	if v := abnormal(r); v != "" {
		return nil, v
	}
	return planOf(r, s.d)
}

var batchCmd = map[string]bool{"START BATCH DDL": true, "RUN BATCH": true, "ABORT BATCH": true}

// sent is the sequence of statements sent to the database (batch control left out on Spanner).
func sent(d D, evs []fakedb.Event) (out []Stmt, bad string) {
	for _, e := range evs {
		if d == model.SP && batchCmd[strings.ToUpper(squash(e.Text))] {
			continue
		}
		ss, err := split(d, e.Text)
		if err != nil {
			return nil, fmt.Sprintf("a fragment is sent to the database: %q", clip(e.Text, 200))
		}
		if len(ss) == 0 {
			return nil, fmt.Sprintf("an empty statement is sent to the database: %q", clip(e.Text, 200))
		}
		if len(ss) > 1 && (d == model.MY || d == model.SP) {
			return nil, fmt.Sprintf("%d statements are sent as one: %q", len(ss), clip(e.Text, 200))
		}
		if d == model.SP && strings.HasSuffix(strings.TrimSpace(e.Text), ";") {
			return nil, fmt.Sprintf("a statement is sent with its terminator: %q", clip(e.Text, 200))
		}
		out = append(out, ss...)
	}
	return out, ""
}

// sameStmts compares two statement lists.
func sameStmts(got, want []Stmt) string {
	for i := range want {
		if i >= len(got) {
			return fmt.Sprintf("statement %d is not sent: %q", i+1, clip(want[i].Text, 200))
		}
		if got[i].String() != want[i].String() {
			return fmt.Sprintf("statement %d is %q but %q is sent", i+1, clip(want[i].Text, 200), clip(got[i].Text, 200))
		}
	}
	if len(got) > len(want) {
		return fmt.Sprintf("%q is sent in addition", clip(got[len(want)].Text, 200))
	}
	return ""
}

// effect is the content of the database after the statements have been executed, according to the model.
func effect(d D, before *model.Schema, stmts []Stmt) (*model.Schema, error) {
	db := &fakedb.DB{D: d, Schema: before.Clone()}
	for _, s := range stmts {
		if err := db.Exec(s.Text); err != nil {
			return nil, err
		}
	}
	return db.Schema, nil
}

// sameState: equal up to the position of columns.
func sameState(a, b *model.Schema) string { return model.DiffFacts(a.Facts(false), b.Facts(false)) }
