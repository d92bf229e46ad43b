package main

import (
	"fmt"
	"strings"

	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/alpha"
	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/core"
	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/model"
	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/sut"
)

// content is a schema that can be given in every form.
type content struct {
	name   string
	tables []gtable
	idx    []string
	text   string
}

func (c content) sql(d D) string {
	if c.text != "" {
		return c.text
	}
	var b strings.Builder
	for i := range c.tables {
		b.WriteString(c.tables[i].sql(d) + ";\n\n")
	}
	for _, x := range c.idx {
		b.WriteString(x + ";\n\n")
	}
	return b.String()
}

// source is the same as annotated Go text.
func (c content) source(d D) string {
	var b strings.Builder
	b.WriteString("package models\n\n// Plain is not annotated.\ntype Plain struct{ ID int64 }\n")
	for i, t := range c.tables {
		fmt.Fprintf(&b, "\n// T%d is a type.\n//\n//ddlctl:table %s\n", i, strings.TrimPrefix(t.create, "CREATE TABLE "))
		for _, x := range t.cons {
			b.WriteString("//ddlctl:constraint " + x + "\n")
		}
		for _, x := range t.opts {
			b.WriteString("//ddlctl:option " + x + "\n")
		}
		pk := map[string]bool{}
		for _, p := range t.pk {
			pk[p] = true
		}
		fmt.Fprintf(&b, "type T%d struct {\n", i)
		for k, x := range t.cols {
			p := ""
			if pk[x.name] {
				p = "true"
			}
			fmt.Fprintf(&b, "\tF%d string %s\n", k, rawTag(kv("db", x.name), kv("ddlctl", x.def), kv("pk", p)))
		}
		b.WriteString("}\n")
	}
	for _, x := range c.idx {
		fmt.Fprintf(&b, "\n//ddlctl:index %s\n", strings.TrimPrefix(strings.TrimPrefix(x, "CREATE INDEX "), "-"))
	}
	return b.String()
}

func contents(d D) []content {
	v := alpha.Vocs[d]
	str, def := v.Str, " DEFAULT 'a'"
	if d == model.CR || d == model.PG {
		str = v.Lng
	}
	pub := "public."
	if d == model.MY || d == model.SP {
		pub = ""
	}
	if d == model.SP {
		def = " DEFAULT ('a')"
	}
	tab := func(n string, cons []string, cols ...gcol) gtable {
		t := gtable{create: "CREATE TABLE " + pub + n, cols: cols, cons: cons}
		switch d {
		case model.PG:
			t.cons = append([]string{"CONSTRAINT " + n + "_pkey PRIMARY KEY (id)"}, cons...)
		case model.CR:
			t.cons = append([]string{"CONSTRAINT " + n + "_pkey PRIMARY KEY (id ASC)"}, cons...)
		default:
			t.pk = []string{"id"}
		}
		return t
	}
	id := gcol{"id", v.Int + " NOT NULL"}
	a, b, x := gcol{"a", v.Int}, gcol{"b", v.Int}, gcol{"d", v.Int}
	c := gcol{"c", str + " NOT NULL" + def}
	c2 := gcol{"c", str + " NOT NULL"}
	asc := ""
	if d == model.CR {
		asc = " ASC"
	}
	ix := "CREATE INDEX i ON " + pub + "t (a" + asc + ")"
	iu := "CREATE UNIQUE INDEX j ON " + pub + "u (b" + asc + ")"
	out := []content{
		{name: "nothing", tables: nil, idx: nil},
		{name: "one table", tables: []gtable{tab("t", nil, id)}, idx: nil},
		{name: "a table with an index", tables: []gtable{tab("t", nil, id, a, c)}, idx: []string{ix}},
		{name: "two tables", tables: []gtable{tab("t", nil, id, a, c), tab("u", nil, id, b)}, idx: []string{ix, iu}},
		{name: "changed", tables: []gtable{tab("t", nil, id, c2, x), tab("w", nil, id, b)}, idx: nil},
	}
	if d == model.MY || d == model.PG {
		fk := "CONSTRAINT f FOREIGN KEY (a) REFERENCES " + pub + "u (id)"
		out = append(out, content{name: "foreign key", tables: []gtable{tab("u", nil, id, b), tab("t", []string{fk}, id, a)}})
	}
	return out
}

// reported is the content as the database reports it.
func reported(d D, c content) content {
	r := asDatabase(d, c.sql(d))
	if r.LoadErr != "" || r.Err != "" || r.Unsup != "" || abnormal(r) != "" {
		panic(fmt.Sprintf("%s %s cannot be reported: %s %s %s", d, c.name, r.LoadErr, r.Err, r.Unsup))
	}
	out := content{name: c.name, text: strings.TrimRight(r.Out, "\n") + "\n"}
	ss, err := split(d, r.Out)
	if err != nil {
		panic(err)
	}
	for _, s := range ss {
		if !strings.HasPrefix(strings.ToUpper(s.Text), "CREATE TABLE") {
			out.idx = append(out.idx, strings.Join(strings.Fields(s.Text), " "))
			continue
		}
		ts, err := model.Lex(d, s.Text)
		if err != nil {
			panic(err)
		}
		var t gtable
		depth, from := 0, 0
		item := func(x string, first model.Tok) {
			x = strings.Join(strings.Fields(x), " ")
			switch strings.ToUpper(first.Raw) {
			case "CONSTRAINT", "PRIMARY", "UNIQUE", "INDEX", "KEY", "FOREIGN", "CHECK":
				t.cons = append(t.cons, x)
			default:
				t.cols = append(t.cols, gcol{first.S, strings.TrimSpace(strings.TrimPrefix(x, first.Raw))})
			}
		}
		var first *model.Tok
		for i := range ts {
			x := ts[i]
			switch {
			case x.Raw == "(":
				depth++
				if depth == 1 && t.create == "" {
					t.create, from, first = strings.Join(strings.Fields(s.Text[:x.Pos]), " "), x.Pos+1, nil
				}
				continue
			case x.Raw == ")":
				depth--
				if depth == 0 && from > 0 {
					item(s.Text[from:x.Pos], *first)
					from = 0
					rest := strings.Join(strings.Fields(s.Text[x.Pos+1:]), " ")
					if d == model.SP {
						if y := strings.TrimPrefix(rest, "PRIMARY KEY"); y != rest {
							for _, n := range strings.Split(strings.Trim(y, " ()"), ",") {
								t.pk = append(t.pk, strings.Trim(n, " `"))
							}
							rest = ""
						}
					}
					if rest != "" {
						t.opts = append(t.opts, rest)
					}
				}
			case x.Raw == "," && depth == 1 && from > 0:
				item(s.Text[from:x.Pos], *first)
				from, first = x.Pos+1, nil
				continue
			}
			if first == nil && depth >= 1 {
				first = &ts[i]
			}
		}
		out.tables = append(out.tables, t)
	}
	return out
}

// plainStmts are statements without the quotes of their names.
func plainStmts(ss []Stmt) (out []Stmt) {
	for _, s := range ss {
		n := Stmt{Text: s.Text}
		for _, t := range s.Toks {
			if len(t) > 2 && (t[0] == '"' || t[0] == '`') {
				t = t[1 : len(t)-1]
			}
			n.Toks = append(n.Toks, t)
		}
		out = append(out, n)
	}
	return
}

// dsns that name the databases of the two sides, in the form of each dialect.
func sideDSN(d D, side int) string {
	return strings.NewReplacer("/db", fmt.Sprintf("/db%d", side), "databases/d", fmt.Sprintf("databases/d%d", side)).Replace(dsn[d])
}

// aform is a way of naming a schema.
type aform struct {
	name string
	kind string // sql, go, db
	// put lays the content and returns the argument
	put func(j *Job, d D, side int, c content) string
}

func aforms() (out []aform) {
	add := func(name, kind string, put func(j *Job, d D, n string, text string) string) {
		out = append(out, aform{name, kind, func(j *Job, d D, side int, c content) string {
			text := c.sql(d)
			if kind == "go" {
				text = c.source(d)
			}
			return put(j, d, fmt.Sprintf("side%d", side), text)
		}})
	}
	sql := func(name, path, arg string) {
		add(name, "sql", func(j *Job, d D, n, text string) string {
			j.Files[strings.ReplaceAll(path, "N", n)] = text
			return strings.ReplaceAll(arg, "N", n)
		})
	}
	dir := func(name, path, arg string) {
		add(name, "go", func(j *Job, d D, n, text string) string {
			j.Files[strings.ReplaceAll(path, "N", n)] = text
			return strings.ReplaceAll(arg, "N", n)
		})
	}
	sql("SQL file", "N.sql", "N.sql")
	dir("directory", "N/models.go", "N")
	out = append(out, aform{"database", "db", func(j *Job, d D, side int, c content) string {
		dn := sideDSN(d, side)
		j.DBs[dn] = DBSpec{D: d, Text: c.sql(d)}
		return dn
	}})
	sql("absolute SQL file", "N.sql", "@DIR@/N.sql")
	sql("SQL file of another name", "N.go", "N.go")
	sql("SQL file without a suffix", "sub/N", "./sub/../sub/N")
	sql("SQL file under the name of a database", "", "")
	out[len(out)-1].put = func(j *Job, d D, side int, c content) string {
		dn := sideDSN(d, side)
		j.Files[dn] = c.sql(d)
		j.DBs[dn] = DBSpec{D: d, Text: "CREATE TABLE decoy (decoy " + alpha.Vocs[d].Int + " NOT NULL, PRIMARY KEY (decoy));\n"}
		if d == model.SP {
			j.DBs[dn] = DBSpec{D: d, Text: "CREATE TABLE decoy (decoy INT64 NOT NULL) PRIMARY KEY (decoy);\n"}
		}
		return dn
	}
	add("linked SQL file", "sql", func(j *Job, d D, n, text string) string {
		j.Files["real/"+n] = text
		j.Links[n+".lnk"] = "real/" + n
		return n + ".lnk"
	})
	dir("directory/", "N/models.go", "N/")
	dir("absolute directory", "N/deep/er/models.go", "@DIR@/N")
	dir("directory with the suffix of a file", "N.sql/m.go", "N.sql")
	add("linked directory", "go", func(j *Job, d D, n, text string) string {
		j.Files["real/"+n+"/m.go"] = text
		j.Links[n+".lnk"] = "real/" + n
		return n + ".lnk"
	})
	add("directory under the name of a database", "go", nil)
	out[len(out)-1].put = func(j *Job, d D, side int, c content) string {
		dn := sideDSN(d, side)
		j.Files[dn+"/m.go"] = c.source(d)
		j.DBs[dn] = DBSpec{D: d, Text: ""}
		return dn
	}
	return out
}

var driverOf = map[D]string{model.PG: "postgres", model.CR: "postgres", model.MY: "mysql", model.SP: "spanner"}

// opened checks which databases were opened, with which driver, and that nothing was changed in those only read.
func opened(d D, r *Reply, dbs map[string]bool, target string) string {
	seen := map[string]bool{}
	for _, e := range r.Log {
		if e.Call == "open" {
			if !dbs[e.DSN] {
				return fmt.Sprintf("%q is opened as a connection string", e.DSN)
			}
			if e.Text != driverOf[d] {
				return fmt.Sprintf("the database is opened with the driver %q", e.Text)
			}
			seen[e.DSN] = true
		}
		if e.Call == "exec" && e.DSN != target {
			return fmt.Sprintf("%q is executed on %s", clip(e.Text, 150), e.DSN)
		}
	}
	for x := range dbs {
		if !seen[x] {
			return fmt.Sprintf("the database %q is not opened", x)
		}
	}
	return ""
}

func c21(c *core.Ctx) {
	fs := aforms()
	c.Rule = fmt.Sprintf("all ordered pairs of contents in all ordered pairs of %d ways of naming a schema (SQL file, source directory, database; relative, absolute, linked, misleadingly named, under the very name of an existing database), for diff, and for apply with each second argument; the migration must be that of the two SQL texts as the selected dialect computes it (with a database: have the same effect), the databases opened must be exactly those named by arguments that are no existing path, with the driver of the dialect, and only the first argument of apply may be written to", len(fs))
	for _, d := range model.Dialects {
		var cs []content
		for _, x := range contents(d) {
			cs = append(cs, reported(d, x))
		}
		for ai, a := range cs {
			for bi, b := range cs {
				for fi, f := range fs {
					for gi, g := range fs {
						if !c.Thorough() && fi > 2 && gi > 2 && (ai+bi+fi+gi)%4 != 0 {
							continue
						}
						d, a, b, f, g := d, a, b, f, g
						c.Family("diff: " + f.kind + ", " + g.kind)
						c.Do(fmt.Sprintf("%s diff: %s as %s ==> %s as %s", d, a.name, f.name, b.name, g.name), func() core.Result { return formsCase(d, a, b, f, g, false) })
					}
					d, a, b, f := d, a, b, f
					c.Family("apply: " + f.kind)
					c.Do(fmt.Sprintf("%s apply: %s ==> %s as %s", d, a.name, b.name, f.name), func() core.Result { return formsCase(d, a, b, fs[2], f, true) })
					if f.kind != "db" {
						c.Family("apply to a path")
						c.Do(fmt.Sprintf("%s apply to a path: %s as %s ==> %s", d, a.name, f.name, b.name), func() core.Result { return applyToPath(d, a, b, f) })
					}
				}
			}
		}
		for _, o := range model.Dialects {
			for _, a := range contents(o)[1:] {
				a = reported(o, a)
				for _, g := range fs {
					d, o, a, g := d, o, a, g
					c.Family("other dialects")
					c.Do(fmt.Sprintf("%s text read as %s: %s as %s", o, d, a.name, g.name), func() core.Result { return crossCase(d, o, a, g) })
				}
			}
		}
	}
}

func formsCase(d D, a, b content, f, g aform, apply bool) core.Result {
	j := &Job{Files: map[string]string{}, Links: map[string]string{}, DBs: map[string]DBSpec{}}
	// reference databases that no argument names
	j.DBs["ref0"], j.DBs["ref1"] = DBSpec{D: d, Text: a.sql(d)}, DBSpec{D: d, Text: b.sql(d)}
	x, y := f.put(j, d, 0, a), g.put(j, d, 1, b)
	j.Args = []string{"diff", "--dialect", string(d), x, y}
	dbs := map[string]bool{}
	if f.kind == "db" {
		dbs[x] = true
	}
	if g.kind == "db" {
		dbs[y] = true
	}
	target := ""
	if apply {
		target = x
		j.Then = []Job{{Args: []string{"apply", "--auto-approve", "--dialect", string(d), x, y}}}
	}
	r := pool.Run(j)
	res := core.Result{Outcome: fmt.Sprintf("%s %s %s", d, f.kind, g.kind), States: []string{a.name + b.name}, Trans: 1, Trace: true,
		Detail: fmt.Sprintf("old:\n%s\nnew:\n%s\nargs: %s\nmigration:\n%s\nerror: %s\nlog: %s", a.sql(d), b.sql(d), list(j.Args), r.Out, r.Err, history(r))}
	bad := func(s string, v ...any) core.Result {
		res.Viol = fmt.Sprintf(s, v...)
		return res
	}
	if r.LoadErr != "" {
		return skip("not a database content: " + r.LoadErr)
	}
	if r.Unsup != "" {
		return skip("query outside the modelled SQL: " + r.Unsup)
	}
	if v := abnormal(r); v != "" {
		return bad("%s", v)
	}
	if v := opened(d, r, dbs, ""); v != "" {
		return bad("%s", v)
	}
	if r.Err != "" {
		return bad("fails: %s", clip(r.Err, 200))
	}
	got, err := split(d, r.Out)
	if err != nil {
		return bad("the migration is no list of statements: %v", err)
	}
	// what the dialect computes from the two texts
	want, why := libDiff(d, a.sql(d), b.sql(d))
	if why != "" {
		return skip(why)
	}
	if f.kind != "db" && g.kind != "db" {
		if v := sameStmts(plainStmts(got), plainStmts(want)); v != "" {
			return bad("differs from the migration between the texts: %s", v)
		}
	} else if len(got) != len(want) {
		return bad("%d statements instead of the %d of the migration between the texts", len(got), len(want))
	}
	after, err := effect(d, r.Before["ref0"], got)
	if err != nil && strings.Contains(err.Error(), "DROP INDEX without ON") { // a finding of C05
		res.Outcome = "not judged further: DROP INDEX without ON"
		return res
	}
	if err != nil {
		return bad("cannot be executed on the old schema: %v", err)
	}
	if v := sameDB(d, after, r.Before["ref1"]); v != "" {
		return bad("does not lead to the second argument: %s", v)
	}
	if !apply {
		return res
	}
	t := &r.Then[0]
	if v := abnormal(t); v != "" {
		return bad("apply: %s", v)
	}
	if t.Err != "" {
		return bad("apply fails: %s", clip(t.Err, 200))
	}
	if v := opened(d, t, dbs, target); v != "" {
		return bad("apply: %s", v)
	}
	if v := sameDB(d, t.After[x], r.Before["ref1"]); v != "" {
		return bad("apply does not lead to the second argument: %s", v)
	}
	if b0, ok := r.Before[y]; ok && y != x {
		if v := sameState(t.After[y], b0); v != "" {
			return bad("apply changes its second argument: %s", v)
		}
	}
	return res
}

// libDiff is the migration between two texts, computed without the command line.
func libDiff(d D, a, b string) ([]Stmt, string) {
	x, err := sut.Parse(d, a)
	if err != nil {
		return nil, "not accepted by the dialect: " + err.Error()
	}
	y, err := sut.Parse(d, b)
	if err != nil {
		return nil, "not accepted by the dialect: " + err.Error()
	}
	text, _, err := sut.Diff(x, y)
	if err != nil {
		return nil, "refused by the dialect: " + err.Error()
	}
	ss, err := split(d, text)
	if err != nil {
		return nil, "no list of statements: " + err.Error()
	}
	return ss, ""
}

// applyToPath: the first argument of apply names a database, an existing path is none.
func applyToPath(d D, a, b content, f aform) core.Result {
	j := &Job{Files: map[string]string{}, Links: map[string]string{}, DBs: map[string]DBSpec{}}
	x := f.put(j, d, 0, a)
	j.Files["want.sql"] = b.sql(d)
	j.Args = []string{"apply", "--auto-approve", "--dialect", string(d), x, "want.sql"}
	r := pool.Run(j)
	res := core.Result{Outcome: fmt.Sprintf("%s refused=%v", d, r.Err != ""), Trans: 1, Trace: true, Detail: fmt.Sprintf("args: %s\nscreen:\n%s\nerror: %s\nlog: %s", list(j.Args), r.Out, r.Err, history(r))}
	if r.LoadErr != "" {
		return skip("not a database content: " + r.LoadErr)
	}
	if v := abnormal(r); v != "" {
		res.Viol = v
		return res
	}
	for _, e := range r.Log {
		if e.Call == "exec" {
			res.Viol = "an existing path is used as a connection string: " + clip(e.Text, 150) + " is executed"
			return res
		}
	}
	if strings.Contains(r.Out, "executing") && r.Err == "" && len(r.Log) == 0 {
		res.Viol = "success is reported, but nothing was done"
	}
	return res
}

// crossCase: a text of one dialect given to another is judged by that one alone.
func crossCase(d, o D, b content, g aform) core.Result {
	j := &Job{Files: map[string]string{}, Links: map[string]string{}, DBs: map[string]DBSpec{}}
	if g.kind == "db" {
		dn := sideDSN(o, 1)
		j.DBs[dn] = DBSpec{D: o, Text: b.sql(o)}
		j.Args = []string{"show", "--dialect", string(d), dn}
		r := pool.Run(j)
		res := core.Result{Outcome: "show", Trans: 1, Trace: true, Detail: history(r)}
		if r.LoadErr != "" {
			return skip("not a database content: " + r.LoadErr)
		}
		if v := abnormal(r); v != "" {
			res.Viol = v
			return res
		}
		for _, e := range r.Log {
			if e.Call == "open" && (e.Text != driverOf[d] || e.DSN != dn) {
				res.Viol = fmt.Sprintf("%s opens %q with the driver %q", d, e.DSN, e.Text)
				return res
			}
		}
		if driverOf[d] != driverOf[o] && r.Err == "" {
			res.Viol = "a database of another kind is shown"
		}
		return res
	}
	j.Files["empty.sql"] = "\n"
	y := g.put(j, o, 1, b)
	j.Args = []string{"diff", "--dialect", string(d), "empty.sql", y}
	r := pool.Run(j)
	res := core.Result{Outcome: fmt.Sprintf("%s read as %s: err=%v", o, d, r.Err != ""), Trans: 1, Trace: true, Detail: b.sql(o) + "\nmigration:\n" + r.Out + "\n" + r.Err}
	if v := abnormal(r); v != "" {
		res.Viol = v
		return res
	}
	if len(r.Log) > 0 {
		res.Viol = "a database is opened: " + history(r)
		return res
	}
	if g.kind == "go" {
		if driverOf[d] != driverOf[o] { // the generated text depends on the dialect
			return res
		}
	}
	want, why := libDiff(d, "\n", b.sql(o))
	if (why != "") != (r.Err != "") {
		res.Viol = fmt.Sprintf("the dialect says %q, the command says %q", clip(why, 150), clip(r.Err, 150))
		return res
	}
	if why != "" {
		return res
	}
	got, err := split(d, r.Out)
	if err != nil {
		res.Viol = "no list of statements: " + err.Error()
	} else if v := sameStmts(plainStmts(got), plainStmts(want)); v != "" {
		res.Viol = "differs from what the dialect computes: " + v
	}
	return res
}
