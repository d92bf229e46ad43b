package main

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/alpha"
	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/core"
	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/fakedb"
	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/model"
	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/sut"
)

// asShown reduces both sides to what a catalogue can express.
//
// Unless strict, what the queries for the dialect never read (see known_findings.txt) is left out on both sides.
func asShown(d D, got, want *model.Schema, strict bool) (*model.Schema, *model.Schema) {
	g, w := got.Clone(), want.Clone()
	if !strict && d == model.SP {
		for _, s := range []*model.Schema{g, w} {
			for _, t := range s.Tables {
				var ks []*model.Con
				for _, c := range t.Cons {
					if c.Kind != "fk" && c.Kind != "check" {
						ks = append(ks, c)
					}
				}
				t.Cons = ks
				for k := range t.Opts {
					if k == "INTERLEAVE" {
						delete(t.Opts, k)
					}
				}
			}
		}
	}
	for k, s := range []*model.Schema{g, w} {
		for _, t := range s.Tables {
			if d == model.PG || d == model.CR {
				t.Name = strings.TrimPrefix(t.Name, "public.")
				for _, c := range t.Cons {
					c.Ref = strings.TrimPrefix(c.Ref, "public.")
				}
			}
			for _, c := range t.Cons {
				for i := range c.Cols {
					if d != model.SP && c.Kind != "pk" {
						c.Cols[i] = strings.TrimSuffix(c.Cols[i], " DESC")
					}
				}
				var on []string
				for _, o := range c.On {
					if !strings.HasSuffix(o, "NO ACTION") {
						on = append(on, o)
					}
				}
				c.On = on
				c.Expr = "( " + model.Unparen(c.Expr) + " )"
			}
			for _, c := range t.Cols {
				for _, p := range t.Cons {
					if p.Kind == "pk" {
						for _, n := range p.Cols {
							if strings.TrimSuffix(n, " DESC") == c.Name {
								c.NotNull = true
							}
						}
					}
				}
				if strings.EqualFold(c.Default, "NULL") {
					c.Default = ""
				}
			}
			if d == model.MY && k == 0 { // what SHOW CREATE TABLE adds by itself
				if wt := w.Table(t.Name); wt != nil {
					for k := range t.Opts {
						if _, ok := wt.Opts[k]; !ok {
							delete(t.Opts, k)
						}
					}
				}
			}
			if d == model.CR && k == 0 {
				var cs []*model.Col
				wt := w.Table(t.Name)
				for _, c := range t.Cols {
					if wt != nil && wt.Col(c.Name) == nil && c.Name == "rowid" {
						continue
					}
					cs = append(cs, c)
				}
				t.Cols = cs
				var ks []*model.Con
				for _, c := range t.Cons {
					if wt != nil && c.Kind == "pk" && len(c.Cols) == 1 && c.Cols[0] == "rowid" && wt.Col("rowid") == nil {
						continue
					}
					ks = append(ks, c)
				}
				t.Cons = ks
			}
		}
		for _, x := range s.Indexes {
			x.Table = strings.TrimPrefix(x.Table, "public.")
		}
	}
	return g, w
}

var needsQuotes = map[D]*regexp.Regexp{
	model.PG: regexp.MustCompile("TABLE (\"s1.t\"|\"order\"|\"my t\"|T1|s[12][.]t|\"t-1\") \\("),
	model.CR: regexp.MustCompile("TABLE (\"s1.t\"|\"order\"|\"my t\"|T1|s[12][.]t|\"t-1\") \\("),
	model.SP: regexp.MustCompile("TABLE (`s1[.]t`|s1[.]t) \\(|allow_commit_timestamp = null"),
	model.MY: regexp.MustCompile("TABLE (`s1[.]t`|s1[.]t) \\("),
}

// c16Probes are contents that show is known to show wrongly.
func c16Probes(d D) []string {
	v := alpha.Vocs[d]
	id := "id " + v.Int + " NOT NULL"
	switch d {
	case model.PG:
		return []string{alpha.T(d, `"my t"`, id), alpha.T(d, `"order"`, id, "a "+v.Int)}
	case model.CR:
		return []string{alpha.T(d, `"my t"`, id), alpha.P(d) + alpha.T(d, "t", id, "CONSTRAINT f FOREIGN KEY (id) REFERENCES p (id)")}
	case model.SP:
		q := alpha.T(d, "q", id)
		return []string{alpha.P(d) + alpha.T(d, "t", id, "CONSTRAINT f FOREIGN KEY (id) REFERENCES p (id)"), alpha.T(d, "t", id, "CONSTRAINT k CHECK (id > 0)"),
			q + alpha.TO(d, "t", " PRIMARY KEY (id, a), INTERLEAVE IN PARENT q", id, "a "+v.Int+" NOT NULL"), alpha.T(d, "t", id, "c TIMESTAMP OPTIONS (allow_commit_timestamp = null)")}
	}
	return nil
}

func c16(c *core.Ctx) {
	c.Rule = "every catalogue content of the alphabet (per dialect: every column type, default and nullability, column sets, constraint sets of size 2, inline constraints, indexes, table sets, options, names), alone, in presence of views, same-named tables of another schema and ordinal holes, under every row order a query leaves open; the shown text is read by an independent reader and by the tool and compared with the catalogue"
	for _, d := range model.Dialects {
		d := d
		for _, f := range alpha.All(d, c.Thorough()) {
			c.Family(f.Name)
			for _, text := range f.Texts {
				text := text
				if needsQuotes[d].MatchString(text) {
					continue // see c16Probes
				}
				envs := []DBSpec{{D: d, Text: text}}
				for _, p := range []string{"rev", "rot"} {
					envs = append(envs, DBSpec{D: d, Text: text, Perm: p})
				}
				for _, sp := range envs {
					sp := sp
					key := fmt.Sprintf("show %s %q perm=%s", d, text, sp.Perm)
					c.Do(key, func() core.Result { return showCase(d, sp, false) })
				}
			}
		}
		c.Family("products")
		for _, text := range alpha.Products(d, c.Thorough()) {
			if needsQuotes[d].MatchString(text) {
				continue
			}
			if strings.Contains(text, "REFERENCES p") {
				text = alpha.P(d) + text
			}
			sp := DBSpec{D: d, Text: text}
			c.Do(fmt.Sprintf("show %s %q", d, text), func() core.Result { return showCase(d, sp, false) })
		}
		c.Family("never shown")
		for _, text := range c16Probes(d) {
			sp := DBSpec{D: d, Text: text}
			c.Do(fmt.Sprintf("show %s %q in full", d, text), func() core.Result { return showCase(d, sp, true) })
		}
		c.Family("surroundings")
		for _, text := range surroundings(d) {
			for _, other := range append([]string{"", text, alpha.P(d)}, crossed(d, text)...) {
				for _, views := range [][]string{nil, {"v"}, {"v", "a_view"}} {
					for _, holes := range []int{0, 2} {
						for _, perm := range []string{"", "rev", "rot"} {
							sp := DBSpec{D: d, Text: text, Other: other, Views: views, Holes: holes, Perm: perm}
							key := fmt.Sprintf("show %s %q other=%q views=%v holes=%d perm=%s", d, text, other, views, holes, perm)
							c.Do(key, func() core.Result { return showCase(d, sp, false) })
						}
					}
				}
			}
		}
	}
}

// crossed: another schema in which the names of this one mean other things.
func crossed(d D, text string) (out []string) {
	db := &fakedb.DB{D: d}
	if db.Load(text) != nil || len(db.Schema.Tables) == 0 {
		return nil
	}
	v := alpha.Vocs[d]
	id := "id " + v.Int + " NOT NULL"
	var cols, idx, con strings.Builder
	for i, t := range db.Schema.Tables {
		cols.WriteString(alpha.T(d, bareName(t.Name), id, "zz "+v.Str))
		for j, c := range t.Cons {
			if c.Name != "" && !strings.EqualFold(c.Name, "PRIMARY") {
				n := fmt.Sprintf("zz%d_%d", i, j)
				idx.WriteString(alpha.T(d, n, id) + "CREATE INDEX " + c.Name + " ON " + n + " (id);\n")
			}
		}
	}
	for i, x := range db.Schema.Indexes {
		n := fmt.Sprintf("zz%d", i)
		if d == model.SP {
			con.WriteString(alpha.T(d, n, id, "CONSTRAINT "+x.Name+" CHECK (id > 0)"))
			continue
		}
		for _, kind := range []string{"UNIQUE (id)", "CHECK (id > 0)"} {
			if kind[0] == 'C' {
				n += "c"
			}
			con.WriteString(alpha.T(d, n, id, "CONSTRAINT "+x.Name+" "+kind))
		}
	}
	for _, b := range []string{cols.String(), idx.String(), con.String()} {
		if b != "" {
			out = append(out, b)
		}
	}
	return
}

func bareName(n string) string { return n[strings.LastIndexByte(n, '.')+1:] }

func surroundings(d D) []string {
	out := []string{""}
	fs := alpha.All(d, false)
	for _, f := range fs {
		n := len(f.Texts)
		for _, i := range []int{n / 5, n / 2, n - 1} {
			if i >= 0 && i < n && !needsQuotes[d].MatchString(f.Texts[i]) {
				out = append(out, f.Texts[i])
			}
		}
	}
	return out
}

func showCase(d D, sp DBSpec, strict bool) core.Result {
	j := &Job{Args: []string{"show", "--dialect", string(d), dsn[d]}, DBs: map[string]DBSpec{dsn[d]: sp}}
	r := pool.Run(j)
	if r.LoadErr != "" {
		return skip("not a database content")
	}
	if v := abnormal(r); v != "" {
		return viol("%s", v)
	}
	if r.Unsup != "" {
		return skip("query outside the modelled SQL: " + r.Unsup)
	}
	want := r.Before[dsn[d]]
	res := core.Result{Outcome: fmt.Sprintf("%s tables=%d indexes=%d", d, len(want.Tables), len(want.Indexes)), States: []string{string(d) + want.Canon(true)}, Trans: len(r.Log), Trace: true}
	bad := func(f string, a ...any) core.Result {
		res.Viol = fmt.Sprintf(f, a...)
		res.Detail = fmt.Sprintf("database: %s\nshown: %s\nerr: %s", want.Canon(true), r.Out, r.Err)
		return res
	}
	if r.Err != "" {
		return bad("show fails: %s", r.Err)
	}
	if len(want.Tables) == 0 && strings.TrimSpace(r.Out) != "" {
		return bad("an empty database is shown as %q", r.Out)
	}
	sts, err := model.ReadStmts(d, r.Out)
	if err != nil {
		return bad("the shown text cannot be read: %v", err)
	}
	seen := map[string]int{}
	for _, s := range sts {
		n := s.Op + " " + s.Table
		if s.Op == "create_index" {
			n = s.Op + " " + s.Name
		}
		seen[n]++
		if seen[n] > 1 && s.Op != "add_con" && s.Op != "validate_con" {
			return bad("%s is shown more than once", n)
		}
	}
	got := &model.Schema{D: d}
	for _, s := range sts {
		if d == model.CR && (s.Op == "add_con" || s.Op == "validate_con") || strings.HasPrefix(s.Op, "create_") {
			if err = got.Exec(s, false); err == nil {
				continue
			}
			break
		}
		err = fmt.Errorf("not a schema statement: %s", s.Op)
	}
	if err != nil {
		return bad("the shown text cannot be read: %v", err)
	}
	g, w := asShown(d, got, want, strict)
	if df := model.DiffFacts(g.Facts(true), w.Facts(true)); df != "" {
		return bad("shown schema differs: %s", df)
	}
	if d == model.CR && !strict && strings.Contains(r.Out, "FOREIGN KEY") {
		return res // shown as ALTER TABLE statements, which the tool does not read: see c16Probes
	}
	doc, err := sut.Parse(d, r.Out)
	if err != nil {
		return bad("the tool cannot read the shown text: %v", err)
	}
	got2, err := model.ReadSchema(d, doc.String())
	if err != nil {
		return bad("what the tool reads from the shown text cannot be read: %v", err)
	}
	g2, _ := asShown(d, got2, want, strict)
	if df := model.DiffFacts(g2.Facts(true), w.Facts(true)); df != "" {
		return bad("the tool reads the shown text differently: %s", df)
	}
	return res
}
