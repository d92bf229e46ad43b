// Command ddlmc explores the dialect packages (parse, print, diff): properties C01 to C08.
package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/alpha"
	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/core"
	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/model"
	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/sut"
)

type D = model.Dialect

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: ddlmc PROPERTY quick|thorough")
		os.Exit(3)
	}
	if os.Getenv("VERIF_C08_OP") != "" {
		c08alone()
		return
	}
	c := core.New(os.Args[1], os.Args[2])
	c.Start()
	switch c.Property {
	case "C01":
		c01(c)
	case "C02":
		c02(c)
	case "C03":
		c03(c)
	case "C04":
		pairs(c, judgeC04)
		renames(c)
		chains(c)
	case "C05":
		pairs(c, judgeC05)
	case "C06":
		pairs(c, judgeC06)
		equivalents(c)
	case "C07":
		pairs(c, judgeC07)
	case "C08":
		c08(c)
	default:
		os.Exit(3)
	}
	os.Exit(c.Finish())
}

func one(s string) string { return strings.Join(strings.Fields(s), " ") }

// schema is one element of the alphabet: its text and what it means.
type schema struct {
	text string
	m    *model.Schema
	val  error
}

func load(d D, texts []string) []schema {
	var out []schema
	seen := map[string]bool{}
	for _, t := range texts {
		if seen[t] {
			continue
		}
		seen[t] = true
		m := model.MustSchema(d, t)
		out = append(out, schema{t, m, m.Valid()})
	}
	return out
}

// pair is what one diff of the implementation produced, read by the model.
type pair struct {
	d          D
	a, b       schema
	text       string
	none       bool
	err        error
	stmts      []*model.Stmt
	bad        string // the pair could not be evaluated: implementation failed
	aNil, bNil bool
	probe      bool // of a listed finding
}

var docs sut.Cache

func doc(d D, s schema, isNil bool) (*sut.Doc, error) {
	if isNil {
		return sut.Nil(d), nil
	}
	return docs.Parse(d, s.text)
}

func eval(d D, a, b schema, aNil, bNil bool) *pair {
	p := &pair{d: d, a: a, b: b, aNil: aNil, bNil: bNil}
	x, err := doc(d, a, aNil)
	if err != nil {
		p.bad = "old schema is not accepted: " + err.Error()
		return p
	}
	y, err := doc(d, b, bNil)
	if err != nil {
		p.bad = "new schema is not accepted: " + err.Error()
		return p
	}
	p.text, p.none, p.err = sut.Diff(x, y)
	if p.err != nil {
		p.bad = "diff fails: " + p.err.Error()
		return p
	}
	if p.stmts, err = model.ReadStmts(d, p.text); err != nil {
		p.bad = "the migration is not readable SQL: " + err.Error()
	}
	return p
}

type judge func(p *pair, r *core.Result)

func pairs(c *core.Ctx, j judge) {
	sut.Quiet() // C02 runs the parsers with the logger in place
	c.Rule = "every ordered pair of schemas of every family (all listed spellings of types, defaults, constraints, indexes, options, table sets, names, easily confused values, 10 to 100 objects, per dialect), plus each schema against the absent and the empty schema"
	for _, d := range model.Dialects {
		for _, f := range alpha.All(d, c.Thorough()) {
			c.Family(string(d) + ": " + f.Name)
			ss := load(d, f.Texts)
			for i := range ss {
				for k := range ss {
					run(c, d, ss[i], ss[k], false, false, j)
				}
			}
			c.Family(string(d) + ": absent and empty side, " + f.Name)
			empty := schema{"", &model.Schema{D: d}, nil}
			for i := range ss {
				if ss[i].text == "" {
					continue
				}
				run(c, d, ss[i], empty, false, true, j)
				run(c, d, empty, ss[i], true, false, j)
				run(c, d, ss[i], empty, false, false, j)
				run(c, d, empty, ss[i], false, false, j)
			}
		}
		c.Family(string(d) + ": everything unchanged but one added column")
		for _, f := range alpha.All(d, c.Thorough()) {
			for _, s := range load(d, f.Texts) {
				for k, t := range withColumn(d, s) {
					ss := load(d, []string{t})
					if k == 0 || c.Thorough() {
						run(c, d, s, ss[0], false, false, j)
					}
					run(c, d, ss[0], s, false, false, j)
				}
			}
		}
		for _, g := range append(alpha.Texts(d), alpha.Sizes(d, c.Thorough())...) {
			c.Family(string(d) + ": sizes: " + g.What)
			ss := load(d, g.Texts)
			for i := range ss {
				for k := range ss {
					run(c, d, ss[i], ss[k], false, false, j)
				}
			}
		}
		c.Family(string(d) + ": probes of listed findings")
		for _, p := range alpha.Probes(d) {
			ss := load(d, []string{p.A, p.B})
			run(c, d, ss[0], ss[1], false, false, func(p *pair, r *core.Result) { p.probe = true; j(p, r) })
		}
	}
}

// withColumn adds one column to each table in turn.
func withColumn(d D, s schema) (out []string) {
	parts := strings.SplitAfter(s.text, "CREATE TABLE ")
	for i := 1; i < len(parts); i++ {
		at := strings.Index(parts[i], "(")
		if at < 0 {
			continue
		}
		ps := append([]string{}, parts...)
		ps[i] = ps[i][:at+1] + "\n    zz9 " + alpha.Vocs[d].Int + "," + ps[i][at+1:]
		x := strings.Join(ps, "")
		if _, err := model.ReadSchema(d, x); err == nil {
			out = append(out, x)
		}
	}
	return out
}

func run(c *core.Ctx, d D, a, b schema, aNil, bNil bool, j judge) {
	key := fmt.Sprintf("%s: %s ==> %s", d, name(a, aNil), name(b, bNil))
	c.Do(key, func() core.Result {
		p := eval(d, a, b, aNil, bNil)
		r := core.Result{Trace: true, Trans: len(p.stmts), States: []string{string(d) + a.m.Canon(true), string(d) + b.m.Canon(true)}}
		r.Outcome = outcome(p)
		r.Detail = "migration: " + p.text
		if p.bad != "" {
			r.Viol = p.bad
			return r
		}
		j(p, &r)
		return r
	})
}

func name(s schema, isNil bool) string {
	if isNil {
		return "<absent>"
	}
	if s.text == "" {
		return "<empty>"
	}
	return one(s.text)
}

func outcome(p *pair) string {
	if p.bad != "" {
		return p.bad
	}
	if p.none {
		return "none"
	}
	var o []string
	for _, s := range p.stmts {
		o = append(o, s.Op)
	}
	return strings.Join(o, ",")
}

// reach executes the migration and compares with the wanted schema.
func reach(p *pair, strict bool) (string, error, []string) {
	g := p.a.m.Clone()
	var states []string
	for _, s := range p.stmts {
		if err := g.Exec(s, strict); err != nil {
			return "", err, states
		}
		states = append(states, string(p.d)+g.Canon(true))
	}
	x, y := model.Settle(g, p.b.m)
	return model.DiffFacts(x.Facts(false), y.Facts(false)), nil, states
}

func judgeC04(p *pair, r *core.Result) {
	diff, err, states := reach(p, false)
	r.States = append(r.States, states...)
	if err != nil {
		r.Viol = "the migration cannot be carried through: " + err.Error()
		return
	}
	if diff != "" {
		r.Viol = "the migration does not lead to the target: " + diff
		return
	}
	if p.a.val == nil && p.b.val == nil {
		if diff, err, _ := reach(p, true); err == nil && diff != "" {
			r.Viol = "the migration does not lead to the target on a database that drops dependents of dropped columns: " + diff
		}
	}
}

func judgeC05(p *pair, r *core.Result) {
	if p.a.val != nil || p.b.val != nil {
		return
	}
	for _, s := range p.stmts {
		if p.probe && p.d == model.MY && s.Op == "drop_index" && s.Table == "" {
			r.Viol = "mysql needs the table: " + one(s.Text)
			return
		}
	}
	_, err, states := reach(p, true)
	r.States = append(r.States, states...)
	if err != nil {
		r.Viol = err.Error()
	}
}

func judgeC06(p *pair, r *core.Result) {
	x, y := model.Settle(p.a.m, p.b.m)
	diff := model.DiffFacts(x.Facts(false), y.Facts(false))
	switch {
	case diff == "" && !p.none:
		r.Viol = "the schemas mean the same but a difference is reported: " + one(p.text)
	case diff != "" && p.none:
		r.Viol = "no difference is reported although: " + diff
	case !p.none && len(p.stmts) == 0:
		r.Viol = "a difference is reported but the migration is empty"
	}
}

func tableFacts(s *model.Schema, t string) string {
	x := s.Table(t)
	if x == nil {
		return ""
	}
	n := &model.Schema{D: s.D, Tables: []*model.Table{x}}
	return n.Canon(false)
}

func rebuilt(p *pair, x, y *model.Schema, t string) bool {
	if p.d != model.SP {
		return false
	}
	a, b := x.Table(t), y.Table(t)
	if a == nil || b == nil {
		return false
	}
	return a.Opts["PRIMARY KEY"] != b.Opts["PRIMARY KEY"] || a.Opts["INTERLEAVE"] != b.Opts["INTERLEAVE"]
}

func judgeC07(p *pair, r *core.Result) {
	x, y := model.Settle(p.a.m, p.b.m)
	if v := collateral(p, x, y); v != "" {
		r.Viol = v
	}
}

func conCanon(s *model.Schema, t, n string) string {
	if x := s.Table(t); x != nil {
		if k := x.Con(n); k != nil {
			return k.Canon()
		}
	}
	return ""
}

func idxCanon(s *model.Schema, n, t string) string {
	for _, x := range s.Indexes {
		if x.Name == n && (t == "" || x.Table == t) {
			return x.Canon()
		}
	}
	return ""
}

func collateral(p *pair, x, y *model.Schema) string {
	seen := map[string]bool{}
	for _, s := range p.stmts {
		txt := one(s.Text)
		if seen[txt] {
			return "statement emitted twice: " + txt
		}
		seen[txt] = true
		a, b := x.Table(s.Table), y.Table(s.Table)
		reb := rebuilt(p, x, y, s.Table)
		switch s.Op {
		case "create_table":
			if a != nil && !reb {
				return "creates a table that is there already: " + txt
			}
			continue
		case "drop_table":
			if b != nil && !reb {
				return "drops a table that is kept: " + txt
			}
			continue
		case "create_index", "drop_index":
			n := s.Name
			same := idxCanon(x, n, s.Table) != "" && idxCanon(x, n, s.Table) == idxCanon(y, n, s.Table)
			if s.Table == "" && p.d == model.MY {
				// name only: several tables may have such an index
				same = true
				for _, i := range x.Indexes {
					if i.Name == n && idxCanon(y, n, i.Table) != i.Canon() {
						same = false
					}
				}
			}
			if same {
				t := s.Table
				if t == "" {
					if i := x.Index(n); i != nil {
						t = i.Table
					}
				}
				if !rebuilt(p, x, y, t) {
					return "touches an index that is the same in both: " + txt
				}
			}
			continue
		}
		if a == nil || b == nil {
			if a == nil {
				return "alters a table that the old schema does not have: " + txt
			}
			continue // e.g. constraints dropped ahead of the table
		}
		if !reb && tableFacts(x, s.Table) == tableFacts(y, s.Table) && !refersToRebuilt(p, x, y, s.Table, s.Name) {
			return "touches a table that is the same in both: " + txt
		}
		switch s.Op {
		case "add_con", "drop_con":
			if c := conCanon(x, s.Table, s.Name); c != "" && c == conCanon(y, s.Table, s.Name) && !refersToRebuilt(p, x, y, s.Table, s.Name) {
				return "touches a constraint that is the same in both: " + txt
			}
		case "set_opt":
			if a.Opts[s.Name] == b.Opts[s.Name] {
				return "sets an option that is the same in both: " + txt
			}
		case "add_rdp", "replace_rdp", "drop_rdp":
			if a.Opts["ROW DELETION POLICY"] == b.Opts["ROW DELETION POLICY"] {
				return "changes a row deletion policy that is the same in both: " + txt
			}
		default:
			ca, cb := a.Col(s.Name), b.Col(s.Name)
			switch {
			case s.Op == "add_col" && ca != nil:
				return "adds a column that is there already: " + txt
			case s.Op == "drop_col" && cb != nil:
				return "drops a column that is kept: " + txt
			}
			if ca == nil || cb == nil {
				continue
			}
			same := false
			switch s.Op {
			case "modify_col":
				same = ca.Canon() == cb.Canon()
			case "set_type":
				same = ca.Type == cb.Type
			case "set_type_null":
				same = ca.Type == cb.Type && ca.NotNull == cb.NotNull
			case "set_default", "drop_default":
				same = ca.Default == cb.Default
			case "set_not_null", "drop_not_null":
				same = ca.NotNull == cb.NotNull
			case "set_options", "drop_options":
				same = ca.Option == cb.Option
			}
			if same {
				return "changes an attribute that is the same in both: " + txt
			}
		}
	}
	return ""
}

// refersToRebuilt: a foreign key has to be dropped and added again when the table it refers to is.
func refersToRebuilt(p *pair, x, y *model.Schema, t, n string) bool {
	for _, s := range []*model.Schema{x, y} {
		if tb := s.Table(t); tb != nil {
			if k := tb.Con(n); k != nil && k.Kind == "fk" && rebuilt(p, x, y, k.Ref) {
				return true
			}
		}
	}
	return false
}
