// Package alpha is the alphabet: the schemas over which the explorer enumerates, as SQL text.
package alpha

import (
	"fmt"
	"strings"

	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/model"
)

type D = model.Dialect

// Family is a set of schema texts; the checks explore all ordered pairs of it.
type Family struct {
	Name  string
	D     D
	Texts []string
}

// T renders a CREATE TABLE statement.
func T(d D, name string, items ...string) string {
	return TO(d, name, defOpt(d), items...)
}

func defOpt(d D) string {
	if d == model.SP {
		return " PRIMARY KEY (id)"
	}
	return ""
}

func TO(d D, name, opt string, items ...string) string {
	return "CREATE TABLE " + name + " (\n    " + strings.Join(items, ",\n    ") + "\n)" + opt + ";\n"
}

// vocabulary of plain types per dialect
type Voc struct{ Int, Big, Str, Lng, Ts, Bool string }

var Vocs = map[D]Voc{
	model.PG: {"INTEGER", "BIGINT", "VARCHAR(64)", "TEXT", "TIMESTAMP WITH TIME ZONE", "BOOLEAN"},
	model.MY: {"INT", "BIGINT", "VARCHAR(64)", "TEXT", "DATETIME", "TINYINT(1)"},
	model.CR: {"INT4", "INT8", "VARCHAR(64)", "STRING", "TIMESTAMPTZ", "BOOL"},
	model.SP: {"INT64", "FLOAT64", "STRING(64)", "STRING(MAX)", "TIMESTAMP", "BOOL"},
}

var Types = map[D][]string{
	model.PG: {"BOOLEAN", "SMALLINT", "INTEGER", "INT", "BIGINT", "DECIMAL", "DECIMAL(10)", "DECIMAL(10, 2)", "DECIMAL(10, 3)", "NUMERIC", "NUMERIC(10, 2)", "REAL", "DOUBLE PRECISION",
		"SMALLSERIAL", "SERIAL", "BIGSERIAL", "UUID", "JSONB", "CHARACTER VARYING", "CHARACTER VARYING(10)", "VARCHAR(10)", "VARCHAR(20)", "VARCHAR(102)", "TEXT", "TIMESTAMP", "TIMESTAMP(3)",
		"TIMESTAMPTZ", "TIMESTAMP WITH TIME ZONE"},
	model.MY: {"BOOLEAN", "BIT", "BIT(8)", "TINYINT", "TINYINT(1)", "SMALLINT", "INTEGER", "INT", "BIGINT", "DECIMAL", "DECIMAL(10)", "DECIMAL(10, 2)", "DECIMAL(1, 02)", "NUMERIC(10, 2)", "REAL", "DOUBLE",
		"DOUBLE PRECISION", "JSON", "CHAR(1)", "CHAR(2)", "VARCHAR(10)", "VARCHAR(20)", "CHARACTER VARYING(10)", "TEXT", "MEDIUMTEXT", "LONGTEXT", "TIMESTAMP", "TIMESTAMP(3)", "DATETIME", "DATETIME(6)",
		"DATE", "TIME", "ENUM('a')", "ENUM('a', 'b')", "ENUM('b', 'a')"},
	model.CR: {"BOOL", "BOOLEAN", "INT2", "SMALLINT", "INT4", "INTEGER", "INT8", "BIGINT", "DECIMAL", "DECIMAL(10, 2)", "DECIMAL(10, 3)", "NUMERIC(10, 2)", "FLOAT4", "FLOAT8", "REAL", "DOUBLE PRECISION",
		"SERIAL", "BIGSERIAL", "UUID", "JSONB", "CHARACTER VARYING(10)", "VARCHAR(10)", "VARCHAR(20)", "VARCHAR", "STRING", "STRING(10)", "TEXT", "TIMESTAMP", "TIMESTAMP(3)", "TIMESTAMPTZ",
		"TIMESTAMP WITH TIME ZONE"},
	model.SP: {"BOOL", "INT64", "FLOAT64", "NUMERIC", "JSON", "STRING(10)", "STRING(20)", "STRING(102)", "STRING(MAX)", "TIMESTAMP"},
}

// Tails are column definitions after the type (nullability and default), with the type they suit.
func Tails(d D) []string {
	v := Vocs[d]
	var out []string
	add := func(s ...string) { out = append(out, s...) }
	// default values
	defs := map[string][]string{}
	switch d {
	case model.PG:
		defs[v.Int] = []string{"0", "1", "NULL", "(1 + 2)", "- 1", "nextval('s')"}
		defs[v.Lng] = []string{"''", "'a'", "'b'", "'a b'", "'a  b'", "'A'", "'a,b'", "'(a'", "'--x'", "'a;b'", "'it''s'", "'NULL'", "'a' || 'b'", "'a'::TEXT", "\"current_user\""}
		defs[v.Ts] = []string{"now()", "CURRENT_TIMESTAMP", "date_trunc('day', now())"}
		defs[v.Bool] = []string{"TRUE", "FALSE"}
	case model.MY:
		defs[v.Int] = []string{"0", "1", "'2'", "NULL", "(1 + 2)"}
		defs[v.Str] = []string{"''", "'a'", "'b'", "'a b'", "'A'", "'a,b'", "'(a'", "'--x'", "'a;b'", "'it''s'", "(uuid())", "(concat('a', 'b'))"}
		defs[v.Ts] = []string{"CURRENT_TIMESTAMP", "CURRENT_TIMESTAMP(6)", "'2000-01-01 00:00:00'"}
		defs[v.Bool] = []string{"TRUE", "FALSE"}
	case model.CR:
		defs[v.Int] = []string{"0", "1", "NULL", "(1 + 2)", "0:::INT8", "unique_rowid()"}
		defs[v.Lng] = []string{"''", "'a'", "'b'", "'a b'", "'a,b'", "'(a'", "'--x'", "'a;b'", "'it''s'", "'a':::STRING", "'a' || 'b'"}
		defs[v.Ts] = []string{"now()", "now():::TIMESTAMPTZ", "CURRENT_TIMESTAMP"}
		defs[v.Bool] = []string{"TRUE", "false"}
	case model.SP:
		defs[v.Int] = []string{"(0)", "(1)", "(1 + 2)"}
		defs[v.Lng] = []string{"('')", "('a')", "('b')", "('a b')", "('a,b')", "('(a')", "('--x')", "('a;b')", "(GENERATE_UUID())"}
		defs[v.Ts] = []string{"(CURRENT_TIMESTAMP())"}
		defs[v.Bool] = []string{"(TRUE)", "(FALSE)"}
	}
	for _, t := range []string{v.Int, v.Str, v.Lng, v.Ts, v.Bool} {
		add(t, t+" NOT NULL")
		for _, x := range defs[t] {
			add(t+" DEFAULT "+x, t+" NOT NULL DEFAULT "+x)
		}
	}
	switch d {
	case model.PG:
		add("INTEGER NULL", "INTEGER DEFAULT 0 NOT NULL", "VARCHAR(64) NULL DEFAULT 'a'")
	case model.CR:
		add("INT4 NULL", "INT4 DEFAULT 0 NOT NULL", "INT8 NOT VISIBLE NOT NULL DEFAULT unique_rowid()", "INT8 NOT NULL DEFAULT unique_rowid()",
			"STRING AS (concat(a, z)) STORED", "STRING NULL AS (concat(a, z)) STORED", "STRING AS (concat(z, a)) STORED", "STRING NOT NULL AS (concat(a, z)) VIRTUAL")
	case model.MY:
		add("INT NULL", "INT NULL DEFAULT 0", "INT NOT NULL AUTO_INCREMENT", "BIGINT NOT NULL AUTO_INCREMENT",
			"VARCHAR(64) CHARACTER SET utf8mb4", "VARCHAR(64) CHARACTER SET latin1", "VARCHAR(64) COLLATE utf8mb4_bin", "VARCHAR(64) CHARACTER SET utf8mb4 COLLATE utf8mb4_bin NOT NULL",
			"VARCHAR(64) CHARACTER SET utf8mb4 COLLATE utf8mb4_unicode_ci NOT NULL DEFAULT 'a'",
			"DATETIME NOT NULL DEFAULT CURRENT_TIMESTAMP ON UPDATE CURRENT_TIMESTAMP", "DATETIME NULL ON UPDATE CURRENT_TIMESTAMP",
			"INT NOT NULL COMMENT 'x'", "INT NOT NULL COMMENT 'y'", "INT NOT NULL DEFAULT 0 COMMENT 'x y'", "INT COMMENT 'a,b'", "INT COMMENT 'a;b'", "INT COMMENT 'it''s'", "INT COMMENT ''")
	case model.SP:
		add("INT64 NULL", "TIMESTAMP OPTIONS (allow_commit_timestamp = true)", "TIMESTAMP NOT NULL OPTIONS (allow_commit_timestamp = true)", "TIMESTAMP OPTIONS (allow_commit_timestamp = null)",
			"TIMESTAMP NOT NULL DEFAULT (CURRENT_TIMESTAMP()) OPTIONS (allow_commit_timestamp = true)")
	}
	return out
}

// P is a parent table for foreign keys.
func P(d D) string {
	v := Vocs[d]
	if d == model.SP {
		return TO(d, "p", " PRIMARY KEY (id)", "id "+v.Int+" NOT NULL", "k "+v.Int+" NOT NULL")
	}
	if d == model.MY {
		return T(d, "p", "id "+v.Int+" NOT NULL", "k "+v.Int+" NOT NULL", "PRIMARY KEY (id)", "UNIQUE KEY pk_uk (k)")
	}
	if d == model.CR {
		return T(d, "p", "id "+v.Int+" NOT NULL", "k "+v.Int+" NOT NULL", "CONSTRAINT p_pkey PRIMARY KEY (id)", "UNIQUE INDEX p_uk (k)")
	}
	return T(d, "p", "id "+v.Int+" NOT NULL", "k "+v.Int+" NOT NULL", "CONSTRAINT p_pkey PRIMARY KEY (id)", "CONSTRAINT p_uk UNIQUE (k)")
}

// ColumnPairs: one column in every definition, embedded between two others.
func ColumnTypes(d D) Family {
	f := Family{Name: "column types", D: d}
	v := Vocs[d]
	for _, t := range Types[d] {
		f.Texts = append(f.Texts, T(d, "t", "id "+v.Int+" NOT NULL", "c "+t, "z "+v.Lng))
	}
	return f
}

func ColumnTails(d D) Family {
	f := Family{Name: "column definitions", D: d}
	v := Vocs[d]
	for _, t := range Tails(d) {
		if d == model.CR && (strings.Contains(t, " AS (") || strings.Contains(t, "NOT VISIBLE")) {
			continue // see Probes
		}
		f.Texts = append(f.Texts, T(d, "t", "id "+v.Int+" NOT NULL", "a "+v.Lng, "c "+t, "z "+v.Lng))
	}
	return f
}

// ColumnSets: every subset of three columns, each in two definitions, in two orders.
func ColumnSets(d D) Family {
	f := Family{Name: "column sets", D: d}
	v := Vocs[d]
	def := " DEFAULT 0"
	if d == model.SP {
		def = " DEFAULT (0)"
	}
	defs := []string{"", v.Int, v.Big + " NOT NULL" + def}
	for i := range defs {
		for j := range defs {
			for k := range defs {
				for _, rev := range []bool{false, true} {
					items := []string{}
					for n, x := range map3(i, j, k) {
						if defs[x] != "" {
							items = append(items, string("abc"[n])+" "+defs[x])
						}
					}
					if rev {
						if len(items) < 2 {
							continue
						}
						for l, r := 0, len(items)-1; l < r; l, r = l+1, r-1 {
							items[l], items[r] = items[r], items[l]
						}
					}
					f.Texts = append(f.Texts, T(d, "t", append([]string{"id " + v.Int + " NOT NULL"}, items...)...))
				}
			}
		}
	}
	return f
}

func map3(i, j, k int) []int { return []int{i, j, k} }

// Constraints are the table constraint forms on t(id,a,b,c), named and unnamed.
func Constraints(d D) []string {
	fk := []string{
		"CONSTRAINT f FOREIGN KEY (a) REFERENCES p (id)",
		"CONSTRAINT f FOREIGN KEY (a) REFERENCES p (k)",
		"CONSTRAINT f FOREIGN KEY (b) REFERENCES p (id)",
		"CONSTRAINT g FOREIGN KEY (a) REFERENCES p (id)",
		"FOREIGN KEY (a) REFERENCES p (id)",
		"FOREIGN KEY (a, b) REFERENCES p (id, k)",
	}
	on := []string{
		"CONSTRAINT f FOREIGN KEY (a) REFERENCES p (id) ON DELETE CASCADE",
		"CONSTRAINT f FOREIGN KEY (a) REFERENCES p (id) ON UPDATE CASCADE",
		"CONSTRAINT f FOREIGN KEY (a) REFERENCES p (id) ON DELETE NO ACTION",
		"FOREIGN KEY (b) REFERENCES p (id) ON UPDATE NO ACTION",
	}
	switch d {
	case model.PG:
		out := append([]string{"PRIMARY KEY (id)", "PRIMARY KEY (id, a)", "PRIMARY KEY (a, id)", "CONSTRAINT pp PRIMARY KEY (id)"}, fk...)
		out = append(out, on...)
		return append(out, "UNIQUE (a)", "UNIQUE (a, b)", "UNIQUE (b, a)", "CONSTRAINT u UNIQUE (a)", "CONSTRAINT u UNIQUE (b)", "CONSTRAINT v UNIQUE (a, b)", "CONSTRAINT f UNIQUE (c)")
	case model.CR:
		out := append([]string{"PRIMARY KEY (id)", "PRIMARY KEY (id, a)", "PRIMARY KEY (a ASC, id)", "PRIMARY KEY (id DESC)", "CONSTRAINT pp PRIMARY KEY (id)"}, fk...)
		out = append(out, on...)
		return append(out, "INDEX f (c)", "UNIQUE INDEX u (a)", "UNIQUE INDEX u (a ASC)", "UNIQUE INDEX u (a DESC)", "INDEX u (a)", "INDEX u (b, a)", "INDEX w (a, b DESC)", "UNIQUE INDEX w (b) USING hash WITH (bucket_count = 8)")
	case model.MY:
		out := append([]string{"PRIMARY KEY (id)", "PRIMARY KEY (id, a)", "PRIMARY KEY (a, id)"}, fk...)
		out = append(out, on...)
		return append(out, "CONSTRAINT g FOREIGN KEY (a) REFERENCES p (id) ON DELETE CASCADE ON UPDATE NO ACTION", "CONSTRAINT g FOREIGN KEY (a) REFERENCES p (id) ON UPDATE CASCADE ON DELETE CASCADE",
			"KEY f (c)", "KEY u (a)", "INDEX u (b)", "UNIQUE KEY u (a)", "UNIQUE INDEX u (a, b)", "KEY w (a DESC)", "KEY w (a, b DESC)", "CONSTRAINT k CHECK (a > 0)", "CONSTRAINT k CHECK (a >= 0)", "CONSTRAINT l CHECK (a > 0 AND (b < 5))", "CHECK (c <> 'x')")
	default:
		return append(fk, "CONSTRAINT k CHECK (a > 0)", "CONSTRAINT k CHECK (a >= 0)", "CONSTRAINT l CHECK (a > 0 AND (b < 5))", "CONSTRAINT f CHECK (b > 1)")
	}
}

// consName guesses the name under which a constraint lives, to keep combinations legal.
func consName(d D, c string) string {
	fs := strings.Fields(c)
	switch {
	case fs[0] == "CONSTRAINT" && d == model.MY && fs[2] == "PRIMARY":
		return "pk"
	case fs[0] == "CONSTRAINT" && fs[2] == "PRIMARY":
		return "pk"
	case fs[0] == "CONSTRAINT":
		return fs[1]
	case fs[0] == "PRIMARY":
		return "pk"
	case strings.Contains(c, "KEY f (") || strings.Contains(c, "INDEX f ("):
		return "f"
	case strings.Contains(c, "KEY u") || strings.Contains(c, "INDEX u"):
		return "u"
	case strings.Contains(c, "KEY w") || strings.Contains(c, "INDEX w"):
		return "w"
	case fs[0] == "FOREIGN":
		if i := strings.Index(c, " ON "); i >= 0 {
			return c[:i]
		}
	}
	return c
}

// ConstraintSets: all legal sets of at most k constraints.
func ConstraintSets(d D, k int) Family {
	f := Family{Name: fmt.Sprintf("constraint sets <=%d", k), D: d}
	v := Vocs[d]
	cs := Constraints(d)
	base := []string{"id " + v.Int + " NOT NULL", "a " + v.Int, "b " + v.Int + " NOT NULL", "c " + v.Str}
	var rec func(i int, cur []string)
	rec = func(i int, cur []string) {
		f.Texts = append(f.Texts, P(d)+T(d, "t", append(append([]string{}, base...), cur...)...))
		if len(cur) == k {
			return
		}
		for j := i; j < len(cs); j++ {
			ok := true
			for _, x := range cur {
				if consName(d, x) == consName(d, cs[j]) {
					ok = false
				}
			}
			if ok {
				rec(j+1, append(append([]string{}, cur...), cs[j]))
			}
		}
	}
	rec(0, nil)
	return f
}

// Inlines are inline column constraints.
func Inlines(d D) []string {
	out := []string{"", "REFERENCES p (id)", "CHECK (c > 0)", "CHECK (c > 0 AND (c < 9 OR c = 100))", "CHECK (c > 0) CHECK (c < 9)"}
	if d != model.SP {
		out = append(out, "PRIMARY KEY", "UNIQUE", "REFERENCES p (id) ON DELETE CASCADE", "REFERENCES p (id) ON UPDATE NO ACTION", "UNIQUE REFERENCES p (id)", "REFERENCES p (id) UNIQUE", "CHECK (c > 0) UNIQUE", "UNIQUE CHECK (c > 0)",
			"REFERENCES p (id) CHECK (c > 0)", "CHECK (c > 0) REFERENCES p (id)")
	}
	return out
}

// InlineConstraints: inline constraints on a column in first, middle and last position.
func InlineConstraints(d D) Family {
	f := Family{Name: "inline constraints", D: d}
	v := Vocs[d]
	for _, x := range Inlines(d) {
		for pos := 0; pos < 3; pos++ {
			for _, nn := range []string{"", " NOT NULL"} {
				items := []string{"id " + v.Int + " NOT NULL", "z " + v.Lng}
				c := strings.TrimSpace("c " + v.Int + nn + " " + x)
				items = append(items[:pos], append([]string{c}, items[pos:]...)...)
				f.Texts = append(f.Texts, P(d)+T(d, "t", items...))
			}
		}
		if d == model.MY {
			f.Texts = append(f.Texts, P(d)+T(d, "t", "id "+v.Int+" NOT NULL", strings.TrimSpace("c "+v.Int+" NOT NULL "+x)+" COMMENT 'x'"))
		}
		if d == model.SP {
			f.Texts = append(f.Texts, P(d)+T(d, "t", "id "+v.Int+" NOT NULL", strings.TrimSpace("c "+v.Int+" NOT NULL "+x)+" OPTIONS (a = true)"))
		}
	}
	return f
}

// TableLevelTwin gives for an inline-constraint text the equivalent with table-level constraints.
type Twin struct{ A, B string }

func Twins(d D) []Twin {
	v := Vocs[d]
	var out []Twin
	add := func(inl, tab string) {
		base := func(c string, more ...string) string {
			return P(d) + T(d, "t", append([]string{"id " + v.Int + " NOT NULL", c, "z " + v.Lng}, more...)...)
		}
		out = append(out, Twin{base("c " + v.Int + " NOT NULL " + inl), base("c "+v.Int+" NOT NULL", tab)})
	}
	add("REFERENCES p (id)", "FOREIGN KEY (c) REFERENCES p (id)")
	add("REFERENCES p (id)", "CONSTRAINT t_c_fkey FOREIGN KEY (c) REFERENCES p (id)")
	switch d {
	case model.PG:
		add("PRIMARY KEY", "PRIMARY KEY (c)")
		add("PRIMARY KEY", "CONSTRAINT t_pkey PRIMARY KEY (c)")
		add("UNIQUE", "UNIQUE (c)")
		add("UNIQUE", "CONSTRAINT t_unique_c UNIQUE (c)")
		add("REFERENCES p (id) ON DELETE CASCADE", "FOREIGN KEY (c) REFERENCES p (id) ON DELETE CASCADE")
	case model.CR:
		add("PRIMARY KEY", "PRIMARY KEY (c)")
		add("PRIMARY KEY", "CONSTRAINT t_pkey PRIMARY KEY (c ASC)")
		add("UNIQUE", "UNIQUE INDEX t_unique_c (c)")
		add("UNIQUE", "UNIQUE INDEX t_unique_c (c ASC)")
		add("REFERENCES p (id) ON DELETE CASCADE", "FOREIGN KEY (c) REFERENCES p (id) ON DELETE CASCADE")
	case model.MY:
		add("PRIMARY KEY", "PRIMARY KEY (c)")
		add("PRIMARY KEY", "CONSTRAINT whatever PRIMARY KEY (c)")
		add("UNIQUE", "UNIQUE KEY t_unique_c (c)")
		add("CHECK (c > 0)", "CONSTRAINT t_c_check CHECK (c > 0)")
		add("REFERENCES p (id) ON DELETE CASCADE", "FOREIGN KEY (c) REFERENCES p (id) ON DELETE CASCADE")
	case model.SP:
		add("CHECK (c > 0)", "CONSTRAINT t_c_check CHECK (c > 0)")
	}
	return out
}

// Indexes: sets of CREATE INDEX statements on one or two tables.
func Indexes(d D) Family {
	f := Family{Name: "index sets", D: d}
	v := Vocs[d]
	tab := func(n string) string {
		return T(d, n, "id "+v.Int+" NOT NULL", "a "+v.Int, "b "+v.Int)
	}
	is := []string{"", "CREATE INDEX i ON t (a);", "CREATE INDEX i ON t (b);", "CREATE INDEX i ON t (a, b);", "CREATE INDEX i ON t (b, a);", "CREATE UNIQUE INDEX i ON t (a);", "CREATE INDEX i ON u (a);", "CREATE UNIQUE INDEX i ON u (a, b);"}
	if d != model.PG {
		is = append(is, "CREATE INDEX i ON t (a DESC);", "CREATE INDEX i ON t (a, b DESC);", "CREATE INDEX i ON t (a ASC);")
	}
	if d == model.CR {
		is = append(is, "CREATE INDEX i ON t (a) USING hash WITH (bucket_count = 8);", "CREATE INDEX i ON t (a) USING hash WITH (bucket_count = 4);")
	}
	js := []string{"", "CREATE INDEX j ON t (a);", "CREATE UNIQUE INDEX j ON u (b);"}
	for _, i := range is {
		for _, j := range js {
			for _, withU := range []bool{false, true} {
				if !withU && (strings.Contains(i, " u ") || strings.Contains(j, " u ")) {
					continue
				}
				s := tab("t")
				if withU {
					s += tab("u")
				}
				for _, x := range []string{i, j} {
					if x != "" {
						s += x + "\n"
					}
				}
				f.Texts = append(f.Texts, s)
				if i != "" && j != "" && withU {
					f.Texts = append(f.Texts, tab("u")+tab("t")+j+"\n"+i+"\n")
				}
			}
		}
	}
	return f
}

// ColsAndKeys: columns that come and go together with the constraints and indexes that use them.
func ColsAndKeys(d D) Family {
	f := Family{Name: "columns with keys and indexes", D: d}
	v := Vocs[d]
	type opt struct{ text, uses string }
	cons := []opt{{"", ""}}
	switch d {
	case model.PG:
		cons = append(cons, opt{"CONSTRAINT u UNIQUE (a)", "a"}, opt{"CONSTRAINT u UNIQUE (b)", "b"}, opt{"CONSTRAINT u UNIQUE (a, b)", "ab"}, opt{"CONSTRAINT pk PRIMARY KEY (id, a)", "a"}, opt{"CONSTRAINT pk PRIMARY KEY (id)", ""}, opt{"CONSTRAINT pk PRIMARY KEY (b)", "b"})
	case model.CR:
		cons = append(cons, opt{"UNIQUE INDEX u (a)", "a"}, opt{"INDEX u (b)", "b"}, opt{"UNIQUE INDEX u (a, b)", "ab"}, opt{"CONSTRAINT f FOREIGN KEY (b) REFERENCES p (id)", "b"}, opt{"CONSTRAINT f FOREIGN KEY (a) REFERENCES p (id)", "a"})
	case model.MY:
		cons = append(cons, opt{"UNIQUE KEY u (a)", "a"}, opt{"KEY u (b)", "b"}, opt{"UNIQUE KEY u (a, b)", "ab"}, opt{"PRIMARY KEY (id, a)", "a"}, opt{"PRIMARY KEY (id)", ""}, opt{"CONSTRAINT k CHECK (a > 0)", "a"}, opt{"CONSTRAINT k CHECK (b > 0)", "b"})
	case model.SP:
		cons = append(cons, opt{"CONSTRAINT k CHECK (a > 0)", "a"}, opt{"CONSTRAINT k CHECK (b > 0)", "b"}, opt{"CONSTRAINT k CHECK (a > 0 AND b > 0)", "ab"}, opt{"CONSTRAINT f FOREIGN KEY (a) REFERENCES p (id)", "a"})
	}
	if d != model.SP && d != model.CR {
		cons = append(cons, opt{"CONSTRAINT f FOREIGN KEY (a) REFERENCES p (id)", "a"}, opt{"CONSTRAINT f FOREIGN KEY (b) REFERENCES p (id)", "b"})
	}
	idx := []opt{{"", ""}, {"CREATE INDEX i ON t (a);\n", "a"}, {"CREATE INDEX i ON t (b);\n", "b"}, {"CREATE UNIQUE INDEX i ON t (a, b);\n", "ab"}}
	for _, cols := range []string{"", "a", "b", "ab"} {
		for _, c := range cons {
			for _, x := range idx {
				if !subset(c.uses, cols) || !subset(x.uses, cols) {
					continue
				}
				items := []string{"id " + v.Int + " NOT NULL"}
				for _, n := range cols {
					items = append(items, string(n)+" "+v.Int)
				}
				if c.text != "" {
					items = append(items, c.text)
				}
				f.Texts = append(f.Texts, P(d)+T(d, "t", items...)+x.text)
			}
		}
	}
	return f
}

func subset(a, b string) bool {
	for _, r := range a {
		if !strings.ContainsRune(b, r) {
			return false
		}
	}
	return true
}

// Tables: tables that refer to one another come, go and change.
func Tables(d D) Family {
	f := Family{Name: "table sets", D: d}
	v := Vocs[d]
	ps := []string{"", P(d)}
	if d == model.SP {
		ps = append(ps, TO(d, "p", " PRIMARY KEY (id)", "id "+v.Int+" NOT NULL", "k "+v.Big))
	} else {
		ps = append(ps, strings.Replace(P(d), "k "+v.Int+" NOT NULL", "k "+v.Big, 1))
	}
	fk := func(n, ref string) string {
		return "CONSTRAINT " + n + " FOREIGN KEY (a) REFERENCES " + ref + " (id)"
	}
	pk := func(n string) []string {
		switch d {
		case model.SP:
			return nil
		case model.MY:
			return []string{"PRIMARY KEY (id)"}
		}
		return []string{"CONSTRAINT " + n + "_pkey PRIMARY KEY (id)"}
	}
	mk := func(n string, more ...string) string {
		items := append([]string{"id " + v.Int + " NOT NULL", "a " + v.Int}, pk(n)...)
		return T(d, n, append(items, more...)...)
	}
	ts := []string{"", mk("t"), mk("t", fk("tf", "p"))}
	us := []string{"", mk("u"), mk("u", fk("uf", "t")), mk("u", fk("uf", "p"))}
	xs := []string{"", "CREATE INDEX it ON t (a);\n", "CREATE INDEX iu ON u (a);\n"}
	for _, p := range ps {
		for _, t := range ts {
			for _, u := range us {
				for _, x := range xs {
					if strings.Contains(t+u, "REFERENCES p") && p == "" || strings.Contains(u, "REFERENCES t") && t == "" {
						continue
					}
					if strings.Contains(x, " t ") && t == "" || strings.Contains(x, " u ") && u == "" {
						continue
					}
					f.Texts = append(f.Texts, p+t+u+x)
				}
			}
		}
	}
	return f
}

// Options: table options.
func Options(d D) Family {
	f := Family{Name: "table options", D: d}
	v := Vocs[d]
	switch d {
	case model.MY:
		for _, e := range []string{"", " ENGINE=InnoDB", " ENGINE=MyISAM"} {
			for _, cs := range []string{"", " DEFAULT CHARSET=utf8mb4", " DEFAULT CHARSET=latin1"} {
				for _, co := range []string{"", " COLLATE=utf8mb4_bin", " COLLATE=utf8mb4_unicode_ci"} {
					for _, cm := range []string{"", " COMMENT='x'", " COMMENT='y z'"} {
						f.Texts = append(f.Texts, TO(d, "t", e+cs+co+cm, "id INT NOT NULL", "a INT"))
					}
				}
			}
		}
		f.Texts = append(f.Texts, TO(d, "t", " ENGINE=InnoDB AUTO_INCREMENT=5", "id INT NOT NULL", "a INT"), TO(d, "t", " ENGINE=InnoDB AUTO_INCREMENT=7 COMMENT='x'", "id INT NOT NULL", "a INT"),
			TO(d, "t", " COMMENT='x' ENGINE=InnoDB", "id INT NOT NULL", "b INT"))
	case model.SP:
		par := TO(d, "q", " PRIMARY KEY (id)", "id "+v.Int+" NOT NULL")
		for _, pk := range []string{" PRIMARY KEY (id)", " PRIMARY KEY (id, a)", " PRIMARY KEY (id DESC)", " PRIMARY KEY (a)"} {
			for _, il := range []string{"", ", INTERLEAVE IN PARENT q", ", INTERLEAVE IN PARENT q ON DELETE CASCADE", ", INTERLEAVE IN PARENT q ON DELETE NO ACTION"} {
				for _, rd := range []string{"", ", ROW DELETION POLICY (OLDER_THAN(ts, INTERVAL 1 DAY))", ", ROW DELETION POLICY (OLDER_THAN(ts, INTERVAL 2 DAY))", ", ROW DELETION POLICY (OLDER_THAN(ts2, INTERVAL 1 DAY))"} {
					f.Texts = append(f.Texts, par+TO(d, "t", pk+il+rd, "id "+v.Int+" NOT NULL", "a "+v.Int+" NOT NULL", "ts "+v.Ts, "ts2 "+v.Ts))
				}
			}
		}
	}
	return f
}

// Names: the same shapes under names of every spelling.
func Names(d D) Family {
	f := Family{Name: "names", D: d}
	v := Vocs[d]
	q := `"`
	if d == model.MY || d == model.SP {
		q = "`"
	}
	tn := []string{"t", q + "t" + q, "s1.t", q + "s1.t" + q, q + "order" + q, q + "my t" + q, "T1", "t_1"}
	cn := []string{"c", q + "c" + q, q + "select" + q, q + "my c" + q, "c_1", q + "table" + q}
	for _, t := range tn {
		for _, c := range cn {
			for k := 0; k < 3; k++ {
				if k == 1 && d == model.MY && strings.Contains(t, ".") {
					continue // see Probes
				}
				items := []string{"id " + v.Int + " NOT NULL", c + " " + v.Int}
				if k == 1 {
					switch d {
					case model.PG:
						items = append(items, "CONSTRAINT u UNIQUE ("+c+")")
					case model.MY:
						items = append(items, "UNIQUE KEY u ("+c+")")
					case model.CR:
						items = append(items, "UNIQUE INDEX u ("+c+")")
					case model.SP:
						items = append(items, "CONSTRAINT k CHECK ("+c+" > 0)")
					}
				}
				s := T(d, t, items...)
				if k == 2 {
					s += "CREATE INDEX " + strings.ReplaceAll(c, "c", "x") + " ON " + t + " (" + c + ");\n"
				}
				f.Texts = append(f.Texts, s)
			}
		}
	}
	return f
}

// AutoNames: unnamed constraints on tables and columns of every spelling.
func AutoNames(d D) Family {
	f := Family{Name: "unnamed constraints", D: d}
	v := Vocs[d]
	q := `"`
	if d == model.MY || d == model.SP {
		q = "`"
	}
	for _, t := range []string{"t", q + "t" + q, "s1.t", "T1", q + "my t" + q, q + "t-1" + q} {
		for _, c := range []string{"c", q + "c" + q, "c_1", q + "my c" + q, q + "c.1" + q} {
			for k := 0; k < 7; k++ {
				if k == 2 && d == model.MY && strings.Contains(t+c, ".") {
					continue // see Probes
				}
				col, more := c+" "+v.Int, []string{}
				switch k {
				case 1:
					if d != model.SP {
						col += " PRIMARY KEY"
					}
				case 2:
					if d != model.SP {
						col += " UNIQUE"
					} else {
						col += " CHECK (" + c + " > 0)"
					}
				case 5:
					if d == model.MY || d == model.SP {
						more = append(more, "CHECK ("+c+" > 0)", "CHECK ("+c+" < 9)")
					} else {
						col += " CHECK (" + c + " > 0) CHECK (" + c + " < 9)"
					}
				case 6:
					if d == model.MY || d == model.SP {
						more = append(more, "CHECK ("+c+" > 0)", "CONSTRAINT k CHECK ("+c+" > 1)", "CHECK ("+c+" < 9)", "CHECK ("+c+" <> 5)")
					} else {
						col += " CHECK (" + c + " > 0)"
					}
				case 3:
					more = append(more, "FOREIGN KEY ("+c+") REFERENCES p (id)")
				case 4:
					switch d {
					case model.PG:
						more = append(more, "PRIMARY KEY ("+c+")", "UNIQUE ("+c+")")
					case model.MY:
						more = append(more, "PRIMARY KEY ("+c+")", "CHECK ("+c+" > 0)")
					case model.CR:
						more = append(more, "PRIMARY KEY ("+c+")")
					}
				}
				f.Texts = append(f.Texts, P(d)+T(d, t, append([]string{"id " + v.Int + " NOT NULL", col}, more...)...))
			}
		}
	}
	return f
}

// Rebuilds: spanner tables that are dropped and created again because their key or options change, with
// an index, a foreign key from another table and one to another table.
func Rebuilds(d D) Family {
	f := Family{Name: "rebuilt tables", D: d}
	if d != model.SP {
		return f
	}
	v := Vocs[d]
	for _, pk := range []string{" PRIMARY KEY (id)", " PRIMARY KEY (id, a)", " PRIMARY KEY (id DESC)"} {
		for _, x := range []string{"", "CREATE INDEX i ON t (a);\n", "CREATE UNIQUE INDEX i ON t (a);\n", "CREATE INDEX i ON t (a);\nCREATE INDEX j ON u (a);\n"} {
			for _, tf := range []string{"", "CONSTRAINT tf FOREIGN KEY (a) REFERENCES p (id)"} {
				for _, u := range []string{"-", "", "CONSTRAINT uf FOREIGN KEY (a) REFERENCES t (id)", "CONSTRAINT uf FOREIGN KEY (id) REFERENCES t (id)", "CONSTRAINT ug FOREIGN KEY (a) REFERENCES p (id)"} {
					items := []string{"id " + v.Int + " NOT NULL", "a " + v.Int + " NOT NULL"}
					if tf != "" {
						items = append(items, tf)
					}
					if u == "-" && strings.Contains(x, " u ") {
						continue
					}
					s := P(d) + TO(d, "t", pk, items...)
					if u != "-" {
						ui := []string{"id " + v.Int + " NOT NULL", "a " + v.Int + " NOT NULL"}
						if u != "" {
							ui = append(ui, u)
						}
						s += TO(d, "u", " PRIMARY KEY (id)", ui...)
					}
					f.Texts = append(f.Texts, s+x)
				}
			}
		}
	}
	return f
}

// Probe is a pair of schemas on which the implementation is known to be wrong (see known_findings.txt); such texts are kept out of
// the families so that everything the families report is news.
type Probe struct{ A, B string }

func Probes(d D) []Probe {
	v := Vocs[d]
	var out []Probe
	both := func(a, b string) { out = append(out, Probe{a, b}, Probe{b, a}) }
	switch d {
	case model.CR:
		c := func(def string) string {
			return T(d, "t", "id INT4 NOT NULL", "a STRING", "c "+def, "z STRING")
		}
		both(c("STRING"), c("STRING AS (concat(a, z)) STORED"))
		both(c("STRING AS (concat(z, a)) STORED"), c("STRING AS (concat(a, z)) STORED"))
		both(c("INT8 NOT NULL DEFAULT unique_rowid()"), c("INT8 NOT VISIBLE NOT NULL DEFAULT unique_rowid()"))
		t := T(d, "t", "id INT4 NOT NULL", "a INT4")
		both(t+"CREATE INDEX i ON t (a);\n", t+"CREATE INDEX i ON t USING btree (a);\n")
	case model.MY:
		both(T(d, "s1.t", "id INT NOT NULL", "c INT"), T(d, "s1.t", "id INT NOT NULL", "c INT", "UNIQUE KEY u (c)"))
		both(T(d, "s1.t", "id INT NOT NULL", "c INT"), T(d, "s1.t", "id INT NOT NULL", "c INT UNIQUE"))
		both(T(d, "t", "id INT NOT NULL", "c INT"), T(d, "t", "id INT NOT NULL", "c INT", "UNIQUE KEY u (c)"))
	}
	if d == model.MY || d == model.CR {
		tu := T(d, "t", "id "+v.Int+" NOT NULL", "a "+v.Int) + T(d, "u", "id "+v.Int+" NOT NULL", "a "+v.Int)
		it, iu := "CREATE INDEX i ON t (a);\n", "CREATE INDEX i ON u (a);\n"
		both(tu+it, tu+it+iu)
		both(tu+it, tu+iu)
		both(tu+iu, tu+it+iu)
	}
	if d == model.SP {
		q := func(pk string) string {
			return TO(d, "q", pk, "id "+v.Int+" NOT NULL", "a "+v.Int+" NOT NULL") +
				TO(d, "t", " PRIMARY KEY (id, a), INTERLEAVE IN PARENT q", "id "+v.Int+" NOT NULL", "a "+v.Int+" NOT NULL")
		}
		both(q(" PRIMARY KEY (id)"), q(" PRIMARY KEY (id DESC)"))
	}
	return out
}

// All lists the families explored by pairs.
func All(d D, thorough bool) []Family {
	k := 2
	fs := []Family{Rebuilds(d), ColumnTypes(d), ColumnTails(d), ColumnSets(d), ConstraintSets(d, k), InlineConstraints(d), Indexes(d), ColsAndKeys(d), Tables(d), Options(d), Names(d), AutoNames(d), TwoColumns(d), References(d), Schemas(d), Large(d)}
	if thorough {
		fs = append(fs, ConstraintSets(d, 3))
	}
	return fs
}

// Products: one column definition together with one constraint, one index and one option.
func Products(d D, thorough bool) []string {
	v := Vocs[d]
	var out []string
	var cols []string
	for _, t := range Types[d] {
		cols = append(cols, "c "+t, "c "+t+" NOT NULL")
	}
	for _, t := range Tails(d) {
		cols = append(cols, "c "+t)
	}
	cons := append([]string{""}, Constraints(d)...)
	idx := []string{"", "CREATE INDEX i ON t (c);\n", "CREATE UNIQUE INDEX i ON t (c, a);\n"}
	if !thorough {
		cons = pickN(cons, 8)
		idx = idx[:2]
	}
	opts := Options(d).Texts
	var tails []string
	for _, o := range opts {
		if i := strings.LastIndex(o, "\n)"); i >= 0 {
			tails = append(tails, strings.TrimSuffix(o[i+2:], ";\n"))
		}
	}
	tails = uniq(tails)
	if len(tails) == 0 {
		tails = []string{defOpt(d)}
	}
	if !thorough {
		tails = pickN(tails, 4)
	}
	for _, c := range cols {
		for _, k := range cons {
			for _, x := range idx {
				for _, o := range tails {
					items := []string{"id " + v.Int + " NOT NULL", "a " + v.Int + " NOT NULL", c, "b " + v.Int + " NOT NULL", "ts " + v.Ts, "ts2 " + v.Ts}
					if k != "" {
						items = append(items, k)
					}
					out = append(out, TO(d, "t", o, items...)+x)
				}
			}
		}
	}
	return out
}

func uniq(ss []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, s := range ss {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

func pickN(ts []string, n int) []string {
	if len(ts) <= n {
		return ts
	}
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, ts[i*(len(ts)-1)/(n-1)])
	}
	return out
}
