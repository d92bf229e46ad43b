package fakedb

import (
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/model"
)

type D = model.Dialect

// Pretty writes a token-joined expression the way a database prints it.
func Pretty(s string) string {
	var b strings.Builder
	in := byte(0)
	for i := 0; i < len(s); i++ {
		c := s[i]
		if in != 0 {
			b.WriteByte(c)
			if c == in {
				in = 0
			}
			continue
		}
		if c == '\'' || c == '"' || c == '`' {
			in = c
		}
		if c == ' ' {
			prev, next := byte(0), byte(0)
			if i > 0 {
				prev = s[i-1]
			}
			if i+1 < len(s) {
				next = s[i+1]
			}
			if next == ')' || next == ',' || next == ':' || next == '.' || prev == '(' || prev == ':' || prev == '.' {
				continue
			}
			if next == '(' && (prev == '_' || prev >= 'a' && prev <= 'z' || prev >= 'A' && prev <= 'Z') && !opBefore(s[:i]) {
				continue
			}
		}
		b.WriteByte(c)
	}
	return b.String()
}

var opRe = regexp.MustCompile(`(?i)\b(AND|OR|NOT|IN|LIKE|IS|THEN|ELSE|WHEN)$`)

func opBefore(s string) bool { return opRe.MatchString(s) }

func quoteIf(n string, q string) string {
	ok := n != ""
	for i := 0; i < len(n); i++ {
		c := n[i]
		if !(c == '_' || c >= 'a' && c <= 'z' || i > 0 && c >= '0' && c <= '9') {
			ok = false
		}
	}
	switch n {
	case "order", "select", "table", "user", "group", "from", "where", "default", "check", "references", "primary", "unique", "end", "all", "desc", "asc", "column", "constraint", "create", "grant", "in", "not", "null", "on", "or", "then", "to", "using", "when", "with":
		ok = false
	}
	if ok {
		return n
	}
	return q + strings.ReplaceAll(n, q, q+q) + q
}

var argsRe = regexp.MustCompile(`^([A-Z0-9 ]+)\(([^)]*)\)$`)

// pgType: data_type, character_maximum_length, numeric_precision, numeric_scale, datetime_precision
func pgType(t string) (string, val, val, val, val) {
	base, args := t, []string{}
	if m := argsRe.FindStringSubmatch(t); m != nil {
		base = m[1]
		for _, a := range strings.Split(m[2], ",") {
			args = append(args, strings.TrimSpace(a))
		}
	}
	n := func(i int, def val) val {
		if i < len(args) {
			k, _ := strconv.ParseInt(args[i], 10, 64)
			return k
		}
		return def
	}
	switch base {
	case "CHARACTER VARYING":
		return "character varying", n(0, nil), nil, nil, nil
	case "NUMERIC":
		if len(args) == 0 {
			return "numeric", nil, nil, nil, nil
		}
		return "numeric", nil, n(0, nil), n(1, int64(0)), nil
	case "TIMESTAMP":
		return "timestamp without time zone", nil, nil, nil, n(0, int64(6))
	case "TIMESTAMP WITH TIME ZONE":
		return "timestamp with time zone", nil, nil, nil, n(0, int64(6))
	case "SERIAL", "INTEGER":
		return "integer", nil, int64(32), int64(0), nil
	case "BIGSERIAL", "BIGINT":
		return "bigint", nil, int64(64), int64(0), nil
	case "SMALLSERIAL", "SMALLINT":
		return "smallint", nil, int64(16), int64(0), nil
	case "REAL":
		return "real", nil, int64(24), nil, nil
	case "DOUBLE PRECISION":
		return "double precision", nil, int64(53), nil, nil
	}
	return strings.ToLower(base), nil, nil, nil, nil
}

func yes(b bool) string {
	if b {
		return "YES"
	}
	return "NO"
}

func inPK(t *model.Table, col string) bool {
	for _, c := range t.Cons {
		if c.Kind == "pk" {
			for _, n := range c.Cols {
				if strings.TrimSuffix(n, " DESC") == col {
					return true
				}
			}
		}
	}
	return false
}

func onRule(c *model.Con, what string) string {
	for _, o := range c.On {
		if strings.HasPrefix(o, "ON "+what+" ") {
			return strings.TrimPrefix(o, "ON "+what+" ")
		}
	}
	return "NO ACTION"
}

func mk(tab string, cols string) *rel {
	r := &rel{}
	for _, c := range strings.Fields(cols) {
		r.cols = append(r.cols, rcol{tab, c})
	}
	return r
}

func (r *rel) add(vs ...val) {
	if len(vs) != len(r.cols) {
		panic(fmt.Sprintf("catalogue row of %d for %d columns", len(vs), len(r.cols)))
	}
	r.rows = append(r.rows, vs)
}

func pgIndexCols(x *model.Index) string {
	var cs []string
	for _, c := range x.Cols {
		n := quoteIf(strings.TrimSuffix(c, " DESC"), `"`)
		if strings.HasSuffix(c, " DESC") {
			n += " DESC"
		}
		cs = append(cs, n)
	}
	return strings.Join(cs, ", ")
}

func quoteAll(cols []string, q string) string {
	var cs []string
	for _, c := range cols {
		cs = append(cs, quoteIf(strings.TrimSuffix(c, " DESC"), q))
	}
	return strings.Join(cs, ", ")
}

// conDef is pg_get_constraintdef.
func conDef(c *model.Con) string {
	switch c.Kind {
	case "pk":
		return "PRIMARY KEY (" + quoteAll(c.Cols, `"`) + ")"
	case "unique":
		return "UNIQUE (" + quoteAll(c.Cols, `"`) + ")"
	case "check":
		return "CHECK ((" + Pretty(model.Unparen(c.Expr)) + "))"
	}
	s := "FOREIGN KEY (" + quoteAll(c.Cols, `"`) + ") REFERENCES " + quoteIf(bare(c.Ref), `"`) + "(" + quoteAll(c.RefCols, `"`) + ")"
	for _, w := range []string{"UPDATE", "DELETE"} {
		if r := onRule(c, w); r != "NO ACTION" {
			s += " ON " + w + " " + r
		}
	}
	return s + " NOT VALID"
}

func bare(t string) string { return t[strings.LastIndexByte(t, '.')+1:] }

var conType = map[string]string{"pk": "PRIMARY KEY", "fk": "FOREIGN KEY", "unique": "UNIQUE", "check": "CHECK"}
var conTypeChar = map[string]string{"pk": "p", "fk": "f", "unique": "u", "check": "c"}

// pgCatalog serves the information schema and the few pg_catalog relations about tables.
func (db *DB) pgCatalog(name string) *rel {
	name = strings.TrimPrefix(name, "pg_catalog.")
	type part struct {
		schema string
		s      *model.Schema
	}
	parts := []part{{"public", db.Schema}}
	if db.Other != nil {
		parts = append([]part{{"other", db.Other}}, parts...)
	}
	oid := func(p part, i int, kind int) int64 { return int64(len(p.schema)*100000 + kind*10000 + i + 16384) }
	switch name {
	case "information_schema.tables":
		r := mk(name, "table_catalog table_schema table_name table_type")
		r.add("db", "pg_catalog", "pg_class", "BASE TABLE")
		for _, p := range parts {
			for _, t := range p.s.Tables {
				r.add("db", p.schema, t.Name, "BASE TABLE")
			}
		}
		for _, v := range db.Views {
			r.add("db", "public", v, "VIEW")
		}
		return r
	case "information_schema.columns":
		r := mk(name, "table_catalog table_schema table_name column_name ordinal_position column_default is_nullable data_type character_maximum_length numeric_precision numeric_scale datetime_precision udt_name is_identity identity_generation is_generated generation_expression collation_name")
		r.add("db", "pg_catalog", "pg_class", "oid", int64(1), nil, "NO", "oid", nil, nil, nil, nil, "oid", "NO", nil, "NEVER", nil, nil)
		for _, p := range parts {
			for _, t := range p.s.Tables {
				for i, c := range t.Cols {
					dt, cl, np, ns, dp := pgType(c.Type)
					var def val
					if c.Default != "" && !strings.EqualFold(c.Default, "NULL") {
						def = Pretty(c.Default)
					}
					nn := c.NotNull || inPK(t, c.Name)
					if strings.HasSuffix(c.Type, "SERIAL") {
						nn, def = true, fmt.Sprintf("nextval('%s_%s_seq'::regclass)", t.Name, c.Name)
					}
					// ordinal positions keep the holes of dropped columns
					r.add("db", p.schema, t.Name, c.Name, int64(i+1+db.Holes), def, yes(!nn), dt, cl, np, ns, dp, strings.ToLower(strings.ReplaceAll(dt, " ", "_")), "NO", nil, "NEVER", nil, nil)
				}
			}
		}
		for _, v := range db.Views {
			r.add("db", "public", v, "id", int64(1), nil, "YES", "integer", nil, int64(32), int64(0), nil, "int4", "NO", nil, "NEVER", nil, nil)
		}
		return r
	case "information_schema.table_constraints":
		r := mk(name, "constraint_catalog constraint_schema constraint_name table_catalog table_schema table_name constraint_type is_deferrable initially_deferred enforced")
		for _, p := range parts {
			for ti, t := range p.s.Tables {
				for _, c := range t.Cons {
					r.add("db", p.schema, c.Name, "db", p.schema, t.Name, conType[c.Kind], "NO", "NO", "YES")
				}
				for i, c := range t.Cols {
					if c.NotNull || inPK(t, c.Name) {
						r.add("db", p.schema, fmt.Sprintf("2200_%d_%d_not_null", oid(p, ti, 1), i+1), "db", p.schema, t.Name, "CHECK", "NO", "NO", "YES")
					}
				}
			}
		}
		return r
	case "information_schema.key_column_usage":
		r := mk(name, "constraint_catalog constraint_schema constraint_name table_catalog table_schema table_name column_name ordinal_position position_in_unique_constraint")
		for _, p := range parts {
			for _, t := range p.s.Tables {
				for _, c := range t.Cons {
					if c.Kind == "check" {
						continue
					}
					for i, n := range c.Cols {
						var pos val
						if c.Kind == "fk" {
							if _, uc := uniqueOf(p.s, c); uc != nil {
								for j, m := range uc.Cols {
									if i < len(c.RefCols) && m == c.RefCols[i] {
										pos = int64(j + 1)
									}
								}
							} else {
								pos = int64(i + 1)
							}
						}
						r.add("db", p.schema, c.Name, "db", p.schema, t.Name, strings.TrimSuffix(n, " DESC"), int64(i+1), pos)
					}
				}
			}
		}
		return r
	case "information_schema.referential_constraints":
		r := mk(name, "constraint_catalog constraint_schema constraint_name unique_constraint_catalog unique_constraint_schema unique_constraint_name match_option update_rule delete_rule")
		for _, p := range parts {
			for _, t := range p.s.Tables {
				for _, c := range t.Cons {
					if c.Kind == "fk" {
						var un val
						if _, uc := uniqueOf(p.s, c); uc != nil {
							un = uc.Name
						}
						r.add("db", p.schema, c.Name, "db", p.schema, un, "NONE", onRule(c, "UPDATE"), onRule(c, "DELETE"))
					}
				}
			}
		}
		return r
	case "information_schema.constraint_column_usage":
		r := mk(name, "table_catalog table_schema table_name column_name constraint_catalog constraint_schema constraint_name")
		for _, p := range parts {
			for _, t := range p.s.Tables {
				for _, c := range t.Cons {
					switch c.Kind {
					case "fk":
						for _, n := range c.RefCols {
							r.add("db", p.schema, bare(c.Ref), strings.TrimSuffix(n, " DESC"), "db", p.schema, c.Name)
						}
					case "pk", "unique":
						for _, n := range c.Cols {
							r.add("db", p.schema, t.Name, strings.TrimSuffix(n, " DESC"), "db", p.schema, c.Name)
						}
					}
				}
			}
		}
		return r
	case "information_schema.check_constraints":
		r := mk(name, "constraint_catalog constraint_schema constraint_name check_clause")
		for _, p := range parts {
			for ti, t := range p.s.Tables {
				for _, c := range t.Cons {
					if c.Kind == "check" {
						r.add("db", p.schema, c.Name, Pretty(c.Expr))
					}
				}
				for i, c := range t.Cols {
					if c.NotNull || inPK(t, c.Name) {
						r.add("db", p.schema, fmt.Sprintf("2200_%d_%d_not_null", oid(p, ti, 1), i+1), c.Name+" IS NOT NULL")
					}
				}
			}
		}
		return r
	case "pg_indexes":
		r := mk(name, "schemaname tablename indexname tablespace indexdef")
		for _, p := range parts {
			for _, t := range p.s.Tables {
				for _, c := range t.Cons {
					if c.Kind == "pk" || c.Kind == "unique" {
						r.add(p.schema, t.Name, c.Name, nil, "CREATE UNIQUE INDEX "+quoteIf(c.Name, `"`)+" ON "+p.schema+"."+quoteIf(t.Name, `"`)+" USING btree ("+quoteAll(c.Cols, `"`)+")")
					}
				}
			}
			for _, x := range p.s.Indexes {
				u := ""
				if x.Unique {
					u = "UNIQUE "
				}
				m := x.Using
				if m == "" {
					m = "btree"
				}
				r.add(p.schema, x.Table, x.Name, nil, "CREATE "+u+"INDEX "+quoteIf(x.Name, `"`)+" ON "+p.schema+"."+quoteIf(x.Table, `"`)+" USING "+m+" ("+pgIndexCols(x)+")")
			}
		}
		return r
	case "pg_namespace":
		r := mk(name, "oid nspname")
		r.add(int64(11), "pg_catalog")
		for _, p := range parts {
			r.add(int64(len(p.schema)), p.schema)
		}
		return r
	case "pg_class":
		r := mk(name, "oid relname relnamespace relkind")
		for _, p := range parts {
			for i, t := range p.s.Tables {
				r.add(oid(p, i, 1), t.Name, int64(len(p.schema)), "r")
			}
		}
		return r
	case "pg_constraint":
		r := mk(name, "oid conname connamespace contype conrelid convalidated confrelid conkey confkey confupdtype confdeltype conbin")
		rule := func(k *model.Con, w string) val {
			if k.Kind != "fk" {
				return " "
			}
			return map[string]string{"NO ACTION": "a", "RESTRICT": "r", "CASCADE": "c", "SET NULL": "n", "SET DEFAULT": "d"}[onRule(k, w)]
		}
		nums := func(t *model.Table, cols []string) val {
			var out []val
			for _, n := range cols {
				for i, c := range t.Cols {
					if c.Name == strings.TrimSuffix(n, " DESC") {
						out = append(out, int64(i+1+db.Holes))
					}
				}
			}
			return out
		}
		for _, p := range parts {
			for i, t := range p.s.Tables {
				for j, c := range t.Cons {
					o := oid(p, i*100+j, 2)
					db.conOID[o] = c
					ref, confkey := int64(0), val(nil)
					for k, rt := range p.s.Tables {
						if c.Kind == "fk" && rt.Name == bare(c.Ref) {
							ref, confkey = oid(p, k, 1), nums(rt, c.RefCols)
						}
					}
					r.add(o, c.Name, int64(len(p.schema)), conTypeChar[c.Kind], oid(p, i, 1), c.Kind != "fk", ref, nums(t, c.Cols), confkey, rule(c, "UPDATE"), rule(c, "DELETE"), c.Expr)
				}
			}
		}
		return r
	case "pg_attribute":
		r := mk(name, "attrelid attname attnum attnotnull attisdropped")
		for _, p := range parts {
			for i, t := range p.s.Tables {
				for h := 0; h < db.Holes; h++ {
					r.add(oid(p, i, 1), fmt.Sprintf("........pg.dropped.%d........", h+1), int64(h+1), false, true)
				}
				for k, c := range t.Cols {
					r.add(oid(p, i, 1), c.Name, int64(k+1+db.Holes), c.NotNull || inPK(t, c.Name), false)
				}
			}
		}
		return r
	}
	return nil
}

// uniqueOf finds the key constraint a foreign key refers to.
func uniqueOf(s *model.Schema, c *model.Con) (*model.Table, *model.Con) {
	t := s.Table(c.Ref)
	if t == nil {
		return nil, nil
	}
	key := func(cs []string) string {
		k := append([]string{}, cs...)
		sort.Strings(k)
		return strings.Join(k, "\x00")
	}
	for _, k := range t.Cons {
		if (k.Kind == "pk" || k.Kind == "unique") && key(k.Cols) == key(c.RefCols) {
			return t, k
		}
	}
	return t, nil
}

// myShow is SHOW CREATE TABLE.
func myShow(s *model.Schema, t *model.Table) string {
	q := func(n string) string { return "`" + strings.ReplaceAll(n, "`", "``") + "`" }
	names := func(cols []string) string {
		var out []string
		for _, c := range cols {
			n := q(strings.TrimSuffix(c, " DESC"))
			if strings.HasSuffix(c, " DESC") {
				n += " DESC"
			}
			out = append(out, n)
		}
		return "(" + strings.Join(out, ",") + ")"
	}
	var items []string
	for _, c := range t.Cols {
		ty := c.Type
		if !strings.HasPrefix(ty, "ENUM") {
			ty = strings.ToLower(strings.ReplaceAll(ty, ", ", ","))
		} else {
			ty = "enum" + strings.TrimPrefix(strings.ReplaceAll(ty, ", ", ","), "ENUM")
		}
		l := q(c.Name) + " " + ty
		if c.Charset != "" {
			l += " CHARACTER SET " + c.Charset
		}
		if c.Collate != "" {
			l += " COLLATE " + c.Collate
		}
		if c.NotNull {
			l += " NOT NULL"
		} else if strings.HasPrefix(c.Type, "TIMESTAMP") {
			l += " NULL"
		}
		if c.AutoInc {
			l += " AUTO_INCREMENT"
		}
		if c.Default != "" {
			l += " DEFAULT " + Pretty(c.Default)
		}
		if c.OnAct != "" {
			l += " " + c.OnAct
		}
		if c.Comment != "" {
			l += " COMMENT " + c.Comment
		}
		items = append(items, l)
	}
	for _, k := range t.Cons {
		if k.Kind == "pk" {
			items = append(items, "PRIMARY KEY "+names(k.Cols))
		}
	}
	for _, u := range []bool{true, false} {
		for _, x := range s.Indexes {
			if x.Table == t.Name && x.Unique == u {
				l := "KEY " + q(x.Name) + " " + names(x.Cols)
				if u {
					l = "UNIQUE " + l
				}
				items = append(items, l)
			}
		}
		for _, k := range t.Cons {
			if k.Kind == "unique" && u {
				items = append(items, "UNIQUE KEY "+q(k.Name)+" "+names(k.Cols))
			}
		}
	}
	for _, k := range t.Cons {
		switch k.Kind {
		case "fk":
			l := "CONSTRAINT " + q(k.Name) + " FOREIGN KEY " + names(k.Cols) + " REFERENCES " + q(k.Ref) + " " + names(k.RefCols)
			for _, w := range []string{"DELETE", "UPDATE"} {
				for _, o := range k.On {
					if strings.HasPrefix(o, "ON "+w) {
						l += " " + o
					}
				}
			}
			items = append(items, l)
		case "check":
			items = append(items, "CONSTRAINT "+q(k.Name)+" CHECK (("+Pretty(model.Unparen(k.Expr))+"))")
		}
	}
	s2 := "CREATE TABLE " + q(t.Name) + " (\n  " + strings.Join(items, ",\n  ") + "\n)"
	opt := func(k, def string) string {
		if v, ok := t.Opts[k]; ok {
			if e, ok := map[string]string{"innodb": "InnoDB", "myisam": "MyISAM"}[v]; ok {
				return e
			}
			return v
		}
		return def
	}
	s2 += " ENGINE=" + opt("ENGINE", "InnoDB")
	if v, ok := t.Opts["AUTO_INCREMENT"]; ok {
		s2 += " AUTO_INCREMENT=" + v
	}
	s2 += " DEFAULT CHARSET=" + opt("CHARSET", "utf8mb4")
	s2 += " COLLATE=" + opt("COLLATE", "utf8mb4_0900_ai_ci")
	if v, ok := t.Opts["COMMENT"]; ok {
		s2 += " COMMENT=" + v
	}
	return s2
}

// crShow is the statements of SHOW CREATE ALL TABLES: tables first, then foreign keys.
func crShow(s *model.Schema) (out []string) {
	q := func(n string) string { return quoteIf(n, `"`) }
	names := func(cols []string, dir bool) string {
		var out []string
		for _, c := range cols {
			n := q(strings.TrimSuffix(c, " DESC"))
			switch {
			case strings.HasSuffix(c, " DESC"):
				n += " DESC"
			case dir:
				n += " ASC"
			}
			out = append(out, n)
		}
		return "(" + strings.Join(out, ", ") + ")"
	}
	var fks []string
	for _, t := range s.Tables {
		var items []string
		pk := false
		for _, k := range t.Cons {
			pk = pk || k.Kind == "pk"
		}
		for _, c := range t.Cols {
			l := q(c.Name) + " " + strings.ReplaceAll(c.Type, ", ", ",")
			if c.NotVisible {
				l += " NOT VISIBLE"
			}
			if c.NotNull || inPK(t, c.Name) {
				l += " NOT NULL"
			} else {
				l += " NULL"
			}
			if c.Default != "" {
				l += " DEFAULT " + Pretty(c.Default)
			}
			if c.As != "" {
				l += " AS " + Pretty(c.As)
			}
			items = append(items, l)
		}
		if !pk {
			items = append(items, "rowid INT8 NOT VISIBLE NOT NULL DEFAULT unique_rowid()", "CONSTRAINT "+q(t.Name+"_pkey")+" PRIMARY KEY (rowid ASC)")
		}
		for _, k := range t.Cons {
			if k.Kind == "pk" {
				items = append(items, "CONSTRAINT "+q(k.Name)+" PRIMARY KEY "+names(k.Cols, true))
			}
		}
		for _, x := range s.Indexes {
			if x.Table != t.Name {
				continue
			}
			l := "INDEX " + q(x.Name) + " " + names(x.Cols, true)
			if x.Unique {
				l = "UNIQUE " + l
			}
			if x.Post != "" {
				l += " USING " + x.Post
			}
			items = append(items, l)
		}
		for _, k := range t.Cons {
			switch k.Kind {
			case "unique":
				items = append(items, "UNIQUE INDEX "+q(k.Name)+" "+names(k.Cols, true))
			case "check":
				items = append(items, "CONSTRAINT "+q(k.Name)+" CHECK "+Pretty(k.Expr))
			case "fk":
				l := "ALTER TABLE public." + q(t.Name) + " ADD CONSTRAINT " + q(k.Name) + " FOREIGN KEY " + names(k.Cols, false) + " REFERENCES public." + q(bare(k.Ref)) + names(k.RefCols, false)
				for _, w := range []string{"DELETE", "UPDATE"} {
					if r := onRule(k, w); r != "NO ACTION" {
						l += " ON " + w + " " + r
					}
				}
				fks = append(fks, l+";", "-- Validate foreign key constraints. These can fail if there was unvalidated data during the SHOW CREATE ALL TABLES", "ALTER TABLE public."+q(t.Name)+" VALIDATE CONSTRAINT "+q(k.Name)+";")
			}
		}
		out = append(out, "CREATE TABLE public."+q(t.Name)+" (\n\t"+strings.Join(items, ",\n\t")+"\n);")
	}
	return append(out, fks...)
}

// spCatalog is Spanner's information schema.
func (db *DB) spCatalog(name string) *rel {
	type part struct {
		schema string
		s      *model.Schema
	}
	parts := []part{{"", db.Schema}}
	if db.Other != nil {
		parts = append(parts, part{"other", db.Other})
	}
	pkCols := func(t *model.Table) []string {
		var out []string
		for _, c := range strings.Split(t.Opts["PRIMARY KEY"], ",") {
			if c = strings.TrimSpace(c); c != "" {
				out = append(out, c)
			}
		}
		return out
	}
	typ := func(t string) string { return t }
	switch name {
	case "information_schema.tables":
		r := mk(name, "TABLE_CATALOG TABLE_SCHEMA TABLE_NAME TABLE_TYPE PARENT_TABLE_NAME ON_DELETE_ACTION SPANNER_STATE INTERLEAVE_TYPE ROW_DELETION_POLICY_EXPRESSION")
		r.add("", "INFORMATION_SCHEMA", "TABLES", "VIEW", nil, nil, nil, nil, nil)
		for _, p := range parts {
			for _, t := range p.s.Tables {
				var parent, act, it, rdp val
				if v := t.Opts["INTERLEAVE"]; v != "" {
					parent, it = strings.Fields(v)[0], "IN PARENT"
					act = "NO ACTION"
					if strings.HasSuffix(v, "CASCADE") {
						act = "CASCADE"
					}
				}
				if v := t.Opts["ROW DELETION POLICY"]; v != "" {
					v = Pretty(v)
					rdp = v[1 : len(v)-1]
				}
				r.add("", p.schema, t.Name, "BASE TABLE", parent, act, "COMMITTED", it, rdp)
			}
		}
		for _, v := range db.Views {
			r.add("", "", v, "VIEW", nil, nil, nil, nil, nil)
		}
		return r
	case "information_schema.columns":
		r := mk(name, "TABLE_CATALOG TABLE_SCHEMA TABLE_NAME COLUMN_NAME ORDINAL_POSITION COLUMN_DEFAULT DATA_TYPE IS_NULLABLE SPANNER_TYPE IS_GENERATED GENERATION_EXPRESSION IS_STORED SPANNER_STATE IS_HIDDEN")
		r.add("", "INFORMATION_SCHEMA", "TABLES", "TABLE_NAME", int64(3), nil, nil, "NO", "STRING(MAX)", "NEVER", nil, nil, nil, false)
		for _, p := range parts {
			for _, t := range p.s.Tables {
				for i, c := range t.Cols {
					var def val
					if c.Default != "" {
						v := Pretty(c.Default)
						if strings.HasPrefix(v, "(") && strings.HasSuffix(v, ")") {
							v = v[1 : len(v)-1]
						}
						def = v
					}
					r.add("", p.schema, t.Name, c.Name, int64(i+1), def, nil, yes(!c.NotNull), typ(c.Type), "NEVER", nil, nil, "COMMITTED", false)
				}
			}
		}
		for _, v := range db.Views {
			r.add("", "", v, "id", int64(1), nil, nil, "YES", "INT64", "NEVER", nil, nil, nil, false)
		}
		return r
	case "information_schema.column_options":
		r := mk(name, "TABLE_CATALOG TABLE_SCHEMA TABLE_NAME COLUMN_NAME OPTION_NAME OPTION_TYPE OPTION_VALUE")
		for _, p := range parts {
			for _, t := range p.s.Tables {
				for _, c := range t.Cols {
					if c.Option == "" {
						continue
					}
					o := strings.TrimSpace(strings.Trim(c.Option, "() "))
					k, v, _ := strings.Cut(o, "=")
					k, v = strings.TrimSpace(k), strings.TrimSpace(v)
					if strings.EqualFold(v, "true") {
						r.add("", p.schema, t.Name, c.Name, k, "BOOL", "TRUE")
					}
				}
			}
		}
		return r
	case "information_schema.indexes":
		r := mk(name, "TABLE_CATALOG TABLE_SCHEMA TABLE_NAME INDEX_NAME INDEX_TYPE PARENT_TABLE_NAME IS_UNIQUE IS_NULL_FILTERED INDEX_STATE SPANNER_IS_MANAGED")
		r.add("", "INFORMATION_SCHEMA", "TABLES", "PRIMARY_KEY", "PRIMARY_KEY", "", true, false, nil, false)
		for _, p := range parts {
			for _, t := range p.s.Tables {
				r.add("", p.schema, t.Name, "PRIMARY_KEY", "PRIMARY_KEY", "", true, false, nil, false)
			}
			for _, x := range p.s.Indexes {
				r.add("", p.schema, x.Table, x.Name, "INDEX", "", x.Unique, false, "READ_WRITE", false)
			}
		}
		return r
	case "information_schema.index_columns":
		r := mk(name, "TABLE_CATALOG TABLE_SCHEMA TABLE_NAME INDEX_NAME INDEX_TYPE COLUMN_NAME ORDINAL_POSITION COLUMN_ORDERING IS_NULLABLE SPANNER_TYPE")
		for _, p := range parts {
			add := func(table, index, kind string, cols []string) {
				for i, c := range cols {
					o := "ASC"
					if strings.HasSuffix(c, " DESC") {
						o, c = "DESC", strings.TrimSuffix(c, " DESC")
					}
					c = strings.TrimSuffix(c, " ASC")
					r.add("", p.schema, table, index, kind, c, int64(i+1), o, "NO", "INT64")
				}
			}
			for _, t := range p.s.Tables {
				add(t.Name, "PRIMARY_KEY", "PRIMARY_KEY", pkCols(t))
			}
			for _, x := range p.s.Indexes {
				add(x.Table, x.Name, "INDEX", x.Cols)
			}
		}
		return r
	}
	return nil
}

func (db *DB) myCatalog(name string) *rel {
	type part struct {
		schema string
		s      *model.Schema
	}
	parts := []part{{"db", db.Schema}}
	if db.Other != nil {
		parts = append([]part{{"other", db.Other}}, parts...)
	}
	switch name {
	case "information_schema.tables":
		r := mk(name, "TABLE_CATALOG TABLE_SCHEMA TABLE_NAME TABLE_TYPE ENGINE TABLE_COMMENT")
		r.add("def", "information_schema", "TABLES", "SYSTEM VIEW", nil, "")
		for _, p := range parts {
			for _, t := range p.s.Tables {
				r.add("def", p.schema, t.Name, "BASE TABLE", "InnoDB", "")
			}
		}
		for _, v := range db.Views {
			r.add("def", "db", v, "VIEW", nil, "VIEW")
		}
		return r
	}
	return nil
}
