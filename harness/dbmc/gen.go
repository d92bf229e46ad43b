package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/model"
)

// This file is the alphabet of annotated Go sources: every text is built together with the
// declarations it makes, so the expectation does not come from the code under test.

// gtags are the names under which a source is annotated.
type gtags struct{ ddl, db, pk string }

var stdTags = gtags{"ddlctl", "db", "pk"}

func (t gtags) args() []string {
	if t == stdTags {
		return nil
	}
	return []string{"--go-ddl-tag", t.ddl, "--go-column-tag", t.db, "--go-pk-tag", t.pk}
}

type gcol struct{ name, def string }

type gtable struct {
	create string // CREATE TABLE name
	cols   []gcol
	pk     []string
	cons   []string
	opts   []string
}

func quoted(d D, n string) string {
	if d == model.PG || d == model.CR {
		return `"` + n + `"`
	}
	return "`" + n + "`"
}

func (t *gtable) sql(d D) string {
	var items []string
	for _, c := range t.cols {
		items = append(items, quoted(d, c.name)+" "+c.def)
	}
	var pk string
	if len(t.pk) > 0 {
		var q []string
		for _, n := range t.pk {
			q = append(q, quoted(d, n))
		}
		pk = "PRIMARY KEY (" + strings.Join(q, ", ") + ")"
	}
	opts := t.opts
	if pk != "" && d == model.SP {
		opts = append([]string{pk}, opts...)
	} else if pk != "" {
		items = append(items, pk)
	}
	items = append(items, t.cons...)
	return t.create + " (\n    " + strings.Join(items, ",\n    ") + "\n) " + strings.Join(opts, ", ")
}

// gdecl is one expected statement.
type gdecl struct {
	table *gtable
	index string
}

func (x gdecl) sql(d D) string {
	if x.table != nil {
		return x.table.sql(d)
	}
	return x.index
}

// gpiece is a top-level piece of a file.
type gpiece struct {
	name  string
	text  string
	decls []gdecl
	pre   bool // stands before the package clause
	end   bool // only as the last of a file
}

type gfile struct {
	path   string
	pieces []gpiece
}

func (f gfile) text() string {
	var b strings.Builder
	for _, p := range f.pieces {
		if p.pre {
			b.WriteString(p.text + "\n")
		}
	}
	b.WriteString("package models\n")
	for _, p := range f.pieces {
		if !p.pre {
			b.WriteString("\n" + p.text)
		}
	}
	return b.String()
}

func (f gfile) decls() (out []gdecl) {
	for _, p := range f.pieces {
		if p.pre {
			out = append(out, p.decls...)
		}
	}
	for _, p := range f.pieces {
		if !p.pre {
			out = append(out, p.decls...)
		}
	}
	return
}

// expected is the SQL a collection of files declares.
func expected(d D, fs ...gfile) string {
	var b strings.Builder
	for _, f := range fs {
		for _, x := range f.decls() {
			b.WriteString(x.sql(d) + ";\n")
		}
	}
	return b.String()
}

// defs are column definitions of a dialect.
func gdefs(d D) []string {
	switch d {
	case model.PG:
		return []string{"BIGINT NOT NULL", "TEXT NOT NULL DEFAULT 'a,b'", "VARCHAR(64)", "INTEGER NOT NULL DEFAULT 0", "TIMESTAMP WITH TIME ZONE NOT NULL DEFAULT now()", "NUMERIC(10, 2)"}
	case model.CR:
		return []string{"INT8 NOT NULL", "STRING NOT NULL DEFAULT 'a,b'", "VARCHAR(64)", "INT4 NOT NULL DEFAULT 0", "TIMESTAMPTZ NOT NULL DEFAULT now()", "DECIMAL(10, 2)"}
	case model.MY:
		return []string{"BIGINT NOT NULL", "VARCHAR(64) NOT NULL DEFAULT 'a,b'", "VARCHAR(64)", "INT NOT NULL DEFAULT 0", "DATETIME NOT NULL DEFAULT CURRENT_TIMESTAMP", "DECIMAL(10, 2)"}
	default:
		return []string{"INT64 NOT NULL", "STRING(64) NOT NULL DEFAULT ('a,b')", "STRING(MAX)", "INT64 NOT NULL DEFAULT (0)", "TIMESTAMP NOT NULL OPTIONS (allow_commit_timestamp = true)", "NUMERIC"}
	}
}

// fform is a form of a struct field.
type fform struct {
	name string
	make func(t gtags, i int, def string) (text string, cols []gcol, pk []string)
}

func kv(k, v string) string { return k + ":" + strconv.Quote(v) }

func rawTag(parts ...string) string { return "`" + strings.Join(parts, " ") + "`" }

var fforms = []fform{
	{"plain", func(t gtags, i int, def string) (string, []gcol, []string) {
		c := fmt.Sprintf("c%d", i)
		return fmt.Sprintf("\tC%d int64 %s\n", i, rawTag(kv(t.db, c), kv(t.ddl, def))), []gcol{{c, def}}, nil
	}},
	{"key", func(t gtags, i int, def string) (string, []gcol, []string) {
		c := fmt.Sprintf("key%d", i)
		return fmt.Sprintf("\tC%d int64 %s\n", i, rawTag(kv(t.db, c), kv(t.ddl, def), kv(t.pk, "true"))), []gcol{{c, def}}, []string{c}
	}},
	{"key 1 first", func(t gtags, i int, def string) (string, []gcol, []string) {
		c := fmt.Sprintf("c%d", i)
		return fmt.Sprintf("\tC%d int64 %s\n", i, rawTag(kv(t.pk, "1"), kv("json", "x,omitempty"), kv(t.ddl, def), kv(t.db, c))), []gcol{{c, def}}, []string{c}
	}},
	{"not key", func(t gtags, i int, def string) (string, []gcol, []string) {
		c, no := fmt.Sprintf("c%d", i), []string{"false", "0", "-", "", "yes"}[i%5]
		return fmt.Sprintf("\tC%d int64 %s\n", i, rawTag(kv(t.db, c), kv(t.ddl, def), kv(t.pk, no))), []gcol{{c, def}}, nil
	}},
	{"column ignored", func(t gtags, i int, def string) (string, []gcol, []string) {
		return fmt.Sprintf("\tC%d int64 %s\n", i, rawTag(kv(t.db, "-"), kv(t.ddl, def), kv(t.pk, "true"))), nil, nil
	}},
	{"no definition", func(t gtags, i int, def string) (string, []gcol, []string) {
		return fmt.Sprintf("\t// C%d has no definition.\n\tC%d int64 %s\n", i, i, rawTag(kv(t.db, fmt.Sprintf("c%d", i)), kv(t.pk, "true"))), nil, nil
	}},
	{"definition ignored", func(t gtags, i int, def string) (string, []gcol, []string) {
		return fmt.Sprintf("\tC%d int64 %s\n", i, rawTag(kv(t.db, fmt.Sprintf("c%d", i)), kv(t.ddl, []string{"-", ""}[i%2]), kv(t.pk, "true"))), nil, nil
	}},
	{"no tag", func(t gtags, i int, def string) (string, []gcol, []string) {
		return fmt.Sprintf("\tC%d int64\n", i), nil, nil
	}},
	{"embedded", func(t gtags, i int, def string) (string, []gcol, []string) {
		return fmt.Sprintf([]string{"\tBase%d\n", "\t*base.Base%d\n", "\tbase.Gen%d[int]\n"}[i%3], i), nil, nil
	}},
	{"embedded with other tag", func(t gtags, i int, def string) (string, []gcol, []string) {
		return fmt.Sprintf("\tBase%d %s\n", i, rawTag(kv("json", "x"))), nil, nil
	}},
	{"embedded ignored", func(t gtags, i int, def string) (string, []gcol, []string) {
		return fmt.Sprintf("\tbase.Base%d %s\n", i, rawTag(kv(t.db, "-"), kv(t.ddl, "-"))), nil, nil
	}},
	{"embedded column", func(t gtags, i int, def string) (string, []gcol, []string) {
		return fmt.Sprintf("\t*sql.Null%d %s\n", i, rawTag(kv(t.db, fmt.Sprintf("c%d", i)), kv(t.ddl, def))), []gcol{{fmt.Sprintf("c%d", i), def}}, nil
	}},
	{"embedded column without name", func(t gtags, i int, def string) (string, []gcol, []string) {
		return fmt.Sprintf("\t*sql.Null%d %s\n", i, rawTag(kv(t.ddl, def))), []gcol{{fmt.Sprintf("Null%d", i), def}}, nil
	}},
	{"two names", func(t gtags, i int, def string) (string, []gcol, []string) {
		return fmt.Sprintf("\tA%d, B%d int64 %s\n", i, i, rawTag(kv(t.ddl, def))), []gcol{{fmt.Sprintf("A%d", i), def}, {fmt.Sprintf("B%d", i), def}}, nil
	}},
	{"no column name", func(t gtags, i int, def string) (string, []gcol, []string) {
		c := fmt.Sprintf("VeryLongFieldName%d", i)
		return fmt.Sprintf("\t%s int64 %s\n", c, rawTag(kv(t.ddl, def), kv(t.pk, "true"))), []gcol{{c, def}}, []string{c}
	}},
	{"interpreted tag", func(t gtags, i int, def string) (string, []gcol, []string) {
		c := fmt.Sprintf("c%d", i)
		return fmt.Sprintf("\tC%d int64 %s\n", i, strconv.Quote(kv(t.db, c)+" "+kv(t.ddl, def))), []gcol{{c, def}}, nil
	}},
	{"documented", func(t gtags, i int, def string) (string, []gcol, []string) {
		c := fmt.Sprintf("c%d", i)
		return fmt.Sprintf("\t// C%d isn't \"x\", nor `y`; it is 100%% z, -- see /* z */.\n\t//\n\t// CREATE TABLE no (id INT);\n\tC%d int64 %s // trailing, it's fine;\n", i, i, rawTag(kv(t.db, c), kv(t.ddl, def))), []gcol{{c, def}}, nil
	}},
	{"documented in a block", func(t gtags, i int, def string) (string, []gcol, []string) {
		c := fmt.Sprintf("c%d", i)
		return fmt.Sprintf("\t/*\n\tC%d isn't one,\n\n\tbut two; CREATE TABLE no (id INT);\n\t*/\n\tC%d int64 %s /* trailing */\n", i, i, rawTag(kv(t.db, c), kv(t.ddl, def))), []gcol{{c, def}}, nil
	}},
	{"documented with the tag", func(t gtags, i int, def string) (string, []gcol, []string) {
		c := fmt.Sprintf("c%d", i)
		return fmt.Sprintf("\t// %s: this is a column\n\tC%d int64 %s\n", t.ddl, i, rawTag(kv(t.db, c), kv(t.ddl, def))), []gcol{{c, def}}, nil
	}},
	{"nested struct", func(t gtags, i int, def string) (string, []gcol, []string) {
		return fmt.Sprintf("\tC%d struct {\n\t\tX int64 %s\n\t\tY int64\n\t}\n", i, rawTag(kv(t.db, "inner"), kv(t.ddl, def), kv(t.pk, "true"))), nil, nil
	}},
	{"nested struct column", func(t gtags, i int, def string) (string, []gcol, []string) {
		c := fmt.Sprintf("c%d", i)
		return fmt.Sprintf("\tC%d []*struct {\n\t\tX int64 %s\n\t} %s\n", i, rawTag(kv(t.db, "inner"), kv(t.ddl, def), kv(t.pk, "true")), rawTag(kv(t.db, c), kv(t.ddl, def))), []gcol{{c, def}}, nil
	}},
	{"unexported", func(t gtags, i int, def string) (string, []gcol, []string) {
		c := fmt.Sprintf("c%d", i)
		return fmt.Sprintf("\tc%d map[string]func(int) error %s\n", i, rawTag(kv(t.db, c), kv(t.ddl, def))), []gcol{{c, def}}, nil
	}},
	{"other tags only", func(t gtags, i int, def string) (string, []gcol, []string) {
		return fmt.Sprintf("\tC%d int64 %s\n", i, rawTag(kv("json", "x"), kv("other"+t.ddl, def), kv(t.ddl+"x", def), kv("other"+t.pk, "true"))), nil, nil
	}},
	{"other names", func(t gtags, i int, def string) (string, []gcol, []string) {
		c := fmt.Sprintf("c%d", i)
		return fmt.Sprintf("\tC%d int64 %s\n", i, rawTag(kv("x"+t.db, "wrong"), kv(t.db, c), kv("other"+t.ddl, "WRONG"), kv(t.ddl, def), kv("x"+t.pk, "true"))), []gcol{{c, def}}, nil
	}},
	{"odd name", func(t gtags, i int, def string) (string, []gcol, []string) {
		c := []string{"select%d", "my col%d", "c-%d", "été%d", "100%%s%d"}[i%5]
		c = fmt.Sprintf(c, i)
		return fmt.Sprintf("\tC%d int64 %s\n", i, rawTag(kv(t.db, c), kv(t.ddl, def))), []gcol{{c, def}}, nil
	}},
}

func fform1(name string) fform {
	for _, f := range fforms {
		if f.name == name {
			return f
		}
	}
	panic(name)
}

// gstruct renders the fields.
func gstruct(d D, t gtags, forms []fform) (text string, cols []gcol, pk []string) {
	ds := gdefs(d)
	for i, f := range forms {
		x, c, p := f.make(t, i, ds[i%len(ds)])
		text += x
		cols = append(cols, c...)
		pk = append(pk, p...)
	}
	return
}

// tform is a way of naming the table.
type tform struct {
	name   string
	line   func(t gtags, n string) string
	create func(n, typ string) string
}

func created(n, _ string) string  { return "CREATE TABLE " + n }
func byType(_, typ string) string { return "CREATE TABLE " + typ }

var tforms = []tform{
	{"table:", func(t gtags, n string) string { return t.ddl + ": table: " + n }, created},
	{"table", func(t gtags, n string) string { return t.ddl + ":table " + n }, created},
	{"table wide", func(t gtags, n string) string { return t.ddl + ":table \t    " + n }, created},
	{"tight", func(t gtags, n string) string { return t.ddl + ":table:" + n }, created},
	{"spaced", func(t gtags, n string) string { return t.ddl + "  :  table  : " + n }, created},
	{"tables", func(t gtags, n string) string { return t.ddl + ": tables: " + n }, created},
	{"create", func(t gtags, n string) string { return t.ddl + ": table: CREATE TABLE " + n }, created},
	{"create if not exists", func(t gtags, n string) string { return t.ddl + ":table CREATE TABLE IF NOT EXISTS " + n }, func(n, _ string) string { return "CREATE TABLE IF NOT EXISTS " + n }},
	{"create small", func(t gtags, n string) string { return t.ddl + ": table: create table " + n }, func(n, _ string) string { return "create table " + n }},
	{"no name", func(t gtags, n string) string { return t.ddl + ": table:" }, byType},
	{"bare", func(t gtags, n string) string { return t.ddl + ":" }, byType},
	{"none", func(t gtags, n string) string { return "" }, byType},
}

// extra are the further annotations of a type: lines, and what they declare.
type extra struct {
	name  string
	lines []string
	cons  []string
	opts  []string
	idx   []string
}

// extras are for a table n with the columns key0 and c1.
func extras(d D, t gtags, n string) []extra {
	k0, c1 := quoted(d, "key0"), quoted(d, "c1")
	u := "CONSTRAINT u_" + n + " UNIQUE (" + c1 + ")"
	switch d {
	case model.MY:
		u = "UNIQUE KEY u_" + n + " (" + c1 + ")"
	case model.CR:
		u = "UNIQUE INDEX u_" + n + " (" + c1 + ")"
	case model.SP:
		u = "CONSTRAINT f_" + n + " FOREIGN KEY (" + k0 + ") REFERENCES p (id)"
	}
	k := "CONSTRAINT k_" + n + " CHECK (" + k0 + " > 0)"
	i0 := "i0_" + n + " ON " + n + " (" + k0 + ")"
	i1 := "CREATE UNIQUE INDEX i1_" + n + " ON " + n + " (" + c1 + ", " + k0 + ")"
	i2 := "create index i2_" + n + " on " + n + " (" + c1 + ")"
	ln := func(f, v string) string { return t.ddl + f + v }
	out := []extra{
		{"nothing", nil, nil, nil, nil},
		{"constraint", []string{ln(": constraint: ", k)}, []string{k}, nil, nil},
		{"constraints", []string{ln(":constraint ", u), ln(": constraints:\t", k)}, []string{u, k}, nil, nil},
		{"index", []string{ln(": index: ", i0)}, nil, nil, []string{"CREATE INDEX " + i0}},
		{"indexes", []string{ln(":index ", i1), ln(": indexes: ", i0), ln(": index: ", i2)}, nil, nil, []string{i1, "CREATE INDEX " + i0, i2}},
		{"constraint and index", []string{ln(": index: ", i0), ln(": constraint: ", u), ln(":index    ", i1)}, []string{u}, nil, []string{"CREATE INDEX " + i0, i1}},
	}
	switch d {
	case model.MY:
		o := "ENGINE=InnoDB DEFAULT CHARSET=utf8mb4"
		out = append(out, extra{"option", []string{ln(": option: ", o)}, nil, []string{o}, nil})
	case model.SP:
		o, p := "INTERLEAVE IN PARENT p ON DELETE CASCADE", "ROW DELETION POLICY (OLDER_THAN(ts, INTERVAL 1 DAY))"
		out = append(out, extra{"option", []string{ln(": option: ", o)}, nil, []string{o}, nil}, extra{"options", []string{ln(":option ", o), ln(": constraint: ", k), ln(": options: ", p)}, []string{k}, []string{o, p}, nil})
	}
	return out
}

// noise are comment lines that declare nothing.
func noise(t gtags) []string {
	return []string{
		"See: table nothing",
		"NOTE: constraint of things",
		"other" + t.ddl + ": table: wrong",
		"other" + t.ddl + ": constraint: CHECK (wrong)",
		"other" + t.ddl + ":index wrong ON wrong (wrong)",
		"the " + t.ddl + ": table: wrong",
		t.ddl + "x: option: wrong",
		"CREATE TABLE wrong (id INT);",
		t.ddl + ": remark: nothing",
		t.ddl + ": tablespace wrong",
		"isn't \"quoted\", nor `y`; -- 100% */* fine",
	}
}

// cform is a way of writing the comment of a type.
type cform struct {
	name string
	one  bool // only for one line
	make func(lines []string, typ, decl, body string) string
}

func lineComments(prefix string, lines []string) string {
	var b strings.Builder
	for _, l := range lines {
		b.WriteString(strings.TrimRight(prefix+l, " \t") + "\n")
	}
	return b.String()
}

var cforms = []cform{
	{"line", false, func(ls []string, typ, decl, body string) string {
		return lineComments("// ", ls) + "type " + decl + " struct {\n" + body + "}\n"
	}},
	{"directive", false, func(ls []string, typ, decl, body string) string {
		return "// " + typ + " is a type.\n//\n" + lineComments("//", ls) + "type " + decl + " struct {\n" + body + "}\n"
	}},
	{"tabbed", false, func(ls []string, typ, decl, body string) string {
		return "// " + typ + " is a type.\n" + lineComments("//\t", ls) + "// The end.\ntype " + decl + " struct {\n" + body + "}\n"
	}},
	{"slashes", false, func(ls []string, typ, decl, body string) string {
		return lineComments("/// ", ls) + "type " + decl + " struct {\n" + body + "}\n"
	}},
	{"block line", true, func(ls []string, typ, decl, body string) string {
		return "/* " + ls[0] + " */\ntype " + decl + " struct {\n" + body + "}\n"
	}},
	{"block lines", false, func(ls []string, typ, decl, body string) string {
		var b strings.Builder
		for _, l := range ls {
			b.WriteString("/* " + l + " */\n")
		}
		return b.String() + "type " + decl + " struct {\n" + body + "}\n"
	}},
	{"block", false, func(ls []string, typ, decl, body string) string {
		return "/*\n" + typ + " isn't a type;\n\n" + strings.Join(ls, "\n") + "\n*/\ntype " + decl + " struct {\n" + body + "}\n"
	}},
	{"line and block", false, func(ls []string, typ, decl, body string) string {
		return "// " + typ + " is a type.\n/* It is\nmore than one line. */\n" + lineComments("// ", ls) + "type " + decl + " struct {\n" + body + "}\n"
	}},
	{"group", false, func(ls []string, typ, decl, body string) string {
		return "type (\n" + lineComments("\t// ", ls) + "\t" + decl + " struct {\n" + body + "\t}\n)\n"
	}},
	{"group doc", false, func(ls []string, typ, decl, body string) string {
		return lineComments("// ", ls) + "type (\n\t" + decl + " struct {\n" + body + "\t}\n)\n"
	}},
	{"detached", false, func(ls []string, typ, decl, body string) string {
		return lineComments("// ", ls) + "\n// " + typ + " is a type.\ntype " + decl + " struct {\n" + body + "}\n"
	}},
}

// annotated builds an annotated type: name of the table n, of the type typ.
func annotated(d D, t gtags, n, typ string, tf tform, cf cform, ex extra, order int, withNoise bool, forms []fform) (gpiece, bool) {
	body, cols, pk := gstruct(d, t, forms)
	tab := &gtable{create: tf.create(n, typ), cols: cols, pk: pk, cons: ex.cons, opts: ex.opts}
	var lines []string
	tl := tf.line(t, n)
	el := append([]string(nil), ex.lines...)
	switch {
	case tl == "":
		lines = el
	case order == 0:
		lines = append([]string{tl}, el...)
	case order == 1:
		lines = append(el, tl)
	default:
		if len(el) < 2 {
			return gpiece{}, false
		}
		lines = append([]string{el[0], tl}, el[1:]...)
	}
	if len(lines) == 0 {
		return gpiece{}, false
	}
	if withNoise {
		ns := noise(t)
		var mixed []string
		for i := range ns {
			mixed = append(mixed, ns[i])
			if i < len(lines) {
				mixed = append(mixed, lines[i])
			}
		}
		if len(lines) > len(ns) {
			mixed = append(mixed, lines[len(ns):]...)
		}
		lines = mixed
	}
	if cf.one && len(lines) != 1 || strings.HasPrefix(cf.name, "block") && withNoise {
		return gpiece{}, false
	}
	if cf.name == "detached" { // a detached comment that holds only indexes does not describe the type
		only := tl == "" && len(ex.cons)+len(ex.opts) == 0
		if only {
			return gpiece{}, false
		}
	}
	p := gpiece{text: cf.make(lines, typ, typ, body)}
	if len(cols) > 0 {
		p.decls = append(p.decls, gdecl{table: tab})
	}
	for _, x := range ex.idx {
		p.decls = append(p.decls, gdecl{index: x})
	}
	return p, true
}

// layouts are pieces of a file; k makes their names unique.
func layouts(d D, t gtags) []func(k int) gpiece {
	ds := gdefs(d)
	fields := func() (string, []gcol, []string) { return gstruct(d, t, []fform{fform1("key"), fform1("plain")}) }
	tab := func(create string) gdecl {
		_, c, p := fields()
		return gdecl{table: &gtable{create: create, cols: c, pk: p}}
	}
	body := func() string { b, _, _ := fields(); return b }
	_ = ds
	S := fmt.Sprintf
	return []func(k int) gpiece{
		func(k int) gpiece {
			return gpiece{name: "type", text: S("// %s: table: t%d\ntype T%d struct {\n%s}\n", t.ddl, k, k, body()), decls: []gdecl{tab(S("CREATE TABLE t%d", k))}}
		},
		func(k int) gpiece {
			return gpiece{name: "type with index", text: S("// T%d is.\n//\n//%s:table t%d\n//%s:index i%d ON t%d (key0)\ntype T%d struct {\n%s}\n", k, t.ddl, k, t.ddl, k, k, k, body()),
				decls: []gdecl{tab(S("CREATE TABLE t%d", k)), {index: S("CREATE INDEX i%d ON t%d (key0)", k, k)}}}
		},
		func(k int) gpiece {
			return gpiece{name: "generic type", text: S("// %s: table: t%d\ntype T%d[A any, B comparable] struct {\n%s}\n", t.ddl, k, k, body()), decls: []gdecl{tab(S("CREATE TABLE t%d", k))}}
		},
		func(k int) gpiece {
			return gpiece{name: "plain struct", text: S("// T%d is not annotated.\ntype T%d struct {\n%s}\n", k, k, body())}
		},
		func(k int) gpiece {
			return gpiece{name: "bare struct", text: S("type T%d struct {\n%s}\n", k, body())}
		},
		func(k int) gpiece {
			return gpiece{name: "slice type", text: S("// %s: table: wrong%d\ntype T%d []*X\n", t.ddl, k, k)}
		},
		func(k int) gpiece {
			return gpiece{name: "empty type", text: S("// %s: table: wrong%d\ntype T%d struct{}\n", t.ddl, k, k)}
		},
		func(k int) gpiece {
			return gpiece{name: "interface", text: S("// %s: table: wrong%d\ntype T%d interface {\n\t// M does.\n\tM() struct {\n%s}\n}\n", t.ddl, k, k, body())}
		},
		func(k int) gpiece {
			return gpiece{name: "slice of structs", text: S("// %s: table: wrong%d\ntype T%d []struct {\n%s}\n", t.ddl, k, k, body())}
		},
		func(k int) gpiece {
			return gpiece{name: "alias", text: S("// %s: table: wrong%d\ntype T%d = X\n", t.ddl, k, k)}
		},
		func(k int) gpiece {
			return gpiece{name: "func", text: S("// %s: table: wrong%d\nfunc F%d() {\n\ttype L struct {\n%s}\n\t_ = func() { var x struct {\n%s} }\n}\n", t.ddl, k, k, body(), body())}
		},
		func(k int) gpiece {
			return gpiece{name: "func with type", text: S("// F%d does.\nfunc F%d() {\n\ttype L struct {\n%s}\n\n\t// %s: table: l%d\n\ttype M struct {\n%s}\n\n\ttype N struct {\n%s}\n}\n", k, k, body(), t.ddl, k, body(), body()), decls: []gdecl{tab(S("CREATE TABLE l%d", k))}}
		},
		func(k int) gpiece {
			return gpiece{name: "variable", text: S("// %s: table: wrong%d\nvar v%d = struct {\n%s}{}\n", t.ddl, k, k, body())}
		},
		func(k int) gpiece {
			return gpiece{name: "constant", text: S("// %s: index: k%d ON x (a)\nconst k%d = 1\n", t.ddl, k, k), decls: []gdecl{{index: S("CREATE INDEX k%d ON x (a)", k)}}}
		},
		func(k int) gpiece {
			return gpiece{name: "free index", text: S("// %s: index: f%d ON x (a)\n", t.ddl, k), decls: []gdecl{{index: S("CREATE INDEX f%d ON x (a)", k)}}}
		},
		func(k int) gpiece {
			return gpiece{name: "free indexes in a block", text: S("/*\n%s: index: f%d ON x (a)\n%s: index: CREATE INDEX g%d ON x (b)\n*/\n", t.ddl, k, t.ddl, k), decls: []gdecl{{index: S("CREATE INDEX f%d ON x (a)", k)}, {index: S("CREATE INDEX g%d ON x (b)", k)}}}
		},
		func(k int) gpiece {
			return gpiece{name: "free comment", text: S("// This is a comment about table: t%d, and other%s: index: x.\n", k, t.ddl)}
		},
		func(k int) gpiece {
			return gpiece{name: "group", text: S("type (\n\t// %s: table: a%d\n\tA%d struct {\n%s\t}\n\n\t// B%d is not annotated.\n\tB%d struct {\n%s\t}\n\n\t// %s: table: c%d\n\tC%d struct {\n%s\t}\n)\n", t.ddl, k, k, body(), k, k, body(), t.ddl, k, k, body()),
				decls: []gdecl{tab(S("CREATE TABLE a%d", k)), tab(S("CREATE TABLE c%d", k))}}
		},
		func(k int) gpiece {
			b := body()
			return gpiece{name: "index inside", text: S("// %s: table: t%d\ntype T%d struct {\n\t// %s: index: i%d ON t%d (key0)\n%s\n\t// %s: index: j%d ON t%d (key0)\n}\n", t.ddl, k, k, t.ddl, k, k, b, t.ddl, k, k),
				decls: []gdecl{tab(S("CREATE TABLE t%d", k)), {index: S("CREATE INDEX i%d ON t%d (key0)", k, k)}, {index: S("CREATE INDEX j%d ON t%d (key0)", k, k)}}}
		},
		func(k int) gpiece {
			return gpiece{name: "index right after", text: S("// T%d is not annotated.\ntype T%d struct {\n%s}\n// %s: index: r%d ON x (key0)\n", k, k, body(), t.ddl, k), decls: []gdecl{{index: S("CREATE INDEX r%d ON x (key0)", k)}}}
		},
		func(k int) gpiece {
			return gpiece{name: "index before the package", pre: true, text: S("// %s: index: p%d ON x (a)\n", t.ddl, k), decls: []gdecl{{index: S("CREATE INDEX p%d ON x (a)", k)}}}
		},
		func(k int) gpiece {
			return gpiece{name: "package comment", pre: true, text: S("/*\nPackage models: table of things, isn't it %d.\n*/\n", k)}
		},
	}
}
