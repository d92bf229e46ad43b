def cli(dialect, a, b, grep, neg=False):
    return f'''
cat > "$D/a.sql" <<'X'
{a}
X
cat > "$D/b.sql" <<'X'
{b}
X
out="$("$D/ddlctl" diff --dialect={dialect} "$D/a.sql" "$D/b.sql")" || exit 3
printf '%s\\n' "$out" | grep -v '^--' | tr -s '[:space:]"`' ' ' > "$D/out"
cat "$D/out"
{'!' if neg else ''} grep -qi -- {grep!r} "$D/out"
'''
PG='pkg/ddl/postgres/'; MY='pkg/ddl/mysql/'; CR='pkg/ddl/cockroachdb/'; SP='pkg/ddl/spanner/'
SEEDS = [
 dict(id='c04-pg-default-after-type', property='C04', needs='a column whose type and default change at once',
  breaks='the new default is forgotten when the type changes too, so the migration does not reach the target',
  edits=[(PG+'diff_create_table.go','''		case afterColumn.Default != nil && beforeColumn.Default.StringForDiff() != afterColumn.Default.StringForDiff():''','''		case beforeColumn.DataType.StringForDiff() == afterColumn.DataType.StringForDiff() && afterColumn.Default != nil && beforeColumn.Default.StringForDiff() != afterColumn.Default.StringForDiff():''')],
  demo=cli('postgres','CREATE TABLE t (id INTEGER NOT NULL, c INTEGER DEFAULT 1);','CREATE TABLE t (id INTEGER NOT NULL, c BIGINT DEFAULT 2);','SET DEFAULT 2')),
 dict(id='c08-sp-filter-in-place', property='C08', needs='a parsed schema that is diffed and then used again',
  breaks='the list of new columns is filtered in place, which rewrites the caller\'s target schema',
  edits=[(SP+'diff_create_table.go','onlyLeftColumns := make([]*Column, 0)','onlyLeftColumns := left[:0]')],
  files={'demo.go':'''package main

import (
	"fmt"
	"os"

	"github.com/kunitsucom/ddlctl/pkg/ddl/spanner"
)

func main() {
	p := func(s string) *spanner.DDL {
		d, err := spanner.NewParser(spanner.NewLexer(s)).Parse()
		if err != nil {
			panic(err)
		}
		return d
	}
	a := p("CREATE TABLE t (id INT64 NOT NULL, b INT64) PRIMARY KEY (id);")
	b := p("CREATE TABLE t (id INT64 NOT NULL, b INT64, c INT64, d INT64) PRIMARY KEY (id);")
	x := b.String()
	r1, _ := spanner.Diff(a, b)
	s1 := r1.String()
	if b.String() != x {
		fmt.Println("target changed:", b.String())
		os.Exit(1)
	}
	r2, _ := spanner.Diff(a, b)
	if r2.String() != s1 {
		fmt.Println("second diff differs")
		os.Exit(1)
	}
}
'''}, demo='''
printf '{"Replace":{"%s/pkg/internal/zzdemo/main.go":"%s/demo.go"}}' "$PWD" "$HERE" > "$D/o.json"
go build -overlay "$D/o.json" -o "$D/demo" ./pkg/internal/zzdemo || exit 2
"$D/demo"
'''),
 dict(id='c06-sp-options-added', property='C06', needs='a column that gains OPTIONS where there were none before',
  breaks='adding column OPTIONS to an existing column is not seen as a difference',
  edits=[(SP+'diff_create_table.go','case afterColumn.Options != nil && beforeColumn.Options.StringForDiff()','case afterColumn.Options != nil && beforeColumn.Options != nil && beforeColumn.Options.StringForDiff()')],
  demo=cli('spanner','CREATE TABLE t (id INT64 NOT NULL, ts TIMESTAMP) PRIMARY KEY (id);','CREATE TABLE t (id INT64 NOT NULL, ts TIMESTAMP OPTIONS (allow_commit_timestamp = true)) PRIMARY KEY (id);','allow_commit_timestamp')),
 dict(id='c01-my-comment-eof', property='C01', needs='a text that ends inside a comment without a final newline',
  breaks='the lexer never returns',
  edits=[(MY+'lexar.go',"for l.ch != '\\n' && l.ch != 0 {","for l.ch != '\\n' {")],
  demo='''
printf 'CREATE TABLE t (id INT NOT NULL); -- the end' > "$D/a.sql"; printf 'CREATE TABLE t (id INT NOT NULL);' > "$D/b.sql"
ulimit -v 8000000; timeout 10 "$D/ddlctl" diff --dialect=mysql "$D/a.sql" "$D/b.sql"
'''),
 dict(id='c02-my-desc-lost', property='C02', needs='an index of several columns with one in descending order',
  breaks='the direction of index columns is lost when an inline index is printed',
  edits=[(MY+'ddl_table.go','''		str += "KEY " + c.Name.String() + " "
	}
	str += "(" + stringz.JoinStringers(", ", c.Columns...) + ")"''','''		str += "KEY " + c.Name.String() + " "
	}
	names := make([]*Ident, 0, len(c.Columns))
	for _, column := range c.Columns {
		names = append(names, column.Ident)
	}
	str += "(" + stringz.JoinStringers(", ", names...) + ")"''')],
  demo=cli('mysql','','CREATE TABLE t (id INT NOT NULL, a INT, b INT, KEY k (a, b DESC));','b DESC')),
 dict(id='c07-my-collate', property='C07', needs='a column with COLLATE next to another column that changes',
  breaks='a column with a collation is modified although it did not change',
  edits=[(MY+'diff_create_table.go','beforeColumn.Collate.StringForDiff() != afterColumn.Collate.StringForDiff() ||','beforeColumn.Collate != afterColumn.Collate ||')],
  demo=cli('mysql','CREATE TABLE t (id INT NOT NULL, a VARCHAR(9) COLLATE utf8mb4_bin NULL, b INT);','CREATE TABLE t (id INT NOT NULL, a VARCHAR(9) COLLATE utf8mb4_bin NULL, b INT, c INT);','MODIFY', True)),
 dict(id='c03-cr-index-if-not-exists', property='C03', needs='one of the two schemas written with CREATE INDEX IF NOT EXISTS',
  breaks='an index written with IF NOT EXISTS is dropped and created again',
  edits=[(CR+'ddl_index_create.go','''	str += "INDEX "
	str += s.Name.StringForDiff()''','''	str += "INDEX "
	if s.IfNotExists {
		str += "IF NOT EXISTS "
	}
	str += s.Name.StringForDiff()''')],
  demo=cli('cockroachdb','CREATE TABLE t (id INT8 NOT NULL);\nCREATE INDEX i ON t (id);','CREATE TABLE t (id INT8 NOT NULL);\nCREATE INDEX IF NOT EXISTS i ON t (id);','DROP INDEX', True)),
 dict(id='c04-cr-notnull-drop', property='C04', needs='a column that loses its default and becomes nullable in one step',
  breaks='DROP NOT NULL is forgotten when the default goes away too',
  edits=[(CR+'diff_create_table.go','case beforeColumn.NotNull && !afterColumn.NotNull:','case beforeColumn.NotNull && !afterColumn.NotNull && !(beforeColumn.Default != nil && afterColumn.Default == nil):')],
  demo=cli('cockroachdb','CREATE TABLE t (id INT8 NOT NULL, c INT8 NOT NULL DEFAULT 1);','CREATE TABLE t (id INT8 NOT NULL, c INT8);','DROP NOT NULL')),
]
