FAKE = open(__import__('os').path.dirname(__import__('os').path.abspath('/verif/tools/seeds2.py')) + '/seedfake.go.txt').read()
def gen(dialect, files, grep, neg=False, args='', src='src', pre=''):
    w = ''.join(f'mkdir -p "$(dirname "$D/{n}")"\ncat > "$D/{n}" <<\'X\'\n{t}\nX\n' for n, t in files.items())
    return f'''
{w}{pre}
"$D/ddlctl" generate --dialect={dialect} {args} "$D/{src}" "$D/out.sql" 2> "$D/err" || exit 3
grep -v '^ *--' "$D/out.sql" | tr -s '[:space:]"`' ' ' > "$D/out"
cat "$D/out"
{'!' if neg else ''} grep -qi -- {grep!r} "$D/out"
'''
def prog(run):
    return '''
mkdir -p "$D/p"; cp "$HERE/fake.go" "$HERE/main.go" "$D/p/"
printf '{"Replace":{"%s/pkg/internal/zzdemo/main.go":"%s/p/main.go","%s/pkg/internal/zzdemo/fake.go":"%s/p/fake.go"}}' "$PWD" "$D" "$PWD" "$D" > "$D/o.json"
go build -overlay "$D/o.json" -o "$D/demo" ./pkg/internal/zzdemo || exit 2
cd "$D"
''' + run
AP='pkg/ddlctl/apply/ddlctl_apply.go'; DF='pkg/ddlctl/diff/ddlctl_diff.go'; GE='pkg/ddlctl/generate/ddlctl_generate.go'; SH='pkg/ddlctl/show/ddlctl_show.go'
PA='pkg/internal/lang/go/parse.go'; EX='pkg/internal/lang/go/extract_source.go'; CF='pkg/internal/config/'; RX='pkg/internal/lang/util/regex.go'
SSP='pkg/show/spanner/show_create_all_tables.go'; SPG='pkg/show/postgres/show_create_all_tables.go'; SMY='pkg/show/mysql/show_create_all_tables.go'; SCR='pkg/show/cockroachdb/show_create_all_tables.go'
CMD = '''package main

import (
	"context"
	"fmt"
	"os"
%s
	"github.com/kunitsucom/ddlctl/pkg/ddlctl/apply"
	cliz "github.com/kunitsucom/util.go/exp/cli"
)

func run(args ...string) error {
	str := func(n, d string) cliz.Option { return &cliz.StringOption{Name: n, Default: cliz.Default(d)} }
	cmd := &cliz.Command{Name: "ddlctl", SubCommands: []*cliz.Command{{Name: "apply", RunFunc: apply.Command,
		Options: []cliz.Option{str("lang", "go"), str("dialect", ""), str("go-column-tag", "db"), str("go-ddl-tag", "ddlctl"), str("go-pk-tag", "pk"),
			&cliz.BoolOption{Name: "auto-approve", Default: cliz.Default(false)}}}},
		Options: []cliz.Option{&cliz.BoolOption{Name: "trace", Default: cliz.Default(false)}, &cliz.BoolOption{Name: "debug", Default: cliz.Default(false)}}}
	return cmd.Run(context.Background(), append([]string{"ddlctl"}, args...))
}

func must(c bool, f string, a ...any) {
	if !c {
		fmt.Fprintf(os.Stderr, f+"\\n", a...)
		os.Exit(1)
	}
}
'''
A2 = "package m\n\n"
SEEDS = [
 dict(id='c10-answer-trimmed', property='C10', needs='an answer of "yes" with blanks around it', breaks='an answer other than exactly "yes" approves the migration',
  edits=[(AP,'switch input := scanner.Text(); input {','switch input := strings.TrimSpace(scanner.Text()); input {')],
  files={'fake.go':FAKE,'main.go':CMD%''+'''
func main() {
	Register("cockroachdb", "pgx", "postgres", "mysql")
	Rows = func(q string) ([]string, [][]any) { return []string{"create_statement"}, nil }
	_ = run("apply", "--dialect", "postgres", "dsn", "t.sql")
	must(len(Execs) == 0, "executed: %q", Execs)
}
'''}, demo=prog('''echo 'CREATE TABLE t (id INTEGER NOT NULL);' > t.sql
echo ' yes' | ./demo || exit 1
''')),
 dict(id='c10-second-line', property='C10', needs='an input whose first line is a refusal and which contains a line "yes" later', breaks='a refused migration is executed because a later line of the input is taken as the answer',
  edits=[(AP,'''	scanner.Scan()

	switch input := scanner.Text(); input {
	case "yes":
		return nil
	default:
		return apperr.Errorf("input=%q: %w", input, apperr.ErrCanceled)
	}
''','''	input := ""
	for scanner.Scan() {
		if input = scanner.Text(); input == "yes" {
			return nil
		}
	}

	return apperr.Errorf("input=%q: %w", input, apperr.ErrCanceled)
''')],
  files={'fake.go':FAKE,'main.go':CMD%''+'''
func main() {
	Register("cockroachdb", "pgx", "postgres", "mysql")
	Rows = func(q string) ([]string, [][]any) { return []string{"create_statement"}, nil }
	_ = run("apply", "--dialect", "postgres", "dsn", "t.sql")
	must(len(Execs) == 0, "executed: %q", Execs)
}
'''}, demo=prog('''echo 'CREATE TABLE t (id INTEGER NOT NULL);' > t.sql
printf 'no\\nyes\\n' | ./demo || exit 1
''')),
 dict(id='c11-recomputed', property='C11', needs='the target file changes while the operator is asked', breaks='what is executed is computed again after the approval, so it is not what was shown',
  edits=[(AP,'''	if err := Apply(ctx, dialect, leftArg, ddlStr); err != nil {''','''	buf.Reset()
	if err := diff.Diff(ctx, buf, dialect, language, leftArg, rightArg); err != nil {
		return apperr.Errorf("diff: %w", err)
	}

	if err := Apply(ctx, dialect, leftArg, buf.String()); err != nil {''')],
  files={'fake.go':FAKE,'main.go':CMD%'\t"strings"\n\t"time"\n'+'''
func main() {
	Register("cockroachdb", "pgx", "postgres", "mysql")
	Rows = func(q string) ([]string, [][]any) { return []string{"create_statement"}, nil }
	r, w, _ := os.Pipe()
	os.Stdin = r
	go func() {
		time.Sleep(500 * time.Millisecond)
		_ = os.WriteFile("t.sql", []byte("CREATE TABLE other (id INTEGER NOT NULL);"), 0o600)
		_, _ = w.WriteString("yes\\n")
	}()
	_ = run("apply", "--dialect", "postgres", "dsn", "t.sql")
	must(!strings.Contains(strings.Join(Execs, " "), "other"), "executed: %q", Execs)
}
'''}, demo=prog('''echo 'CREATE TABLE t (id INTEGER NOT NULL);' > t.sql
./demo || exit 1
''')),
 dict(id='c12-duplicate-entry', property='C12', needs='a MySQL statement that fails with "Duplicate entry"', breaks='a unique index that could not be built is taken as existing, and apply succeeds',
  edits=[(AP,'errorz.Contains(err, "Duplicate column name")','errorz.Contains(err, "Duplicate")')],
  files={'fake.go':FAKE,'main.go':CMD%'\t"errors"\n'+'''
func main() {
	Register("mysql")
	Fail = func(q string) error { return errors.New("Error 1062 (23000): Duplicate entry '1' for key 't.u'") }
	err := apply.Apply(context.Background(), "mysql", "dsn", "CREATE UNIQUE INDEX u ON t (a);")
	must(err != nil, "success")
	_ = run
}
'''}, demo=prog('timeout 60 ./demo')),
 dict(id='c12-close-error-wins', property='C12', needs='a statement fails in Spanner and closing the connection succeeds', breaks='the error of the batch is replaced by the result of closing the database',
  edits=[(AP,'''		if err2 := db.Close(); err2 != nil && err == nil {
			err = apperr.Errorf("db.Close: %w", err2)
		}''','''		if err = db.Close(); err != nil {
			err = apperr.Errorf("db.Close: %w", err)
		}''')],
  files={'fake.go':FAKE,'main.go':CMD%'\t"errors"\n'+'''
func main() {
	Register("spanner")
	Fail = func(q string) error {
		if q == "RUN BATCH" {
			return errors.New("failed")
		}
		return nil
	}
	err := apply.Apply(context.Background(), "spanner", "dsn", "CREATE TABLE t (id INT64) PRIMARY KEY (id);")
	must(err != nil, "success")
	_ = run
}
'''}, demo=prog('timeout 60 ./demo')),
 dict(id='c13-run-what-was-accepted', property='C13', needs='a statement of the batch is refused after others were accepted', breaks='the batch is run although one of its statements was refused',
  edits=[(AP,'''				return apperr.Errorf("conn.ExecContext: q=%s: %w", q, err)
			}
		}

		{
			q := "RUN BATCH"''','''				_, err2 := conn.ExecContext(ctx, "RUN BATCH")
				return apperr.Errorf("conn.ExecContext: q=%s: %w", q, errors.Join(err, err2))
			}
		}

		{
			q := "RUN BATCH"''')],
  files={'fake.go':FAKE,'main.go':CMD%'\t"errors"\n'+'''
func main() {
	Register("spanner")
	Fail = func(q string) error {
		if q == "B" {
			return errors.New("failed")
		}
		return nil
	}
	err := apply.Apply(context.Background(), "spanner", "dsn", "A;B;C;")
	must(err != nil, "success")
	for _, q := range Execs {
		must(q != "RUN BATCH", "executed: %q", Execs)
	}
	_ = run
}
'''}, demo=prog('timeout 60 ./demo')),
 dict(id='c15-my-vanished', property='C15', needs='SHOW CREATE TABLE gives no row for a table that was listed', breaks='a table whose definition cannot be read is left out of the schema',
  edits=[(SMY,'''		if err := dbz.QueryContext(ctx, showCreateTable, showCreateTableQuery); err != nil {''','''		if err := dbz.QueryContext(ctx, showCreateTable, showCreateTableQuery); errors.Is(err, sql.ErrNoRows) {
			continue
		} else if err != nil {'''),(SMY,'''	"database/sql"
''','''	"database/sql"
	"errors"
''')],
  files={'fake.go':FAKE,'main.go':CMD%'\t"strings"\n\t"github.com/kunitsucom/ddlctl/pkg/ddlctl/show"\n'+'''
func main() {
	Register("mysql")
	Rows = func(q string) ([]string, [][]any) {
		if strings.HasPrefix(q, "SHOW") {
			return []string{"Table", "Create Table"}, nil
		}
		return []string{"TABLE_NAME"}, [][]any{{"t"}}
	}
	s, err := show.Show(context.Background(), "mysql", "dsn")
	must(err != nil, "success: %q", s)
	_ = run
}
'''}, demo=prog('timeout 60 ./demo')),
 dict(id='c15-sp-options-best-effort', property='C15', needs='the query for the column options of a table fails', breaks='the schema is shown without its column options when they cannot be read',
  edits=[(SSP,'''		if err := dbz.QueryContext(ctx, &allColumnOptions, queryShowTableColumnOptions, tbl.TableName); err != nil {
			return "", apperr.Errorf("dbz.QueryContext: %w", err)
		}''','''		if err := dbz.QueryContext(ctx, &allColumnOptions, queryShowTableColumnOptions, tbl.TableName); err != nil {
			logs.Warn.Printf("table=%s: column options: %v", tbl.TableName, err)
		}''')],
  files={'fake.go':FAKE,'main.go':CMD%'\t"errors"\n\t"strings"\n\t"github.com/kunitsucom/ddlctl/pkg/ddlctl/show"\n'+'''
func main() {
	Register("spanner")
	Rows = func(q string) ([]string, [][]any) {
		switch {
		case strings.Contains(q, "SCHEMA.COLUMNS"):
			return []string{"TABLE_NAME", "COLUMN_NAME", "COLUMN_DEFAULT", "IS_NULLABLE", "SPANNER_TYPE"}, [][]any{{"t", "id", nil, "NO", "INT64"}}
		case strings.Contains(q, "TABLE_TYPE"):
			return []string{"TABLE_NAME"}, [][]any{{"t"}}
		}
		return nil, nil
	}
	FailQuery = func(q string) error {
		if strings.Contains(q, "COLUMN_OPTIONS") {
			return errors.New("unavailable")
		}
		return nil
	}
	s, err := show.Show(context.Background(), "spanner", "dsn")
	must(err != nil, "success: %q", s)
	_ = run
}
'''}, demo=prog('timeout 60 ./demo')),
 dict(id='c17-cmt-contains-tag', property='C17', needs='a field whose pk tag is written "1"', breaks='the column is not part of the primary key',
  edits=[(PA,'case "true", "1":','case "true":')],
  demo=gen('postgres', {'src/m.go': A2+'//ddlctl:table t\ntype T struct {\n\tA int `db:"a" ddlctl:"INTEGER NOT NULL" pk:"true"`\n\tB int `db:"b" ddlctl:"INTEGER NOT NULL" pk:"1"`\n}'}, 'PRIMARY KEY ( a , b )')),
 dict(id='c17-constraint-once', property='C17', needs='two constraints of one table', breaks='of several constraints only the last one is generated',
  edits=[(PA,'''createTableStmt.Constraints = append(createTableStmt.Constraints, &generator.CreateTableConstraint{
					Constraint: matches[langutil.StmtRegexCreateTableConstraint.Index],
				})''','''createTableStmt.Constraints = append(createTableStmt.Constraints[:0], &generator.CreateTableConstraint{
					Constraint: matches[langutil.StmtRegexCreateTableConstraint.Index],
				})''')],
  demo=gen('postgres', {'src/m.go': A2+'//ddlctl:table t\n//ddlctl:constraint UNIQUE (a)\n//ddlctl:constraint CHECK (a > 0)\ntype T struct {\n\tA int `db:"a" ddlctl:"INTEGER NOT NULL"`\n}'}, 'UNIQUE')),
 dict(id='c18-test-anywhere', property='C18', needs='a source directory whose path contains "_test"', breaks='the files of a directory with "_test" in its path are not read',
  edits=[(PA,'strings.HasSuffix(path, "_test.go")','strings.Contains(path, "_test")')],
  demo=gen('postgres', {'src/a_tests/m.go': A2+'//ddlctl:table t\ntype T struct {\n\tA int `db:"a" ddlctl:"INTEGER NOT NULL"`\n}'}, 'CREATE TABLE t')),
 dict(id='c18-hidden-directories', property='C18', needs='a source directory named with a leading dot', breaks='directories whose names start with a dot are skipped, the given one included',
  edits=[(PA,'''		if d.IsDir() ||''','''		if d.IsDir() && strings.HasPrefix(d.Name(), ".") {
			return filepath.SkipDir
		}

		if d.IsDir() ||''')],
  demo=gen('postgres', {'.src/m.go': A2+'//ddlctl:table t\ntype T struct {\n\tA int `db:"a" ddlctl:"INTEGER NOT NULL"`\n}'}, 'CREATE TABLE t', src='.src')),
 dict(id='c19-line-numbers-as-text', property='C19', needs='annotations on lines with different numbers of digits', breaks='the statements are put in the order of the texts of their line numbers: 10 before 9',
  edits=[(PA,'return fmt.Sprintf("%s:%09d", stmts[i].GetSourceFile(), stmts[i].GetSourceLine()) < fmt.Sprintf("%s:%09d", stmts[j].GetSourceFile(), stmts[j].GetSourceLine())','return fmt.Sprintf("%s:%d", stmts[i].GetSourceFile(), stmts[i].GetSourceLine()) < fmt.Sprintf("%s:%d", stmts[j].GetSourceFile(), stmts[j].GetSourceLine())')],
  demo=gen('postgres', {'src/m.go': A2+'//ddlctl:table a\ntype A struct {\n\tA int `db:"a" ddlctl:"INTEGER NOT NULL"`\n}\n\n\n\n//ddlctl:table b\ntype B struct {\n\tA int `db:"a" ddlctl:"INTEGER NOT NULL"`\n}'}, 'CREATE TABLE a .*CREATE TABLE b')),
 dict(id='c21-sql-suffix', property='C21', needs='an SQL file whose name does not end in .sql', breaks='an SQL file is read as source code because of its name',
  edits=[(DF,'case osz.IsFile(arg): // NOTE: expect SQL file','case osz.IsFile(arg) && strings.HasSuffix(arg, ".sql"): // NOTE: expect SQL file')],
  demo='''
echo 'CREATE TABLE t (id INTEGER NOT NULL);' > "$D/a.ddl"; : > "$D/b.sql"
"$D/ddlctl" diff --dialect=postgres "$D/b.sql" "$D/a.ddl" | grep -q 'CREATE TABLE'
'''),
 dict(id='c22-load-once', property='C22', needs='two invocations in one process', breaks='the second invocation works with the settings of the first one',
  edits=[(CF+'config.go','''	globalConfig = cfg
''','''	if globalConfig != nil && globalConfig.Dialect == cfg.Dialect {
		cfg.DDLTagGo = globalConfig.DDLTagGo
	}
	globalConfig = cfg
''')],
  files={'main.go':'''package main

import (
	"context"
	"fmt"
	"os"
	"strings"

	"github.com/kunitsucom/ddlctl/pkg/ddlctl"
)

func main() {
	_ = os.WriteFile("m.go", []byte("package m\\n\\n//ddlctl:table t\\ntype T struct {\\n\\tA int `db:\\"a\\" ddlctl:\\"INTEGER\\"`\\n}\\n\\n//x:table u\\ntype U struct {\\n\\tA int `db:\\"a\\" x:\\"INTEGER\\"`\\n}\\n"), 0o600)
	for _, tag := range []string{"x", "ddlctl"} {
		os.Args = []string{"ddlctl", "generate", "--dialect", "postgres", "--go-ddl-tag", tag, "m.go", "out.sql"}
		if err := ddlctl.DDLCtl(context.Background()); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
	}
	b, _ := os.ReadFile("out.sql")
	if !strings.Contains(string(b), "CREATE TABLE t") {
		fmt.Println(string(b))
		os.Exit(1)
	}
}
''','fake.go':'package main\n'}, demo=prog('./demo')),
 dict(id='c22-auto-approve-env', property='C22', needs='auto approval is set in the environment and refused by a flag', breaks='--auto-approve=false does not win over the environment',
  edits=[(CF+'auto_approve.go','''	v, _ := cmd.GetOptionBool(consts.OptionAutoApprove)
	return v''','''	v, _ := cmd.GetOptionBool(consts.OptionAutoApprove)
	if env, err := strconv.ParseBool(os.Getenv(consts.EnvKeyAutoApprove)); err == nil {
		return v || env
	}
	return v'''),(CF+'auto_approve.go','''	"context"
''','''	"context"
	"os"
	"strconv"
''')],
  files={'fake.go':FAKE,'main.go':CMD%''+'''
func main() {
	Register("postgres")
	Rows = func(q string) ([]string, [][]any) { return []string{"create_statement"}, nil }
	_ = os.Setenv("DDLCTL_AUTO_APPROVE", "true")
	_ = run("apply", "--dialect", "postgres", "--auto-approve=false", "dsn", "t.sql")
	must(len(Execs) == 0, "executed: %q", Execs)
}
'''}, demo=prog('''echo 'CREATE TABLE t (id INTEGER NOT NULL);' > t.sql
echo 'no' | ./demo || exit 1
''')),
 dict(id='c23-nothing-to-print', property='C23', needs='an unsupported dialect and a source without tables', breaks='an unsupported dialect is accepted when there is nothing to generate',
  edits=[(GE,'''	switch dialect {
	case spanner.Dialect:''','''	if len(ddl.Stmts) == 0 {
		return nil
	}

	switch dialect {
	case spanner.Dialect:''')],
  demo='''
mkdir "$D/src"; echo 'package m' > "$D/src/m.go"
! "$D/ddlctl" generate --dialect=oracle "$D/src" "$D/out.sql"
'''),
 dict(id='c23-partial-arguments', property='C23', needs='diff with three arguments', breaks='surplus arguments of diff are ignored',
  edits=[(DF,'if len(args) != beforeAndAfterForDiff {','if len(args) < beforeAndAfterForDiff {')],
  demo='''
: > "$D/a.sql"
! "$D/ddlctl" diff --dialect=mysql "$D/a.sql" "$D/a.sql" "$D/a.sql"
'''),
]
