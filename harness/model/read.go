package model

import (
	"fmt"
	"sort"
	"strings"
)

// Stmt is one statement of a migration.
type Stmt struct {
	Op          string
	Table       string
	Tab         *Table
	Inline      []*Index // indexes declared inside CREATE TABLE
	Idx         *Index
	Col         *Col
	Con         *Con
	Name, Arg   string
	IfNotExists bool
	Flag        bool
	Text        string
}

type reader struct {
	d  Dialect
	ts []Tok
	i  int
	s  string
}

type readErr struct{ error }

func (r *reader) fail(f string, a ...any) {
	ctx := "end"
	if r.i < len(r.ts) {
		p := r.ts[r.i].Pos
		e := p + 30
		if e > len(r.s) {
			e = len(r.s)
		}
		ctx = r.s[p:e]
	}
	panic(readErr{fmt.Errorf("reader: "+f+" near %q", append(a, ctx)...)})
}

func (r *reader) peek() Tok {
	if r.i < len(r.ts) {
		return r.ts[r.i]
	}
	return Tok{}
}
func (r *reader) peekN(n int) Tok {
	if r.i+n < len(r.ts) {
		return r.ts[r.i+n]
	}
	return Tok{}
}
func (r *reader) next() Tok { t := r.peek(); r.i++; return t }
func (r *reader) kw(ws ...string) bool {
	for k, w := range ws {
		if !r.peekN(k).Is(w) {
			return false
		}
	}
	r.i += len(ws)
	return true
}
func (r *reader) need(ws ...string) {
	if !r.kw(ws...) {
		r.fail("expected %s", strings.Join(ws, " "))
	}
}
func (r *reader) punct(p string) bool {
	if t := r.peek(); t.Kind == 'p' && t.S == p {
		r.i++
		return true
	}
	return false
}
func (r *reader) needP(p string) {
	if !r.punct(p) {
		r.fail("expected %q", p)
	}
}
func (r *reader) isP(p string) bool { t := r.peek(); return t.Kind == 'p' && t.S == p }

// reserved words that may not be used as bare names in our alphabets
func (r *reader) ident() string {
	t := r.next()
	if t.Kind != 'w' && t.Kind != 'q' {
		r.i--
		r.fail("expected identifier")
	}
	if t.Kind == 'w' && strings.HasSuffix(t.S, ".") && r.peek().Kind == 'q' { // schema."name"
		return t.S + r.next().S
	}
	return t.S
}

var exprKw = map[string]bool{"NULL": true, "TRUE": true, "FALSE": true, "AND": true, "OR": true, "NOT": true, "IN": true, "IS": true, "CURRENT_TIMESTAMP": true, "BETWEEN": true, "LIKE": true,
	"TEXT": true, "INTEGER": true, "INT": true, "BOOLEAN": true, "VARCHAR": true, "BIGINT": true, "STRING": true, "TIMESTAMP": true, "NULLIF": true, "CASCADE": true, "ACTION": true, "NO": true,
	"ON": true, "DELETE": true, "UPDATE": true, "INTERVAL": true, "DAY": true, "OLDER_THAN": true}

// canonical spelling of a token inside an expression
func etok(t Tok) string {
	if t.Kind == 'w' && exprKw[strings.ToUpper(t.S)] {
		return strings.ToUpper(t.S)
	}
	if t.Kind == 's' {
		in := t.S[1 : len(t.S)-1]
		sign := ""
		if strings.HasPrefix(in, "-") {
			sign, in = "- ", in[1:]
		}
		num := in != ""
		for i := 0; i < len(in); i++ {
			if (in[i] < '0' || in[i] > '9') && in[i] != '.' {
				num = false
			}
		}
		if num && (t.Raw[0] == '\'' || t.Raw[0] == '"') {
			return sign + in // '1' and 1 denote the same default
		}
	}
	return t.S
}

// parens reads a balanced parenthesised token list, including the parentheses.
func (r *reader) parens() string {
	if !r.isP("(") {
		r.fail("expected (")
	}
	var out []string
	depth := 0
	for {
		t := r.next()
		if t.Kind == 0 {
			r.fail("unbalanced parentheses")
		}
		if t.Kind == 'p' && t.S == ";" {
			r.fail("; inside parentheses")
		}
		out = append(out, etok(t))
		if t.Kind == 'p' && t.S == "(" {
			depth++
		}
		if t.Kind == 'p' && t.S == ")" {
			depth--
			if depth == 0 {
				return strings.Join(out, " ")
			}
		}
	}
}

var typeSyn = map[Dialect]map[string]string{
	PG: {"INT": "INTEGER", "VARCHAR": "CHARACTER VARYING", "DECIMAL": "NUMERIC", "TIMESTAMPTZ": "TIMESTAMP WITH TIME ZONE"},
	MY: {"INTEGER": "INT", "NUMERIC": "DECIMAL", "CHARACTER VARYING": "VARCHAR", "DOUBLE PRECISION": "DOUBLE", "REAL": "DOUBLE", "BOOLEAN": "TINYINT(1)"},
	CR: {"BOOLEAN": "BOOL", "SMALLINT": "INT2", "INTEGER": "INT4", "INT": "INT4", "BIGINT": "INT8", "TEXT": "STRING", "NUMERIC": "DECIMAL", "DOUBLE PRECISION": "FLOAT8", "REAL": "FLOAT4", "CHARACTER VARYING": "VARCHAR", "TIMESTAMP WITH TIME ZONE": "TIMESTAMPTZ"},
	SP: {},
}

func (r *reader) dataType() string {
	t := r.next()
	if t.Kind != 'w' {
		r.i--
		r.fail("expected type")
	}
	n := strings.ToUpper(t.S)
	switch {
	case n == "DOUBLE" && r.kw("PRECISION"):
		n = "DOUBLE PRECISION"
	case n == "CHARACTER" && r.kw("VARYING"):
		n = "CHARACTER VARYING"
	case n == "TIMESTAMP" && r.kw("WITH", "TIME", "ZONE"):
		n = "TIMESTAMP WITH TIME ZONE"
	}
	if s := typeSyn[r.d][n]; s != "" {
		n = s
	}
	if r.isP("(") {
		var out []string
		r.next()
		for !r.punct(")") {
			t := r.next()
			if t.Kind == 0 {
				r.fail("unbalanced type arguments")
			}
			if t.Kind == 'p' && t.S == "," {
				out = append(out, ",")
				continue
			}
			s := t.S
			if t.Kind == 'w' {
				s = strings.ToUpper(s)
			}
			out = append(out, s)
		}
		n += "(" + strings.Join(out, " ") + ")"
		n = strings.ReplaceAll(n, " ,", ",")
	}
	return n
}

func bare(table string) string {
	if i := strings.LastIndexByte(table, '.'); i >= 0 {
		return table[i+1:]
	}
	return table
}

// stopDefault: keywords that end a default value
func (r *reader) stopDefault() bool {
	t := r.peek()
	if t.Kind == 0 || t.Kind == 'p' && (t.S == "," || t.S == ")" || t.S == ";") {
		return true
	}
	for _, k := range []string{"NOT", "PRIMARY", "UNIQUE", "REFERENCES", "CHECK", "CONSTRAINT", "ON", "COMMENT", "AUTO_INCREMENT", "CHARACTER", "COLLATE", "OPTIONS", "AS", "STORED", "VIRTUAL", "DEFAULT"} {
		if t.Is(k) {
			return true
		}
	}
	return false
}

func (r *reader) value() string {
	var out []string
	for !r.stopDefault() {
		// DEFAULT x NULL: the trailing NULL is the nullability
		if r.peek().Is("NULL") && len(out) > 0 {
			break
		}
		if r.isP("(") {
			out = append(out, r.parens())
			continue
		}
		out = append(out, etok(r.next()))
	}
	if len(out) == 0 {
		r.fail("expected a value")
	}
	return strings.Join(out, " ")
}

func (r *reader) onActions() []string {
	var on []string
	for r.kw("ON") {
		k := strings.ToUpper(r.next().S)
		if k != "DELETE" && k != "UPDATE" {
			r.fail("ON %s", k)
		}
		a := strings.ToUpper(r.next().S)
		switch a {
		case "CASCADE", "RESTRICT":
		case "NO":
			r.need("ACTION")
			a = "NO ACTION"
		case "SET":
			a = "SET " + strings.ToUpper(r.next().S)
		default:
			r.fail("action %s", a)
		}
		on = append(on, "ON "+k+" "+a)
	}
	return on
}

func (r *reader) names() []string {
	r.needP("(")
	var out []string
	for {
		n := r.ident()
		if r.kw("DESC") {
			n += " DESC"
		} else {
			r.kw("ASC")
		}
		out = append(out, n)
		if r.punct(")") {
			return out
		}
		r.needP(",")
	}
}

// column reads one column definition with its inline constraints.
func (r *reader) column(table string) (*Col, []*Con, []*Index) {
	c := &Col{Name: r.ident()}
	c.Type = r.dataType()
	tb := bare(table)
	var cons []*Con
	var idx []*Index
	for {
		t := r.peek()
		if t.Kind == 0 || t.Kind == 'p' && (t.S == "," || t.S == ")" || t.S == ";") {
			return c, cons, idx
		}
		switch {
		case r.kw("NOT", "NULL"):
			c.NotNull = true
		case r.kw("NOT", "VISIBLE"):
			c.NotVisible = true
		case r.kw("NULL"):
			c.NotNull = false
		case r.kw("DEFAULT"):
			c.Default = r.value()
		case r.kw("CHARACTER", "SET"):
			c.Charset = strings.ToLower(r.ident())
		case r.kw("COLLATE"):
			c.Collate = strings.ToLower(r.ident())
		case r.kw("AUTO_INCREMENT"):
			c.AutoInc = true
		case r.kw("COMMENT"):
			t := r.next()
			if t.Kind != 's' {
				r.fail("comment literal")
			}
			c.Comment = t.S
		case r.kw("OPTIONS"):
			c.Option = r.parens()
		case r.kw("AS"):
			c.As = r.parens()
			if r.kw("STORED") {
				c.As += " STORED"
			} else if r.kw("VIRTUAL") {
				c.As += " VIRTUAL"
			}
		case r.peek().Is("ON") && r.d == MY:
			r.next()
			k := strings.ToUpper(r.next().S)
			a := strings.ToUpper(r.next().S)
			if a != "CASCADE" && a != "RESTRICT" && a != "CURRENT_TIMESTAMP" {
				r.fail("column ON action %s", a)
			}
			c.OnAct = "ON " + k + " " + a
		case r.kw("PRIMARY", "KEY"):
			n := tb + "_pkey"
			if r.d == MY {
				n = "PRIMARY KEY"
			}
			cons = append(cons, &Con{Kind: "pk", Name: n, Cols: []string{c.Name}})
		case r.kw("UNIQUE"):
			n := tb + "_unique_" + c.Name
			if r.d == PG {
				cons = append(cons, &Con{Kind: "unique", Name: n, Cols: []string{c.Name}})
			} else {
				idx = append(idx, &Index{Name: n, Table: table, Unique: true, Cols: []string{c.Name}})
			}
		case r.kw("REFERENCES"):
			k := &Con{Kind: "fk", Name: tb + "_" + c.Name + "_fkey", Cols: []string{c.Name}, Ref: r.ident()}
			k.RefCols = r.names()
			k.On = r.onActions()
			cons = append(cons, k)
		case r.kw("CHECK"):
			cons = append(cons, &Con{Kind: "check", Name: unused(cons, tb+"_"+c.Name+"_check"), Expr: r.parens()})
		default:
			r.fail("unexpected token in column %s", c.Name)
		}
	}
}

func (r *reader) using() string {
	var out []string
	for {
		t := r.peek()
		if t.Kind == 0 || t.Kind == 'p' {
			break
		}
		if r.kw("WITH") {
			out = append(out, "WITH "+r.parens())
			continue
		}
		out = append(out, strings.ToLower(r.next().S))
	}
	return strings.Join(out, " ")
}

// constraint reads a table constraint or an index declared in a table; nil,nil if none starts here.
func (r *reader) constraint(table string) (*Con, *Index) {
	tb := bare(table)
	name, anon := "", true
	if r.kw("CONSTRAINT") {
		name, anon = r.ident(), false
	}
	switch {
	case r.kw("PRIMARY", "KEY"):
		c := &Con{Kind: "pk", Name: name, Anonymous: anon, Cols: r.names()}
		if anon {
			c.Name = tb + "_pkey"
		}
		if r.d == MY {
			c.Name = "PRIMARY KEY"
		}
		return c, nil
	case r.kw("FOREIGN", "KEY"):
		c := &Con{Kind: "fk", Name: name, Anonymous: anon, Cols: r.names()}
		r.need("REFERENCES")
		c.Ref = r.ident()
		c.RefCols = r.names()
		c.On = r.onActions()
		if anon {
			c.Name = tb + "_" + strings.Join(c.Cols, "_") + "_fkey"
		}
		return c, nil
	case r.kw("CHECK"):
		c := &Con{Kind: "check", Name: name, Anonymous: anon, Expr: r.parens()}
		if anon {
			c.Name = tb + "_chk"
		}
		return c, nil
	}
	uniq := r.kw("UNIQUE")
	if r.kw("KEY") || r.kw("INDEX") {
		x := &Index{Name: r.ident(), Table: table, Unique: uniq}
		if r.kw("USING") {
			x.Using = r.usingWord()
		}
		x.Cols = r.names()
		if r.kw("USING") {
			x.Post = r.using()
		}
		return nil, x
	}
	if uniq {
		c := &Con{Kind: "unique", Name: name, Anonymous: anon, Cols: r.names()}
		if anon {
			c.Name = tb + "_unique_" + strings.Join(c.Cols, "_")
		}
		return c, nil
	}
	if !anon {
		r.fail("constraint kind")
	}
	return nil, nil
}

// unused numbers a generated name that is taken.
func unused(cons []*Con, name string) string {
	n := name
	for i := 1; (&Table{Cons: cons}).Con(n) != nil; i++ {
		n = fmt.Sprintf("%s%d", name, i)
	}
	return n
}

func (r *reader) usingWord() string { return strings.ToLower(r.ident()) }

func (r *reader) createTable() *Stmt {
	st := &Stmt{Op: "create_table", IfNotExists: r.kw("IF", "NOT", "EXISTS")}
	t := &Table{Name: r.ident(), Opts: map[string]string{}}
	st.Table, st.Tab = t.Name, t
	r.needP("(")
	for !r.punct(")") {
		k := r.peek()
		if k.Kind == 'w' && (k.Is("CONSTRAINT") || k.Is("PRIMARY") || k.Is("FOREIGN") || k.Is("UNIQUE") || k.Is("KEY") || k.Is("INDEX") || k.Is("CHECK")) {
			c, x := r.constraint(t.Name)
			if c != nil {
				if c.Kind == "check" && c.Anonymous {
					c.Name = unused(t.Cons, c.Name)
				}
				t.Cons = append(t.Cons, c)
			}
			if x != nil {
				st.Inline = append(st.Inline, x)
			}
		} else {
			c, cons, idx := r.column(t.Name)
			if t.Col(c.Name) != nil {
				r.fail("duplicate column %s", c.Name)
			}
			t.Cols = append(t.Cols, c)
			t.Cons = append(t.Cons, cons...)
			st.Inline = append(st.Inline, idx...)
		}
		if r.isP(")") {
			continue
		}
		r.needP(",")
		if r.isP(")") {
			r.fail("trailing comma")
		}
	}
	for {
		switch k := r.peek(); {
		case k.Kind == 0 || k.Kind == 'p' && k.S == ";":
			return st
		case r.d == MY:
			r.punct(",")
			n, v := r.myOption()
			t.Opts[n] = v
		case r.d == SP:
			if r.punct(",") {
				continue
			}
			switch {
			case r.kw("PRIMARY", "KEY"):
				t.Opts["PRIMARY KEY"] = strings.Join(r.namesOrEmpty(), ", ")
			case r.kw("INTERLEAVE", "IN", "PARENT"):
				v := r.ident()
				if on := r.onActions(); len(on) > 0 {
					v += " " + strings.Join(on, " ")
				}
				t.Opts["INTERLEAVE"] = v
			case r.kw("ROW", "DELETION", "POLICY"):
				t.Opts["ROW DELETION POLICY"] = r.parens()
			default:
				r.fail("table option")
			}
		default:
			r.fail("after CREATE TABLE")
		}
	}
}

func (r *reader) namesOrEmpty() []string {
	if r.isP("(") && r.peekN(1).Kind == 'p' && r.peekN(1).S == ")" {
		r.i += 2
		return nil
	}
	return r.names()
}

func (r *reader) myOption() (string, string) {
	var n string
	switch {
	case r.kw("ENGINE"):
		n = "ENGINE"
	case r.kw("AUTO_INCREMENT"):
		n = "AUTO_INCREMENT"
	case r.kw("DEFAULT", "CHARSET"):
		n = "CHARSET"
	case r.kw("COLLATE"):
		n = "COLLATE"
	case r.kw("COMMENT"):
		n = "COMMENT"
	default:
		r.fail("table option")
	}
	r.needP("=")
	t := r.next()
	if t.Kind != 'w' && t.Kind != 's' {
		r.fail("option value")
	}
	if n == "COMMENT" {
		return n, t.S
	}
	return n, strings.ToLower(strings.Trim(t.S, "'"))
}

func (r *reader) createIndex(unique bool) *Stmt {
	st := &Stmt{Op: "create_index", IfNotExists: r.kw("IF", "NOT", "EXISTS")}
	x := &Index{Unique: unique, Name: r.ident()}
	r.need("ON")
	x.Table = r.ident()
	if r.kw("USING") {
		x.Using = r.usingWord()
	}
	x.Cols = r.names()
	if r.kw("USING") {
		x.Post = r.using()
	}
	st.Table, st.Idx, st.Name = x.Table, x, x.Name
	return st
}

func (r *reader) alter() *Stmt {
	st := &Stmt{Table: r.ident()}
	switch {
	case r.kw("RENAME", "TO"):
		st.Op, st.Name = "rename_table", r.ident()
	case r.kw("ADD", "COLUMN"):
		c, cons, idx := r.column(st.Table)
		if len(cons)+len(idx) > 0 {
			r.fail("inline constraint in ADD COLUMN")
		}
		st.Op, st.Col, st.Name = "add_col", c, c.Name
	case r.kw("DROP", "COLUMN"):
		st.Op, st.Name = "drop_col", r.ident()
	case r.d == MY && r.kw("MODIFY"):
		c, cons, idx := r.column(st.Table)
		if len(cons)+len(idx) > 0 {
			r.fail("inline constraint in MODIFY")
		}
		st.Op, st.Col, st.Name = "modify_col", c, c.Name
	case r.d == MY && r.peek().Is("ALTER") && r.peekN(2).Is("DROP") && r.peekN(3).Is("DEFAULT"):
		r.next()
		st.Op, st.Name = "drop_default", r.ident()
		r.need("DROP", "DEFAULT")
	case r.kw("ALTER", "COLUMN"):
		st.Name = r.ident()
		switch {
		case r.kw("SET", "DATA", "TYPE"):
			st.Op, st.Arg = "set_type", r.dataType()
		case r.kw("SET", "DEFAULT"):
			st.Op, st.Arg = "set_default", r.value()
		case r.kw("SET", "NOT", "NULL"):
			st.Op = "set_not_null"
		case r.kw("SET", "OPTIONS"):
			st.Op, st.Arg = "set_options", r.parens()
		case r.kw("DROP", "DEFAULT"):
			st.Op = "drop_default"
		case r.kw("DROP", "NOT", "NULL"):
			st.Op = "drop_not_null"
		case r.kw("DROP", "OPTIONS"):
			st.Op = "drop_options"
		case r.d == SP:
			st.Op, st.Arg = "set_type_null", r.dataType()
			st.Flag = r.kw("NOT", "NULL")
		default:
			r.fail("ALTER COLUMN action")
		}
	case r.kw("DROP", "CONSTRAINT"):
		st.Op, st.Name = "drop_con", r.ident()
	case r.kw("VALIDATE", "CONSTRAINT"):
		st.Op, st.Name = "validate_con", r.ident()
	case r.d == MY && r.kw("DROP", "PRIMARY", "KEY"):
		st.Op, st.Name = "drop_con", "PRIMARY KEY"
	case r.d == SP && r.kw("ADD", "ROW", "DELETION", "POLICY"):
		st.Op, st.Arg = "add_rdp", r.parens()
	case r.d == SP && r.kw("REPLACE", "ROW", "DELETION", "POLICY"):
		st.Op, st.Arg = "replace_rdp", r.parens()
	case r.d == SP && r.kw("DROP", "ROW", "DELETION", "POLICY"):
		st.Op = "drop_rdp"
	case r.kw("ADD"):
		c, x := r.constraint(st.Table)
		switch {
		case c != nil:
			r.kw("NOT", "VALID")
			st.Op, st.Con, st.Name = "add_con", c, c.Name
		case x != nil && r.d == MY:
			st.Op, st.Idx, st.Name = "create_index", x, x.Name
		default:
			r.fail("ADD action")
		}
	case r.d == MY:
		n, v := r.myOption()
		st.Op, st.Name, st.Arg = "set_opt", n, v
	default:
		r.fail("ALTER TABLE action")
	}
	return st
}

func (r *reader) stmt() *Stmt {
	begin := r.i
	var st *Stmt
	switch {
	case r.kw("CREATE", "TABLE"):
		st = r.createTable()
	case r.kw("CREATE", "INDEX"):
		st = r.createIndex(false)
	case r.kw("CREATE", "UNIQUE", "INDEX"):
		st = r.createIndex(true)
	case r.kw("DROP", "TABLE"):
		st = &Stmt{Op: "drop_table", Flag: r.kw("IF", "EXISTS")}
		st.Table = r.ident()
	case r.kw("DROP", "INDEX"):
		st = &Stmt{Op: "drop_index", Flag: r.kw("IF", "EXISTS")}
		st.Name = r.ident()
		if r.d == MY && r.kw("ON") {
			st.Table = r.ident()
		}
	case r.kw("ALTER", "TABLE"):
		st = r.alter()
	default:
		r.fail("statement")
	}
	if k := r.peek(); k.Kind != 0 && !(k.Kind == 'p' && k.S == ";") {
		r.fail("garbage after %s", st.Op)
	}
	from := r.ts[begin].Pos
	to := len(r.s)
	if r.i < len(r.ts) {
		to = r.ts[r.i].Pos
	}
	st.Text = strings.TrimSpace(r.s[from:to])
	return st
}

// ReadStmts reads a migration (or a schema) as a list of statements.
func ReadStmts(d Dialect, s string) (out []*Stmt, err error) {
	ts, err := Lex(d, s)
	if err != nil {
		return nil, err
	}
	defer func() {
		if p := recover(); p != nil {
			if re, ok := p.(readErr); ok {
				err = re.error
				return
			}
			panic(p)
		}
	}()
	r := &reader{d: d, ts: ts, s: s}
	for r.i < len(r.ts) {
		if r.punct(";") {
			continue
		}
		out = append(out, r.stmt())
	}
	return out, nil
}

// ReadSchema reads CREATE statements into a schema.
func ReadSchema(d Dialect, s string) (*Schema, error) {
	sts, err := ReadStmts(d, s)
	if err != nil {
		return nil, err
	}
	sc := &Schema{D: d}
	for _, st := range sts {
		if st.Op != "create_table" && st.Op != "create_index" {
			return nil, fmt.Errorf("not a schema statement: %s", st.Text)
		}
		if err := sc.Exec(st, false); err != nil {
			return nil, err
		}
	}
	return sc, nil
}

func MustSchema(d Dialect, s string) *Schema {
	sc, err := ReadSchema(d, s)
	if err != nil {
		panic(fmt.Sprintf("alphabet error: %s: %v: %s", d, err, s))
	}
	return sc
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
