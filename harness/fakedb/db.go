package fakedb

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"regexp"
	"strings"
	"sync"
	"syscall"

	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/model"
)

// DB is one modelled database.
type DB struct {
	D      D
	Schema *model.Schema
	Other  *model.Schema // tables of the same names in another schema of the same server
	Views  []string      // views of this schema
	Holes  int
	Perm   string // order of rows a query leaves unordered: "", "rev", "rot"
	Accept bool   // every statement is accepted and ignored
	conOID map[int64]*model.Con
}

// Event is one driver call.
type Event struct {
	I    int    `json:"i"`
	DSN  string `json:"dsn"`
	Conn int    `json:"conn"`
	Call string `json:"call"` // open ping exec query next rclose cclose
	Text string `json:"text,omitempty"`
	Args int    `json:"args,omitempty"`
	Err  string `json:"err,omitempty"`
	// Effect: the statement took effect in the database (also when the reply was lost)
	Effect bool     `json:"effect,omitempty"`
	Cols   []string `json:"cols,omitempty"` // next: names of the columns of the row
	Out    int      `json:"out"`            // bytes on standard output at this moment
	Ans    bool     `json:"ans"`            // an answer had been given at this moment
}

// World is everything behind the drivers during one run.
type World struct {
	mu          sync.Mutex
	DBs         map[string]*DB
	Log         []Event
	Faults      map[int]string
	Unsupported string
	OutLen      func() int
	Runaway     func()
	Answered    func() bool
	Meanwhile   func() // what others do once something has been shown
	conns       int
	poison      map[string]string
	Drivers     map[string]string // dsn -> driver name it was opened with
}

var (
	cur   *World
	curMu sync.Mutex
)

// SetWorld installs the world of the next run.
func SetWorld(w *World) {
	curMu.Lock()
	defer curMu.Unlock()
	w.poison = map[string]string{}
	w.Drivers = map[string]string{}
	for _, db := range w.DBs {
		db.conOID = map[int64]*model.Con{}
	}
	cur = w
}

func world() *World { curMu.Lock(); defer curMu.Unlock(); return cur }

// Driver is registered under the names of the real drivers.
type Driver struct{ Name string }

func (d *Driver) Open(dsn string) (driver.Conn, error) {
	w := world()
	w.mu.Lock()
	defer w.mu.Unlock()
	e := w.event(dsn, -1, "open", d.Name)
	w.Drivers[dsn] = d.Name
	db := w.DBs[dsn]
	if db == nil {
		e.Err = "no such host"
		return nil, fmt.Errorf("dial tcp: lookup %q: no such host", dsn)
	}
	if want := map[D]string{model.PG: "postgres", model.CR: "postgres", model.MY: "mysql", model.SP: "spanner"}[db.D]; want != d.Name {
		e.Err = "protocol"
		return nil, fmt.Errorf("unexpected protocol: %s server, %s client", want, d.Name)
	}
	if f := w.Faults[e.I]; f != "" {
		e.Err = kindOf(f)
		return nil, errOf(f, "connection refused")
	}
	e.Conn = w.conns
	c := &conn{w: w, db: db, dsn: dsn, id: w.conns}
	w.conns++
	return c, nil
}

// errOf is the error of a fault: "badconn", "err" with the given text, "err=<wording>" or
// "is=<well-known error>".
func errOf(f, text string) error {
	if f == "badconn" {
		return driver.ErrBadConn
	}
	switch kind, arg, _ := strings.Cut(f, "="); {
	case kind == "is":
		return WellKnown[arg]
	case kind == "err" && arg != "":
		return errors.New(arg)
	}
	return errors.New("fault: " + text)
}

// kindOf is how a fault is noted in the log.
func kindOf(f string) string {
	if strings.HasPrefix(f, "err=") || strings.HasPrefix(f, "is=") {
		return "err"
	}
	return f
}

// WellKnown are errors a driver may return that programs tend to compare with.
var WellKnown = map[string]error{
	"context.Canceled":         context.Canceled,
	"context.DeadlineExceeded": context.DeadlineExceeded,
	"sql.ErrNoRows":            sql.ErrNoRows,
	"sql.ErrConnDone":          sql.ErrConnDone,
	"sql.ErrTxDone":            sql.ErrTxDone,
	"io.EOF":                   io.EOF,
	"io.ErrUnexpectedEOF":      io.ErrUnexpectedEOF,
	"io.ErrClosedPipe":         io.ErrClosedPipe,
	"net.ErrClosed":            net.ErrClosed,
	"os.ErrDeadlineExceeded":   os.ErrDeadlineExceeded,
	"os.ErrNotExist":           os.ErrNotExist,
	"os.ErrPermission":         os.ErrPermission,
	"syscall.EPIPE":            syscall.EPIPE,
	"syscall.ECONNRESET":       syscall.ECONNRESET,
	"syscall.EINTR":            syscall.EINTR,
	"wrapped sql.ErrNoRows":    fmt.Errorf("driver: %w", sql.ErrNoRows),
}

func (w *World) event(dsn string, conn int, call, text string) *Event {
	e := Event{I: len(w.Log), DSN: dsn, Conn: conn, Call: call, Text: text}
	if w.OutLen != nil {
		e.Out = w.OutLen()
	}
	if w.Answered != nil {
		e.Ans = w.Answered()
	}
	if f := w.Meanwhile; f != nil && e.Out > 0 {
		w.Meanwhile = nil
		f()
	}
	w.Log = append(w.Log, e)
	if len(w.Log) > 20000 && w.Runaway != nil {
		w.Runaway()
	}
	return &w.Log[len(w.Log)-1]
}

type conn struct {
	w     *World
	db    *DB
	dsn   string
	id    int
	dead  bool
	batch []string
	inB   bool
}

var (
	_ driver.ExecerContext  = (*conn)(nil)
	_ driver.QueryerContext = (*conn)(nil)
	_ driver.Pinger         = (*conn)(nil)
)

func (c *conn) Begin() (driver.Tx, error) { return nil, errors.New("fakedb: no transactions") }

// Prepare: a prepared statement behaves like the direct call.
func (c *conn) Prepare(q string) (driver.Stmt, error) { return &stmt{c, q}, nil }

type stmt struct {
	c *conn
	q string
}

func (s *stmt) Close() error  { return nil }
func (s *stmt) NumInput() int { return -1 }
func (s *stmt) Exec(a []driver.Value) (driver.Result, error) {
	return s.c.ExecContext(context.Background(), s.q, named(a))
}
func (s *stmt) Query(a []driver.Value) (driver.Rows, error) {
	return s.c.QueryContext(context.Background(), s.q, named(a))
}
func named(a []driver.Value) (out []driver.NamedValue) {
	for i, v := range a {
		out = append(out, driver.NamedValue{Ordinal: i + 1, Value: v})
	}
	return
}

func (c *conn) Close() error {
	c.w.mu.Lock()
	defer c.w.mu.Unlock()
	e := c.w.event(c.dsn, c.id, "cclose", "")
	if f := c.w.Faults[e.I]; f != "" {
		e.Err = kindOf(f)
		return errOf(f, "close failed")
	}
	return nil
}

func (c *conn) Ping(context.Context) error {
	c.w.mu.Lock()
	defer c.w.mu.Unlock()
	e := c.w.event(c.dsn, c.id, "ping", "")
	if c.dead {
		e.Err = "dead"
		return driver.ErrBadConn
	}
	if f := c.w.Faults[e.I]; f != "" {
		e.Err = kindOf(f)
		return errOf(f, "ping failed")
	}
	return nil
}

func (c *conn) ExecContext(_ context.Context, q string, args []driver.NamedValue) (driver.Result, error) {
	c.w.mu.Lock()
	defer c.w.mu.Unlock()
	e := c.w.event(c.dsn, c.id, "exec", q)
	e.Args = len(args)
	if c.dead {
		e.Err = "dead connection"
		return nil, driver.ErrBadConn
	}
	f := c.w.Faults[e.I]
	if t := c.w.poison[q]; t != "" {
		e.Err = "fault"
		return nil, errors.New(t)
	}
	if kind, text, ok := strings.Cut(f, "="); ok { // with this wording, once or for ever
		e.Err = "fault"
		if kind == "poison" {
			c.w.poison[q] = text
			f = "err=" + text
		}
		return nil, errOf(f, text)
	}
	switch f {
	case "err":
		e.Err = "fault"
		return nil, errors.New("fault: statement rejected")
	case "badconn":
		e.Err, c.dead = "badconn", true
		return nil, driver.ErrBadConn
	case "poison", "poisonfk": // rejected now and ever after
		c.w.poison[q] = "fault: statement rejected"
		if f == "poisonfk" {
			c.w.poison[q] = "Error 1215 (HY000): Cannot add foreign key constraint"
		}
		e.Err = "fault"
		return nil, errors.New(c.w.poison[q])
	case "interfere": // another session has just done the same
		_ = c.run(q)
	case "squat": // another session has just created something else under the name
		c.db.squat(q)
	}
	err := c.run(q)
	if err != nil {
		e.Err = err.Error()
		return nil, err
	}
	e.Effect = true
	if f == "lost" {
		e.Err, c.dead = "reply lost", true
		return nil, errors.New("fault: connection reset by peer")
	}
	return driver.RowsAffected(0), nil
}

func (db *DB) squat(q string) {
	sts, err := model.ReadStmts(db.D, q)
	if err != nil || len(sts) != 1 {
		return
	}
	n := *sts[0]
	switch n.Op {
	case "create_table":
		t := &model.Table{Name: n.Tab.Name, Opts: n.Tab.Opts, Cols: append([]*model.Col{}, n.Tab.Cols[:1]...)}
		t.Cols = append(t.Cols, &model.Col{Name: "squatter", Type: n.Tab.Cols[0].Type})
		n.Tab, n.Inline = t, nil
	case "add_col":
		if n.Col == nil {
			return
		}
		n.Col = &model.Col{Name: n.Col.Name, Type: "BLOB"}
	default:
		return
	}
	db.local(&n)
	_ = db.Schema.Exec(&n, false)
}

// run executes a statement text as the server would.
func (c *conn) run(q string) error {
	db := c.db
	if db.D == model.SP {
		switch strings.ToUpper(strings.Join(strings.Fields(q), " ")) {
		case "START BATCH DDL":
			if c.inB {
				return errors.New("rpc error: code = FailedPrecondition desc = This connection already has an active batch.")
			}
			c.inB, c.batch = true, nil
			return nil
		case "RUN BATCH":
			if !c.inB {
				return errors.New("rpc error: code = FailedPrecondition desc = This connection does not have an active batch")
			}
			b := c.batch
			c.inB, c.batch = false, nil
			for _, s := range b {
				if err := db.Exec(s); err != nil {
					return err
				}
			}
			return nil
		case "ABORT BATCH":
			if !c.inB {
				return errors.New("rpc error: code = FailedPrecondition desc = This connection does not have an active batch")
			}
			c.inB, c.batch = false, nil
			return nil
		}
		if strings.TrimSpace(q) == "" {
			return errors.New("rpc error: code = InvalidArgument desc = empty statement")
		}
		if c.inB {
			c.batch = append(c.batch, q)
			return nil
		}
	}
	return db.Exec(q)
}

// local removes the default schema from the names in a statement: public.t and t are one table.
func (db *DB) local(s *model.Stmt) {
	if db.D != model.PG && db.D != model.CR {
		return
	}
	l := func(p *string) { *p = strings.TrimPrefix(*p, "public.") }
	l(&s.Table)
	if db.D == model.PG {
		if s.Tab != nil {
			for _, c := range s.Tab.Cols {
				pgStored(s.Tab.Name, c)
			}
		}
		if s.Col != nil {
			pgStored(s.Table, s.Col)
		}
		if s.Op == "set_type" {
			c := &model.Col{Type: s.Arg}
			pgStored("", c)
			s.Arg = c.Type
		}
	}
	if s.Op == "drop_index" || s.Op == "rename_table" {
		l(&s.Name)
	}
	if s.Tab != nil {
		l(&s.Tab.Name)
		for _, c := range s.Tab.Cons {
			l(&c.Ref)
		}
	}
	for _, x := range s.Inline {
		l(&x.Table)
	}
	if s.Idx != nil {
		l(&s.Idx.Table)
	}
	if s.Con != nil {
		l(&s.Con.Ref)
	}
}

// pgStored gives a column the form in which PostgreSQL keeps it.
func pgStored(table string, c *model.Col) {
	switch c.Type {
	case "SERIAL", "BIGSERIAL", "SMALLSERIAL":
		if table == "" {
			return
		}
		c.Type = map[string]string{"SERIAL": "INTEGER", "BIGSERIAL": "BIGINT", "SMALLSERIAL": "SMALLINT"}[c.Type]
		c.NotNull = true
		c.Default = fmt.Sprintf("nextval ( '%s_%s_seq' :: regclass )", strings.TrimPrefix(table, "public."), c.Name)
	}
	if strings.HasPrefix(c.Type, "NUMERIC(") && !strings.Contains(c.Type, ",") {
		c.Type = strings.TrimSuffix(c.Type, ")") + ", 0)"
	}
}

// Load reads a schema text into the database.
func (db *DB) Load(text string) error {
	sts, err := model.ReadStmts(db.D, text)
	if err != nil {
		return err
	}
	db.Schema = &model.Schema{D: db.D}
	for _, s := range sts {
		db.local(s)
		if err := db.Schema.Exec(s, false); err != nil {
			return err
		}
		db.settle()
	}
	return nil
}

// settle: the columns of a primary key are not null, and stay so when the key is dropped.
func (db *DB) settle() {
	if db.D == model.SP {
		return
	}
	for _, t := range db.Schema.Tables {
		for _, c := range t.Cols {
			if !c.NotNull && inPK(t, c.Name) {
				c.NotNull = true
			}
		}
	}
}

var semi = regexp.MustCompile(`;\s*$`)

// Exec executes DDL text: one statement, or several on PostgreSQL (all or nothing).
func (db *DB) Exec(q string) error {
	if db.Accept {
		return nil
	}
	syntax := func(f string, a ...any) error {
		m := fmt.Sprintf(f, a...)
		switch db.D {
		case model.MY:
			return fmt.Errorf("Error 1064 (42000): You have an error in your SQL syntax; %s", m)
		case model.SP:
			return fmt.Errorf("rpc error: code = InvalidArgument desc = Syntax error: %s", m)
		}
		return fmt.Errorf("pq: syntax error: %s", m)
	}
	sts, err := model.ReadStmts(db.D, q)
	if err != nil {
		return syntax("%v", err)
	}
	if len(sts) != 1 && (db.D == model.MY || db.D == model.SP) {
		if len(sts) == 0 {
			return fmt.Errorf("Error 1065 (42000): Query was empty")
		}
		return syntax("%d statements in one", len(sts))
	}
	if db.D == model.SP && semi.MatchString(q) {
		return syntax("unexpected ;")
	}
	backup := db.Schema.Clone()
	for _, s := range sts {
		if db.D == model.MY && s.Op == "drop_index" && s.Table == "" {
			return syntax("DROP INDEX without ON")
		}
		db.local(s)
		if db.D == model.MY && s.Op == "add_col" && s.Col != nil {
			if t := db.Schema.Table(s.Table); t != nil && t.Col(s.Name) != nil {
				return fmt.Errorf("Error 1060 (42S21): Duplicate column name '%s'", s.Name)
			}
		}
		if err := db.Schema.Exec(s, true); err != nil {
			db.Schema = backup
			return db.errText(s, err)
		}
		db.settle()
	}
	return nil
}

func (db *DB) errText(s *model.Stmt, err error) error {
	exists := strings.Contains(err.Error(), "exists already")
	if !exists {
		switch db.D {
		case model.MY:
			return fmt.Errorf("Error 1091 (42000): %w", err)
		case model.SP:
			return fmt.Errorf("rpc error: code = FailedPrecondition desc = %w", err)
		}
		return fmt.Errorf("pq: %w", err)
	}
	switch db.D {
	case model.MY:
		switch s.Op {
		case "create_table":
			return fmt.Errorf("Error 1050 (42S01): Table '%s' already exists", s.Table)
		case "create_index":
			return fmt.Errorf("Error 1061 (42000): Duplicate key name '%s'", s.Name)
		}
		return fmt.Errorf("Error 1826 (HY000): Duplicate constraint name '%s'", s.Name)
	case model.SP:
		return fmt.Errorf("rpc error: code = FailedPrecondition desc = Duplicate name in schema: %s", s.Name+s.Table)
	}
	return fmt.Errorf("pq: relation %q already exists", s.Name+s.Table)
}

var (
	showCreateRe = regexp.MustCompile("(?is)^\\s*SHOW\\s+CREATE\\s+TABLE\\s+(.*?)\\s*;?\\s*$")
	showAllRe    = regexp.MustCompile(`(?is)^\s*SHOW\s+CREATE\s+ALL\s+TABLES\s*;?\s*$`)
	commentRe    = regexp.MustCompile(`(?m)^\s*--.*$`)
)

func (c *conn) QueryContext(_ context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	c.w.mu.Lock()
	defer c.w.mu.Unlock()
	e := c.w.event(c.dsn, c.id, "query", q)
	e.Args = len(args)
	if c.dead {
		e.Err = "dead connection"
		return nil, driver.ErrBadConn
	}
	if f := c.w.Faults[e.I]; f != "" {
		e.Err = kindOf(f)
		if f == "badconn" {
			c.dead = true
		}
		return nil, errOf(f, "query failed")
	}
	var vs []val
	for _, a := range args {
		v := a.Value
		if b, ok := v.([]byte); ok {
			v = string(b)
		}
		vs = append(vs, v)
	}
	r, err := c.db.Query(q, vs)
	if err != nil {
		e.Err = err.Error()
		if errors.Is(err, ErrUnsupported) && c.w.Unsupported == "" {
			c.w.Unsupported = err.Error()
		}
		return nil, err
	}
	return &rows{c: c, r: r}, nil
}

// Query answers a catalogue query.
func (db *DB) Query(q string, args []val) (*rel, error) {
	perm := func(n int) []int {
		p := make([]int, n)
		for i := range p {
			switch db.Perm {
			case "rev":
				p[i] = n - 1 - i
			case "rot":
				p[i] = (i + 1) % n
			default:
				p[i] = i
			}
		}
		return p
	}
	bare := commentRe.ReplaceAllString(q, "")
	switch db.D {
	case model.MY:
		if m := showCreateRe.FindStringSubmatch(bare); m != nil {
			n := m[1]
			if strings.HasPrefix(n, "`") && strings.HasSuffix(n, "`") && len(n) > 1 {
				in := n[1 : len(n)-1]
				if parts := strings.Split(in, "`.`"); len(parts) == 2 {
					in = parts[1]
				}
				if strings.Contains(strings.ReplaceAll(in, "``", ""), "`") {
					return nil, fmt.Errorf("Error 1064 (42000): You have an error in your SQL syntax")
				}
				n = strings.ReplaceAll(in, "``", "`")
			}
			for _, v := range db.Views {
				if v == n {
					r := mk("", "View Create_View character_set_client collation_connection")
					r.cols[1].name = "Create View"
					r.add(n, "CREATE ALGORITHM=UNDEFINED VIEW `"+n+"` AS select 1 AS `id`", "utf8mb4", "utf8mb4_0900_ai_ci")
					return r, nil
				}
			}
			t := db.Schema.Table(n)
			if t == nil {
				return nil, fmt.Errorf("Error 1146 (42S02): Table 'db.%s' doesn't exist", n)
			}
			r := mk("", "Table Create_Table")
			r.cols[1].name = "Create Table"
			r.add(n, myShow(db.Schema, t))
			return r, nil
		}
	case model.CR:
		if showAllRe.MatchString(bare) {
			r := mk("", "create_statement")
			for _, s := range crShow(db.Schema) {
				r.add(s)
			}
			return r, nil
		}
	}
	qr := &querier{perm: perm}
	switch db.D {
	case model.MY:
		qr.d = Dial{DoubleIsString: true, UpperLabels: true}
		qr.lookup = db.myCatalog
	case model.SP:
		qr.d = Dial{DoubleIsString: true}
		qr.lookup = db.spCatalog
	default:
		qr.d = Dial{LowerLabels: true}
		qr.lookup = db.pgCatalog
	}
	qr.fn = func(n string, a []val) (val, bool) {
		switch n {
		case "database", "schema":
			if db.D == model.MY {
				return "db", true
			}
		case "current_schema":
			return "public", true
		case "current_database":
			return "db", true
		case "quote_ident":
			if a[0] == nil {
				return nil, true
			}
			return quoteIf(str(a[0]), `"`), true
		case "pg_get_constraintdef":
			if o, ok := a[0].(int64); ok && db.conOID[o] != nil {
				return conDef(db.conOID[o]), true
			}
			return nil, true
		case "quote_literal":
			return "'" + strings.ReplaceAll(str(a[0]), "'", "''") + "'", true
		case "format":
			s := str(a[0])
			for _, x := range a[1:] {
				i := strings.IndexByte(s, '%')
				if i < 0 || i+1 >= len(s) {
					return nil, false
				}
				v := str(x)
				switch s[i+1] {
				case 'I':
					v = quoteIf(v, `"`)
				case 's':
				default:
					return nil, false
				}
				s = s[:i] + v + s[i+2:]
			}
			return s, true
		}
		return nil, false
	}
	return qr.Select(q, args)
}

type rows struct {
	c *conn
	r *rel
	i int
}

func (r *rows) Columns() (out []string) {
	for _, c := range r.r.cols {
		out = append(out, c.name)
	}
	return
}

func (r *rows) Close() error {
	r.c.w.mu.Lock()
	defer r.c.w.mu.Unlock()
	e := r.c.w.event(r.c.dsn, r.c.id, "rclose", "")
	if f := r.c.w.Faults[e.I]; f != "" {
		e.Err = kindOf(f)
		return errOf(strings.TrimPrefix(f, "badconn"), "rows close failed")
	}
	return nil
}

func (r *rows) Next(dest []driver.Value) error {
	r.c.w.mu.Lock()
	defer r.c.w.mu.Unlock()
	e := r.c.w.event(r.c.dsn, r.c.id, "next", "")
	if r.i < len(r.r.rows) {
		e.Cols = r.Columns()
	}
	f := r.c.w.Faults[e.I]
	switch {
	case kindOf(f) == "err":
		e.Err = "err"
		return errOf(f, "connection reset while reading rows")
	case f == "badconn":
		e.Err = f
		r.c.dead = true
		return driver.ErrBadConn
	case f == "norows":
		e.Err = f
		r.i = len(r.r.rows)
		return io.EOF
	case f == "unexpectedeof":
		e.Err = f
		return io.ErrUnexpectedEOF
	}
	if r.i >= len(r.r.rows) {
		return io.EOF
	}
	for i, v := range r.r.rows[r.i] {
		dest[i] = v
	}
	if strings.HasPrefix(f, "null") { // null<k>: the k-th value is missing
		e.Err = f
		dest[int(f[4]-'0')] = nil
	}
	if strings.HasPrefix(f, "junk") { // junk<k>: the k-th value has an undecodable type
		e.Err = f
		dest[int(f[4]-'0')] = []any{1}
	}
	r.i++
	return nil
}
