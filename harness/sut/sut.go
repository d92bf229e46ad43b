// Package sut is the only place where the explorer touches ddlctl's dialect packages: exported
// parse, print and diff functions.
package sut

import (
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"
	"sync"

	"github.com/kunitsucom/ddlctl/pkg/ddl"
	c "github.com/kunitsucom/ddlctl/pkg/ddl/cockroachdb"
	m "github.com/kunitsucom/ddlctl/pkg/ddl/mysql"
	p "github.com/kunitsucom/ddlctl/pkg/ddl/postgres"
	s "github.com/kunitsucom/ddlctl/pkg/ddl/spanner"
	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/model"
	"github.com/kunitsucom/ddlctl/pkg/logs"
)

// Doc is a parsed schema (or migration) of any dialect.
type Doc struct {
	D model.Dialect
	P *p.DDL
	M *m.DDL
	C *c.DDL
	S *s.DDL
}

func Parse(d model.Dialect, q string) (*Doc, error) {
	doc := &Doc{D: d}
	var err error
	switch d {
	case model.PG:
		doc.P, err = p.NewParser(p.NewLexer(q)).Parse()
	case model.MY:
		doc.M, err = m.NewParser(m.NewLexer(q)).Parse()
	case model.CR:
		doc.C, err = c.NewParser(c.NewLexer(q)).Parse()
	case model.SP:
		doc.S, err = s.NewParser(s.NewLexer(q)).Parse()
	}
	if err != nil {
		return nil, err
	}
	return doc, nil
}

// Nil is the absent schema.
func Nil(d model.Dialect) *Doc { return &Doc{D: d} }

func (d *Doc) String() string {
	switch d.D {
	case model.PG:
		return d.P.String()
	case model.MY:
		return d.M.String()
	case model.CR:
		return d.C.String()
	}
	return d.S.String()
}

func (d *Doc) Len() int {
	switch d.D {
	case model.PG:
		return len(d.P.Stmts)
	case model.MY:
		return len(d.M.Stmts)
	case model.CR:
		return len(d.C.Stmts)
	}
	return len(d.S.Stmts)
}

// Diff returns the migration text; none reports the no-difference answer.
func Diff(a, b *Doc) (text string, none bool, err error) {
	switch a.D {
	case model.PG:
		r, e := p.Diff(a.P, b.P)
		text, err = r.String(), e
	case model.MY:
		r, e := m.Diff(a.M, b.M)
		text, err = r.String(), e
	case model.CR:
		r, e := c.Diff(a.C, b.C)
		text, err = r.String(), e
	case model.SP:
		r, e := s.Diff(a.S, b.S)
		text, err = r.String(), e
	}
	if errors.Is(err, ddl.ErrNoDifference) {
		return "", true, nil
	}
	return text, false, err
}

// DiffTables diffs the first tables of two documents (which may have different names), or an
// absent table.
func DiffTables(a, b *Doc, notValid bool) (text string, none bool, err error) {
	switch a.D {
	case model.PG:
		var x, y *p.CreateTableStmt
		if a.P != nil {
			x = a.P.Stmts[0].(*p.CreateTableStmt)
		}
		if b.P != nil {
			y = b.P.Stmts[0].(*p.CreateTableStmt)
		}
		var o []p.DiffCreateTableOption
		if notValid {
			o = append(o, p.DiffCreateTableUseAlterTableAddConstraintNotValid(true))
		}
		r, e := p.DiffCreateTable(x, y, o...)
		text, err = r.String(), e
	case model.MY:
		var x, y *m.CreateTableStmt
		if a.M != nil {
			x = a.M.Stmts[0].(*m.CreateTableStmt)
		}
		if b.M != nil {
			y = b.M.Stmts[0].(*m.CreateTableStmt)
		}
		r, e := m.DiffCreateTable(x, y)
		text, err = r.String(), e
	case model.CR:
		var x, y *c.CreateTableStmt
		if a.C != nil {
			x = a.C.Stmts[0].(*c.CreateTableStmt)
		}
		if b.C != nil {
			y = b.C.Stmts[0].(*c.CreateTableStmt)
		}
		r, e := c.DiffCreateTable(x, y)
		text, err = r.String(), e
	case model.SP:
		var x, y *s.CreateTableStmt
		if a.S != nil {
			x = a.S.Stmts[0].(*s.CreateTableStmt)
		}
		if b.S != nil {
			y = b.S.Stmts[0].(*s.CreateTableStmt)
		}
		r, e := s.DiffCreateTable(x, y)
		text, err = r.String(), e
	}
	if errors.Is(err, ddl.ErrNoDifference) {
		return "", true, nil
	}
	return text, false, err
}

// Dump is a deep picture of parsed schemas (pointers followed), for detecting modification.
func Dump(docs [4]*Doc) string {
	var b strings.Builder
	for _, d := range docs {
		var v any
		switch d.D {
		case model.PG:
			v = d.P
		case model.MY:
			v = d.M
		case model.CR:
			v = d.C
		case model.SP:
			v = d.S
		}
		dump(&b, reflect.ValueOf(v), 0)
		b.WriteByte('\n')
	}
	return b.String()
}

func dump(b *strings.Builder, v reflect.Value, depth int) {
	if depth > 40 {
		b.WriteString("…")
		return
	}
	switch v.Kind() {
	case reflect.Invalid:
		b.WriteString("nil")
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		if v.Kind() == reflect.Interface {
			b.WriteString(v.Elem().Type().String())
		}
		b.WriteByte('&')
		dump(b, v.Elem(), depth+1)
	case reflect.Struct:
		b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			b.WriteString(v.Type().Field(i).Name)
			b.WriteByte(':')
			dump(b, v.Field(i), depth+1)
			b.WriteByte(' ')
		}
		b.WriteByte('}')
	case reflect.Slice, reflect.Array:
		b.WriteByte('[')
		if v.Kind() == reflect.Slice && v.Cap() > v.Len() {
			// the spare room behind the slice is shared by everyone who appends to it
			for i, all := v.Len(), v.Slice(0, v.Cap()); i < all.Len(); i++ {
				if !all.Index(i).IsZero() {
					fmt.Fprintf(b, "spare %d: ", i)
					dump(b, all.Index(i), depth+1)
				}
			}
		}
		for i := 0; i < v.Len(); i++ {
			dump(b, v.Index(i), depth+1)
			b.WriteByte(' ')
		}
		b.WriteByte(']')
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Bool:
		fmt.Fprintf(b, "%v", v.Bool())
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
		fmt.Fprintf(b, "%d", v.Int())
	default:
		b.WriteString(v.Kind().String())
	}
}

type noLog struct{}

func (noLog) Write(p []byte) (int, error)        { return len(p), nil }
func (noLog) Print(v ...interface{})             {}
func (noLog) Printf(_ string, _ ...interface{})  {}
func (noLog) LineWriter(prefix string) io.Writer { return noLog{} }

// Quiet replaces the trace logger, which formats every token only to discard it.
func Quiet() { logs.Trace, logs.Debug = noLog{}, noLog{} }

// Cache parses every text once and hands out deep copies.
type Cache struct {
	mu sync.RWMutex
	m  map[string]cached
}

type cached struct {
	doc *Doc
	err error
}

func (c *Cache) Parse(d model.Dialect, q string) (*Doc, error) {
	k := string(d) + "\x00" + q
	c.mu.RLock()
	e, ok := c.m[k]
	c.mu.RUnlock()
	if !ok {
		e.doc, e.err = Parse(d, q)
		c.mu.Lock()
		if c.m == nil {
			c.m = map[string]cached{}
		}
		c.m[k] = e
		c.mu.Unlock()
	}
	if e.err != nil {
		return nil, e.err
	}
	return clone(reflect.ValueOf(e.doc)).Interface().(*Doc), nil
}

func clone(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type().Elem())
		n.Elem().Set(clone(v.Elem()))
		return n
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type()).Elem()
		n.Set(clone(v.Elem()))
		return n
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Cap())
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(clone(v.Index(i)))
		}
		return n
	case reflect.Map:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeMap(v.Type())
		for _, k := range v.MapKeys() {
			n.SetMapIndex(k, clone(v.MapIndex(k)))
		}
		return n
	case reflect.Struct:
		n := reflect.New(v.Type()).Elem()
		n.Set(v)
		for i := 0; i < v.NumField(); i++ {
			switch f := n.Field(i); f.Kind() {
			case reflect.Ptr, reflect.Interface, reflect.Slice, reflect.Map, reflect.Struct:
				if f.CanSet() {
					f.Set(clone(v.Field(i)))
				}
			}
		}
		return n
	}
	return v
}
