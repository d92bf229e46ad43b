package model

import (
	"fmt"
	"strings"
)

func colName(c string) string { return strings.TrimSuffix(c, " DESC") }

func has(cols []string, n string) bool {
	for _, c := range cols {
		if colName(c) == n {
			return true
		}
	}
	return false
}

func mentions(expr, col string) bool {
	for _, w := range strings.Fields(expr) {
		if w == col {
			return true
		}
	}
	return false
}

func sameSet(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for _, x := range a {
		if !has(b, colName(x)) {
			return false
		}
	}
	return true
}

// Exec executes one statement. strict additionally enforces what a database enforces about
// objects that depend on one another at that moment.
func (s *Schema) Exec(st *Stmt, strict bool) error {
	if err := s.exec(st, strict); err != nil {
		return err
	}
	if s.D == SP {
		return nil
	}
	// the columns of a primary key are not null, and stay so when the key is dropped
	for _, t := range s.Tables {
		for _, k := range t.Cons {
			if k.Kind != "pk" {
				continue
			}
			for _, n := range k.Cols {
				if c := t.Col(colName(n)); c != nil {
					c.NotNull = true
				}
			}
		}
	}
	return nil
}

func inKey(t *Table, col string) bool {
	for _, k := range t.Cons {
		if k.Kind == "pk" && has(k.Cols, col) {
			return true
		}
	}
	return false
}

func (s *Schema) exec(st *Stmt, strict bool) error {
	bad := func(f string, a ...any) error {
		return fmt.Errorf("%s [%s]", fmt.Sprintf(f, a...), strings.Join(strings.Fields(st.Text), " "))
	}
	switch st.Op {
	case "create_table":
		if s.Table(st.Table) != nil {
			if st.IfNotExists {
				return nil
			}
			return bad("table %s exists already", st.Table)
		}
		t := &Table{Name: st.Table, Opts: map[string]string{}}
		for _, c := range st.Tab.Cols {
			cc := *c
			t.Cols = append(t.Cols, &cc)
		}
		for k, v := range st.Tab.Opts {
			t.Opts[k] = v
		}
		s.Tables = append(s.Tables, t)
		for _, c := range st.Tab.Cons {
			if err := s.addCon(t, c, strict, bad); err != nil {
				return err
			}
		}
		if strict {
			if p := t.Opts["INTERLEAVE"]; p != "" {
				if s.Table(strings.Fields(p)[0]) == nil {
					return bad("interleave parent %s does not exist", p)
				}
			}
		}
		for _, x := range st.Inline {
			if err := s.addIndex(x, false, strict, bad); err != nil {
				return err
			}
		}
		return nil
	case "create_index":
		return s.addIndex(st.Idx, st.IfNotExists, strict, bad)
	case "drop_table":
		t := s.Table(st.Table)
		if t == nil {
			if st.Flag {
				return nil
			}
			return bad("table %s does not exist", st.Table)
		}
		if strict {
			for _, o := range s.Tables {
				if o == t {
					continue
				}
				for _, c := range o.Cons {
					if c.Kind == "fk" && c.Ref == t.Name {
						return bad("table %s is still referenced by %s of %s", t.Name, c.Name, o.Name)
					}
				}
				if p := o.Opts["INTERLEAVE"]; p != "" && strings.Fields(p)[0] == t.Name {
					return bad("table %s still has interleaved child %s", t.Name, o.Name)
				}
			}
			if s.D == SP {
				for _, x := range s.Indexes {
					if x.Table == t.Name {
						return bad("table %s still has index %s", t.Name, x.Name)
					}
				}
			}
		}
		var ts []*Table
		for _, o := range s.Tables {
			if o != t {
				ts = append(ts, o)
			}
		}
		s.Tables = ts
		var xs []*Index
		for _, x := range s.Indexes {
			if x.Table != t.Name {
				xs = append(xs, x)
			}
		}
		s.Indexes = xs
		return nil
	case "drop_index":
		var xs []*Index
		n := 0
		for _, x := range s.Indexes {
			if x.Name == st.Name && (st.Table == "" || x.Table == st.Table) && n == 0 {
				n++
				continue
			}
			xs = append(xs, x)
		}
		if n == 0 {
			if strict && !st.Flag {
				return bad("index %s does not exist", st.Name)
			}
			return nil
		}
		s.Indexes = xs
		return nil
	}

	t := s.Table(st.Table)
	if t == nil {
		return bad("table %s does not exist", st.Table)
	}
	var col *Col
	switch st.Op {
	case "drop_col", "modify_col", "set_type", "set_type_null", "set_default", "drop_default", "set_not_null", "drop_not_null", "set_options", "drop_options":
		if col = t.Col(st.Name); col == nil {
			return bad("column %s.%s does not exist", t.Name, st.Name)
		}
	}
	switch st.Op {
	case "rename_table":
		if s.Table(st.Name) != nil {
			return bad("table %s exists already", st.Name)
		}
		for _, x := range s.Indexes {
			if x.Table == t.Name {
				x.Table = st.Name
			}
		}
		for _, o := range s.Tables {
			for _, c := range o.Cons {
				if c.Kind == "fk" && c.Ref == t.Name {
					c.Ref = st.Name
				}
			}
		}
		t.Name = st.Name
	case "add_col":
		if t.Col(st.Name) != nil {
			return bad("column %s.%s exists already", t.Name, st.Name)
		}
		cc := *st.Col
		t.Cols = append(t.Cols, &cc)
	case "drop_col":
		if strict {
			if err := s.dropColDeps(t, st.Name, bad); err != nil {
				return err
			}
		}
		var cs []*Col
		for _, c := range t.Cols {
			if c != col {
				cs = append(cs, c)
			}
		}
		t.Cols = cs
	case "modify_col":
		*col = *st.Col
	case "set_type":
		col.Type = st.Arg
	case "set_type_null":
		col.Type, col.NotNull = st.Arg, st.Flag
	case "set_default":
		col.Default = st.Arg
	case "drop_default":
		col.Default = ""
	case "set_not_null":
		col.NotNull = true
	case "drop_not_null":
		if strict && inKey(t, col.Name) {
			return bad("column %s is in a primary key", col.Name)
		}
		col.NotNull = false
	case "set_options":
		col.Option = st.Arg
	case "drop_options":
		col.Option = ""
	case "add_con":
		return s.addCon(t, st.Con, strict, bad)
	case "validate_con":
		if t.Con(st.Name) == nil {
			return bad("constraint %s of %s does not exist", st.Name, t.Name)
		}
	case "drop_con":
		c := t.Con(st.Name)
		if c == nil {
			return bad("constraint %s of %s does not exist", st.Name, t.Name)
		}
		if strict && (c.Kind == "pk" || c.Kind == "unique") {
			for _, o := range s.Tables {
				for _, k := range o.Cons {
					if k.Kind == "fk" && k.Ref == t.Name && k != c && sameSet(k.RefCols, c.Cols) && !s.otherKey(t, c, k.RefCols) {
						return bad("key %s of %s is still referenced by %s of %s", c.Name, t.Name, k.Name, o.Name)
					}
				}
			}
		}
		var cs []*Con
		for _, k := range t.Cons {
			if k != c {
				cs = append(cs, k)
			}
		}
		t.Cons = cs
	case "set_opt":
		t.Opts[st.Name] = st.Arg
	case "add_rdp":
		if t.Opts["ROW DELETION POLICY"] != "" {
			return bad("row deletion policy of %s exists already", t.Name)
		}
		t.Opts["ROW DELETION POLICY"] = st.Arg
		return s.rdpCol(t, st.Arg, strict, bad)
	case "replace_rdp":
		if t.Opts["ROW DELETION POLICY"] == "" {
			return bad("row deletion policy of %s does not exist", t.Name)
		}
		t.Opts["ROW DELETION POLICY"] = st.Arg
		return s.rdpCol(t, st.Arg, strict, bad)
	case "drop_rdp":
		if t.Opts["ROW DELETION POLICY"] == "" {
			return bad("row deletion policy of %s does not exist", t.Name)
		}
		delete(t.Opts, "ROW DELETION POLICY")
	default:
		return bad("unknown operation %s", st.Op)
	}
	return nil
}

func (s *Schema) rdpCol(t *Table, arg string, strict bool, bad func(string, ...any) error) error {
	if !strict {
		return nil
	}
	for _, c := range t.Cols {
		if mentions(arg, c.Name) {
			return nil
		}
	}
	return bad("row deletion policy names a column that does not exist")
}

// otherKey: does t have another key over cols than c?
func (s *Schema) otherKey(t *Table, c *Con, cols []string) bool {
	for _, k := range t.Cons {
		if k != c && (k.Kind == "pk" || k.Kind == "unique") && sameSet(k.Cols, cols) {
			return true
		}
	}
	for _, x := range s.Indexes {
		if x.Table == t.Name && x.Unique && sameSet(x.Cols, cols) {
			return true
		}
	}
	return s.D == SP
}

func (s *Schema) addCon(t *Table, c *Con, strict bool, bad func(string, ...any) error) error {
	if t.Con(c.Name) != nil {
		return bad("constraint %s of %s exists already", c.Name, t.Name)
	}
	if c.Kind == "pk" {
		for _, k := range t.Cons {
			if k.Kind == "pk" {
				return bad("table %s has primary key %s already", t.Name, k.Name)
			}
		}
	}
	if strict {
		for _, n := range c.Cols {
			if t.Col(colName(n)) == nil {
				return bad("constraint %s uses column %s.%s that does not exist", c.Name, t.Name, n)
			}
		}
		if c.Kind == "fk" {
			o := s.Table(c.Ref)
			if o == nil {
				return bad("constraint %s refers to table %s that does not exist", c.Name, c.Ref)
			}
			for _, n := range c.RefCols {
				if o.Col(colName(n)) == nil {
					return bad("constraint %s refers to column %s.%s that does not exist", c.Name, c.Ref, n)
				}
			}
		}
	}
	cc := *c
	t.Cons = append(t.Cons, &cc)
	return nil
}

func (s *Schema) addIndex(x *Index, ine, strict bool, bad func(string, ...any) error) error {
	for _, o := range s.Indexes {
		if o.Name == x.Name && (s.D != MY && s.D != CR || o.Table == x.Table) {
			if ine {
				return nil
			}
			return bad("index %s exists already", x.Name)
		}
	}
	if strict {
		t := s.Table(x.Table)
		if t == nil {
			return bad("index %s is on table %s that does not exist", x.Name, x.Table)
		}
		for _, n := range x.Cols {
			if t.Col(colName(n)) == nil {
				return bad("index %s uses column %s.%s that does not exist", x.Name, x.Table, colName(n))
			}
		}
	}
	xx := *x
	xx.Cols = append([]string{}, x.Cols...)
	s.Indexes = append(s.Indexes, &xx)
	return nil
}

// dropColDeps applies what the database does to dependents of a dropped column.
func (s *Schema) dropColDeps(t *Table, n string, bad func(string, ...any) error) error {
	for _, o := range s.Tables {
		for _, c := range o.Cons {
			if c.Kind == "fk" && c.Ref == t.Name && o != t && has(c.RefCols, n) {
				return bad("column %s.%s is still referenced by %s of %s", t.Name, n, c.Name, o.Name)
			}
		}
	}
	switch s.D {
	case PG, CR:
		if s.D == CR {
			for _, c := range t.Cons {
				if c.Kind == "pk" && has(c.Cols, n) {
					return bad("column %s.%s is part of the primary key", t.Name, n)
				}
			}
		}
		var cs []*Con
		for _, c := range t.Cons {
			if has(c.Cols, n) || c.Kind == "check" && mentions(c.Expr, n) {
				continue
			}
			cs = append(cs, c)
		}
		t.Cons = cs
		var xs []*Index
		for _, x := range s.Indexes {
			if x.Table == t.Name && has(x.Cols, n) {
				continue
			}
			xs = append(xs, x)
		}
		s.Indexes = xs
	case MY:
		for _, c := range t.Cons {
			if c.Kind == "fk" && has(c.Cols, n) {
				return bad("column %s.%s is used by foreign key %s", t.Name, n, c.Name)
			}
			if c.Kind == "check" && mentions(c.Expr, n) {
				return bad("column %s.%s is used by check %s", t.Name, n, c.Name)
			}
		}
		var cs []*Con
		for _, c := range t.Cons {
			if c.Kind == "pk" && has(c.Cols, n) {
				c.Cols = without(c.Cols, n)
				if len(c.Cols) == 0 {
					continue
				}
			}
			cs = append(cs, c)
		}
		t.Cons = cs
		var xs []*Index
		for _, x := range s.Indexes {
			if x.Table == t.Name && has(x.Cols, n) {
				x.Cols = without(x.Cols, n)
				if len(x.Cols) == 0 {
					continue
				}
			}
			xs = append(xs, x)
		}
		s.Indexes = xs
	case SP:
		for _, c := range t.Cons {
			if has(c.Cols, n) || c.Kind == "check" && mentions(c.Expr, n) {
				return bad("column %s.%s is used by constraint %s", t.Name, n, c.Name)
			}
		}
		for _, x := range s.Indexes {
			if x.Table == t.Name && has(x.Cols, n) {
				return bad("column %s.%s is used by index %s", t.Name, n, x.Name)
			}
		}
		if mentions(t.Opts["ROW DELETION POLICY"], n) {
			return bad("column %s.%s is used by the row deletion policy", t.Name, n)
		}
	}
	return nil
}

func without(cols []string, n string) []string {
	var out []string
	for _, c := range cols {
		if colName(c) != n {
			out = append(out, c)
		}
	}
	return out
}

// Valid reports whether the schema can exist: every constraint and index uses existing objects.
func (s *Schema) Valid() error {
	n := &Schema{D: s.D}
	bad := func(f string, a ...any) error { return fmt.Errorf(f, a...) }
	for _, t := range s.Tables {
		c := *t
		c.Cons = nil
		n.Tables = append(n.Tables, &c)
	}
	for i, t := range s.Tables {
		for _, c := range t.Cons {
			if err := n.addCon(n.Tables[i], c, true, bad); err != nil {
				return err
			}
		}
	}
	for _, x := range s.Indexes {
		if err := n.addIndex(x, false, true, bad); err != nil {
			return err
		}
	}
	return nil
}
