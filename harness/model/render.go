package model

import (
	"sort"
	"strings"
)

func quoteName(d Dialect, n string) string {
	ok := n != "" && !(n[0] >= '0' && n[0] <= '9')
	for i := 0; i < len(n); i++ {
		if !isWord(n[i]) {
			ok = false
		}
	}
	switch strings.ToUpper(n) {
	case "ORDER", "SELECT", "TABLE":
		ok = false
	}
	if ok {
		return n
	}
	if d == MY || d == SP {
		return "`" + n + "`"
	}
	return `"` + n + `"`
}

// quoteCol also quotes a name with a dot, which does not separate a schema in the name of a column.
func quoteCol(d Dialect, n string) string {
	if q := quoteName(d, n); q != n || !strings.Contains(n, ".") {
		return q
	}
	if d == MY || d == SP {
		return "`" + n + "`"
	}
	return `"` + n + `"`
}

func renderNames(d Dialect, cols []string) string {
	var out []string
	for _, c := range cols {
		n := quoteCol(d, colName(c))
		if strings.HasSuffix(c, " DESC") {
			n += " DESC"
		}
		out = append(out, n)
	}
	return "(" + strings.Join(out, ", ") + ")"
}

// RenderCol is the definition of a column.
func RenderCol(d Dialect, c *Col) string {
	s := quoteCol(d, c.Name) + " " + c.Type
	if c.Charset != "" {
		s += " CHARACTER SET " + c.Charset
	}
	if c.Collate != "" {
		s += " COLLATE " + c.Collate
	}
	if c.NotVisible {
		s += " NOT VISIBLE"
	}
	if c.NotNull {
		s += " NOT NULL"
	}
	if c.AutoInc {
		s += " AUTO_INCREMENT"
	}
	if c.Default != "" {
		s += " DEFAULT " + c.Default
	}
	if c.OnAct != "" {
		s += " " + c.OnAct
	}
	if c.As != "" {
		s += " AS " + c.As
	}
	if c.Comment != "" {
		s += " COMMENT " + c.Comment
	}
	if c.Option != "" {
		s += " OPTIONS " + c.Option
	}
	return s
}

// RenderIndex is the CREATE INDEX statement of an index.
func RenderIndex(d Dialect, x *Index) string {
	s := "CREATE "
	if x.Unique {
		s += "UNIQUE "
	}
	s += "INDEX " + quoteCol(d, x.Name) + " ON " + quoteName(d, x.Table) + " "
	if x.Using != "" {
		s += "USING " + x.Using + " "
	}
	s += renderNames(d, x.Cols)
	if x.Post != "" {
		s += " USING " + x.Post
	}
	return s
}

// RenderCon is the table-level definition of a constraint.
func RenderCon(d Dialect, k *Con) string {
	l := ""
	if !(d == MY && k.Kind == "pk") {
		l = "CONSTRAINT " + quoteCol(d, k.Name) + " "
	}
	switch k.Kind {
	case "pk":
		l += "PRIMARY KEY " + renderNames(d, k.Cols)
	case "unique":
		l += "UNIQUE " + renderNames(d, k.Cols)
	case "check":
		l += "CHECK " + k.Expr
	case "fk":
		l += "FOREIGN KEY " + renderNames(d, k.Cols) + " REFERENCES " + quoteName(d, k.Ref) + " " + renderNames(d, k.RefCols)
		if len(k.On) > 0 {
			l += " " + strings.Join(k.On, " ")
		}
	}
	return l
}

// Render is the text of a schema as a database would show it: referenced tables first.
func Render(s *Schema) string {
	var b strings.Builder
	done := map[*Table]bool{}
	var emit func(t *Table)
	emit = func(t *Table) {
		if done[t] {
			return
		}
		done[t] = true
		for _, c := range t.Cons {
			if c.Kind == "fk" && c.Ref != t.Name {
				if o := s.Table(c.Ref); o != nil {
					emit(o)
				}
			}
		}
		if p := t.Opts["INTERLEAVE"]; p != "" {
			if o := s.Table(strings.Fields(p)[0]); o != nil {
				emit(o)
			}
		}
		b.WriteString(RenderTable(s.D, t))
	}
	for _, t := range s.Tables {
		emit(t)
	}
	for _, x := range s.Indexes {
		b.WriteString(RenderIndex(s.D, x) + ";\n")
	}
	return b.String()
}

// RenderTable is the CREATE TABLE statement of a table.
func RenderTable(d Dialect, t *Table) string {
	var items []string
	for _, c := range t.Cols {
		items = append(items, RenderCol(d, c))
	}
	for _, k := range t.Cons {
		items = append(items, RenderCon(d, k))
	}
	s := "CREATE TABLE " + quoteName(d, t.Name) + " (\n    " + strings.Join(items, ",\n    ") + "\n)"
	switch d {
	case MY:
		for _, k := range []string{"ENGINE", "AUTO_INCREMENT", "CHARSET", "COLLATE", "COMMENT"} {
			if v, ok := t.Opts[k]; ok {
				if k == "CHARSET" {
					k = "DEFAULT CHARSET"
				}
				if e, ok := map[string]string{"innodb": "InnoDB", "myisam": "MyISAM"}[v]; ok && k == "ENGINE" {
					v = e
				}
				s += " " + k + "=" + v
			}
		}
	case SP:
		s += " PRIMARY KEY (" + t.Opts["PRIMARY KEY"] + ")"
		if v := t.Opts["INTERLEAVE"]; v != "" {
			s += ", INTERLEAVE IN PARENT " + v
		}
		if v := t.Opts["ROW DELETION POLICY"]; v != "" {
			s += ", ROW DELETION POLICY " + v
		}
	}
	return s + ";\n"
}

// SortedTables returns the tables by name.
func (s *Schema) SortedTables() []*Table {
	ts := append([]*Table{}, s.Tables...)
	sort.Slice(ts, func(i, j int) bool { return ts[i].Name < ts[j].Name })
	return ts
}
