package model

import (
	"fmt"
	"sort"
	"strings"
)

type Col struct {
	Name, Type                                            string
	NotNull                                               bool
	Default, As, Charset, Collate, OnAct, Comment, Option string
	AutoInc, NotVisible                                   bool
}

func (c *Col) Canon() string {
	s := c.Name + " " + c.Type
	if c.NotNull {
		s += " NOT NULL"
	}
	for _, kv := range [][2]string{{"DEFAULT", c.Default}, {"AS", c.As}, {"CHARSET", c.Charset}, {"COLLATE", c.Collate}, {"ONACT", c.OnAct}, {"COMMENT", c.Comment}, {"OPTIONS", c.Option}} {
		if kv[1] != "" {
			s += " " + kv[0] + "[" + kv[1] + "]"
		}
	}
	if c.AutoInc {
		s += " AUTO_INCREMENT"
	}
	if c.NotVisible {
		s += " NOT VISIBLE"
	}
	return s
}

// Con is a table constraint: kind pk, fk, unique or check.
type Con struct {
	Kind, Name string
	Cols       []string
	Ref        string
	RefCols    []string
	On         []string
	Expr       string
	Anonymous  bool // written without a name (table level)
}

func (c *Con) Canon() string {
	s := c.Kind + " " + c.Name
	switch c.Kind {
	case "check":
		return s + " ( " + Unparen(c.Expr) + " )"
	case "fk":
		var on []string
		for _, o := range c.On {
			if !strings.HasSuffix(o, "NO ACTION") {
				on = append(on, o)
			}
		}
		sort.Strings(on)
		return s + " (" + strings.Join(c.Cols, ",") + ") -> " + c.Ref + "(" + strings.Join(c.RefCols, ",") + ") " + strings.Join(on, " ")
	}
	return s + " (" + strings.Join(c.Cols, ",") + ")"
}

type Index struct {
	Name, Table string
	Unique      bool
	Cols        []string // "a" or "a DESC"
	Using, Post string
}

func (x *Index) Canon() string {
	s := "index " + x.Name + " on " + x.Table + " (" + strings.Join(x.Cols, ",") + ")"
	if x.Unique {
		s += " unique"
	}
	if x.Using != "" && x.Using != "btree" {
		s += " using " + x.Using
	}
	if x.Post != "" {
		s += " post " + x.Post
	}
	return s
}

type Table struct {
	Name string
	Cols []*Col
	Cons []*Con
	Opts map[string]string
}

func (t *Table) Col(n string) *Col {
	for _, c := range t.Cols {
		if c.Name == n {
			return c
		}
	}
	return nil
}

func (t *Table) Con(n string) *Con {
	for _, c := range t.Cons {
		if c.Name == n {
			return c
		}
	}
	return nil
}

type Schema struct {
	D       Dialect
	Tables  []*Table
	Indexes []*Index
}

func (s *Schema) Table(n string) *Table {
	for _, t := range s.Tables {
		if t.Name == n {
			return t
		}
	}
	return nil
}

func (s *Schema) Index(n string) *Index {
	for _, x := range s.Indexes {
		if x.Name == n {
			return x
		}
	}
	return nil
}

func (s *Schema) Clone() *Schema {
	r := &Schema{D: s.D}
	for _, t := range s.Tables {
		n := &Table{Name: t.Name, Opts: map[string]string{}}
		for _, c := range t.Cols {
			cc := *c
			n.Cols = append(n.Cols, &cc)
		}
		for _, c := range t.Cons {
			cc := *c
			cc.Cols = append([]string{}, c.Cols...)
			n.Cons = append(n.Cons, &cc)
		}
		for k, v := range t.Opts {
			n.Opts[k] = v
		}
		r.Tables = append(r.Tables, n)
	}
	for _, x := range s.Indexes {
		xx := *x
		xx.Cols = append([]string{}, x.Cols...)
		r.Indexes = append(r.Indexes, &xx)
	}
	return r
}

// Facts is the canonical form of a schema: one line per fact, without order of tables, columns,
// constraints or indexes (ordered=true keeps the column order of each table).
func (s *Schema) Facts(ordered bool) []string {
	var f []string
	for _, t := range s.Tables {
		f = append(f, "table "+t.Name)
		for i, c := range t.Cols {
			l := t.Name + " col " + c.Canon()
			if ordered {
				l = fmt.Sprintf("%s col#%02d %s", t.Name, i, c.Canon())
			}
			f = append(f, l)
		}
		for _, c := range t.Cons {
			f = append(f, t.Name+" con "+c.Canon())
		}
		for k, v := range t.Opts {
			f = append(f, t.Name+" opt "+k+"="+v)
		}
	}
	for _, x := range s.Indexes {
		f = append(f, x.Canon())
	}
	sort.Strings(f)
	return f
}

func (s *Schema) Canon(ordered bool) string { return strings.Join(s.Facts(ordered), "\n") }

// Settle removes from a pair (reached, wanted) what the tool documents as not compared: MySQL
// AUTO_INCREMENT counters and options the target leaves unspecified, and CockroachDB's hidden
// virtual columns that the target does not mention. It returns copies.
func Settle(got, want *Schema) (*Schema, *Schema) {
	g, w := got.Clone(), want.Clone()
	for _, t := range g.Tables {
		wt := w.Table(t.Name)
		switch g.D {
		case MY:
			delete(t.Opts, "AUTO_INCREMENT")
			if wt != nil {
				delete(wt.Opts, "AUTO_INCREMENT")
				for k := range t.Opts {
					if _, ok := wt.Opts[k]; !ok {
						delete(t.Opts, k)
					}
				}
			}
		case CR:
			if wt != nil {
				var cs []*Col
				for _, c := range t.Cols {
					if c.NotVisible && strings.Contains(c.As, "VIRTUAL") && wt.Col(c.Name) == nil {
						continue
					}
					cs = append(cs, c)
				}
				t.Cols = cs
			}
		}
	}
	for _, t := range w.Tables {
		if g.D == MY {
			delete(t.Opts, "AUTO_INCREMENT")
		}
	}
	return g, w
}

// DiffFacts describes how a differs from b, or "".
func DiffFacts(got, want []string) string {
	m := map[string]int{}
	for _, x := range got {
		m[x]++
	}
	for _, x := range want {
		m[x]--
	}
	var out []string
	for k, n := range m {
		if n > 0 {
			out = append(out, "extra {"+k+"}")
		}
		if n < 0 {
			out = append(out, "missing {"+k+"}")
		}
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

// Unparen strips parentheses around the whole of an expression.
func Unparen(e string) string {
	for strings.HasPrefix(e, "( ") && strings.HasSuffix(e, " )") {
		depth := 0
		fs := strings.Fields(e)
		for i, f := range fs {
			if f == "(" {
				depth++
			}
			if f == ")" {
				depth--
			}
			if depth == 0 && i < len(fs)-1 {
				return e
			}
		}
		e = e[2 : len(e)-2]
	}
	return e
}
