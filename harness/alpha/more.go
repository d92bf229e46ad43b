package alpha

import (
	"fmt"
	"strings"

	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/model"
)

// TwoColumns: two columns of one table change at once, with a key on one of them.
func TwoColumns(d D) Family {
	f := Family{Name: "two columns at once", D: d}
	v := Vocs[d]
	zero := " DEFAULT 0"
	if d == model.SP {
		zero = " DEFAULT (0)"
	}
	defs := []string{"", v.Int, v.Int + " NOT NULL", v.Big + zero, v.Big + " NOT NULL" + zero}
	if d == model.SP {
		defs[3], defs[4] = v.Int+zero, v.Int+" NOT NULL"+zero
	}
	keys := []string{"", "UNIQUE", "INDEX"}
	for _, c := range defs {
		for _, e := range defs {
			for _, k := range keys {
				items := []string{"id " + v.Int + " NOT NULL"}
				for i, x := range []string{c, e} {
					if x != "" {
						items = append(items, string("ce"[i])+" "+x)
					}
				}
				after := ""
				switch {
				case k == "UNIQUE" && (e == "" || d == model.SP):
					continue
				case k == "UNIQUE" && d == model.PG:
					items = append(items, "UNIQUE (e)")
				case k == "UNIQUE" && d == model.MY:
					items = append(items, "UNIQUE KEY ue (e)")
				case k == "UNIQUE":
					items = append(items, "UNIQUE INDEX ue (e)")
				case k == "INDEX" && c == "":
					continue
				case k == "INDEX":
					after = "CREATE INDEX ic ON t (c);\n"
				}
				f.Texts = append(f.Texts, T(d, "t", items...)+after)
			}
		}
	}
	return f
}

// References: tables that refer to themselves, chains of references whose names sort against the
// references, and a table that refers to two others.
func References(d D) Family {
	f := Family{Name: "reference shapes", D: d}
	v := Vocs[d]
	mk := func(n string, more ...string) string {
		items := []string{"id " + v.Int + " NOT NULL", "a " + v.Int, "b " + v.Int}
		switch d {
		case model.SP:
		case model.MY:
			items = append(items, "PRIMARY KEY (id)")
		default:
			items = append(items, "CONSTRAINT "+n+"_pkey PRIMARY KEY (id)")
		}
		for _, m := range more {
			if m != "" {
				items = append(items, m)
			}
		}
		return T(d, n, items...)
	}
	fk := func(n, col, ref, act string) string {
		return "CONSTRAINT " + n + " FOREIGN KEY (" + col + ") REFERENCES " + ref + " (id)" + act
	}
	f.Texts = append(f.Texts, mk("t"), mk("t", fk("own", "a", "t", "")), mk("t", fk("own", "b", "t", "")), mk("t", fk("own", "a", "t", ""), fk("own2", "b", "t", "")))
	if d != model.SP {
		f.Texts = append(f.Texts, mk("t", fk("own", "a", "t", " ON DELETE CASCADE")), mk("t", fk("own", "a", "t", " ON DELETE NO ACTION")), mk("t", fk("own", "a", "t", ""), fk("own2", "b", "t", " ON DELETE CASCADE")))
	}
	// d is the parent, a the last descendant
	for n := 1; n <= 4; n++ {
		names := []string{"d", "c", "b", "a"}[:n]
		for bits := 0; bits < 1<<(n-1); bits++ {
			s := ""
			for i, x := range names {
				if i > 0 && bits&(1<<(i-1)) != 0 {
					s += mk(x, fk(x+"_fk", "a", names[i-1], ""))
				} else {
					s += mk(x)
				}
			}
			f.Texts = append(f.Texts, s)
		}
	}
	// one table refers to two, two refer to one
	f.Texts = append(f.Texts,
		mk("d")+mk("c")+mk("a", fk("x", "a", "d", ""), fk("y", "b", "c", "")),
		mk("d")+mk("c")+mk("a", fk("x", "a", "c", ""), fk("y", "b", "d", "")),
		mk("c")+mk("d")+mk("a", fk("x", "a", "d", ""), fk("y", "b", "c", "")),
		mk("d")+mk("c", fk("x", "a", "d", ""))+mk("a", fk("y", "a", "d", ""), fk("z", "b", "c", "")),
		mk("d")+mk("a", fk("x", "a", "d", ""), fk("y", "b", "d", "")),
		mk("c")+mk("d", fk("back", "a", "c", "")),
	)
	return f
}

// Schemas: tables and indexes of the same names in several schemas of one database.
func Schemas(d D) Family {
	f := Family{Name: "several schemas", D: d}
	v := Vocs[d]
	if d == model.MY {
		return f // see Probes
	}
	mk := func(n string, more ...string) string {
		return T(d, n, append([]string{"id " + v.Int + " NOT NULL"}, more...)...)
	}
	for _, x := range []string{"", mk("s1.t", "a "+v.Int), mk("s1.t", "b "+v.Int), mk("s1.t", "a "+v.Int+" NOT NULL", "b "+v.Int)} {
		for _, y := range []string{"", mk("s2.t", "a "+v.Int), mk("s2.t", "b "+v.Int)} {
			for _, z := range []string{"", mk("t", "a "+v.Int), mk("u", "a "+v.Int)} {
				if x+y+z != "" {
					f.Texts = append(f.Texts, x+y+z)
				}
			}
		}
	}
	return f
}

// Large: many columns, constraints, indexes and tables, and long names; one thing differs at a time.
func Large(d D) Family {
	f := Family{Name: "large schemas", D: d}
	v := Vocs[d]
	col := func(i int) string { return fmt.Sprintf("c%d %s", i, v.Int) }
	con := func(i int) string {
		switch d {
		case model.PG:
			return fmt.Sprintf("CONSTRAINT u%d UNIQUE (c%d)", i, i)
		case model.MY:
			return fmt.Sprintf("UNIQUE KEY u%d (c%d)", i, i)
		case model.CR:
			return fmt.Sprintf("UNIQUE INDEX u%d (c%d)", i, i)
		}
		return fmt.Sprintf("CONSTRAINT k%d CHECK (c%d > 0)", i, i)
	}
	build := func(nc, nk, ni, nt int, edit func(kind string, i int, s string) string) string {
		items := []string{"id " + v.Int + " NOT NULL"}
		e := func(kind string, i int, s string) {
			if edit != nil {
				s = edit(kind, i, s)
			}
			if s != "" {
				items = append(items, s)
			}
		}
		for i := 0; i < nc; i++ {
			e("column", i, col(i))
		}
		for i := 0; i < nk; i++ {
			e("constraint", i, con(i))
		}
		out := T(d, "t", items...)
		for i := 0; i < nt; i++ {
			s := T(d, fmt.Sprintf("t%d", i), "id "+v.Int+" NOT NULL", "a "+v.Int)
			if edit != nil {
				s = edit("table", i, s)
			}
			out += s
		}
		for i := 0; i < ni; i++ {
			s := fmt.Sprintf("CREATE INDEX i%d ON t (c%d);\n", i, i)
			if edit != nil {
				s = edit("index", i, s)
			}
			out += s
		}
		return out
	}
	const n = 18
	f.Texts = append(f.Texts, build(n, n, n, n, nil), build(n, 0, 0, 0, nil), build(n, n, 0, 0, nil), build(n, 0, n, 0, nil), build(n, 0, 0, n, nil))
	for _, i := range []int{0, n / 2, n - 1} {
		i := i
		for _, kind := range []string{"column", "constraint", "index", "table"} {
			kind := kind
			if kind != "column" {
				f.Texts = append(f.Texts, build(n, n, n, n, func(k string, j int, s string) string {
					if k == kind && j == i {
						return ""
					}
					return s
				}))
			}
			f.Texts = append(f.Texts, build(n, n, n, n, func(k string, j int, s string) string {
				if k != kind || j != i {
					return s
				}
				switch k {
				case "column":
					return s + " NOT NULL"
				case "constraint", "index":
					return strings.Replace(s, fmt.Sprintf("(c%d", i), fmt.Sprintf("(c%d", (i+1)%n), 1)
				}
				return strings.Replace(s, "a "+v.Int, "a "+v.Int+" NOT NULL", 1)
			}))
		}
	}
	long := strings.Repeat("long_name_", 6)
	for _, a := range []string{"", "x", "y"} {
		for _, b := range []string{"", "p", "q"} {
			f.Texts = append(f.Texts, T(d, long+a, "id "+v.Int+" NOT NULL", long+b+" "+v.Int)+"CREATE INDEX "+long+"i"+a+b+" ON "+long+a+" ("+long+b+");\n")
		}
	}
	return f
}

// Spread is n of the texts, evenly spread.
func Spread(ts []string, n int) []string { return pickN(ts, n) }
