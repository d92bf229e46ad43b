package alpha

import (
	"fmt"
	"strings"

	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/model"
)

// Group is a handful of schemas that differ in the last of N like things.
type Group struct {
	What  string
	N     int
	Texts []string
}

// Sizes: everything that can be long or many, at every size up to a bound and around the powers of two beyond.
func Sizes(d D, thorough bool) (out []Group) {
	v := Vocs[d]
	id := "id " + v.Int + " NOT NULL"
	some := func(max int, extra ...int) (ns []int) {
		full := 34
		if thorough {
			full = 140
		}
		for i := 1; i <= full && i <= max; i++ {
			ns = append(ns, i)
		}
		for _, e := range append([]int{47, 48, 49, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129}, extra...) {
			if e > full && e <= max {
				ns = append(ns, e)
			}
		}
		return
	}
	add := func(what string, n int, ts ...string) { out = append(out, Group{what, n, ts}) }
	longest := map[D]int{model.PG: 63, model.MY: 64, model.CR: 129, model.SP: 128}[d]

	// names
	word := func(n int, last string) string { return strings.Repeat("x", n-1) + last }
	for _, n := range some(longest) {
		if n < 2 {
			continue
		}
		a, b := word(n, "a"), word(n, "b")
		q := func(s string) string {
			if d == model.PG || d == model.CR {
				return `"` + s + `"`
			}
			return "`" + s + "`"
		}
		t := func(tn, cn, in string) string {
			return T(d, tn, id, cn+" "+v.Int) + "CREATE INDEX " + in + " ON " + tn + " (" + cn + ");\n"
		}
		add("name of a table", n, t(a, "c", "i"), t(b, "c", "i"), t(a[1:], "c", "i"), t(q(a), "c", "i"))
		add("name of a column", n, t("t", a, "i"), t("t", b, "i"), t("t", a[1:], "i"), t("t", q(a), "i"))
		add("name of an index", n, t("t", "c", a), t("t", "c", b), t("t", "c", a[1:]), t("t", "c", q(a)))
		if d == model.PG || d == model.CR || d == model.MY {
			c := func(cn string) string {
				k := "UNIQUE (c)"
				if d != model.PG {
					k = "FOREIGN KEY (c) REFERENCES p (id)"
				}
				return P(d) + T(d, "t", id, "c "+v.Int, "CONSTRAINT "+cn+" "+k)
			}
			add("name of a constraint", n, c(a), c(b), c(a[1:]))
		}
	}
	// literals
	lit := func(s string) string {
		if d == model.SP {
			return T(d, "t", id, "c "+v.Lng+" DEFAULT ('"+s+"')")
		}
		if d == model.MY {
			return T(d, "t", id, "c "+v.Str+" DEFAULT '"+s+"'")
		}
		return T(d, "t", id, "c "+v.Lng+" DEFAULT '"+s+"'")
	}
	for _, n := range some(1<<30, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537) {
		add("length of a literal", n, lit(word(n, "a")), lit(word(n, "b")), lit(word(n, "")))
		if n < 2000 {
			add("blanks in a literal", n, lit("a"+strings.Repeat(" ", n)+"b"), lit("a"+strings.Repeat(" ", n-1)+"b"))
			add("escaped quotes in a literal", n, lit(strings.Repeat("''", n)), lit(strings.Repeat("''", n-1)), lit(strings.Repeat("''", n)+"a"))
		}
		if d == model.MY && n <= 1024 {
			cm := func(s string) string { return T(d, "t", id, "c "+v.Int+" COMMENT '"+s+"'", "e "+v.Int) }
			add("length of a comment", n, cm(word(n, "a")), cm(word(n, "b")))
		}
	}
	// digits of a type's argument
	for _, n := range some(9) {
		digits := "1234567890"
		ty := map[D]string{model.PG: "VARCHAR(%s)", model.MY: "VARCHAR(%s)", model.CR: "STRING(%s)", model.SP: "STRING(%s)"}[d]
		mk := func(x string) string { return T(d, "t", id, "c "+fmt.Sprintf(ty, x)) }
		add("digits of a length", n, mk(digits[:n]), mk(digits[:n-1]+"9"), mk(digits[:n]+"0"))
	}
	// expressions
	wrap := func(e string) []string {
		var ts []string
		switch d {
		case model.SP:
			ts = append(ts, T(d, "t", id, "c "+v.Int+" DEFAULT ("+e+")"), T(d, "t", id, "c "+v.Int, "CONSTRAINT k CHECK (c > "+e+")"))
		case model.MY:
			ts = append(ts, T(d, "t", id, "c "+v.Int+" DEFAULT ("+e+")"), T(d, "t", id, "c "+v.Int, "CONSTRAINT k CHECK (c > "+e+")"))
		default:
			ts = append(ts, T(d, "t", id, "c "+v.Int+" DEFAULT ("+e+")"), T(d, "t", id, "c "+v.Int+" CHECK (c > "+e+")"))
		}
		return ts
	}
	pairUp := func(what string, n int, es ...string) {
		var cols [2][]string
		for _, e := range es {
			for i, t := range wrap(e) {
				cols[i] = append(cols[i], t)
			}
		}
		add(what+" in a default", n, cols[0]...)
		add(what+" in a check", n, cols[1]...)
	}
	for _, n := range some(140) {
		nest := func(n int, in string) string { return strings.Repeat("(1 + ", n) + in + strings.Repeat(")", n) }
		pairUp("nested parentheses", n, nest(n, "1"), nest(n, "2"), nest(n-1, "(1 + 1) + 1"))
		chain := func(n int, last string) string { return strings.Repeat("1 + ", n) + last }
		pairUp("terms", n, chain(n, "1"), chain(n, "2"), chain(n-1, "1"))
		call := func(n int, last string) string { return "f(" + strings.Repeat("1, ", n) + last + ")" }
		pairUp("arguments", n, call(n, "1"), call(n, "2"), call(n-1, "1"))
	}
	// lists
	for _, n := range some(65) {
		var cols []string
		for i := 0; i < n; i++ {
			cols = append(cols, fmt.Sprintf("c%d %s NOT NULL", i, v.Int))
		}
		cs := func(k int) (s []string) {
			for i := 0; i < k; i++ {
				s = append(s, fmt.Sprintf("c%d", i))
			}
			return
		}
		items := func(more ...string) []string { return append(append([]string{id}, cols...), more...) }
		add("columns", n, T(d, "t", items()...), T(d, "t", items()[:n]...), T(d, "t", append(items()[:n], fmt.Sprintf("c%d %s", n-1, v.Big))...), T(d, "t", append(items()[:n], fmt.Sprintf("c%d %s NOT NULL", n, v.Int))...))
		keys := [][]string{cs(n), cs(n)[:n-1], append(cs(n)[:n-1:n-1], "id")}
		if n > 1 {
			k := cs(n)
			k[n-1], k[n-2] = k[n-2], k[n-1]
			keys = append(keys, k)
		}
		desc := cs(n)
		desc[n-1] += " DESC"
		mk := func(f func(k []string) string, ks ...[]string) (ts []string) {
			for _, k := range append(append([][]string{}, keys...), ks...) {
				if len(k) > 0 {
					ts = append(ts, f(k))
				}
			}
			return
		}
		j := func(k []string) string { return "(" + strings.Join(k, ", ") + ")" }
		var idx [][]string
		if d != model.PG {
			idx = append(idx, desc)
		}
		add("columns of an index", n, mk(func(k []string) string { return T(d, "t", items()...) + "CREATE INDEX i ON t " + j(k) + ";\n" }, idx...)...)
		add("columns of a unique index", n, mk(func(k []string) string { return T(d, "t", items()...) + "CREATE UNIQUE INDEX i ON t " + j(k) + ";\n" }, idx...)...)
		if d == model.SP {
			add("columns of a primary key", n, mk(func(k []string) string { return TO(d, "t", " PRIMARY KEY "+j(k), items()...) }, desc)...)
		} else {
			add("columns of a primary key", n, mk(func(k []string) string { return T(d, "t", items("PRIMARY KEY "+j(k))...) })...)
		}
		if d == model.PG {
			add("columns of a unique constraint", n, mk(func(k []string) string { return T(d, "t", items("CONSTRAINT u UNIQUE "+j(k))...) })...)
		}
		if n <= 40 {
			p := T(d, "p", items()...)
			if d != model.SP {
				p = T(d, "p", items("PRIMARY KEY "+j(cs(n)))...)
			}
			fk := func(k, r []string) string {
				return p + T(d, "t", items("CONSTRAINT f FOREIGN KEY "+j(k)+" REFERENCES p "+j(r))...)
			}
			k2 := append(cs(n)[:n-1:n-1], "id")
			ts := []string{fk(cs(n), cs(n)), fk(cs(n), k2), fk(k2, cs(n))}
			add("columns of a foreign key", n, ts...)
		}
		if d == model.MY {
			en := func(k int, last string) string {
				s := ""
				for i := 0; i < k; i++ {
					s += fmt.Sprintf("'v%d', ", i)
				}
				return T(d, "t", id, "c ENUM("+s+"'"+last+"')")
			}
			add("values of an enumeration", n, en(n, "a"), en(n, "b"), en(n-1, "a"))
		}
		// many tables, many indexes, many constraints
		if n <= 40 {
			tb := func(k int, more string) string {
				s := ""
				for i := 0; i < k; i++ {
					s += T(d, fmt.Sprintf("t%d", i), id)
				}
				return s + more
			}
			add("tables", n, tb(n, ""), tb(n-1, ""), tb(n-1, T(d, fmt.Sprintf("t%d", n-1), id, "a "+v.Int)))
			ix := func(k int, more string) string {
				s := T(d, "t", items()...)
				for i := 0; i < k; i++ {
					s += fmt.Sprintf("CREATE INDEX i%d ON t (c%d);\n", i, i)
				}
				return s + more
			}
			add("indexes", n, ix(n, ""), ix(n-1, ""), ix(n-1, fmt.Sprintf("CREATE INDEX i%d ON t (id);\n", n-1)))
			ck := func(k int, more ...string) string {
				s := items()
				for i := 0; i < k; i++ {
					switch d {
					case model.PG:
						s = append(s, fmt.Sprintf("CONSTRAINT k%d UNIQUE (c%d)", i, i))
					case model.CR:
						s = append(s, fmt.Sprintf("INDEX k%d (c%d)", i, i))
					default:
						s = append(s, fmt.Sprintf("CONSTRAINT k%d CHECK (c%d > 0)", i, i))
					}
				}
				return T(d, "t", append(s, more...)...)
			}
			last := fmt.Sprintf("CONSTRAINT k%d CHECK (id > 0)", n-1)
			if d == model.PG {
				last = fmt.Sprintf("CONSTRAINT k%d UNIQUE (id)", n-1)
			} else if d == model.CR {
				last = fmt.Sprintf("INDEX k%d (id)", n-1)
			}
			add("constraints", n, ck(n), ck(n-1), ck(n-1, last))
		}
	}
	return out
}
