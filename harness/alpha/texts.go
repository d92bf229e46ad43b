package alpha

import (
	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/model"
)

// Texts: values that are easily taken for one another, in every place that takes one.
func Texts(d D) (out []Group) {
	v := Vocs[d]
	id := "id " + v.Int + " NOT NULL"
	add := func(what string, ts ...string) { out = append(out, Group{what, len(ts), ts}) }
	cols := func(what, pre, post string, es ...string) {
		var ts []string
		for _, e := range es {
			ts = append(ts, T(d, "t", id, pre+e+post))
		}
		add(what, ts...)
	}
	long := v.Lng
	if d == model.MY {
		long = v.Str
	}
	texts := []string{"''", "' '", "'  '", "'a'", "'A'", "' a'", "'a '", "'a b'", "'a  b'", "'a,b'", "'a, b'", "'(a)'", "'( a )'", "'a;b'", "'--'", "'-- a'", "'''a'''", "'''a'", "'a'''", "'a''b'", "'\"a\"'", "'`a`'",
		"'null'", "'NULL'", "'current_timestamp'", "'CURRENT_TIMESTAMP'", "'and'", "'AND'", "'not null'", "'%s'", "'%d%%'", "'é'", "'日本'", "'a.b'", "'a::text'", "'[a]'", "'{\"k\": 1}'", "'{\"k\":1}'"}
	if d == model.MY || d == model.SP {
		texts = append(texts, `'\''`, `'a\'b'`, `'\\'`, `'\n'`, `'\\n'`)
	} else {
		texts = append(texts, `'\'`, `'\n'`, `'a\'`)
	}
	defs := append([]string{"", " DEFAULT NULL"}, prefix(" DEFAULT ", texts)...)
	if d == model.SP {
		defs = append([]string{"", " DEFAULT (NULL)"}, prefix(" DEFAULT (", suffix(texts, ")"))...)
	}
	cols("texts of a default", "c "+long, "", defs...)
	cols("texts of a default beside another column", "c "+long, ", e "+v.Int, defs...)
	nums := []string{"0", "1", "-1", "01", "10", "1.0", "0.1", "-0.1", "100000000000", "1e3"}
	if d == model.SP {
		nums = prefix(" DEFAULT (", suffix(nums, ")"))
	} else {
		nums = prefix(" DEFAULT ", nums)
	}
	cols("numbers of a default", "c "+v.Int, "", append([]string{""}, nums...)...)
	ops := []string{}
	for _, x := range append([]string{"c", "id", "e", "'c'", "'id'", "'e'"}, texts...) {
		ops = append(ops, "c = "+x)
	}
	ops = append(ops, "c <> 'a'", "c != 'a'", "c > 'a'", "c >= 'a'", "c < 'a'", "c <= 'a'", "c LIKE 'a'", "c NOT LIKE 'a'", "NOT c LIKE 'a'", "c IN ('a')", "c IN ('a', 'b')", "c IN ('a, b')", "c IN ('a'', ''b')", "c IS NULL", "c IS NOT NULL", "c BETWEEN 'a' AND 'b'", "c = 'a' AND e > 0", "c = 'a' OR e > 0", "(c = 'a' OR e > 0) AND id > 0", "c = 'a' OR (e > 0 AND id > 0)", "length(c) > 1", "length(c) > 10", "length (c) > 100")
	for _, x := range map[D][]string{
		model.PG: {"||", "~", "~*", "!~", "!~*", "~~", "~~*", "!~~", "!~~*", "->", "->>", "#>", "#>>", "#-", "@>", "<@", "@@", "&&", "?", "?|", "?&", "<<", ">>", "&", "|", "#", "^", "%", "+", "-", "*", "/"},
		model.CR: {"||", "~", "~*", "!~", "!~*", "->", "->>", "#>", "#>>", "@>", "<@", "&&", "?", "?|", "?&", "<<", ">>", "&", "|", "#", "^", "%", "+", "-", "*", "/"},
		model.MY: {"||", "&&", "<=>", "->", "->>", "<<", ">>", "&", "|", "^", "%", "+", "-", "*", "/"},
		model.SP: {"||", "<<", ">>", "&", "|", "^", "+", "-", "*", "/"},
	}[d] {
		ops = append(ops, "c "+x+" e = 1")
	}
	ops = append(ops, "c!='a'", "c<>'a'", "e>=-1", "e>-1", "e=-1", "e<-1", "e!=-1", "e*-1>0", "-e>0", "e>= -1 AND e<=+1")
	var ck []string
	for _, o := range ops {
		if d == model.PG || d == model.CR {
			ck = append(ck, T(d, "t", id, "e "+v.Int, "c "+long+" CHECK ("+o+")"))
		} else {
			ck = append(ck, T(d, "t", id, "e "+v.Int, "c "+long, "CONSTRAINT k CHECK ("+o+")"))
		}
	}
	add("texts of a check", ck...)
	switch d {
	case model.MY:
		cols("texts of a comment", "c "+v.Int, "", append([]string{""}, prefix(" COMMENT ", texts)...)...)
		cols("texts of a comment before another column", "c "+v.Int, ", e "+v.Int, append([]string{""}, prefix(" NOT NULL COMMENT ", texts)...)...)
		var es []string
		for _, e := range []string{"'a'", "'A'", "''", "' '", "'a', 'b'", "'a,b'", "'a'', ''b'", "'b', 'a'", "'a', 'b', 'c'", "'a ', 'b'", "'(a)', 'b'", "'a;', 'b'", "'null'", "'a', ''"} {
			es = append(es, " ENUM("+e+")")
		}
		cols("texts of an enumeration", "c", "", es...)
		var ts []string
		for _, o := range append([]string{""}, prefix(" COMMENT=", texts)...) {
			ts = append(ts, TO(d, "t", o, id))
			ts = append(ts, TO(d, "t", " ENGINE=InnoDB"+o, id))
		}
		add("texts of a table comment", ts...)
	case model.SP:
		var es []string
		for _, e := range []string{"true", "false", "null", "TRUE"} {
			es = append(es, " OPTIONS (allow_commit_timestamp = "+e+")")
		}
		cols("values of an option", "c TIMESTAMP", "", append([]string{""}, es...)...)
		var ts []string
		for _, o := range []string{"", ", ROW DELETION POLICY (OLDER_THAN(c, INTERVAL 1 DAY))", ", ROW DELETION POLICY (OLDER_THAN(c, INTERVAL 10 DAY))", ", ROW DELETION POLICY (OLDER_THAN(e, INTERVAL 1 DAY))", ", ROW DELETION POLICY (OLDER_THAN(`c`, INTERVAL 1 DAY))"} {
			ts = append(ts, TO(d, "t", " PRIMARY KEY (id)"+o, id, "c TIMESTAMP", "e TIMESTAMP"))
		}
		add("values of a deletion policy", ts...)
	}
	return out
}

func prefix(p string, ss []string) (out []string) {
	for _, s := range ss {
		out = append(out, p+s)
	}
	return
}

func suffix(ss []string, p string) (out []string) {
	for _, s := range ss {
		out = append(out, s+p)
	}
	return
}
