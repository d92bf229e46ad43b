package main

import (
	"fmt"
	"strings"

	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/alpha"
	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/core"
	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/model"
	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/sut"
)

var keywords = map[string]bool{}

func init() {
	for _, k := range strings.Fields("CREATE TABLE INDEX UNIQUE PRIMARY KEY FOREIGN REFERENCES CONSTRAINT CHECK NOT NULL DEFAULT ON DELETE UPDATE CASCADE NO ACTION USING OPTIONS INTERLEAVE IN PARENT ROW DELETION POLICY ENGINE CHARSET COLLATE COMMENT AUTO_INCREMENT CHARACTER SET ASC DESC VISIBLE AS STORED VIRTUAL " +
		"BOOLEAN BOOL SMALLINT INTEGER INT BIGINT DECIMAL NUMERIC REAL DOUBLE PRECISION SMALLSERIAL SERIAL BIGSERIAL UUID JSONB JSON VARYING VARCHAR TEXT TIMESTAMP TIMESTAMPTZ WITH TIME ZONE BIT TINYINT CHAR MEDIUMTEXT LONGTEXT DATETIME DATE ENUM INT2 INT4 INT8 FLOAT4 FLOAT8 STRING INT64 FLOAT64 MAX " +
		"TRUE FALSE CURRENT_TIMESTAMP AND OR") {
		keywords[k] = true
	}
}

// rewrite is a spelling that must not matter.
type rewrite struct{ what, text string }

func join(ts []model.Tok, sep func(i int) string) string {
	var b strings.Builder
	for i, t := range ts {
		if i > 0 {
			b.WriteString(sep(i))
		}
		b.WriteString(t.Raw)
	}
	return b.String()
}

// glue: tokens that may touch without merging
func glue(a, b model.Tok) string {
	if a.Kind == 'p' && (a.S == "(" || a.S == ",") || b.Kind == 'p' && (b.S == "(" || b.S == ")" || b.S == "," || b.S == ";") {
		return ""
	}
	return " "
}

func mixed(s string) string {
	b := []byte(strings.ToLower(s))
	for i := 0; i < len(b); i += 2 {
		b[i] = strings.ToUpper(string(b[i]))[0]
	}
	return string(b)
}

func rewrites(d D, s schema, thorough bool) []rewrite {
	ts, err := model.Lex(d, s.text)
	if err != nil {
		panic(err)
	}
	var out []rewrite
	add := func(w, t string) {
		if t != s.text {
			out = append(out, rewrite{w, t})
		}
	}
	sp := func(int) string { return " " }
	add("single spaces", join(ts, sp))
	add("one token per line", join(ts, func(int) string { return "\n" }))
	add("tabs", join(ts, func(int) string { return "\t" }))
	add("carriage returns", join(ts, func(int) string { return "\r\n" }))
	add("no spaces around punctuation", join(ts, func(i int) string { return glue(ts[i-1], ts[i]) }))
	add("comment between all tokens", join(ts, func(int) string { return " -- c\n" }))
	add("leading and trailing space", "\n\n \t"+s.text+" \n\t\n")
	add("leading comment", "-- CREATE TABLE x (\n"+s.text)
	add("trailing comment", s.text+"-- the end")
	add("trailing comment line", s.text+"-- the end;\n")
	add("no final terminator", strings.TrimRight(strings.TrimRight(s.text, "\n"), ";"))
	add("empty comment", "--\n"+s.text)
	for i := 1; i < len(ts); i++ {
		k := i
		base := func(ins string) string {
			return join(ts, func(j int) string {
				if j == k {
					return ins
				}
				return " "
			})
		}
		add(fmt.Sprintf("comment before token %d (%s)", i, ts[i].Raw), base(" -- it's a \"comment\" `\n"))
		if thorough {
			add(fmt.Sprintf("newline before token %d (%s)", i, ts[i].Raw), base(" \n\n\t"))
		}
	}
	isKey := func(t model.Tok) bool {
		return t.Kind == 'w' && keywords[strings.ToUpper(t.S)] && !(d == model.MY && strings.ToUpper(t.S) == "UUID") // uuid() is a function there
	}
	recase := func(w string, f func(string) string) {
		us := append([]model.Tok{}, ts...)
		for i, t := range us {
			if isKey(t) {
				us[i].Raw = f(t.Raw)
			}
		}
		add(w, join(us, sp))
	}
	recase("lower case keywords", strings.ToLower)
	recase("mixed case keywords", mixed)
	for i, t := range ts {
		if isKey(t) {
			us := append([]model.Tok{}, ts...)
			us[i].Raw = strings.ToLower(t.Raw)
			if us[i].Raw == t.Raw {
				us[i].Raw = strings.ToUpper(t.Raw)
			}
			add(fmt.Sprintf("case of keyword %d (%s)", i, t.Raw), join(us, sp))
		}
	}
	// quoted identifiers
	names := map[string]bool{}
	for _, t := range s.m.Tables {
		names[t.Name] = true
		for _, c := range t.Cols {
			names[c.Name] = true
		}
		for _, k := range t.Cons {
			names[k.Name] = true
		}
	}
	for _, x := range s.m.Indexes {
		names[x.Name] = true
	}
	q := `"`
	if d == model.MY || d == model.SP {
		q = "`"
	}
	for i, t := range ts {
		if t.Kind == 'w' && names[t.S] && !strings.Contains(t.S, ".") && !keywords[strings.ToUpper(t.S)] {
			us := append([]model.Tok{}, ts...)
			us[i].Raw = q + t.Raw + q
			add(fmt.Sprintf("quoted identifier %d (%s)", i, t.Raw), join(us, sp))
		}
	}
	us := append([]model.Tok{}, ts...)
	for i, t := range us {
		if t.Kind == 'w' && names[t.S] && !strings.Contains(t.S, ".") && !keywords[strings.ToUpper(t.S)] {
			us[i].Raw = q + t.Raw + q
		}
	}
	add("all identifiers quoted", join(us, sp))
	// IF NOT EXISTS
	for i, t := range ts {
		if (t.Is("TABLE") || t.Is("INDEX")) && i > 0 && (ts[i-1].Is("CREATE") || ts[i-1].Is("UNIQUE") && i > 1 && ts[i-2].Is("CREATE")) {
			if t.Is("INDEX") && (d == model.MY) {
				continue
			}
			us := append([]model.Tok{}, ts...)
			us[i].Raw += " IF NOT EXISTS"
			add(fmt.Sprintf("IF NOT EXISTS %d", i), join(us, sp))
		}
	}
	// redundant NULL after the type of a nullable column
	if !strings.Contains(strings.ToUpper(s.text), "PRIMARY") || d == model.SP {
		for _, t := range s.m.Tables {
			for _, c := range t.Cols {
				if c.NotNull || c.As != "" || d == model.SP || c.Charset != "" || c.Collate != "" {
					continue
				}
				for i := range ts {
					if i > 0 && ts[i].S == c.Name && (ts[i-1].S == "(" || ts[i-1].S == ",") && i+1 < len(ts) && ts[i+1].Kind == 'w' && keywords[strings.ToUpper(ts[i+1].S)] {
						// end of the type: after its arguments
						j := i + 1
						up := strings.ToUpper(ts[j].S)
						for j+1 < len(ts) && (up == "DOUBLE" && ts[j+1].Is("PRECISION") || up == "CHARACTER" && ts[j+1].Is("VARYING") || ts[j+1].Is("WITH") || ts[j+1].Is("TIME") && up == "TIMESTAMP" || ts[j+1].Is("ZONE")) {
							j++
						}
						if j+1 < len(ts) && ts[j+1].S == "(" {
							for ts[j].S != ")" {
								j++
							}
						}
						if j+1 < len(ts) && ts[j+1].Is("NULL") || j+1 < len(ts) && (ts[j+1].Is("CHARACTER") || ts[j+1].Is("COLLATE")) {
							continue
						}
						us := append([]model.Tok{}, ts...)
						us[j].Raw += " NULL"
						add("redundant NULL on "+c.Name, join(us, sp))
					}
				}
			}
		}
	}
	return out
}

// canonText is a migration up to quoting and keyword case.
func canonText(d D, s string) string {
	ts, err := model.Lex(d, s)
	if err != nil {
		return s
	}
	var out []string
	for _, t := range ts {
		x := t.S
		if t.Kind == 'w' && keywords[strings.ToUpper(x)] {
			x = strings.ToUpper(x)
		}
		out = append(out, x)
	}
	return strings.ReplaceAll(strings.Join(out, " "), "IF NOT EXISTS ", "")
}

func c03(c *core.Ctx) {
	c.Rule = "every schema of every family under every rewriting: white space of every kind, a comment at every token boundary, the case of every keyword, quoting of every identifier, IF NOT EXISTS, redundant NULL, terminators; each against its original and against two other schemas"
	for _, d := range model.Dialects {
		for _, f := range alpha.All(d, false) {
			c.Family(string(d) + ": " + f.Name)
			ts := smallTexts(f)
			if !c.Thorough() {
				ts = pick(ts, 60)
			}
			ss := load(d, ts)
			for i := range ss {
				if ss[i].text == "" {
					continue
				}
				s, third := ss[i], []schema{ss[(i+1)%len(ss)], ss[(i+len(ss)/2)%len(ss)]}
				for _, rw := range rewrites(d, s, c.Thorough()) {
					spelling(c, d, s, rw, third)
				}
			}
		}
	}
}

func spelling(c *core.Ctx, d D, s schema, rw rewrite, third []schema) {
	c.Do(fmt.Sprintf("%s: %s: %s", d, rw.what, one(s.text)), func() core.Result {
		r := core.Result{Outcome: strings.SplitN(rw.what, " ", 2)[0], Trace: true, States: []string{rw.text}, Detail: "spelling: " + rw.text}
		x, err := sut.Parse(d, s.text)
		if err != nil {
			return core.Result{Outcome: "rejected", Viol: "original not accepted: " + err.Error()}
		}
		parse := func() *sut.Doc {
			y, e := sut.Parse(d, rw.text)
			err = e
			return y
		}
		y := parse()
		if err != nil {
			r.Viol = "the other spelling is not accepted: " + err.Error()
			return r
		}
		if t, none, err := sut.Diff(x, y); err != nil || !none {
			r.Viol = fmt.Sprintf("a difference is reported: %s %v", one(t), err)
			return r
		}
		if t, none, err := sut.Diff(y, x); err != nil || !none {
			r.Viol = fmt.Sprintf("a difference is reported (reverse): %s %v", one(t), err)
			return r
		}
		r.Trans = 2
		for _, th := range third {
			z, err := sut.Parse(d, th.text)
			if err != nil {
				continue
			}
			for k := 0; k < 2; k++ {
				var t1, t2 string
				var e1, e2 error
				if k == 0 {
					t1, _, e1 = sut.Diff(x, z)
					t2, _, e2 = sut.Diff(y, z)
				} else {
					t1, _, e1 = sut.Diff(z, x)
					t2, _, e2 = sut.Diff(z, y)
				}
				r.Trans++
				if (e1 == nil) != (e2 == nil) || canonText(d, t1) != canonText(d, t2) {
					r.Viol = fmt.Sprintf("the migration against a third schema differs: %s <> %s", one(t1), one(t2))
					return r
				}
			}
		}
		return r
	})
}

// smallTexts leaves out the texts whose size is their point.
func smallTexts(f alpha.Family) []string {
	var out []string
	for _, t := range f.Texts {
		if len(t) < 600 {
			out = append(out, t)
		}
	}
	return out
}
