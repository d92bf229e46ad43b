package main

import (
	"fmt"
	"strings"

	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/alpha"
	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/core"
	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/model"
	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/sut"
)

func vocab(d D, thorough bool) []string {
	v := strings.Fields("CREATE TABLE INDEX UNIQUE PRIMARY KEY FOREIGN REFERENCES CONSTRAINT CHECK NOT NULL DEFAULT ON DELETE CASCADE NO ACTION IF EXISTS ALTER DROP ADD COLUMN USING ( ) , ; = t c 'x' 1 INT TEXT :: || - + * . ' \" `")
	v = append(v, "", "\"q\"", "`q`", "''", "--", "VARCHAR(1)", "NUMERIC(1,", "\x00", "日本", "%s")
	switch d {
	case model.PG:
		v = append(v, "INTEGER", "TIMESTAMP", "WITH", "DOUBLE", "CHARACTER", "VARYING")
	case model.CR:
		v = append(v, "STRING", "VISIBLE", "AS", "STORED", "ASC", "DESC", "WITH", ":::", "INT8")
	case model.MY:
		v = append(v, "CHARACTER", "SET", "COLLATE", "AUTO_INCREMENT", "COMMENT", "ENGINE", "CHARSET", "DESC", "ENUM", "BIGINT")
	case model.SP:
		v = append(v, "INT64", "STRING(MAX)", "STRING", "OPTIONS", "INTERLEAVE", "PARENT", "ROW", "DELETION", "POLICY", "DESC")
	}
	return v
}

// core2 is the vocabulary of the longest sequences.
func core2(d D) []string {
	v := strings.Fields("INDEX UNIQUE PRIMARY KEY REFERENCES CONSTRAINT CHECK NOT NULL DEFAULT ON ( ) , t 'x' = :: ")
	return append(v, alpha.Vocs[d].Int, "'", "--")
}

func contexts(d D) []string {
	ty := alpha.Vocs[d].Int
	cs := []string{"", "CREATE ", "CREATE TABLE ", "CREATE TABLE t ", "CREATE TABLE t ( ", "CREATE TABLE t ( c ", "CREATE TABLE t ( c " + ty + " ", "CREATE TABLE t ( c " + ty + " DEFAULT ", "CREATE TABLE t ( c " + ty + " REFERENCES ",
		"CREATE TABLE t ( c " + ty + " REFERENCES p ( id ) ", "CREATE TABLE t ( c " + ty + " CHECK ", "CREATE TABLE t ( c " + ty + " , ", "CREATE TABLE t ( c " + ty + " , CONSTRAINT k ", "CREATE TABLE t ( c " + ty + " , PRIMARY KEY ( ",
		"CREATE TABLE t ( c " + ty + " , FOREIGN KEY ( c ) ", "CREATE TABLE t ( c " + ty + " , FOREIGN KEY ( c ) REFERENCES p ", "CREATE TABLE t ( c " + ty + " , FOREIGN KEY ( c ) REFERENCES p ( id ) ", "CREATE TABLE t ( c " + ty + " , UNIQUE ", "CREATE TABLE t ( c " + ty + " ) ",
		"CREATE TABLE t ( c " + ty + " ) ; ", "CREATE INDEX ", "CREATE INDEX i ", "CREATE INDEX i ON t ", "CREATE UNIQUE INDEX i ON t ( ", "CREATE INDEX i ON t USING "}
	switch d {
	case model.MY:
		cs = append(cs, "CREATE TABLE t ( c VARCHAR(1) CHARACTER ", "CREATE TABLE t ( c INT ON ", "CREATE TABLE t ( c INT COMMENT ", "CREATE TABLE t ( c INT , UNIQUE KEY u ", "CREATE TABLE t ( c INT , KEY ", "CREATE TABLE t ( c INT ) ENGINE ", "CREATE TABLE t ( c INT ) COMMENT = ", "CREATE TABLE t ( c INT ) DEFAULT ", "CREATE TABLE t ( c ENUM ")
	case model.SP:
		cs = append(cs, "CREATE TABLE t ( c INT64 ) PRIMARY ", "CREATE TABLE t ( c INT64 ) PRIMARY KEY ( c ) ", "CREATE TABLE t ( c INT64 ) PRIMARY KEY ( c ) , INTERLEAVE ", "CREATE TABLE t ( c INT64 ) PRIMARY KEY ( c ) , ROW ", "CREATE TABLE t ( c TIMESTAMP OPTIONS ")
	case model.CR:
		cs = append(cs, "CREATE TABLE t ( c INT8 NOT ", "CREATE TABLE t ( c INT8 AS ", "CREATE TABLE t ( c INT8 , UNIQUE INDEX u ", "CREATE TABLE t ( c INT8 , INDEX u ( c ) ", "CREATE TABLE t ( c INT8 , INDEX u ( c ) USING ")
	}
	return cs
}

// total runs the whole pipeline on one text; it returns a class, or a violation by panicking.
func total(d D, text string, ref *sut.Doc) (class string, viol string) {
	defer func() {
		if p := recover(); p != nil {
			class, viol = "panic", fmt.Sprintf("panic: %v", p)
		}
	}()
	doc, err := sut.Parse(d, text)
	if err != nil {
		return "rejected", ""
	}
	_ = doc.String()
	none := sut.Nil(d)
	for k := 0; k < 4; k++ {
		a, b := doc, none
		switch k {
		case 1:
			a, b = none, doc
		case 2:
			a, b = doc, ref
		case 3:
			a, b = ref, doc
		}
		_, _, _ = sut.Diff(a, b)
	}
	if _, nd, err := sut.Diff(doc, doc); err == nil && !nd {
		return "accepted", ""
	}
	return "accepted", ""
}

// bulk explores a generated set of texts as one case; the first failing text is the counterexample.
func bulk(c *core.Ctx, d D, label string, ref string, gen func(emit func(string))) {
	c.Do(string(d)+": "+label, func() core.Result {
		r := core.Result{Trace: true}
		pr := core.Track(string(d) + ": " + label)
		rd, err := sut.Parse(d, ref)
		if err != nil {
			return core.Result{Viol: "reference not accepted: " + err.Error()}
		}
		acc, rej := 0, 0
		gen(func(t string) {
			if r.Viol != "" {
				return
			}
			pr.At(t)
			cl, v := total(d, t, rd)
			r.Trans++
			if cl == "accepted" {
				acc++
				if len(r.States) < 50 {
					r.States = append(r.States, string(d)+t)
				}
			} else {
				rej++
			}
			if v != "" {
				r.Viol = v
				r.Detail = fmt.Sprintf("text: %q", t)
			}
		})
		r.Outcome = fmt.Sprintf("accepted>0:%v rejected>0:%v", acc > 0, rej > 0)
		return r
	})
}

func c01(c *core.Ctx) {
	sut.Quiet()
	c.Rule = "all token sequences of length <=2 over the whole vocabulary and <=3 over its core (thorough: 3 and 4) after every grammatical context, all quote/comment character strings of length <=6 in 5 positions, and for every schema of the alphabets: truncation at every byte, deletion, duplication, swap of every token, substitution of every token by every word of the vocabulary"
	depth := 1
	if c.Thorough() {
		depth = 2
	}
	for _, d := range model.Dialects {
		d := d
		ref := alpha.P(d) + alpha.T(d, "t", "c "+alpha.Vocs[d].Int, "id "+alpha.Vocs[d].Big)
		voc := vocab(d, c.Thorough())
		small := core2(d)
		c.Family(string(d) + ": token sequences")
		for _, cx := range contexts(d) {
			for _, w1 := range voc {
				bulk(c, d, fmt.Sprintf("tokens after %q %q", cx, w1), ref, func(emit func(string)) { seqs(cx+w1, voc, depth, emit) })
			}
			for _, w1 := range small {
				if !c.Thorough() {
					bulk(c, d, fmt.Sprintf("core tokens after %q %q", cx, w1), ref, func(emit func(string)) { seqs(cx+w1, small, depth+1, emit) })
					continue
				}
				for _, w2 := range small {
					bulk(c, d, fmt.Sprintf("core tokens after %q %q %q", cx, w1, w2), ref, func(emit func(string)) { seqs(cx+w1+" "+w2, small, depth, emit) })
				}
			}
		}
		c.Family(string(d) + ": quotes and comments")
		chars := []string{"'", "\"", "`", "\\", "-", "a", "\n", " ", ";", "/", "*", "#", ")"}
		n := 4
		if c.Thorough() {
			n = 5
		}
		ty := alpha.Vocs[d].Lng
		for _, cx := range []string{"", "CREATE TABLE ", "CREATE TABLE t (c " + ty + " DEFAULT ", "CREATE TABLE t (", "CREATE TABLE t (c " + ty + ") ", "CREATE INDEX i ON t ("} {
			for _, a := range chars {
				bulk(c, d, fmt.Sprintf("characters after %q %q", cx, a), ref, func(emit func(string)) { strs(cx+a, chars, n-1, emit) })
			}
		}
		for _, f := range alpha.All(d, false) {
			c.Family(string(d) + ": mutations of " + f.Name)
			ts := smallTexts(f)
			if !c.Thorough() {
				ts = pick(ts, 8)
			}
			for _, s := range load(d, ts) {
				text := s.text
				if text == "" {
					continue
				}
				bulk(c, d, "mutations of "+one(text), text, func(emit func(string)) { mutations(d, text, voc, emit) })
			}
		}
	}
}

func seqs(prefix string, voc []string, n int, emit func(string)) {
	emit(prefix)
	if n == 0 {
		return
	}
	for _, w := range voc {
		seqs(prefix+" "+w, voc, n-1, emit)
	}
}

func strs(prefix string, cs []string, n int, emit func(string)) {
	emit(prefix)
	if n == 0 {
		return
	}
	for _, w := range cs {
		strs(prefix+w, cs, n-1, emit)
	}
}

func mutations(d D, text string, voc []string, emit func(string)) {
	emit(text)
	for i := range text {
		emit(text[:i])
		emit(text[i:])
		emit(text[:i] + text[i+1:])
		for _, q := range []string{"'", "\"", "`", "(", ")", ";", ",", "--"} {
			emit(text[:i] + q + text[i:])
		}
	}
	ts, _ := model.Lex(d, text)
	sp := func(int) string { return " " }
	for i := range ts {
		emit(join(append(append([]model.Tok{}, ts[:i]...), ts[i+1:]...), sp))
		emit(join(append(append([]model.Tok{}, ts[:i+1]...), ts[i:]...), sp))
		if i > 0 {
			us := append([]model.Tok{}, ts...)
			us[i], us[i-1] = us[i-1], us[i]
			emit(join(us, sp))
		}
		for _, w := range voc {
			us := append([]model.Tok{}, ts...)
			us[i].Raw = w
			emit(join(us, sp))
		}
	}
}
