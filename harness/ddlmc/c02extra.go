package main

import (
	"fmt"
	"slices"
	"strings"

	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/alpha"
	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/core"
	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/model"
	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/sut"
)

// snippets are put where they have not been expected: words of no meaning, and clauses of the databases that the tool does not represent.
// A text with one in it is rejected, or every word of it is in what is printed.
func snippets(d D) []string {
	v := []string{"zqa", "'zqb'", "987", "zqc ( zqd )", "zqe 'zqf'", "zqg = 986", "zqh.zqi", "\x00 zqj", ", zqk", "( zql )", "; zqm", "; CREATE VIEW zqn AS SELECT 985"}
	switch d {
	case model.PG:
		v = append(v, `"zqo"`, "GENERATED ALWAYS AS IDENTITY", "STORAGE PLAIN", `COLLATE "C"`, "DEFERRABLE", "INITIALLY DEFERRED", "NULLS FIRST", "INCLUDE ( zqp )", "WHERE zqq > 984", "TABLESPACE zqr", "WITH ( fillfactor = 70 )", "PARTITION BY RANGE ( zqs )", "INHERITS ( zqt )", "MATCH FULL", "ON UPDATE SET DEFAULT", "NO INHERIT", "varchar_pattern_ops", "CONCURRENTLY", "TEMPORARY", "UNLOGGED", "[ ]", "EXCLUDE USING gist ( zqu WITH & )", "IDENTITY", "LIKE zqv", "lower ( zqx )")
	case model.CR:
		v = append(v, `"zqo"`, "FAMILY zqp ( zqq )", "STORING ( zqr )", "WHERE zqs > 984", "HASH", "WITH ( zqv = 70 )", "PARTITION BY LIST ( zqt )", "LOCALITY GLOBAL", "INVERTED", "NOT VISIBLE", "NULLS FIRST", "MATCH FULL", "CREATE FAMILY zqu", "GENERATED ALWAYS AS IDENTITY", "COLLATE en", "lower ( zqx )")
	case model.MY:
		v = append(v, "`zqo`", "INVISIBLE", "ZEROFILL", "UNSIGNED", "ON UPDATE CURRENT_TIMESTAMP", "GENERATED ALWAYS AS ( zqp )", "VIRTUAL", "STORED", "COLUMN_FORMAT FIXED", "KEY_BLOCK_SIZE = 4", "USING BTREE", "FULLTEXT", "SPATIAL", "( 983 )", "ENGINE = zqq", "ROW_FORMAT = COMPACT", "PARTITION BY HASH ( zqr )", "AFTER zqs", "MATCH FULL", "NOT ENFORCED", "TEMPORARY", "AUTO_INCREMENT = 982", "( zqw ( 980 ) )")
	case model.SP:
		v = append(v, "`zqo`", "STORING ( zqp )", "NULL_FILTERED", "AS ( zqq ) STORED", "HIDDEN", "NOT ENFORCED", "INTERLEAVE IN PARENT zqr", "ON DELETE CASCADE", "ROW DELETION POLICY ( OLDER_THAN ( zqs , INTERVAL 981 DAY ) )", "SYNONYM ( zqu )", "LOCALITY GROUP zqv", "PLACEMENT KEY", "WHERE zqw IS NOT NULL", "lower ( zqx )")
	}
	return v
}

// clauses are definitions that the tool knows: where one is accepted it is in what is printed, as a whole, and nothing else is gone.
var clauses = []string{"REFERENCES zqw ( zqx )", "CHECK ( zqx > 979 )", "FOREIGN KEY ( zqy ) REFERENCES zqz ( zqw )", ", CHECK ( zqx > 979 )", ", FOREIGN KEY ( zqy ) REFERENCES zqz ( zqw )"}

// holds reports whether with has in as a whole, and every word that base or in has.
func holds(with, base, in []string) bool {
	if len(in) > 0 && in[0] == "," {
		in = in[1:]
	}
	n := map[string]int{}
	for _, w := range with {
		n[w]++
	}
	for _, ws := range [][]string{base, in} {
		for _, w := range ws {
			n[w]--
		}
	}
	{ // a check that follows becomes one of the table, with another name
		for w := range n {
			if strings.Contains(w, "_CHECK") {
				delete(n, w)
			}
		}
	}
	for w, k := range n {
		if k < 0 && strings.Trim(w, "(),;") != "" {
			return false
		}
	}
	for i := 0; i+len(in) <= len(with); i++ {
		if slices.Equal(with[i:i+len(in)], in) {
			return true
		}
	}
	return false
}

// flat is text as a sequence of tokens.
func flat(d D, text string) ([]string, error) {
	ts, err := model.Lex(d, strings.ReplaceAll(text, "\x00", " "))
	if err != nil {
		return nil, err
	}
	out := make([]string, len(ts))
	for i, t := range ts {
		out[i] = t.S
		if t.Kind == 'w' {
			out[i] = strings.ToUpper(t.S)
		}
	}
	return out, nil
}

// inserted reports whether with is base with in somewhere.
func inserted(with, base, in []string) bool {
	if len(with) != len(base)+len(in) {
		return false
	}
	for i := 0; i <= len(base); i++ {
		if slices.Equal(with[i:i+len(in)], in) && slices.Equal(with[:i], base[:i]) && slices.Equal(with[i+len(in):], base[i:]) {
			return true
		}
	}
	return false
}

// same reports whether the model reads the same schema in both texts.
func same(d D, text, printed string) bool {
	x, err := model.ReadSchema(d, text)
	if err != nil {
		return false
	}
	y, err := model.ReadSchema(d, printed)
	return err == nil && model.DiffFacts(y.Facts(true), x.Facts(true)) == ""
}

// nothingLost puts every snippet before every token of text.
func nothingLost(c *core.Ctx, d D, text string) {
	c.Do(string(d)+": something else in "+one(text), func() core.Result {
		r := core.Result{Trace: true, States: []string{string(d) + text}}
		ts, err := model.Lex(d, text)
		if err != nil {
			panic(err)
		}
		base, err := sut.Parse(d, text)
		if err != nil {
			return r
		}
		was, err := flat(d, base.String())
		if err != nil {
			return r
		}
		accepted := 0
		for k, sn := range append(append([]string{}, clauses...), snippets(d)...) {
			in, err := flat(d, sn)
			if err != nil {
				panic(sn)
			}
			if in[0] == "WITH" && strings.Contains(text, "WITH (") {
				continue // written twice
			}
			for i := 0; i <= len(ts); i++ {
				t := join(ts[:i], func(int) string { return " " }) + " " + sn + " " + join(ts[i:], func(int) string { return " " })
				r.Trans++
				doc, err := sut.Parse(d, t)
				if err != nil {
					continue
				}
				accepted++
				out := doc.String()
				is, err := flat(d, out)
				if err == nil && (inserted(is, was, in) || k < len(clauses) && holds(is, was, in)) || same(d, t, out) {
					continue
				}
				r.Viol = fmt.Sprintf("%s is accepted and not what is printed", sn)
				r.Detail = fmt.Sprintf("text: %q\nprinted: %s", t, out)
				return r
			}
		}
		r.Outcome = fmt.Sprintf("accepted>0: %v", accepted > 0)
		return r
	})
}

func c02lost(c *core.Ctx) {
	for _, d := range model.Dialects {
		for _, f := range alpha.All(d, c.Thorough()) {
			c.Family(string(d) + ": something else in " + f.Name)
			texts := smallTexts(f)
			if !c.Thorough() {
				texts = alpha.Spread(texts, 12)
			}
			for _, t := range texts {
				nothingLost(c, d, t)
			}
		}
	}
}
