package main

import (
	"fmt"

	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/alpha"
	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/core"
	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/model"
	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/sut"
)

// c02: printing keeps the meaning and is a fixpoint.
func c02(c *core.Ctx) {
	c.Rule = "every schema of every family, every type with every tail, every product of one column definition with one constraint, index and option, every easily confused value (texts that read like names, numbers, keywords or operators) in every position that takes a value, schemas of 10 to 100 objects, and every clause and word of the catalogue of things that do not belong there before every token of a schema of every family"
	for _, d := range model.Dialects {
		for _, f := range alpha.All(d, true) {
			c.Family(string(d) + ": " + f.Name)
			for _, s := range load(d, f.Texts) {
				printed(c, d, s.text)
			}
		}
		for _, g := range append(alpha.Texts(d), alpha.Sizes(d, c.Thorough())...) {
			c.Family(string(d) + ": sizes: " + g.What)
			for _, s := range load(d, g.Texts) {
				printed(c, d, s.text)
			}
		}
		c.Family(string(d) + ": products")
		for _, t := range alpha.Products(d, c.Thorough()) {
			printed(c, d, t)
		}
		c.Family(string(d) + ": pairs of families in one schema")
		for _, t := range alpha.Twins(d) {
			printed(c, d, t.A)
			printed(c, d, t.B)
		}
	}
	c02lost(c)
}

func printed(c *core.Ctx, d D, text string) {
	c.Do(string(d)+": "+one(text), func() core.Result {
		want := model.MustSchema(d, text)
		r := core.Result{Trace: true, States: []string{string(d) + want.Canon(true)}}
		doc, err := sut.Parse(d, text)
		if err != nil {
			r.Outcome = "rejected"
			r.Viol = "a supported definition is rejected: " + err.Error()
			return r
		}
		out := doc.String()
		r.Detail = "printed: " + out
		r.Outcome = fmt.Sprintf("%s: %d tables, %d indexes, %d facts", d, len(want.Tables), len(want.Indexes), len(want.Facts(true)))
		got, err := model.ReadSchema(d, out)
		if err != nil {
			r.Viol = "the printed text is not readable: " + err.Error()
			return r
		}
		if diff := model.DiffFacts(got.Facts(true), want.Facts(true)); diff != "" {
			r.Viol = "printing alters the schema: " + diff
			return r
		}
		again, err := sut.Parse(d, out)
		if err != nil {
			r.Viol = "the tool does not read its own output: " + err.Error()
			return r
		}
		if s := again.String(); s != out {
			r.Viol = "printing is not stable: " + s
			return r
		}
		if _, none, err := sut.Diff(doc, again); err != nil || !none {
			r.Viol = "the printed text is not the same schema to the tool itself"
		}
		return r
	})
}
