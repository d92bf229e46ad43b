package main

import (
	"fmt"
	"strings"

	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/alpha"
	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/core"
	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/model"
	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/sut"
)

// sameMeaning: both directions must report no difference.
func sameMeaning(c *core.Ctx, d D, what, a, b string) {
	c.Do(fmt.Sprintf("%s: %s: %s <=> %s", d, what, one(a), one(b)), func() core.Result {
		r := core.Result{Trace: true}
		x, err := sut.Parse(d, a)
		if err != nil {
			return core.Result{Outcome: "rejected", Viol: "first spelling is not accepted: " + err.Error()}
		}
		y, err := sut.Parse(d, b)
		if err != nil {
			return core.Result{Outcome: "rejected", Viol: "second spelling is not accepted: " + err.Error()}
		}
		t1, n1, e1 := sut.Diff(x, y)
		t2, n2, e2 := sut.Diff(y, x)
		switch {
		case e1 != nil || e2 != nil:
			r.Viol = fmt.Sprintf("diff fails: %v %v", e1, e2)
		case !n1:
			r.Viol = "difference reported from the first to the second: " + one(t1)
		case !n2:
			r.Viol = "difference reported from the second to the first: " + one(t2)
		}
		r.Outcome = what
		return r
	})
}

func permutations(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var out [][]int
	for _, p := range permutations(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int{}, p[:i]...), n-1), p[i:]...)
			out = append(out, q)
		}
	}
	return out
}

// equivalents: spellings of the same schema: every order of statements, columns and constraints,
// inline and table-level constraints, synonyms of types, and the model's own rendering.
func equivalents(c *core.Ctx) {
	for _, d := range model.Dialects {
		c.Family(string(d) + ": inline and table-level twins")
		for _, t := range alpha.Twins(d) {
			sameMeaning(c, d, "twin", t.A, t.B)
		}
		c.Family(string(d) + ": type synonyms")
		v := alpha.Vocs[d]
		ts := alpha.Types[d]
		for i := range ts {
			for j := i + 1; j < len(ts); j++ {
				for _, tail := range []string{"", " NOT NULL"} {
					a := alpha.T(d, "t", "id "+v.Int+" NOT NULL", "c "+ts[i]+tail)
					b := alpha.T(d, "t", "id "+v.Int+" NOT NULL", "c "+ts[j]+tail)
					if model.MustSchema(d, a).Canon(false) == model.MustSchema(d, b).Canon(false) {
						sameMeaning(c, d, "synonym", a, b)
					}
				}
			}
		}
		c.Family(string(d) + ": order of definitions")
		for _, f := range alpha.All(d, false) {
			for _, s := range load(d, f.Texts) {
				if len(s.text) > 1400 {
					continue
				}
				perms(c, d, s)
			}
		}
		c.Family(string(d) + ": canonical rendering")
		for _, f := range alpha.All(d, false) {
			for _, s := range load(d, f.Texts) {
				sameMeaning(c, d, "rendering", s.text, model.Render(s.m))
			}
		}
	}
}

func perms(c *core.Ctx, d D, s schema) {
	base := model.Render(s.m)
	// statements in every order (at most 4)
	sts := strings.SplitAfter(strings.TrimRight(base, "\n"), ";\n")
	if n := len(sts); n > 1 && n <= 4 {
		for _, p := range permutations(n) {
			var b strings.Builder
			for _, i := range p {
				b.WriteString(strings.TrimRight(sts[i], "\n") + "\n")
			}
			sameMeaning(c, d, "statement order", base, b.String())
		}
	}
	for ti, t := range s.m.Tables {
		if n := len(t.Cons); n > 1 && n <= 4 {
			for _, p := range permutations(n) {
				m := s.m.Clone()
				for i, k := range p {
					m.Tables[ti].Cons[i] = s.m.Tables[ti].Cons[k]
				}
				sameMeaning(c, d, "constraint order", base, model.Render(m))
			}
		}
		if n := len(t.Cols); n > 1 && n <= 4 {
			for _, p := range permutations(n) {
				m := s.m.Clone()
				for i, k := range p {
					m.Tables[ti].Cols[i] = s.m.Tables[ti].Cols[k]
				}
				sameMeaning(c, d, "column order", base, model.Render(m))
			}
		}
	}
}
