package main

import (
	"fmt"
	"strings"

	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/alpha"
	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/core"
	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/model"
	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/sut"
)

// renames: the table-level diff between two tables of different names.
func renames(c *core.Ctx) {
	for _, d := range model.Dialects {
		c.Family(string(d) + ": renamed tables")
		v := alpha.Vocs[d]
		bodies := [][]string{
			{"id " + v.Int + " NOT NULL", "a " + v.Int},
			{"id " + v.Int + " NOT NULL", "a " + v.Big},
			{"id " + v.Int + " NOT NULL", "b " + v.Int + " NOT NULL"},
		}
		switch d {
		case model.PG:
			bodies = append(bodies, []string{"id " + v.Int + " NOT NULL", "a " + v.Int, "CONSTRAINT u UNIQUE (a)"}, []string{"id " + v.Int + " NOT NULL", "a " + v.Int, "CONSTRAINT u UNIQUE (id)"})
		case model.CR:
			bodies = append(bodies, []string{"id " + v.Int + " NOT NULL", "a " + v.Int, "CONSTRAINT f FOREIGN KEY (a) REFERENCES p (id)"})
		case model.MY:
			bodies = append(bodies, []string{"id " + v.Int + " NOT NULL", "a " + v.Int, "CONSTRAINT k CHECK (a > 0)"}, []string{"id " + v.Int + " NOT NULL", "a " + v.Int, "CONSTRAINT k CHECK (a > 1)"})
		case model.SP:
			bodies = append(bodies, []string{"id " + v.Int + " NOT NULL", "a " + v.Int, "CONSTRAINT k CHECK (a > 0)"})
		}
		names := []string{"t", "t2", "s1.t", "s1.t2"}
		for _, n1 := range names {
			for _, n2 := range names {
				if strings.Contains(n1, ".") != strings.Contains(n2, ".") {
					continue // an unqualified target inherits the schema: its own meaning, not a rename
				}
				for _, b1 := range bodies {
					for _, b2 := range bodies {
						a, b := load(d, []string{alpha.T(d, n1, b1...)})[0], load(d, []string{alpha.T(d, n2, b2...)})[0]
						key := fmt.Sprintf("%s: table diff %s ==> %s", d, one(a.text), one(b.text))
						c.Do(key, func() core.Result {
							x, err := sut.Parse(d, a.text)
							if err != nil {
								return core.Result{Viol: "not accepted: " + err.Error()}
							}
							y, err := sut.Parse(d, b.text)
							if err != nil {
								return core.Result{Viol: "not accepted: " + err.Error()}
							}
							r := core.Result{Trace: true}
							text, none, err := sut.DiffTables(x, y, false)
							r.Detail = "migration: " + text
							if err != nil {
								r.Viol = "table diff fails: " + err.Error()
								return r
							}
							p := &pair{d: d, a: a, b: b, text: text, none: none}
							if p.stmts, err = model.ReadStmts(d, text); err != nil {
								r.Viol = "not readable: " + err.Error()
								return r
							}
							r.Outcome = outcome(p)
							r.Trans = len(p.stmts)
							if none && strings.Join(a.m.Facts(false), "\n") != strings.Join(b.m.Facts(false), "\n") {
								r.Viol = "no difference reported"
								return r
							}
							judgeC04(p, &r)
							return r
						})
					}
				}
			}
		}
	}
}

// chains: explicit-state exploration. A state is a database schema; from every reached state the
// migration towards every target of a family is computed from the text of the state (as a database
// would show it, with the column order it really has) and executed.
func chains(c *core.Ctx) {
	depth, width := 2, 8
	if c.Thorough() {
		depth, width = 3, 12
	}
	for _, d := range model.Dialects {
		for _, f := range alpha.All(d, false) {
			c.Family(string(d) + ": chains over " + f.Name)
			ss := load(d, pick(f.Texts, width))
			type node struct {
				m    *model.Schema
				path string
			}
			seen := map[string]bool{}
			level := []node{{&model.Schema{D: d}, "<empty>"}}
			for dep := 0; dep < depth && !expired(c); dep++ {
				var next []node
				for _, n := range level {
					for i := range ss {
						t := ss[i]
						cur, path := n, n.path+" -> "+one(t.text)
						from := schema{text: model.Render(cur.m), m: cur.m}
						from.val = cur.m.Valid()
						c.Do(string(d)+": chain "+path, func() core.Result {
							p := eval(d, from, t, false, false)
							r := core.Result{Trace: true, Trans: len(p.stmts), Outcome: outcome(p), Detail: "state: " + one(from.text) + " migration: " + p.text}
							if p.bad != "" {
								r.Viol = p.bad
								return r
							}
							judgeC04(p, &r)
							return r
						})
						// successor state according to the model (the implementation is judged above)
						func() {
							defer func() { _ = recover() }()
							p := eval(d, from, t, false, false)
							if p.bad != "" {
								return
							}
							g := from.m.Clone()
							for _, s := range p.stmts {
								if g.Exec(s, false) != nil {
									return
								}
							}
							if k := g.Canon(true); !seen[k] {
								seen[k] = true
								next = append(next, node{g, path})
							}
						}()
					}
				}
				level = next
			}
		}
	}
}

func expired(c *core.Ctx) bool { return c.Expired() }

// pick takes every len/n-th element, the first and the last.
func pick(ts []string, n int) []string {
	if len(ts) <= n {
		return ts
	}
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, ts[i*(len(ts)-1)/(n-1)])
	}
	return out
}
