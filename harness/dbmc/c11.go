package main

import (
	"fmt"
	"strings"

	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/alpha"
	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/core"
	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/model"
)

// words lists all sequences of at most n symbols.
func words(sym []string, n int) []string {
	out := []string{""}
	level := []string{""}
	for i := 0; i < n; i++ {
		var next []string
		for _, p := range level {
			for _, s := range sym {
				next = append(next, p+s)
			}
		}
		out = append(out, next...)
		level = next
	}
	return out
}

// places are the positions of a literal or name in a schema text.
func places(d D, lit string) map[string]string {
	v := alpha.Vocs[d]
	id := "id " + v.Int + " NOT NULL"
	z := "z " + v.Int
	q := "'" + lit + "'"
	out := map[string]string{}
	// after the table with the literal comes another one and an index: what follows must survive
	rest := alpha.T(d, "u", id, "b "+v.Int) + "CREATE INDEX j ON u (b);\n"
	str := v.Str
	if d == model.PG || d == model.CR {
		str = v.Lng
	}
	switch d {
	case model.SP:
		out["default"] = alpha.T(d, "t", id, "c "+str+" DEFAULT ("+q+")", z) + rest
		out["check"] = alpha.T(d, "t", id, "c "+str, "CONSTRAINT k CHECK (c <> "+q+")") + rest
	case model.MY:
		out["default"] = alpha.T(d, "t", id, "c "+str+" DEFAULT "+q, z) + rest
		out["comment"] = alpha.T(d, "t", id, "c "+str+" COMMENT "+q, z) + rest
		out["table comment"] = alpha.TO(d, "t", " ENGINE=InnoDB COMMENT="+q, id, z) + rest
		out["check"] = alpha.T(d, "t", id, "c "+str, "CONSTRAINT k CHECK (c <> "+q+")") + rest
	default:
		out["default"] = alpha.T(d, "t", id, "c "+str+" DEFAULT "+q, z) + rest
		out["check"] = alpha.T(d, "t", id, "c "+str+" CHECK (c <> "+q+")", z) + rest
	}
	iq := `"`
	if d == model.MY || d == model.SP {
		iq = "`"
	}
	if lit != "" && !strings.Contains(lit, "''") && !strings.Contains(lit, iq) && !strings.Contains(lit, "\\") {
		out["column"] = alpha.T(d, "t", id, iq+lit+iq+" "+v.Int, z) + rest
		out["index"] = rest + "CREATE INDEX " + iq + lit + iq + " ON u (id);\n"
	}
	return out
}

func c11(c *core.Ctx) {
	c.Rule = "every migration of the alphabet (schema pairs of every family) and every text up to the stated length over {; newline -- - ' \" ` space a # /* */ backslash CR tab} inside defaults, checks, comments and quoted names, in created and in altered tables, and statements up to 1 MB: the statements that reach the database are compared, token by token, with those that were shown"
	n := 3
	if c.Thorough() {
		n = 4
	}
	for _, d := range model.Dialects {
		d := d
		sym := []string{";", "\n", "-", "--", "''", " ", "a", `"`, "`", "#", "/*", "*/", "\t", "\r", ")", ";\n"}
		if d == model.MY || d == model.SP {
			sym = append(sym, `\\`, `\'`)
		} else {
			sym = append(sym, `\`)
		}
		c.Family("literals")
		length := map[string]int{}
		for i := n; i >= 0; i-- {
			for _, lit := range words(sym, i) {
				length[lit] = i
			}
		}
		for _, lit := range words(sym, n) {
			for where, text := range places(d, lit) {
				if where != "default" && where != "comment" && length[lit] >= n {
					continue
				}
				s := scen{where, d, "", local(d, text)}
				c.Do(fmt.Sprintf("literal %q in %s on %s", lit, where, d), func() core.Result { return sendCase(s, true) })
			}
		}
		c.Family("changed literals")
		base := places(d, "a")
		for _, lit := range words(sym, 2) {
			for where, text := range places(d, lit) {
				if base[where] == "" {
					continue
				}
				for _, back := range []bool{false, true} {
					s := scen{where, d, local(d, base[where]), local(d, text)}
					if back {
						s.db, s.want = s.want, s.db
					}
					c.Do(fmt.Sprintf("literal %q in %s on %s, changed back=%v", lit, where, d, back), func() core.Result { return sendCase(s, true) })
				}
			}
		}
		c.Family("long statements")
		for _, size := range []int{4000, 60000, 65400, 65535, 65536, 65537, 70000, 200000, 1000000} {
			for where, text := range places(d, strings.Repeat("x", size)) {
				s := scen{where, d, "", local(d, text)}
				c.Do(fmt.Sprintf("literal of %d in %s on %s", size, where, d), func() core.Result { return sendCase(s, true) })
			}
			if size <= 70000 {
				for where, text := range places(d, strings.Repeat("x\n", size/2)) {
					s := scen{where, d, "", local(d, text)}
					c.Do(fmt.Sprintf("literal of %d lines in %s on %s", size/2, where, d), func() core.Result { return sendCase(s, true) })
				}
			}
		}
		for _, nt := range []int{50, 400} {
			var b strings.Builder
			for i := 0; i < nt; i++ {
				b.WriteString(alpha.T(d, fmt.Sprintf("t%03d", i), "id "+alpha.Vocs[d].Int+" NOT NULL", "c "+alpha.Vocs[d].Int))
			}
			s := scen{"many", d, "", local(d, b.String())}
			c.Do(fmt.Sprintf("%d tables on %s", nt, d), func() core.Result { return sendCase(s, true) })
		}
		c.Family("others change what was shown")
		for _, s := range append(scens(d), moreScens(d)...) {
			for _, others := range []string{"", s.want, local(d, alpha.T(d, "zz", "id "+alpha.Vocs[d].Int+" NOT NULL"))} {
				for _, mode := range []int{0, 1} {
					s, others, mode := s, others, mode
					c.Do(fmt.Sprintf("%s %s meanwhile %d %q", d, s.name, mode, others), func() core.Result { return sendMeanwhile(s, others, mode) })
				}
			}
		}
		c.Family("schema pairs")
		for _, f := range alpha.All(d, c.Thorough()) {
			w := 10
			if c.Thorough() {
				w = 40
			}
			ts := append([]string{""}, pick(f.Texts, w)...)
			for i, a := range ts {
				for k, b := range ts {
					if i == k || k == 0 && i > 3 {
						continue
					}
					s := scen{f.Name, d, local(d, a), local(d, b)}
					c.Do(fmt.Sprintf("%s: %q ==> %q", d, a, b), func() core.Result { return sendCase(s, true) })
				}
			}
		}
	}
}

func pick(ts []string, n int) []string {
	if len(ts) <= n {
		return ts
	}
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, ts[i*(len(ts)-1)/(n-1)])
	}
	return out
}

// sendMeanwhile: what has been shown is sent, whatever others do after it was shown.
func sendMeanwhile(s scen, others string, mode int) core.Result {
	return sendJob(s, true, Job{Args: applyArgs(s.d, "--auto-approve"), Meanwhile: &Change{DBs: map[string]string{dsn[s.d]: others}, Files: map[string]string{targetFile: others}}}, mode)
}

// sendCase: no fault; what is sent is what is shown.
func sendCase(s scen, accept bool) core.Result {
	return sendJob(s, accept, Job{Args: applyArgs(s.d, "--auto-approve")}, 0)
}

func sendJob(s scen, accept bool, then Job, mode int) core.Result {
	switch mode {
	case 1:
		p, why := getPlan(s)
		if p == nil {
			return skip(why)
		}
		then.Args, then.Stdin, then.Expect = applyArgs(s.d), "yes\n", p.want()
	}
	spec := DBSpec{D: s.d, Text: s.db, Accept: accept}
	files := map[string]string{targetFile: s.want}
	j := &Job{Args: diffJob(s).Args, Files: files, DBs: map[string]DBSpec{dsn[s.d]: spec}, Then: []Job{then}}
	r := pool.Run(j)
	if v := abnormal(r); v != "" {
		return viol("%s", v)
	}
	p, why := planOf(r, s.d)
	if p == nil {
		if len(r.Then) == 1 && r.Err != "" && len(r.Then[0].execs(dsn[s.d])) > 0 {
			return viol("diff fails but apply executes: %s", why)
		}
		if strings.HasPrefix(why, "diff reports") && len(s.db) == 0 && strings.Contains(s.name, "many") {
			return viol("%s", why)
		}
		if strings.HasPrefix(why, "the migration is no") {
			return viol("%s", why)
		}
		return skip(why)
	}
	a := &r.Then[0]
	if v := abnormal(a); v != "" {
		return viol("%s", v)
	}
	res := core.Result{Outcome: fmt.Sprintf("%s stmts=%d", s.d, min(len(p.stmts), 20)), States: []string{string(s.d) + clip(p.out, 4000)}, Trans: len(a.Log), Trace: true}
	bad := func(f string, x ...any) core.Result {
		res.Viol = fmt.Sprintf(f, x...)
		res.Detail = fmt.Sprintf("migration:\n%s\nscreen:\n%s\nerr: %s\nlog: %s", clip(p.out, 2000), clip(a.Out, 3000), a.Err, history(a))
		return res
	}
	if !shown(a.Out, p.want()) {
		return bad("apply does not show the migration that diff shows")
	}
	got, why := sent(s.d, a.execs(dsn[s.d]))
	if why != "" {
		return bad("%s", why)
	}
	if why := sameStmts(got, p.stmts); why != "" {
		return bad("%s", why)
	}
	if a.Err != "" {
		return bad("every statement was accepted but apply fails: %s", a.Err)
	}
	return res
}
