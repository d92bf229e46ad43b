package main

import (
	"fmt"
	"strings"

	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/core"
	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/model"
)

type consent struct {
	name string
	args []string
	env  map[string]string
	yes  bool
}

var consents = []consent{
	{name: "none"},
	{name: "flag", args: []string{"--auto-approve"}, yes: true},
	{name: "flag=true", args: []string{"--auto-approve=true"}, yes: true},
	{name: "flag=false", args: []string{"--auto-approve=false"}},
	{name: "env=true", env: map[string]string{"DDLCTL_AUTO_APPROVE": "true"}, yes: true},
	{name: "env=false", env: map[string]string{"DDLCTL_AUTO_APPROVE": "false"}},
	{name: "env=0", env: map[string]string{"DDLCTL_AUTO_APPROVE": "0"}},
	{name: "env=true flag=false", args: []string{"--auto-approve=false"}, env: map[string]string{"DDLCTL_AUTO_APPROVE": "true"}},
	{name: "env=false flag", args: []string{"--auto-approve"}, env: map[string]string{"DDLCTL_AUTO_APPROVE": "false"}, yes: true},
}

// answers: all texts up to a length, and special ones.
func answers(n int) []string {
	sym := []string{"y", "e", "s", "Y", "n", "o", " ", "\n", "\r", "\t"}
	out := []string{""}
	level := []string{""}
	for i := 0; i < n; i++ {
		var next []string
		for _, p := range level {
			for _, s := range sym {
				next = append(next, p+s)
			}
		}
		out = append(out, next...)
		level = next
	}
	for _, a := range []string{"yes", "YES", "Yes", "yES", "yes!", "yess", "'yes'", "\"yes\"", "y\x00es", "yes\x00", "\ufeffyes", "yes\u00a0", "ｙｅｓ", "yes please", "true", "1", "ok", "no", "yesyes", " yes", "yes ", "\tyes", "\vyes", "yes\v", strings.Repeat("y", 70000), strings.Repeat(" ", 70000) + "yes", "yes" + strings.Repeat(" ", 70000)} {
		out = append(out, a, a+"\n", a+"\r\n", a+"\nno\n", "\n"+a+"\n", "no\n"+a+"\n")
	}
	return out
}

// approves: yes, no, or left open (a carriage return ends the line of a terminal of another system).
func approves(a string) (yes, open bool) {
	line := a
	if i := strings.IndexByte(a, '\n'); i >= 0 {
		line = a[:i]
	}
	return line == "yes", line == "yes\r"
}

func c10(c *core.Ctx) {
	c.Rule = "the apply command under every answer (all texts up to the stated length over {y,e,s,Y,n,o,space,newline,CR,tab} and special ones), end of input, unreadable input and every combination of the flag and the environment variable, for an empty, a one-statement and longer migrations; the statements on the screen must be complete before an answer is possible, and nothing reaches the database without approval"
	n := 3
	if c.Thorough() {
		n = 4
	}
	for di, d := range model.Dialects {
		d := d
		ss := scens(d)
		one := ss[:2]
		if c.Thorough() {
			one = ss
		}
		c.Family("answers")
		for si, s := range one {
			as := answers(n)
			if !c.Thorough() && (di+si)%2 == 1 {
				as = answers(2)
			}
			for _, a := range as {
				s, a := s, a
				key := fmt.Sprintf("answer %q to %s on %s", clip(a, 40)+fmt.Sprint(len(a)), s.name, d)
				c.Do(key, func() core.Result { return approvalCase(s, consents[0], "", a) })
			}
		}
		c.Family("approval by flag and environment")
		for _, s := range ss {
			for _, con := range consents {
				for _, kind := range []string{"", "closed", "dir", "hang"} {
					for _, a := range []string{"", "yes\n", "no\n", "yes", "y\n"} {
						if kind != "" && a != "" || kind == "hang" && !con.yes {
							continue
						}
						s, con, kind, a := s, con, kind, a
						key := fmt.Sprintf("consent %s stdin=%s answer %q to %s on %s", con.name, kind, a, s.name, d)
						c.Do(key, func() core.Result { return approvalCase(s, con, kind, a) })
					}
				}
			}
		}
		c.Family("empty migrations")
		for _, s := range ss {
			for _, con := range consents {
				for _, kind := range []string{"", "closed", "dir", "hang"} {
					e := scen{"nothing: " + s.name, d, s.want, s.want}
					con, kind := con, kind
					key := fmt.Sprintf("consent %s stdin=%s to %s on %s", con.name, kind, e.name, d)
					c.Do(key, func() core.Result { return emptyCase(e, con, kind) })
				}
			}
		}
	}
}

func approvalCase(s scen, con consent, kind, answer string) core.Result {
	p, why := getPlan(s)
	if p == nil {
		return skip(why)
	}
	if len(p.stmts) == 0 {
		return skip("nothing to do")
	}
	j := &Job{Args: applyArgs(s.d, con.args...), Env: con.env, Files: map[string]string{targetFile: s.want}, DBs: map[string]DBSpec{dsn[s.d]: {D: s.d, Text: s.db}},
		Stdin: answer, Kind: kind, Expect: p.want()}
	r := pool.Run(j)
	if v := abnormal(r); v != "" {
		return viol("%s", v)
	}
	yes, open := approves(answer)
	if kind != "" {
		yes, open = false, false
	}
	yes = yes || con.yes
	ex := r.execs(dsn[s.d])
	res := core.Result{Outcome: fmt.Sprintf("%s yes=%v open=%v execs=%d err=%v", s.d, yes, open, len(ex), r.Err != ""), States: []string{fmt.Sprint(string(s.d), s.name, con.name, kind, yes)}, Trans: len(r.Log), Trace: true}
	bad := func(f string, a ...any) core.Result {
		res.Viol = fmt.Sprintf(f, a...)
		res.Detail = fmt.Sprintf("migration:\n%s\nscreen:\n%s\nerr: %s\nlog: %s", p.out, r.Out, r.Err, history(r))
		return res
	}
	if len(ex) > 0 && !yes && !open {
		return bad("executes %q without approval", clip(ex[0].Text, 120))
	}
	if len(ex) > 0 && !con.yes && kind == "" && !ex[0].Ans {
		return bad("executes %q before the answer is given", clip(ex[0].Text, 120))
	}
	if yes && len(ex) == 0 && r.Err == "" {
		return bad("approved, but nothing is executed and no error is reported")
	}
	if r.Early {
		return bad("the answer is asked for before the whole migration is shown")
	}
	if len(ex) > 0 && !shown(r.Out[:min(ex[0].Out, len(r.Out))], p.want()) {
		return bad("executes before the whole migration is shown")
	}
	if !yes && !open && r.Err == "" {
		return bad("not approved, but success is reported")
	}
	return res
}

func emptyCase(s scen, con consent, kind string) core.Result {
	p, why := getPlan(s)
	if p == nil {
		return skip(why)
	}
	if len(p.stmts) > 0 {
		return skip("the database does not report the schema as written")
	}
	j := &Job{Args: applyArgs(s.d, con.args...), Env: con.env, Files: map[string]string{targetFile: s.want}, DBs: map[string]DBSpec{dsn[s.d]: {D: s.d, Text: s.db}}, Kind: kind}
	r := pool.Run(j)
	if r.Hang {
		return viol("an empty migration waits for an answer")
	}
	if v := abnormal(r); v != "" {
		return viol("%s", v)
	}
	res := core.Result{Outcome: fmt.Sprintf("%s empty err=%v", s.d, r.Err != ""), States: []string{fmt.Sprint(string(s.d), s.name, con.name, kind)}, Trans: len(r.Log), Trace: true}
	ex := r.execs(dsn[s.d])
	if len(ex) > 0 {
		res.Viol = fmt.Sprintf("an empty migration executes %q", clip(ex[0].Text, 120))
	} else if r.Err != "" {
		res.Viol = "an empty migration fails: " + r.Err
	}
	if res.Viol != "" {
		res.Detail = fmt.Sprintf("screen:\n%s\nlog: %s", r.Out, history(r))
	}
	return res
}
