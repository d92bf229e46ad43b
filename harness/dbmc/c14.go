package main

import (
	"fmt"
	"strings"
	"sync"

	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/alpha"
	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/core"
	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/model"
)

var (
	shownMu sync.Mutex
	shownAs = map[string]*Reply{}
)

// asDatabase is the text with which show reports a database of this content.
func asDatabase(d D, text string) *Reply {
	k := string(d) + text
	shownMu.Lock()
	r := shownAs[k]
	shownMu.Unlock()
	if r == nil {
		r = pool.Run(&Job{Args: []string{"show", "--dialect", string(d), dsn[d]}, DBs: map[string]DBSpec{dsn[d]: {D: d, Text: text}}})
		shownMu.Lock()
		shownAs[k] = r
		shownMu.Unlock()
	}
	return r
}

// hidden: contents show cannot report or the tool cannot read back (findings of C16).
func hidden(d D, text string) bool {
	if needsQuotes[d].MatchString(text) {
		return true
	}
	switch d {
	case model.CR:
		return strings.Contains(text, "REFERENCES")
	case model.SP:
		return strings.Contains(text, "REFERENCES") || strings.Contains(text, "CHECK") || strings.Contains(text, "INTERLEAVE")
	}
	return false
}

// raw: a form the database never reports (findings, see c14Probes).
func raw(d D, text string) bool { return d == model.PG && strings.Contains(text, "SERIAL") }

// c14Probes are targets the database is known to report differently.
func c14Probes(d D) []string {
	if d == model.PG {
		return []string{alpha.T(d, "t", "id INTEGER NOT NULL", "c SERIAL")}
	}
	return nil
}

func c14(c *core.Ctx) {
	c.Rule = "every ordered pair (and chains of three) of database contents of the families, with targets written as the database reports them and as the families write them: the real apply runs against the modelled database, then the content must be that of the target, diff must report no difference and a second apply must execute nothing"
	w := 12
	if c.Thorough() {
		w = 40
	}
	for _, d := range model.Dialects {
		d := d
		fs := alpha.All(d, c.Thorough())
		var mixed []string
		for _, f := range fs {
			var ts []string
			for _, t := range f.Texts {
				if !hidden(d, t) {
					ts = append(ts, t)
				}
			}
			mixed = append(mixed, pick(ts, 3)...)
			ts = append([]string{""}, pick(ts, w)...)
			c.Family("pairs: " + f.Name)
			for i, a := range ts {
				for k, b := range ts {
					if i == k && i > 0 {
						continue
					}
					a, b := a, b
					c.Do(fmt.Sprintf("%s: %q ==> %q", d, a, b), func() core.Result { return loopCase(d, []string{a, b}, true) })
					if !raw(d, b) {
						c.Do(fmt.Sprintf("%s: %q ==> %q as written", d, a, b), func() core.Result { return loopCase(d, []string{a, b}, false) })
					}
				}
			}
		}
		c.Family("never converges")
		for _, b := range append(c16Probes(d), c14Probes(d)...) {
			b := b
			c.Do(fmt.Sprintf("%s: %q ==> %q as written", d, "", b), func() core.Result { return loopCase(d, []string{"", b}, false) })
		}
		mixed = append([]string{""}, mixed...)
		c.Family("pairs across families")
		for _, a := range mixed {
			for _, b := range mixed {
				a, b := a, b
				c.Do(fmt.Sprintf("%s: %q ==> %q", d, a, b), func() core.Result { return loopCase(d, []string{a, b}, true) })
			}
		}
		c.Family("chains")
		few := pick(mixed, 9)
		if c.Thorough() {
			few = pick(mixed, 20)
		}
		for _, a := range few {
			for _, b := range few {
				for _, e := range few {
					seq := []string{a, b, e, a}
					c.Do(fmt.Sprintf("%s: %q", d, seq), func() core.Result { return loopCase(d, seq, true) })
				}
			}
		}
	}
}

// loopCase: from the first content to each further one.
func loopCase(d D, seq []string, report bool) core.Result {
	var want []*model.Schema
	var texts []string
	for _, t := range seq {
		t = local(d, t)
		r := asDatabase(d, t)
		if r.LoadErr != "" {
			return skip("not a database content: " + r.LoadErr)
		}
		if v := abnormal(r); v != "" {
			return viol("show: %s", v)
		}
		if r.Err != "" {
			return skip("show fails: " + r.Err)
		}
		if r.Unsup != "" {
			return skip("query outside the modelled SQL: " + r.Unsup)
		}
		want = append(want, r.Before[dsn[d]])
		if report {
			t = r.Out
		}
		texts = append(texts, t)
	}
	var j *Job
	for _, t := range texts[1:] {
		files := map[string]string{targetFile: t}
		if j == nil {
			j = &Job{Args: applyArgs(d, "--auto-approve"), Files: files, DBs: map[string]DBSpec{dsn[d]: {D: d, Text: local(d, seq[0])}}}
		} else {
			j.Then = append(j.Then, Job{Args: applyArgs(d, "--auto-approve"), Files: files})
		}
		j.Then = append(j.Then, Job{Args: []string{"diff", "--dialect", string(d), dsn[d], targetFile}}, Job{Args: applyArgs(d, "--auto-approve")})
	}
	r := pool.Run(j)
	res := core.Result{Outcome: fmt.Sprintf("%s ok", d), Trace: true}
	rs := append([]Reply{*r}, r.Then...)
	for i := range want[1:] {
		if 3*i+2 >= len(rs) {
			return viol("run ended early: %s", abnormal(&rs[len(rs)-1]))
		}
		a, df, again := &rs[3*i], &rs[3*i+1], &rs[3*i+2]
		for _, x := range []*Reply{a, df, again} {
			if v := abnormal(x); v != "" {
				return viol("%s", v)
			}
			if x.Unsup != "" {
				return skip("query outside the modelled SQL: " + x.Unsup)
			}
			res.Trans += len(x.Log)
		}
		bad := func(f string, x ...any) core.Result {
			res.Viol = fmt.Sprintf(f, x...)
			res.Detail = fmt.Sprintf("target:\n%s\nscreen:\n%s\ndiff afterwards:\n%s %s\nlog: %s", texts[i+1], a.Out, df.Out, df.Err, history(a))
			return res
		}
		if a.Err != "" {
			return skip("apply fails: " + a.Err)
		}
		res.States = append(res.States, string(d)+strings.Join(a.After[dsn[d]].Facts(false), "|"))
		if why := sameDB(d, a.After[dsn[d]], want[i+1]); why != "" {
			return bad("apply succeeds, but the database differs from the target: %s", why)
		}
		if ex := again.execs(dsn[d]); len(ex) > 0 {
			return bad("a second apply executes %q", clip(ex[0].Text, 150))
		}
		if df.Err != "" || strings.TrimSpace(df.Out) != "" && !strings.Contains(df.Out, "no difference") {
			if !strings.Contains(df.Err, "no difference") {
				return bad("comparing again reports %q %s", clip(df.Out, 150), df.Err)
			}
		}
		if again.Err != "" {
			return bad("a second apply fails: %s", again.Err)
		}
	}
	return res
}

// sameDB: same content as far as the database can tell.
func sameDB(d D, got, want *model.Schema) string {
	g, w := asShown(d, got, want, true)
	if d == model.MY { // every table has them
		for _, s := range []*model.Schema{g, w} {
			for _, t := range s.Tables {
				for k, v := range map[string]string{"ENGINE": "innodb", "CHARSET": "utf8mb4"} {
					if t.Opts == nil {
						t.Opts = map[string]string{}
					}
					if t.Opts[k] == "" {
						t.Opts[k] = v
					}
				}
			}
		}
	}
	return model.DiffFacts(g.Facts(false), w.Facts(false))
}
