package main

import (
	"fmt"
	"strings"

	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/core"
	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/model"
)

// setting is how one option is given: -1 not at all, 0 and 1 one of its values, 2 empty.
type setting struct{ flag, env int }

func (s setting) String() string {
	f := func(i int) string { return []string{"-", "A", "B", "empty"}[i+1] }
	return f(s.flag) + "/" + f(s.env)
}

// opt is an option: its names and its values.
type opt struct {
	flag, env string
	bool      bool
	vals      [2]string
	def       string
}

const (
	oLang = iota
	oDialect
	oDDL
	oCol
	oPK
	oApprove
	oTrace
	oDebug
)

func optsOf(d1, d2 D) []opt {
	return []opt{
		oLang:    {"lang", "DDLCTL_LANGUAGE", false, [2]string{"go", "java"}, "go"},
		oDialect: {"dialect", "DDLCTL_DIALECT", false, [2]string{string(d1), string(d2)}, ""},
		oDDL:     {"go-ddl-tag", "DDLCTL_GO_DDL_TAG", false, [2]string{"bddl", "cddl"}, "ddlctl"},
		oCol:     {"go-column-tag", "DDLCTL_GO_COLUMN_TAG", false, [2]string{"bdb", "cdb"}, "db"},
		oPK:      {"go-pk-tag", "DDLCTL_GO_PK_TAG", false, [2]string{"bpk", "cpk"}, "pk"},
		oApprove: {"auto-approve", "DDLCTL_AUTO_APPROVE", true, [2]string{"true", "false"}, "false"},
		oTrace:   {"trace", "DDLCTL_TRACE", true, [2]string{"true", "false"}, "false"},
		oDebug:   {"debug", "DDLCTL_DEBUG", true, [2]string{"true", "false"}, "false"},
	}
}

// effective is the value the command has to act on.
func (o opt) effective(s setting) string {
	switch {
	case s.flag == 2:
		return ""
	case s.flag >= 0:
		return o.vals[s.flag]
	case s.env >= 0 && s.env < 2:
		return o.vals[s.env]
	}
	return o.def
}

// tagged is a source that declares something else for every choice of tags.
func tagged() string {
	var b strings.Builder
	b.WriteString("package models\n\n// T is a type.\n//\n//ddlctl:table ta\n//bddl:table tb\n//cddl:table tc\ntype T struct {\n")
	for i := 0; i < 3; i++ {
		var pk [3]string
		pk[i] = "true"
		fmt.Fprintf(&b, "\tF%d string %s\n", i, rawTag(kv("db", fmt.Sprint("a", i)), kv("bdb", fmt.Sprint("b", i)), kv("cdb", fmt.Sprint("c", i)),
			kv("ddlctl", taggedType("ddlctl", i)), kv("bddl", taggedType("bddl", i)), kv("cddl", taggedType("cddl", i)), kv("pk", pk[0]), kv("bpk", pk[1]), kv("cpk", pk[2])))
	}
	b.WriteString("}\n")
	return b.String()
}

func taggedType(ddl string, i int) string {
	n, t := "NUMERIC NOT NULL", "TIMESTAMP NOT NULL"
	switch {
	case ddl == "ddlctl" || ddl == "cddl" && i == 0:
		return n
	}
	return t
}

// taggedSQL is what the source declares under the tags.
func taggedSQL(d D, ddl, col, pk string) string {
	letter := map[string]string{"ddlctl": "a", "bddl": "b", "cddl": "c", "db": "a", "bdb": "b", "cdb": "c"}
	t := gtable{create: "CREATE TABLE t" + letter[ddl]}
	for i := 0; i < 3; i++ {
		n := fmt.Sprint(letter[col], i)
		t.cols = append(t.cols, gcol{n, taggedType(ddl, i)})
		if map[string]int{"pk": 0, "bpk": 1, "cpk": 2}[pk] == i {
			t.pk = []string{n}
		}
	}
	return t.sql(d)
}

// invocation is one run of a command under settings.
type invocation struct {
	cmd    string
	opts   []opt
	set    map[int]setting
	style  int
	dests  string
	others []string // further variables of the environment
}

func (v invocation) get(o int) string { return v.opts[o].effective(v.setOf(o)) }

func (v invocation) setOf(o int) setting {
	if s, ok := v.set[o]; ok {
		return s
	}
	return setting{-1, -1}
}

func (v invocation) String() string {
	var ss []string
	for i, o := range v.opts {
		if s, ok := v.set[i]; ok && (s.flag >= 0 || s.env >= 0) {
			ss = append(ss, o.flag+" "+s.String())
		}
	}
	return fmt.Sprintf("%s style %d: %s", v.cmd, v.style, strings.Join(ss, ", "))
}

// job lays out the run; the arguments suit the effective dialect.
func (v invocation) job(out string) Job {
	j := Job{Env: map[string]string{}, Stdin: "no\n", Keep: out}
	d := D(v.get(oDialect))
	var root, flags [][]string
	for i, o := range v.opts {
		s := v.setOf(i)
		if s.env >= 0 {
			j.Env[o.env] = append(o.vals[:], "")[s.env]
		}
		if s.flag < 0 {
			continue
		}
		val := append(o.vals[:], "")[s.flag]
		var f []string
		switch {
		case o.bool && val == "true" && v.style%2 == 0:
			f = []string{"--" + o.flag}
		case o.bool || v.style%2 == 1:
			f = []string{"--" + o.flag + "=" + val}
		default:
			f = []string{"--" + o.flag, val}
		}
		if i == oTrace || i == oDebug {
			root = append(root, f)
		} else {
			flags = append(flags, f)
		}
	}
	target, ok := dsn[d]
	if !ok {
		target = dsn[model.PG]
	}
	var args []string
	switch v.cmd {
	case "generate", "gen":
		args = []string{"src", out}
	case "diff":
		args = []string{"empty.sql", "src"}
	case "apply":
		args = []string{target, "src"}
	case "show":
		args = []string{target}
	}
	for _, f := range root {
		j.Args = append(j.Args, f...)
	}
	j.Args = append(j.Args, v.cmd)
	switch v.style / 2 % 3 {
	case 0:
		for _, f := range flags {
			j.Args = append(j.Args, f...)
		}
		j.Args = append(j.Args, args...)
	case 1:
		j.Args = append(j.Args, args...)
		for _, f := range flags {
			j.Args = append(j.Args, f...)
		}
	default:
		for i, f := range flags {
			if i == 1 {
				j.Args = append(j.Args, args[0])
			}
			j.Args = append(j.Args, f...)
		}
		if len(flags) < 2 {
			j.Args = append(j.Args, args[0])
		}
		j.Args = append(j.Args, args[1:]...)
	}
	return j
}

// shared lays what all invocations of a job use.
func shared(j *Job) *Job {
	j.Files = map[string]string{"src/models.go": tagged(), "empty.sql": "\n"}
	j.DBs = map[string]DBSpec{}
	for _, d := range model.Dialects {
		if d == model.CR { // has the DSN of PostgreSQL with another port
			j.DBs[dsn[d]] = DBSpec{D: d, Text: v22DB(d)}
			continue
		}
		j.DBs[dsn[d]] = DBSpec{D: d, Text: v22DB(d)}
	}
	return j
}

// v22DB is the content of the database of a dialect: its name tells which one was read.
func v22DB(d D) string {
	pk := map[D]string{model.PG: ", CONSTRAINT x_pkey PRIMARY KEY (id))", model.CR: ", CONSTRAINT x_pkey PRIMARY KEY (id ASC))", model.MY: ", PRIMARY KEY (id))", model.SP: ") PRIMARY KEY (id)"}[d]
	id := map[D]string{model.PG: "INTEGER", model.CR: "INT4", model.MY: "INT", model.SP: "INT64"}[d]
	n := "x"
	if d == model.PG || d == model.CR {
		n = "public.x"
	}
	return "CREATE TABLE " + n + " (id " + id + " NOT NULL" + pk + ";\n"
}

// judge says whether a run acted on the effective values.
func (v invocation) judge(r *Reply) string {
	if x := abnormal(r); x != "" {
		return x
	}
	d, lang := D(v.get(oDialect)), v.get(oLang)
	known := driverOf[d] != ""
	logging := strings.Contains(r.Stderr, "DEBUG: ")
	tracing := strings.Contains(r.Stderr, "TRACE: ")
	wantTrace, wantDebug := v.get(oTrace) == "true", v.get(oDebug) == "true"
	if tracing != wantTrace && (tracing || known) {
		return fmt.Sprintf("trace is %v, but trace messages are written: %v", wantTrace, tracing)
	}
	if logging && !wantDebug && !wantTrace || !logging && wantDebug {
		return fmt.Sprintf("debug is %v, trace is %v, but debug messages are written: %v", wantDebug, wantTrace, logging)
	}
	approved := v.get(oApprove) == "true"
	for _, e := range r.Log {
		if e.Call == "exec" && (v.cmd != "apply" || !approved) {
			return "not approved, but executed: " + clip(e.Text, 100)
		}
		if e.Call == "open" && (!known || e.Text != driverOf[d] || e.DSN != dsn[d]) {
			return fmt.Sprintf("the effective dialect is %q, but %q is opened with the driver %q", d, e.DSN, e.Text)
		}
	}
	if r.Unsup != "" {
		return fmt.Sprintf("the effective dialect is %q, but the database is asked %s", d, clip(r.Unsup, 100))
	}
	must := func(ok bool, why string) string {
		if ok == (r.Err == "") {
			return ""
		}
		return fmt.Sprintf("%s, but the result is %q", why, clip(r.Err, 150))
	}
	if !known {
		return must(false, fmt.Sprintf("the effective dialect is %q", d))
	}
	if v.cmd == "show" {
		if x := must(true, fmt.Sprintf("the effective dialect is %q", d)); x != "" {
			return x
		}
		got, err := model.ReadSchema(d, r.Out)
		if err != nil || len(got.Tables) != 1 || !strings.HasSuffix(got.Tables[0].Name, "x") {
			return "the shown schema is not that of the database: " + clip(r.Out, 100)
		}
		return ""
	}
	if lang != "go" {
		return must(false, fmt.Sprintf("the effective language is %q", lang))
	}
	want := taggedSQL(d, v.get(oDDL), v.get(oCol), v.get(oPK))
	switch v.cmd {
	case "generate", "gen":
		if x := must(true, "all values are valid"); x != "" {
			return x
		}
		return sameText(d, r.Kept, want)
	case "diff":
		if x := must(true, "all values are valid"); x != "" {
			return x
		}
		return v.sameMigration(d, "\n", want, r.Out)
	}
	// apply
	if x := must(approved, fmt.Sprintf("approved is %v", approved)); x != "" {
		return x
	}
	if !strings.Contains(r.Out, strings.Fields(want)[2]) {
		return "the migration shown is not that of the source under the effective tags: " + clip(r.Out, 200)
	}
	if approved {
		w, err := model.ReadSchema(d, want+";\n")
		if err == nil {
			if x := sameDB(d, r.After[dsn[d]], w); x != "" {
				return "the database is not that of the source under the effective values: " + x
			}
		}
	}
	return ""
}

func (v invocation) sameMigration(d D, a, b, out string) string {
	want, why := libDiff(d, a, b)
	if why != "" {
		return ""
	}
	got, err := split(d, out)
	if err != nil {
		return err.Error()
	}
	return sameStmts(plainStmts(got), plainStmts(want))
}

// c22Run runs the invocations in one process.
func c22Run(key string, vs []invocation, fresh bool) core.Result {
	var j *Job
	for i, v := range vs {
		x := v.job(fmt.Sprintf("out%d.sql", i))
		x.Stderr = true
		if j == nil {
			j = shared(&x)
		} else {
			j.Then = append(j.Then, x)
		}
	}
	var r *Reply
	if fresh {
		r = pool.Fresh(j)
	} else {
		r = pool.Run(j)
	}
	res := core.Result{Outcome: vs[0].cmd, States: []string{key}, Trans: len(vs), Trace: true}
	rs := append([]Reply{*r}, r.Then...)
	if r.LoadErr != "" {
		return skip("not a database content: " + r.LoadErr)
	}
	for i, v := range vs {
		if i >= len(rs) {
			return viol("ends early: %s", abnormal(&rs[len(rs)-1]))
		}
		if x := v.judge(&rs[i]); x != "" {
			res.Viol = x
			if i > 0 {
				res.Viol = "after another invocation: " + x
			}
			res.Outcome += " violation"
			k := *j
			if i > 0 {
				k = j.Then[i-1]
			}
			res.Detail = fmt.Sprintf("invocation %d: %s\nargs: %s\nenv: %v\noutput:\n%s\n%s\nerror: %s\nstderr:\n%s\nlog: %s", i+1, v, list(k.Args), k.Env, rs[i].Out, rs[i].Kept, rs[i].Err, clip(rs[i].Stderr, 600), history(&rs[i]))
			return res
		}
	}
	return res
}

// usable are the options of a command.
func usable(cmd string) []int {
	switch cmd {
	case "show":
		return []int{oDialect, oTrace, oDebug}
	case "apply":
		return []int{oLang, oDialect, oDDL, oCol, oPK, oApprove, oTrace, oDebug}
	}
	return []int{oLang, oDialect, oDDL, oCol, oPK, oTrace, oDebug}
}

func settings(o int, empty bool) (out []setting) {
	fs, es := []int{-1, 0, 1}, []int{-1, 0, 1}
	if empty {
		es = append(es, 2)
		if o == oDialect || o == oLang {
			fs = append(fs, 2)
		}
	}
	for _, f := range fs {
		for _, e := range es {
			out = append(out, setting{f, e})
		}
	}
	return
}

func c22(c *core.Ctx) {
	c.Rule = "for generate, its short form, diff, apply and show: every pair of options with all combinations of flag absent, value A, value B, empty and variable absent, A, B, empty; the product of flag and variable (absent, A, B) over all five options of generate; flags in both spellings before, after and between the arguments; and all ordered pairs of invocations with one option set in some way, in one process; the source declares something else for every choice of tags, so that the output, the database opened, the approval and the messages tell the value acted on"
	pairsOf := [][2]D{{model.PG, model.MY}, {model.SP, model.CR}, {model.MY, model.SP}, {model.CR, model.PG}, {model.PG, model.SP}, {model.CR, model.MY}}
	n := 0
	run := func(fam, cmd string, dd [2]D, set map[int]setting, style int) {
		v := invocation{cmd: cmd, opts: optsOf(dd[0], dd[1]), set: set, style: style}
		c.Family(fam)
		key := fmt.Sprintf("%s %v %v", fam, dd, v)
		c.Do(key, func() core.Result { return c22Run(key, []invocation{v}, false) })
	}
	withDialect := func(set map[int]setting) map[int]setting {
		m := map[int]setting{}
		for k, v := range set {
			m[k] = v
		}
		if _, ok := m[oDialect]; !ok {
			m[oDialect] = setting{0, -1}
		}
		return m
	}
	cmds := []string{"generate", "gen", "diff", "apply", "show"}
	for _, cmd := range cmds {
		us := usable(cmd)
		for ai, a := range us {
			for _, b := range us[ai+1:] {
				for _, sa := range settings(a, true) {
					for _, sb := range settings(b, true) {
						for k := 0; k < 2; k++ {
							if k == 1 && !c.Thorough() && cmd == "gen" {
								continue
							}
							n++
							set := map[int]setting{a: sa, b: sb}
							if a != oDialect && b != oDialect {
								set = withDialect(set)
							}
							run("pairs of options: "+cmd, cmd, pairsOf[n%len(pairsOf)], set, n/7)
						}
					}
				}
			}
		}
	}
	five := usable("generate")[:5]
	var rec func(i int, set map[int]setting)
	rec = func(i int, set map[int]setting) {
		if i == len(five) {
			n++
			if !c.Thorough() && n%4 != 0 {
				return
			}
			run("all options", []string{"generate", "diff"}[n/5%2], pairsOf[n%len(pairsOf)], withDialect(set), n/7)
			return
		}
		for _, s := range settings(five[i], false) {
			set[five[i]] = s
			rec(i+1, set)
			delete(set, five[i])
		}
	}
	rec(0, map[int]setting{})
	// histories
	var invs []invocation
	for ci, cmd := range cmds {
		if cmd == "gen" {
			continue
		}
		dd := pairsOf[ci%len(pairsOf)]
		for _, o := range usable(cmd) {
			for _, s := range []setting{{0, -1}, {1, -1}, {-1, 0}, {-1, 1}, {1, 0}} {
				if !c.Thorough() && (s == setting{1, 0} || s == setting{-1, 1} && o != oApprove) {
					continue
				}
				invs = append(invs, invocation{cmd: cmd, opts: optsOf(dd[0], dd[1]), set: withDialect(map[int]setting{o: s})})
			}
		}
		invs = append(invs, invocation{cmd: cmd, opts: optsOf(dd[0], dd[1]), set: map[int]setting{}}, invocation{cmd: cmd, opts: optsOf(dd[0], dd[1]), set: withDialect(nil)})
	}
	for i, a := range invs {
		for k, b := range invs {
			if a.cmd == "apply" && b.cmd == "apply" && a.get(oApprove) == "true" && a.get(oDialect) == b.get(oDialect) {
				continue // the first one leaves nothing to do
			}
			if a.cmd == "apply" && a.get(oApprove) == "true" && b.cmd == "show" {
				continue
			}
			vs := []invocation{a, b}
			key := fmt.Sprintf("histories %d, %d: %v; %v", i, k, a, b)
			c.Family("histories")
			c.Do(key, func() core.Result { return c22Run(key, vs, true) })
		}
	}
}
