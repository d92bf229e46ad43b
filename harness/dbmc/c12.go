package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/alpha"
	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/core"
	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/fakedb"
	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/model"
)

// moreScens: migrations whose statements undo or need each other.
func moreScens(d D) []scen {
	v := alpha.Vocs[d]
	id := "id " + v.Int + " NOT NULL"
	var out []scen
	add := func(name, db, want string) { out = append(out, scen{name, d, local(d, db), local(d, want)}) }
	switch d {
	case model.MY:
		add("change a check and an index", alpha.T(d, "t", id, "a INT", "CONSTRAINT k CHECK (a > 0)")+"CREATE INDEX i ON t (a);\n", alpha.T(d, "t", id, "a INT", "CONSTRAINT k CHECK (a > 1)")+"CREATE INDEX i ON t (a, id);\n")
		add("change a foreign key", alpha.T(d, "p", id, "PRIMARY KEY (id)")+alpha.T(d, "t", id, "a INT", "PRIMARY KEY (id)", "CONSTRAINT f FOREIGN KEY (a) REFERENCES p (id)"), alpha.T(d, "p", id, "PRIMARY KEY (id)")+alpha.T(d, "t", id, "a INT", "PRIMARY KEY (id)", "CONSTRAINT f FOREIGN KEY (a) REFERENCES p (id) ON DELETE CASCADE"))
	case model.PG, model.CR:
		add("change a unique index", alpha.T(d, "t", id, "a "+v.Int)+"CREATE INDEX i ON t (a);\n", alpha.T(d, "t", id, "a "+v.Int)+"CREATE UNIQUE INDEX i ON t (a);\n")
		add("change a default and nullability", alpha.T(d, "t", id, "a "+v.Int+" DEFAULT 1", "c "+v.Int), alpha.T(d, "t", id, "a "+v.Int+" DEFAULT 2", "c "+v.Int+" NOT NULL"))
	default:
		add("change a unique index", alpha.T(d, "t", id, "a "+v.Int)+"CREATE INDEX i ON t (a);\n", alpha.T(d, "t", id, "a "+v.Int)+"CREATE UNIQUE INDEX i ON t (a);\n")
	}
	return out
}

func c12(c *core.Ctx) {
	c.Rule = "every placement of up to two (three for migrations of one or two statements; thorough: one more) faults at the driver calls of apply (open, ping, execution, close; rejected once, rejected for ever, with the wording of a missing foreign key target, connection dropped before or after the statement took effect, another session does the same or something else under the same name; every wording and well-known error that carries nothing of what happened) over migrations of every shape and of up to 70 tables whose pauses take their longest and shortest length; success only if the database holds what the shown migration makes of it and every statement was accepted; a failure that does not go away is an error; a single transient failure is retried to success without sending a statement twice that has succeeded"
	for _, d := range model.Dialects {
		d := d
		c.Family("wordings of a rejection")
		for _, s := range append(scens(d), moreScens(d)...) {
			p, _ := getPlan(s)
			if p == nil || len(p.stmts) == 0 || len(p.stmts) > 4 && !c.Thorough() {
				continue
			}
			for _, text := range append(wordings(d), rejections(d)...) {
				(&explorer{
					name:  string(d) + " " + s.name + " " + text,
					depth: 1,
					job: func(f path) *Job {
						return &Job{Args: applyArgs(d, "--auto-approve"), Files: map[string]string{targetFile: s.want}, DBs: map[string]DBSpec{dsn[d]: {D: d, Text: s.db}}, Faults: f.faults()}
					},
					log: func(r *Reply) []fakedb.Event { return r.Log },
					kinds: func(f path, e *fakedb.Event, r *Reply) []string {
						once := raised(text)
						switch e.Call {
						case "exec":
							if once {
								return []string{text}
							}
							return []string{"poison=" + text}
						case "open", "ping", "query", "cclose":
							if once {
								return []string{text}
							}
						}
						return nil
					},
					judge: func(f path, r *Reply) core.Result { return took(s, p, f, r) },
				}).run(c)
			}
		}
		c.Family("long migrations")
		for _, n := range []int{20, 34, 40, 63, 70} {
			v := alpha.Vocs[d]
			var want strings.Builder
			for i := 0; i < n; i++ {
				want.WriteString(alpha.T(d, fmt.Sprintf("t%02d", i), "id "+v.Int+" NOT NULL"))
			}
			s := scen{fmt.Sprintf("create %d tables", n), d, "", local(d, want.String())}
			p, _ := getPlan(s)
			if p == nil || len(p.stmts) == 0 {
				continue
			}
			for _, jitter := range []string{"low", "high"} {
				jitter := jitter
				at := map[int]bool{0: true, 1: true, n / 2: true, n - 1: true}
				(&explorer{
					name:  string(d) + " " + s.name + " pauses " + jitter,
					depth: 1,
					job: func(f path) *Job {
						return &Job{Jitter: jitter == "high", Args: applyArgs(d, "--auto-approve"), Files: map[string]string{targetFile: s.want}, DBs: map[string]DBSpec{dsn[d]: {D: d, Text: s.db}}, Faults: f.faults()}
					},
					log: func(r *Reply) []fakedb.Event { return r.Log },
					kinds: func(f path, e *fakedb.Event, r *Reply) []string {
						if e.Call != "exec" {
							return nil
						}
						k := 0
						for _, x := range r.Log[:e.I] {
							if x.Call == "exec" {
								k++
							}
						}
						if !at[k] && !c.Thorough() {
							return nil
						}
						return []string{"err", "badconn", "lost", "poison", "poison=Error 1215 (HY000): Cannot add foreign key constraint"}
					},
					judge: func(f path, r *Reply) core.Result { return took(s, p, f, r) },
				}).run(c)
			}
		}
		for _, s := range append(scens(d), moreScens(d)...) {
			s := s
			p, why := getPlan(s)
			if p == nil || len(p.stmts) == 0 {
				c.Family("not judged: " + clip(why, 60))
				continue
			}
			if c.Expired() {
				c.Do(string(d)+" "+s.name, nil)
				continue
			}
			c.Family("fault placements")
			dep := 2
			if len(p.stmts) <= 2 {
				dep = 3
			}
			if c.Thorough() {
				dep++
				if len(p.stmts) > 5 {
					dep = 2
				}
			}
			(&explorer{
				name:  string(d) + " " + s.name,
				depth: dep,
				job: func(f path) *Job {
					return &Job{Args: applyArgs(d, "--auto-approve"), Files: map[string]string{targetFile: s.want}, DBs: map[string]DBSpec{dsn[d]: {D: d, Text: s.db}}, Faults: f.faults()}
				},
				log: func(r *Reply) []fakedb.Event { return r.Log },
				kinds: func(f path, e *fakedb.Event, r *Reply) []string {
					if strings.HasPrefix(e.Err, "dead") || len(f) > 0 && f[0].kind == "squat" {
						return nil
					}
					reading := e.Out == 0
					if reading && len(f) > 0 {
						return nil
					}
					switch e.Call {
					case "open", "ping", "query":
						return []string{"err", "badconn"}
					case "cclose": // the driver's owner discards a dropped connection by itself
						if dropped(r, e.Conn) {
							return nil
						}
						return []string{"err"}
					case "exec":
						if d == model.SP {
							return []string{"err", "badconn", "lost"}
						}
						if d == model.MY {
							if len(f) == 0 {
								return []string{"err", "badconn", "lost", "poison", "poisonfk", "interfere", "squat"}
							}
							return []string{"err", "badconn", "lost", "poison", "poisonfk", "interfere"}
						}
						return []string{"err", "badconn", "lost", "poison", "interfere"}
					}
					return nil
				},
				judge: func(f path, r *Reply) core.Result { return took(s, p, f, r) },
			}).run(c)
		}
	}
}

// rejections are wordings of servers that do not say that the statement is in effect already.
func rejections(d D) []string {
	switch d {
	case model.MY:
		return []string{
			"Error 1062 (23000): Duplicate entry '1' for key 't.u'",
			"Error 1091 (42000): Can't DROP 'i'; check that column/key exists",
			"Error 1146 (42S02): Table 'db.t' doesn't exist",
			"Error 1072 (42000): Key column 'a' doesn't exist in table",
			"Error 1205 (HY000): Lock wait timeout exceeded; try restarting transaction",
			"Error 1213 (40001): Deadlock found when trying to get lock; try restarting transaction",
			"Error 1138 (22004): Invalid use of NULL value",
			"Error 1265 (01000): Data truncated for column 'a' at row 1",
			"Error 1292 (22007): Incorrect datetime value: '0000-00-00' for column 'a' at row 1",
			"Error 1452 (23000): Cannot add or update a child row: a foreign key constraint fails",
			"Error 1215 (HY000): Cannot add foreign key constraint",
			"Error 1822 (HY000): Failed to add the foreign key constraint. Missing index for constraint 'f' in the referenced table 'p'",
			"Error 1451 (23000): Cannot delete or update a parent row: a foreign key constraint fails",
			"Error 3819 (HY000): Check constraint 'k' is violated.",
			"Error 1142 (42000): ALTER command denied to user 'u'@'h' for table 't'",
			"Error 1290 (HY000): The MySQL server is running with the --read-only option so it cannot execute this statement",
			"Error 1114 (HY000): The table 't' is full",
			"Error 1054 (42S22): Unknown column 'already' in 't'",
			"Error 1044 (42000): Access denied for user 'u'@'h' to database 'd'",
			"Error 1317 (70100): Query execution was interrupted",
			"Error 2006 (HY000): MySQL server has gone away",
			"Error 1064 (42000): You have an error in your SQL syntax",
			"invalid connection",
		}
	case model.SP:
		return []string{
			"rpc error: code = Canceled desc = context canceled",
			"rpc error: code = Unknown desc = stream terminated by RST_STREAM with error code: INTERNAL_ERROR",
			"rpc error: code = InvalidArgument desc = Syntax error on line 1",
			"rpc error: code = DeadlineExceeded desc = context deadline exceeded",
			"rpc error: code = NotFound desc = Table not found: t",
			"rpc error: code = AlreadyExists desc = Schema change operation already exists",
			"rpc error: code = PermissionDenied desc = Caller is missing IAM permission spanner.databases.updateDdl",
			"rpc error: code = ResourceExhausted desc = Quota exceeded for quota metric 'Administrative requests'; please retry",
			"rpc error: code = FailedPrecondition desc = Cannot add NOT NULL column t.a to existing table t.",
			"rpc error: code = FailedPrecondition desc = Duplicate name in schema: t.",
			"rpc error: code = FailedPrecondition desc = Duplicate column name t.a.",
			"rpc error: code = FailedPrecondition desc = Index i not found; table t already exists",
			"rpc error: code = FailedPrecondition desc = batch is already active",
			"rpc error: code = Aborted desc = transaction aborted",
			"rpc error: code = OutOfRange desc = out of range",
			"rpc error: code = Unimplemented desc = unknown method ExecuteBatchDdl",
			"rpc error: code = Internal desc = internal error; Temporary failure",
			"rpc error: code = Unavailable desc = transport is closing",
			"rpc error: code = DataLoss desc = data loss",
			"rpc error: code = Unauthenticated desc = no credentials",
		}
	}
	return []string{
		"pq: could not create unique index \"u\"",
		"ERROR: column \"a\" contains null values (SQLSTATE 23502)",
		"pq: column \"a\" of relation \"t\" contains null values",
		"pq: relation \"t\" does not exist",
		"pq: deadlock detected",
		"pq: canceling statement due to lock timeout",
		"pq: permission denied for table t",
		"pq: cannot drop column a of table t because other objects depend on it",
		"ERROR: duplicate key value violates unique constraint \"u\" (SQLSTATE 23505)",
		"ERROR: restart transaction: TransactionRetryWithProtoRefreshError (SQLSTATE 40001)",
		"pq: check constraint \"k\" of relation \"t\" is violated by some row",
		"pq: relation \"t\" already exists",
		"pq: column \"a\" of relation \"t\" already exists",
		"ERROR: relation \"i\" already exists (SQLSTATE 42P07)",
		"pq: index \"i\" does not exist",
		"pq: constraint \"k\" of relation \"t\" does not exist",
		"pq: duplicate key value violates unique constraint \"u\"",
		"pq: Duplicate column name 'a'",
		"pq: current transaction is aborted, commands ignored until end of transaction block",
		"pq: the database system is shutting down",
		"pq: cannot execute DROP TABLE in a read-only transaction",
		"pq: unimplemented: this syntax",
		"pq: Cannot add foreign key constraint",
	}
}

// wordings are the same as faults that occur once, and those of well-known errors of the libraries in between.
func wordings(d D) []string {
	var out []string
	for _, t := range rejections(d) {
		out = append(out, "err="+t)
	}
	var names []string
	for n := range fakedb.WellKnown {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		out = append(out, "is="+n)
	}
	return out
}

// raised: the fault is an error that is returned once.
func raised(kind string) bool {
	return kind == "err" || strings.HasPrefix(kind, "err=") || strings.HasPrefix(kind, "is=")
}

// took judges one run of apply.
func took(s scen, p *plan, f path, r *Reply) core.Result {
	res := core.Result{Outcome: fmt.Sprintf("%s faults=%d err=%v", s.d, len(f), r.Err != ""), States: []string{s.name + string(s.d) + strings.Join(r.After[dsn[s.d]].Facts(true), "|") + shape(r)}, Trans: len(r.Log), Trace: true}
	bad := func(x string, a ...any) core.Result {
		res.Viol = fmt.Sprintf(x, a...)
		res.Detail = fmt.Sprintf("migration:\n%s\nerr: %s\nlog: %s\nschema after:\n%v", p.out, r.Err, history(r), r.After[dsn[s.d]].Facts(true))
		return res
	}
	want, err := effect(s.d, r.Before[dsn[s.d]], p.stmts)
	if err != nil {
		return skip("the migration cannot be executed: " + err.Error())
	}
	ex := r.execs(dsn[s.d])
	// attempts per statement
	need := map[string]int{}
	for _, st := range p.stmts {
		need[st.String()]++
	}
	done, tries := map[string]int{}, map[string]int{}
	for _, e := range ex {
		ss, err := split(s.d, e.Text)
		if err != nil {
			return bad("a fragment is sent: %q", clip(e.Text, 120))
		}
		for _, st := range ss {
			k := st.String()
			if need[k] == 0 && !batchCmd[strings.ToUpper(k)] {
				return bad("%q is sent, which is not part of the migration", clip(e.Text, 120))
			}
			tries[k]++
			if done[k] > 0 && done[k] >= need[k] {
				return bad("%q is sent again after it has succeeded", clip(e.Text, 120))
			}
			if e.Err == "" && e.Effect {
				done[k]++
			}
			if tries[k] > 10*(len(p.stmts)+2) {
				return bad("%q is tried %d times", clip(e.Text, 120), tries[k])
			}
		}
	}
	if r.Err == "" {
		// a statement whose reply was lost, or which found its effect already there, has taken effect as well
		if why := sameState(r.After[dsn[s.d]], want); why != "" {
			return bad("success is reported, but the database is not as migrated: %s", why)
		}
		for _, st := range p.stmts {
			k := st.String()
			if done[k] == 0 && !inEffect(ex, s.d, k) {
				return bad("success is reported, but %q has never succeeded", clip(st.Text, 120))
			}
		}
	}
	for _, x := range f {
		if x.i < len(r.Log) && strings.HasPrefix(r.Log[x.i].Err, "dead") {
			return skip("placement not reached")
		}
		if x.i < len(r.Log) && r.Log[x.i].Err == "" && !strings.HasPrefix(x.kind, "interf") && x.kind != "squat" && r.Log[x.i].Call != "cclose" {
			return skip("placement not reached")
		}
	}
	switch {
	case len(f) == 0:
		if r.Err != "" {
			return bad("nothing failed, but apply reports: %s", r.Err)
		}
	case len(f) == 1:
		e := r.Log[f[0].i]
		if raised(f[0].kind) && e.Call != "exec" && r.Err == "" {
			return bad("%s fails, but success is reported", e.Call)
		}
		if raised(f[0].kind) && e.Call == "exec" && s.d != model.SP && r.Err != "" {
			return bad("one transient failure is not overcome: %s", r.Err)
		}
		if f[0].kind == "badconn" && s.d != model.SP && r.Err != "" && e.Call == "exec" {
			return bad("one dropped connection is not overcome: %s", r.Err)
		}
	}
	for _, x := range f {
		if strings.HasPrefix(x.kind, "poison") && r.Err == "" {
			return bad("a statement is rejected for ever, but success is reported")
		}
		if raised(x.kind) && r.Err == "" && (r.Log[x.i].Call == "query" || r.Log[x.i].Call == "cclose") {
			return bad("%s fails, but success is reported", r.Log[x.i].Call)
		}
	}
	return res
}

// inEffect: an attempt took effect although its reply was lost, or was told that its effect is there already.
func inEffect(ex []fakedb.Event, d D, k string) bool {
	for _, e := range ex {
		ss, err := split(d, e.Text)
		if err != nil {
			continue
		}
		for _, st := range ss {
			if st.String() == k && (e.Effect || strings.Contains(e.Err, "already exists") || strings.Contains(e.Err, "Duplicate")) {
				return true
			}
		}
	}
	return false
}

// shape is the history without the texts.
func shape(r *Reply) string {
	var b strings.Builder
	for _, e := range r.Log {
		b.WriteByte(e.Call[0])
		if e.Err != "" {
			b.WriteByte('!')
		}
	}
	return b.String()
}

func dropped(r *Reply, conn int) bool {
	for _, e := range r.Log {
		if e.Conn == conn && (e.Err == "badconn" || e.Err == "dead" || e.Err == "dead connection" || e.Err == "reply lost") {
			return true
		}
	}
	return false
}
