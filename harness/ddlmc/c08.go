package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"sync"

	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/alpha"
	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/core"
	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/model"
	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/sched"
	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/sut"
)

// c08: all histories of at most three operations over three shared parsed schemas, and all schedules
// of two concurrent ones, must agree with the same operations on freshly parsed schemas.
func c08(c *core.Ctx) {
	c.Rule = "all histories of length <=3 of the operations diff(i,j), tablediff(i,j) and print(i) over three shared parsed schemas (and the absent one); every operation after all others against its answer in a process of its own; two operations (diff, table diff, print, read, read and diff) on shared parsed schemas under every schedule with one preemption at any statement of the code under test, quick: at the first two and the last execution of each statement (thorough: at every execution, and a second preemption, of the other operation, at every sixteenth of its stops, offset by one for each first preemption); and rounds of uncontrolled concurrent diffs"
	per := 4
	if c.Thorough() {
		per = 10
	}
	for _, d := range model.Dialects {
		for _, f := range alpha.All(d, false) {
			c.Family(string(d) + ": " + f.Name)
			ts := pick(load2(d, smallTexts(f)), per)
			for i := 0; i < len(ts); i++ {
				for j := i + 1; j < len(ts); j++ {
					history(c, d, ts[i], ts[j], ts[(j+1)%len(ts)])
				}
			}
			if len(ts) > 2 {
				concurrent(c, d, f.Name, ts)
				for i := range ts {
					if i >= 2 && !c.Thorough() {
						break
					}
					schedules(c, d, ts[i], ts[(i+1)%len(ts)], ts[(i+2)%len(ts)])
				}
			}
		}
		alone(c, d)
		v := alpha.Vocs[d]
		c.Family(string(d) + ": tables of different names")
		ren := []string{alpha.T(d, "s1.t", "id "+v.Int+" NOT NULL", "a "+v.Int), alpha.T(d, "s2.t2", "id "+v.Int+" NOT NULL", "b "+v.Int), alpha.T(d, "t", "id "+v.Int+" NOT NULL", "c "+v.Int)}
		history(c, d, ren[0], ren[1], ren[2])
		schedules(c, d, ren[0], ren[1], ren[2])
	}
}

func load2(d D, ts []string) []string {
	var out []string
	for _, s := range load(d, ts) {
		if _, err := sut.Parse(d, s.text); err == nil && s.text != "" {
			out = append(out, s.text)
		}
	}
	return out
}

// alone: what an operation answers in a process of its own is what it answers after everything else
// that this process has done.
func alone(c *core.Ctx, d D) {
	c.Family(string(d) + ": in a process of its own")
	v := alpha.Vocs[d]
	id := "id " + v.Int + " NOT NULL"
	cols := func(a, b string) string { return alpha.T(d, "t", id, "a "+a, "b "+b) }
	trios := [][3]string{
		{cols(v.Int, v.Str), cols(v.Big, v.Str), cols(v.Int, v.Lng)},
		{cols(v.Int, v.Str), cols(v.Int, v.Str) + "CREATE INDEX i ON t (a);\n", cols(v.Int, v.Str) + "CREATE INDEX i ON t (b);\n"},
		{alpha.P(d) + cols(v.Int, v.Str), alpha.P(d) + alpha.T(d, "t", id, "a "+v.Int, "CONSTRAINT f FOREIGN KEY (a) REFERENCES p (id)"), alpha.T(d, "t", id, "a "+v.Int, "c "+v.Int)},
		{cols(v.Int, v.Str), alpha.T(d, "t", id) + alpha.T(d, "u", id), alpha.T(d, "u", id, "a "+v.Int)},
	}
	for _, ts := range trios {
		ts := ts
		for _, o := range allOps() {
			o := o
			c.Do(fmt.Sprintf("%s: %s in a process of its own over %s | %s | %s", d, o, one(ts[0]), one(ts[1]), one(ts[2])), func() core.Result {
				r := core.Result{Trace: true, Trans: 1}
				exe, _ := os.Executable()
				cmd := exec.Command(exe, "C08", "quick")
				in, _ := json.Marshal(aloneOp{d, ts, o.kind, o.i, o.j})
				cmd.Env = append(os.Environ(), "VERIF_C08_OP="+string(in))
				out, err := cmd.Output()
				if err != nil {
					r.Viol = fmt.Sprintf("%s fails in a process of its own: %v", o, err)
					return r
				}
				for _, p := range allOps() { // something else before it
					perform(p, fresh(d, ts))
				}
				got := perform(o, fresh(d, ts))
				r.Outcome = "alone " + o.kind
				if got != string(out) {
					r.Viol = fmt.Sprintf("%s gives another answer after other operations than in a process of its own", o)
					r.Detail = fmt.Sprintf("alone: %s here: %s", out, got)
				}
				return r
			})
		}
	}
}

type aloneOp struct {
	D    D
	TS   [3]string
	Kind string
	I, J int
}

func c08alone() {
	var o aloneOp
	if err := json.Unmarshal([]byte(os.Getenv("VERIF_C08_OP")), &o); err != nil {
		panic(err)
	}
	var in [4]*sut.Doc
	for i, t := range o.TS {
		x, err := sut.Parse(o.D, t)
		if err != nil {
			panic(err)
		}
		in[i] = x
	}
	in[3] = sut.Nil(o.D)
	fmt.Print(perform(op{o.Kind, o.I, o.J}, in))
}

type op struct {
	kind string
	i, j int
}

func (o op) String() string { return fmt.Sprintf("%s(%d,%d)", o.kind, o.i, o.j) }

func allOps() []op {
	var ops []op
	for i := 0; i < 4; i++ { // 3 = absent
		for j := 0; j < 4; j++ {
			if i == 3 && j == 3 {
				continue
			}
			ops = append(ops, op{"diff", i, j})
		}
	}
	for i := 0; i < 3; i++ {
		ops = append(ops, op{"print", i, i})
		for j := 0; j < 3; j++ {
			if i != j {
				ops = append(ops, op{"tablediff", i, j})
			}
		}
	}
	return ops
}

func perform(o op, docs [4]*sut.Doc) (res string) {
	defer func() {
		if p := recover(); p != nil {
			res = fmt.Sprintf("panic %v", p)
		}
	}()
	switch o.kind {
	case "print":
		return docs[o.i].String()
	case "tablediff":
		t, n, err := sut.DiffTables(docs[o.i], docs[o.j], false)
		return fmt.Sprintf("%s|%v|%v", t, n, err)
	}
	t, n, err := sut.Diff(docs[o.i], docs[o.j])
	return fmt.Sprintf("%s|%v|%v", t, n, err)
}

func fresh(d D, ts [3]string) [4]*sut.Doc {
	var out [4]*sut.Doc
	for i, t := range ts {
		x, err := docs.Parse(d, t)
		if err != nil {
			panic("alphabet: " + err.Error())
		}
		out[i] = x
	}
	out[3] = sut.Nil(d)
	return out
}

func history(c *core.Ctx, d D, a, b, e string) {
	ts := [3]string{a, b, e}
	c.Do(fmt.Sprintf("%s: histories over %s | %s | %s", d, one(a), one(b), one(e)), func() core.Result {
		ops := allOps()
		ref := map[op]string{}
		dumps := map[string]bool{}
		for _, o := range ops {
			ref[o] = perform(o, fresh(d, ts))
		}
		r := core.Result{Outcome: fmt.Sprintf("%d", len(ref)), Trace: true}
		pure := sut.Dump(fresh(d, ts))
		for _, o1 := range ops {
			for _, o2 := range ops {
				in := fresh(d, ts)
				perform(o1, in)
				if dump := sut.Dump(in); dump != pure {
					r.Viol = fmt.Sprintf("%s modifies its input", o1)
					r.Detail = firstDiff(pure, dump)
					return r
				}
				got2 := perform(o2, in)
				r.Trans += 2
				if got2 != ref[o2] {
					r.Viol = fmt.Sprintf("%s after %s gives a different answer", o2, o1)
					r.Detail = fmt.Sprintf("alone: %s after: %s", ref[o2], got2)
					return r
				}
				for _, o3 := range ops {
					if o3.kind == "tablediff" && o2.kind == "tablediff" {
						continue
					}
					got3 := perform(o3, in)
					r.Trans++
					if got3 != ref[o3] {
						r.Viol = fmt.Sprintf("%s after %s, %s gives a different answer", o3, o1, o2)
						r.Detail = fmt.Sprintf("alone: %s after: %s", ref[o3], got3)
						return r
					}
				}
				dumps[sut.Dump(in)] = true
			}
		}
		for k := range dumps {
			if k != pure {
				r.Viol = "an input is modified"
				r.Detail = firstDiff(pure, k)
			}
			r.States = append(r.States, k)
		}
		return r
	})
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string {
		lo, hi := i-60, i+120
		if lo < 0 {
			lo = 0
		}
		if hi > len(s) {
			hi = len(s)
		}
		if lo > hi {
			lo = hi
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("before …%s… after …%s…", cut(a), cut(b))
}

// schedules: two operations on the same parsed schemas run concurrently; every schedule with one
// preemption (thorough: two) at any statement of the code under test gives both answers that the
// operations give alone.
func schedules(c *core.Ctx, d D, a, b, e string) {
	ts := [3]string{a, b, e}
	pairs := [][2]op{
		{{"diff", 0, 1}, {"diff", 0, 1}}, {{"diff", 0, 1}, {"diff", 1, 0}}, {{"diff", 0, 1}, {"diff", 2, 1}}, {{"diff", 0, 1}, {"diff", 1, 2}},
		{{"diff", 0, 3}, {"diff", 3, 0}}, {{"diff", 0, 1}, {"print", 0, 0}}, {{"diff", 0, 1}, {"print", 1, 1}}, {{"print", 0, 0}, {"print", 0, 0}},
		{{"diff", 0, 1}, {"read", 2, 2}}, {{"read", 0, 0}, {"read", 1, 1}}, {{"tablediff", 0, 1}, {"tablediff", 0, 1}}, {{"tablediff", 0, 1}, {"diff", 0, 2}},
		{{"tablediff", 0, 3}, {"tablediff", 3, 1}}, {{"diff", 0, 1}, {"readdiff", 1, 2}},
	}
	for _, p := range pairs {
		p := p
		c.Do(fmt.Sprintf("%s: schedules of %s and %s over %s | %s | %s", d, p[0], p[1], one(a), one(b), one(e)), func() core.Result {
			r := core.Result{Trace: true}
			run := func(o op, in [4]*sut.Doc) string {
				switch o.kind {
				case "read", "readdiff":
					x, err := sut.Parse(d, ts[o.i])
					if err != nil {
						return "error " + err.Error()
					}
					if o.kind == "read" {
						return x.String()
					}
					in[o.i] = x
					return perform(op{"diff", o.i, o.j}, in)
				}
				return perform(o, in)
			}
			ref := [2]string{run(p[0], fresh(d, ts)), run(p[1], fresh(d, ts))}
			in := fresh(d, ts)
			var got [2]string
			f := func() { got[0] = run(p[0], in) }
			g := func() { got[1] = run(p[1], in) }
			try := func(record bool, segs ...sched.Seg) (sched.Result, bool) {
				got = [2]string{}
				res := sched.Run(f, g, record, segs...)
				r.Trans++
				for i := range got {
					if got[i] != ref[i] {
						r.Viol = fmt.Sprintf("%s gives a different answer when it runs concurrently with %s", p[i], p[1-i])
						r.Detail = fmt.Sprintf("schedule: %v; alone: %s concurrently: %s", segs, ref[i], got[i])
					}
				}
				if res.Hang {
					r.Viol = fmt.Sprintf("%s and %s wait for each other", p[0], p[1])
					r.Detail = fmt.Sprintf("schedule: %v", segs)
				}
				return res, r.Viol == ""
			}
			base, ok := try(true)
			if !ok {
				return r
			}
			r.Outcome = fmt.Sprintf("%s||%s", p[0].kind, p[1].kind)
			for first := 0; first < 2; first++ {
				if first == 1 && p[0] == p[1] {
					break
				}
				inner := sched.Stops(base.At[1-first], false)
				for i, k := range sched.Stops(base.At[first], c.Thorough()) {
					if _, ok := try(false, sched.Seg{Task: first, Until: k}, sched.Seg{Task: 1 - first}); !ok {
						return r
					}
					if c.Thorough() {
						// a second preemption, of the other operation
						for j := i % 16; j < len(inner); j += 16 {
							if _, ok := try(false, sched.Seg{Task: first, Until: k}, sched.Seg{Task: 1 - first, Until: inner[j]}, sched.Seg{Task: first}); !ok {
								return r
							}
						}
					}
				}
			}
			r.States = append(r.States, fmt.Sprintf("%s %d %d", ref, base.Points[0], base.Points[1]))
			return r
		})
	}
}

// concurrent: every pair diffed by concurrent callers that share the parsed schemas.
func concurrent(c *core.Ctx, d D, fam string, ts []string) {
	c.Do(fmt.Sprintf("%s: concurrent diffs over %s", d, fam), func() core.Result {
		n := len(ts)
		ref := make([][]string, n)
		docs := make([]*sut.Doc, n)
		for i := range ts {
			docs[i], _ = sut.Parse(d, ts[i])
			ref[i] = make([]string, n)
			for j := range ts {
				x, _ := sut.Parse(d, ts[i])
				y, _ := sut.Parse(d, ts[j])
				t, none, err := sut.Diff(x, y)
				ref[i][j] = fmt.Sprintf("%s|%v|%v", t, none, err)
			}
		}
		r := core.Result{Outcome: "concurrent", Trace: true}
		var mu sync.Mutex
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						mu.Lock()
						r.Viol = fmt.Sprintf("panic in a concurrent diff: %v", p)
						mu.Unlock()
					}
				}()
				for i := 0; i < n; i++ {
					for j := 0; j < n; j++ {
						a, b := (i+g)%n, (j+g*3)%n
						t, none, err := sut.Diff(docs[a], docs[b])
						got := fmt.Sprintf("%s|%v|%v", t, none, err)
						mu.Lock()
						r.Trans++
						if got != ref[a][b] && r.Viol == "" {
							r.Viol = "a concurrent diff gives a different answer"
							r.Detail = fmt.Sprintf("alone: %s concurrently: %s", ref[a][b], got)
						}
						mu.Unlock()
					}
				}
			}(g)
		}
		wg.Wait()
		return r
	})
}
