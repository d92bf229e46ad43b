// Command dbmc explores ddlctl's commands that talk to a database: the whole command runs in a
// child process against modelled databases, for every enumerated content, argument, answer and
// fault placement.
package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/core"
	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/model"
)

type D = model.Dialect

var pool *Pool

func main() {
	if os.Getenv("VERIF_CHILD") != "" {
		childMain()
		return
	}
	prop, tier := os.Args[1], os.Args[2]
	c := core.New(prop, tier)
	n := 16
	pool = NewPool(n)
	c.Workers = n
	c.HangSec = 600
	c.Level = "model_checking"
	c.Start()
	switch prop {
	case "C10":
		c10(c)
	case "C11":
		c11(c)
	case "C12":
		c12(c)
	case "C13":
		c13(c)
	case "C14":
		c14(c)
	case "C15":
		c15(c)
	case "C16":
		c16(c)
	case "C17":
		c17(c)
	case "C18":
		c18(c)
	case "C19":
		c19(c)
	case "C20":
		c20(c)
	case "C21":
		c21(c)
	case "C22":
		c22(c)
	case "C23":
		c23(c)
	default:
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		os.Exit(2)
	}
	os.Exit(c.Finish())
}

// DSNs in the form of each dialect.
var dsn = map[D]string{
	model.PG: "postgres://u:p@localhost/db?sslmode=disable",
	model.CR: "postgres://u:p@localhost:26257/db?sslmode=disable",
	model.MY: "u:p@tcp(localhost:3306)/db",
	model.SP: "projects/p/instances/i/databases/d",
}

func viol(f string, a ...any) core.Result {
	return core.Result{Outcome: "violation", Viol: fmt.Sprintf(f, a...)}
}

// abnormal reports what no run may do.
func abnormal(r *Reply) string {
	switch {
	case r.Panic != "":
		return "panic: " + r.Panic
	case r.Hang:
		return "does not terminate"
	case r.Runaway:
		return "does not terminate (more than 20000 database calls)"
	}
	return ""
}

func skip(why string) core.Result { return core.Result{Outcome: "not judged: " + clip(why, 60)} }

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func list(ss []string) string { return strings.Join(ss, " | ") }

// history is the log in short form.
func history(r *Reply) string {
	var b strings.Builder
	for _, e := range r.Log {
		if e.Call == "next" || e.Call == "rclose" {
			if e.Err == "" {
				continue
			}
		}
		fmt.Fprintf(&b, "%d:%s", e.I, e.Call)
		if e.Text != "" {
			fmt.Fprintf(&b, "(%s)", clip(squash(e.Text), 90))
		}
		if e.Err != "" {
			fmt.Fprintf(&b, "!%s", clip(e.Err, 60))
		}
		b.WriteString("; ")
	}
	return clip(b.String(), 1500)
}
