package main

import (
	"bufio"
	"context"
	"database/sql/driver"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	_ "unsafe" // linkname

	"github.com/kunitsucom/ddlctl/pkg/ddlctl"
	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/fakedb"
	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/model"
)

//go:linkname sqlDrivers database/sql.drivers
var sqlDrivers map[string]driver.Driver

// what is added at random to the pauses of the retry library: the least or the most
//
//go:linkname jitterHigh github.com/kunitsucom/util.go/retry.verifHigh
var jitterHigh bool

//go:linkname sqlDriversMu database/sql.driversMu
var sqlDriversMu sync.RWMutex

// DBSpec is a modelled database a job may connect to.
type DBSpec struct {
	D      model.Dialect `json:"d"`
	Text   string        `json:"text"`
	Other  string        `json:"other,omitempty"`
	Views  []string      `json:"views,omitempty"`
	Holes  int           `json:"holes,omitempty"`
	Perm   string        `json:"perm,omitempty"`
	Accept bool          `json:"accept,omitempty"`
}

// Job is one run of the command line in process.
type Job struct {
	Args   []string          `json:"args"`
	Env    map[string]string `json:"env,omitempty"`
	Files  map[string]string `json:"files,omitempty"`
	DBs    map[string]DBSpec `json:"dbs,omitempty"`
	Faults map[int]string    `json:"faults,omitempty"`
	Jitter bool              `json:"jitter,omitempty"` // pauses are as long as chance may make them, not as short
	Stdin  string            `json:"stdin,omitempty"`
	Kind   string            `json:"kind,omitempty"` // pipe (default), closed, dir, hang
	Expect []string          `json:"expect,omitempty"`
	Keep   string            `json:"keep,omitempty"` // name of a file whose content is returned
	Then   []Job             `json:"then,omitempty"` // further runs against the same databases
	Links  map[string]string `json:"links,omitempty"`
	Maps   []int             `json:"maps,omitempty"` // where the iteration over each map starts
	Cwd    string            `json:"cwd,omitempty"`
	// what others do between the moment something is shown and the execution
	Meanwhile *Change `json:"meanwhile,omitempty"`
	Stderr    bool    `json:"stderr,omitempty"` // capture what is written to standard error
}

// Change is what others do to databases and files.
type Change struct {
	DBs   map[string]string `json:"dbs,omitempty"`
	Files map[string]string `json:"files,omitempty"`
}

// Reply is what was observed.
type Reply struct {
	LoadErr string                       `json:"load_err,omitempty"`
	Out     string                       `json:"out"`
	Err     string                       `json:"err"`
	Panic   string                       `json:"panic,omitempty"`
	Log     []fakedb.Event               `json:"log"`
	Before  map[string]*model.Schema     `json:"before,omitempty"`
	After   map[string]*model.Schema     `json:"after,omitempty"`
	Unsup   string                       `json:"unsup,omitempty"`
	Early   bool                         `json:"early,omitempty"` // an answer had to be given before the statements were shown
	Hang    bool                         `json:"hang,omitempty"`
	Runaway bool                         `json:"runaway,omitempty"`
	Kept    string                       `json:"kept,omitempty"`
	Stderr  string                       `json:"stderr,omitempty"`
	NoFile  bool                         `json:"no_file,omitempty"` // the file to keep does not exist
	Choices []int                        `json:"choices,omitempty"` // the number of starts of each iteration over a map
	Then    []Reply                      `json:"then,omitempty"`
	_       map[string]map[string]string `json:"-"`
}

func (r *Reply) execs(dsn string) (out []fakedb.Event) {
	for _, e := range r.Log {
		if e.Call == "exec" && e.DSN == dsn {
			out = append(out, e)
		}
	}
	return
}

func childMain() {
	in := os.NewFile(uintptr(must(syscall.Dup(0))), "jobs")
	out := os.NewFile(uintptr(must(syscall.Dup(1))), "replies")
	sqlDriversMu.Lock()
	for _, n := range []string{"postgres", "mysql", "spanner"} {
		sqlDrivers[n] = &fakedb.Driver{Name: n}
	}
	sqlDriversMu.Unlock()
	base := os.Getenv("VERIF_CHILD_DIR")
	rd := bufio.NewReaderSize(in, 1<<20)
	enc := json.NewEncoder(out)
	for n := 0; ; n++ {
		line, err := rd.ReadBytes('\n')
		if err != nil {
			return
		}
		var j Job
		if err := json.Unmarshal(line, &j); err != nil {
			panic(err)
		}
		dir := filepath.Join(base, fmt.Sprint(n))
		_ = os.MkdirAll(dir, 0o755)
		r := runJob(&j, dir, enc)
		_ = os.Chdir(base)
		_ = os.RemoveAll(dir)
		if err := enc.Encode(r); err != nil {
			return
		}
	}
}

func must[T any](v T, err error) T {
	if err != nil {
		panic(err)
	}
	return v
}

func runJob(j *Job, dir string, enc *json.Encoder) *Reply {
	dbs := map[string]*fakedb.DB{}
	first := &Reply{Before: map[string]*model.Schema{}}
	for dsn, sp := range j.DBs {
		db := &fakedb.DB{D: sp.D, Views: sp.Views, Holes: sp.Holes, Perm: sp.Perm}
		if err := db.Load(sp.Text); err != nil {
			first.LoadErr = err.Error()
			return first
		}
		db.Accept = sp.Accept
		if sp.Other != "" {
			o := &fakedb.DB{D: sp.D}
			if err := o.Load(sp.Other); err != nil {
				first.LoadErr = err.Error()
				return first
			}
			db.Other = o.Schema
		}
		dbs[dsn] = db
		first.Before[dsn] = db.Schema.Clone()
	}
	oneRun(j, dir, dbs, first, enc)
	for i := range j.Then {
		r := &Reply{}
		oneRun(&j.Then[i], dir, dbs, r, enc)
		first.Then = append(first.Then, *r)
	}
	return first
}

func oneRun(j *Job, dir string, dbs map[string]*fakedb.DB, r *Reply, enc *json.Encoder) {
	_ = os.Chdir(dir)
	for n, c := range j.Files {
		p := filepath.Join(dir, n)
		_ = os.MkdirAll(filepath.Dir(p), 0o755)
		if strings.HasSuffix(n, "/") {
			_ = os.MkdirAll(p, 0o755)
			continue
		}
		_ = os.WriteFile(p, []byte(c), 0o644)
	}
	for n, to := range j.Links {
		p := filepath.Join(dir, n)
		_ = os.MkdirAll(filepath.Dir(p), 0o755)
		_ = os.Symlink(to, p)
	}
	if j.Cwd != "" {
		_ = os.Chdir(filepath.Join(dir, j.Cwd))
	}
	args := make([]string, len(j.Args))
	for i, a := range j.Args {
		args[i] = strings.ReplaceAll(a, "@DIR@", dir)
	}
	outF := must(os.CreateTemp(filepath.Dir(dir), "out"))
	defer os.Remove(outF.Name())
	if j.Stderr {
		errF := must(os.CreateTemp(filepath.Dir(dir), "err"))
		saved := must(syscall.Dup(2))
		_ = syscall.Dup3(int(errF.Fd()), 2, 0)
		defer func() {
			_ = syscall.Dup3(saved, 2, 0)
			_ = syscall.Close(saved)
			b, _ := os.ReadFile(errF.Name())
			r.Stderr = string(b)
			_ = errF.Close()
			_ = os.Remove(errF.Name())
		}()
	}
	var inF *os.File
	var once sync.Once
	meanwhile := func() {
		once.Do(func() {
			for n, c := range j.Meanwhile.Files {
				_ = os.WriteFile(filepath.Join(dir, n), []byte(c), 0o644)
			}
			for dsn, text := range j.Meanwhile.DBs {
				_ = dbs[dsn].Load(text)
			}
		})
	}
	var answered atomic.Bool
	done := make(chan struct{})
	var wg sync.WaitGroup
	switch j.Kind {
	case "closed":
		rp, wp, _ := os.Pipe()
		rp.Close()
		wp.Close()
		inF = rp
	case "dir":
		inF = must(os.Open(dir))
	default:
		rp, wp, _ := os.Pipe()
		inF = rp
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer wp.Close()
			start := time.Now()
			for {
				b, _ := os.ReadFile(outF.Name())
				if shown(string(b), j.Expect) {
					break
				}
				select {
				case <-done:
					return
				case <-time.After(200 * time.Microsecond):
				}
				if time.Since(start) > 6*time.Second {
					r.Early = true
					break
				}
			}
			if j.Meanwhile != nil && len(j.Expect) > 0 {
				meanwhile()
			}
			answered.Store(true)
			if j.Kind == "hang" { // a user who never answers
				<-done
				return
			}
			_, _ = wp.WriteString(j.Stdin)
		}()
	}
	w := &fakedb.World{DBs: dbs, Faults: j.Faults, Answered: answered.Load,
		OutLen: func() int {
			st, err := outF.Stat()
			if err != nil {
				return 0
			}
			return int(st.Size())
		}}
	if j.Meanwhile != nil {
		w.Meanwhile = meanwhile
	}
	w.Runaway = func() {
		w.Log = w.Log[:50]
		r.Runaway, r.Log = true, w.Log
		_ = enc.Encode(r)
		os.Exit(0)
	}
	fakedb.SetWorld(w)
	jitterHigh = j.Jitter
	for _, kv := range os.Environ() {
		if strings.HasPrefix(kv, "DDLCTL_") {
			os.Unsetenv(kv[:strings.IndexByte(kv, '=')])
		}
	}
	for k, v := range j.Env {
		os.Setenv(k, v)
	}
	oldOut, oldIn, oldArgs := os.Stdout, os.Stdin, os.Args
	os.Stdout, os.Stdin = outF, inF
	os.Args = append([]string{"ddlctl"}, args...)
	func() {
		defer func() {
			if p := recover(); p != nil {
				r.Panic = fmt.Sprintf("%v @ %s", p, frames(string(debug.Stack())))
			}
		}()
		defer controlMaps(j.Maps, r)()
		if err := ddlctl.DDLCtl(context.Background()); err != nil {
			r.Err = err.Error()
			if r.Err == "" {
				r.Err = "(error without text)"
			}
		}
	}()
	os.Stdout, os.Stdin, os.Args = oldOut, oldIn, oldArgs
	close(done)
	inF.Close() // an answer nobody reads must not block
	wg.Wait()
	b, _ := os.ReadFile(outF.Name())
	outF.Close()
	r.Out = string(b)
	r.Log = w.Log
	r.Unsup = w.Unsupported
	r.After = map[string]*model.Schema{}
	for dsn, db := range dbs {
		r.After[dsn] = db.Schema.Clone()
	}
	if j.Keep != "" {
		if b, err := os.ReadFile(filepath.Join(dir, j.Keep)); err == nil {
			r.Kept = string(b)
		} else {
			r.NoFile = true
		}
	}
}

func frames(st string) string {
	var out []string
	for _, l := range strings.Split(st, "\n") {
		l = strings.TrimSpace(l)
		if strings.Contains(l, "/repo/") && !strings.Contains(l, "zzverif") {
			out = append(out, l)
			if len(out) == 3 {
				break
			}
		}
	}
	return strings.Join(out, " <- ")
}

// shown: every statement of the list appears in the output, in order.
func shown(out string, list []string) bool {
	o := squash(out)
	at := 0
	for _, s := range list {
		i := strings.Index(o[at:], s)
		if i < 0 {
			return false
		}
		at += i + len(s)
	}
	return true
}

func squash(s string) string { return strings.Join(strings.Fields(s), " ") }
