package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/model"
)

type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

// Pool runs jobs in child processes: the command works on process-wide standard streams.
type Pool struct {
	free chan *proc
	base string
	n    int
	mu   sync.Mutex
}

func NewPool(n int) *Pool {
	p := &Pool{free: make(chan *proc, n)}
	p.base = os.Getenv("VERIF_SCRATCH")
	if p.base == "" {
		p.base = must(os.MkdirTemp("", "dbmc"))
	}
	for i := 0; i < n; i++ {
		p.free <- nil
	}
	return p
}

func (p *Pool) spawn() *proc {
	p.mu.Lock()
	p.n++
	dir := filepath.Join(p.base, fmt.Sprintf("w%d", p.n))
	p.mu.Unlock()
	_ = os.MkdirAll(dir, 0o755)
	c := exec.Command(must(os.Executable()))
	c.Env = append(os.Environ(), "VERIF_CHILD=1", "VERIF_CHILD_DIR="+dir, "GOMAXPROCS=2")
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	in, _ := c.StdinPipe()
	out, _ := c.StdoutPipe()
	if err := c.Start(); err != nil {
		panic(err)
	}
	return &proc{c, in, bufio.NewReaderSize(out, 1<<20)}
}

var hangAfter = 40 * time.Second

// Fresh executes one job in a process of its own.
func (p *Pool) Fresh(j *Job) *Reply {
	pr := <-p.free
	if pr != nil {
		_ = pr.in.Close()
		_ = pr.cmd.Wait()
	}
	p.free <- nil
	r := p.Run(j)
	return r
}

// Run executes one job.
func (p *Pool) Run(j *Job) *Reply {
	pr := <-p.free
	if pr == nil {
		pr = p.spawn()
	}
	b, _ := json.Marshal(j)
	_, _ = pr.in.Write(append(b, '\n'))
	type res struct {
		b   []byte
		err error
	}
	ch := make(chan res, 1)
	go func() {
		line, err := pr.out.ReadBytes('\n')
		ch <- res{line, err}
	}()
	var r Reply
	select {
	case x := <-ch:
		if x.err != nil || json.Unmarshal(x.b, &r) != nil {
			_ = pr.cmd.Process.Kill()
			_ = pr.cmd.Wait()
			p.free <- nil
			r.Panic = "the process ended: " + pr.cmd.ProcessState.String()
			return &r
		}
		if r.Runaway {
			_ = pr.cmd.Wait()
			p.free <- nil
			return &r
		}
	case <-time.After(hangAfter):
		_ = pr.cmd.Process.Kill()
		_ = pr.cmd.Wait()
		p.free <- nil
		return &Reply{Hang: true}
	}
	p.free <- pr
	return &r
}

// Stmt is one statement of a text: its tokens as written.
type Stmt struct {
	Toks []string
	Text string
}

func (s Stmt) String() string { return strings.Join(s.Toks, " ") }

// split reads a text as a sequence of statements: quotes and comments are respected.
func split(d model.Dialect, text string) (out []Stmt, err error) {
	ts, err := model.Lex(d, text)
	if err != nil {
		return nil, err
	}
	var cur Stmt
	start := -1
	end := 0
	for _, t := range ts {
		if t.Kind == 'p' && t.S == ";" {
			if len(cur.Toks) > 0 {
				cur.Text = text[start:end]
				out = append(out, cur)
			}
			cur, start = Stmt{}, -1
			continue
		}
		if start < 0 {
			start = t.Pos
		}
		end = t.Pos + len(t.Raw)
		cur.Toks = append(cur.Toks, t.Raw)
	}
	if len(cur.Toks) > 0 {
		cur.Text = text[start:end]
		out = append(out, cur)
	}
	return out, nil
}

func texts(ss []Stmt) (out []string) {
	for _, s := range ss {
		out = append(out, s.String())
	}
	return
}
