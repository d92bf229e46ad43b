// Package core is the explorer's run-time: it executes every enumerated case on a worker pool,
// turns panics and hangs into violations, re-runs violations, applies the list of known findings
// and writes the evidence and replay files.
package core

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Result of one explored case. Viol=="" means the property held on it.
type Result struct {
	Outcome string // short class of what was observed (for the distinct-outcome count)
	Viol    string // what is wrong
	Detail  string // everything needed to understand the case
	States  []string
	Trans   int
	Trace   bool // a model trace was compared with the implementation
}

type Case struct {
	Key string
	Run func() Result
}

type Violation struct {
	Property string   `json:"property"`
	Key      string   `json:"key"`
	What     string   `json:"what"`
	Detail   string   `json:"detail"`
	Runs     int      `json:"failed_of_5_runs"`
	Replay   string   `json:"replay_command"`
	Extra    []string `json:"-"`
}

type finding struct{ key, what string }

type Ctx struct {
	Property string
	Tier     string
	Deadline time.Time
	Only     string // replay: only this key
	Workers  int
	HangSec  int

	mu       sync.Mutex
	states   map[uint64]struct{}
	outcomes map[string]int
	families map[string]int
	samples  []string
	viols    []Violation
	seenKeys map[uint64]struct{}
	cases    int64
	trans    int64
	traces   int64
	skipped  int64
	dups     int64
	unstable []string
	ch       chan Case
	wg       sync.WaitGroup
	slots    []slot
	known    map[string]string
	knownSig map[string]string
	knownHit map[string]bool
	start    time.Time
	family   string
	NoDedup  bool
	Assump   []string
	Rule     string
	Level    string
	stopped  atomic.Bool
}

type slot struct {
	mu    sync.Mutex
	key   string
	since time.Time
}

// Progress is told by a case that runs many inputs which one it is at, for hangs.
type Progress struct {
	mu   sync.Mutex
	text string
}

var progress sync.Map // case key -> *Progress

func Track(key string) *Progress { p := &Progress{}; progress.Store(key, p); return p }

func (p *Progress) At(text string) { p.mu.Lock(); p.text = text; p.mu.Unlock() }

func lastText(key string) string {
	if v, ok := progress.Load(key); ok {
		p := v.(*Progress)
		p.mu.Lock()
		defer p.mu.Unlock()
		return fmt.Sprintf("text: %q", p.text)
	}
	return ""
}

func Hash(s string) uint64 { h := fnv.New64a(); _, _ = h.Write([]byte(s)); return h.Sum64() }

func New(property, tier string) *Ctx {
	c := &Ctx{Property: property, Tier: tier, Workers: runtime.NumCPU(), HangSec: 90, Level: "model_checking",
		states: map[uint64]struct{}{}, outcomes: map[string]int{}, families: map[string]int{}, seenKeys: map[uint64]struct{}{},
		known: map[string]string{}, knownSig: map[string]string{}, knownHit: map[string]bool{}, start: time.Now()}
	c.Only = os.Getenv("VERIF_ONLY_KEY")
	budget := 240 * time.Second
	if tier == "thorough" {
		budget = 3600 * time.Second
	}
	c.Deadline = c.start.Add(budget)
	c.loadKnown(os.Getenv("VERIF_KNOWN"))
	return c
}

func (c *Ctx) loadKnown(fn string) {
	f, err := os.Open(fn)
	if err != nil {
		return
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<24)
	for sc.Scan() {
		l := sc.Text()
		// finding: property=C04 key="..." what fails
		if !strings.HasPrefix(l, "finding: property="+c.Property+" key=") {
			continue
		}
		rest := strings.TrimPrefix(l, "finding: property="+c.Property+" key=")
		var key string
		n, err := fmt.Sscanf(rest, "%q", &key)
		if err != nil || n != 1 {
			continue
		}
		q := fmt.Sprintf("%q", key)
		tail := strings.TrimSpace(strings.TrimPrefix(rest, q))
		if strings.HasPrefix(tail, "sig=") {
			sig, what, _ := strings.Cut(strings.TrimPrefix(tail, "sig="), " ")
			c.knownSig[key], tail = sig, what
		}
		c.known[key] = tail
	}
}

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

func (c *Ctx) Start() {
	if fn := os.Getenv("VERIF_CPUPROFILE"); fn != "" {
		f, _ := os.Create(fn)
		_ = pprof.StartCPUProfile(f)
	}
	c.ch = make(chan Case, 4096)
	c.slots = make([]slot, c.Workers)
	for i := 0; i < c.Workers; i++ {
		c.wg.Add(1)
		go c.worker(i)
	}
	go c.watchdog()
}

func (c *Ctx) watchdog() {
	for {
		time.Sleep(500 * time.Millisecond)
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		full := ms.HeapAlloc > 14<<30
		oldest, at := "", time.Now()
		for i := range c.slots {
			s := &c.slots[i]
			s.mu.Lock()
			if s.key != "" && s.since.Before(at) {
				oldest, at = s.key, s.since
			}
			s.mu.Unlock()
		}
		if oldest == "" {
			continue
		}
		what := ""
		if time.Since(at) > time.Duration(c.HangSec)*time.Second {
			what = fmt.Sprintf("does not terminate (still running after %d s)", c.HangSec)
		} else if full && time.Since(at) > 2*time.Second {
			what = "does not terminate (memory grows without bound)"
		}
		if what == "" {
			continue
		}
		c.mu.Lock()
		if c.known[oldest] == "" {
			c.viols = append(c.viols, Violation{Property: c.Property, Key: oldest, What: what, Detail: lastText(oldest), Runs: 1})
		} else {
			c.knownHit[oldest] = true
		}
		c.mu.Unlock()
		os.Exit(c.finish())
	}
}

// Sig identifies what failed, so that a different failure of a listed case is still reported.
func Sig(what string) string { return fmt.Sprintf("%08x", uint32(Hash(what))) }

// Family labels the following cases for the evidence.
func (c *Ctx) Family(n string) { c.family = n }

// Do enqueues a case.
// Do queues a case; it reports whether the case will be run.
func (c *Ctx) Do(key string, run func() Result) bool {
	if c.Only != "" && key != c.Only {
		return false
	}
	if !c.NoDedup {
		h := Hash(key)
		if _, dup := c.seenKeys[h]; dup {
			c.dups++
			return false
		}
		c.seenKeys[h] = struct{}{}
	}
	if c.stopped.Load() || time.Now().After(c.Deadline) {
		c.stopped.Store(true)
		c.skipped++
		return false
	}
	c.families[c.family]++
	c.ch <- Case{key, run}
	return true
}

func (c *Ctx) safe(cs Case) (r Result) {
	defer func() {
		if p := recover(); p != nil {
			st := string(debug.Stack())
			r = Result{Outcome: "panic", Viol: fmt.Sprintf("panic: %v", p), Detail: firstRepoFrame(st)}
		}
	}()
	return cs.Run()
}

func firstRepoFrame(st string) string {
	var out []string
	for _, l := range strings.Split(st, "\n") {
		l = strings.TrimSpace(l)
		if strings.Contains(l, "/repo/") && !strings.Contains(l, "zzverif") {
			out = append(out, l)
			if len(out) == 4 {
				break
			}
		}
	}
	return strings.Join(out, " <- ")
}

func (c *Ctx) worker(i int) {
	defer c.wg.Done()
	s := &c.slots[i]
	for cs := range c.ch {
		s.mu.Lock()
		s.key, s.since = cs.Key, time.Now()
		s.mu.Unlock()
		r := c.safe(cs)
		n := 1
		if r.Viol != "" {
			for k := 0; k < 4; k++ {
				if r2 := c.safe(cs); r2.Viol != "" {
					n++
				}
			}
		}
		s.mu.Lock()
		s.key = ""
		s.mu.Unlock()
		c.record(cs, r, n)
	}
}

func (c *Ctx) record(cs Case, r Result, n int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.cases++
	c.trans += int64(r.Trans)
	if r.Trace {
		c.traces++
	}
	for _, st := range r.States {
		c.states[Hash(st)] = struct{}{}
	}
	if len(c.outcomes) < 200000 {
		c.outcomes[r.Outcome]++
	}
	if c.cases%997 == 1 && len(c.samples) < 12 {
		c.samples = append(c.samples, cs.Key+" -> "+clip(r.Outcome, 300))
	}
	if r.Viol == "" {
		return
	}
	if n < 3 {
		c.unstable = append(c.unstable, cs.Key+": "+r.Viol)
		return
	}
	if _, ok := c.known[cs.Key]; ok && (c.knownSig[cs.Key] == "" || c.knownSig[cs.Key] == Sig(r.Viol)) {
		c.knownHit[cs.Key] = true
		return
	}
	c.viols = append(c.viols, Violation{Property: c.Property, Key: cs.Key, What: r.Viol, Detail: r.Detail, Runs: n})
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// Finish waits for all cases, writes evidence and returns the exit status.
func (c *Ctx) Finish() int {
	close(c.ch)
	c.wg.Wait()
	pprof.StopCPUProfile()
	return c.finish()
}

func (c *Ctx) finish() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	sort.Slice(c.viols, func(i, j int) bool {
		if len(c.viols[i].Key) != len(c.viols[j].Key) {
			return len(c.viols[i].Key) < len(c.viols[j].Key)
		}
		return c.viols[i].Key < c.viols[j].Key
	})
	// known findings
	var kk []string
	for k := range c.knownHit {
		kk = append(kk, k)
	}
	sort.Strings(kk)
	for _, k := range kk {
		fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", c.Property, c.known[k], oneLine(k))
	}
	if c.Only == "" && !c.stopped.Load() {
		for k := range c.known {
			if !c.knownHit[k] {
				fmt.Printf("note: listed finding not reproduced: %s\n", oneLine(k))
			}
		}
	}
	outdir := os.Getenv("VERIF_OUT")
	if outdir == "" {
		outdir = os.TempDir()
	}
	rdir := filepath.Join(outdir, "replays")
	_ = os.MkdirAll(rdir, 0o755)
	max := 40
	if os.Getenv("VERIF_ALLVIOL") != "" {
		max = 1 << 30
	}
	for i, v := range c.viols {
		if i >= max {
			break
		}
		fn := filepath.Join(rdir, fmt.Sprintf("%s-%016x.json", c.Property, Hash(v.Key)))
		v.Replay = fmt.Sprintf("/verif/check %s %s --replay %s", c.Property, c.Tier, fn)
		b, _ := json.MarshalIndent(v, "", " ")
		_ = os.WriteFile(fn, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.Property, fn)
		if i < 10 || os.Getenv("VERIF_ALLVIOL") != "" {
			fmt.Printf("  case: %s\n  what: %s\n", oneLine(v.Key), clip(oneLine(v.What), 600))
			if v.Detail != "" {
				fmt.Printf("  detail: %s\n", clip(oneLine(v.Detail), 900))
			}
		}
	}
	if d := os.Getenv("VERIF_DUMP_VIOLS"); d != "" {
		f, _ := os.Create(d)
		for _, v := range c.viols {
			fmt.Fprintf(f, "finding: property=%s key=%q sig=%s %s\n", c.Property, v.Key, Sig(v.What), clip(oneLine(v.What), 200))
		}
		f.Close()
	}
	cov := map[string]any{
		"evaluations":                   c.cases,
		"distinct_nontrivial":           c.cases,
		"rule":                          c.Rule,
		"samples":                       c.samples,
		"states":                        len(c.states),
		"transitions":                   c.trans,
		"traces_validated_against_impl": c.traces,
		"distinct_outcomes":             len(c.outcomes),
		"cases_by_family":               c.families,
		"duplicate_cases_merged":        c.dups,
		"cases_skipped_by_deadline":     c.skipped,
		"exhaustive":                    c.skipped == 0 && c.Only == "",
		"known_findings_reproduced":     len(c.knownHit),
		"unstable_not_reported":         c.unstable,
	}
	if len(c.samples) == 0 {
		cov["samples"] = []string{"(none)"}
	}
	seed := 1
	_, _ = fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &seed)
	ev := map[string]any{"property": c.Property, "tier": c.Tier, "seed": seed, "level": c.Level, "coverage": cov,
		"wall_s": time.Since(c.start).Seconds(), "violations": len(c.viols), "assumptions": c.Assump}
	if c.Assump == nil {
		ev["assumptions"] = []string{}
	}
	if fn := os.Getenv("VERIF_EVIDENCE"); fn != "" && c.Only == "" {
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(fn, append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, "evidence:", err)
		}
	}
	fmt.Printf("%s %s: cases=%d states=%d transitions=%d traces=%d outcomes=%d known=%d violations=%d unstable=%d skipped=%d wall=%.1fs\n",
		c.Property, c.Tier, c.cases, len(c.states), c.trans, c.traces, len(c.outcomes), len(c.knownHit), len(c.viols), len(c.unstable), c.skipped, time.Since(c.start).Seconds())
	if len(c.viols) > 0 {
		return 1
	}
	return 0
}

func oneLine(s string) string {
	s = strings.ReplaceAll(s, "\n", `\n`)
	return s
}

// Expired reports whether the time budget is used up.
func (c *Ctx) Expired() bool { return c.stopped.Load() || time.Now().After(c.Deadline) }
