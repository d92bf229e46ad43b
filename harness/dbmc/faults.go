package main

import (
	"fmt"
	"strings"
	"sync"

	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/core"
	"github.com/kunitsucom/ddlctl/pkg/internal/zzverif/fakedb"
)

// place is one fault at one driver call.
type place struct {
	i     int
	kind  string
	label string
}

type path []place

func (p path) faults() map[int]string {
	if len(p) == 0 {
		return nil
	}
	m := map[int]string{}
	for _, x := range p {
		m[x.i] = x.kind
	}
	return m
}

func (p path) String() string {
	if len(p) == 0 {
		return "no fault"
	}
	var ss []string
	for _, x := range p {
		ss = append(ss, x.label)
	}
	return strings.Join(ss, ", then ")
}

// explorer enumerates fault placements level by level: every call of every run at depth n is
// a place for the fault n+1.
type explorer struct {
	name  string
	job   func(p path) *Job
	log   func(r *Reply) []fakedb.Event // the log in which faults are placed
	kinds func(p path, e *fakedb.Event, r *Reply) []string
	judge func(p path, r *Reply) core.Result
	depth int
}

func (x *explorer) run(c *core.Ctx) {
	level := []path{nil}
	for d := 0; d <= x.depth && len(level) > 0; d++ {
		var mu sync.Mutex
		logs := make([]*Reply, len(level))
		var wg sync.WaitGroup
		for i, p := range level {
			i, p := i, p
			once := sync.Once{}
			key := x.name + ": " + p.String()
			wg.Add(1)
			queued := c.Do(key, func() core.Result {
				defer once.Do(wg.Done)
				r := pool.Run(x.job(p))
				mu.Lock()
				logs[i] = r
				mu.Unlock()
				if v := abnormal(r); v != "" {
					res := viol("%s", v)
					res.Detail = "log: " + history(r)
					return res
				}
				return x.judge(p, r)
			})
			if !queued {
				wg.Done()
				if c.Only != "" && d < x.depth && strings.HasPrefix(c.Only, x.name+": ") && (len(p) == 0 || strings.HasPrefix(c.Only, key+", ")) {
					logs[i] = pool.Run(x.job(p))
				}
			}
		}
		wg.Wait()
		if d == x.depth {
			return
		}
		var next []path
		for i, p := range level {
			r := logs[i]
			if r == nil || abnormal(r) != "" {
				continue
			}
			evs := x.log(r)
			count := map[string]int{}
			for k := range evs {
				e := &evs[k]
				count[e.Call]++
				if len(p) > 0 && e.I <= p[len(p)-1].i {
					continue
				}
				for _, kind := range x.kinds(p, e, r) {
					next = append(next, append(append(path{}, p...), place{e.I, kind, fmt.Sprintf("%s at %s %d", kind, e.Call, count[e.Call])}))
				}
			}
		}
		level = next
	}
}
