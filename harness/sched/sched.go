// Package sched runs two operations under a controlled schedule: the code under test is compiled
// with a call of P before every statement, and the explorer decides at which of these points one
// operation is preempted by the other.
package sched

import (
	"fmt"
	"sync/atomic"
	"time"
	"unsafe"
)

//go:linkname getLabel runtime/pprof.runtime_getProfLabel
func getLabel() unsafe.Pointer

//go:linkname setLabel runtime/pprof.runtime_setProfLabel
func setLabel(unsafe.Pointer)

type task struct {
	n      atomic.Int64 // points passed
	stop   atomic.Int64 // point at which control goes back to the explorer; 0: never
	resume chan struct{}
	event  chan struct{}
	done   atomic.Bool
	record bool
	at     []int32
}

// P is a scheduling point.
func P(loc int32) {
	if p := getLabel(); p != nil {
		(*task)(p).point(loc)
	}
}

func (t *task) point(loc int32) {
	if t.record {
		t.at = append(t.at, loc)
	}
	if n := t.n.Add(1); n == t.stop.Load() {
		t.event <- struct{}{}
		<-t.resume
	}
}

// Seg lets a task run until it has passed Until points (0: to its end).
type Seg struct {
	Task  int
	Until int64
}

// Result of one schedule.
type Result struct {
	Points  [2]int64
	At      [2][]int32 // the statements passed, when recorded
	Blocked bool       // an operation waited for the preempted one (a lock); both were then let run
	Hang    bool
}

var timeouts atomic.Int64

func patience() time.Duration {
	if timeouts.Load() > 20 {
		return 3 * time.Millisecond
	}
	return 100 * time.Millisecond
}

// Run executes f and g under the schedule; unfinished tasks run to their end in the order 0, 1.
func Run(f, g func(), record bool, segs ...Seg) Result {
	var ts [2]*task
	for i, fn := range []func(){f, g} {
		t := &task{resume: make(chan struct{}, 1), event: make(chan struct{}, 2), record: record}
		ts[i] = t
		fn := fn
		go func() {
			<-t.resume
			setLabel(unsafe.Pointer(t))
			defer func() {
				setLabel(nil)
				t.done.Store(true)
				t.event <- struct{}{}
			}()
			fn()
		}()
	}
	var res Result
	segs = append(append([]Seg{}, segs...), Seg{0, 0}, Seg{1, 0})
	timer := time.NewTimer(time.Hour)
	defer timer.Stop()
	var last *task
	for _, s := range segs {
		t := ts[s.Task]
		if t.done.Load() {
			continue
		}
		if s.Until > 0 && s.Until <= t.n.Load() {
			continue
		}
		t.stop.Store(s.Until)
		last = t
		t.resume <- struct{}{}
		if !timer.Stop() {
			select {
			case <-timer.C:
			default:
			}
		}
		timer.Reset(patience())
		select {
		case <-t.event:
		case <-timer.C:
			// it waits for the other one: let both go
			timeouts.Add(1)
			res.Blocked = true
			for _, o := range ts {
				o.stop.Store(0)
				if o != last && !o.done.Load() {
					select {
					case o.resume <- struct{}{}:
					default:
					}
				}
			}
			end := time.After(30 * time.Second)
			for _, o := range ts {
				for !o.done.Load() {
					select {
					case <-o.event:
						if !o.done.Load() {
							select {
							case o.resume <- struct{}{}:
							default:
							}
						}
					case <-end:
						res.Hang = true
						return res
					}
				}
			}
		}
		if res.Blocked {
			break
		}
	}
	res.Points = [2]int64{ts[0].n.Load(), ts[1].n.Load()}
	res.At = [2][]int32{ts[0].at, ts[1].at}
	return res
}

// Stops are the points at which an operation is preempted: with all, every point; else, for every
// statement, the first two times and the last time it is executed.
func Stops(at []int32, all bool) []int64 {
	var out []int64
	seen, last := map[int32]int{}, map[int32]int{}
	for i, l := range at {
		last[l] = i
	}
	for i, l := range at {
		seen[l]++
		if all || seen[l] <= 2 || last[l] == i {
			out = append(out, int64(i+1))
		}
	}
	return out
}

func (s Seg) String() string {
	if s.Until == 0 {
		return fmt.Sprintf("%c to its end", 'A'+rune(s.Task))
	}
	return fmt.Sprintf("%c to point %d", 'A'+rune(s.Task), s.Until)
}
