package mc

import (
	"encoding/json"
	"fmt"
	"os"
	"sync/atomic"
	"time"
	"unsafe"
)

type node struct {
	n     int // alternatives
	i     int // current
	data  bool
	costs []int
	base  int // cost before this choice
	tids  []int
	feet  [][]Foot
	sleep []sleeper
	sig   uint64
}

// Explorer enumerates the executions of one scenario.
type Explorer struct {
	Bound     int // deviation bound; <0: unbounded
	Horizon   int
	TimeCost  int // cost of letting time pass while something can run; <0: never
	NoRace    bool
	Delay     bool // every deviation from the default order counts, not only preemptions
	sleepSets bool
	Deadline  time.Time
	MaxExecs  int

	path    []*node
	replay  []int
	tracing bool

	Execs       int
	Steps       int
	Nodes       int
	Pruned      int
	Nondet      int
	Completed   bool
	MaxDepth    int
	CutByBudget bool
	BoundHit    bool // some alternative was skipped because of the bound
}

// Result of exploring.
type Result struct {
	Fail  *Failure
	Trace []string
	Path  []int
	Hist  []string
}

func (x *Explorer) chooseThread(e *Exec, cands []cand) int {
	var sig uint64 = 14695981039346656037
	for _, c := range cands {
		id := uint64(999)
		if c.t != nil {
			id = uint64(c.t.id)
		}
		sig = (sig ^ id) * 1099511628211
	}
	if x.sleepSets {
		return x.chooseSleep(e, cands, sig)
	}
	costs := make([]int, len(cands))
	for i, c := range cands {
		costs[i] = c.cost
	}
	return x.choose(e, len(cands), costs, false, sig)
}

func (x *Explorer) chooseData(e *Exec, n, c int) int {
	costs := make([]int, n)
	for i := 1; i < n; i++ {
		costs[i] = c
	}
	i := x.choose(e, n, costs, true, uint64(n))
	if i < 0 {
		// nondeterminism detected in the middle of an operation
		e.stop()
	}
	e.cost += costs[i]
	if x.tracing {
		e.trace = append(e.trace, fmt.Sprintf("   choice %d of %d", i, n))
	}
	return i
}

func (x *Explorer) choose(e *Exec, n int, costs []int, data bool, sig uint64) int {
	if e.pos < len(x.path) {
		nd := x.path[e.pos]
		if nd.n != n || nd.data != data || nd.sig != sig {
			e.nondet = true
			return -1
		}
		e.pos++
		return nd.i
	}
	nd := &node{n: n, costs: costs, base: e.cost, data: data, sig: sig}
	if x.replay != nil && e.pos < len(x.replay) && x.replay[e.pos] < n {
		nd.i = x.replay[e.pos]
	}
	x.path = append(x.path, nd)
	x.Nodes++
	e.pos++
	return nd.i
}

func dependent(a, b []Foot) bool {
	for _, f := range a {
		if f.Obj == objAll {
			return true
		}
		for _, g := range b {
			if g.Obj == objAll || f.Obj == g.Obj && (f.W || g.W) {
				return true
			}
		}
	}
	for _, g := range b {
		if g.Obj == objAll {
			return true
		}
	}
	return false
}

func (x *Explorer) chooseSleep(e *Exec, cands []cand, sig uint64) int {
	var nd *node
	if e.pos < len(x.path) {
		nd = x.path[e.pos]
		if nd.n != len(cands) || nd.data || nd.sig != sig {
			e.nondet = true
			return -1
		}
	} else {
		nd = &node{n: len(cands), base: e.cost, sig: sig, i: -1}
		for _, c := range cands {
			id := -1
			if c.t != nil {
				id = c.t.id
			}
			nd.tids = append(nd.tids, id)
			nd.feet = append(nd.feet, e.feetOf(c))
		}
		nd.sleep = append([]sleeper(nil), e.sleep...)
		nd.i = nd.next(0)
		if x.replay != nil && e.pos < len(x.replay) && x.replay[e.pos] < nd.n {
			nd.i = x.replay[e.pos]
		}
		if nd.i < 0 {
			e.pruned = true
			return -1
		}
		x.path = append(x.path, nd)
		x.Nodes++
	}
	e.pos++
	// sleep set of the child
	var s []sleeper
	me := nd.feet[nd.i]
	for _, sl := range nd.sleep {
		if !dependent(sl.feet, me) {
			s = append(s, sl)
		}
	}
	for j := 0; j < nd.i; j++ {
		if !nd.asleep(j) && !dependent(nd.feet[j], me) {
			s = append(s, sleeper{nd.tids[j], nd.feet[j]})
		}
	}
	e.sleep = s
	return nd.i
}

func (nd *node) asleep(j int) bool {
	for _, s := range nd.sleep {
		if s.tid == nd.tids[j] {
			return true
		}
	}
	return false
}

func (nd *node) next(from int) int {
	for j := from; j < nd.n; j++ {
		if nd.tids == nil || !nd.asleep(j) {
			return j
		}
	}
	return -1
}

// backtrack moves to the next path; false when done.
func (x *Explorer) backtrack() bool {
	for len(x.path) > 0 {
		nd := x.path[len(x.path)-1]
		for j := nd.i + 1; j < nd.n; j++ {
			if nd.tids != nil {
				if nd.asleep(j) {
					continue
				}
			} else if x.Bound >= 0 && nd.base+nd.costs[j] > x.Bound {
				x.BoundHit = true
				continue
			}
			nd.i = j
			return true
		}
		x.path = x.path[:len(x.path)-1]
	}
	return false
}

func (x *Explorer) runOnce(body func(e *Exec)) *Exec {
	execSeq++
	e := &Exec{id: execSeq, ex: x, doneCh: make(chan struct{}),
		shadow: map[unsafe.Pointer]*cell{}, chans: map[unsafe.Pointer]*chanState{}, Data: map[string]any{}, timerLimit: 1<<63 - 1}
	e.histObj = e.NewObj()
	e.clockObj = e.NewObj()
	E = nil
	for _, f := range resets {
		f()
	}
	E = e
	t := e.newThread("main", func() { body(e) }, false)
	e.cur = t
	t.wake <- struct{}{}
	<-e.doneCh
	E = nil
	for _, f := range e.onEnd {
		f()
	}
	x.Execs++
	x.Steps += e.steps
	if e.pos > x.MaxDepth {
		x.MaxDepth = e.pos
	}
	return e
}

// OnEnd registers a cleanup that runs after the execution.
func (e *Exec) OnEnd(f func()) { e.onEnd = append(e.onEnd, f) }

// Explore runs all executions within the bound.
func (x *Explorer) Explore(body func(e *Exec)) *Result {
	if x.Horizon == 0 {
		x.Horizon = 20000
	}
	x.sleepSets = x.Bound < 0
	x.path = nil
	x.Completed = false
	for {
		e := x.runOnce(body)
		if e.nondet {
			x.Nondet++
			if x.Nondet > 3 {
				x.CutByBudget = true
				return nil
			}
		}
		if e.pruned {
			x.Pruned++
		}
		if e.fail != nil && !e.nondet {
			r := &Result{Fail: e.fail}
			for _, nd := range x.path {
				r.Path = append(r.Path, nd.i)
			}
			x.tracing = true
			e2 := x.runOnce(body)
			x.tracing = false
			r.Trace = e2.trace
			if e2.fail == nil {
				// not reproducible under the same choices: outside what the scheduler controls
				x.Nondet++
				x.CutByBudget = true
				return nil
			}
			r.Fail = e2.fail
			r.Hist = e2.histStrings()
			return r
		}
		if !x.backtrack() {
			x.Completed = true
			return nil
		}
		if x.MaxExecs > 0 && x.Execs >= x.MaxExecs || !x.Deadline.IsZero() && time.Now().After(x.Deadline) {
			x.CutByBudget = true
			return nil
		}
	}
}

// Replay runs one execution along a recorded path, with a trace.
func (x *Explorer) Replay(path []int, body func(e *Exec)) *Result {
	if x.Horizon == 0 {
		x.Horizon = 20000
	}
	x.sleepSets = x.Bound < 0
	x.tracing = true
	x.replay = path
	e := x.runOnce(body)
	x.tracing = false
	x.replay = nil
	if e.fail == nil {
		return nil
	}
	return &Result{Fail: e.fail, Trace: e.trace, Path: path, Hist: e.histStrings()}
}

// StartWatchdog ends the process when an execution makes no progress for a long time.
func StartWatchdog(d time.Duration, f func()) {
	go func() {
		last, since := uint64(0), time.Now()
		for {
			time.Sleep(500 * time.Millisecond)
			w := atomic.LoadUint64(&watch)
			if w != last || E == nil {
				last, since = w, time.Now()
			} else if time.Since(since) > d {
				f()
				since = time.Now()
			}
		}
	}()
}

var _ = json.Marshal
var _ = os.Exit
