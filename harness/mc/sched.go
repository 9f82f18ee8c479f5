// Package mc is a controlled scheduler and stateless model checker for Go code whose synchronisation goes
// through the shims of this module.  One goroutine runs at a time; every visible operation is preceded by a
// scheduling point at which the explorer decides who goes on.
package mc

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"slices"
	"sort"
	"strings"
	"unsafe"
)

// Foot is one object an operation touches, and whether it may change it.
type Foot struct {
	Obj int
	W   bool
}

const objAll = -1

type op struct {
	kind    string
	feet    []Foot
	enabled func() bool // nil: always
	quiesce bool
}

func (o *op) isEnabled() bool { return o.enabled == nil || o.enabled() }

type thread struct {
	id            int
	name          string
	wake          chan struct{}
	op            *op
	done          bool
	vc            vclock
	harness       bool
	spin          int
	run           int
	yield         bool
	parentWaiting *thread
	panicked      bool
}

type timer struct {
	when   int64
	seq    int
	fire   func(now int64)
	vc     vclock
	active bool
}

// Exec is one execution.
type Exec struct {
	Calm       bool // from here on one schedule is enough: no alternatives are explored
	Reverse    bool // with delays bounded: the goroutine started last goes first
	id         uint64
	ex         *Explorer
	threads    []*thread
	cur        *thread
	doneCh     chan struct{}
	aborting   bool
	ended      bool
	now        int64
	timers     []*timer
	tseq       int
	timerLimit int64 // timers beyond this instant do not fire
	steps      int
	ticks      int
	lastTick   int
	trace      []string
	fail       *Failure
	nobj       int
	shadow     map[unsafe.Pointer]*cell
	chans      map[unsafe.Pointer]*chanState
	hist       []*Op
	histObj    int
	clockObj   int
	histClock  int
	pos        int
	cost       int
	sleep      []sleeper
	pruned     bool
	nondet     bool
	okPanic    func(v any, stack string) bool
	Panics     []string
	Data       map[string]any
	lastQ      *thread
	onEnd      []func()
}

type sleeper struct {
	tid  int // -1: the timer
	feet []Foot
}

// Failure is a property violation found in an execution.
type Failure struct {
	Kind string
	Msg  string
}

// E is the active execution, nil outside.
var E *Exec
var execSeq uint64
var watch uint64 // progress counter for the watchdog

// Active reports whether code runs under the controlled scheduler.
func Active() bool { return E != nil }

// Epoch identifies the execution (0 outside); shim objects living in package variables reset when it changes.
func Epoch() uint64 {
	if E == nil {
		return 0
	}
	return E.id
}

// Det makes the shims of clocks and random sources deterministic (set by programs that explore).
var Det bool

var resets []func()

// OnReset registers a function that restores a package's variables before each execution.
func OnReset(f func()) { resets = append(resets, f) }

// Reset restores the variables of the packages now.
func Reset() {
	for _, f := range resets {
		f()
	}
}

func (e *Exec) newThread(name string, f func(), harness bool) *thread {
	t := &thread{id: len(e.threads), name: name, wake: make(chan struct{}, 1), harness: harness}
	e.threads = append(e.threads, t)
	if e.cur != nil {
		t.vc = e.cur.vc.clone()
		e.cur.inc()
	}
	t.inc()
	go func() {
		<-t.wake
		defer func() {
			r := recover()
			if r != nil && !e.aborting {
				st := string(debug.Stack())
				t.panicked = true
				if e.okPanic != nil && e.okPanic(r, st) {
					e.Panics = append(e.Panics, fmt.Sprint(r))
				} else {
					e.setFail("panic", fmt.Sprintf("uncaught panic in goroutine %s: %v\n%s", t.name, r, trimStack(st)))
				}
			}
			t.done = true
			t.op = nil
			e.threadExit(t)
		}()
		if e.aborting {
			return
		}
		t.op = nil
		f()
	}()
	return t
}

func (t *thread) inc() { t.vc.set(t.id, t.vc.get(t.id)+1) }

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for i := 0; i < len(lines); i++ {
		l := lines[i]
		if strings.Contains(l, "runtime/debug") || strings.HasPrefix(l, "runtime.") || strings.HasPrefix(l, "panic(") ||
			strings.Contains(l, "verif.local/v/mc.") {
			i++
			continue
		}
		out = append(out, l)
		if len(out) > 24 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func (e *Exec) setFail(kind, msg string) {
	if e.fail == nil && !e.aborting {
		e.fail = &Failure{kind, msg}
	}
}

// threadExit runs in the exiting goroutine.
func (e *Exec) threadExit(t *thread) {
	switch {
	case e.aborting:
		e.abortNext()
	case e.fail != nil || t.id == 0:
		e.aborting = true
		e.abortNext()
	case t.parentWaiting != nil:
		p := t.parentWaiting
		t.parentWaiting = nil
		e.cur = p
		p.wake <- struct{}{}
	default:
		e.dispatch(nil)
	}
}

func (e *Exec) abortNext() {
	for _, t := range e.threads {
		if !t.done {
			e.cur = t
			t.wake <- struct{}{}
			return
		}
	}
	if !e.ended {
		e.ended = true
		close(e.doneCh)
	}
}

// stop ends the execution from the running thread (a failure was recorded or the path is pruned).
func (e *Exec) stop() {
	e.aborting = true
	runtime.Goexit()
}

// point is called by the running thread before a visible operation.
func (e *Exec) point(o *op) {
	if e.aborting {
		if !o.isEnabled() {
			runtime.Goexit()
		}
		return
	}
	if e.fail != nil {
		e.stop()
	}
	t := e.cur
	t.op = o
	if p := t.parentWaiting; p != nil {
		t.parentWaiting = nil
		e.cur = p
		p.wake <- struct{}{}
		<-t.wake
	} else {
		e.dispatch(t)
	}
	if e.aborting {
		t.op = nil
		runtime.Goexit()
	}
	t.op = nil
}

// spawn starts a goroutine and runs it up to its first scheduling point.
func (e *Exec) spawn(name string, f func(), harness bool) *thread {
	if e.aborting {
		runtime.Goexit()
	}
	parent := e.cur
	t := e.newThread(name, f, harness)
	t.parentWaiting = parent
	e.cur = t
	t.wake <- struct{}{}
	<-parent.wake
	if e.aborting {
		runtime.Goexit()
	}
	if e.fail != nil {
		e.stop()
	}
	return t
}

// spawnLazy creates a goroutine that starts when first scheduled (used by timers).
func (e *Exec) spawnLazy(name string, f func(), vc vclock) *thread {
	cur := e.cur
	e.cur = nil
	t := e.newThread(name, f, false)
	t.vc.join(vc)
	t.inc()
	t.op = &op{kind: "start"}
	e.cur = cur
	return t
}

type cand struct {
	t    *thread // nil: the timer
	cost int
}

func (e *Exec) feetOf(c cand) []Foot {
	if c.t == nil {
		return []Foot{{objAll, true}}
	}
	return c.t.op.feet
}

// dispatch picks who runs next. t is the thread giving up control (nil when it exits).
func (e *Exec) dispatch(t *thread) {
	for {
		watch++
		e.steps++
		e.lastTick = e.ticks
		if e.steps > e.ex.Horizon {
			e.setFail("livelock", fmt.Sprintf("no termination within %d steps; %s", e.ex.Horizon, e.describe()))
			e.endFrom(t)
			return
		}
		var cands []cand
		var quiesce *thread
		excl := false
		if t != nil {
			if t.op.quiesce {
				quiesce = t
			} else if t.op.isEnabled() {
				if t.yield || t.run > 400 {
					excl = true
				} else {
					cands = append(cands, cand{t, 0})
				}
			}
		}
		other := 0
		if len(cands) > 0 {
			other = 1
		}
		for _, u := range e.threads {
			if u == t || u.done || u.op == nil {
				continue
			}
			if u.op.quiesce {
				quiesce = u
				continue
			}
			if u.op.isEnabled() {
				if u.yield {
					continue
				}
				cands = append(cands, cand{u, other})
			}
		}
		if e.ex.Delay {
			if e.Reverse && other < len(cands) {
				slices.Reverse(cands[other:])
			}
			if other == 0 {
				for i := 1; i < len(cands); i++ {
					cands[i].cost = 1
				}
			}
		}
		if len(cands) == 0 {
			// let yielding threads go on
			for _, u := range e.threads {
				if u.yield {
					u.yield = false
					u.spin = 0
					if !u.done && u.op != nil && !u.op.quiesce && u.op.isEnabled() {
						cands = append(cands, cand{u, 0})
					}
				}
			}
			if excl && !(len(cands) > 0) {
				t.run = 0
				cands = append(cands, cand{t, 0})
			}
			// prefer time passing over a lone spinner
			if tm := e.nextTimer(); tm != nil && len(cands) > 0 {
				e.fireTimer(tm)
				continue
			}
		}
		tm := e.nextTimer()
		if tm != nil {
			c := e.ex.TimeCost
			if len(cands) == 0 {
				c = 0
			}
			if c >= 0 {
				cands = append(cands, cand{nil, c})
			}
		}
		if len(cands) == 0 {
			if quiesce != nil {
				cands = append(cands, cand{quiesce, 0})
			} else {
				e.setFail("deadlock", "all goroutines are blocked: "+e.describe())
				e.endFrom(t)
				return
			}
		}
		i := 0
		if (len(cands) > 1 || e.ex.sleepSets) && !e.Calm {
			i = e.ex.chooseThread(e, cands)
			if i < 0 {
				e.endFrom(t)
				return
			}
		}
		e.cost += cands[i].cost
		n := cands[i].t
		if e.ex.tracing {
			if n == nil {
				e.trace = append(e.trace, fmt.Sprintf("-- time passes to %dms", tm.when/1e6))
			} else {
				e.trace = append(e.trace, fmt.Sprintf("%s: %s", n.name, n.op.String()))
			}
		}
		if n == nil {
			e.fireTimer(tm)
			continue
		}
		for _, u := range e.threads {
			if u != n {
				u.yield = false
				u.run = 0
			}
		}
		n.yield = false
		n.run++
		if n == t {
			return
		}
		n.spin = 0
		if t != nil {
			t.spin = 0
		}
		e.cur = n
		n.wake <- struct{}{}
		if t != nil {
			<-t.wake
		}
		return
	}
}

// endFrom ends the execution from inside the scheduler.
func (e *Exec) endFrom(t *thread) {
	e.aborting = true
	if t == nil { // called by an exiting goroutine
		e.abortNext()
	}
	// otherwise point() sees aborting and unwinds; t keeps the baton
}

func (o *op) String() string {
	if o == nil {
		return "running"
	}
	s := o.kind
	for _, f := range o.feet {
		s += fmt.Sprintf(" #%d", f.Obj)
	}
	return s
}

func (e *Exec) describe() string {
	var ss []string
	for _, t := range e.threads {
		if !t.done {
			ss = append(ss, fmt.Sprintf("%s at [%s]", t.name, t.op.String()))
		}
	}
	return strings.Join(ss, ", ")
}

func (e *Exec) nextTimer() *timer {
	var best *timer
	for _, tm := range e.timers {
		if tm.active && tm.when <= e.timerLimit && (best == nil || tm.when < best.when || tm.when == best.when && tm.seq < best.seq) {
			best = tm
		}
	}
	return best
}

func (e *Exec) fireTimer(tm *timer) {
	if tm.when > e.now {
		e.now = tm.when
	}
	tm.active = false
	e.removeTimer(tm)
	tm.fire(e.now)
}

func (e *Exec) removeTimer(tm *timer) {
	for i, x := range e.timers {
		if x == tm {
			e.timers = append(e.timers[:i:i], e.timers[i+1:]...)
			return
		}
	}
}

// NewObj allocates an object id for footprints.
func (e *Exec) NewObj() int {
	e.nobj++
	return e.nobj
}

// Spin notes a failed attempt (TryLock, CAS, Gosched); a goroutine that keeps failing yields.
func Spin() {
	if e := E; e != nil && e.cur != nil {
		e.cur.spin++
		if e.cur.spin >= 2 {
			e.cur.yield = true
		}
	}
}

// Tick is called in every loop iteration of instrumented code.
func Tick() {
	if e := E; e != nil && !e.aborting {
		e.ticks++
		if e.ticks-e.lastTick > 3000000 {
			e.setFail("livelock", fmt.Sprintf("goroutine %s loops for ever without synchronising; %s", e.cur.name, e.describe()))
			e.stop()
		}
	}
}

// Point is a scheduling point for shims.
func Point(kind string, enabled func() bool, feet ...Foot) {
	E.point(&op{kind: kind, feet: feet, enabled: enabled})
}

// Choose is a free non-deterministic choice among n alternatives.
func Choose(n int) int {
	if E == nil || E.aborting || n <= 1 {
		return 0
	}
	return E.ex.chooseData(E, n, 0)
}

// ChooseCost is a choice where every alternative but the first costs c deviations.
func ChooseCost(n, c int) int {
	if E == nil || E.aborting || n <= 1 {
		return 0
	}
	return E.ex.chooseData(E, n, c)
}

// Aborting reports whether the execution is being torn down.
func Aborting() bool { return E != nil && E.aborting }

// Go starts a goroutine (the rewritten go statement).
func Go(f func()) {
	if E == nil {
		go f()
		return
	}
	n := fmt.Sprintf("g%d", len(E.threads))
	E.spawn(n, f, false)
}

// ---- API for scenarios ----

// Go starts a scenario goroutine.
func (e *Exec) Go(name string, f func()) { e.spawn(name, f, true) }

// Join waits until all scenario goroutines have finished (a deadlock is a failure).
func (e *Exec) Join() {
	me := e.cur
	e.point(&op{kind: "join", enabled: func() bool {
		for _, t := range e.threads {
			if t != me && t.harness && !t.done {
				return false
			}
		}
		return true
	}})
	e.acquireAll()
}

func (e *Exec) acquireAll() {
	for _, t := range e.threads {
		if t != e.cur {
			e.cur.vc.join(t.vc)
			t.inc()
		}
	}
}

// Quiesce waits until nothing else can run, letting at most `advance` nanoseconds of virtual time pass
// (negative: no limit).
func (e *Exec) Quiesce(advance int64) {
	old := e.timerLimit
	if advance >= 0 {
		e.timerLimit = e.now + advance
	}
	e.point(&op{kind: "quiesce", quiesce: true})
	e.timerLimit = old
	e.acquireAll()
}

// Blocked lists the scenario goroutines that have not finished.
func (e *Exec) Blocked() []string {
	var r []string
	for _, t := range e.threads {
		if t.harness && !t.done && t != e.cur {
			r = append(r, t.name+" at ["+t.op.String()+"]")
		}
	}
	return r
}

// Live counts goroutines started by the code under test that have not finished.
func (e *Exec) Live() int {
	n := 0
	for _, t := range e.threads {
		if !t.harness && !t.done && t.id != 0 {
			n++
		}
	}
	return n
}

// Fail records a violation and ends the execution.
func (e *Exec) Fail(format string, a ...any) {
	if e.aborting {
		return
	}
	e.setFail("property", fmt.Sprintf(format, a...))
	e.stop()
}

// Failed reports whether a violation is recorded.
func (e *Exec) Failed() bool { return e.fail != nil }

// Now is the virtual clock in nanoseconds.
func (e *Exec) Now() int64 { return e.now }

// Log adds a line to the trace.
func (e *Exec) Log(format string, a ...any) {
	if e.ex.tracing {
		n := "?"
		if e.cur != nil {
			n = e.cur.name
		}
		e.trace = append(e.trace, n+": "+fmt.Sprintf(format, a...))
	}
}

// OkPanic installs a predicate for panics that the scenario expects to end a goroutine.
func (e *Exec) OkPanic(f func(v any, stack string) bool) { e.okPanic = f }

// Self names the running goroutine.
func (e *Exec) Self() string { return e.cur.name }

// Yield is a scheduling point without effect.
func (e *Exec) Yield() { e.point(&op{kind: "yield"}) }

// Block waits until cond holds.
func (e *Exec) Block(kind string, cond func() bool) {
	e.point(&op{kind: kind, enabled: cond, feet: []Foot{{objAll, true}}})
}

var _ = sort.Ints
