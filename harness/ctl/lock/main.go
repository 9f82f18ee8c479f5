// Controlled exploration of package lock (C09 to C12).
package main

import (
	"fmt"
	"math"
	"slices"
	"strings"
	"time"

	"github.com/donnie4w/gofer/lock"
	"verif.local/v/mc"
	"verif.local/v/run"
	"verif.local/v/shim/context"
	"verif.local/v/shim/sync"
	vtime "verif.local/v/shim/time"
)

const ms = time.Millisecond

func main() {
	run.Main(map[string]run.Maker{"C09": c09, "C10": c10, "C11": c11, "C12": c12})
}

// ---- C09 ----

// keySpec: state is the sorted list of holders "k:w" or "k:r".
func keySpec() mc.Spec {
	return mc.SpecFunc{I: "", F: func(s string, o *mc.Op) []string {
		var held []string
		if s != "" {
			held = strings.Split(s, "|")
		}
		k := o.In.(string)
		w, rd := 0, 0
		for _, h := range held {
			switch h {
			case k + ":w":
				w++
			case k + ":r":
				rd++
			}
		}
		with := func(x string) []string {
			n := append(slices.Clone(held), x)
			slices.Sort(n)
			return []string{strings.Join(n, "|")}
		}
		without := func(x string) []string {
			i := slices.Index(held, x)
			if i < 0 {
				return nil
			}
			return []string{strings.Join(slices.Delete(slices.Clone(held), i, i+1), "|")}
		}
		switch o.Name {
		case "WantLock": // a waiting writer keeps new readers out
			return with(k + ":p")
		case "Lock":
			if w+rd > 0 {
				return nil
			}
			held = slices.Delete(slices.Clone(held), slices.Index(held, k+":p"), slices.Index(held, k+":p")+1)
			return with(k + ":w")
		case "RLock":
			if w > 0 {
				return nil
			}
			return with(k + ":r")
		case "TryLock", "TryRLock":
			var r []string
			if o.Ret == 0 || o.Out == false {
				// keys may share a mutex: any holder justifies a refusal
				for _, h := range held {
					if o.Name == "TryLock" || !strings.HasSuffix(h, ":r") {
						r = append(r, s)
						break
					}
				}
			}
			if o.Ret == 0 || o.Out == true {
				if o.Name == "TryLock" && w+rd == 0 {
					r = append(r, with(k+":w")...)
				}
				if o.Name == "TryRLock" && w == 0 {
					r = append(r, with(k+":r")...)
				}
			}
			return r
		case "Unlock":
			return without(k + ":w")
		case "RUnlock":
			return without(k + ":r")
		}
		panic(o.Name)
	}}
}

type numProg struct {
	name string
	run  func(e *mc.Exec, l *lock.Numlock)
}

func kname(k int64) string { return fmt.Sprint(k) }

func nLock(e *mc.Exec, l *lock.Numlock, k int64) *sync.Mutex {
	var m *sync.Mutex
	e.Do("WantLock", kname(k), func() any { return nil })
	e.Do("Lock", kname(k), func() any {
		m = l.Lock(k)
		if m == nil {
			e.Fail("Lock(%d) returned no mutex", k)
		}
		if m.TryLock() {
			e.Fail("Lock(%d) returned a mutex that is not locked", k)
		}
		return nil
	})
	return m
}
func nTry(e *mc.Exec, l *lock.Numlock, k int64) (*sync.Mutex, bool) {
	var m *sync.Mutex
	ok := e.Do("TryLock", kname(k), func() any {
		x, ok := l.TryLock(k)
		m = x
		if ok && x == nil {
			e.Fail("TryLock(%d) returned true and no mutex", k)
		}
		if ok && x.TryLock() {
			e.Fail("TryLock(%d) returned a mutex that is not locked", k)
		}
		return ok
	}).(bool)
	return m, ok
}
func nUnlock(e *mc.Exec, l *lock.Numlock, k int64) {
	e.Do("Unlock", kname(k), func() any { l.Unlock(k); return nil })
}

func numProgs(keys []int64) (r []numProg) {
	for _, k := range keys {
		r = append(r,
			numProg{fmt.Sprintf("L%d", k), func(e *mc.Exec, l *lock.Numlock) { nLock(e, l, k); nUnlock(e, l, k) }},
			numProg{fmt.Sprintf("T%d", k), func(e *mc.Exec, l *lock.Numlock) {
				if _, ok := nTry(e, l, k); ok {
					nUnlock(e, l, k)
				}
			}})
	}
	k, q := keys[0], keys[len(keys)-1]
	r = append(r,
		numProg{"Lm", func(e *mc.Exec, l *lock.Numlock) {
			m := nLock(e, l, k)
			e.Do("Unlock", kname(k), func() any { m.Unlock(); return nil })
		}},
		numProg{"LT", func(e *mc.Exec, l *lock.Numlock) {
			nLock(e, l, k)
			nTry(e, l, k)
			nUnlock(e, l, k)
		}},
		numProg{"TT", func(e *mc.Exec, l *lock.Numlock) {
			m, ok := nTry(e, l, k)
			_, ok2 := nTry(e, l, q)
			if ok2 {
				nUnlock(e, l, q)
			}
			if ok {
				e.Do("Unlock", kname(k), func() any { m.Unlock(); return nil })
			}
		}})
	return
}

type strProg struct {
	name string
	run  func(e *mc.Exec, l *lock.Strlock)
}

func strProgs(keys []string) (r []strProg) {
	type L = *lock.Strlock
	held := func(e *mc.Exec, what, k string, m *sync.RWMutex, write bool) {
		if m == nil {
			e.Fail("%s(%q) returned no mutex", what, k)
		}
		if m.TryLock() || write && m.TryRLock() {
			e.Fail("%s(%q) returned a mutex that is not locked", what, k)
		}
	}
	lockF := func(e *mc.Exec, l L, k string) (m *sync.RWMutex) {
		e.Do("WantLock", k, func() any { return nil })
		e.Do("Lock", k, func() any { m = l.Lock(k); held(e, "Lock", k, m, true); return nil })
		return
	}
	rlock := func(e *mc.Exec, l L, k string) (m *sync.RWMutex) {
		e.Do("RLock", k, func() any { m = l.RLock(k); held(e, "RLock", k, m, false); return nil })
		return
	}
	try := func(e *mc.Exec, l L, k string) bool {
		return e.Do("TryLock", k, func() any {
			m, ok := l.TryLock(k)
			if ok {
				held(e, "TryLock", k, m, true)
			}
			return ok
		}).(bool)
	}
	rtry := func(e *mc.Exec, l L, k string) bool {
		return e.Do("TryRLock", k, func() any {
			m, ok := l.TryRLock(k)
			if ok {
				held(e, "TryRLock", k, m, false)
			}
			return ok
		}).(bool)
	}
	unlock := func(e *mc.Exec, l L, k string) { e.Do("Unlock", k, func() any { l.Unlock(k); return nil }) }
	runlock := func(e *mc.Exec, l L, k string) { e.Do("RUnlock", k, func() any { l.RUnlock(k); return nil }) }
	for _, k := range keys {
		r = append(r,
			strProg{"L" + k, func(e *mc.Exec, l L) { lockF(e, l, k); unlock(e, l, k) }},
			strProg{"R" + k, func(e *mc.Exec, l L) { rlock(e, l, k); runlock(e, l, k) }},
			strProg{"T" + k, func(e *mc.Exec, l L) {
				if try(e, l, k) {
					unlock(e, l, k)
				}
			}},
			strProg{"TR" + k, func(e *mc.Exec, l L) {
				if rtry(e, l, k) {
					runlock(e, l, k)
				}
			}})
	}
	k := keys[0]
	r = append(r,
		strProg{"RTR", func(e *mc.Exec, l L) {
			// readers share
			if rtry(e, l, k) {
				try(e, l, k)
				runlock(e, l, k)
			}
		}},
		strProg{"LTT", func(e *mc.Exec, l L) {
			m := lockF(e, l, k)
			rtry(e, l, k)
			try(e, l, k)
			e.Do("Unlock", k, func() any { m.Unlock(); return nil })
		}},
		strProg{"Rm", func(e *mc.Exec, l L) {
			m := rlock(e, l, k)
			e.Do("RUnlock", k, func() any { m.RUnlock(); return nil })
		}})
	return
}

// choose gives every thread a program (threads 2.. in non-decreasing order: they are alike).
func choose(first, threads, n int) []int {
	r := []int{first}
	lo := 0
	for i := 1; i < threads; i++ {
		lo += mc.Choose(n - lo)
		r = append(r, lo)
	}
	return r
}

func c09(thorough bool) (r []run.Scenario) {
	for _, c := range []struct {
		n    int
		keys []int64
	}{{1, []int64{0, -1}}, {2, []int64{1, -1}}, {3, []int64{-1, 2}}, {3, []int64{math.MinInt64, math.MaxInt64, 5}}, {4, []int64{-7, 0}}} {
		progs := numProgs(c.keys)
		for threads := 2; threads <= 3; threads++ {
			for first := range progs {
				r = append(r, run.Scenario{Name: fmt.Sprintf("Numlock%d/%v/%d/%s", c.n, c.keys, threads, progs[first].name), Max: 5 - threads, MaxDeep: 9 - threads,
					Body: func(e *mc.Exec) {
						l := lock.NewNumLock(c.n)
						for i, p := range choose(first, threads, len(progs)) {
							e.Go(fmt.Sprintf("T%d", i+1), func() { progs[p].run(e, l) })
						}
						e.Join()
						for _, k := range c.keys { // everything is unlocked again
							if _, ok := nTry(e, l, k); ok {
								nUnlock(e, l, k)
							}
						}
						e.CheckLin(keySpec())
					}})
			}
		}
	}
	for _, c := range []struct {
		n    int
		keys []string
	}{{1, []string{"a", ""}}, {2, []string{"", "b"}}, {3, []string{"a", "b"}}} {
		progs := strProgs(c.keys)
		for threads := 2; threads <= 3; threads++ {
			for first := range progs {
				r = append(r, run.Scenario{Name: fmt.Sprintf("Strlock%d/%v/%d/%s", c.n, strings.Join(c.keys, "_"), threads, progs[first].name), Max: 5 - threads, MaxDeep: 9 - threads,
					Body: func(e *mc.Exec) {
						l := lock.NewStrlock(c.n)
						for i, p := range choose(first, threads, len(progs)) {
							e.Go(fmt.Sprintf("T%d", i+1), func() { progs[p].run(e, l) })
						}
						e.Join()
						for _, p := range progs[2 : 4*len(c.keys)] {
							if p.name[0] == 'T' && len(p.name) == 1+len(c.keys[0]) {
								p.run(e, l)
							}
						}
						e.CheckLin(keySpec())
					}})
			}
		}
	}
	return
}

// ---- C10 ----

func c10(thorough bool) (r []run.Scenario) {
	type user struct{ wait, hold time.Duration }
	starts := []time.Duration{0, 4 * ms}
	holds := []time.Duration{0, 5 * ms, 9 * ms, 25 * ms}
	const timeout = 10 * ms
	type event struct {
		at   int64
		held int
	}
	for limit := 1; limit <= 2; limit++ {
		for threads := limit + 1; threads <= limit+2; threads++ {
			for _, h0 := range holds {
				for _, early := range []bool{false, true} {
					sc := run.Scenario{Name: fmt.Sprintf("LimitLock%d/%d/hold%v/early=%v", limit, threads, h0, early), TimeCost: -1, Max: 2, MaxDeep: 4}
					if early {
						sc.TimeCost = 1
						sc.Max = 2
					}
					if threads > 3 {
						sc.Max, sc.MaxDeep = 1, 3
					}
					sc.Body = func(e *mc.Exec) {
						l := lock.NewLimitLock(limit, timeout)
						held, ok := 0, 0
						returned := int64(0)
						log := []event{{0, 0}}
						note := func() { log = append(log, event{e.Now(), held}) }
						lo := 0
						var failed error
						for i := 0; i < threads; i++ {
							u := user{0, h0}
							if i > 0 {
								lo += mc.Choose(len(starts)*len(holds) - lo)
								u = user{starts[lo/len(holds)], holds[lo%len(holds)]}
							}
							e.Go(fmt.Sprintf("U%d(%v,%v)", i+1, u.wait, u.hold), func() {
								vtime.Sleep(u.wait)
								t0 := e.Now()
								err := l.Lock()
								now := e.Now()
								if err != nil {
									if now-t0 < int64(timeout) {
										e.Fail("Lock returned %v after %v with a timeout of %v", err, time.Duration(now-t0), time.Duration(timeout))
									}
									failed = err
									if !early {
										// no moment before the timeout with a free slot
										for j, ev := range log {
											end := now
											if j+1 < len(log) {
												end = log[j+1].at
											}
											if ev.held < limit && end > ev.at && end > t0 && ev.at < t0+int64(timeout) {
												e.Fail("Lock called at %v returned %v although a slot was free from %v to %v", time.Duration(t0), err, time.Duration(ev.at), time.Duration(end))
											}
										}
									}
									return
								}
								if !early && now-t0 > int64(timeout) {
									e.Fail("Lock succeeded only after %v", time.Duration(now-t0))
								}
								held++
								ok++
								returned++
								note()
								if held > limit {
									e.Fail("%d Locks are outstanding, the limit is %d", held, limit)
								}
								vtime.Sleep(u.hold)
								if n := l.LockCount(); n < returned || n > int64(threads) {
									e.Fail("LockCount is %d after %d successful Locks", n, returned)
								}
								if c := l.Cc(); c < 0 || c > int64(threads) {
									e.Fail("Cc is %d", c)
								}
								held--
								note()
								l.Unlock()
							})
						}
						e.Join()
						if n := l.LockCount(); n != int64(ok) {
							e.Fail("LockCount is %d after %d successful Locks (last error %v)", n, ok, failed)
						}
						if c := l.Cc(); c != 0 {
							e.Fail("Cc is %d with no lock held", c)
						}
						// exactly limit slots are free again
						for i := 0; i < limit; i++ {
							if early {
								break
							}
							if err := l.Lock(); err != nil {
								e.Fail("Lock %d of %d on a free LimitLock: %v", i+1, limit, err)
							}
							if c := l.Cc(); c != int64(i+1) {
								e.Fail("Cc is %d with %d held", c, i+1)
							}
						}
						if !early {
							t0 := e.Now()
							if err := l.Lock(); err == nil {
								e.Fail("Lock succeeded with all %d slots held", limit)
							}
							if d := e.Now() - t0; d < int64(timeout) {
								e.Fail("Lock timed out after %v", time.Duration(d))
							}
							if c := l.Cc(); c != int64(limit) {
								e.Fail("Cc is %d with %d held and one Lock timed out", c, limit)
							}
						}
					}
					r = append(r, sc)
				}
			}
		}
	}
	for _, d := range timeouts {
		r = append(r, run.Scenario{Name: fmt.Sprintf("LimitLock/timeout/%v", d), TimeCost: -1, Max: 0, MaxDeep: 1, Body: func(e *mc.Exec) {
			l := lock.NewLimitLock(1, d)
			free := []time.Duration{-1, 0, d / 2, d - 1}[mc.Choose(4)]
			vtime.Sleep(time.Hour)
			if err := l.Lock(); err != nil {
				e.Fail("Lock on a free LimitLock with a timeout of %v: %v", d, err)
			}
			t0 := e.Now()
			e.Go("L", func() {
				err := l.Lock()
				took := time.Duration(e.Now() - t0)
				if free < 0 && (err == nil || took != d) || free >= 0 && (err != nil || took != free) {
					e.Fail("Lock with a timeout of %v, and the slot freed after %v (-1: never), returned %v after %v", d, free, err, took)
				}
			})
			if free >= 0 {
				e.Go("U", func() {
					if free == 0 {
						e.Quiesce(0)
					} else {
						vtime.Sleep(free)
					}
					l.Unlock()
				})
			}
			e.Join()
			if l.Cc() != 1 {
				e.Fail("Cc is %d with one held", l.Cc())
			}
		}})
	}
	// many users: each slot goes to the next as soon as it is free
	for _, limit := range []int{3, 5, 16, 17, 64, 130, 300} {
		r = append(r, run.Scenario{Name: fmt.Sprintf("LimitLock%d/many", limit), Delay: true, TimeCost: -1, Max: 0, MaxDeep: 1, Horizon: 400000, Body: func(e *mc.Exec) {
			l := lock.NewLimitLock(limit, 25*ms)
			held, top, ok, failed := 0, 0, 0, 0
			for i := 0; i < 3*limit+2; i++ {
				e.Go(fmt.Sprintf("U%d", i), func() {
					if err := l.Lock(); err != nil {
						failed++
						if e.Now() != int64(25*ms) {
							e.Fail("Lock with a timeout of 25ms returned %v after %v", err, time.Duration(e.Now()))
						}
						return
					}
					held++
					ok++
					top = max(top, held)
					if held > limit {
						e.Fail("%d Locks are outstanding, the limit is %d", held, limit)
					}
					vtime.Sleep(10 * ms)
					if l.Cc() < 1 || l.Cc() > int64(limit+1) {
						e.Fail("Cc is %d with %d held", l.Cc(), held)
					}
					held--
					l.Unlock()
				})
			}
			e.Join()
			if top != limit || ok != 3*limit || failed != 2 || l.LockCount() != int64(ok) || l.Cc() != 0 {
				e.Fail("%d users that hold for 10ms, limit %d, timeout 25ms: %d succeeded, %d failed, %d at a time, LockCount %d, Cc %d", 3*limit+2, limit, ok, failed, top, l.LockCount(), l.Cc())
			}
		}})
	}
	return
}

// timeouts of every magnitude.
var timeouts = []time.Duration{1, 999, time.Microsecond, 999 * time.Microsecond, ms, ms + 1, 37 * ms, 99 * ms, time.Second - 1, time.Second, 1500 * ms, 3001 * ms, 10 * time.Second, 61 * time.Second,
	10*time.Minute + 1, time.Hour + 1, 25 * time.Hour, 30*24*time.Hour + 7, 400 * 24 * time.Hour, 100 * 365 * 24 * time.Hour}

// ---- C11, C12 ----

// waiter abstracts Await and FastAwait.
type waiter interface {
	Wait(int64, time.Duration) (int, error)
	WaitWithCancel(context.Context, int64, time.Duration) (int, bool, error)
	Close(int64) error
	CloseAndPut(int64, int) error
}

type outcome struct {
	id         int64
	kind       string
	timeout    time.Duration
	start, end int64
	done       bool
	v          int
	cancel     bool
	err        error
	canCancel  bool
	cancelAt   int64 // -1: not yet
}

type closing struct {
	id         int64
	v          int // 0: Close
	start, end int64
	done       bool
	err        error
}

type harness struct {
	e     *mc.Exec
	w     waiter
	outs  []*outcome
	total int // closes to come
	clos  []*closing
	early bool
	poll  time.Duration // how long before the wait a close may come
}

func (h *harness) waitOn(kind string, id int64, timeout, cancelAfter time.Duration) *outcome {
	e := h.e
	o := &outcome{id: id, kind: kind, timeout: timeout, start: e.Now(), cancelAt: -1}
	h.outs = append(h.outs, o)
	switch kind {
	case "Wait":
		o.v, o.err = h.w.Wait(id, timeout)
	case "SyncWait":
		var wg sync.WaitGroup
		wg.Add(1)
		o.v, o.err = h.w.(*lock.Await[int]).SyncWait(&wg, id, timeout)
		wg.Wait()
	case "SyncWaitNil":
		o.v, o.err = h.w.(*lock.Await[int]).SyncWait(nil, id, timeout)
	case "Cancel":
		ctx, cancel := context.WithCancel(context.Background())
		o.canCancel = true
		switch {
		case cancelAfter < 0:
		case cancelAfter == 0:
			o.cancelAt = e.Now()
			cancel()
		default:
			vtime.AfterFunc(cancelAfter, func() { o.cancelAt = e.Now(); cancel() })
		}
		o.v, o.cancel, o.err = h.w.WaitWithCancel(ctx, id, timeout)
	case "Deadline":
		ctx, cancel := context.WithTimeout(context.Background(), cancelAfter)
		o.canCancel = true
		o.cancelAt = e.Now() + int64(cancelAfter)
		o.v, o.cancel, o.err = h.w.WaitWithCancel(ctx, id, timeout)
		cancel()
	}
	o.end, o.done = e.Now(), true
	h.checkOut(o)
	return o
}

func (h *harness) close(id int64, v int) {
	c := &closing{id: id, v: v, start: h.e.Now()}
	h.clos = append(h.clos, c)
	if v == 0 {
		c.err = h.w.Close(id)
	} else {
		c.err = h.w.CloseAndPut(id, v)
	}
	c.end, c.done = h.e.Now(), true
}

// drain waits again on the id while closers are left looking for a waiter (they would for a second).
func (h *harness) drain(id int64) {
	if _, ok := h.w.(*lock.Await[int]); !ok {
		return
	}
	early := h.early
	h.early = true
	for {
		open := len(h.clos) < h.total
		for _, c := range h.clos {
			open = open || !c.done
		}
		if !open {
			break
		}
		h.waitOn("Wait", id, 7*ms/2, -1)
	}
	h.early = early
}

func (h *harness) checkOut(o *outcome) {
	e := h.e
	what := fmt.Sprintf("%s(%d, %v) started at %v", o.kind, o.id, o.timeout, time.Duration(o.start))
	switch {
	case o.cancel:
		if !o.canCancel || o.cancelAt < 0 || o.cancelAt > o.end {
			e.Fail("%s reports a cancellation that did not happen", what)
		}
		if o.v != 0 {
			e.Fail("%s returned value %d with cancelled=true", what, o.v)
		}
	case o.err != nil:
		if o.timeout <= 0 || o.end-o.start < int64(o.timeout) {
			e.Fail("%s returned %v after %v", what, o.err, time.Duration(o.end-o.start))
		}
		if o.v != 0 {
			e.Fail("%s returned value %d with error %v", what, o.v, o.err)
		}
		if !h.early {
			for _, c := range h.clos {
				// a lone closer in time must have released it
				if c.id == o.id && len(h.clos) == 1 && c.start >= o.start-int64(h.poll) && c.start < o.start+int64(o.timeout)-int64(h.poll)/10 && (o.cancelAt < 0) {
					e.Fail("%s timed out although it was closed at %v", what, time.Duration(c.start))
				}
			}
		}
	default:
		found := false
		for _, c := range h.clos {
			if c.id == o.id && c.v == o.v {
				found = true
			}
		}
		if !found {
			e.Fail("%s returned %d without error, but nobody gave it that for this id", what, o.v)
		}
		if o.v != 0 {
			for _, p := range h.outs {
				if p != o && p.done && p.err == nil && p.v == o.v {
					e.Fail("value %d was delivered twice", o.v)
				}
			}
		}
	}
	if !h.early && o.timeout > 0 && o.end-o.start > int64(o.timeout) {
		e.Fail("%s returned only at %v", what, time.Duration(o.end))
	}
	if !h.early && o.canCancel && o.cancelAt >= 0 && o.end > o.cancelAt && o.end > o.start {
		e.Fail("%s returned only at %v, its context was cancelled at %v", what, time.Duration(o.end), time.Duration(o.cancelAt))
	}
}

// rawChannels uses Get, Has, Close and CloseAndPut without any Wait.
func rawChannels() (r []run.Scenario) {
	drained := func(e *mc.Exec, what string, v int, ok bool, put int) {
		if put == 0 && (ok || v != 0) || put != 0 && (!ok || v != put) {
			e.Fail("%s yields %d, %v, but %d was put", what, v, ok, put)
		}
	}
	for _, muxes := range []int{1, 2} {
		for n := 1; n <= 4; n++ {
			r = append(r, run.Scenario{Name: fmt.Sprintf("Await/raw/%d/sequence-%d", muxes, n), Max: 0, TimeCost: -1, Body: func(e *mc.Exec) {
				a := lock.NewAwait[int](muxes)
				ids := []int64{4, -3, 0}
				chs := map[int64]chan int{}
				for i := 0; i < n; i++ {
					id := ids[mc.Choose(len(ids))]
					switch mc.Choose(2) {
					case 0:
						ch := a.Get(id)
						if old, ok := chs[id]; ok && old != ch {
							e.Fail("Get(%d) returned another channel although the id was not closed", id)
						}
						for o, old := range chs {
							if o != id && old == ch {
								e.Fail("Get(%d) returned the channel of %d", id, o)
							}
						}
						chs[id] = ch
					case 1:
						ch, ok := chs[id]
						if !ok {
							continue // would look for a waiter for a second
						}
						put := 0
						if mc.Choose(2) == 1 {
							put = 50 + i
							if err := a.CloseAndPut(id, put); err != nil {
								e.Fail("CloseAndPut(%d): %v", id, err)
							}
						} else if err := a.Close(id); err != nil {
							e.Fail("Close(%d): %v", id, err)
						}
						delete(chs, id)
						v, ok := mc.Recv2(ch)
						drained(e, fmt.Sprintf("the channel of %d", id), v, ok, put)
						if v, ok := mc.Recv2(ch); ok {
							e.Fail("the channel of %d yields a second value, %d", id, v)
						}
					}
					for _, id := range ids {
						if _, ok := chs[id]; ok != a.Has(id) {
							e.Fail("Has(%d) is %v", id, !ok)
						}
					}
				}
			}})
		}
		// receivers that take the channel themselves, and a closer
		for put := 0; put <= 1; put++ {
			for _, before := range []bool{false, true} {
				r = append(r, run.Scenario{Name: fmt.Sprintf("Await/raw/%d/receivers/%d/%v", muxes, put, before), Max: 1, MaxDeep: 3, Horizon: 60000, TimeCost: -1, Body: func(e *mc.Exec) {
					a := lock.NewAwait[int](muxes)
					if before {
						a.Get(6)
					}
					first := []chan int{nil, nil}
					for i := range first {
						e.Go(fmt.Sprintf("G%d", i+1), func() { first[i] = a.Get(6) })
					}
					e.Join()
					if first[0] != first[1] {
						e.Fail("two Gets of one id returned different channels")
					}
					got, done := 0, 0
					for i := 0; i < 2; i++ {
						e.Go(fmt.Sprintf("R%d", i+1), func() {
							v, ok := mc.Recv2(a.Get(6))
							if ok && v != 9 || !ok && v != 0 {
								e.Fail("the channel yields %d, %v", v, ok)
							}
							if ok {
								got++
							}
							done++
						})
					}
					e.Go("C", func() {
						// whoever asks after this finds a new channel, which the second round closes
						for i := 0; i < 3 && done < 2; i++ {
							if put == 1 {
								a.CloseAndPut(6, 9)
							} else {
								a.Close(6)
							}
						}
					})
					e.Join()
					if put == 0 && got > 0 || got > 3 {
						e.Fail("%d values received", got)
					}
				}})
			}
		}
	}
	return
}

// a wait and the closes that go with it
type wspec struct {
	kind    string
	timeout time.Duration
	cancel  time.Duration
}
type cspec struct {
	delay time.Duration
	v     int
}

func (w wspec) String() string { return fmt.Sprintf("%s-%v-%v", w.kind, w.timeout, w.cancel) }

func c11(thorough bool) (r []run.Scenario) {
	return awaits(thorough, "Await", func() waiter { return lock.NewAwait[int](2) }, 900*ms, ms)
}

func c12(thorough bool) (r []run.Scenario) {
	r = awaits(thorough, "FastAwait", func() waiter { return lock.NewFastAwait2[int](64) }, 2800*ms, 100*ms)
	// the default size, and unusual ones
	for _, n := range []int64{-1, 0, 1, 1000} {
		for v := 0; v <= 1; v++ {
			r = append(r, run.Scenario{Name: fmt.Sprintf("FastAwait/size%d/%d", n, v), Max: 1, MaxDeep: 1, Horizon: 60000, TimeCost: -1, Body: func(e *mc.Exec) {
				w := lock.NewFastAwait[int]()
				if n >= 0 {
					w = lock.NewFastAwait2[int](uint64(n))
				}
				h := &harness{e: e, w: w, poll: 2800 * ms, total: 1}
				e.Go("W", func() { h.waitOn("Wait", -5, 0, -1) })
				e.Go("C", func() { h.close(-5, v) })
				e.Join()
				h.clos = nil
				e.Go("W", func() { h.waitOn("Cancel", 5, 300*ms, -1) })
				e.Go("C", func() { h.close(5, 2*v) })
				e.Join()
			}})
		}
	}
	return
}

func awaits(thorough bool, name string, mk func() waiter, poll, tick time.Duration) (r []run.Scenario) {
	await := name == "Await"
	T := 10 * tick
	waits := []wspec{
		{"Wait", T, -1}, {"Wait", 0, -1}, {"Wait", -1, -1},
		{"Cancel", T, -1}, {"Cancel", T, 0}, {"Cancel", T, T / 2}, {"Cancel", T, T}, {"Cancel", 0, T / 2}, {"Cancel", 0, -1}, {"Cancel", -5, 0},
		{"Deadline", T, T / 2}, {"Deadline", T / 2, T}, {"Deadline", 0, T / 2},
	}
	if await {
		waits = append(waits, wspec{"SyncWait", T, -1}, wspec{"SyncWait", 0, -1}, wspec{"SyncWaitNil", T, -1}, wspec{"SyncWaitNil", 0, -1})
	}
	delays := []time.Duration{0, tick / 2, T / 2, T - tick/2, T, 2 * T}
	after := func(e *mc.Exec, h *harness, ids ...int64) {
		for _, id := range ids {
			if a, ok := h.w.(*lock.Await[int]); ok && a.Has(id) {
				e.Fail("Has(%d) is true after all calls returned", id)
			}
		}
		if !await {
			// the wait has ended: nothing blocks any more
			t0 := e.Now()
			h.w.CloseAndPut(ids[0], 77)
			h.w.Close(ids[0])
			if !h.early && e.Now() != t0 {
				e.Fail("CloseAndPut and Close after the wait had ended took %v", time.Duration(e.Now()-t0))
			}
			return
		}
		// the id can be used again
		id := ids[0]
		h.clos = nil
		o := h.waitOn("Wait", id, T, -1)
		if o.err == nil {
			e.Fail("a new Wait(%d) returned %d,%v with nobody closing", id, o.v, o.err)
		}
		e.Go("again", func() { h.waitOn("Wait", id, 0, -1) })
		e.Go("close", func() { h.close(id, 99) })
		e.Join()
		if h.outs[len(h.outs)-1].v != 99 {
			e.Fail("the id %d does not work again: a new Wait returned %d", id, h.outs[len(h.outs)-1].v)
		}
		if h.w.(*lock.Await[int]).Has(id) {
			e.Fail("Has(%d) is true after all calls returned", id)
		}
	}
	for _, w := range waits {
		// one waiter, up to two closes
		for ncl := 0; ncl <= 2; ncl++ {
			if ncl == 0 && w.timeout <= 0 && w.cancel < 0 {
				continue
			}
			for _, early := range []bool{false, true} {
				sc := run.Scenario{Name: fmt.Sprintf("%s/%v/%dcloses/early=%v", name, w, ncl, early), Max: 2, MaxDeep: 4, Horizon: 60000, TimeCost: -1}
				if early {
					sc.TimeCost = 1
				}
				if ncl == 2 {
					sc.Max, sc.MaxDeep = 1, 3
				}
				if !await {
					sc.Max++
				}
				sc.Body = func(e *mc.Exec) {
					h := &harness{e: e, w: mk(), early: early, poll: poll}
					h.total = ncl
					// the waiter may start some polls after the closers
					base := time.Duration(0)
					var cl []cspec
					lo := 0
					for i := 0; i < ncl; i++ {
						lo += mc.Choose(2*len(delays) - lo)
						v := 0
						if lo%2 == 1 {
							v = 41 + i
						}
						cl = append(cl, cspec{delays[lo/2], v})
					}
					if ncl > 0 {
						base = []time.Duration{0, 3*tick - tick/4}[mc.Choose(2)]
					}
					id := int64(-3)
					e.Go(fmt.Sprintf("W(+%v)", base), func() {
						if base > 0 {
							vtime.Sleep(base)
						}
						h.waitOn(w.kind, id, w.timeout, w.cancel)
						h.drain(id)
					})
					for i, c := range cl {
						e.Go(fmt.Sprintf("C%d(+%v,%d)", i+1, c.delay, c.v), func() {
							if c.delay > 0 {
								vtime.Sleep(c.delay)
							}
							h.close(id, c.v)
						})
					}
					e.Join()
					after(e, h, id)
				}
				r = append(r, sc)
			}
		}
		// two ids at once, on the same mutex
		r = append(r, run.Scenario{Name: fmt.Sprintf("%s/%v/two-ids", name, w), Max: 1, MaxDeep: 3, Horizon: 60000, TimeCost: -1, Body: func(e *mc.Exec) {
			h := &harness{e: e, w: mk(), poll: 0, early: true, total: 2}
			order := mc.Choose(2)
			for _, id := range []int64{1, 3} {
				e.Go(fmt.Sprintf("W%d", id), func() {
					h.waitOn(w.kind, id, w.timeout, w.cancel)
					h.drain(id)
				})
			}
			ids := []int64{1, 3}
			if order == 1 {
				ids = []int64{3, 1}
			}
			e.Go("C", func() {
				for _, id := range ids {
					h.close(id, int(10+id))
				}
			})
			e.Join()
			after(e, h, 1, 3)
		}})
	}
	// closes long before the wait
	for _, d := range []time.Duration{poll / 2, poll} {
		for _, w := range []wspec{{"Wait", 0, -1}, {"Wait", T, -1}, {"Cancel", 0, -1}} {
			for v := 0; v <= 1; v++ {
				r = append(r, run.Scenario{Name: fmt.Sprintf("%s/%v/closed-%v-before/%d", name, w, d, v), Max: 0, MaxDeep: 1, Horizon: 60000, TimeCost: -1, Body: func(e *mc.Exec) {
					h := &harness{e: e, w: mk(), poll: poll}
					e.Go("C", func() { h.close(7, 5*v) })
					e.Go("W", func() {
						vtime.Sleep(d)
						o := h.waitOn(w.kind, 7, w.timeout, w.cancel)
						if o.err != nil || o.v != 5*v {
							e.Fail("closed %v before: %v returned %d,%v", d, w, o.v, o.err)
						}
					})
					e.Join()
					after(e, h, 7)
				}})
			}
		}
	}
	if await {
		// the id is used again at once, while the call that released the first waiter is still about to return
		for _, w1 := range waits {
			for _, w2 := range []wspec{{"Wait", 0, -1}, {"Cancel", 0, -1}, {"SyncWait", 0, -1}} {
				for v := 0; v < 4; v++ {
					if w1.kind == "SyncWaitNil" || w1.kind == "Deadline" || w1.timeout < 0 || v > 1 && w2.kind != "Wait" {
						continue
					}
					r = append(r, run.Scenario{Name: fmt.Sprintf("%s/again/%v/%v/%d", name, w1, w2, v), Max: 2, MaxDeep: 4, Horizon: 60000, TimeCost: 1, Body: func(e *mc.Exec) {
						h := &harness{e: e, w: mk(), poll: poll, early: true, total: 2}
						e.Go("C1", func() { h.close(5, 21*(v%2)) })
						e.Go("W", func() {
							h.waitOn(w1.kind, 5, w1.timeout, w1.cancel)
							e.Go("C2", func() { h.close(5, 22*(1-v/2)) })
							h.waitOn(w2.kind, 5, w2.timeout, w2.cancel)
							h.drain(5)
						})
						e.Join()
						if h.w.(*lock.Await[int]).Has(5) {
							e.Fail("Has(5) is true after all calls returned")
						}
					}})
				}
			}
		}
	}
	if await {
		r = append(r, rawChannels()...)
	}
	// a long history: among the ids are some that a filter of finished ids confuses with earlier ones
	for _, kind := range []string{"Wait", "Cancel"} {
		n := int64(4000)
		if thorough {
			n = 40000
		}
		r = append(r, run.Scenario{Name: fmt.Sprintf("%s/history-%s", name, kind), Max: 0, MaxDeep: 0, Horizon: int(n) * 400, TimeCost: -1, Body: func(e *mc.Exec) {
			w := mk()
			e.Go("W", func() {
				for id := int64(1); id <= n; id++ {
					var v int
					var err error
					cancelled := false
					if kind == "Wait" {
						v, err = w.Wait(id, 2*T)
					} else {
						v, cancelled, err = w.WaitWithCancel(context.Background(), id, 0)
					}
					if v != int(id) || err != nil || cancelled {
						e.Fail("%s(%d) returned %d, %v, %v", kind, id, v, cancelled, err)
					}
				}
			})
			e.Go("C", func() {
				for id := int64(1); id <= n; id++ {
					vtime.Sleep(T)
					if err := w.CloseAndPut(id, int(id)); err != nil {
						e.Fail("CloseAndPut(%d): %v", id, err)
					}
				}
			})
			e.Join()
		}})
	}
	// timeouts of every magnitude: the wait lasts exactly as long, whatever the kind, unless something ends it
	for _, d := range timeouts {
		r = append(r, run.Scenario{Name: fmt.Sprintf("%s/timeout/%v", name, d), Max: 0, MaxDeep: 1, Horizon: 60000, TimeCost: -1, Body: func(e *mc.Exec) {
			var w waiter = mk()
			if !await {
				w = lock.NewFastAwait[int]()
			}
			kinds := []string{"Wait", "WaitWithCancel", "SyncWait"}
			if !await {
				kinds = kinds[:2]
			}
			kind := kinds[mc.Choose(len(kinds))]
			at := []time.Duration{-1, 0, d / 2, d - 1}[mc.Choose(4)]
			how := mc.Choose(3) // what happens then: a value, a Close, the context ends
			if how == 2 && kind != "WaitWithCancel" || at < 0 && how > 0 {
				return
			}
			vtime.Sleep(time.Hour)
			t0 := e.Now()
			ctx, cancel := context.WithCancel(context.Background())
			e.Go("W", func() {
				var v int
				var err error
				cancelled := false
				switch kind {
				case "Wait":
					v, err = w.Wait(8, d)
				case "WaitWithCancel":
					v, cancelled, err = w.WaitWithCancel(ctx, 8, d)
				case "SyncWait":
					v, err = w.(*lock.Await[int]).SyncWait(nil, 8, d)
				}
				took := time.Duration(e.Now() - t0)
				what := fmt.Sprintf("%s with a timeout of %v", kind, d)
				switch {
				case at < 0:
					if err == nil || cancelled || v != 0 || took != d {
						e.Fail("%s that nothing ended returned %d, %v, %v after %v", what, v, cancelled, err, took)
					}
				case how == 2:
					if !cancelled || v != 0 || took != at {
						e.Fail("%s returned %d, %v, %v after %v, the context ended after %v", what, v, cancelled, err, took, at)
					}
				case err != nil || cancelled || v != 6*(1-how) || took != at:
					e.Fail("%s returned %d, %v, %v after %v, it was closed with %d after %v", what, v, cancelled, err, took, 6*(1-how), at)
				}
			})
			if at >= 0 {
				e.Go("C", func() {
					if at == 0 {
						e.Quiesce(0)
					} else {
						vtime.Sleep(at)
					}
					switch how {
					case 0:
						w.CloseAndPut(8, 6)
					case 1:
						w.Close(8)
					case 2:
						cancel()
					}
				})
			}
			e.Join()
			if a, ok := w.(*lock.Await[int]); ok && a.Has(8) {
				e.Fail("Has is true after the wait has ended")
			}
		}})
	}
	// many waits at once, some of which run into their timeout, closed in several orders, with closes that come first
	for _, n := range []int{17, 65, 130, 300, 1030} {
		for _, order := range []string{"up", "down", "stride"} {
			r = append(r, run.Scenario{Name: fmt.Sprintf("%s/many/%d/%s", name, n, order), Delay: true, MaxDeep: 1, Horizon: 4000000, TimeCost: -1, Body: func(e *mc.Exec) {
				var w waiter = mk()
				if !await {
					w = lock.NewFastAwait[int]()
				}
				const late = 7
				for i := 0; i < n; i++ {
					id := int64(i*i*31 - 500)
					e.Go(fmt.Sprintf("W%d", i), func() {
						if i%3 == 2 {
							vtime.Sleep(5 * tick / 2)
						}
						to := time.Duration(0)
						if i%4 == 1 {
							to = 200 * tick
						}
						if i%late == 3 {
							to = 4 * tick
						}
						var v int
						var err error
						cancelled := false
						if i%5 == 2 {
							v, cancelled, err = w.WaitWithCancel(context.Background(), id, to)
						} else {
							v, err = w.Wait(id, to)
						}
						want := i + 1
						if i%6 == 5 {
							want = 0
						}
						if i%late == 3 {
							if err == nil || cancelled {
								e.Fail("wait %d of %d: nobody closed %d, but it returned %d, %v, %v", i, n, id, v, cancelled, err)
							}
						} else if v != want || err != nil || cancelled {
							e.Fail("wait %d of %d, for id %d, returned %d, %v, %v, want %d", i, n, id, v, cancelled, err, want)
						}
					})
				}
				e.Go("C", func() {
					vtime.Sleep(3 * tick)
					for k := 0; k < n; k++ {
						i := k
						switch order {
						case "down":
							i = n - 1 - k
						case "stride":
							i = k * 7 % n
							if n%7 == 0 {
								i = k
							}
						}
						id := int64(i*i*31 - 500)
						if i%late == 3 {
							continue
						}
						var err error
						if i%6 == 5 {
							err = w.Close(id)
						} else {
							err = w.CloseAndPut(id, i+1)
						}
						if err != nil {
							e.Fail("close %d of %d: %v", k, n, err)
						}
					}
				})
				e.Join()
				if a, ok := w.(*lock.Await[int]); ok {
					for i := 0; i < n; i++ {
						if id := int64(i*i*31 - 500); a.Has(id) {
							e.Fail("Has(%d) is true after all of %d waits have returned", id, n)
						}
					}
				}
			}})
		}
		// the closes of all ids come first, each in its own goroutine
		r = append(r, run.Scenario{Name: fmt.Sprintf("%s/many/%d/closed-first", name, n), Delay: true, MaxDeep: 1, Horizon: 4000000, TimeCost: -1, Body: func(e *mc.Exec) {
			var w waiter = mk()
			if !await {
				w = lock.NewFastAwait[int]()
			}
			for i := 0; i < n; i++ {
				e.Go(fmt.Sprintf("C%d", i), func() {
					if err := w.CloseAndPut(int64(-i), i+1); err != nil {
						e.Fail("close %d of %d: %v", i, n, err)
					}
				})
			}
			for i := n - 1; i >= 0; i-- {
				e.Go(fmt.Sprintf("W%d", i), func() {
					vtime.Sleep(3 * tick / 2)
					if v, err := w.Wait(int64(-i), 0); v != i+1 || err != nil {
						e.Fail("wait %d of %d returned %d, %v", i, n, v, err)
					}
				})
			}
			e.Join()
		}})
	}
	if await {
		// one id again and again
		n := 500
		if thorough {
			n = 3000
		}
		r = append(r, run.Scenario{Name: name + "/reuse", Delay: true, Horizon: n * 1000, TimeCost: -1, Body: func(e *mc.Exec) {
			w := lock.NewAwait[int](4)
			for i := 1; i <= n; i++ {
				e.Go("W", func() {
					to := time.Duration(i%3) * 4 * tick
					v, err := w.Wait(9, to)
					want := i
					if i%5 == 0 {
						want = 0
					}
					if i%3 == 1 && i%7 == 3 {
						if err == nil {
							e.Fail("wait %d for the same id returned %d without a close", i, v)
						}
					} else if v != want || err != nil {
						e.Fail("wait %d for the same id returned %d, %v, want %d", i, v, err, want)
					}
				})
				if i%3 == 1 && i%7 == 3 {
					e.Join()
				} else {
					e.Go("C", func() {
						vtime.Sleep(tick / 2)
						var err error
						if i%5 == 0 {
							err = w.Close(9)
						} else {
							err = w.CloseAndPut(9, i)
						}
						if err != nil {
							e.Fail("close %d: %v", i, err)
						}
					})
					e.Join()
				}
				if w.Has(9) {
					e.Fail("Has is true after wait %d for the same id", i)
				}
			}
		}})
	}
	// nobody ever waits: the close gives up, and a later wait on the id is not affected
	for v := 0; v <= 1; v++ {
		r = append(r, run.Scenario{Name: fmt.Sprintf("%s/nobody/%d", name, v), Max: 1, MaxDeep: 2, Horizon: 60000, TimeCost: -1, Body: func(e *mc.Exec) {
			w := mk()
			shut := func(id int64, v int) {
				var err error
				if v == 0 {
					err = w.Close(id)
				} else {
					err = w.CloseAndPut(id, v)
				}
				if err != nil {
					e.Fail("closing %d, which nobody waits for: %v", id, err)
				}
			}
			e.Go("C1", func() { shut(4, v) })
			e.Go("C2", func() { shut(-4, 3) })
			e.Go("C3", func() { vtime.Sleep(tick / 2); shut(4, 1-v) })
			e.Join()
			if a, ok := w.(*lock.Await[int]); ok && (a.Has(4) || a.Has(-4)) {
				e.Fail("Has is true after a close that nobody waited for")
			}
			if _, err := w.Wait(4, T); err == nil {
				e.Fail("a wait that began after the close had given up returned no error")
			}
			e.Go("W", func() {
				if g, err := w.Wait(-4, 0); g != 9 || err != nil {
					e.Fail("Wait(-4) returned %d, %v, want 9", g, err)
				}
			})
			e.Go("C", func() { vtime.Sleep(T); shut(-4, 9) })
			e.Join()
		}})
	}
	// every pair of ids that have much in common: a wait that has ended or is going on says nothing about the other id
	twins := []int64{7, -7, 7 + 1<<8, 7 + 1<<16, 7 + 1<<31, 7 + 1<<32, 7 + math.MinInt64, 7 << 32, 7 << 56, 0, 1, -1, 1 << 32, math.MaxInt64, math.MinInt64, 1 << 53, 1<<53 + 1}
	for _, id := range twins {
		for v := 0; v <= 1; v++ {
			roomy := func() waiter {
				if await {
					return mk()
				}
				return lock.NewFastAwait[int]()
			}
			r = append(r, run.Scenario{Name: fmt.Sprintf("%s/ids/%d/%d", name, id, v), Max: 0, MaxDeep: 1, Horizon: 60000, TimeCost: -1, Body: func(e *mc.Exec) {
				w := roomy()
				other := twins[mc.Choose(len(twins))]
				ask := func(id int64, d time.Duration, want int) {
					vtime.Sleep(d)
					if g, err := w.Wait(id, 100*tick); g != want || err != nil {
						e.Fail("Wait(%d), with %d used too, returned %d, %v, want %d", id, other, g, err, want)
					}
				}
				answer := func(id int64, d time.Duration, v int) {
					vtime.Sleep(d)
					var err error
					if v == 0 {
						err = w.Close(id)
					} else {
						err = w.CloseAndPut(id, v)
					}
					if err != nil {
						e.Fail("closing %d: %v", id, err)
					}
				}
				e.Go("W", func() { ask(id, 0, 5) })
				e.Go("C", func() { answer(id, tick/2, 5) })
				e.Join()
				if other == id {
					return
				}
				// the close comes first
				e.Go("W", func() { ask(other, 5*tick/2, 6*v) })
				e.Go("C", func() { answer(other, 0, 6*v) })
				e.Join()
				// both at once, on ids of the same kind that have not been used
				if a, b := id^3<<20, other^3<<20; !slices.Contains(twins, a) && !slices.Contains(twins, b) {
					e.Go("W1", func() { ask(a, 0, 7) })
					e.Go("W2", func() { ask(b, 0, 8*v) })
					e.Go("C", func() { answer(b, tick/2, 8*v); answer(a, 0, 7) })
					e.Join()
				}
			}})
		}
	}
	// waits one after the other on one id (Await) or several ids, with closers left over
	r = append(r, run.Scenario{Name: name + "/sequence", Max: 2, MaxDeep: 3, Horizon: 60000, TimeCost: -1, Body: func(e *mc.Exec) {
		h := &harness{e: e, w: mk(), poll: poll, early: true, total: 3}
		id2 := int64(5)
		if !await {
			id2 = 6
		}
		e.Go("W", func() {
			h.waitOn("Wait", 5, T, -1)
			h.waitOn("Wait", id2, T, -1)
			h.waitOn("Cancel", id2+1, T, T)
			h.drain(5)
		})
		e.Go("C1", func() { h.close(5, 21); h.close(id2, 22) })
		e.Go("C2", func() { vtime.Sleep(T); h.close(5, 23) })
		e.Join()
	}})
	return
}
