package mc

import (
	"reflect"
	"unsafe"
)

type chanItem struct {
	val any
	vc  vclock
}

type chanState struct {
	obj     int
	cap     int
	q       []chanItem
	closed  bool
	closeVC vclock
	freed   []vclock
	nsend   int
	pend    []*waitCase
	keep    any
}

type waitCase struct {
	cs   *chanState
	send bool
	val  any
	w    *waiter
	idx  int
}

type waiter struct {
	t     *thread
	cases []*waitCase
	done  bool
	idx   int
	val   any
	ok    bool
}

func chanPtr[C any](ch *C) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(ch)) }

func (e *Exec) chanState(p unsafe.Pointer, capacity int, keep any) *chanState {
	if p == nil {
		return nil
	}
	cs := e.chans[p]
	if cs == nil {
		cs = &chanState{cap: capacity, keep: keep, obj: e.NewObj()}
		e.chans[p] = cs
	}
	return cs
}

func (c *waitCase) partner() []*waitCase {
	var r []*waitCase
	for _, p := range c.cs.pend {
		if p.w != c.w && !p.w.done && p.send != c.send {
			r = append(r, p)
		}
	}
	return r
}

func (c *waitCase) ready() bool {
	cs := c.cs
	if cs == nil {
		return false
	}
	if cs.closed {
		return true
	}
	if c.send {
		return len(cs.q) < cs.cap || cs.cap == 0 && len(c.partner()) > 0
	}
	return len(cs.q) > 0 || cs.cap == 0 && len(c.partner()) > 0
}

// runCases performs a channel operation; returns the index of the case done (-1: default).
func (e *Exec) runCases(kind string, cases []*waitCase, hasDefault bool) *waiter {
	t := e.cur
	w := &waiter{t: t, cases: cases, idx: -1}
	feet := make([]Foot, 0, len(cases))
	for i, c := range cases {
		c.w, c.idx = w, i
		if c.cs != nil {
			feet = append(feet, Foot{c.cs.obj, true})
			if !hasDefault {
				c.cs.pend = append(c.cs.pend, c)
			}
		}
	}
	var enabled func() bool
	if !hasDefault {
		enabled = func() bool {
			if w.done {
				return true
			}
			for _, c := range cases {
				if c.ready() {
					return true
				}
			}
			return false
		}
		defer func() {
			for _, c := range cases {
				if c.cs != nil {
					for i, p := range c.cs.pend {
						if p == c {
							c.cs.pend = append(c.cs.pend[:i:i], c.cs.pend[i+1:]...)
							break
						}
					}
				}
			}
		}()
	}
	e.point(&op{kind: kind, feet: feet, enabled: enabled})
	if w.done {
		return w
	}
	var rd []*waitCase
	for _, c := range cases {
		if c.ready() {
			rd = append(rd, c)
		}
	}
	if len(rd) == 0 {
		return w
	}
	c := rd[Choose(len(rd))]
	e.execCase(c, t)
	return w
}

func (e *Exec) execCase(c *waitCase, t *thread) {
	cs, w := c.cs, c.w
	w.done, w.idx = true, c.idx
	if c.send {
		if cs.closed {
			w.done = false
			sendOnClosed()
		}
		if cs.cap == 0 {
			ps := c.partner()
			p := ps[Choose(len(ps))]
			e.rendezvous(c, p)
			return
		}
		cs.nsend++
		if cs.nsend > cs.cap && len(cs.freed) > 0 {
			t.vc.join(cs.freed[0])
			cs.freed = cs.freed[1:]
		}
		cs.q = append(cs.q, chanItem{c.val, t.vc.clone()})
		t.inc()
		return
	}
	if len(cs.q) > 0 {
		it := cs.q[0]
		cs.q = cs.q[1:]
		t.vc.join(it.vc)
		cs.freed = append(cs.freed, t.vc.clone())
		t.inc()
		w.val, w.ok = it.val, true
		return
	}
	if cs.closed {
		t.vc.join(cs.closeVC)
		w.val, w.ok = nil, false
		return
	}
	ps := c.partner()
	p := ps[Choose(len(ps))]
	e.rendezvous(p, c)
}

// rendezvous completes an unbuffered send s with receive r; one of them is running.
func (e *Exec) rendezvous(s, r *waitCase) {
	s.w.done, s.w.idx = true, s.idx
	r.w.done, r.w.idx = true, r.idx
	r.w.val, r.w.ok = s.val, true
	st, rt := s.w.t, r.w.t
	st.vc.join(rt.vc)
	rt.vc.join(st.vc)
	st.inc()
	rt.inc()
}

func sendOnClosed() {
	c := make(chan int, 1)
	close(c)
	c <- 1
}

func unbox[T any](v any) (r T) {
	if v != nil {
		r = *(v.(*T))
	}
	return
}

// Send performs ch <- v.
func Send[T any](ch chan<- T) func(T) {
	return func(v T) {
		e := E
		if e == nil {
			ch <- v
			return
		}
		if e.aborting && e.cur == nil {
			return
		}
		e.runCases("send", []*waitCase{{cs: e.chanState(chanPtr(&ch), cap(ch), ch), send: true, val: &v}}, false)
	}
}

// Recv performs <-ch.
func Recv[T any](ch <-chan T) T { v, _ := Recv2(ch); return v }

// Recv2 performs v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	e := E
	if e == nil {
		v, ok := <-ch
		return v, ok
	}
	w := e.runCases("recv", []*waitCase{{cs: e.chanState(chanPtr(&ch), cap(ch), ch)}}, false)
	return unbox[T](w.val), w.ok
}

// Close performs close(ch).
func Close[T any](ch chan<- T) {
	e := E
	if e == nil {
		close(ch)
		return
	}
	p := chanPtr(&ch)
	if p == nil {
		close(ch)
	}
	cs := e.chanState(p, cap(ch), ch)
	e.point(&op{kind: "close", feet: []Foot{{cs.obj, true}}})
	if cs.closed {
		c := make(chan int)
		close(c)
		close(c)
	}
	cs.closed = true
	cs.closeVC = e.cur.vc.clone()
	e.cur.inc()
	// senders blocked on the channel panic when they run: ready() is true for them
}

// Len performs len(ch).
func Len(ch any) int {
	v := reflect.ValueOf(ch)
	e := E
	if e == nil {
		return v.Len()
	}
	cs := e.chanState(v.UnsafePointer(), v.Cap(), ch)
	if cs == nil {
		return 0
	}
	e.point(&op{kind: "len(chan)", feet: []Foot{{cs.obj, false}}})
	return len(cs.q)
}

// Case is a select case.
type Case interface {
	wc(e *Exec) *waitCase
	done(w *waiter)
	native() (any, bool)
}

// RC is a receive case.
type RC[T any] struct {
	ch <-chan T
	V  T
	Ok bool
}

// SC is a send case.
type SC[T any] struct {
	ch chan<- T
	v  T
}

func CRecv[T any](ch <-chan T) *RC[T] { return &RC[T]{ch: ch} }
func CSend[T any](ch chan<- T) func(T) *SC[T] {
	return func(v T) *SC[T] { return &SC[T]{ch, v} }
}
func (c *RC[T]) wc(e *Exec) *waitCase {
	return &waitCase{cs: e.chanState(chanPtr(&c.ch), cap(c.ch), c.ch)}
}
func (c *RC[T]) done(w *waiter) { c.V, c.Ok = unbox[T](w.val), w.ok }
func (c *RC[T]) native() (any, bool) {
	select {
	case v, ok := <-c.ch:
		c.V, c.Ok = v, ok
		return nil, true
	default:
		return nil, false
	}
}
func (c *SC[T]) wc(e *Exec) *waitCase {
	return &waitCase{cs: e.chanState(chanPtr(&c.ch), cap(c.ch), c.ch), send: true, val: &c.v}
}
func (c *SC[T]) done(w *waiter) {}
func (c *SC[T]) native() (any, bool) {
	select {
	case c.ch <- c.v:
		return nil, true
	default:
		return nil, false
	}
}

// Select performs a select statement and returns the index of the case taken, -1 for default.
func Select(hasDefault bool, cases ...Case) int {
	e := E
	if e == nil {
		for {
			for i, c := range cases {
				if _, ok := c.native(); ok {
					return i
				}
			}
			if hasDefault {
				return -1
			}
		}
	}
	ws := make([]*waitCase, len(cases))
	for i, c := range cases {
		ws[i] = c.wc(e)
	}
	kind := "select"
	if hasDefault {
		kind = "select(default)"
	}
	w := e.runCases(kind, ws, hasDefault)
	if w.idx >= 0 {
		cases[w.idx].done(w)
	} else if hasDefault {
		Spin()
	}
	return w.idx
}

// timerSend delivers a value to a timer channel from the scheduler (never blocks).
func timerSend[T any](e *Exec, ch chan T, v T, vc vclock) {
	cs := e.chanState(chanPtr(&ch), cap(ch), ch)
	if len(cs.q) < cs.cap && !cs.closed {
		cs.q = append(cs.q, chanItem{&v, vc})
		cs.nsend++
	}
}

// Inject delivers a value to a buffered channel like signal delivery: dropped when the channel is full.
func Inject[T any](ch chan<- T, v T) bool {
	e := E
	cs := e.chanState(chanPtr(&ch), cap(ch), ch)
	if cs == nil || cs.closed {
		return false
	}
	if cs.cap == 0 {
		for _, p := range cs.pend {
			if !p.send && !p.w.done {
				p.w.done, p.w.idx, p.w.val, p.w.ok = true, p.idx, &v, true
				return true
			}
		}
		return false
	}
	if len(cs.q) >= cs.cap {
		return false
	}
	var vc vclock
	if e.cur != nil {
		vc = e.cur.vc.clone()
	}
	cs.q = append(cs.q, chanItem{&v, vc})
	cs.nsend++
	return true
}

// drain empties a timer channel (Stop/Reset semantics since Go 1.23).
func drain[T any](e *Exec, ch chan T) {
	if cs := e.chans[chanPtr(&ch)]; cs != nil {
		cs.q = nil
	}
}

// ---- timers ----

// Timer is the scheduler side of a timer.
type Timer struct {
	tm   *timer
	fire func(now int64)
}

// NewTimer arms a timer d nanoseconds from now; fire runs inside the scheduler.
func NewTimer(d int64, fire func(now int64)) *Timer {
	t := &Timer{fire: fire}
	t.arm(d)
	return t
}

func (t *Timer) arm(d int64) {
	e := E
	if d < 0 {
		d = 0
	}
	w := e.now + d
	if w < e.now {
		w = 1<<63 - 1
	}
	e.tseq++
	t.tm = &timer{when: w, seq: e.tseq, fire: t.fire, active: true}
	if e.cur != nil {
		t.tm.vc = e.cur.vc.clone()
		e.cur.inc()
	}
	e.timers = append(e.timers, t.tm)
}

// VC returns the clock captured when the timer was armed.
func (t *Timer) spawn(name string, f func()) { E.spawnLazy(name, f, t.tm.vc) }

// Stop disarms; reports whether it was armed.
func (t *Timer) Stop() bool {
	if E == nil || t.tm == nil {
		return false
	}
	was := t.tm.active
	t.tm.active = false
	E.removeTimer(t.tm)
	return was
}

// Reset re-arms; reports whether it was armed.
func (t *Timer) Reset(d int64) bool {
	was := t.Stop()
	if E != nil {
		t.arm(d)
	}
	return was
}

// SendOnFire makes a timer that sends mk(now) on ch.
func SendOnFire[T any](d int64, ch chan T, mk func(now int64) T, period int64) *Timer {
	var t *Timer
	t = NewTimer(d, nil)
	t.fire = func(now int64) {
		timerSend(E, ch, mk(now), t.tm.vc)
		if period > 0 {
			vc := t.tm.vc
			t.arm(period)
			t.tm.vc = vc
		}
	}
	t.tm.fire = t.fire
	return t
}

// FuncOnFire makes a timer that runs f in its own goroutine.
func FuncOnFire(d int64, f func()) *Timer {
	var t *Timer
	t = NewTimer(d, nil)
	t.fire = func(now int64) { E.spawnLazy("timerfunc", f, t.tm.vc) }
	t.tm.fire = t.fire
	return t
}

// Drain empties ch after Stop or Reset of its timer.
func Drain[T any](ch chan T) {
	if E != nil {
		drain(E, ch)
	}
}

// Clock returns the virtual time in nanoseconds since the start of the execution.
func Clock() int64 {
	if E == nil {
		return 0
	}
	return E.now
}
