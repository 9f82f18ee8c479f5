// Package sync is the standard package sync under the controlled scheduler.
package sync

import (
	"fmt"
	rsync "sync"

	"verif.local/v/mc"
)

type Locker = rsync.Locker

type base struct {
	ep  uint64
	obj int
}

// fresh prepares the object for the current execution; true when it is used for the first time in it.
func (b *base) fresh() bool {
	if e := mc.Epoch(); b.ep != e {
		b.ep = e
		if e != 0 {
			b.obj = mc.E.NewObj()
		}
		return true
	}
	return false
}

// fatal ends the execution: the process would die, and no recover can prevent that.
func fatal(s string) {
	if mc.Active() && !mc.Aborting() {
		mc.E.Fail("fatal error: %s", s)
	}
	panic("fatal error: " + s)
}

type Mutex struct {
	b      base
	locked bool
	vc     mc.VC
}

func (m *Mutex) init() {
	if m.b.fresh() {
		m.vc.Reset()
	}
}

func (m *Mutex) Lock() {
	m.init()
	if !mc.Active() {
		if m.locked {
			fatal("deadlock outside of an execution")
		}
		m.locked = true
		return
	}
	mc.Point("Lock", func() bool { return !m.locked }, mc.Foot{Obj: m.b.obj, W: true})
	m.locked = true
	m.vc.Acquire()
}

func (m *Mutex) TryLock() bool {
	m.init()
	if mc.Active() {
		mc.Point("TryLock", nil, mc.Foot{Obj: m.b.obj, W: true})
	}
	if m.locked {
		mc.Spin()
		return false
	}
	m.locked = true
	m.vc.Acquire()
	return true
}

func (m *Mutex) Unlock() {
	m.init()
	if mc.Active() {
		mc.Point("Unlock", nil, mc.Foot{Obj: m.b.obj, W: true})
	}
	if !m.locked {
		if mc.Aborting() {
			return
		}
		fatal("sync: unlock of unlocked mutex")
	}
	m.locked = false
	m.vc.Release()
}

type RWMutex struct {
	b       base
	w       bool
	r       int
	waiting int // writers that wait: they keep new readers out
	vc, rvc mc.VC
}

func (m *RWMutex) init() {
	if m.b.fresh() {
		m.vc.Reset()
		m.rvc.Reset()
		m.waiting = 0
	}
}

func (m *RWMutex) Lock() {
	m.init()
	if !mc.Active() {
		if m.w || m.r > 0 {
			fatal("deadlock outside of an execution")
		}
		m.w = true
		return
	}
	// A writer announces itself in one step and acquires in a later one if readers are in.
	f := mc.Foot{Obj: m.b.obj, W: true}
	mc.Point("Lock(rw)", func() bool { return !m.w && m.waiting == 0 }, f)
	if m.r > 0 || m.w {
		m.waiting++
		func() {
			defer func() { m.waiting-- }()
			mc.Point("Lock(rw,readers)", func() bool { return !m.w && m.r == 0 }, f)
		}()
	}
	m.w = true
	m.vc.Acquire()
	m.rvc.Acquire()
}

func (m *RWMutex) TryLock() bool {
	m.init()
	if mc.Active() {
		mc.Point("TryLock(rw)", nil, mc.Foot{Obj: m.b.obj, W: true})
	}
	if m.w || m.r > 0 || m.waiting > 0 {
		mc.Spin()
		return false
	}
	m.w = true
	m.vc.Acquire()
	m.rvc.Acquire()
	return true
}

func (m *RWMutex) Unlock() {
	m.init()
	if mc.Active() {
		mc.Point("Unlock(rw)", nil, mc.Foot{Obj: m.b.obj, W: true})
	}
	if !m.w {
		if mc.Aborting() {
			return
		}
		fatal("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	m.vc.Release()
}

func (m *RWMutex) RLock() {
	m.init()
	if !mc.Active() {
		if m.w {
			fatal("deadlock outside of an execution")
		}
		m.r++
		return
	}
	mc.Point("RLock", func() bool { return !m.w && m.waiting == 0 }, mc.Foot{Obj: m.b.obj, W: true})
	m.r++
	m.vc.Acquire()
}

func (m *RWMutex) TryRLock() bool {
	m.init()
	if mc.Active() {
		mc.Point("TryRLock", nil, mc.Foot{Obj: m.b.obj, W: true})
	}
	if m.w || m.waiting > 0 {
		mc.Spin()
		return false
	}
	m.r++
	m.vc.Acquire()
	return true
}

func (m *RWMutex) RUnlock() {
	m.init()
	if mc.Active() {
		mc.Point("RUnlock", nil, mc.Foot{Obj: m.b.obj, W: true})
	}
	if m.r <= 0 {
		if mc.Aborting() {
			return
		}
		fatal("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	m.rvc.Release()
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type WaitGroup struct {
	b  base
	n  int
	vc mc.VC
}

func (w *WaitGroup) init() {
	if w.b.fresh() {
		w.vc.Reset()
	}
}

func (w *WaitGroup) Add(d int) {
	w.init()
	if mc.Active() {
		mc.Point("WaitGroup.Add", nil, mc.Foot{Obj: w.b.obj, W: true})
	}
	w.n += d
	if w.n < 0 && !mc.Aborting() {
		panic("sync: negative WaitGroup counter")
	}
	if d < 0 {
		w.vc.Release()
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	w.init()
	if mc.Active() {
		mc.Point("WaitGroup.Wait", func() bool { return w.n == 0 }, mc.Foot{Obj: w.b.obj, W: true})
	} else if w.n != 0 {
		fatal("deadlock outside of an execution")
	}
	w.vc.Acquire()
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	mc.Go(func() {
		defer w.Done()
		f()
	})
}

type Once struct {
	m    Mutex
	done bool
	vc   mc.VC
}

func (o *Once) Do(f func()) {
	o.m.init()
	if mc.Active() {
		mc.Point("Once.Do", nil, mc.Foot{Obj: o.m.b.obj, W: true})
	}
	if o.done {
		o.m.vc.Acquire()
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var once Once
	var valid bool
	var p any
	return func() {
		once.Do(func() {
			defer func() {
				p = recover()
				if !valid {
					panic(p)
				}
			}()
			f()
			valid = true
		})
		if !valid {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var r T
	o := OnceFunc(func() { r = f() })
	return func() T { o(); return r }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var r1 T1
	var r2 T2
	o := OnceFunc(func() { r1, r2 = f() })
	return func() (T1, T2) { o(); return r1, r2 }
}

type Cond struct {
	L  Locker
	b  base
	ws []*condWaiter
	vc mc.VC
}
type condWaiter struct{ signaled bool }

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) init() {
	if c.b.fresh() {
		c.vc.Reset()
		c.ws = nil
	}
}
func (c *Cond) Wait() {
	c.init()
	w := &condWaiter{}
	c.ws = append(c.ws, w)
	c.L.Unlock()
	if mc.Active() {
		mc.Point("Cond.Wait", func() bool { return w.signaled }, mc.Foot{Obj: c.b.obj, W: true})
	}
	c.vc.Acquire()
	c.L.Lock()
}
func (c *Cond) Signal() {
	c.init()
	if mc.Active() {
		mc.Point("Cond.Signal", nil, mc.Foot{Obj: c.b.obj, W: true})
	}
	c.vc.Release()
	if n := len(c.ws); n > 0 {
		i := mc.Choose(n)
		c.ws[i].signaled = true
		c.ws = append(c.ws[:i:i], c.ws[i+1:]...)
	}
}
func (c *Cond) Broadcast() {
	c.init()
	if mc.Active() {
		mc.Point("Cond.Broadcast", nil, mc.Foot{Obj: c.b.obj, W: true})
	}
	c.vc.Release()
	for _, w := range c.ws {
		w.signaled = true
	}
	c.ws = nil
}

// PoolChoice selects how Pool.Get behaves: 0 newest item; 1 explored choice among all items and none.
var PoolChoice = 0

type poolItem struct {
	v  any
	vc mc.VC
}

type Pool struct {
	New   func() any
	b     base
	items []poolItem
}

func (p *Pool) Get() any {
	p.b.fresh()
	if mc.Active() {
		mc.Point("Pool.Get", nil, mc.Foot{Obj: p.b.obj, W: true})
	}
	n := len(p.items)
	i := n - 1
	if PoolChoice == 1 && n > 0 {
		i = n - 1 - mc.Choose(n+1) // -1: as if collected
	}
	if i >= 0 {
		it := p.items[i]
		p.items = append(p.items[:i:i], p.items[i+1:]...)
		it.vc.Acquire()
		return it.v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.b.fresh()
	if mc.Active() {
		mc.Point("Pool.Put", nil, mc.Foot{Obj: p.b.obj, W: true})
	}
	it := poolItem{v: x}
	it.vc.Release()
	p.items = append(p.items, it)
}

type ment struct {
	k, v    any
	present bool
	vc      mc.VC
	obj     int
	seq     int
}

// Map is a sync.Map whose operations are atomic steps on one key each.
type Map struct {
	b    base
	m    map[any]*ment
	list []*ment
}

func (m *Map) init() {
	if m.b.fresh() {
		for _, e := range m.list {
			e.vc.Reset()
			if mc.Active() {
				e.obj = mc.E.NewObj()
			}
		}
	}
}

func (m *Map) ent(k any, kind string, w bool) *ment {
	m.init()
	e := m.m[k]
	if e == nil {
		if m.m == nil {
			m.m = map[any]*ment{}
		}
		e = &ment{k: k}
		if mc.Active() {
			e.obj = mc.E.NewObj()
		}
		m.m[k] = e
		if m.m[k] == nil { // a key that does not equal itself
			m.list = append(m.list, e)
		} else {
			m.list = append(m.list, e)
		}
	}
	if mc.Active() {
		mc.Point(kind, nil, mc.Foot{Obj: e.obj, W: w}, mc.Foot{Obj: m.b.obj, W: false})
		if f := m.m[k]; f != nil && f != e {
			e = f // the map was cleared in between
		}
	}
	return e
}

func (m *Map) Load(key any) (value any, ok bool) {
	e := m.ent(key, "Map.Load", false)
	e.vc.Acquire()
	if e.present {
		return e.v, true
	}
	return nil, false
}

func (m *Map) Store(key, value any) { m.Swap(key, value) }

func (m *Map) Swap(key, value any) (previous any, loaded bool) {
	e := m.ent(key, "Map.Swap", true)
	e.vc.Acquire()
	if e.present {
		previous, loaded = e.v, true
	}
	e.v, e.present = value, true
	e.vc.Release()
	return
}

func (m *Map) LoadOrStore(key, value any) (actual any, loaded bool) {
	e := m.ent(key, "Map.LoadOrStore", true)
	e.vc.Acquire()
	if e.present {
		return e.v, true
	}
	e.v, e.present = value, true
	e.vc.Release()
	return value, false
}

func (m *Map) LoadAndDelete(key any) (value any, loaded bool) {
	e := m.ent(key, "Map.LoadAndDelete", true)
	e.vc.Acquire()
	if e.present {
		value, loaded = e.v, true
	}
	e.v, e.present = nil, false
	e.vc.Release()
	return
}

func (m *Map) Delete(key any) { m.LoadAndDelete(key) }

func (m *Map) CompareAndSwap(key, old, new any) bool {
	e := m.ent(key, "Map.CompareAndSwap", true)
	e.vc.Acquire()
	if !e.present || e.v != old {
		mc.Spin()
		return false
	}
	e.v = new
	e.vc.Release()
	return true
}

func (m *Map) CompareAndDelete(key, old any) bool {
	e := m.ent(key, "Map.CompareAndDelete", true)
	e.vc.Acquire()
	if !e.present || e.v != old {
		return false
	}
	e.v, e.present = nil, false
	e.vc.Release()
	return true
}

func (m *Map) Range(f func(key, value any) bool) {
	m.init()
	if mc.Active() {
		mc.Point("Map.Range", nil, mc.Foot{Obj: m.b.obj, W: true})
	}
	l := append([]*ment(nil), m.list...)
	for _, e := range l {
		if !e.present {
			// it may appear before the traversal gets there, or not: both are allowed
			continue
		}
		if mc.Active() {
			mc.Point("Map.Range.next", nil, mc.Foot{Obj: e.obj, W: false}, mc.Foot{Obj: m.b.obj, W: false})
		}
		if !e.present {
			continue
		}
		e.vc.Acquire()
		if !f(e.k, e.v) {
			return
		}
	}
}

func (m *Map) Clear() {
	m.init()
	if mc.Active() {
		mc.Point("Map.Clear", nil, mc.Foot{Obj: m.b.obj, W: true})
	}
	for _, e := range m.list {
		e.vc.Acquire()
		e.v, e.present = nil, false
		e.vc.Release()
	}
}

func (m *Map) String() string { return fmt.Sprint(len(m.list)) }
