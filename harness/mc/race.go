package mc

import (
	"fmt"
	"reflect"
	"sort"
	"unsafe"
)

type vclock []int32

func (v vclock) get(i int) int32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}
func (v *vclock) set(i int, x int32) {
	for len(*v) <= i {
		*v = append(*v, 0)
	}
	(*v)[i] = x
}
func (v *vclock) join(o vclock) {
	for i, x := range o {
		if x > v.get(i) {
			v.set(i, x)
		}
	}
}
func (v vclock) clone() vclock { return append(vclock(nil), v...) }

// VC is a vector clock attached to a synchronisation object.
type VC struct{ v vclock }

// Acquire: the running goroutine observes everything released into the object.
func (c *VC) Acquire() {
	if E != nil && E.cur != nil {
		E.cur.vc.join(c.v)
	}
}

// Release: the object absorbs everything the running goroutine did so far.
func (c *VC) Release() {
	if E != nil && E.cur != nil {
		c.v.join(E.cur.vc)
		E.cur.inc()
	}
}
func (c *VC) Reset() { c.v = nil }

type cell struct {
	wt    int
	wc    int32
	wsite string
	reads []readRec
	at    []readRec // atomic accesses
	atObj int
	atVC  VC
}
type readRec struct {
	t    int
	c    int32
	site string
	w    bool
}

func (e *Exec) cellOf(p unsafe.Pointer) *cell {
	c := e.shadow[p]
	if c == nil {
		c = &cell{wt: -1}
		e.shadow[p] = c
	}
	return c
}

func (e *Exec) raceRead(p unsafe.Pointer, site string) {
	t := e.cur
	if t == nil || e.aborting || e.ex.NoRace {
		return
	}
	c := e.cellOf(p)
	if c.wt >= 0 && c.wt != t.id && c.wc > t.vc.get(c.wt) {
		e.raceFail("read", site, t.name, "write", c.wsite, e.threads[c.wt].name)
	}
	for _, r := range c.at {
		if r.w && r.t != t.id && r.c > t.vc.get(r.t) {
			e.raceFail("read", site, t.name, "atomic write", r.site, e.threads[r.t].name)
		}
	}
	for i := range c.reads {
		if c.reads[i].t == t.id {
			c.reads[i].c = t.vc.get(t.id)
			c.reads[i].site = site
			return
		}
	}
	c.reads = append(c.reads, readRec{t: t.id, c: t.vc.get(t.id), site: site})
}

func (e *Exec) raceWrite(p unsafe.Pointer, site string) {
	t := e.cur
	if t == nil || e.aborting || e.ex.NoRace {
		return
	}
	c := e.cellOf(p)
	if c.wt >= 0 && c.wt != t.id && c.wc > t.vc.get(c.wt) {
		e.raceFail("write", site, t.name, "write", c.wsite, e.threads[c.wt].name)
	}
	for _, r := range c.reads {
		if r.t != t.id && r.c > t.vc.get(r.t) {
			e.raceFail("write", site, t.name, "read", r.site, e.threads[r.t].name)
		}
	}
	for _, r := range c.at {
		if r.t != t.id && r.c > t.vc.get(r.t) {
			e.raceFail("write", site, t.name, "atomic access", r.site, e.threads[r.t].name)
		}
	}
	c.wt, c.wc, c.wsite = t.id, t.vc.get(t.id), site
	c.reads = c.reads[:0]
}

func (e *Exec) raceFail(a, as, an, b, bs, bn string) {
	e.setFail("data race", fmt.Sprintf("%s at %s by %s is not ordered with %s at %s by %s", a, as, an, b, bs, bn))
	// the execution ends at the next scheduling point
}

// Rd notes a read of *p.
func Rd[T any](p *T, site string) *T {
	if E != nil && p != nil {
		E.raceRead(unsafe.Pointer(p), site)
	}
	return p
}

// Wr notes a write of *p.
func Wr[T any](p *T, site string) *T {
	if E != nil && p != nil {
		E.raceWrite(unsafe.Pointer(p), site)
	}
	return p
}

// RW notes a read and a write of *p.
func RW[T any](p *T, site string) *T {
	if E != nil && p != nil {
		E.raceRead(unsafe.Pointer(p), site)
		E.raceWrite(unsafe.Pointer(p), site)
	}
	return p
}

func mapPtr[M ~map[K]V, K comparable, V any](m M) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&m))
}

// MapRd notes a read of map m.
func MapRd[M ~map[K]V, K comparable, V any](m M, site string) M {
	if E != nil && m != nil {
		E.raceRead(mapPtr(m), site)
	}
	return m
}

// MapWr notes a write of map m.
func MapWr[M ~map[K]V, K comparable, V any](m M, site string) M {
	if E != nil && m != nil {
		E.raceWrite(mapPtr(m), site)
	}
	return m
}

// MapSeq iterates over a map in a deterministic order with the semantics of range.
func MapSeq[M ~map[K]V, K comparable, V any](m M, site string) func(yield func(K, V) bool) {
	MapRd(m, site)
	return func(yield func(K, V) bool) {
		keys := make([]K, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		sortKeys(keys)
		for _, k := range keys {
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

func sortKeys[K any](keys []K) {
	if len(keys) < 2 {
		return
	}
	var z K
	k := reflect.TypeOf(&z).Elem().Kind()
	less := func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) }
	switch k {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		less = func(i, j int) bool { return reflect.ValueOf(keys[i]).Int() < reflect.ValueOf(keys[j]).Int() }
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		less = func(i, j int) bool { return reflect.ValueOf(keys[i]).Uint() < reflect.ValueOf(keys[j]).Uint() }
	case reflect.String:
		less = func(i, j int) bool { return reflect.ValueOf(keys[i]).String() < reflect.ValueOf(keys[j]).String() }
	}
	sort.SliceStable(keys, less)
}

// Atomic is the scheduling point and happens-before effect of an atomic access to *p.
func Atomic(p unsafe.Pointer, w bool, kind string) {
	e := E
	if e == nil {
		return
	}
	if p == nil {
		panic("runtime error: invalid memory address or nil pointer dereference")
	}
	c := e.cellOf(p)
	if c.atObj == 0 {
		c.atObj = e.NewObj()
	}
	e.point(&op{kind: kind, feet: []Foot{{c.atObj, w}}})
	t := e.cur
	if t == nil || e.aborting {
		return
	}
	if !e.ex.NoRace {
		if c.wt >= 0 && c.wt != t.id && c.wc > t.vc.get(c.wt) {
			e.raceFail("atomic access", kind, t.name, "write", c.wsite, e.threads[c.wt].name)
		}
		if w {
			for _, r := range c.reads {
				if r.t != t.id && r.c > t.vc.get(r.t) {
					e.raceFail("atomic write", kind, t.name, "read", r.site, e.threads[r.t].name)
				}
			}
		}
		found := false
		for i := range c.at {
			if c.at[i].t == t.id && c.at[i].w == w {
				c.at[i].c = t.vc.get(t.id)
				found = true
			}
		}
		if !found {
			c.at = append(c.at, readRec{t: t.id, c: t.vc.get(t.id), site: kind, w: w})
		}
	}
	c.atVC.Acquire()
	if w {
		c.atVC.Release()
	}
}

// Set records a write of *p after its operand is evaluated, and performs it.
func Set[T any](p *T, site string) func(T) {
	return func(v T) {
		*Wr(p, site) = v
	}
}

// Zero clears a variable.
func Zero[T any](p *T) {
	var z T
	*p = z
}
