package mc

import (
	"fmt"
	"sort"
	"strings"
)

// Op is one operation of a concurrent history.
type Op struct {
	Thread string
	Name   string
	In     any
	Out    any
	Call   int
	Ret    int // 0: pending
}

func (o *Op) String() string {
	return fmt.Sprintf("%s: %s(%v) -> %v [%d,%d]", o.Thread, o.Name, o.In, o.Out, o.Call, o.Ret)
}

// Do runs f as an operation of the history.
func (e *Exec) Do(name string, in any, f func() any) any {
	e.point(&op{kind: "call " + name, feet: []Foot{{e.histObj, true}}})
	e.histClock++
	o := &Op{Thread: e.cur.name, Name: name, In: in, Call: e.histClock}
	e.hist = append(e.hist, o)
	if e.ex.tracing {
		e.Log("%s(%v) ...", name, in)
	}
	out := f()
	if e.aborting {
		return out
	}
	if e.ex.sleepSets {
		e.point(&op{kind: "return " + name, feet: []Foot{{e.histObj, true}}})
	}
	o.Out = out
	e.histClock++
	o.Ret = e.histClock
	if e.ex.tracing {
		e.Log("... %s(%v) = %v", name, in, out)
	}
	return out
}

// History returns the operations so far.
func (e *Exec) History() []*Op { return e.hist }

// ResetHistory forgets the operations so far.
func (e *Exec) ResetHistory() { e.hist = nil }

func (e *Exec) histStrings() []string {
	var r []string
	for _, o := range e.hist {
		r = append(r, o.String())
	}
	return r
}

// Spec is a sequential specification: Apply returns the states possible after o from state s (none: o's result
// is impossible there). Pending operations have o.Ret == 0 and may have any result.
type Spec interface {
	Init() string
	Apply(s string, o *Op) []string
}

// SpecFunc makes a Spec of a function.
type SpecFunc struct {
	I string
	F func(s string, o *Op) []string
}

func (f SpecFunc) Init() string                   { return f.I }
func (f SpecFunc) Apply(s string, o *Op) []string { return f.F(s, o) }

// Linearizable decides whether some linearization of ops is allowed by spec (pending ops may be dropped).
func Linearizable(ops []*Op, spec Spec) bool {
	n := len(ops)
	if n > 62 {
		panic("history too long")
	}
	type key struct {
		mask  uint64
		state string
	}
	seen := map[key]bool{}
	var full uint64
	for i, o := range ops {
		if o.Ret != 0 {
			full |= 1 << i
		}
	}
	var rec func(mask uint64, s string) bool
	rec = func(mask uint64, s string) bool {
		if mask&full == full {
			return true
		}
		k := key{mask, s}
		if seen[k] {
			return false
		}
		seen[k] = true
		// earliest return among unlinearized completed ops
		minRet := 1 << 60
		for i, o := range ops {
			if mask&(1<<i) == 0 && o.Ret != 0 && o.Ret < minRet {
				minRet = o.Ret
			}
		}
		for i, o := range ops {
			if mask&(1<<i) != 0 || o.Call > minRet {
				continue
			}
			for _, s2 := range spec.Apply(s, o) {
				if rec(mask|1<<i, s2) {
					return true
				}
			}
		}
		return false
	}
	return rec(0, spec.Init())
}

// CheckLin fails the execution when the history is not linearizable.
func (e *Exec) CheckLin(spec Spec) {
	if e.fail != nil || e.aborting {
		return
	}
	if !Linearizable(e.hist, spec) {
		e.Fail("history is not linearizable:\n  %s", strings.Join(e.histStrings(), "\n  "))
	}
}

// SortedKeys helps specs print states.
func SortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
