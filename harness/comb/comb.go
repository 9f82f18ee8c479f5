// Package comb builds scenarios that run every combination of operations of an alphabet on several goroutines and
// check the history against a sequential specification.
package comb

import (
	"fmt"
	"strings"

	"verif.local/v/mc"
	"verif.local/v/run"
)

// Def is one operation of an alphabet.
type Def[T any] struct {
	Name string
	In   any
	Do   func(o T) any
}

// Model is a structure under test.
type Model[T any] struct {
	Name     string
	New      func() T
	Setup    []Def[T]
	Ops      []Def[T]
	Final    []Def[T]
	Spec     mc.Spec
	After    func(e *mc.Exec, o T)
	Max      int
	MaxDeep  int
	TimeCost int
	NoRace   bool
	Horizon  int
}

func shapeName(shape []int) string {
	var s []string
	for _, n := range shape {
		s = append(s, fmt.Sprint(n))
	}
	return strings.Join(s, "+")
}

// Scenarios makes one scenario per shape and first operation; the other operations are free choices.
func (m Model[T]) Scenarios(deep bool, shapes ...[]int) []run.Scenario {
	var r []run.Scenario
	for _, shape := range shapes {
		for first := range m.Ops {
			f := m.Ops[first]
			r = append(r, run.Scenario{
				Name: fmt.Sprintf("%s/%s/%d-%s(%v)", m.Name, shapeName(shape), first, f.Name, f.In),
				Max:  m.Max, MaxDeep: m.MaxDeep, TimeCost: m.TimeCost, NoRace: m.NoRace, Horizon: m.Horizon, Deep: deep,
				Body: func(e *mc.Exec) { m.body(e, shape, first) },
			})
		}
	}
	return r
}

func (m Model[T]) do(e *mc.Exec, o T, d Def[T]) {
	e.Do(d.Name, d.In, func() any { return d.Do(o) })
}

func (m Model[T]) body(e *mc.Exec, shape []int, first int) {
	o := m.New()
	for _, d := range m.Setup {
		m.do(e, o, d)
	}
	var threads [][]int
	var prev []int
	for i, n := range shape {
		var ops []int
		eq := i > 0 && shape[i-1] == n // equal shapes: only non-decreasing assignments
		for j := 0; j < n; j++ {
			switch {
			case i == 0 && j == 0:
				ops = append(ops, first)
			case eq:
				c := prev[j] + mc.Choose(len(m.Ops)-prev[j])
				if c > prev[j] {
					eq = false
				}
				ops = append(ops, c)
			default:
				ops = append(ops, mc.Choose(len(m.Ops)))
			}
		}
		prev = ops
		threads = append(threads, ops)
	}
	for i, ops := range threads {
		e.Go(fmt.Sprintf("T%d", i+1), func() {
			for _, k := range ops {
				m.do(e, o, m.Ops[k])
			}
		})
	}
	e.Join()
	for _, d := range m.Final {
		m.do(e, o, d)
	}
	if m.Spec != nil {
		e.CheckLin(m.Spec)
	}
	if m.After != nil {
		m.After(e, o)
	}
}

// Det makes a specification of a deterministic step function: the result is compared as printed.
func Det(init string, step func(s, name string, in any) (out any, s2 string)) mc.Spec {
	return mc.SpecFunc{I: init, F: func(s string, o *mc.Op) []string {
		out, s2 := step(s, o.Name, o.In)
		if o.Ret != 0 && fmt.Sprint(out) != fmt.Sprint(o.Out) {
			return nil
		}
		return []string{s2}
	}}
}

// KV is an entry of a model map.
type KV struct{ K, V string }

// Parse and Format convert the states of model maps: "k=v,k=v".
func Parse(s string) (r []KV) {
	if s == "" {
		return
	}
	for _, p := range strings.Split(s, ",") {
		k, v, _ := strings.Cut(p, "=")
		r = append(r, KV{k, v})
	}
	return
}

func Format(kvs []KV) string {
	var b strings.Builder
	for i, e := range kvs {
		if i > 0 {
			b.WriteByte(',')
		}
		b.WriteString(e.K + "=" + e.V)
	}
	return b.String()
}

// Find locates a key.
func Find(kvs []KV, k string) int {
	for i, e := range kvs {
		if e.K == k {
			return i
		}
	}
	return -1
}

// Without removes index i.
func Without(kvs []KV, i int) []KV {
	return append(append([]KV(nil), kvs[:i]...), kvs[i+1:]...)
}

// Front prepends an entry.
func Front(kvs []KV, e KV) []KV { return append([]KV{e}, kvs...) }
