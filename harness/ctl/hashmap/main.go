// Controlled exploration of package hashmap (C01 to C06).
package main

import (
	"fmt"
	"sort"
	"strings"

	hm "github.com/donnie4w/gofer/hashmap"
	"verif.local/v/comb"
	"verif.local/v/mc"
	"verif.local/v/run"
)

func main() {
	run.Main(map[string]run.Maker{"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06})
}

type kv struct {
	K string
	V any
}

func (p kv) String() string { return fmt.Sprintf("%s=%v", p.K, p.V) }

// pv is the result of operations returning a value and a flag.
func pv[V any](v V, ok bool) any { return fmt.Sprintf("%v,%v", v, ok) }

// ---- C01 ----

type anyMap interface {
	Put(string, any) (any, bool)
	Get(string) (any, bool)
	Has(string) bool
	Del(string) bool
	Range(func(string, any) bool)
}

func mapSpec() mc.Spec {
	return comb.Det("", func(s, name string, in any) (any, string) {
		m := comb.Parse(s)
		var k, v string
		switch x := in.(type) {
		case kv:
			k, v = x.K, fmt.Sprint(x.V)
		case string:
			k = x
		}
		i := comb.Find(m, k)
		old, has := "<nil>", false
		if i >= 0 {
			old, has = m[i].V, true
		}
		switch name {
		case "Put":
			if has {
				m[i].V = v
			} else {
				m = append(m, comb.KV{K: k, V: v})
				sort.Slice(m, func(a, b int) bool { return m[a].K < m[b].K })
			}
			return fmt.Sprintf("%s,%v", old, has), comb.Format(m)
		case "Get":
			return fmt.Sprintf("%s,%v", old, has), s
		case "Has":
			return has, s
		case "Del":
			if has {
				m = comb.Without(m, i)
			}
			return has, comb.Format(m)
		case "Len":
			return len(m), s
		case "All":
			return s, s
		}
		panic(name)
	})
}

func rangeAll(o anyMap) any {
	var r []comb.KV
	o.Range(func(k string, v any) bool { r = append(r, comb.KV{K: k, V: fmt.Sprint(v)}); return true })
	sort.Slice(r, func(a, b int) bool { return r[a].K < r[b].K })
	return comb.Format(r)
}

func mapOps[T anyMap]() []comb.Def[T] {
	put := func(k string, v any) comb.Def[T] {
		return comb.Def[T]{Name: "Put", In: kv{k, v}, Do: func(o T) any { return pv(o.Put(k, v)) }}
	}
	return []comb.Def[T]{
		put("a", 1), put("a", 2), put("a", nil), put("b", 3),
		{Name: "Get", In: "a", Do: func(o T) any { return pv(o.Get("a")) }},
		{Name: "Has", In: "a", Do: func(o T) any { return o.Has("a") }},
		{Name: "Del", In: "a", Do: func(o T) any { return o.Del("a") }},
		{Name: "Del", In: "b", Do: func(o T) any { return o.Del("b") }},
		{Name: "Get", In: "b", Do: func(o T) any { return pv(o.Get("b")) }},
	}
}

func mapModel[T anyMap](name string, mk func() T, setup []comb.Def[T], final []comb.Def[T]) comb.Model[T] {
	return comb.Model[T]{Name: name, New: mk, Setup: setup, Ops: mapOps[T](), Spec: mapSpec(), Max: 2, MaxDeep: 5,
		Final: append(final, comb.Def[T]{Name: "All", Do: func(o T) any { return rangeAll(o) }})}
}

type mapL struct{ *hm.MapL[string, any] }
type mapP struct{ *hm.Map[string, any] }

func c01(thorough bool) (r []run.Scenario) {
	newL := func() mapL { return mapL{hm.NewMapL[string, any]()} }
	newP := func() mapP { return mapP{hm.NewMap[string, any]()} }
	lenOp := []comb.Def[mapL]{{Name: "Len", Do: func(o mapL) any { return o.Len() }}}
	sL := []comb.Def[mapL]{mapOps[mapL]()[0]}
	sP := []comb.Def[mapP]{mapOps[mapP]()[0]}
	sets := [][]int{{1, 1}, {2, 1}, {1, 1, 1}}
	deep := [][]int{{2, 2}, {3, 1}, {2, 1, 1}}
	for i, set := range [][]comb.Def[mapL]{nil, sL} {
		m := mapModel(fmt.Sprintf("MapL/init%d", i), newL, set, lenOp)
		r = append(r, m.Scenarios(false, sets...)...)
		r = append(r, m.Scenarios(true, deep...)...)
	}
	for i, set := range [][]comb.Def[mapP]{nil, sP} {
		m := mapModel(fmt.Sprintf("Map/init%d", i), newP, set, nil)
		r = append(r, m.Scenarios(false, sets...)...)
		r = append(r, m.Scenarios(true, deep...)...)
	}
	r = append(r, rangeScen("MapL", newL)...)
	r = append(r, rangeScen("Map", newP)...)
	// Len while others write: no data race, and between the extremes
	r = append(r, run.Scenario{Name: "MapL/len-concurrent", Max: 3, MaxDeep: 6, Body: func(e *mc.Exec) {
		m := newL()
		m.Put("x", 0)
		e.Go("P", func() { m.Put("a", 1); m.Put("a", 2) })
		e.Go("D", func() { m.Del("a"); m.Del("x") })
		e.Go("L", func() {
			if n := m.Len(); n < -1 || n > 3 {
				e.Fail("Len is %d with two keys", n)
			}
		})
		e.Join()
		want := int64(0)
		m.Range(func(string, any) bool { want++; return true })
		if n := m.Len(); n != want {
			e.Fail("Len is %d with %d keys present", n, want)
		}
	}})
	return
}

// keys p and q are present throughout; others come and go
func rangeScen[T anyMap](name string, mk func() T) (r []run.Scenario) {
	others := []string{"put-new", "del", "replace", "replace-nil", "del-put"}
	for _, how := range others {
		r = append(r, run.Scenario{Name: name + "/range-while-" + how, Max: 3, MaxDeep: 6, Body: func(e *mc.Exec) {
			m := mk()
			m.Put("p", "p1")
			m.Put("q", "q1")
			m.Put("r", "r1")
			e.Go("R", func() {
				seen := map[string]int{}
				m.Range(func(k string, v any) bool {
					seen[k]++
					if v != nil && !strings.HasPrefix(fmt.Sprint(v), k) || v == nil && how != "replace-nil" {
						e.Fail("Range visited %s with value %v", k, v)
					}
					return true
				})
				for _, k := range []string{"p", "q"} {
					if seen[k] != 1 {
						e.Fail("Range visited key %s, present throughout, %d times", k, seen[k])
					}
				}
				for k, n := range seen {
					if n > 1 {
						e.Fail("Range visited %s %d times", k, n)
					}
				}
			})
			e.Go("W", func() {
				switch how {
				case "put-new":
					m.Put("s", "s1")
				case "del":
					m.Del("r")
				case "replace":
					m.Put("p", "p2")
				case "replace-nil":
					m.Put("p", nil)
				case "del-put":
					m.Del("r")
					m.Put("r", "r2")
				}
			})
			e.Go("S", func() {
				n := 0
				m.Range(func(string, any) bool { n++; return n < 2 })
				if n != 2 {
					e.Fail("Range went on for %d calls after its callback returned false at call 2", n)
				}
			})
			e.Join()
		}})
	}
	return
}

// ---- C02 ----

func c02(thorough bool) (r []run.Scenario) {
	type T = *hm.LimitMap[string, any]
	put := func(k string, v any) comb.Def[T] {
		return comb.Def[T]{Name: "Put", In: kv{k, v}, Do: func(o T) any { return pv(o.Put(k, v)) }}
	}
	get := func(k string) comb.Def[T] {
		return comb.Def[T]{Name: "Get", In: k, Do: func(o T) any { return pv(o.Get(k)) }}
	}
	ops := []comb.Def[T]{put("a", 5), put("b", 6), put("c", 7), put("d", nil), get("a"), get("b"),
		{Name: "Del", In: "a", Do: func(o T) any { o.Del("a"); return nil }},
		{Name: "RemoveMulti", In: "a b z", Do: func(o T) any { o.RemoveMulti([]string{"a", "b", "z"}); return nil }},
		{Name: "Len", Do: func(o T) any { return o.Len() }},
	}
	for _, c := range []struct{ cap, fill int }{{1, 0}, {1, 1}, {2, 1}, {2, 2}, {3, 3}} {
		n := c.cap
		spec := comb.Det("", func(s, name string, in any) (any, string) {
			m := comb.Parse(s)
			switch name {
			case "Put":
				x := in.(kv)
				old, has := "<nil>", false
				if i := comb.Find(m, x.K); i >= 0 {
					old, has = m[i].V, true
					m = comb.Without(m, i)
				} else if len(m) >= n {
					m = m[:len(m)-1]
				}
				m = comb.Front(m, comb.KV{K: x.K, V: fmt.Sprint(x.V)})
				return fmt.Sprintf("%s,%v", old, has), comb.Format(m)
			case "Get":
				if i := comb.Find(m, in.(string)); i >= 0 {
					return m[i].V + ",true", s
				}
				return "<nil>,false", s
			case "Del", "RemoveMulti":
				for _, k := range strings.Fields(in.(string)) {
					if i := comb.Find(m, k); i >= 0 {
						m = comb.Without(m, i)
					}
				}
				return nil, comb.Format(m)
			case "Len":
				return len(m), s
			}
			panic(name)
		})
		var setup []comb.Def[T]
		for i, k := range []string{"a", "b", "c"}[:c.fill] {
			setup = append(setup, put(k, i))
		}
		m := comb.Model[T]{Name: fmt.Sprintf("LimitMap%d/fill%d", n, c.fill), New: func() T { return hm.NewLimitMap[string, any](n) },
			Setup: setup, Ops: ops, Spec: spec, Max: 2, MaxDeep: 5,
			Final: []comb.Def[T]{{Name: "Len", Do: func(o T) any { return o.Len() }}, get("a"), get("b"), get("c"), get("d"), put("e", 9), get("a"), get("b"), get("c"), get("d")}}
		r = append(r, m.Scenarios(false, []int{1, 1}, []int{1, 1, 1}, []int{2, 1})...)
		r = append(r, m.Scenarios(true, []int{2, 2}, []int{2, 1, 1})...)
	}
	return
}

// ---- C03 ----

func c03(thorough bool) (r []run.Scenario) {
	type T = *hm.LimitHashMap[int, any]
	put := func(k int, v any) comb.Def[T] {
		return comb.Def[T]{Name: "Put", In: kv{fmt.Sprint(k), v}, Do: func(o T) any { return pv(o.Put(k, v)) }}
	}
	get := func(k int) comb.Def[T] {
		return comb.Def[T]{Name: "Get", In: fmt.Sprint(k), Do: func(o T) any { return pv(o.Get(k)) }}
	}
	has := func(k int) comb.Def[T] {
		return comb.Def[T]{Name: "Contains", In: fmt.Sprint(k), Do: func(o T) any { return o.Contains(k) }}
	}
	del := func(k int) comb.Def[T] {
		return comb.Def[T]{Name: "Del", In: fmt.Sprint(k), Do: func(o T) any { o.Del(k); return nil }}
	}
	length := comb.Def[T]{Name: "Len", Do: func(o T) any { return o.Len() }}
	lenC := comb.Def[T]{Name: "LenC", Do: func(o T) any { return o.Len() }}
	clr := comb.Def[T]{Name: "Clear", Do: func(o T) any { o.Clear(); return nil }}
	for _, c := range []struct{ cap, seg, fill int }{{1, 1, 1}, {2, 1, 1}, {2, 1, 2}, {2, 2, 2}, {1, 2, 1}, {3, 2, 2}, {2, 64, 2}, {4, 2, 4}} {
		n := c.cap
		one := c.seg == 1
		spec := mc.SpecFunc{I: "", F: func(s string, o *mc.Op) []string {
			m := comb.Parse(s)
			is := func(x any) bool { return o.Ret == 0 || fmt.Sprint(x) == fmt.Sprint(o.Out) }
			i := -1
			if k, ok := o.In.(string); ok {
				i = comb.Find(m, k)
			}
			switch o.Name {
			case "Put":
				x := o.In.(kv)
				e := comb.KV{K: x.K, V: fmt.Sprint(x.V)}
				if i := comb.Find(m, x.K); i >= 0 {
					if !is(m[i].V + ",true") {
						return nil
					}
					m[i].V = e.V
					return []string{comb.Format(m)}
				}
				if !is("<nil>,false") {
					return nil
				}
				if one {
					if len(m) >= n {
						m = m[:len(m)-1]
					}
					return []string{comb.Format(comb.Front(m, e))}
				}
				// the segment of a key is the implementation's affair: one other entry may go
				var r []string
				if len(m) < n {
					r = append(r, comb.Format(comb.Front(m, e)))
				}
				for j := range m {
					r = append(r, comb.Format(comb.Front(comb.Without(m, j), e)))
				}
				return r
			case "Get":
				if i >= 0 && is(m[i].V+",true") || i < 0 && is("<nil>,false") {
					return []string{s}
				}
			case "Contains":
				if is(i >= 0) {
					return []string{s}
				}
			case "Del":
				if i >= 0 {
					m = comb.Without(m, i)
				}
				return []string{comb.Format(m)}
			case "Clear":
				return []string{""}
			case "Len":
				if is(len(m)) {
					return []string{s}
				}
			case "LenC":
				if o.Ret == 0 || o.Out.(int) <= n {
					return []string{s}
				}
			}
			return nil
		}}
		ops := []comb.Def[T]{put(1, 5), put(2, 6), put(3, 7), put(-1, nil), get(1), get(3), has(2), del(1)}
		if one {
			ops = append(ops, length, clr)
		} else {
			ops = append(ops, lenC)
		}
		var setup []comb.Def[T]
		for i, k := range []int{1, 2, 3, 4}[:c.fill] {
			setup = append(setup, put(k, i))
		}
		m := comb.Model[T]{Name: fmt.Sprintf("LimitHashMap%dx%d/fill%d", n, c.seg, c.fill), New: func() T { return hm.NewLimitHashMapWithSegment[int, any](n, c.seg) },
			Setup: setup, Ops: ops, Spec: spec, Max: 2, MaxDeep: 5,
			Final: []comb.Def[T]{length, get(1), get(2), get(3), get(-1), has(-1), get(4)}}
		r = append(r, m.Scenarios(false, []int{1, 1}, []int{2, 1})...)
		if one || c.seg == 2 && c.cap == 2 {
			r = append(r, m.Scenarios(false, []int{1, 1, 1})...)
		}
		r = append(r, m.Scenarios(true, []int{2, 2}, []int{2, 1, 1})...)
	}
	return
}

// ---- C04 ----

// Model state: entries front to back, then "|" and entries still visible to Get while the Put that evicted them
// has not returned, as k=v@return.
func linkedSpec(n int) mc.Spec {
	return mc.SpecFunc{I: "|", F: func(s string, o *mc.Op) []string {
		main, gs, _ := strings.Cut(s, "|")
		m := comb.Parse(main)
		var ghosts []comb.KV
		for _, g := range comb.Parse(gs) {
			v, at, _ := strings.Cut(g.V, "@")
			var t int
			fmt.Sscan(at, &t)
			_ = v
			if t == 0 || o.Call < t {
				ghosts = append(ghosts, g)
			}
		}
		is := func(x any) bool { return o.Ret == 0 || fmt.Sprint(x) == fmt.Sprint(o.Out) }
		st := func(m []comb.KV) []string { return []string{comb.Format(m) + "|" + comb.Format(ghosts)} }
		dropGhost := func(k string) {
			if i := comb.Find(ghosts, k); i >= 0 {
				ghosts = comb.Without(ghosts, i)
			}
		}
		insert := func(e comb.KV) []string {
			dropGhost(e.K)
			m = comb.Front(m, e)
			if len(m) > n {
				last := m[len(m)-1]
				m = m[:len(m)-1]
				ghosts = append(ghosts, comb.KV{K: last.K, V: fmt.Sprintf("%s@%d", last.V, o.Ret)})
			}
			return st(m)
		}
		switch o.Name {
		case "Put":
			x := o.In.(kv)
			if i := comb.Find(m, x.K); i >= 0 {
				m = comb.Without(m, i)
				return st(comb.Front(m, comb.KV{K: x.K, V: fmt.Sprint(x.V)}))
			}
			return insert(comb.KV{K: x.K, V: fmt.Sprint(x.V)})
		case "LoadOrStore":
			x := o.In.(kv)
			if i := comb.Find(m, x.K); i >= 0 {
				if !is(m[i].V + ",true") {
					return nil
				}
				e := m[i]
				// whether a loaded entry moves to the front is left open
				r := st(m)
				return append(r, st(comb.Front(comb.Without(m, i), e))...)
			}
			if !is(fmt.Sprint(x.V) + ",false") {
				return nil
			}
			return insert(comb.KV{K: x.K, V: fmt.Sprint(x.V)})
		case "Get":
			k := o.In.(string)
			var r []string
			i := comb.Find(m, k)
			if i >= 0 && is(m[i].V+",true") || i < 0 && is("<nil>,false") {
				r = st(m)
			}
			if j := comb.Find(ghosts, k); i < 0 && j >= 0 {
				v, _, _ := strings.Cut(ghosts[j].V, "@")
				if is(v + ",true") {
					r = st(m)
				}
			}
			return r
		case "Delete":
			if i := comb.Find(m, o.In.(string)); i >= 0 {
				m = comb.Without(m, i)
			}
			return st(m)
		case "MoveToFront":
			if i := comb.Find(m, o.In.(string)); i >= 0 {
				e := m[i]
				m = comb.Front(comb.Without(m, i), e)
			}
			return st(m)
		case "Clear":
			return st(nil)
		case "Len":
			if is(len(m)) {
				return st(m)
			}
		case "Front":
			if len(m) == 0 && is(",<nil>,false") || len(m) > 0 && is(m[0].K+","+m[0].V+",true") {
				return st(m)
			}
		case "Back":
			if len(m) == 0 && is(",<nil>,false") || len(m) > 0 && is(m[len(m)-1].K+","+m[len(m)-1].V+",true") {
				return st(m)
			}
		case "All":
			if is(comb.Format(m)) {
				return st(m)
			}
		case "AllBack":
			var b []comb.KV
			for i := len(m) - 1; i >= 0; i-- {
				b = append(b, m[i])
			}
			if is(comb.Format(b)) {
				return st(m)
			}
		case "Iterate":
			return st(m)
		}
		return nil
	}}
}

func c04(thorough bool) (r []run.Scenario) {
	type T = *hm.LinkedHashMap[string, any]
	put := func(k string, v any) comb.Def[T] {
		return comb.Def[T]{Name: "Put", In: kv{k, v}, Do: func(o T) any { o.Put(k, v); return nil }}
	}
	los := func(k string, v any) comb.Def[T] {
		return comb.Def[T]{Name: "LoadOrStore", In: kv{k, v}, Do: func(o T) any { return pv(o.LoadOrStore(k, v)) }}
	}
	get := func(k string) comb.Def[T] {
		return comb.Def[T]{Name: "Get", In: k, Do: func(o T) any { return pv(o.Get(k)) }}
	}
	tri := func(k string, v any, ok bool) any { return fmt.Sprintf("%v,%v,%v", k, v, ok) }
	all := func(name string, front bool) comb.Def[T] {
		return comb.Def[T]{Name: name, Do: func(o T) any {
			var r []comb.KV
			it := o.Iterator(front)
			for {
				k, v, ok := it.Next()
				if !ok {
					break
				}
				r = append(r, comb.KV{K: k, V: fmt.Sprint(v)})
				if len(r) > 20 {
					return "endless"
				}
			}
			return comb.Format(r)
		}}
	}
	length := comb.Def[T]{Name: "Len", Do: func(o T) any { return o.Len() }}
	ops := []comb.Def[T]{put("a", 5), put("b", 6), put("c", 7), los("a", 8), los("d", 9), get("a"), get("c"),
		{Name: "Delete", In: "a", Do: func(o T) any { o.Delete("a"); return nil }},
		{Name: "MoveToFront", In: "a", Do: func(o T) any { o.MoveToFront("a"); return nil }},
		{Name: "Clear", Do: func(o T) any { o.Clear(); return nil }},
		length,
		{Name: "Front", Do: func(o T) any { return tri(o.Front()) }},
		{Name: "Back", Do: func(o T) any { return tri(o.Back()) }},
		all("Iterate", true),
	}
	for _, c := range []struct{ n, fill int }{{1, 0}, {1, 1}, {2, 1}, {2, 2}} {
		var setup []comb.Def[T]
		for i, k := range []string{"a", "b", "c"}[:c.fill] {
			setup = append(setup, put(k, i))
		}
		m := comb.Model[T]{Name: fmt.Sprintf("LinkedHashMap%d/fill%d", c.n, c.fill), New: func() T { return hm.NewLinkedHashMap[string, any](int64(c.n)) },
			Setup: setup, Ops: ops, Spec: linkedSpec(c.n), Max: 2, MaxDeep: 5,
			Final: []comb.Def[T]{length, all("All", true), all("AllBack", false), get("a"), get("b"), get("c"), get("d")}}
		r = append(r, m.Scenarios(false, []int{1, 1}, []int{2, 1})...)
		if c.n == 2 {
			r = append(r, m.Scenarios(false, []int{1, 1, 1})...)
		}
		r = append(r, m.Scenarios(true, []int{2, 2}, []int{2, 1, 1}, []int{3, 1})...)
	}
	return
}

// ---- C05 ----

func c05(thorough bool) (r []run.Scenario) {
	type T = *hm.TreeMap[string, any]
	put := func(k string, v any) comb.Def[T] {
		return comb.Def[T]{Name: "Put", In: kv{k, v}, Do: func(o T) any { return pv(o.Put(k, v)) }}
	}
	get := func(k string) comb.Def[T] {
		return comb.Def[T]{Name: "Get", In: k, Do: func(o T) any { return pv(o.Get(k)) }}
	}
	walk := func(name string, f func(o T, it func(string, any) bool), stop int) comb.Def[T] {
		return comb.Def[T]{Name: name, In: stop, Do: func(o T) any {
			var r []comb.KV
			f(o, func(k string, v any) bool {
				r = append(r, comb.KV{K: k, V: fmt.Sprint(v)})
				return len(r) != stop
			})
			return comb.Format(r)
		}}
	}
	asc := func(o T, it func(string, any) bool) { o.Ascend(it) }
	desc := func(o T, it func(string, any) bool) { o.Descend(it) }
	spec := comb.Det("", func(s, name string, in any) (any, string) {
		m := comb.Parse(s)
		switch name {
		case "Put":
			x := in.(kv)
			if i := comb.Find(m, x.K); i >= 0 {
				old := m[i].V
				m[i].V = fmt.Sprint(x.V)
				return old + ",true", comb.Format(m)
			}
			m = append(m, comb.KV{K: x.K, V: fmt.Sprint(x.V)})
			sort.Slice(m, func(a, b int) bool { return m[a].K < m[b].K })
			return "<nil>,false", comb.Format(m)
		case "Get":
			if i := comb.Find(m, in.(string)); i >= 0 {
				return m[i].V + ",true", s
			}
			return "<nil>,false", s
		case "Del":
			if i := comb.Find(m, in.(string)); i >= 0 {
				m = comb.Without(m, i)
			}
			return nil, comb.Format(m)
		case "Ascend", "Descend":
			if name == "Descend" {
				for i, j := 0, len(m)-1; i < j; i, j = i+1, j-1 {
					m[i], m[j] = m[j], m[i]
				}
			}
			if k := in.(int); k > 0 && len(m) > k {
				m = m[:k]
			}
			return comb.Format(m), s
		}
		panic(name)
	})
	ops := []comb.Def[T]{put("a", 5), put("b", 6), put("c", nil), get("a"), get("b"),
		{Name: "Del", In: "a", Do: func(o T) any { o.Del("a"); return nil }},
		{Name: "Del", In: "b", Do: func(o T) any { o.Del("b"); return nil }},
		walk("Ascend", asc, 0), walk("Descend", desc, 0), walk("Ascend", asc, 1)}
	for _, c := range []struct {
		degree int
		keys   []string
	}{{2, nil}, {2, []string{"a", "b"}}, {2, []string{"0", "1", "2", "3", "a", "b", "d"}}, {3, []string{"b", "d", "e"}}} {
		var setup []comb.Def[T]
		for i, k := range c.keys {
			setup = append(setup, put(k, i))
		}
		m := comb.Model[T]{Name: fmt.Sprintf("TreeMap%d/fill%d", c.degree, len(c.keys)), New: func() T { return hm.NewTreeMap[string, any](c.degree) },
			Setup: setup, Ops: ops, Spec: spec, Max: 2, MaxDeep: 5,
			Final: []comb.Def[T]{walk("Ascend", asc, 0), walk("Descend", desc, 0), get("a"), get("b"), get("c")}}
		r = append(r, m.Scenarios(false, []int{1, 1}, []int{2, 1})...)
		if len(c.keys) == 2 {
			r = append(r, m.Scenarios(false, []int{1, 1, 1})...)
		}
		r = append(r, m.Scenarios(true, []int{2, 2}, []int{2, 1, 1})...)
	}
	return
}

// ---- C06 ----

func c06(thorough bool) (r []run.Scenario) {
	type T = *hm.Consistenthash
	const replicas = 3
	queries := []int64{0, 7, 1 << 40}
	members := []int64{1, 2, 3}
	// the answer for a set of members: that of a ring to which they were added in one go
	table := map[string]string{}
	key := func(set map[int64]bool) (s string) {
		for _, k := range members {
			if set[k] {
				s += fmt.Sprint(k)
			}
		}
		return
	}
	answers := func(c T, name string, q int64) string {
		switch name {
		case "Get":
			return fmt.Sprint(pv(c.Get(q)))
		case "GetStr":
			return fmt.Sprint(pv(c.GetStr(fmt.Sprint("k", q))))
		case "Next":
			ns, ok := c.GetNextNodeStr(fmt.Sprint("k", q), 2)
			return fmt.Sprint(len(ns) == 0 && !ok || ok, ns)
		case "Nodes":
			ns := c.Nodes()
			sort.Slice(ns, func(a, b int) bool { return ns[a] < ns[b] })
			return fmt.Sprint(ns)
		}
		panic(name)
	}
	reads := []string{"Get", "GetStr", "Next", "Nodes"}
	for mask := 1; mask < 8; mask++ {
		set := map[int64]bool{}
		c := hm.NewConsistenthash(replicas)
		for i, k := range members {
			if mask>>i&1 == 1 {
				set[k] = true
				c.Add(k)
			}
		}
		for _, n := range reads {
			for _, q := range queries {
				table[key(set)+n+fmt.Sprint(q)] = answers(c, n, q)
			}
		}
	}
	for _, q := range queries {
		table["Get"+fmt.Sprint(q)] = "0,false"
		table["GetStr"+fmt.Sprint(q)] = "0,false"
		table["Next"+fmt.Sprint(q)] = "true []"
		table["Nodes"+fmt.Sprint(q)] = "[]"
	}
	spec := comb.Det("", func(s, name string, in any) (any, string) {
		set := map[int64]bool{}
		for _, ch := range s {
			set[int64(ch-'0')] = true
		}
		switch name {
		case "Add":
			for _, k := range in.([]int64) {
				set[k] = true
			}
			return nil, key(set)
		case "Del":
			delete(set, in.(int64))
			return nil, key(set)
		}
		return table[s+name+fmt.Sprint(in)], s
	})
	add := func(ks ...int64) comb.Def[T] {
		return comb.Def[T]{Name: "Add", In: ks, Do: func(o T) any { o.Add(ks...); return nil }}
	}
	del := func(k int64) comb.Def[T] {
		return comb.Def[T]{Name: "Del", In: k, Do: func(o T) any { o.Del(k); return nil }}
	}
	read := func(name string, q int64) comb.Def[T] {
		return comb.Def[T]{Name: name, In: q, Do: func(o T) any { return answers(o, name, q) }}
	}
	ops := []comb.Def[T]{add(1), add(2, 3), del(1), del(2), read("Get", 7), read("GetStr", 0), read("Next", 7), read("Nodes", 0)}
	for i, setup := range [][]comb.Def[T]{nil, {add(1)}, {add(3), add(2)}, {add(1, 2), del(1)}} {
		m := comb.Model[T]{Name: fmt.Sprintf("Consistenthash/init%d", i), New: func() T { return hm.NewConsistenthash(replicas) },
			Setup: setup, Ops: ops, Spec: spec, Max: 2, MaxDeep: 5,
			Final: []comb.Def[T]{read("Get", 0), read("Get", 7), read("Get", 1<<40), read("GetStr", 7), read("Next", 0), read("Nodes", 0)}}
		r = append(r, m.Scenarios(false, []int{1, 1})...)
		if i == 1 || i == 2 {
			r = append(r, m.Scenarios(false, []int{2, 1})...)
		}
		r = append(r, m.Scenarios(true, []int{2, 1}[:1], []int{1, 1, 1}, []int{2, 2})...)
	}
	return
}
