// Controlled exploration of package cache (C07, C08).
package main

import (
	"fmt"
	"strings"

	"github.com/donnie4w/gofer/cache"
	"verif.local/v/comb"
	"verif.local/v/mc"
	"verif.local/v/run"
)

func main() {
	run.Main(map[string]run.Maker{"C07": c07, "C08": c08})
}

// ---- C07 ----

type T = *cache.LruCache[any]

func lruSpec(n int) mc.Spec {
	return comb.Det("", func(s, name string, in any) (any, string) {
		m := comb.Parse(s)
		switch name {
		case "Add":
			k, v, _ := strings.Cut(in.(string), "=")
			if i := comb.Find(m, k); i >= 0 {
				m = comb.Without(m, i)
			} else if n > 0 && len(m) >= n {
				m = m[:len(m)-1]
			}
			return nil, comb.Format(comb.Front(m, comb.KV{K: k, V: v}))
		case "Get":
			if i := comb.Find(m, in.(string)); i >= 0 {
				e := m[i]
				return e.V + ",true", comb.Format(comb.Front(comb.Without(m, i), e))
			}
			return "<nil>,false", s
		default:
			for _, k := range strings.Fields(in.(string)) {
				if i := comb.Find(m, k); i >= 0 {
					m = comb.Without(m, i)
				}
			}
			return nil, comb.Format(m)
		}
	})
}

func add(k string, v any) comb.Def[T] {
	return comb.Def[T]{Name: "Add", In: fmt.Sprintf("%s=%v", k, v), Do: func(o T) any { o.Add(k, v); return nil }}
}
func get(k string) comb.Def[T] {
	return comb.Def[T]{Name: "Get", In: k, Do: func(o T) any { v, ok := o.Get(k); return fmt.Sprintf("%v,%v", v, ok) }}
}

func c07(thorough bool) (r []run.Scenario) {
	ops := []comb.Def[T]{add("a", 5), add("b", nil), add("c", 7), add("d", 8), get("a"), get("b"), get("c"),
		{Name: "Remove", In: "a", Do: func(o T) any { o.Remove("a"); return nil }},
		{Name: "RemoveMulti", In: "a b z", Do: func(o T) any { o.RemoveMulti([]string{"a", "b", "z"}); return nil }},
	}
	for _, c := range []struct{ size, fill int }{{1, 0}, {1, 1}, {2, 1}, {2, 2}, {3, 3}, {0, 2}} {
		var setup []comb.Def[T]
		for i, k := range []string{"a", "b", "c"}[:c.fill] {
			setup = append(setup, add(k, i))
		}
		m := comb.Model[T]{Name: fmt.Sprintf("LruCache%d/fill%d", c.size, c.fill), New: func() T { return cache.NewLruCache[any](c.size) },
			Setup: setup, Ops: ops, Spec: lruSpec(c.size), Max: 4, MaxDeep: 7,
			Final: []comb.Def[T]{get("a"), get("b"), add("e", 9), get("c"), get("d"), get("a"), get("b"), get("e")}}
		r = append(r, m.Scenarios(false, []int{1, 1}, []int{1, 1, 1}, []int{2, 1})...)
		r = append(r, m.Scenarios(true, []int{2, 2}, []int{2, 1, 1}, []int{3, 1})...)
	}
	return
}

// ---- C08 ----

type B = *cache.BloomFilter

// windowed checks the Contains results of a history: an item whose Add returned is reported while fewer than n other
// Adds may have taken effect since.
func windowed(n int) func(e *mc.Exec, o B) {
	return func(e *mc.Exec, _ B) {
		h := e.History()
		for _, c := range h {
			if c.Name != "Contains" || c.Ret == 0 || c.Out == true {
				continue
			}
			for _, a := range h {
				if a.Name != "Add" || a.In != c.In || a.Ret == 0 || a.Ret > c.Call {
					continue
				}
				others := 0
				for _, b := range h {
					if b != a && b.Name == "Add" && (b.Ret == 0 || b.Ret > a.Call) && b.Call < c.Ret {
						others++
					}
				}
				if others < n {
					e.Fail("Contains(%v) is false after Add(%v) with at most %d of %d further items added\n%s", c.In, c.In, others, n, hist(h))
				}
			}
		}
	}
}

func hist(h []*mc.Op) string {
	var b strings.Builder
	for _, o := range h {
		fmt.Fprintln(&b, o)
	}
	return b.String()
}

func bAdd(x string) comb.Def[B] {
	return comb.Def[B]{Name: "Add", In: x, Do: func(o B) any { o.Add([]byte(x)); return nil }}
}
func bHas(x string) comb.Def[B] {
	return comb.Def[B]{Name: "Contains", In: x, Do: func(o B) any { return o.Contains([]byte(x)) }}
}

func c08(thorough bool) (r []run.Scenario) {
	ops := []comb.Def[B]{bAdd("a"), bAdd("b"), bHas("a"), bHas("p")}
	for _, c := range []struct {
		n    uint64
		rate float64
	}{{1, 0.1}, {2, 0.3}, {2, 0.05}, {3, 0.3}} {
		// around every change of the segment in use
		for fill := 0; fill <= int(3*c.n+1); fill++ {
			var setup []comb.Def[B]
			for i := 0; i < fill; i++ {
				x := fmt.Sprint("f", i)
				if i == fill-1 {
					x = "p"
				}
				setup = append(setup, bAdd(x))
			}
			final := []comb.Def[B]{bHas("a"), bHas("b"), bHas("p")}
			m := comb.Model[B]{Name: fmt.Sprintf("Bloom%d-%v/fill%d", c.n, c.rate, fill), New: func() B { return cache.NewBloomFilter(c.n, c.rate) },
				Setup: setup, Ops: ops, After: windowed(int(c.n)), Final: final, Max: 3, MaxDeep: 5}
			r = append(r, m.Scenarios(false, []int{1, 1}, []int{2, 1}, []int{1, 1, 1})...)
			r = append(r, m.Scenarios(true, []int{2, 2}, []int{3, 1}, []int{2, 1, 1})...)
		}
	}
	// false positives, counted over all two-byte queries with the deterministic hash of the shim
	for _, n := range []int{1, 3, 10, 64, 100, 500, 2000} {
		for _, rate := range []float64{0.3, 0.1, 0.01, 0.001} {
			r = append(r, run.Scenario{Name: fmt.Sprintf("Bloom/false-positives/%d-%v", n, rate), Nat: func(t *run.T) {
				f := cache.NewBloomFilter(uint64(n), rate)
				for i := 0; i < 7*n+3; i++ {
					f.Add([]byte(fmt.Sprint("item ", i)))
					if i != 0 && i != n-1 && i != 2*n-2 && i != 5*n/2 && i != 4*n && i != 5*n-1 && i != 7*n+2 {
						continue
					}
					fp := 0
					for q := 0; q < 1<<16; q++ {
						if f.Contains([]byte{byte(q), byte(q >> 8)}) {
							fp++
						}
					}
					if float64(fp) > 65536*4*rate+20 {
						t.Fail("expected %d items, rate %v: after %d items %d of 65536 items never added are reported", n, rate, i+1, fp)
					}
					t.Case(1 << 16)
				}
			}})
		}
	}
	return
}
