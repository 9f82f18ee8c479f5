// Native enumeration of package cache (C07, C08).
package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"strings"

	"github.com/donnie4w/gofer/cache"
	"verif.local/v/comb"
	"verif.local/v/lib/reclaim"
	"verif.local/v/lib/vals"
	"verif.local/v/run"
)

func main() {
	run.Main(map[string]run.Maker{"C07": c07, "C08": c08})
}

func depth(thorough bool, a, b int) int {
	if thorough {
		return b
	}
	return a
}

// ref is a plain LRU map, most recent first.
type ref struct {
	n int
	m []entry
}
type entry struct{ k, v any }

func (r *ref) find(k any) int {
	for i, e := range r.m {
		if e.k == k {
			return i
		}
	}
	return -1
}
func (r *ref) del(i int) { r.m = append(r.m[:i:i], r.m[i+1:]...) }
func (r *ref) add(k, v any) {
	if i := r.find(k); i >= 0 {
		r.del(i)
	} else if r.n > 0 && len(r.m) >= r.n {
		r.m = r.m[:len(r.m)-1]
	}
	r.m = append([]entry{{k, v}}, r.m...)
}
func (r *ref) get(k any) (any, bool) {
	i := r.find(k)
	if i < 0 {
		return nil, false
	}
	e := r.m[i]
	r.del(i)
	r.m = append([]entry{e}, r.m...)
	return e.v, true
}
func (r *ref) remove(k any) {
	if i := r.find(k); i >= 0 {
		r.del(i)
	}
}

func lru[V any]() vals.Store[V] {
	c := cache.NewLruCache[V](3)
	return vals.Store[V]{Put: func(k string, v V) (p V, b, r bool) { c.Add(k, v); return }, Get: func(k string) (V, bool) { return c.Get(k) }, Del: func(k string) { c.Remove(k) }}
}

func c07(thorough bool) (r []run.Scenario) {
	r = append(r, run.Scenario{Name: "nat/reclaim", Nat: func(t *run.T) {
		nan := math.NaN()
		keys := []struct {
			name string
			key  func(i int) any
		}{{"new keys", func(i int) any { return i }}, {"16 keys in turn", func(i int) any { return i % 16 }}, {"NaN", func(i int) any { return nan }},
			{"structs with NaN", func(i int) any { return [2]float64{1, nan} }},
			{"strings", func(i int) any { return fmt.Sprint(i) }}, {"nil", func(i int) any { return nil }},
			{"a key and NaN in turn", func(i int) any { return []any{"k", nan, 1}[i%3] }}}
		for _, n := range []int{0, 1, 2, 8, 1000} {
			for _, k := range keys {
				for how := 0; how < 3; how++ {
					if n == 0 && how != 1 && k.name != "16 keys in turn" && k.name != "NaN" && k.name != "nil" {
						continue // without a limit, everything is kept
					}
					c := cache.NewLruCache[*reclaim.V](n)
					limit := n
					if n == 0 {
						limit = 16
					}
					what := fmt.Sprintf("size %d, %s, %s", n, k.name, []string{"added", "added and removed", "added, every other one removed"}[how])
					reclaim.Check(t, what, 20000, limit, c, func(i int, v *reclaim.V) {
						key := k.key(i)
						c.Add(key, v)
						if got, ok := c.Get(key); ok != (key != nil && key == key) || ok && got != v {
							t.Fail("%s: Get(%v) after Add reported %v", what, key, ok)
						}
						if how == 1 || how == 2 && i%2 == 0 {
							if s, ok := key.(string); ok && i%4 == 0 {
								c.RemoveMulti([]string{s, "none"})
							} else {
								c.Remove(key)
							}
						}
					})
				}
			}
		}
	}})
	r = append(r, run.Scenario{Name: "nat/value-kinds", Nat: func(t *run.T) {
		vals.Maker{Bytes: lru[[]byte], Func: lru[func()], Map: lru[map[string]int], Ptr: lru[*int], Struct: lru[vals.Pair], Any: lru[any], Err: lru[error],
			Float: lru[float64], Str: lru[string], Array: lru[[2]any], None: lru[struct{}]}.All(t, depth(thorough, 3, 4))
	}})
	keys := []any{"a", "b", "c", 1, int64(1)}
	type op struct {
		name string
		do   func(c *cache.LruCache[any], m *ref) string
	}
	var ops []op
	for i, k := range keys {
		var v any = i
		if i == 1 {
			v = nil
		}
		ops = append(ops, op{fmt.Sprintf("Add(%T %v)", k, k), func(c *cache.LruCache[any], m *ref) string {
			c.Add(k, v)
			m.add(k, v)
			return ""
		}})
		ops = append(ops, op{fmt.Sprintf("Get(%T %v)", k, k), func(c *cache.LruCache[any], m *ref) string {
			a, ok := c.Get(k)
			b, ok2 := m.get(k)
			if a != b || ok != ok2 {
				return fmt.Sprintf("returned %v,%v, want %v,%v", a, ok, b, ok2)
			}
			return ""
		}})
	}
	ops = append(ops, op{"Add(a,9)", func(c *cache.LruCache[any], m *ref) string { c.Add("a", 9); m.add("a", 9); return "" }},
		op{"Remove(a)", func(c *cache.LruCache[any], m *ref) string { c.Remove("a"); m.remove("a"); return "" }},
		op{"Remove(int 1)", func(c *cache.LruCache[any], m *ref) string { c.Remove(1); m.remove(1); return "" }},
		op{"RemoveMulti(b,zz,a)", func(c *cache.LruCache[any], m *ref) string {
			c.RemoveMulti([]string{"b", "zz", "a"})
			m.remove("a")
			m.remove("b")
			return ""
		}})
	for size := 0; size <= 4; size++ {
		for first := range ops {
			r = append(r, run.Scenario{Name: fmt.Sprintf("nat/sequences/size%d/%s", size, strings.ReplaceAll(ops[first].name, " ", ":")), Nat: func(t *run.T) {
				comb.Sequences(t, depth(thorough, 4, 5), len(ops), func(seq []int) {
					c := cache.NewLruCache[any](size)
					m := &ref{n: size}
					var names []string
					step := func(o op) {
						names = append(names, o.name)
						if msg := o.do(c, m); msg != "" {
							t.Fail("size %d: %v: the last call %s", size, names, msg)
						}
					}
					step(ops[first])
					for _, i := range seq {
						step(ops[i])
					}
					for _, k := range keys {
						a, ok := c.Get(k)
						b, ok2 := m.get(k)
						if a != b || ok != ok2 {
							t.Fail("size %d: after %v Get(%T %v) returned %v,%v, want %v,%v", size, names, k, k, a, ok, b, ok2)
						}
					}
				})
			}})
		}
	}
	r = append(r, run.Scenario{Name: "nat/nilkey", Nat: func(t *run.T) {
		for n := 1; n <= 4; n++ {
			for at := 0; at <= n; at++ {
				c := cache.NewLruCache[any](n)
				for i := 0; i < n; i++ {
					if i == at {
						c.Add(nil, "nothing")
					}
					c.Add(i, i)
				}
				if at == n {
					c.Add(nil, "nothing")
				}
				if v, ok := c.Get(nil); ok || v != nil {
					t.Fail("size %d: Get(nil) returned %v, %v", n, v, ok)
				}
				c.Remove(nil)
				for i := 0; i < n; i++ {
					if v, ok := c.Get(i); !ok || v != i {
						t.Fail("size %d: after Add(nil) at %d Get(%d) returned %v, %v", n, at, i, v, ok)
					}
				}
				t.Case(2*n + 3)
			}
		}
	}})
	r = append(r, run.Scenario{Name: "nat/remove-lists", Nat: func(t *run.T) {
		// RemoveMulti with every list of up to 5 names, also repeated and absent ones, on caches with every set of entries
		names := []string{"a", "b", "c", "d", ""}
		for size := 0; size <= 6; size++ {
			for n := 0; n <= depth(thorough, 5, 6); n++ {
				comb.Sequences(t, n, len(names), func(seq []int) {
					for present := 0; present < 1<<len(names); present += 1 + 2*(len(seq)/5) {
						c := cache.NewLruCache[any](size)
						m := &ref{n: size}
						for i, k := range names {
							if present>>i&1 == 1 {
								c.Add(k, i)
								m.add(k, i)
							}
						}
						c.Add(7, 7)
						m.add(7, 7)
						list := make([]string, 0, len(seq)+1)
						for _, i := range seq {
							list = append(list, names[i])
						}
						given := append([]string{}, list...)
						if len(list) == 0 && present%2 == 0 {
							list = nil
						}
						c.RemoveMulti(list)
						for i, k := range given {
							if list[i] != k {
								t.Fail("RemoveMulti(%q) changed its argument to %q", given, list)
							}
							m.remove(k)
						}
						// new keys push out what is left, the least recent first
						for i := -1; i < 3; i++ {
							if i >= 0 {
								c.Add(100+i, i)
								m.add(100+i, i)
							}
							for _, k := range []any{"a", "b", "c", "d", "", 7, 100, 101} {
								a, ok := c.Get(k)
								if b, ok2 := m.get(k); a != b || ok != ok2 {
									t.Fail("size %d, entries %05b and 7, RemoveMulti(%q), %d more entries: Get(%v) returned %v, %v, want %v, %v", size, present, given, i+1, k, a, ok, b, ok2)
								}
							}
						}
					}
				})
			}
		}
	}}, run.Scenario{Name: "nat/sizes", Nat: func(t *run.T) {
		for n := 0; n <= depth(thorough, 60, 200); n++ {
			for stride := 1; stride < 8; stride++ {
				c := cache.NewLruCache[any](n)
				m := &ref{n: n}
				for i := 0; i < 3*n+10; i++ {
					k := i * stride % (2*n + 3)
					c.Add(k, i)
					m.add(k, i)
					q := i * 5 % (n + 2)
					a, ok := c.Get(q)
					b, ok2 := m.get(q)
					if a != b || ok != ok2 {
						t.Fail("size %d: Get(%d) returned %v,%v, want %v,%v", n, q, a, ok, b, ok2)
					}
				}
				have := 0
				for k := 0; k < 2*n+3; k++ {
					a, ok := c.Get(k)
					if b, ok2 := m.get(k); a != b || ok != ok2 {
						t.Fail("size %d: Get(%d) returned %v,%v, want %v,%v", n, k, a, ok, b, ok2)
					}
					if ok {
						have++
					}
				}
				if n > 0 && have > n {
					t.Fail("size %d holds %d entries", n, have)
				}
				t.Case(8*n + 20)
			}
		}
	}})
	r = append(r, run.Scenario{Name: "nat/large", Nat: func(t *run.T) {
		for _, n := range []int{0, 1000, 4095, 4096, 4097, 65535, 65536, 65537, depth(thorough, 200000, 2000000)} {
			if !t.More() {
				return
			}
			c := cache.NewLruCache[int](n)
			total := 2*n + 5000
			if n == 0 {
				total = depth(thorough, 300000, 3000000)
			}
			for i := 0; i < total; i++ {
				c.Add(i, i)
				if v, ok := c.Get(0); i < n-1 && (!ok || v != 0) {
					t.Fail("size %d: Get(0) after Add(0..%d) returned %v, %v", n, i, v, ok)
				}
			}
			// the first key was got each time, so it is there, and the latest n-1 others are
			for i := 0; i < total; i++ {
				want := n == 0 || i == 0 || i > total-n
				if v, ok := c.Get(i); ok != want || ok && v != i {
					t.Fail("size %d: after Add(0..%d), Get(0) each time, Get(%d) returned %v, %v, want %v", n, total-1, i, v, ok, want)
				}
			}
			t.Case(3 * total)
			all := make([]string, 0, total)
			d := cache.NewLruCache[int](n)
			for i := 0; i < total; i++ {
				k := fmt.Sprint(i)
				d.Add(k, i)
				if i%3 != 0 {
					all = append(all, k)
				}
			}
			d.RemoveMulti(all)
			for i := 0; i < total; i++ {
				want := (n == 0 || i >= total-n) && i%3 == 0
				if v, ok := d.Get(fmt.Sprint(i)); ok != want || ok && v != i {
					t.Fail("size %d: after Add(0..%d) and RemoveMulti of those that 3 does not divide, Get(%d) returned %v, %v, want %v", n, total-1, i, v, ok, want)
				}
			}
			t.Case(2 * total)
		}
	}})
	return
}

func item(i int) []byte {
	switch i % 5 {
	case 0:
		return []byte{byte(i), byte(i >> 8), 0}
	case 1:
		return []byte(fmt.Sprint(i))
	case 2:
		return append(make([]byte, 200), byte(i), byte(i>>8))
	case 3:
		return append([]byte(nil), make([]byte, i)...)
	}
	return []byte(strings.Repeat("\xff", 1+i/7) + fmt.Sprint(i))
}

func c08(thorough bool) (r []run.Scenario) {
	for _, rate := range []float64{0.99, 0.9, 0.5, 0.3, 0.1, 0.01, 0.001, 1e-6, 1e-12, 1e-40} {
		r = append(r, run.Scenario{Name: fmt.Sprintf("nat/windows/rate%v", rate), Nat: func(t *run.T) {
			for n := 0; n <= depth(thorough, 40, 120); n++ {
				if !t.More() {
					return
				}
				f := cache.NewBloomFilter(uint64(n), rate)
				if f.Contains(nil) || f.Contains([]byte("x")) {
					t.Fail("an empty filter (%d items, rate %v) reports an item", n, rate)
				}
				for i := 0; i < 7*n+4; i++ {
					f.Add(item(i))
					for j := max(0, i-max(n, 1)+1); j <= i; j++ {
						if !f.Contains(item(j)) {
							t.Fail("filter for %d items, rate %v: item %d is not reported after %d further items", n, rate, j, i-j)
						}
					}
				}
				t.Case((7*n + 4) * max(n, 1))
			}
		}})
	}
	r = append(r, run.Scenario{Name: "nat/bytes", Nat: func(t *run.T) {
		// every one- and two-byte item
		f := cache.NewBloomFilter(1<<17, 0.01)
		f.Add(nil)
		for i := 0; i < 256; i++ {
			f.Add([]byte{byte(i)})
		}
		for i := 0; i < 1<<16; i++ {
			f.Add([]byte{byte(i >> 8), byte(i)})
		}
		for i := 0; i < 1<<16; i++ {
			if !f.Contains([]byte{byte(i >> 8), byte(i)}) || !f.Contains([]byte{byte(i)}) {
				t.Fail("item % x is not reported", []byte{byte(i >> 8), byte(i)})
			}
		}
		if !f.Contains([]byte{}) {
			t.Fail("the empty item is not reported")
		}
		t.Case(1 << 18)
	}})
	// items that have much in common: those added are reported, of the others only few
	r = append(r, run.Scenario{Name: "nat/twins", Nat: func(t *run.T) {
		family := func(what string, in, out [][]byte) {
			if !t.More() {
				return
			}
			f := cache.NewBloomFilter(uint64(len(in)+1), 0.001)
			for _, x := range in {
				f.Add(x)
			}
			fp := 0
			for _, x := range in {
				if !f.Contains(x) {
					t.Fail("%s: an item added (%d bytes) is not reported", what, len(x))
				}
			}
			for _, x := range out {
				if f.Contains(x) {
					fp++
				}
			}
			if fp > 20+len(out)/100 {
				t.Fail("%s: rate 0.001, %d of %d items never added are reported", what, fp, len(out))
			}
			t.Case(len(in) + len(out))
		}
		lengths := []int{1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 8193, 16384, 32768, 65535, 65536, 65537, 100000}
		if thorough {
			lengths = append(lengths, 1<<20, 1<<20+1, 1<<24+1)
		}
		for _, n := range lengths {
			for _, at := range []int{0, 1, 3, 4, 7, 8, 15, 16, 31, 32, 48, 63, 64, n / 4, n / 2, n - 65, n - 64, n - 33, n - 17, n - 16, n - 9, n - 8, n - 5, n - 4, n - 2, n - 1} {
				if at < 0 || at >= n || n > 1<<17 && at != n-1 && at != n/2 {
					continue
				}
				var in, out [][]byte
				for v := 0; v < 256; v++ {
					if n > 8192 && v%4 > 1 {
						continue
					}
					b := []byte(strings.Repeat("x", n))
					b[at] = byte(v)
					if v%2 == 0 {
						in = append(in, b)
					} else {
						out = append(out, b)
					}
				}
				family(fmt.Sprintf("items of %d bytes that differ in byte %d", n, at), in, out)
			}
		}
		for _, c := range []string{"\x00", "x", "\xff"} {
			var in, out [][]byte
			for n := 0; n < 3000; n++ {
				b := []byte(strings.Repeat(c, n))
				if n%2 == 0 {
					in = append(in, b)
				} else {
					out = append(out, b)
				}
			}
			family("runs of "+fmt.Sprintf("%q", c), in, out)
		}
		// the same bytes in another order, and the bytes of numbers
		var in, out [][]byte
		for i := 0; i < 64; i++ {
			for j := 0; j < 64; j++ {
				if i < j {
					in = append(in, []byte{byte(i), byte(j)})
				} else if i > j {
					out = append(out, []byte{byte(i), byte(j)})
				}
			}
		}
		family("pairs and their reverse", in, out)
		for shift := 0; shift < 32; shift += 4 {
			in, out = nil, nil
			for i := uint32(0); i < 20000; i++ {
				b := binary.BigEndian.AppendUint32(nil, i<<shift|i>>(32-shift))
				if i%2 == 0 {
					in = append(in, b)
				} else {
					out = append(out, b)
				}
			}
			family(fmt.Sprintf("numbers times 2^%d", shift), in, out)
		}
	}})
	// filters of many items
	r = append(r, run.Scenario{Name: "nat/large", Nat: func(t *run.T) {
		for _, n := range []int{1000, 4097, 70000, depth(thorough, 300000, 3000000)} {
			if !t.More() {
				return
			}
			for _, rate := range []float64{0.3, 0.01, 0.0001} {
				f := cache.NewBloomFilter(uint64(n), rate)
				for i := 0; i < 2*n+n/2; i++ {
					f.Add([]byte(fmt.Sprint("item", i)))
					if i%(n/3) != 0 && i != 2*n+n/2-1 {
						continue
					}
					fp := 0
					for j := max(0, i-n+1); j <= i; j += 1 + (i-j)/5000 {
						if !f.Contains([]byte(fmt.Sprint("item", j))) {
							t.Fail("filter for %d items, rate %v: item %d is not reported after %d further items", n, rate, j, i-j)
						}
					}
					for j := 0; j < 10000; j++ {
						if f.Contains([]byte(fmt.Sprint("other", j))) {
							fp++
						}
					}
					if float64(fp) > 4*rate*10000+20 {
						t.Fail("filter for %d items, rate %v: after %d items %d of 10000 items never added are reported", n, rate, i+1, fp)
					}
					t.Case(20000)
				}
			}
		}
	}})
	return
}
