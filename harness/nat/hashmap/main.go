// Native enumerations for package hashmap (C01 to C06).
package main

import (
	"cmp"
	"errors"
	"fmt"
	"hash/crc64"
	"math"
	"slices"
	"sort"

	hm "github.com/donnie4w/gofer/hashmap"
	"verif.local/v/comb"
	"verif.local/v/run"
)

func main() {
	run.Main(map[string]run.Maker{"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06})
}

func depth(thorough bool, q, d int) int {
	if thorough {
		return d
	}
	return q
}

// ---- C01 ----

type mapper[K comparable, V any] interface {
	Put(K, V) (V, bool)
	Get(K) (V, bool)
	Has(K) bool
	Del(K) bool
	Range(func(K, V) bool)
}

// checkMap runs every sequence of put, del over the keys and values and compares everything observable.
func checkMap[K comparable, V any](t *run.T, mk func() mapper[K, V], keys []K, vals []V, eq func(a, b V) bool, n int) {
	type st struct {
		m map[K]V
	}
	nops := len(keys)*len(vals) + len(keys)
	comb.Sequences(t, n, nops, func(seq []int) {
		o := mk()
		ref := map[K]V{}
		for step, op := range seq {
			if op < len(keys)*len(vals) {
				k, v := keys[op%len(keys)], vals[op/len(keys)]
				old, had := ref[k]
				p, b := o.Put(k, v)
				if b != had || !eq(p, old) {
					t.Fail("step %d of %v: Put(%v,%v) returned (%v,%v), want (%v,%v)", step, seq, k, v, p, b, old, had)
				}
				ref[k] = v
			} else {
				k := keys[op-len(keys)*len(vals)]
				_, had := ref[k]
				if b := o.Del(k); b != had {
					t.Fail("step %d of %v: Del(%v) returned %v, want %v", step, seq, k, b, had)
				}
				delete(ref, k)
			}
			for _, k := range keys {
				v, had := ref[k]
				g, b := o.Get(k)
				if b != had || !eq(g, v) || o.Has(k) != had {
					t.Fail("step %d of %v: Get(%v) returned (%v,%v), want (%v,%v); Has %v", step, seq, k, g, b, v, had, o.Has(k))
				}
			}
			if l, ok := o.(interface{ Len() int64 }); ok && l.Len() != int64(len(ref)) {
				t.Fail("step %d of %v: Len %d with %d keys", step, seq, l.Len(), len(ref))
			}
			seen := map[K]int{}
			o.Range(func(k K, v V) bool {
				seen[k]++
				if w, ok := ref[k]; !ok || !eq(v, w) {
					t.Fail("step %d of %v: Range gave %v=%v, want %v,%v", step, seq, k, v, w, ok)
				}
				return true
			})
			for k := range ref {
				if seen[k] != 1 {
					t.Fail("step %d of %v: Range visited %v %d times", step, seq, k, seen[k])
				}
			}
			for stop := 1; stop <= len(ref); stop++ {
				n := 0
				o.Range(func(K, V) bool { n++; return n < stop })
				if n != stop {
					t.Fail("step %d of %v: Range called back %d times, stopped at %d", step, seq, n, stop)
				}
			}
		}
	})
}

type point struct{ X, Y int }

func c01(thorough bool) (r []run.Scenario) {
	r = append(r, reclaimC01()...)
	r = append(r, valueKinds(thorough, "Map", kMap()), valueKinds(thorough, "MapL", kMapL()))
	add := func(name string, f func(t *run.T)) { r = append(r, run.Scenario{Name: "nat/" + name, Nat: f}) }
	n := depth(thorough, 4, 5)
	var np *int
	one := 1
	e1 := errors.New("e")
	for _, which := range []string{"MapL", "Map"} {
		l := which == "MapL"
		add(which+"/string-any", func(t *run.T) {
			checkMap(t, func() mapper[string, any] {
				if l {
					return hm.NewMapL[string, any]()
				}
				return hm.NewMap[string, any]()
			}, []string{"", "a", "b"}, []any{nil, 1, ""}, func(a, b any) bool { return a == b }, n)
		})
		add(which+"/int-pointer", func(t *run.T) {
			checkMap(t, func() mapper[int, *int] {
				if l {
					return hm.NewMapL[int, *int]()
				}
				return hm.NewMap[int, *int]()
			}, []int{-1, 0, 1}, []*int{np, &one}, func(a, b *int) bool { return a == b }, n)
		})
		add(which+"/struct-error", func(t *run.T) {
			checkMap(t, func() mapper[point, error] {
				if l {
					return hm.NewMapL[point, error]()
				}
				return hm.NewMap[point, error]()
			}, []point{{}, {1, 0}, {0, 1}}, []error{nil, e1}, func(a, b error) bool { return a == b }, n)
		})
		add(which+"/any-slice", func(t *run.T) {
			checkMap(t, func() mapper[any, []byte] {
				if l {
					return hm.NewMapL[any, []byte]()
				}
				return hm.NewMap[any, []byte]()
			}, []any{0, int64(0), "0"}, [][]byte{nil, {1}}, func(a, b []byte) bool { return string(a) == string(b) && (a == nil) == (b == nil) }, n)
		})
		add(which+"/many", func(t *run.T) {
			for _, size := range []int{1, 10, 100, 1000, 5000, 70000, depth(thorough, 300000, 3000000)} {
				var o mapper[int, int]
				if l {
					o = hm.NewMapL[int, int]()
				} else {
					o = hm.NewMap[int, int]()
				}
				for i := 0; i < size; i++ {
					o.Put(i, i*3)
				}
				for i := 0; i < size; i += 3 {
					if !o.Del(i) || o.Del(i) {
						t.Fail("Del(%d) of %d keys", i, size)
					}
				}
				for i := 0; i < size+3; i++ {
					want := i < size && i%3 != 0
					if v, b := o.Get(i); b != want || o.Has(i) != want || b && v != i*3 {
						t.Fail("with %d keys Get(%d) returned %v, %v, want %v", size, i, v, b, want)
					}
				}
				cnt := map[int]int{}
				o.Range(func(k, v int) bool {
					if v != k*3 || k%3 == 0 {
						t.Fail("Range gave %d=%d", k, v)
					}
					cnt[k]++
					return true
				})
				want := size - (size+2)/3
				if len(cnt) != want {
					t.Fail("Range visited %d of %d keys", len(cnt), want)
				}
				if x, ok := o.(interface{ Len() int64 }); ok && x.Len() != int64(want) {
					t.Fail("Len %d with %d keys", x.Len(), want)
				}
				t.Case(size * 2)
			}
		})
	}
	return
}

// ---- C02 ----

func c02(thorough bool) (r []run.Scenario) {
	r = append(r, reclaimC02())
	r = append(r, valueKinds(thorough, "LimitMap", kLimit()))
	for c := 1; c <= 4; c++ {
		r = append(r, run.Scenario{Name: fmt.Sprintf("nat/sequences/cap%d", c), Nat: func(t *run.T) {
			const keys = 5
			nops := keys + keys + keys + 1
			comb.Sequences(t, depth(thorough, 5, 6), nops, func(seq []int) {
				m := hm.NewLimitMap[int, int](c)
				var ref [][2]int // front first
				find := func(k int) int { return slices.IndexFunc(ref, func(e [2]int) bool { return e[0] == k }) }
				for step, op := range seq {
					switch {
					case op < keys:
						p, b := m.Put(op, step+1)
						i := find(op)
						if b != (i >= 0) || i >= 0 && p != ref[i][1] || i < 0 && p != 0 {
							t.Fail("cap %d, %v step %d: Put(%d) returned %d,%v; entries %v", c, seq, step, op, p, b, ref)
						}
						if i >= 0 {
							ref = slices.Delete(ref, i, i+1)
						} else if len(ref) == c {
							ref = ref[:c-1]
						}
						ref = slices.Insert(ref, 0, [2]int{op, step + 1})
					case op < 2*keys:
						m.Get(op - keys)
					case op < 3*keys:
						m.Del(op - 2*keys)
						if i := find(op - 2*keys); i >= 0 {
							ref = slices.Delete(ref, i, i+1)
						}
					default:
						m.RemoveMulti([]int{0, 2, 9})
						ref = slices.DeleteFunc(ref, func(e [2]int) bool { return e[0] == 0 || e[0] == 2 })
					}
					if m.Len() != len(ref) {
						t.Fail("cap %d, %v step %d: Len %d, want %v", c, seq, step, m.Len(), ref)
					}
				}
				for k := 0; k < keys; k++ {
					v, b := m.Get(k)
					i := find(k)
					if b != (i >= 0) || b && v != ref[i][1] {
						t.Fail("cap %d, %v: Get(%d) returned %d,%v; want entries %v", c, seq, k, v, b, ref)
					}
				}
			})
		}})
	}
	r = append(r, run.Scenario{Name: "nat/capacities", Nat: func(t *run.T) {
		// for every capacity: fill, touch one position by Put, delete another, then push new keys one by one
		for c := 1; c <= depth(thorough, 24, 60); c++ {
			for touch := -1; touch < c; touch++ {
				for del := -1; del < c; del++ {
					m := hm.NewLimitMap[string, any](c)
					var ref []int
					put := func(k int) {
						if i := slices.Index(ref, k); i >= 0 {
							ref = slices.Delete(ref, i, i+1)
						} else if len(ref) == c {
							ref = ref[1:]
						}
						ref = append(ref, k)
						m.Put(fmt.Sprint(k), k)
					}
					for i := 0; i < c; i++ {
						put(i)
					}
					if touch >= 0 {
						put(touch)
					}
					if del >= 0 {
						m.Del(fmt.Sprint(del))
						if i := slices.Index(ref, del); i >= 0 {
							ref = slices.Delete(ref, i, i+1)
						}
					}
					for i := c; i < c+4; i++ {
						put(i)
						if m.Len() != len(ref) {
							t.Fail("capacity %d touch %d del %d: Len %d, want %d", c, touch, del, m.Len(), len(ref))
						}
						for k := 0; k <= i; k++ {
							_, b := m.Get(fmt.Sprint(k))
							if b != slices.Contains(ref, k) {
								t.Fail("capacity %d touch %d del %d: key %d present %v, want present %v", c, touch, del, k, b, ref)
							}
						}
					}
					t.Case(c + 6)
				}
			}
			if !t.More() {
				return
			}
		}
	}})
	r = append(r, run.Scenario{Name: "nat/remove-lists", Nat: func(t *run.T) {
		// RemoveMulti with every list of up to 5 keys, also repeated and absent ones, on maps with every set of entries
		const keys = 5
		for c := 1; c <= keys+1; c++ {
			for n := 0; n <= depth(thorough, 5, 6); n++ {
				comb.Sequences(t, n, keys, func(seq []int) {
					for present := 0; present < 1<<keys; present += 1 + 2*(len(seq)/5) {
						m := hm.NewLimitMap[int, int](c)
						var ref []int // oldest first
						put := func(k int) {
							m.Put(k, k+1)
							if ref = append(ref, k); len(ref) > c {
								ref = ref[1:]
							}
						}
						for k := 0; k < keys; k++ {
							if present>>k&1 == 1 {
								put(k)
							}
						}
						list := append([]int(nil), seq...)
						m.RemoveMulti(list)
						if !slices.Equal(list, seq) {
							t.Fail("RemoveMulti(%v) changed its argument to %v", seq, list)
						}
						ref = slices.DeleteFunc(ref, func(k int) bool { return slices.Contains(seq, k) })
						for i := keys; i < keys+4; i++ {
							if m.Len() != len(ref) {
								t.Fail("capacity %d, keys %05b, RemoveMulti(%v), %d new keys: Len is %d, want %d", c, present, seq, i-keys, m.Len(), len(ref))
							}
							for k := 0; k < i; k++ {
								if v, ok := m.Get(k); ok != slices.Contains(ref, k) || ok && v != k+1 {
									t.Fail("capacity %d, keys %05b, RemoveMulti(%v), %d new keys: Get(%d) returned %d, %v, entries %v", c, present, seq, i-keys, k, v, ok, ref)
								}
							}
							put(i)
						}
					}
				})
			}
		}
	}})
	r = append(r, run.Scenario{Name: "nat/large", Nat: func(t *run.T) {
		for _, c := range []int{1000, 4096, 65535, 65536, 65537, depth(thorough, 200000, 2000000)} {
			m := hm.NewLimitMap[int, int](c)
			// the first quarter is put again each time a quarter is full
			var ref []int
			for i := 0; i < 2*c+100 && t.More(); i++ {
				if p, b := m.Put(i, i); b || p != 0 || m.Len() != min(i+1, c) {
					t.Fail("capacity %d: Put(%d) returned %v, %v, Len %d", c, i, p, b, m.Len())
				}
				ref = append(ref, i)
				if i == c-1 {
					ref = ref[c/4:]
					for j := 0; j < c/4; j++ {
						if p, b := m.Put(j, j+1); !b || p != j {
							t.Fail("capacity %d: Put(%d) again returned %v, %v", c, j, p, b)
						}
						ref = append(ref, j)
					}
				}
			}
			if !t.More() {
				return
			}
			ref = ref[len(ref)-c:]
			in := map[int]bool{}
			for _, k := range ref {
				in[k] = true
			}
			check := func(what string) {
				for i := 0; i < 2*c+100; i++ {
					if _, b := m.Get(i); b != in[i] {
						t.Fail("capacity %d: %s key %d is present %v, want %v", c, what, i, b, in[i])
					}
				}
				if m.Len() != len(in) {
					t.Fail("capacity %d: %s Len is %d, want %d", c, what, m.Len(), len(in))
				}
				t.Case(2*c + 100)
			}
			check("filled")
			m.RemoveMulti(ref[:c/2])
			for _, k := range ref[:c/2] {
				delete(in, k)
			}
			check("half removed")
		}
	}})
	return
}

// ---- C03 ----

type lhm[K int | int64 | int8 | int16 | int32 | uint | uint64 | uint8 | uint16 | uint32 | float64 | float32 | uintptr | string] struct {
	*hm.LimitHashMap[K, any]
}

func distinct[K int | int64 | int8 | int16 | int32 | uint | uint64 | uint8 | uint16 | uint32 | float64 | float32 | uintptr | string](name string, keys []K) run.Scenario {
	return run.Scenario{Name: "nat/distinct-keys/" + name, Nat: func(t *run.T) {
		for _, seg := range []int{1, 2, 7, 64} {
			// every pair of keys alone in the map
			for i, a := range keys {
				for j, b := range keys {
					if i == j {
						continue
					}
					m := hm.NewLimitHashMapWithSegment[K, any](seg*4, seg)
					m.Put(a, "A")
					if v, ok := m.Get(b); ok || m.Contains(b) {
						t.Fail("%d segments: after Put(%v) Get(%v) returned %v", seg, a, b, v)
					}
					if v, ok := m.Put(b, nil); ok {
						t.Fail("%d segments: Put(%v) replaced the value %v of key %v", seg, b, v, a)
					}
					if v, ok := m.Get(a); !ok || v != "A" {
						t.Fail("%d segments: Get(%v) returned %v,%v after Put(%v)", seg, a, v, ok, b)
					}
					if v, ok := m.Get(b); !ok || v != nil || !m.Contains(b) {
						t.Fail("%d segments: Get(%v) of a nil value returned %v,%v", seg, b, v, ok)
					}
					if m.Len() != 2 {
						t.Fail("%d segments: Len %d with keys %v and %v", seg, m.Len(), a, b)
					}
					if v, ok := m.Put(b, "B"); !ok || v != nil {
						t.Fail("%d segments: Put over a nil value returned %v,%v", seg, v, ok)
					}
					m.Del(a)
					if v, ok := m.Get(b); !ok || v != "B" || m.Contains(a) || m.Len() != 1 {
						t.Fail("%d segments: after Del(%v): Get(%v)=%v,%v", seg, a, b, v, ok)
					}
					m.Clear()
					if m.Len() != 0 || m.Contains(b) {
						t.Fail("Clear left %d entries", m.Len())
					}
					t.Case(10)
				}
			}
		}
	}}
}

// zeroes puts, gets and deletes 0 as 0 and as -0.
func zeroes[K float32 | float64](t *run.T, name string, negative K) {
	for _, seg := range []int{1, 2, 7, 64} {
		for _, k := range [][2]K{{0, negative}, {negative, 0}} {
			m := hm.NewLimitHashMapWithSegment[K, int](2*seg, seg)
			m.Put(k[0], 1)
			if v, ok := m.Get(k[1]); !ok || v != 1 || !m.Contains(k[1]) {
				t.Fail("%s, %d segments: after Put(%v, 1) Get(%v) returned %v, %v", name, seg, k[0], k[1], v, ok)
			}
			if p, ok := m.Put(k[1], 2); !ok || p != 1 || m.Len() != 1 {
				t.Fail("%s, %d segments: Put(%v) after Put(%v, 1) returned %v, %v; Len %d", name, seg, k[1], k[0], p, ok, m.Len())
			}
			m.Del(k[0])
			if m.Len() != 0 || m.Contains(k[1]) {
				t.Fail("%s, %d segments: Del(%v) did not remove %v", name, seg, k[0], k[1])
			}
			t.Case(5)
		}
	}
}

func c03(thorough bool) (r []run.Scenario) {
	r = append(r, reclaimC03()...)
	r = append(r, valueKinds(thorough, "LimitHashMap", kSegments()))
	r = append(r,
		distinct("string", []string{"", "a", "b", "A", "\x00", "a\x00", "-1", "8yn0iYCKYHlIj4-BwPqk", "GReLUrM4wMqfg9yzV3KQ", "gMPflVXtwGDXbIhP73TX", "LtHf1prlU1bCeYZEdqWf"}),
		distinct("int", []int{0, 1, -1, 2, math.MaxInt64, math.MinInt64, 1 << 32, -(1 << 32), 255, 256, -256}),
		distinct("int64", []int64{0, 1, -1, math.MaxInt64, math.MinInt64, 1 << 32, 1<<32 + 1, math.MaxUint32}),
		distinct("int32", []int32{0, 1, -1, math.MaxInt32, math.MinInt32, 1 << 16, 255}),
		distinct("int16", []int16{0, 1, -1, math.MaxInt16, math.MinInt16, 256}),
		distinct("int8", []int8{0, 1, -1, 127, -128}),
		distinct("uint", []uint{0, 1, math.MaxUint64, 1 << 63, 1 << 32}),
		distinct("uint64", []uint64{0, 1, math.MaxUint64, 1 << 63, 1 << 32, math.MaxUint32}),
		distinct("uint32", []uint32{0, 1, math.MaxUint32, 1 << 31, 1 << 16}),
		distinct("uint16", []uint16{0, 1, math.MaxUint16, 1 << 15}),
		distinct("uint8", []uint8{0, 1, 255, 128, 64}),
		distinct("uintptr", []uintptr{0, 1, math.MaxUint64, 1 << 63}),
		distinct("float64", []float64{0, 1, -1, 0.5, 1.5, -1.5, 1.25, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), 1e300, 1 + 1e-15}),
		distinct("float32", []float32{0, 1, -1, 0.5, 1.5, 1.25, math.MaxFloat32, math.SmallestNonzeroFloat32, float32(math.Inf(1)), 1.0000001}),
	)
	// equal keys are one key
	r = append(r, run.Scenario{Name: "nat/zeroes", Nat: func(t *run.T) {
		zeroes(t, "float64", math.Copysign(0, -1))
		zeroes(t, "float32", float32(math.Copysign(0, -1)))
	}})
	for c := 1; c <= 3; c++ {
		for _, seg := range []int{1, 2, 3, 64} {
			r = append(r, run.Scenario{Name: fmt.Sprintf("nat/sequences/%dx%d", c, seg), Nat: func(t *run.T) {
				const keys = 4
				ks := []string{"a", "b", "", "zz"}
				comb.Sequences(t, depth(thorough, 5, 6), keys*2+1, func(seq []int) {
					m := hm.NewLimitHashMapWithSegment[string, any](c, seg)
					ref := map[int]any{}
					var order []int // first inserted first
					drop := func(k int) {
						delete(ref, k)
						if i := slices.Index(order, k); i >= 0 {
							order = slices.Delete(order, i, i+1)
						}
					}
					for step, op := range seq {
						switch {
						case op < keys:
							var v any = step
							if step%2 == 1 {
								v = nil
							}
							old, had := ref[op]
							p, b := m.Put(ks[op], v)
							if b != had || p != old {
								t.Fail("%dx%d %v step %d: Put returned %v,%v, want %v,%v", c, seg, seq, step, p, b, old, had)
							}
							if !had {
								order = append(order, op)
							}
							ref[op] = v
							if !had {
								// entries that had to go
								var gone []int
								for k := range ref {
									if k != op && !m.Contains(ks[k]) {
										gone = append(gone, k)
									}
								}
								if seg == 1 && (len(order) > c) != (len(gone) == 1 && gone[0] == order[0]) || len(gone) > 1 {
									t.Fail("%dx%d %v step %d: entries evicted %v, inserted in order %v", c, seg, seq, step, gone, order)
								}
								for _, k := range gone {
									drop(k)
								}
							}
						case op < 2*keys:
							m.Del(ks[op-keys])
							drop(op - keys)
						default:
							m.Clear()
							ref, order = map[int]any{}, nil
						}
						if m.Len() != len(ref) || len(ref) > c {
							t.Fail("%dx%d %v step %d: Len %d, entries %v", c, seg, seq, step, m.Len(), ref)
						}
						for k := range ks {
							v, b := m.Get(ks[k])
							w, had := ref[k]
							if b != had || v != w || m.Contains(ks[k]) != had {
								t.Fail("%dx%d %v step %d: Get(%q) returned %v,%v, want %v,%v", c, seg, seq, step, ks[k], v, b, w, had)
							}
						}
					}
				})
			}})
		}
	}
	r = append(r, run.Scenario{Name: "nat/capacities", Nat: func(t *run.T) {
		for c := 1; c <= 40; c++ {
			for seg := 1; seg <= 70; seg++ {
				if seg > 12 && seg != 64 && seg != 63 && seg != 65 && seg != c {
					continue
				}
				capSeg(t, c, seg)
			}
			if !t.More() {
				return
			}
		}
	}}, run.Scenario{Name: "nat/default-segments", Nat: func(t *run.T) {
		for _, c := range []int{1, 2, 3, 63, 64, 65, 127, 128, 1000, 1 << 12, 70000, depth(thorough, 200000, 2000000)} {
			m := hm.NewLimitHashMap[string, int](c)
			for i := 0; i < 3*c+200; i++ {
				k := fmt.Sprint("key", i)
				m.Put(k, i)
				if v, ok := m.Get(k); !ok || v != i {
					t.Fail("capacity %d: Get(%s) right after Put returned %d,%v", c, k, v, ok)
				}
				if i%37 == 0 && c < 5000 || i < 200 {
					if m.Len() > c {
						t.Fail("capacity %d: %d entries", c, m.Len())
					}
				}
			}
			if m.Len() > c {
				t.Fail("capacity %d: %d entries", c, m.Len())
			}
			n := 0
			for i := 0; i < 3*c+200; i++ {
				k := fmt.Sprint("key", i)
				v, ok := m.Get(k)
				if ok != m.Contains(k) || ok && v != i {
					t.Fail("capacity %d: Get(%s) returned %v, %v, Contains %v", c, k, v, ok, m.Contains(k))
				}
				if ok {
					n++
				}
			}
			if n != m.Len() || n < c/min(c, 64)*min(c, 64)/2 {
				t.Fail("capacity %d: %d keys found, Len %d", c, n, m.Len())
			}
			m.Clear()
			for i := 0; i < 3*c+200; i++ {
				if m.Contains(fmt.Sprint("key", i)) || m.Len() != 0 {
					t.Fail("capacity %d: key%d is present after Clear, Len %d", c, i, m.Len())
				}
			}
			t.Case(6*c + 200)
		}
	}})
	return
}

// capSeg fills a map and checks its size and, learning from the evictions which keys share a segment, their order.
func capSeg(t *run.T, c, seg int) {
	m := hm.NewLimitHashMapWithSegment[int, int](c, seg)
	n := 3*c + 2*seg + 4
	group := make([]int, n)
	for i := range group {
		group[i] = i
	}
	find := func(x int) int {
		for group[x] != x {
			x = group[x]
		}
		return x
	}
	var order []int
	for pass := 0; pass < 3; pass++ {
		for i := 0; i < n; i++ {
			present := slices.Contains(order, i)
			if _, b := m.Put(i, pass); b != present {
				t.Fail("capacity %d, %d segments: Put(%d) says present %v, want %v", c, seg, i, b, present)
			}
			var gone []int
			for _, k := range order {
				if !m.Contains(k) {
					gone = append(gone, k)
				}
			}
			if present {
				if len(gone) > 0 {
					t.Fail("capacity %d, %d segments: Put of the present key %d evicted %v", c, seg, i, gone)
				}
				continue
			}
			if len(gone) > 1 {
				t.Fail("capacity %d, %d segments: Put(%d) evicted %v", c, seg, i, gone)
			}
			if len(gone) == 1 {
				g := gone[0]
				group[find(g)] = find(i)
				for _, k := range order {
					if k == g {
						break
					}
					if find(k) == find(g) {
						t.Fail("capacity %d, %d segments: Put(%d) evicted %d, but %d of the same segment was inserted earlier", c, seg, i, g, k)
					}
				}
				order = slices.DeleteFunc(order, func(k int) bool { return k == g })
			}
			order = append(order, i)
			if m.Len() != len(order) || len(order) > c {
				t.Fail("capacity %d, %d segments: Len %d, present %v", c, seg, m.Len(), order)
			}
		}
	}
	if s := min(seg, c); m.Len() < c/s*s {
		t.Fail("capacity %d, %d segments: only %d entries kept of %d keys", c, seg, m.Len(), n)
	}
	t.Case(3 * n)
}

// ---- C04 ----

func c04(thorough bool) (r []run.Scenario) {
	r = append(r, reclaimC04()...)
	r = append(r, valueKinds(thorough, "LinkedHashMap", kLinked()), valueKinds(thorough, "LoadOrStore", kStored()))
	for limit := 1; limit <= 4; limit++ {
		r = append(r, run.Scenario{Name: fmt.Sprintf("nat/sequences/limit%d", limit), Nat: func(t *run.T) {
			const keys = 4
			nops := 4*keys + 1
			comb.Sequences(t, depth(thorough, 4, 5), nops, func(seq []int) {
				linkedSeq(t, limit, keys, seq)
			})
		}})
	}
	r = append(r, run.Scenario{Name: "nat/limits", Nat: func(t *run.T) {
		for limit := 1; limit <= depth(thorough, 20, 50); limit++ {
			for how := 0; how < 3; how++ { // what is done to one entry when the map is full
				for pos := 0; pos < limit; pos++ {
					m := hm.NewLinkedHashMap[int, string](int64(limit))
					var ref []int // back first
					for i := 0; i < limit; i++ {
						m.Put(i, fmt.Sprint(i))
						ref = append(ref, i)
					}
					i := slices.Index(ref, pos)
					ref = slices.Delete(ref, i, i+1)
					switch how {
					case 0:
						m.MoveToFront(pos)
						ref = append(ref, pos)
					case 1:
						m.Put(pos, fmt.Sprint(pos))
						ref = append(ref, pos)
					case 2:
						m.Delete(pos)
					}
					for k := limit; k < limit+limit/2+2; k++ {
						if k%2 == 0 {
							m.Put(k, fmt.Sprint(k))
						} else if v, loaded := m.LoadOrStore(k, fmt.Sprint(k)); loaded || v != fmt.Sprint(k) {
							t.Fail("LoadOrStore of a new key returned %v,%v", v, loaded)
						}
						if len(ref) == limit {
							ref = ref[1:]
						}
						ref = append(ref, k)
						if m.Len() != int64(len(ref)) {
							t.Fail("limit %d how %d pos %d: Len %d, want %d", limit, how, pos, m.Len(), len(ref))
						}
						var got []int
						for it := m.Iterator(false); ; {
							k, v, ok := it.Next()
							if !ok {
								break
							}
							if v != fmt.Sprint(k) {
								t.Fail("iterator gave %d=%s", k, v)
							}
							got = append(got, k)
						}
						if !slices.Equal(got, ref) {
							t.Fail("limit %d how %d pos %d: entries from the back %v, want %v", limit, how, pos, got, ref)
						}
						for x := 0; x <= k; x++ {
							if _, ok := m.Get(x); ok != slices.Contains(ref, x) {
								t.Fail("limit %d how %d pos %d: Get(%d) present %v, want %v", limit, how, pos, x, ok, ref)
							}
						}
					}
					t.Case(2 * limit)
				}
			}
		}
	}}, run.Scenario{Name: "nat/iterate-and-delete", Nat: func(t *run.T) {
		// deleting the entry an iterator has just returned does not disturb it
		for n := 0; n <= 12; n++ {
			for mask := 0; mask < 1<<n; mask++ {
				for _, front := range []bool{true, false} {
					m := hm.NewLinkedHashMap[int, int](100)
					for i := 0; i < n; i++ {
						m.Put(i, i)
					}
					var got []int
					for it := m.Iterator(front); ; {
						k, _, ok := it.Next()
						if !ok {
							break
						}
						got = append(got, k)
						if mask>>k&1 == 1 {
							m.Delete(k)
						}
						if len(got) > n {
							break
						}
					}
					if front {
						slices.Reverse(got)
					}
					want := make([]int, n)
					for i := range want {
						want[i] = i
					}
					if !slices.Equal(got, want) {
						t.Fail("iterating (front %v) over %d entries and deleting those in mask %b gave %v", front, n, mask, got)
					}
					t.Case(n)
				}
			}
		}
	}})
	r = append(r, run.Scenario{Name: "nat/large", Nat: func(t *run.T) {
		for _, c := range []int{1000, 4096, 65535, 65536, 65537, depth(thorough, 200000, 2000000)} {
			m := hm.NewLinkedHashMap[int, int](int64(c))
			var ref []int
			for i := 0; i < 2*c+100 && t.More(); i++ {
				if i%2 == 0 {
					m.Put(i, i)
				} else if v, b := m.LoadOrStore(i, i); b || v != i {
					t.Fail("limit %d: LoadOrStore(%d) returned %v, %v", c, i, v, b)
				}
				if m.Len() != int64(min(i+1, c)) {
					t.Fail("limit %d: Len is %d after %d entries", c, m.Len(), i+1)
				}
				ref = append(ref, i)
				if i == c-1 {
					ref = ref[c/4:]
					for j := 0; j < c/4; j++ {
						if j%2 == 0 {
							m.MoveToFront(j)
						} else {
							m.Put(j, j)
						}
						ref = append(ref, j)
					}
				}
			}
			if !t.More() {
				return
			}
			ref = ref[len(ref)-c:]
			for i := 0; i < c; i += 5 {
				m.Delete(ref[i])
				ref[i] = -1
			}
			ref = slices.DeleteFunc(ref, func(k int) bool { return k < 0 })
			for _, front := range []bool{false, true} {
				n := 0
				for it := m.Iterator(front); ; n++ {
					k, v, ok := it.Next()
					if !ok {
						break
					}
					i := n
					if front {
						i = len(ref) - 1 - n
					}
					if i < 0 || i >= len(ref) || k != ref[i] || v != k {
						t.Fail("limit %d: entry %d of the iterator (front %v) is %d=%d", c, n, front, k, v)
					}
				}
				if n != len(ref) || m.Len() != int64(n) {
					t.Fail("limit %d: the iterator (front %v) gives %d entries, Len %d, want %d", c, front, n, m.Len(), len(ref))
				}
			}
			in := map[int]bool{}
			for _, k := range ref {
				in[k] = true
			}
			for i := 0; i < 2*c+100; i++ {
				if v, b := m.Get(i); b != in[i] || b && v != i {
					t.Fail("limit %d: Get(%d) returned %v, %v, want %v", c, i, v, b, in[i])
				}
			}
			t.Case(4 * c)
		}
	}})
	return
}

func linkedSeq(t *run.T, limit, keys int, seq []int) {
	m := hm.NewLinkedHashMap[int, any](int64(limit))
	type e struct {
		k int
		v any
	}
	var ref []e // front first
	find := func(k int) int { return slices.IndexFunc(ref, func(x e) bool { return x.k == k }) }
	for step, op := range seq {
		k := op % keys
		i := find(k)
		var v any = step
		if step%3 == 2 {
			v = nil
		}
		switch {
		case op < keys:
			m.Put(k, v)
			if i >= 0 {
				ref = slices.Delete(ref, i, i+1)
			} else if len(ref) == limit {
				ref = ref[:limit-1]
			}
			ref = slices.Insert(ref, 0, e{k, v})
		case op < 2*keys:
			a, loaded := m.LoadOrStore(k, v)
			if i >= 0 {
				if !loaded || a != ref[i].v {
					t.Fail("limit %d %v step %d: LoadOrStore(%d) returned %v,%v, present %v", limit, seq, step, k, a, loaded, ref[i])
				}
				// a loaded entry may or may not move to the front
				if f, _, ok := m.Front(); ok && f == k {
					x := ref[i]
					ref = slices.Insert(slices.Delete(ref, i, i+1), 0, x)
				}
			} else {
				if loaded || a != v {
					t.Fail("limit %d %v step %d: LoadOrStore(%d,%v) of a new key returned %v,%v", limit, seq, step, k, v, a, loaded)
				}
				if len(ref) == limit {
					ref = ref[:limit-1]
				}
				ref = slices.Insert(ref, 0, e{k, v})
			}
		case op < 3*keys:
			m.Delete(k)
			if i >= 0 {
				ref = slices.Delete(ref, i, i+1)
			}
		case op < 4*keys:
			m.MoveToFront(k)
			if i >= 0 {
				x := ref[i]
				ref = slices.Insert(slices.Delete(ref, i, i+1), 0, x)
			}
		default:
			m.Clear()
			ref = nil
		}
		if m.Len() != int64(len(ref)) {
			t.Fail("limit %d %v step %d: Len %d, want %v", limit, seq, step, m.Len(), ref)
		}
		for x := 0; x < keys; x++ {
			g, ok := m.Get(x)
			j := find(x)
			if ok != (j >= 0) || ok && g != ref[j].v {
				t.Fail("limit %d %v step %d: Get(%d) returned %v,%v, want %v", limit, seq, step, x, g, ok, ref)
			}
		}
		for _, front := range []bool{true, false} {
			it := m.Iterator(front)
			for j := 0; j <= len(ref); j++ {
				gk, gv, ok := it.Next()
				if j == len(ref) {
					if ok {
						t.Fail("limit %d %v step %d: iterator goes on after %v", limit, seq, step, ref)
					}
					break
				}
				want := ref[j]
				if !front {
					want = ref[len(ref)-1-j]
				}
				if !ok || gk != want.k || gv != want.v {
					t.Fail("limit %d %v step %d: iterator (front %v) entry %d is %v=%v,%v, want %v", limit, seq, step, front, j, gk, gv, ok, ref)
				}
			}
		}
		fk, fv, fok := m.Front()
		bk, bv, bok := m.Back()
		if fok != (len(ref) > 0) || bok != fok || fok && (fk != ref[0].k || fv != ref[0].v || bk != ref[len(ref)-1].k || bv != ref[len(ref)-1].v) {
			t.Fail("limit %d %v step %d: Front %v=%v,%v Back %v=%v,%v, want %v", limit, seq, step, fk, fv, fok, bk, bv, bok, ref)
		}
	}
}

// ---- C05 ----

func checkTree[K int | string | float64](t *run.T, m *hm.TreeMap[K, any], ref map[K]any, probe []K, what any) {
	var ks []K
	for k := range ref {
		ks = append(ks, k)
	}
	slices.Sort(ks)
	for _, k := range probe {
		v, ok := m.Get(k)
		w, had := ref[k]
		if ok != had || v != w {
			t.Fail("%v: Get(%v) returned %v,%v, want %v,%v", what, k, v, ok, w, had)
		}
	}
	for _, up := range []bool{true, false} {
		want := slices.Clone(ks)
		if !up {
			slices.Reverse(want)
		}
		for stop := 0; stop <= len(ks); stop++ { // 0: never
			if len(ks) > 12 && stop > 2 && stop < len(ks)-1 {
				continue
			}
			var got []K
			f := func(k K, v any) bool {
				if v != ref[k] {
					t.Fail("%v: traversal gave %v=%v, want %v", what, k, v, ref[k])
				}
				got = append(got, k)
				return len(got) != stop
			}
			if up {
				m.Ascend(f)
			} else {
				m.Descend(f)
			}
			w := want
			if stop > 0 {
				w = want[:stop]
			}
			if !slices.Equal(got, w) {
				t.Fail("%v: traversal (up %v, stop at %d) visited %v, want %v", what, up, stop, got, w)
			}
		}
	}
}

func c05(thorough bool) (r []run.Scenario) {
	r = append(r, reclaimC05()...)
	r = append(r, rude())
	r = append(r, valueKinds(thorough, "TreeMap", kTree()))
	for _, deg := range []int{2, 3} {
		r = append(r, run.Scenario{Name: fmt.Sprintf("nat/sequences/degree%d", deg), Nat: func(t *run.T) {
			keys := []string{"", "a", "aa", "b", "\xff"}
			comb.Sequences(t, depth(thorough, 5, 6), 2*len(keys), func(seq []int) {
				m := hm.NewTreeMap[string, any](deg)
				ref := map[string]any{}
				for step, op := range seq {
					k := keys[op%len(keys)]
					if op < len(keys) {
						var v any = step
						if step == 1 {
							v = nil
						}
						old, had := ref[k]
						if p, b := m.Put(k, v); b != had || p != old {
							t.Fail("%v step %d: Put returned %v,%v, want %v,%v", seq, step, p, b, old, had)
						}
						ref[k] = v
					} else {
						m.Del(k)
						delete(ref, k)
					}
				}
				checkTree(t, m, ref, keys, seq)
			})
		}}, run.Scenario{Name: fmt.Sprintf("nat/permutations/degree%d", deg), Nat: func(t *run.T) {
			// every insertion order of n keys, then deletion in a fixed set of orders
			n := depth(thorough, 6, 7)
			comb.Perms(n, func(p []int) {
				for del := 0; del < n; del++ {
					m := hm.NewTreeMap[int, any](deg)
					ref := map[int]any{}
					for _, k := range p {
						m.Put(k-2, k)
						ref[k-2] = k
					}
					checkTree(t, m, ref, []int{-3, -2, 0, n}, p)
					for i := 0; i < n; i++ {
						k := (i*del+del)%n - 2
						m.Del(k)
						delete(ref, k)
						checkTree(t, m, ref, []int{k, k + 1}, fmt.Sprint(p, " deleting with step ", del))
					}
					t.Case(3 * n)
				}
			})
		}})
	}
	// floats, those that compare oddly included; NaN is one key, before all others
	r = append(r, run.Scenario{Name: "nat/floats", Nat: func(t *run.T) {
		negZero := math.Copysign(0, -1)
		keys := []float64{math.NaN(), math.Inf(-1), negZero, 0, 2.5, math.Inf(1), math.Float64frombits(0xfff8000000000001)}
		type kv struct{ k, v float64 }
		comb.Sequences(t, depth(thorough, 4, 6), 2*len(keys), func(seq []int) {
			m := hm.NewTreeMap[float64, float64](2)
			var ref []kv
			for step, op := range seq {
				k := keys[op%len(keys)]
				i, had := slices.BinarySearchFunc(ref, k, func(e kv, k float64) int { return cmp.Compare(e.k, k) })
				if op < len(keys) {
					p, b := m.Put(k, float64(step))
					if b != had || had && p != ref[i].v {
						t.Fail("%v step %d: Put(%v) returned %v,%v with %v", seq, step, k, p, b, ref)
					}
					if had {
						ref[i].v = float64(step)
					} else {
						ref = slices.Insert(ref, i, kv{k, float64(step)})
					}
				} else {
					m.Del(k)
					if had {
						ref = slices.Delete(ref, i, i+1)
					}
				}
			}
			for _, k := range append(keys, 1, -3) {
				i, had := slices.BinarySearchFunc(ref, k, func(e kv, k float64) int { return cmp.Compare(e.k, k) })
				if v, ok := m.Get(k); ok != had || had && v != ref[i].v {
					t.Fail("%v: Get(%v) returned %v,%v with %v", seq, k, v, ok, ref)
				}
			}
			n := 0
			m.Ascend(func(k, v float64) bool {
				if n >= len(ref) || cmp.Compare(k, ref[n].k) != 0 || v != ref[n].v {
					t.Fail("%v: Ascend gives %v=%v as entry %d of %v", seq, k, v, n, ref)
				}
				n++
				return true
			})
			m.Descend(func(k, v float64) bool {
				n--
				if n < 0 || cmp.Compare(k, ref[n].k) != 0 || v != ref[n].v {
					t.Fail("%v: Descend gives %v=%v as entry %d of %v", seq, k, v, n, ref)
				}
				return true
			})
			if n != 0 {
				t.Fail("%v: the traversals visited different numbers of entries of %v", seq, ref)
			}
		})
	}})
	r = append(r, run.Scenario{Name: "nat/sizes", Nat: func(t *run.T) {
		for _, deg := range []int{2, 3, 5, 32, 64} {
			for n := 0; n <= depth(thorough, 300, 700); n += 1 + n/7 {
				for order := 0; order < 3; order++ {
					m := hm.NewTreeMap[float64, any](deg)
					ref := map[float64]any{}
					for i := 0; i < n; i++ {
						k := i
						switch order {
						case 1:
							k = n - 1 - i
						case 2:
							k = i * 7919 % n
						}
						f := float64(k)/4 - 10
						m.Put(f, -1)
						if p, b := m.Put(f, k); n%7919 != 0 && (!b || p != -1) {
							t.Fail("Put over a present key returned %v,%v", p, b)
						}
						ref[f] = k
					}
					checkTree(t, m, ref, []float64{-10, 0, 0.1, -11, float64(n)}, fmt.Sprint("degree ", deg, " size ", n))
					for k := range ref {
						if int(k*4)%3 != 0 {
							m.Del(k)
							delete(ref, k)
						}
					}
					checkTree(t, m, ref, []float64{-10, 0, 0.25}, fmt.Sprint("degree ", deg, " size ", n, " thinned"))
					t.Case(3 * n)
				}
			}
		}
	}})
	r = append(r, run.Scenario{Name: "nat/large", Nat: func(t *run.T) {
		for _, n := range []int{10000, 70000, depth(thorough, 200000, 2000000)} {
			for _, deg := range []int{2, 32, 500} {
				if !t.More() {
					return
				}
				m := hm.NewTreeMap[int, int](deg)
				for i := 0; i < n; i++ {
					k := i * 7919 % n
					if p, b := m.Put(k, k); b || p != 0 {
						t.Fail("degree %d: Put(%d) into %d entries returned %v, %v", deg, k, i, p, b)
					}
				}
				for i := 0; i < n; i += 3 {
					m.Del(i)
				}
				next := 0
				m.Ascend(func(k, v int) bool {
					for next%3 == 0 {
						next++
					}
					if k != next || v != k {
						t.Fail("degree %d, %d entries: Ascend gives %d=%d, want %d", deg, n, k, v, next)
					}
					next++
					return true
				})
				if next < n-1 {
					t.Fail("degree %d, %d entries: Ascend ends at %d", deg, n, next)
				}
				next = n - 1
				m.Descend(func(k, v int) bool {
					for next%3 == 0 {
						next--
					}
					if k != next || v != k {
						t.Fail("degree %d, %d entries: Descend gives %d=%d, want %d", deg, n, k, v, next)
					}
					next--
					return true
				})
				if next > 0 {
					t.Fail("degree %d, %d entries: Descend ends at %d", deg, n, next)
				}
				for i := -1; i <= n; i++ {
					want := i >= 0 && i < n && i%3 != 0
					if v, b := m.Get(i); b != want || b && v != i {
						t.Fail("degree %d, %d entries: Get(%d) returned %v, %v, want %v", deg, n, i, v, b, want)
					}
				}
				t.Case(4 * n)
			}
		}
	}})
	return
}

// ---- C06 ----

var turn int

// answers asks for every key, in the order of the keys or the other way round in turn, so that the last question before
// a change of the ring is also the first one after it.
func answers(c *hm.Consistenthash, qs []int64) []int64 {
	r := make([]int64, 2*len(qs))
	turn++
	for j := range r {
		i := j
		if turn%2 == 0 {
			i = len(r) - 1 - j
		}
		var n int64
		var ok bool
		if q := qs[i/2]; i%2 == 0 {
			n, ok = c.Get(q)
		} else {
			n, ok = c.GetStr(fmt.Sprint("s", q))
		}
		if !ok {
			n = math.MinInt64
		}
		r[i] = n
	}
	return r
}

func nodes(c *hm.Consistenthash) []int64 {
	n := c.Nodes()
	slices.Sort(n)
	return n
}

// crcTwin returns the node whose point i2 has the same CRC-64 as point i1 of node k.
func crcTwin(k int64, i1, i2 int64) int64 {
	tab := crc64.MakeTable(crc64.ECMA)
	be := func(i, k int64) []byte {
		b := make([]byte, 16)
		for j := 0; j < 8; j++ {
			b[j] = byte(i >> (8 * (7 - j)))
			b[8+j] = byte(k >> (8 * (7 - j)))
		}
		return b
	}
	crc := func(i, k int64) uint64 { return crc64.Checksum(be(i, k), tab) }
	target := crc(i1, k)
	base := crc(i2, 0)
	// Gaussian elimination over the bits of the node
	var rows [64]struct{ v, sel uint64 }
	for b := 0; b < 64; b++ {
		rows[b].v = crc(i2, int64(uint64(1)<<b)) ^ base
		rows[b].sel = uint64(1) << b
	}
	want, sel := target^base, uint64(0)
	for bit := 63; bit >= 0; bit-- {
		p := -1
		for i := range rows {
			if rows[i].v>>bit&1 == 1 && rows[i].v != 0 && 63-leading(rows[i].v) == bit {
				p = i
				break
			}
		}
		if p < 0 {
			continue
		}
		for i := range rows {
			if i != p && rows[i].v>>bit&1 == 1 {
				rows[i].v ^= rows[p].v
				rows[i].sel ^= rows[p].sel
			}
		}
		if want>>bit&1 == 1 {
			want ^= rows[p].v
			sel ^= rows[p].sel
		}
	}
	if want != 0 {
		return k + 1
	}
	return int64(sel)
}

func leading(x uint64) int {
	n := 0
	for x>>63 == 0 {
		x <<= 1
		n++
	}
	return n
}

func c06(thorough bool) (r []run.Scenario) {
	type members struct {
		name string
		ids  []int64
	}
	a := int64(77)
	sets := []members{
		{"small", []int64{1, 2, 3, 4}},
		{"wide", []int64{0, -1, math.MinInt64, math.MaxInt64}},
		{"twins", []int64{a, crcTwin(a, 0, 1), crcTwin(a, 1, 2), 5}},
		{"twins2", []int64{-9, crcTwin(-9, 0, 1), crcTwin(-9, 0, 2), crcTwin(-9, 0, 4)}},
	}
	nq := depth(thorough, 40, 120)
	var qs []int64
	for i := 0; i < nq; i++ {
		qs = append(qs, int64(i)*int64(i)*1000003-77)
	}
	qs = append(qs, 0, math.MaxInt64, math.MinInt64)
	for _, set := range sets {
		for _, rep := range []int{1, 2, 3, 5} {
			r = append(r, run.Scenario{Name: fmt.Sprintf("nat/histories/%s/replicas%d", set.name, rep), Nat: func(t *run.T) {
				ids := set.ids
				ref := map[int][]int64{} // by member mask
				for mask := 0; mask < 1<<len(ids); mask++ {
					c := hm.NewConsistenthash(rep)
					var in []int64
					for i, id := range ids {
						if mask>>i&1 == 1 {
							in = append(in, id)
						}
					}
					c.Add(in...)
					ref[mask] = answers(c, qs)
					for i, n := range ref[mask] {
						if len(in) == 0 && n != math.MinInt64 || len(in) > 0 && !slices.Contains(in, n) {
							t.Fail("members %v: query %d answered %d", in, i, n)
						}
					}
				}
				// adding or removing one member
				for mask := range ref {
					for i, id := range ids {
						if mask>>i&1 == 1 {
							continue
						}
						for q, was := range ref[mask] {
							if is := ref[mask|1<<i][q]; is != was && is != id {
								t.Fail("adding %d to members %b moved query %d from %d to %d", id, mask, q, was, is)
							}
						}
					}
				}
				next := map[int][][]int64{}
				// successors: who takes over when owners leave, one after the other
				for mask := 1; mask < 1<<len(ids); mask++ {
					c := hm.NewConsistenthash(rep)
					for i, id := range ids {
						if mask>>i&1 == 1 {
							c.Add(id)
						}
					}
					for qi, q := range qs {
						rest := mask
						var want []int64
						for rest != 0 {
							o := ref[rest][2*qi+1]
							if i := slices.Index(ids, o); i < 0 || rest>>i&1 == 0 {
								t.Fail("members %b: query s%d answered %d, not a member", rest, q, o)
							}
							want = append(want, o)
							rest &^= 1 << slices.Index(ids, o)
						}
						want = want[1:]
						next[mask] = append(next[mask], want)
						for k := 1; k <= len(ids)+1; k++ {
							got, _ := c.GetNextNodeStr(fmt.Sprint("s", q), k)
							w := want[:min(k, len(want))]
							if !slices.Equal(got, w) && len(got)+len(w) > 0 {
								t.Fail("members %b, %d replicas: GetNextNodeStr(s%d,%d) returned %v, want %v", mask, rep, q, k, got, w)
							}
						}
					}
					t.Case(len(qs))
				}
				// every history of Add and Del
				ops := 2*len(ids) + 2
				comb.Sequences(t, depth(thorough, 4, 5), ops, func(seq []int) {
					c := hm.NewConsistenthash(rep)
					mask := 0
					for _, op := range seq {
						switch {
						case op < len(ids):
							c.Add(ids[op])
							mask |= 1 << op
						case op < 2*len(ids):
							c.Del(ids[op-len(ids)])
							mask &^= 1 << (op - len(ids))
						case op == 2*len(ids):
							c.Add(ids[2], ids[0], ids[2])
							mask |= 5
						default:
							c.Add()
						}
						if got := answers(c, qs[:8]); !slices.Equal(got, ref[mask][:16]) {
							t.Fail("in history %v (up to %d) over %v (%d replicas) the answers are %v, want %v", seq, op, ids, rep, got, ref[mask][:16])
						}
						for i := 0; i < 4 && mask != 0; i++ {
							qi, k := i, 1+i%3
							if turn%2 == 0 {
								qi = 3 - i
								k = 1 + qi%3
							}
							w := next[mask][qi]
							w = w[:min(k, len(w))]
							if got, _ := c.GetNextNodeStr(fmt.Sprint("s", qs[qi]), k); !slices.Equal(got, w) && len(got)+len(w) > 0 {
								t.Fail("in history %v (up to %d) over %v (%d replicas) GetNextNodeStr(s%d,%d) returned %v, want %v", seq, op, ids, rep, qs[qi], k, got, w)
							}
						}
					}
					var want []int64
					for i, id := range ids {
						if mask>>i&1 == 1 {
							want = append(want, id)
						}
					}
					slices.Sort(want)
					if got := nodes(c); !slices.Equal(got, want) {
						t.Fail("after history %v Nodes is %v, want %v", seq, got, want)
					}
					if mask == 0 {
						if ns, ok := c.GetNextNodeStr("x", 2); ok || len(ns) != 0 {
							t.Fail("after history %v an empty ring answers GetNextNodeStr with %v,%v", seq, ns, ok)
						}
					}
				})
			}})
		}
	}
	r = append(r, run.Scenario{Name: "nat/results-stay", Nat: func(t *run.T) {
		// what Nodes and GetNextNodeStr returned and what Add was given belongs to the caller: later calls do not change it,
		// and the caller may change it
		ids := []int64{5, -3, 11}
		comb.Sequences(t, depth(thorough, 5, 6), 8, func(seq []int) {
			for scribble := 0; scribble < 2; scribble++ {
				c, mask := hm.NewConsistenthash(3), 0
				var kept, copies [][]int64
				keep := func(l []int64) []int64 {
					kept, copies = append(kept, l), append(copies, slices.Clone(l))
					return l
				}
				for _, op := range seq {
					switch {
					case op < 3:
						c.Add(keep([]int64{ids[op], ids[(op+1)%3]})...)
						mask |= 1<<op | 1<<((op+1)%3)
					case op < 6:
						c.Del(ids[op-3])
						mask &^= 1 << (op - 3)
					case op == 6:
						keep(c.Nodes())
					default:
						l, _ := c.GetNextNodeStr("k", 2)
						keep(l)
					}
					for i := range kept {
						if !slices.Equal(kept[i], copies[i]) {
							t.Fail("in history %v (up to %d) a list returned or given before, %v, became %v", seq, op, copies[i], kept[i])
						}
						if scribble == 1 {
							for j := range kept[i] {
								kept[i][j] = 99
								copies[i][j] = 99
							}
						}
					}
				}
				var want []int64
				for i, id := range ids {
					if mask>>i&1 == 1 {
						want = append(want, id)
					}
				}
				slices.Sort(want)
				if got := nodes(c); !slices.Equal(got, want) {
					t.Fail("after history %v, the lists changed %v, Nodes is %v, want %v", seq, scribble == 1, got, want)
				}
				fresh := hm.NewConsistenthash(3)
				fresh.Add(want...)
				for q := 0; q < 4; q++ {
					k := fmt.Sprint("q", q)
					a, b := c.GetStr(k)
					x, y := fresh.GetStr(k)
					l, _ := c.GetNextNodeStr(k, 2)
					m, _ := fresh.GetNextNodeStr(k, 2)
					if a != x || b != y || !slices.Equal(l, m) && len(l)+len(m) > 0 {
						t.Fail("after history %v, the lists changed %v: key %s belongs to %d, %v, then %v, on a new ring to %d, %v, then %v", seq, scribble == 1, k, a, b, l, x, y, m)
					}
				}
			}
		})
	}})
	r = append(r, run.Scenario{Name: "nat/spread", Nat: func(t *run.T) {
		const keys = 8000
		for _, rep := range []int{100, 160, 300} {
			for n := 2; n <= 8; n++ {
				for _, base := range []int64{0, 1, 7, 1000, -5, 1 << 40} {
					if !t.More() {
						return
					}
					c := hm.NewConsistenthash(rep)
					for i := 0; i < n; i++ {
						c.Add(base + int64(i))
					}
					ints, strs := map[int64]int{}, map[int64]int{}
					for k := 0; k < keys; k++ {
						x, _ := c.Get(int64(k) * 3)
						ints[x]++
						x, _ = c.GetStr(fmt.Sprint("key", k))
						strs[x]++
					}
					for i := 0; i < n; i++ {
						for what, m := range map[string]map[int64]int{"Get": ints, "GetStr": strs} {
							if have := m[base+int64(i)]; have < keys/n/4 || have > keys/n*4 {
								t.Fail("%d members from %d with %d replicas: %s gives %d of %d keys to member %d", n, base, rep, what, have, keys, base+int64(i))
							}
						}
					}
					t.Case(2 * keys)
				}
			}
		}
		t.Sample("8000 keys over two to eight members with 100 to 300 replicas")
	}})
	r = append(r, run.Scenario{Name: "nat/ring-sizes", Nat: func(t *run.T) {
		for _, rep := range []int{1, 10, 50} {
			for n := 1; n <= depth(thorough, 12, 40); n++ {
				full := hm.NewConsistenthash(rep)
				for i := n; i > 0; i-- {
					full.Add(int64(i * 11))
				}
				before := answers(full, qs)
				for i := 1; i <= n; i++ {
					full.Del(int64(i * 11))
					after := answers(full, qs)
					for q := range before {
						if before[q] != int64(i*11) && after[q] != before[q] || n > 1 && after[q] == int64(i*11) {
							t.Fail("%d members, %d replicas: removing %d moved query %d from %d to %d", n, rep, i*11, q, before[q], after[q])
						}
					}
					full.Add(int64(i * 11))
					if again := answers(full, qs); !slices.Equal(again, before) {
						t.Fail("%d members, %d replicas: removing and adding %d again changed the answers", n, rep, i*11)
					}
					t.Case(3 * len(qs))
				}
				ns, _ := full.GetNextNodeStr("q", n)
				sort.Slice(ns, func(i, j int) bool { return ns[i] < ns[j] })
				if len(ns) != n-1 || len(slices.Compact(ns)) != n-1 {
					t.Fail("%d members: GetNextNodeStr(n) returned %v", n, ns)
				}
			}
		}
	}})
	r = append(r, run.Scenario{Name: "nat/large", Nat: func(t *run.T) {
		// many members: the answers against the points computed one by one from rings of one member
		for _, n := range []int{100, 1000, depth(thorough, 3000, 20000)} {
			if !t.More() {
				return
			}
			a, b := hm.NewConsistenthash(3), hm.NewConsistenthash(3)
			for i := 0; i < n; i++ {
				a.Add(int64(i))
			}
			var all []int64
			for i := n - 1; i >= -n; i-- {
				all = append(all, int64(i))
			}
			b.Add(all...)
			for i := -n; i < 0; i++ {
				b.Del(int64(i))
			}
			many := make([]int64, 5000)
			for i := range many {
				many[i] = int64(i) * 1000003
			}
			was := answers(a, many)
			if is := answers(b, many); !slices.Equal(is, was) {
				t.Fail("%d members: the answers depend on the history", n)
			}
			own := map[int64]int{}
			for _, m := range was {
				if m < 0 || m >= int64(n) {
					t.Fail("%d members: the answer %d is no member", n, m)
				}
				own[m]++
			}
			if len(own) < n/3 {
				t.Fail("%d members: only %d of them own one of 10000 keys", n, len(own))
			}
			if got := nodes(a); len(got) != n || got[0] != 0 || got[n-1] != int64(n-1) || !slices.Equal(got, nodes(b)) {
				t.Fail("%d members: Nodes lists %d", n, len(got))
			}
			for i := 0; i < n; i += 1 + n/7 {
				a.Del(int64(i))
				for q, is := range answers(a, many) {
					if is != was[q] && was[q] != int64(i) || is == int64(i) {
						t.Fail("%d members: removing %d moved a key from %d to %d", n, i, was[q], is)
					}
				}
				a.Add(int64(i))
			}
			if is := answers(a, many); !slices.Equal(is, was) {
				t.Fail("%d members: removing and adding members changed the answers", n)
			}
			ns, _ := a.GetNextNodeStr("q", n+1)
			slices.Sort(ns)
			if len(ns) != n-1 || len(slices.Compact(ns)) != n-1 {
				t.Fail("%d members: GetNextNodeStr(n+1) returned %d", n, len(ns))
			}
			t.Case(20 * len(many))
		}
	}})
	return
}
