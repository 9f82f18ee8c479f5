package main

import (
	"fmt"
	"math"
	"runtime"
	"time"

	hm "github.com/donnie4w/gofer/hashmap"
	"verif.local/v/lib/reclaim"
	"verif.local/v/run"
)

type box = reclaim.V

const many = 20000

// keysets are ways of choosing the key of the i-th put.
var keysets = []struct {
	name string
	key  func(i int) float64
}{
	{"new keys", func(i int) float64 { return float64(i) }},
	{"16 keys in turn", func(i int) float64 { return float64(i % 16) }},
	{"NaN", func(i int) float64 { return math.NaN() }},
	{"0 and -0", func(i int) float64 { return math.Copysign(0, float64(1-i%2*2)) }},
	{"a key and NaN in turn", func(i int) float64 {
		if i%2 == 0 {
			return float64(i % 6)
		}
		return math.NaN()
	}},
}

// limited checks a bounded map: what was evicted, deleted or replaced is not held.
func limited(name string, caps []int, mk func(c int) (put func(k float64, v *box), del func(k float64), length func() int)) run.Scenario {
	return run.Scenario{Name: "nat/reclaim/" + name, Nat: func(t *run.T) {
		for _, c := range caps {
			for _, ks := range keysets {
				for how := 0; how < 3; how++ {
					put, del, length := mk(c)
					what := fmt.Sprintf("%s of capacity %d, %s, %s", name, c, ks.name, []string{"put", "put and deleted", "put, every other one deleted"}[how])
					reclaim.Check(t, what, many, c, []any{put, del, length}, func(i int, v *box) {
						k := ks.key(i)
						put(k, v)
						if how == 1 || how == 2 && i%2 == 0 {
							del(k)
						}
						if n := length(); n > c {
							t.Fail("%s: Len is %d after %d puts", what, n, i+1)
						}
					})
					// an ordinary key is still kept
					put(77.5, &box{N: 1})
					if n := length(); n < 1 || n > c {
						t.Fail("%s: Len is %d after a further put", what, n)
					}
				}
			}
		}
	}}
}

// unbounded checks a map without a limit: what was deleted or replaced is not held.
func unbounded(name string, mk func() (put func(k float64, v *box), del func(k float64))) run.Scenario {
	return run.Scenario{Name: "nat/reclaim/" + name, Nat: func(t *run.T) {
		put, del := mk()
		reclaim.Check(t, name+": put and deleted", many, 0, []any{put, del}, func(i int, v *box) {
			put(float64(i), v)
			del(float64(i))
		})
		put, del = mk()
		reclaim.Check(t, name+": replaced", many, 16, []any{put, del}, func(i int, v *box) { put(float64(i%16), v) })
		put, del = mk()
		reclaim.Check(t, name+": deleted later", many, 1000, []any{put, del}, func(i int, v *box) {
			put(float64(i), v)
			if i >= 1000 {
				del(float64(i - 1000))
			}
		})
	}}
}

func reclaimC01() []run.Scenario {
	return []run.Scenario{
		unbounded("Map", func() (func(float64, *box), func(float64)) {
			m := hm.NewMap[float64, *box]()
			return func(k float64, v *box) { m.Put(k, v) }, func(k float64) { m.Del(k) }
		}),
		unbounded("MapL", func() (func(float64, *box), func(float64)) {
			m := hm.NewMapL[float64, *box]()
			return func(k float64, v *box) { m.Put(k, v) }, func(k float64) { m.Del(k) }
		})}
}

func reclaimC02() run.Scenario {
	return limited("LimitMap", []int{1, 2, 8, 1000}, func(c int) (func(float64, *box), func(float64), func() int) {
		m := hm.NewLimitMap[float64, *box](c)
		n := 0
		return func(k float64, v *box) {
				m.Put(k, v)
				got, ok := m.Get(k)
				if k == k && (!ok || got != v) || k != k && ok {
					panic(fmt.Sprintf("Get(%v) after Put reported %v", k, ok))
				}
			}, func(k float64) {
				if n++; n%2 == 0 {
					m.Del(k)
				} else {
					m.RemoveMulti([]float64{k, -5})
				}
			}, m.Len
	})
}

func reclaimC03() (r []run.Scenario) {
	for _, seg := range []int{1, 3, 64} {
		r = append(r, limited(fmt.Sprint("LimitHashMap-", seg), []int{1, 2, 8, 1000}, func(c int) (func(float64, *box), func(float64), func() int) {
			m := hm.NewLimitHashMapWithSegment[float64, *box](c, seg)
			return func(k float64, v *box) { m.Put(k, v) }, m.Del, m.Len
		}))
	}
	r = append(r, run.Scenario{Name: "nat/reclaim/clear", Nat: func(t *run.T) {
		for _, seg := range []int{1, 3, 64} {
			m := hm.NewLimitHashMapWithSegment[float64, *box](many, seg)
			reclaim.Check(t, "put and cleared", many, 0, m, func(i int, v *box) {
				m.Put(float64(i), v)
				if i == many-1 || i == 100 {
					m.Clear()
				}
			})
		}
	}})
	return
}

func reclaimC04() (r []run.Scenario) {
	for _, store := range []bool{false, true} {
		name := "LinkedHashMap"
		if store {
			name += "-LoadOrStore"
		}
		r = append(r, limited(name, []int{1, 2, 8, 1000}, func(c int) (func(float64, *box), func(float64), func() int) {
			m := hm.NewLinkedHashMap[float64, *box](int64(c))
			return func(k float64, v *box) {
					if store {
						was, had := m.Get(k)
						got, loaded := m.LoadOrStore(k, v)
						if loaded != had || loaded && got != was || !loaded && got != v {
							panic(fmt.Sprintf("LoadOrStore(%v) returned another value, %v", k, loaded))
						}
					} else {
						m.Put(k, v)
					}
					if _, ok := m.Get(k); ok != (k == k) {
						panic(fmt.Sprintf("Get(%v) after a put reported %v", k, ok))
					}
					m.MoveToFront(k)
				}, m.Delete, func() int {
					n := int(m.Len())
					if n < 20 {
						seen := 0
						it := m.Iterator(false)
						for {
							if _, _, ok := it.Next(); !ok {
								break
							}
							seen++
						}
						if seen != n {
							panic(fmt.Sprintf("Len %d, and the iterator gives %d entries", n, seen))
						}
					}
					return n
				}
		}))
	}
	r = append(r, run.Scenario{Name: "nat/reclaim/clear", Nat: func(t *run.T) {
		m := hm.NewLinkedHashMap[float64, *box](many)
		reclaim.Check(t, "put and cleared", many, 0, m, func(i int, v *box) {
			m.Put(float64(i), v)
			if i == many-1 || i == 100 {
				m.Clear()
			}
		})
	}})
	return
}

func reclaimC05() (r []run.Scenario) {
	for _, deg := range []int{2, 3, 32} {
		r = append(r, unbounded(fmt.Sprint("TreeMap-", deg), func() (func(float64, *box), func(float64)) {
			m := hm.NewTreeMap[float64, *box](deg)
			return func(k float64, v *box) { m.Put(k, v) }, func(k float64) { m.Del(k) }
		}))
	}
	return
}

// rude has a traversal's callback panic, or end the goroutine, at each entry; the map works as before.
func rude() run.Scenario {
	return run.Scenario{Name: "nat/rude-callbacks", Nat: func(t *run.T) {
		for n := 1; n <= 6; n++ {
			for at := 0; at < n; at++ {
				for how := 0; how < 4; how++ {
					m := hm.NewTreeMap[int, int](2)
					for i := 0; i < n; i++ {
						m.Put(i, i)
					}
					done := make(chan bool)
					go func() {
						defer close(done)
						defer func() { recover() }()
						seen := 0
						f := func(k, v int) bool {
							if seen == at {
								if how < 2 {
									panic("callback")
								}
								runtime.Goexit()
							}
							seen++
							return true
						}
						if how%2 == 0 {
							m.Ascend(f)
						} else {
							m.Descend(f)
						}
					}()
					<-done
					what := fmt.Sprintf("%d entries, the callback %s at %d: afterwards ", n, []string{"of Ascend panics", "of Descend panics", "of Ascend ends its goroutine", "of Descend ends its goroutine"}[how], at)
					t.Returns(what+"Put", 20*time.Second, func() { m.Put(n, n) })
					t.Returns(what+"Del", 20*time.Second, func() { m.Del(0) })
					t.Returns(what+"Ascend", 20*time.Second, func() {
						next := 1
						m.Ascend(func(k, v int) bool {
							if k != next || v != next {
								t.Note("%sthe traversal gives %d, %d and not %d", what, k, v, next)
							}
							next++
							return true
						})
						if next != n+1 {
							t.Note("%sthe traversal ends before %d", what, next)
						}
					})
					t.Check()
					t.Case(n + 4)
				}
			}
		}
	}}
}
