// Controlled exploration of package gopool (C13, C14).
package main

import (
	"errors"
	"fmt"
	"runtime"
	"slices"
	"time"

	"github.com/donnie4w/gofer/pool/gopool"
	"verif.local/v/mc"
	"verif.local/v/run"
	vtime "verif.local/v/shim/time"
)

func main() {
	run.Main(map[string]run.Maker{"C13": c13, "C14": c14})
}

type limits struct {
	min, max int64
	queue    int
}

func (l limits) String() string { return fmt.Sprintf("%d-%d-%d", l.min, l.max, l.queue) }
func (l limits) pool() *gopool.GoPool {
	if l.queue == 1<<17 {
		return gopool.NewPool(l.min, l.max)
	}
	return gopool.NewPoolWithFuncLimit(l.min, l.max, l.queue)
}
func (l limits) most() int { return int(max(l.min, l.max, 1)) }

// world counts what ran.
type world struct {
	e       *mc.Exec
	g       *gopool.GoPool
	runs    []int
	ended   []int
	running int
	most    int // 0: not checked
	names   []string
}

func (w *world) fn(kind int, nest func()) func() {
	id := len(w.runs)
	w.runs = append(w.runs, 0)
	w.ended = append(w.ended, 0)
	w.names = append(w.names, fmt.Sprintf("f%d(kind %d)", id, kind))
	return func() {
		w.runs[id]++
		if w.runs[id] > 1 {
			w.e.Fail("%s was executed %d times", w.names[id], w.runs[id])
		}
		w.running++
		if w.most > 0 && w.running > w.most {
			w.e.Fail("%d functions run at the same moment, the maximum is %d", w.running, w.most)
		}
		w.e.Yield()
		if nest != nil {
			nest()
		}
		w.running--
		w.ended[id]++
		if kind == panics {
			switch id % 4 { // ways of not returning
			case 0:
				panic("function panics")
			case 1:
				runtime.Goexit()
			case 2:
				panic(errors.New("function panics"))
			default:
				panic(nil)
			}
		}
	}
}

func (w *world) finish() {
	w.e.Quiesce(0)
	if b := w.e.Blocked(); len(b) > 0 {
		w.e.Fail("never returned: %v (functions executed: %v)", b, w.runs)
	}
	for i, n := range w.runs {
		if n != 1 || w.ended[i] != 1 {
			w.e.Fail("%s was executed %d times (all: %v)", w.names[i], n, w.runs)
		}
	}
	if n := w.g.NumUnExecu(); n != 0 {
		w.e.Fail("NumUnExecu is %d after all functions have finished", n)
	}
}

const (
	plain = iota
	panics
	nested
	kinds
)

// submit calls Go with a function of the kind.
func (w *world) submit(kind int) {
	if kind == nested {
		inner := w.fn(plain, nil)
		w.g.Go(w.fn(plain, func() { w.g.Go(inner) }))
		return
	}
	w.g.Go(w.fn(kind, nil))
}

func (w *world) idle(what string, l limits, closed bool) {
	n := w.e.Live()
	limit := int(max(l.min, 0)) + 1 // one more for a goroutine that distributes
	if n > limit {
		w.e.Fail("%d goroutines remain %s with a minimum of %d", n, what, l.min)
	}
}

func c13(thorough bool) (r []run.Scenario) {
	ls := []limits{{1, 1, 1 << 17}, {1, 2, 3}, {2, 2, 4}, {2, 4, 1 << 17}, {0, 1, 4}, {0, 0, 4}, {-1, 2, 4}, {1, 1, 1}, {2, 3, 1}, {3, 1, 2}, {1, 1, 0}, {1, 2, -3}}
	for _, l := range ls {
		for subs := 1; subs <= 3; subs++ {
			for each := 1; each <= 3; each++ {
				if subs*each > 4 {
					continue
				}
				mx := 3
				if subs*each > 2 {
					mx = 2
				}
				if subs*each > 3 {
					mx = 1
				}
				r = append(r, run.Scenario{Name: fmt.Sprintf("GoPool/%v/%dx%d", l, subs, each), Delay: true, Max: mx, MaxDeep: mx + 2, Body: func(e *mc.Exec) {
					w := &world{e: e, g: l.pool()}
					for s := 0; s < subs; s++ {
						var ks []int
						for i := 0; i < each; i++ {
							n := kinds
							if l.queue < 3 {
								n = nested // a function must not wait for the queue it is to empty
							}
							ks = append(ks, mc.Choose(n))
						}
						e.Go(fmt.Sprintf("S%d", s+1), func() {
							for _, k := range ks {
								w.submit(k)
							}
						})
					}
					w.finish()
					e.Calm = true // the pool still works
					w.submit(plain)
					w.submit(panics)
					w.finish()
				}})
			}
		}
	}
	type end struct {
		name string
		do   func(g *gopool.GoPool)
		n    int
	}
	ends := []end{
		{"close", func(g *gopool.GoPool) { g.Close() }, 1},
		{"close-close", func(g *gopool.GoPool) { g.Close(); g.Close() }, 1},
		{"2closers", func(g *gopool.GoPool) { g.Close() }, 2},
		{"off", func(g *gopool.GoPool) { g.TurnOff(true) }, 1},
		{"off-on", func(g *gopool.GoPool) { g.TurnOff(true); g.TurnOff(false) }, 1},
		{"off-close", func(g *gopool.GoPool) { g.TurnOff(true); g.Close() }, 1},
		{"close-on", func(g *gopool.GoPool) { g.Close(); g.TurnOff(false) }, 1},
	}
	for _, l := range []limits{{1, 1, 4}, {1, 2, 4}, {2, 2, 4}, {0, 2, 4}, {1, 1, 1}, {2, 4, 1}} {
		for _, en := range ends {
			for _, shape := range [][]int{{1}, {2}, {1, 1}, {3}, {2, 1}} {
				tot := 0
				for _, n := range shape {
					tot += n
				}
				for k := 0; k < 3; k++ {
					if k == nested && l.queue < 3 {
						continue
					}
					sc := run.Scenario{Name: fmt.Sprintf("GoPool/%v/%s/%v/%d", l, en.name, shape, k), Delay: true, Max: 3, MaxDeep: 5, Body: func(e *mc.Exec) {
						w := &world{e: e, g: l.pool()}
						for s, n := range shape {
							var ks []int
							for i := 0; i < n; i++ {
								if s == 0 && i == 0 {
									ks = append(ks, k)
								} else {
									ks = append(ks, mc.Choose(2))
								}
							}
							e.Go(fmt.Sprintf("S%d", s+1), func() {
								for _, k := range ks {
									w.submit(k)
								}
							})
						}
						for i := 0; i < en.n; i++ {
							e.Go(fmt.Sprintf("End%d", i+1), func() { en.do(w.g) })
						}
						w.finish()
						e.Calm = true
						e.Quiesce(-1)
						w.submit(plain)
						w.submit(panics)
						w.g.Close()
						w.submit(plain)
						w.finish()
						e.Quiesce(-1) // whatever Close does later
						w.g.TurnOff(true)
						w.submit(plain)
						w.g.TurnOff(false)
						w.submit(plain)
						w.g.Close()
						w.finish()
					}}
					if tot > 1 {
						sc.Max, sc.MaxDeep = 2, 4
					}
					if tot > 2 {
						sc.Max, sc.MaxDeep = 1, 3
					}
					r = append(r, sc)
				}
			}
		}
	}
	// many functions
	for _, l := range []limits{{1, 1, 1 << 17}, {4, 16, 1 << 17}, {16, 4, 100}, {64, 128, 1000}, {0, 300, 1 << 17}, {300, 300, 5}, {200, 1000, 1 << 17}} {
		for _, n := range []int{100, 1000} {
			r = append(r, run.Scenario{Name: fmt.Sprintf("GoPool/%v/many/%d", l, n), Delay: true, MaxDeep: 1, Horizon: 4000000, Body: func(e *mc.Exec) {
				w := &world{e: e, g: l.pool()}
				const subs = 5
				for s := 0; s < subs; s++ {
					e.Go(fmt.Sprintf("S%d", s+1), func() {
						for i := 0; i < n/subs; i++ {
							k := i % 7 % kinds
							if l.queue < 3000 && k == nested {
								k = panics
							}
							w.submit(k)
						}
					})
				}
				w.finish()
				w.submit(plain)
				w.finish()
			}})
		}
	}
	// Close starts what is queued, even while all functions that run are blocked
	for _, l := range []limits{{1, 1, 8}, {1, 2, 8}, {0, 1, 8}, {2, 2, 8}, {1, 1, 1}, {1, 1, 1 << 17}, {4, 8, 100}} {
		for _, extra := range []int{0, 1, 2, 20, 70, 200} {
			mx, deep := 2, 4
			if extra > 2 || l.max > 4 {
				mx, deep = 0, 1
			}
			r = append(r, run.Scenario{Name: fmt.Sprintf("GoPool/%v/close-frees/%d", l, extra), Delay: true, Max: mx, MaxDeep: deep, Horizon: 400000, Body: func(e *mc.Exec) {
				w := &world{e: e, g: l.pool()}
				open, at := false, 0
				gate := func() { at++; e.Block("gate", func() bool { return open }) }
				n := l.most() + extra
				e.Go("S", func() {
					for i := 0; i < n; i++ {
						w.g.Go(w.fn(plain, gate))
					}
				})
				if mc.Choose(2) == 0 {
					e.Quiesce(0)
				}
				e.Go("C", func() { w.g.Close() })
				e.Quiesce(0)
				if at != n {
					e.Fail("after Close %d of %d functions have started", at, n)
				}
				open = true
				w.finish()
			}})
		}
	}
	// submissions long after Close, and ones that were slow to get going
	for _, l := range []limits{{1, 1, 2}, {1, 1, 1}} {
		r = append(r, run.Scenario{Name: fmt.Sprintf("GoPool/%v/slow-submitters", l), Delay: true, Max: 3, MaxDeep: 4, Body: func(e *mc.Exec) {
			w := &world{e: e, g: l.pool()}
			e.Go("S1", func() { w.submit(plain); w.submit(plain); w.submit(plain) })
			e.Go("S2", func() { vtime.Sleep(9 * time.Second); w.submit(plain); vtime.Sleep(3 * time.Second); w.submit(plain) })
			e.Go("C", func() { w.g.Close(); vtime.Sleep(20 * time.Second); w.g.Close() })
			e.Join()
			w.finish()
		}})
	}
	return
}

func c14(thorough bool) (r []run.Scenario) {
	for _, l := range []limits{{1, 1, 100}, {1, 2, 100}, {2, 2, 100}, {2, 4, 100}, {0, 1, 100}, {0, 2, 100}, {-1, 0, 100}, {3, 2, 100}, {1, 4, 100}, {2, 3, 2}} {
		// free running
		for subs := 1; subs <= 3; subs++ {
			mx := 5 - subs
			r = append(r, run.Scenario{Name: fmt.Sprintf("GoPool/%v/%dsubmitters", l, subs), Delay: true, Max: mx, MaxDeep: mx + 2, Body: func(e *mc.Exec) {
				w := &world{e: e, g: l.pool(), most: l.most()}
				for s := 0; s < subs; s++ {
					k := mc.Choose(2)
					e.Go(fmt.Sprintf("S%d", s+1), func() {
						w.submit(k)
						w.submit(plain)
						if subs == 1 {
							w.submit(k)
							w.submit(plain)
						}
					})
				}
				e.Quiesce(0)
				w.idle("after all functions have finished", l, false)
			}})
		}
		// functions wait at a gate: n1 are submitted, some of those running go on, the others are submitted, and
		// the rest go on in one of two orders
		total := l.most() + 3
		for n1 := 1; n1 <= total; n1++ {
			r = append(r, run.Scenario{Name: fmt.Sprintf("GoPool/%v/staged/%d", l, n1), Delay: true, Max: 2, MaxDeep: 3, Body: func(e *mc.Exec) {
				w := &world{e: e, g: l.pool(), most: l.most()}
				if n1%2 == 0 { // turned off for a while
					w.g.TurnOff(true)
					w.g.TurnOff(true)
					w.g.TurnOff(false)
				}
				open := make([]bool, total)
				var at []int
				more := n1
				f := func(i int) func() {
					kind := plain
					if i%3 == 1 {
						kind = panics
					}
					return w.fn(kind, func() {
						at = append(at, i)
						e.Block("gate", func() bool { return open[i] })
					})
				}
				e.Go("S", func() {
					for i := 0; i < total; i++ {
						if i >= more {
							e.Block("later", func() bool { return i < more })
						}
						w.g.Go(f(i))
					}
				})
				done := 0
				all := func(what string) { // as many as may run do
					if want := min(more-done, l.most()); len(at) != want {
						e.Fail("%s: %d functions run, %d of %d submitted have finished, the maximum is %d", what, len(at), done, more, l.most())
					}
				}
				release := func(c int) {
					done++
					i := at[c]
					at = slices.Delete(at, c, c+1)
					open[i] = true
				}
				e.Quiesce(0)
				all("at first")
				for first := mc.Choose(3); first > 0 && len(at) > 0; first-- {
					release(mc.Choose(len(at)))
					e.Quiesce(0)
					all("after some have finished")
				}
				more = total
				e.Quiesce(0)
				all("after all were submitted")
				last := mc.Choose(2) == 1
				for len(at) > 0 {
					if last {
						release(len(at) - 1)
					} else {
						release(0)
					}
					e.Quiesce(0)
					all("at the end")
				}
				w.idle("after all functions have finished", l, false)
			}})
		}
	}
	// large pools
	for _, l := range []limits{{4, 16, 1 << 17}, {16, 16, 1 << 17}, {10, 64, 1 << 17}, {64, 10, 1 << 17}, {0, 100, 1 << 17}, {127, 129, 1 << 17}, {200, 260, 50}, {300, 300, 1 << 17}} {
		for _, extra := range []int{0, 1, 60} {
			r = append(r, run.Scenario{Name: fmt.Sprintf("GoPool/%v/large/%d", l, extra), Delay: true, MaxDeep: 1, Horizon: 4000000, Body: func(e *mc.Exec) {
				w := &world{e: e, g: l.pool(), most: l.most()}
				for round := 0; round < 2; round++ {
					open, at, n := 0, 0, l.most()+extra
					e.Go("S", func() {
						for i := 0; i < n; i++ {
							kind := plain
							if i%5 == 1 {
								kind = panics
							}
							w.g.Go(w.fn(kind, func() {
								at++
								turn := at
								e.Block("gate", func() bool { return turn <= open })
							}))
						}
					})
					e.Quiesce(0)
					if at != l.most() {
						e.Fail("round %d: %d of %d functions run, the maximum is %d", round, at, n, l.most())
					}
					for open < n {
						open++
						if open > 3 && open < n-3 && open != extra && round == 0 {
							continue
						}
						e.Quiesce(0)
						if want := min(n, l.most()+open); at != want {
							e.Fail("round %d: %d functions have started when %d have finished, the maximum is %d", round, at, open, l.most())
						}
					}
					e.Quiesce(0)
					w.idle("after all functions have finished", l, false)
				}
			}})
		}
	}
	return
}
