// Controlled exploration of package fastio (C15, C16).
package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/donnie4w/gofer/fastio"
	"verif.local/v/mc"
	"verif.local/v/run"
	"verif.local/v/shim/os"
	"verif.local/v/shim/time"
)

func main() {
	run.Main(map[string]run.Maker{"C15": c15, "C16": c16})
}

const file = "/tmp/f"

// one write call and what became of it
type wr struct {
	who, seq int
	data     string
	sync     bool
	off      int64
	n        int
	err      error
	done     bool
}

type world struct {
	e    *mc.Exec
	f    fastio.File
	ws   []*wr
	pre  string
	most int // bytes of a long write
}

// open opens the file with the given content, for appending or not.
func open(e *mc.Exec, pre string, app bool) fastio.File {
	if pre != "" {
		os.Disk().Put(file, pre)
	}
	if app {
		f, err := fastio.Open(file)
		if err != nil {
			e.Fail("Open: %v", err)
		}
		return f
	}
	h, err := os.OpenFile(file, os.O_RDWR|os.O_CREATE, 0666)
	if err != nil {
		e.Fail("OpenFile: %v", err)
	}
	f, err := fastio.New(h)
	if err != nil {
		e.Fail("New: %v", err)
	}
	return f
}

func content() string { c, _ := os.Disk().Content(file); return c }

// chunk makes bytes that occur nowhere else.
func chunk(who, seq, size int) string {
	s := fmt.Sprintf("<%c%d", 'a'+who, seq)
	if size > len(s)+1 {
		s += strings.Repeat(string(rune('a'+who)), size-len(s)-1)
	}
	return s + ">"
}

func (w *world) write(who, seq, size int, sync bool) *wr {
	r := &wr{who: who, seq: seq, data: chunk(who, seq, size), sync: sync}
	if size == 0 {
		r.data = ""
	}
	w.ws = append(w.ws, r)
	b := []byte(r.data)
	if sync {
		r.off, r.err = w.f.WriteSync(b)
		if r.err == nil {
			w.placed(r, "when WriteSync returned")
		}
	} else {
		r.n, r.err = w.f.Write(b)
		if r.err == nil && r.n != len(b) {
			w.e.Fail("Write of %d bytes returned %d without an error", len(b), r.n)
		}
	}
	for i := range b {
		b[i] = '#' // the slice is the caller's again
	}
	r.done = true
	return r
}

func brief(s string) string {
	if len(s) > 120 {
		return fmt.Sprintf("%q... (%d bytes)", s[:120], len(s))
	}
	return fmt.Sprintf("%q", s)
}

func (w *world) placed(r *wr, when string) {
	c := content()
	if r.off < 0 || int(r.off)+len(r.data) > len(c) || c[r.off:int(r.off)+len(r.data)] != r.data {
		w.e.Fail("WriteSync(%s) returned offset %d, but %s the file is %s", brief(r.data), r.off, when, brief(c))
	}
}

// whole checks that the file is the old content and then every acknowledged write once, contiguous, in order.
func (w *world) whole(lax bool) {
	c := content()
	if !strings.HasPrefix(c, w.pre) {
		w.e.Fail("the previous content %q was changed: %s", w.pre, brief(c))
	}
	rest := c[len(w.pre):]
	at := map[*wr]int{}
	total := 0
	for _, r := range w.ws {
		if r.data == "" {
			continue
		}
		n := strings.Count(rest, r.data)
		if r.err == nil && n != 1 || n > 1 {
			w.e.Fail("the bytes of write %s (error %v) are %d times in the file: %s", brief(r.data), r.err, n, brief(c))
		}
		if n == 1 {
			at[r] = strings.Index(rest, r.data)
			total += len(r.data)
		}
		if r.sync && r.err == nil {
			w.placed(r, "at the end")
		}
	}
	if total != len(rest) && !lax {
		w.e.Fail("the file has %d bytes more than were written: %s", len(rest)-total, brief(c))
	}
	for i, a := range w.ws {
		for _, b := range w.ws[i+1:] {
			pa, oa := at[a]
			pb, ob := at[b]
			if oa && ob && a.who == b.who && (a.seq < b.seq) != (pa < pb) {
				w.e.Fail("writes %s and %s of one goroutine are in the wrong order: %s", brief(a.data), brief(b.data), brief(c))
			}
		}
	}
}

func (w *world) noErr() {
	for _, r := range w.ws {
		if r.err != nil {
			w.e.Fail("write %s failed: %v", brief(r.data), r.err)
		}
	}
}

// again writes once more, alone.
func (w *world) again(who int) {
	for i := 0; i < 2; i++ {
		if r := w.write(who, i, 5, i == 1); r.err != nil {
			w.e.Fail("a later write fails: %v", r.err)
		}
	}
}

// queue makes the first write to the file last until n others that start 10 ns after each other are
// under way, and then until one of them, any, is about to try for the next time.
func queue(n int) {
	first := true
	os.Disk().Gate = func() {
		if first {
			first = false
			time.Sleep(1996 + time.Duration(mc.Choose(n+1))*10)
		}
	}
}

func app(a bool) string {
	if a {
		return "append"
	}
	return "plain"
}

func c15(thorough bool) (r []run.Scenario) {
	shapes := [][]int{{1, 1}, {2, 1}, {2, 2}, {1, 1, 1}, {3, 1}, {2, 1, 1}, {1, 1, 1, 1}}
	mx := []int{4, 4, 3, 3, 3, 2, 2}
	for si, shape := range shapes {
		for k, pre := range []string{"", "old"} {
			for v, big := range []int{0, 5000, 70000} {
				if big > 0 && si > 3 {
					continue
				}
				a := (si+k+v)%2 == 0
				r = append(r, run.Scenario{Name: fmt.Sprintf("fastio/write/%v/%q/%s/%d", shape, pre, app(a), big), Max: mx[si], Body: func(e *mc.Exec) {
					w := &world{e: e, f: open(e, pre, a), pre: pre}
					first := true
					for who, n := range shape {
						var sync []bool
						for i := 0; i < n; i++ {
							sync = append(sync, mc.Choose(2) == 0)
						}
						long := first && big > 0
						first = false
						e.Go(fmt.Sprintf("W%d", who+1), func() {
							for i, s := range sync {
								size := 4 + who + i
								if long && i == 0 {
									size = big
								}
								w.write(who, i, size, s)
							}
						})
					}
					e.Join()
					w.noErr()
					w.whole(false)
					e.Calm = true
					w.again(20)
					w.whole(false)
					if err := w.f.Close(); err != nil {
						e.Fail("Close: %v", err)
					}
					w.whole(false)
					w.f = open(e, "", a)
					w.again(21)
					w.whole(false)
				}})
			}
		}
	}
	// many goroutines
	for _, n := range []int{5, 20, 40, 70, 150, 300} {
		for kind, a := range []bool{true, false, true, false} {
			r = append(r, run.Scenario{Name: fmt.Sprintf("fastio/many/%d/%s/%d", n, app(a), kind), MaxDeep: 1, Delay: true, Horizon: 400000, Body: func(e *mc.Exec) {
				e.Reverse = kind > 1 // the latest goroutines go first
				w := &world{e: e, f: open(e, "old", a), pre: "old"}
				first := 0
				if kind == 2 {
					first = 70000
				}
				for who := 0; who < n; who++ {
					e.Go(fmt.Sprintf("W%d", who+1), func() {
						for i := 0; i < 2; i++ {
							size := 4 + who%5
							if who == n/2 && i == 0 {
								size = first
							}
							w.write(who, i, size, (kind+who+i)%3 == 0)
						}
					})
				}
				e.Join()
				w.noErr()
				w.whole(false)
			}})
		}
	}
	// several long writes at once, the first or the last goroutine going first
	for _, size := range []int{65537, 600 << 10, 1200 << 10, 5 << 20} {
		for _, n := range []int{3, 4} {
			for _, reverse := range []bool{false, true} {
				mx := 2
				if size > 1<<20 {
					mx = 1
				}
				r = append(r, run.Scenario{Name: fmt.Sprintf("fastio/long/%d/%d/reverse=%v", size, n, reverse), Max: mx, MaxDeep: mx + 1, Delay: true, Body: func(e *mc.Exec) {
					e.Reverse = reverse
					w := &world{e: e, f: open(e, "old", true), pre: "old"}
					for who := 0; who < n; who++ {
						e.Go(fmt.Sprintf("W%d", who+1), func() { w.write(who, 0, size+who, who%2 == 0) })
					}
					e.Join()
					w.noErr()
					w.whole(false)
					e.Calm = true
					w.again(20)
					w.whole(false)
				}})
			}
		}
	}
	// a write takes long, and those that queue meanwhile are looked after by any of them, the first, the last, ...
	for _, n := range []int{3, 5, 8, 12} {
		for _, size := range []int{5, 600 << 10} {
			mx := 1
			if n > 5 || size > 100 {
				mx = 0
			}
			r = append(r, run.Scenario{Name: fmt.Sprintf("fastio/queue/%d/%d", n, size), Max: mx, MaxDeep: 1, Delay: true, Body: func(e *mc.Exec) {
				w := &world{e: e, f: open(e, "old", true), pre: "old"}
				queue(n)
				for who := 0; who <= n; who++ {
					e.Go(fmt.Sprintf("W%d", who), func() {
						time.Sleep(time.Duration(who) * 10)
						w.write(who, 0, size+who, who%2 == 0)
					})
				}
				e.Join()
				w.noErr()
				w.whole(false)
				e.Calm = true
				w.again(25)
				w.whole(false)
			}})
		}
	}
	// an empty write among others
	for _, s := range []bool{true, false} {
		r = append(r, run.Scenario{Name: fmt.Sprintf("fastio/empty/%v", s), Max: 3, Body: func(e *mc.Exec) {
			w := &world{e: e, f: open(e, "xy", s), pre: "xy"}
			for who := 0; who < 3; who++ {
				e.Go(fmt.Sprintf("W%d", who+1), func() {
					size := 4
					if who == 1 {
						size = 0
					}
					w.write(who, 0, size, s || who == 2)
				})
			}
			e.Join()
			w.noErr()
			w.whole(false)
		}})
	}
	// the file is closed once writers have got their answers, while others still write
	for si, shape := range [][]int{{1}, {1, 1}, {2}, {2, 1}, {1, 1, 1}} {
		r = append(r, run.Scenario{Name: fmt.Sprintf("fastio/close/%v", shape), Max: 4 - si/2, Body: func(e *mc.Exec) {
			w := &world{e: e, f: open(e, "old", true), pre: "old"}
			for who, n := range shape {
				sync := mc.Choose(2) == 0
				e.Go(fmt.Sprintf("W%d", who+1), func() {
					for i := 0; i < n; i++ {
						w.write(who, i, 4+i, sync)
					}
				})
			}
			e.Go("C", func() {
				acked := append([]*wr(nil), w.ws...)
				done := make([]bool, len(acked))
				for i, x := range acked {
					done[i] = x.done
				}
				w.f.Close()
				c := content()
				for i, x := range acked {
					if done[i] && x.err == nil && strings.Count(c, x.data) != 1 {
						e.Fail("write %s was acknowledged, but after Close the file is %s", brief(x.data), brief(c))
					}
				}
			})
			e.Join()
			w.whole(false)
			for _, x := range w.ws {
				if x.err != nil && !errors.Is(x.err, os.ErrClosed) {
					e.Fail("write %s: %v", brief(x.data), x.err)
				}
			}
		}})
	}
	// reads and, on a file that is not opened for appending, writes at a position, next to appending writers
	for _, a := range []bool{true, false} {
		for _, n := range []int{1, 2} {
			r = append(r, run.Scenario{Name: fmt.Sprintf("fastio/at/%s/%d", app(a), n), Max: 4, MaxDeep: 5, Body: func(e *mc.Exec) {
				pre := "0123456789"
				w := &world{e: e, f: open(e, pre, a), pre: pre}
				for who := 0; who < n; who++ {
					s := mc.Choose(2) == 0
					e.Go(fmt.Sprintf("W%d", who+1), func() {
						for i := 0; i < 2; i++ {
							w.write(who, i, 4+who, s)
							if i == 0 && s {
								x := w.ws[0]
								for _, y := range w.ws {
									if y.who == who {
										x = y
									}
								}
								b := make([]byte, len(x.data))
								if k, err := w.f.ReadAt(b, x.off); k != len(b) || string(b) != x.data || err != nil && k < len(b) {
									e.Fail("ReadAt of what WriteSync wrote returned %d, %v: %q instead of %q", k, err, b, x.data)
								}
							}
						}
					})
				}
				from, ln := mc.Choose(3)*4, 1+mc.Choose(2)
				if a {
					e.Go("R", func() {
						b := make([]byte, ln)
						if k, err := w.f.ReadAt(b, int64(from)); k != ln || string(b) != pre[from:from+ln] {
							e.Fail("ReadAt(%d bytes, %d) returned %d, %v: %q", ln, from, k, err, b)
						}
					})
				} else {
					e.Go("A", func() {
						x := "XY"[:ln]
						if k, err := w.f.WriteAt([]byte(x), int64(from)); k != ln || err != nil {
							e.Fail("WriteAt(%q, %d) returned %d, %v", x, from, k, err)
						}
						w.pre = pre[:from] + x + pre[from+ln:]
						b := make([]byte, ln)
						if k, _ := w.f.ReadAt(b, int64(from)); k != ln || string(b) != x {
							e.Fail("ReadAt(%d bytes, %d) after WriteAt returned %q", ln, from, b)
						}
					})
				}
				e.Join()
				w.noErr()
				w.whole(false)
				e.Calm = true
				w.again(20)
				w.whole(false)
				b := make([]byte, len(content()))
				if k, _ := w.f.ReadAt(b, 0); k != len(b) || string(b) != content() {
					e.Fail("ReadAt of the whole file returned %d bytes", k)
				}
				if k, err := w.f.ReadAt(b, 2); k != len(b)-2 || err == nil {
					e.Fail("ReadAt beyond the end returned %d, %v", k, err)
				}
			}})
		}
	}
	return
}

var errDisk = errors.New("disk fault")

func c16(thorough bool) (r []run.Scenario) {
	// a fault while many goroutines write
	for _, n := range []int{5, 20, 70, 150, 300} {
		for kind, a := range []bool{true, false} {
			for after := 0; after < 3; after++ {
				r = append(r, run.Scenario{Name: fmt.Sprintf("fastio/many/%d/%s/after %d", n, app(a), after), MaxDeep: 1, Delay: true, Horizon: 400000, Body: func(e *mc.Exec) {
					e.Reverse = after == 1
					w := &world{e: e, f: open(e, "old", a), pre: "old"}
					how, k := mc.Choose(3), 0
					os.Disk().WriteHook = func(name string, n int) (int, error) {
						k++
						switch {
						case k != after+1 || n == 0:
							return n, nil
						case how == 0:
							return 0, errDisk
						case how == 1:
							return n / 2, errDisk
						}
						return n - 1, nil
					}
					for who := 0; who < n; who++ {
						e.Go(fmt.Sprintf("W%d", who+1), func() { w.write(who, 0, 4+who%5, (kind+who)%3 != 0) })
					}
					e.Join()
					w.whole(true)
					os.Disk().WriteHook = nil
					w.again(n + 20)
					w.whole(true)
				}})
			}
		}
	}
	// a fault while a queue is written
	for _, n := range []int{3, 5, 8} {
		r = append(r, run.Scenario{Name: fmt.Sprintf("fastio/queue/%d", n), Max: 1 - n/8, MaxDeep: 1, Delay: true, Body: func(e *mc.Exec) {
			w := &world{e: e, f: open(e, "old", true), pre: "old"}
			queue(n)
			after, how, k := mc.Choose(3), mc.Choose(4), 0
			os.Disk().WriteHook = func(name string, m int) (int, error) {
				k++
				switch {
				case k != after+1 || m == 0:
					return m, nil
				case how == 0:
					return 0, errDisk
				case how == 1:
					return m / 2, errDisk
				case how == 2:
					return m - 5, errDisk
				}
				return m - 1, nil
			}
			for who := 0; who <= n; who++ {
				e.Go(fmt.Sprintf("W%d", who), func() {
					time.Sleep(time.Duration(who) * 10)
					w.write(who, 0, 5+who, who%2 == 0)
				})
			}
			e.Join()
			w.whole(true)
			os.Disk().WriteHook = nil
			w.again(n + 20)
			w.whole(true)
		}})
	}
	shapes := [][]int{{1}, {1, 1}, {2, 1}, {1, 1, 1}, {2}, {3}, {2, 2}, {2, 1, 1}, {1, 1, 1, 1}}
	mx := []int{5, 5, 4, 3, 5, 5, 3, 2, 2}
	for si, shape := range shapes {
		for _, a := range []bool{true, false} {
			for faults := 1; faults <= 2; faults++ {
				for _, kind := range []string{"sync", "mixed"} {
					m := mx[si]
					if faults == 2 {
						m--
					}
					r = append(r, run.Scenario{Name: fmt.Sprintf("fastio/fault/%v/%s/%d/%s", shape, app(a), faults, kind), Max: m, Body: func(e *mc.Exec) {
						w := &world{e: e, f: open(e, "old", a), pre: "old"}
						left := faults
						after := mc.Choose(3) // writes before the first fault
						os.Disk().WriteHook = func(name string, n int) (int, error) {
							if after > 0 {
								after--
								return n, nil
							}
							if left == 0 || n == 0 {
								return n, nil
							}
							left--
							switch mc.Choose(5) {
							case 0:
								return n, nil
							case 1:
								return 0, errDisk
							case 2:
								return n / 2, errDisk
							case 3:
								return n - 1, errDisk
							}
							return n - 1, nil
						}
						for who, n := range shape {
							var sync []bool
							for i := 0; i < n; i++ {
								sync = append(sync, kind == "sync" || mc.Choose(2) == 0)
							}
							e.Go(fmt.Sprintf("W%d", who+1), func() {
								for i, s := range sync {
									w.write(who, i, 4+who+i, s)
								}
							})
						}
						e.Join()
						w.whole(true)
						os.Disk().WriteHook = nil
						e.Calm = true
						w.again(20)
						w.whole(true)
						// and several at once
						for who := 21; who < 24; who++ {
							e.Go(fmt.Sprintf("V%d", who), func() { w.write(who, 0, 5, who != 22) })
						}
						e.Join()
						for _, x := range w.ws {
							if x.who >= 20 && x.err != nil {
								e.Fail("a write after the fault fails: %v", x.err)
							}
						}
						w.whole(true)
					}})
				}
			}
		}
	}
	return
}
