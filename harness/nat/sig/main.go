// Native enumeration for package gosignal (C31) with real signals sent to this process.
package main

import (
	"fmt"
	"os"
	"os/signal"
	"sync"
	"syscall"
	"time"

	"github.com/donnie4w/gofer/gosignal"
	"verif.local/v/comb"
	"verif.local/v/run"
)

func main() { run.Main(map[string]run.Maker{"C31": c31}) }

var sigs = []syscall.Signal{syscall.SIGHUP, syscall.SIGUSR1, syscall.SIGUSR2}

type lst struct {
	mu    sync.Mutex
	calls int
	got   os.Signal
	set   []os.Signal
	must  os.Signal
	any   map[os.Signal]bool
}

func (x *lst) match(s os.Signal) bool {
	for _, y := range x.set {
		if y == s {
			return true
		}
	}
	return len(x.set) == 0
}

func c31(thorough bool) (l []run.Scenario) {
	sets := [][]os.Signal{{sigs[0]}, {sigs[0], sigs[1]}, nil, {sigs[2]}}
	l = append(l, run.Scenario{Name: "nat/signals", Nat: func(t *run.T) {
		all := make(chan os.Signal, 1000)
		signal.Notify(all, sigs[0], sigs[1], sigs[2]) // without a listener they would end the process
		n := 4
		if thorough {
			n = 5
		}
		ops := len(sets) + len(sigs)
		for k := 1; k <= n; k++ {
			comb.Sequences(t, k, ops, func(seq []int) {
				var ls []*lst
				for _, o := range seq {
					if o < len(sets) {
						x := &lst{set: sets[o], any: map[os.Signal]bool{}}
						ls = append(ls, x)
						gosignal.ListenSignalEvent(func(s os.Signal) {
							x.mu.Lock()
							x.calls++
							x.got = s
							x.mu.Unlock()
						}, x.set...)
						continue
					}
					s := sigs[o-len(sets)]
					for _, x := range ls {
						if x.match(s) {
							if x.must == nil {
								x.must = s
							}
							x.any[s] = true
						}
					}
					signal.Notify(all, sigs[0], sigs[1], sigs[2])
					syscall.Kill(os.Getpid(), s)
					select {
					case g := <-all:
						if g != s {
							t.Fail("harness: %v instead of %v", g, s)
						}
					case <-time.After(20 * time.Second):
						t.Fail("harness: %v did not arrive", s)
					}
				}
				for t0 := time.Now(); ; time.Sleep(10 * time.Microsecond) {
					ok := true
					for i, x := range ls {
						x.mu.Lock()
						calls, got := x.calls, x.got
						x.mu.Unlock()
						if len(x.set) == 0 && calls == 1 && got == syscall.SIGURG {
							continue // the Go runtime sends it to itself
						}
						if calls > 1 || calls == 1 && !x.any[got] || calls == 1 && got != x.must {
							t.Fail("%v: listener %d for %v was called %d times, with %v", seq, i, x.set, calls, got)
						}
						ok = ok && (calls == 1 || x.must == nil)
						if !ok && time.Since(t0) > 20*time.Second {
							t.Fail("%v: listener %d for %v was not called although %v arrived", seq, i, x.set, x.must)
						}
					}
					if ok {
						break
					}
				}
				t.Case(len(seq))
				t.Sample("%s", fmt.Sprint(seq))
				// the listeners of this sequence get nothing more
				signal.Reset()
				signal.Notify(all, sigs[0], sigs[1], sigs[2])
			})
		}
	}})
	l = append(l, run.Scenario{Name: "nat/every-signal", Nat: func(t *run.T) {
		var nums []syscall.Signal
		for n := syscall.Signal(1); n <= 64; n++ {
			switch n {
			case syscall.SIGKILL, syscall.SIGSTOP: // cannot be caught
			case syscall.SIGILL, syscall.SIGTRAP, syscall.SIGBUS, syscall.SIGFPE, syscall.SIGSEGV, syscall.SIGABRT, syscall.SIGPROF, syscall.SIGURG, 32, 33, 34: // the runtime's own
			default:
				nums = append(nums, n)
			}
		}
		all := make(chan os.Signal, 1000)
		for i, n := range nums {
			for _, count := range []int{1, 2, 40} {
				// listeners for this signal alone, for it among others, for any signal, and for all but it
				var but []os.Signal
				for _, o := range nums {
					if o != n {
						but = append(but, o)
					}
				}
				among := []os.Signal{nums[(i+1)%len(nums)], n, nums[(i+7)%len(nums)], n}
				sets := [][]os.Signal{{n}, among, nil, but}
				signal.Notify(all)
				var ls []*lst
				for c := 0; c < count; c++ {
					for k, set := range sets {
						x := &lst{set: set}
						ls = append(ls, x)
						if k < 3 {
							x.must = n
						}
						gosignal.ListenSignalEvent(func(s os.Signal) {
							x.mu.Lock()
							x.calls++
							x.got = s
							x.mu.Unlock()
						}, set...)
					}
				}
				for again := 0; again < 2; again++ {
					syscall.Kill(os.Getpid(), n)
					for deadline := time.After(20 * time.Second); ; {
						select {
						case g := <-all:
							if g != n {
								continue // one of the runtime's, or of the terminal's
							}
						case <-deadline:
							t.Fail("harness: %v did not arrive", n)
						}
						break
					}
				}
				for t0 := time.Now(); ; time.Sleep(10 * time.Microsecond) {
					ok := true
					for k, x := range ls {
						x.mu.Lock()
						calls, got := x.calls, x.got
						x.mu.Unlock()
						if x.must == nil && calls > 0 || calls > 1 || calls == 1 && got != n && len(x.set) > 0 {
							t.Fail("signal %d (%v): listener %d for %v was called %d times, with %v", int(n), n, k, x.set, calls, got)
						}
						ok = ok && (calls == 1 || x.must == nil)
						if !ok && time.Since(t0) > 20*time.Second {
							t.Fail("signal %d (%v): listener %d of %d for %v was not called", int(n), n, k, len(ls), x.set)
						}
					}
					if ok {
						break
					}
				}
				t.Case(len(ls) + 2)
				signal.Stop(all)
				signal.Reset()
			}
		}
	}})
	return
}
