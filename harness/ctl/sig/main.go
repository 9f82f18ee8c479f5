// Controlled exploration of package gosignal (C31).
package main

import (
	"fmt"
	"os"
	"strings"
	"syscall"

	"github.com/donnie4w/gofer/gosignal"
	"verif.local/v/mc"
	"verif.local/v/run"
	"verif.local/v/shim/signal"
)

func main() { run.Main(map[string]run.Maker{"C31": c31}) }

var sigs = map[byte]os.Signal{'h': syscall.SIGHUP, 'i': syscall.SIGINT, 't': syscall.SIGTERM, 'u': syscall.SIGUSR1}

func list(s string) (l []os.Signal) {
	for i := range s {
		l = append(l, sigs[s[i]])
	}
	return
}

// listener l registers for the signals in set ("*": none named); after is what its callback does: "": return,
// "p": wait until everything else is done (a long callback), "l": register another listener for the same set.
type listener struct{ set, do string }

// threads: each is a script of upper case registrations (index of the listener) and lower case arrivals.
type setup struct {
	ls      []listener
	threads []string
}

func (s setup) name() string {
	var l []string
	for _, x := range s.ls {
		n := x.set
		if x.do != "" {
			n += "!" + x.do
		}
		l = append(l, n)
	}
	return fmt.Sprintf("listeners %s scripts %s", strings.Join(l, ","), strings.Join(s.threads, "|"))
}

type state struct {
	reg   bool // ListenSignalEvent has returned
	begun bool // it was called
	calls int
	got   os.Signal
	must  os.Signal          // the first matching signal that arrived after the registration had returned
	may   map[os.Signal]bool // arrived since the registration began
	hold  bool
}

func (l listener) match(sg os.Signal) bool {
	if l.set == "*" {
		return true
	}
	for i := range l.set {
		if sigs[l.set[i]] == sg {
			return true
		}
	}
	return false
}

func run1(e *mc.Exec, s setup) {
	var st []*state
	var ls []listener
	release := false
	add := func(l listener) *state {
		x := &state{may: map[os.Signal]bool{}}
		st, ls = append(st, x), append(ls, l)
		return x
	}
	var register func(l listener, x *state)
	register = func(l listener, x *state) {
		x.begun = true
		var named []os.Signal
		if l.set != "*" {
			named = list(l.set)
		}
		gosignal.ListenSignalEvent(func(sg os.Signal) {
			x.calls++
			if x.calls > 1 {
				e.Fail("the callback of listener %s was called %d times", l.set, x.calls)
			}
			x.got = sg
			if !l.match(sg) {
				e.Fail("the callback of listener %s was called with %v", l.set, sg)
			}
			if !x.may[sg] {
				e.Fail("the callback of listener %s was called with %v, which did not arrive", l.set, sg)
			}
			switch l.do {
			case "p":
				x.hold = true
				e.Block("long callback", func() bool { return release })
			case "l":
				n := listener{set: l.set}
				register(n, add(n))
			}
		}, named...)
		for i := range named {
			named[i] = nil // the caller's slice is his own
		}
		x.reg = true
	}
	for _, l := range s.ls {
		add(l)
	}
	for i, script := range s.threads {
		e.Go(fmt.Sprintf("t%d", i), func() {
			for _, o := range []byte(script) {
				if o >= '0' && o <= '9' {
					register(ls[o-'0'], st[o-'0'])
					continue
				}
				sg := sigs[o]
				signal.Deliver(sg, func() {
					for k, x := range st {
						if x.reg && x.must == nil && ls[k].match(sg) {
							x.must = sg
						}
						if ls[k].match(sg) {
							x.may[sg] = true
						}
					}
				})
			}
		})
	}
	e.Quiesce(0)
	if b := e.Blocked(); len(b) > 0 {
		e.Fail("never returned: %v", b)
	}
	for i, x := range st {
		switch {
		case x.must != nil && x.calls != 1:
			e.Fail("%v arrived after listener %s was registered, its callback was called %d times", x.must, ls[i].set, x.calls)
		case x.begun && !x.reg:
			e.Fail("ListenSignalEvent did not return")
		}
	}
	release = true
	e.Quiesce(0)
	// more arrivals do not call it again
	for _, sg := range []os.Signal{syscall.SIGHUP, syscall.SIGINT, syscall.SIGTERM, syscall.SIGUSR1} {
		signal.Deliver(sg, func() {
			for k, x := range st {
				if ls[k].match(sg) {
					x.may[sg] = true
				}
			}
		})
		e.Quiesce(0)
	}
	for i, x := range st {
		if i < len(s.ls) && x.calls != 1 && x.reg && ls[i].match(syscall.SIGHUP) {
			e.Fail("the callback of listener %s was called %d times", ls[i].set, x.calls)
		}
	}
}

func c31(thorough bool) (l []run.Scenario) {
	add := func(s setup) {
		l = append(l, run.Scenario{Name: s.name(), Max: 4, MaxDeep: 8, Body: func(e *mc.Exec) { run1(e, s) }})
	}
	sets := []string{"h", "hi", "*", "t"}
	scripts1 := [][]string{{"0"}, {"0h"}, {"h0"}, {"0", "h"}, {"0hh"}, {"0hi"}, {"0ih"}, {"0tuh"}, {"0", "hi"}, {"0", "h", "i"}, {"0", "uh"}, {"0h", "h"}, {"0h", "i"}, {"0hih"}, {"0", "hit"}}
	for _, a := range sets {
		for _, do := range []string{"", "p", "l"} {
			for _, sc := range scripts1 {
				add(setup{[]listener{{a, do}}, sc})
			}
		}
	}
	scripts2 := [][]string{{"01h"}, {"0h1h"}, {"0", "1h"}, {"0", "1", "h"}, {"01hi"}, {"0", "1", "hi"}, {"0i", "1h"}, {"01", "h", "i"}, {"0h", "1i"}}
	for _, a := range sets {
		for _, b := range sets {
			for _, do := range [][2]string{{"", ""}, {"p", ""}, {"l", "p"}} {
				for _, sc := range scripts2 {
					add(setup{[]listener{{a, do[0]}, {b, do[1]}}, sc})
				}
			}
		}
	}
	for _, x := range [][3]string{{"h", "h", "h"}, {"h", "i", "*"}, {"*", "*", "hi"}, {"h", "hi", "t"}} {
		for _, sc := range [][]string{{"012h"}, {"012hi"}, {"0", "1", "2h"}, {"012", "h", "i"}, {"0h1h2h"}, {"012hit"}} {
			add(setup{[]listener{{set: x[0]}, {set: x[1]}, {set: x[2]}}, sc})
		}
	}
	return
}
