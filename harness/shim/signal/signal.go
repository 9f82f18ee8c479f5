// Package signal is os/signal with deliveries made by the scenario.
package signal

import (
	"context"
	"os"

	"verif.local/v/mc"
	vctx "verif.local/v/shim/context"
)

type reg struct {
	c    chan<- os.Signal
	all  bool
	sigs map[os.Signal]bool
	not  map[os.Signal]bool // named by Reset or Ignore since
}

var regs []*reg
var obj int
var ep uint64

func init() { mc.OnReset(func() { regs = nil }) }

func o() mc.Foot {
	if ep != mc.Epoch() {
		ep = mc.Epoch()
		obj = mc.E.NewObj()
	}
	return mc.Foot{Obj: obj, W: true}
}

func find(c chan<- os.Signal) *reg {
	for _, r := range regs {
		if r.c == c {
			return r
		}
	}
	return nil
}

func Notify(c chan<- os.Signal, sigs ...os.Signal) {
	if c == nil {
		panic("os/signal: Notify using nil channel")
	}
	if mc.Active() {
		mc.Point("signal.Notify", nil, o())
	}
	r := find(c)
	if r == nil {
		r = &reg{c: c, sigs: map[os.Signal]bool{}, not: map[os.Signal]bool{}}
		regs = append(regs, r)
	}
	if len(sigs) == 0 {
		r.all, r.not = true, map[os.Signal]bool{}
	}
	for _, s := range sigs {
		r.sigs[s] = true
	}
}

func Stop(c chan<- os.Signal) {
	if mc.Active() {
		mc.Point("signal.Stop", nil, o())
	}
	for i, r := range regs {
		if r.c == c {
			regs = append(regs[:i:i], regs[i+1:]...)
			return
		}
	}
}

func (r *reg) wants(s os.Signal) bool { return r.sigs[s] || r.all && !r.not[s] }

func cancel(what string, sigs []os.Signal) {
	if mc.Active() {
		mc.Point(what, nil, o())
	}
	if len(sigs) == 0 {
		regs = nil
	}
	for _, r := range regs {
		for _, s := range sigs {
			delete(r.sigs, s)
			r.not[s] = true
		}
	}
}

func Ignore(sigs ...os.Signal) { cancel("signal.Ignore", sigs) }
func Reset(sigs ...os.Signal)  { cancel("signal.Reset", sigs) }
func Ignored(sig os.Signal) bool {
	for _, r := range regs {
		if r.wants(sig) {
			return false
		}
	}
	return true
}

// NotifyContext is like the standard function.
func NotifyContext(parent context.Context, sigs ...os.Signal) (context.Context, context.CancelFunc) {
	ctx, cancel := vctx.WithCancel(parent)
	c := make(chan os.Signal, 1)
	Notify(c, sigs...)
	mc.Go(func() {
		r := mc.CRecv(c)
		d := mc.CRecv(ctx.Done())
		if mc.Select(false, r, d) == 0 {
			cancel()
		}
	})
	return ctx, func() { cancel(); Stop(c) }
}

// Deliver is the arrival of a signal at the process; it returns how many listeners are registered for it.
// The moment of the arrival is when now is called.
func Deliver(s os.Signal, now func()) int {
	mc.Point("signal "+s.String(), nil, mc.Foot{Obj: -1, W: true})
	now()
	n := 0
	for _, r := range regs {
		if r.wants(s) {
			n++
			mc.Inject(r.c, s)
		}
	}
	return n
}
