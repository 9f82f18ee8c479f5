// Package time is the standard package time on a virtual clock.
package time

import (
	real "time"

	"verif.local/v/mc"
)

var epoch = real.Unix(1700000000, 0)

func at(now int64) real.Time { return epoch.Add(real.Duration(now)) }

func Now() real.Time {
	if !mc.Det {
		return real.Now()
	}
	return at(mc.Clock())
}
func Since(t real.Time) real.Duration { return Now().Sub(t) }
func Until(t real.Time) real.Duration { return t.Sub(Now()) }

func Sleep(d real.Duration) {
	if !mc.Active() {
		real.Sleep(d)
		return
	}
	if d <= 0 {
		mc.Spin()
		mc.Point("Sleep(0)", nil)
		return
	}
	ch := make(chan real.Time, 1)
	mc.SendOnFire(int64(d), ch, at, 0)
	mc.Recv(ch)
}

type Timer struct {
	C  <-chan real.Time
	ch chan real.Time
	t  *mc.Timer
	r  *real.Timer
}

func NewTimer(d real.Duration) *Timer {
	if !mc.Active() {
		r := real.NewTimer(d)
		return &Timer{C: r.C, r: r}
	}
	ch := make(chan real.Time, 1)
	return &Timer{C: ch, ch: ch, t: mc.SendOnFire(int64(d), ch, at, 0)}
}

func (t *Timer) Stop() bool {
	if t.r != nil {
		return t.r.Stop()
	}
	if t.t == nil {
		panic("time: Stop called on uninitialized Timer")
	}
	b := t.t.Stop()
	if t.ch != nil {
		mc.Drain(t.ch)
	}
	return b
}

func (t *Timer) Reset(d real.Duration) bool {
	if t.r != nil {
		return t.r.Reset(d)
	}
	if t.t == nil {
		panic("time: Reset called on uninitialized Timer")
	}
	b := t.t.Reset(int64(d))
	if t.ch != nil {
		mc.Drain(t.ch)
	}
	return b
}

func After(d real.Duration) <-chan real.Time { return NewTimer(d).C }

func AfterFunc(d real.Duration, f func()) *Timer {
	if !mc.Active() {
		return &Timer{r: real.AfterFunc(d, f)}
	}
	return &Timer{t: mc.FuncOnFire(int64(d), f)}
}

type Ticker struct {
	C  <-chan real.Time
	ch chan real.Time
	t  *mc.Timer
	r  *real.Ticker
}

func NewTicker(d real.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	if !mc.Active() {
		r := real.NewTicker(d)
		return &Ticker{C: r.C, r: r}
	}
	ch := make(chan real.Time, 1)
	return &Ticker{C: ch, ch: ch, t: mc.SendOnFire(int64(d), ch, at, int64(d))}
}
func (t *Ticker) Stop() {
	if t.r != nil {
		t.r.Stop()
		return
	}
	t.t.Stop()
	mc.Drain(t.ch)
}
func (t *Ticker) Reset(d real.Duration) {
	if t.r != nil {
		t.r.Reset(d)
		return
	}
	t.t.Stop()
	mc.Drain(t.ch)
	t.t = mc.SendOnFire(int64(d), t.ch, at, int64(d))
}
func Tick(d real.Duration) <-chan real.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
