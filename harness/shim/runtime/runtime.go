// Package runtime is the standard package runtime under the controlled scheduler.
package runtime

import (
	real "runtime"

	"verif.local/v/mc"
)

func Gosched() {
	if mc.Active() {
		mc.Spin()
		mc.Point("Gosched", nil)
		return
	}
	real.Gosched()
}
func NumCPU() int          { return 4 }
func GOMAXPROCS(n int) int { return 4 }
func NumGoroutine() int {
	if mc.Active() {
		return mc.E.Live() + 1
	}
	return real.NumGoroutine()
}
func Goexit() { real.Goexit() }
