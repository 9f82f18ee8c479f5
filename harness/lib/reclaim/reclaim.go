// Package reclaim finds out which of the values given to a structure it still holds.
package reclaim

import (
	"runtime"
	"weak"

	"verif.local/v/run"
)

// V is a value to store.
type V struct {
	N int
	_ [56]byte
}

// allowed is how many values a structure of at most n entries may hold on to, some of them say in freed slots.
func allowed(n int) int { return 3*n + 64 }

// Check calls do n times, each time with another value, and fails when many more of them than limit are still held
// afterwards. keep is what must stay alive.
func Check(t *run.T, what string, n, limit int, keep any, do func(i int, v *V)) {
	ws := make([]weak.Pointer[V], n)
	for i := range ws {
		v := &V{N: i}
		ws[i] = weak.Make(v)
		do(i, v)
	}
	held := 0
	for try := 0; try < 5; try++ {
		runtime.GC()
		held = 0
		for _, w := range ws {
			if w.Value() != nil {
				held++
			}
		}
		if held <= allowed(limit) {
			break
		}
	}
	runtime.KeepAlive(keep)
	if held > allowed(limit) {
		t.Fail("%s: %d of %d values are still held, and the entries are at most %d", what, held, n, limit)
	}
	t.Case(n)
}
