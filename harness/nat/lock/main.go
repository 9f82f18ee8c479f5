// Native enumeration of the keyed locks (C09) and LimitLock (C10).
package main

import (
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/donnie4w/gofer/lock"
	"verif.local/v/run"
)

func main() {
	run.Main(map[string]run.Maker{"C09": c09, "C10": c10})
}

func depth(thorough bool, a, b int) int {
	if thorough {
		return b
	}
	return a
}

func numKeys(n int) (r []int64) {
	for i := -2*n - 3; i <= 2*n+3; i++ {
		r = append(r, int64(i))
	}
	for i := 0; i < 63; i++ {
		for _, d := range []int64{-1, 0, 1} {
			r = append(r, int64(1)<<i+d, -(int64(1)<<i + d))
		}
	}
	return append(r, math.MinInt64, math.MinInt64+1, math.MaxInt64)
}

func c09(thorough bool) (r []run.Scenario) {
	// the shape of every single key: which calls exclude which
	r = append(r, run.Scenario{Name: "nat/numlock", Nat: func(t *run.T) {
		var sizes []int
		for n := 1; n <= depth(thorough, 40, 300); n++ {
			sizes = append(sizes, n)
		}
		for _, n := range append(sizes, 127, 128, 129, 255, 256, 257, 1000, 1024, 1025, 65535, 65536, 70000) {
			l := lock.NewNumLock(n)
			for _, k := range numKeys(n) {
				what := fmt.Sprintf("Numlock(%d) key %d: ", n, k)
				t.Returns(what+"Lock of a free key", 20*time.Second, func() {
					m := l.Lock(k)
					if m2, ok := l.TryLock(k); ok || m2 != nil && m2 == m {
						t.Fail("%sTryLock of a held key returned %v,%v", what, m2 != nil, ok)
					}
					if m.TryLock() {
						t.Fail("%sLock returned a mutex that is not locked", what)
					}
					l.Unlock(k)
					m2, ok := l.TryLock(k)
					if !ok || m2 == nil {
						t.Fail("%sTryLock of a free key returned %v,%v", what, m2, ok)
					}
					if m2 != m {
						t.Fail("%sTryLock returned another mutex than Lock", what)
					}
					l.Unlock(k)
					if m2, ok = l.TryLock(k); !ok {
						t.Fail("%sthe key is still locked after Unlock", what)
					}
					m2.Unlock()
				})
				t.Case(6)
			}
			// holding any key, every key can still be tried without blocking, and none is left locked
			for _, h := range numKeys(n)[:5] {
				l.Lock(h)
				for _, k := range numKeys(n) {
					if m, ok := l.TryLock(k); ok {
						if m == nil {
							t.Fail("Numlock(%d): TryLock(%d) returned true without a mutex", n, k)
						}
						if k == h {
							t.Fail("Numlock(%d): TryLock(%d) succeeded on a held key", n, k)
						}
						l.Unlock(k)
					}
				}
				l.Unlock(h)
				t.Case(2)
			}
			for _, k := range numKeys(n) {
				if _, ok := l.TryLock(k); !ok {
					t.Fail("Numlock(%d): key %d is locked though nobody holds anything", n, k)
				}
				l.Unlock(k)
			}
		}
	}})
	r = append(r, run.Scenario{Name: "nat/strlock", Nat: func(t *run.T) {
		for _, n := range []int{1, 2, 3, 7, 16, 64, 1000, 70000} {
			l := lock.NewStrlock(n)
			var keys []string
			keys = append(keys, "", strings.Repeat("x", 5000), "\x00", "\xff\xfe", "日本")
			for i := 0; i < 256; i++ {
				keys = append(keys, string([]byte{byte(i)}))
			}
			for i := 0; i < depth(thorough, 1<<11, 1<<16); i++ {
				keys = append(keys, string([]byte{byte(i), byte(i >> 8)}))
			}
			for _, z := range []int{63, 64, 65, 255, 256, 257, 1023, 1024, 1025, 65535, 65536, 65537, 1<<20 + 1, 1 << 24} {
				keys = append(keys, strings.Repeat("k", z), strings.Repeat("\x00", z-1)+"\x01")
			}
			for _, k := range keys {
				what := fmt.Sprintf("Strlock(%d) key %q: ", n, k)
				t.Returns(what+"Lock of a free key", 20*time.Second, func() {
					m := l.Lock(k)
					if _, ok := l.TryLock(k); ok {
						t.Fail("%sTryLock of a write-held key succeeded", what)
					}
					if _, ok := l.TryRLock(k); ok {
						t.Fail("%sTryRLock of a write-held key succeeded", what)
					}
					if m.TryRLock() {
						t.Fail("%sLock returned a mutex that is not locked", what)
					}
					l.Unlock(k)
					m1 := l.RLock(k)
					if m1.TryLock() {
						t.Fail("%sRLock returned a mutex that is not locked", what)
					}
					if _, ok := l.TryLock(k); ok {
						t.Fail("%sTryLock of a read-held key succeeded", what)
					}
					m2, ok := l.TryRLock(k)
					if !ok {
						t.Fail("%sTryRLock of a read-held key failed", what)
					}
					l.RUnlock(k)
					if _, ok := l.TryLock(k); ok {
						t.Fail("%sTryLock succeeded with a reader left", what)
					}
					m1.RUnlock()
					m3, ok := l.TryLock(k)
					if !ok {
						t.Fail("%sTryLock of a free key failed", what)
					}
					if m != m1 || m1 != m2 || m2 != m3 {
						t.Fail("%sthe calls returned different mutexes", what)
					}
					l.Unlock(k)
				})
				t.Case(10)
			}
		}
	}})
	return
}

func c10(thorough bool) (r []run.Scenario) {
	r = append(r, run.Scenario{Name: "nat/limits", Nat: func(t *run.T) {
		var limits []int
		for n := 1; n <= depth(thorough, 60, 400); n++ {
			limits = append(limits, n)
		}
		for _, n := range append(limits, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4097, 10001, 70000) {
			l := lock.NewLimitLock(n, time.Minute)
			t.Returns(fmt.Sprintf("%d Locks with limit %d", n, n), 30*time.Second, func() {
				count := int64(0)
				for round := 0; round < 3; round++ {
					for i := 0; i < n; i++ {
						if err := l.Lock(); err != nil {
							t.Fail("limit %d: Lock %d: %v", n, i+1, err)
						}
						count++
						if l.Cc() != int64(i+1) || l.LockCount() != count {
							t.Fail("limit %d: after %d Locks, %d held, Cc is %d, LockCount %d", n, count, i+1, l.Cc(), l.LockCount())
						}
					}
					for i := n; i > 0; i-- {
						l.Unlock()
						if l.Cc() != int64(i-1) || l.LockCount() != count {
							t.Fail("limit %d: with %d held Cc is %d, LockCount %d want %d", n, i-1, l.Cc(), l.LockCount(), count)
						}
					}
				}
			})
			t.Case(6 * n)
		}
		for n := 1; n <= 5; n++ {
			l := lock.NewLimitLock(n, 20*time.Millisecond)
			for i := 0; i < n; i++ {
				l.Lock()
			}
			t0 := time.Now()
			if err := l.Lock(); err == nil {
				t.Fail("limit %d: Lock %d succeeded", n, n+1)
			}
			if d := time.Since(t0); d < 20*time.Millisecond {
				t.Fail("limit %d: timed out after %v", n, d)
			}
			if l.Cc() != int64(n) || l.LockCount() != int64(n) {
				t.Fail("limit %d: a Lock that timed out counts: Cc %d, LockCount %d", n, l.Cc(), l.LockCount())
			}
			t.Case(n + 1)
		}
	}})
	return
}
