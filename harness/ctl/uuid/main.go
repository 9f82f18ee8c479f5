// Controlled exploration of package uuid (C21).
package main

import (
	"fmt"

	"github.com/donnie4w/gofer/uuid"
	"verif.local/v/mc"
	"verif.local/v/run"
)

func main() { run.Main(map[string]run.Maker{"C21": c21}) }

func c21(thorough bool) (r []run.Scenario) {
	for i, shape := range [][]int{{1, 1}, {2, 1}, {2, 2}, {1, 1, 1}, {3, 2}, {3, 3}, {2, 2, 2}, {1, 1, 1, 1}, {4, 4}, {2, 2, 2, 2}, {1, 1, 1, 1, 1}} {
		mx := 6
		if i > 3 {
			mx = 4
		}
		if i > 7 {
			mx = 3
		}
		r = append(r, run.Scenario{Name: fmt.Sprintf("NewUUID/%v", shape), Max: mx, Body: func(e *mc.Exec) {
			var all []uuid.UUID // copies: the goroutines share nothing
			var text []string
			for t, n := range shape {
				e.Go(fmt.Sprintf("T%d", t+1), func() {
					for i := 0; i < n; i++ {
						u := uuid.NewUUID()
						s := u.String()
						e.Yield()
						if u.Version() != 4 || u[6]>>4 != 4 || u.Variant() != 1 || u[8]>>6 != 2 {
							e.Fail("%s has version %d and variant %d", s, u[6]>>4, u[8]>>6)
						}
						if u.String() != s {
							e.Fail("UUID %s became %s", s, u)
						}
						p, err := uuid.Parse(s)
						if err != nil || *p != *u || !p.Equals(u) {
							e.Fail("Parse(%q) returned %v, %v", s, p, err)
						}
						for k, o := range all {
							if o == *u || text[k] == s {
								e.Fail("NewUUID returned %s twice", s)
							}
						}
						all = append(all, *u)
						text = append(text, s)
					}
				})
			}
			e.Join()
		}})
	}
	return
}
