// Controlled exploration of the credential store (C26), of crashes and faults during its writes (C27), and of
// goroutines sharing an Aes (C25), on the in-memory file system.
package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/donnie4w/gofer/keystore"
	"verif.local/v/comb"
	"verif.local/v/lib/kmodel"
	"verif.local/v/mc"
	"verif.local/v/run"
	"verif.local/v/shim/os"
)

func main() { run.Main(map[string]run.Maker{"C25": c25, "C26": c26, "C27": c27}) }

// ks is a key store.
type ks interface {
	Write(bs []byte) error
	Read() ([]byte, error)
}

const dir, name = "/data/keys", "store"

func open(fail func(f string, a ...any)) ks {
	k, err := keystore.NewKeyStore(dir, name)
	if err != nil {
		fail("NewKeyStore: %v", err)
	}
	return k
}

// fresh opens the key store and loads a new storeAdmin from it.
func fresh(fail func(f string, a ...any)) kmodel.Store {
	k, err := keystore.NewKeyStore(dir, name)
	if err != nil {
		fail("NewKeyStore: %v", err)
	}
	keystore.KeyStore = k
	s := keystore.NewStoreAdmin()
	s.Load()
	return s
}

func def(op string, a kmodel.In) comb.Def[kmodel.Store] {
	return comb.Def[kmodel.Store]{Name: op, In: a, Do: func(s kmodel.Store) any { return kmodel.Apply(s, op, a) }}
}

func c26(thorough bool) (r []run.Scenario) {
	var full, two, one []comb.Def[kmodel.Store]
	for _, m := range []byte("ACMO") {
		full = append(full, def("put", kmodel.In{M: m, N: "a", V: "p", T: 1}), def("put", kmodel.In{M: m, N: "a", V: "q", T: 2}), def("del", kmodel.In{M: m, N: "a"}), def("get", kmodel.In{M: m, N: "a"}), def("list", kmodel.In{M: m}))
	}
	one = []comb.Def[kmodel.Store]{def("put", kmodel.In{M: 'A', N: "a", V: "p", T: 1}), def("put", kmodel.In{M: 'A', N: "a", V: "q", T: 2}), def("put", kmodel.In{M: 'A', N: "b", V: "p", T: 3}), def("del", kmodel.In{M: 'A', N: "a"}), def("get", kmodel.In{M: 'A', N: "a"}), def("list", kmodel.In{M: 'A'})}
	for _, m := range []byte("CMO") {
		two = append(two, def("put", kmodel.In{M: m, N: "a", V: "p", T: 1}), def("del", kmodel.In{M: m, N: "a"}), def("get", kmodel.In{M: m, N: "a"}))
	}
	models := func(name string, ops []comb.Def[kmodel.Store], setup []comb.Def[kmodel.Store], shapes ...[]int) {
		var final []comb.Def[kmodel.Store]
		for _, m := range []byte("ACMO") {
			final = append(final, def("get", kmodel.In{M: m, N: "a"}), def("list", kmodel.In{M: m}))
		}
		m := comb.Model[kmodel.Store]{Name: name, New: func() kmodel.Store { return fresh(mc.E.Fail) }, Setup: setup, Ops: ops, Final: final, Spec: comb.Det("", kmodel.Step), Max: 3, MaxDeep: 6,
			After: func(e *mc.Exec, s kmodel.Store) {
				was := kmodel.Dump(s, []string{"a", "b", "c"})
				for i := 0; i < 2; i++ {
					if now := kmodel.Dump(fresh(e.Fail), []string{"a", "b", "c"}); now != was {
						e.Fail("the store held %s, after reloading it holds %s", was, now)
					}
				}
			}}
		r = append(r, m.Scenarios(false, shapes...)...)
	}
	models("all", full, nil, []int{1, 1})
	models("all/set", full, []comb.Def[kmodel.Store]{def("put", kmodel.In{M: 'A', N: "a", V: "old", T: 7}), def("put", kmodel.In{M: 'C', N: "a", V: "old", T: 7}), def("put", kmodel.In{M: 'M', N: "a", V: "old", T: 7}), def("put", kmodel.In{M: 'O', N: "a", V: "old"})}, []int{1, 1})
	models("admin", one, nil, []int{2, 1}, []int{2, 2}, []int{1, 1, 1})
	models("client,mq,other", two, nil, []int{2, 1}, []int{2, 2}, []int{1, 1, 1})
	// a key store as one cell: written, read, and read through newly opened ones
	type cell struct {
		k ks
	}
	data := func(x int) []byte {
		b := make([]byte, []int{0, 1, 30, 5000, 70000}[x])
		for i := range b {
			b[i] = byte(i*i*7+x) ^ byte(i>>3)
		}
		return b
	}
	show := func(b []byte, err error) string {
		if err != nil {
			return "error"
		}
		for x := 0; x < 5; x++ {
			if string(b) == string(data(x)) {
				return fmt.Sprint(x)
			}
		}
		return fmt.Sprintf("%d bytes % x", len(b), b[:min(len(b), 20)])
	}
	kdef := func(op string, x int) comb.Def[*cell] {
		return comb.Def[*cell]{Name: op, In: x, Do: func(c *cell) any {
			switch op {
			case "write":
				b := data(x)
				err := c.k.Write(b)
				for i := range b {
					b[i] = '#'
				}
				if err != nil {
					return err.Error()
				}
			case "read":
				return show(c.k.Read())
			case "reopen":
				return show(open(mc.E.Fail).Read())
			}
			return ""
		}}
	}
	spec := comb.Det("error", func(s, op string, x any) (any, string) {
		if op == "write" {
			return "", fmt.Sprint(x)
		}
		return s, s
	})
	kops := []comb.Def[*cell]{kdef("write", 1), kdef("write", 2), kdef("write", 0), kdef("read", 0), kdef("reopen", 0)}
	for i, pre := range [][]comb.Def[*cell]{nil, {kdef("write", 3)}, {kdef("write", 4), kdef("write", 1)}} {
		r = append(r, comb.Model[*cell]{Name: fmt.Sprint("cell/", i), New: func() *cell { return &cell{open(mc.E.Fail)} }, Setup: pre, Ops: kops,
			Final: []comb.Def[*cell]{kdef("read", 0), kdef("reopen", 0), kdef("write", 2), kdef("read", 0), kdef("reopen", 0)}, Spec: spec, Max: 4, MaxDeep: 8}.Scenarios(false, []int{1, 1}, []int{2, 1}, []int{2, 2}, []int{1, 1, 1})...)
	}
	// all sequences of operations, with reloads in between
	for _, set := range []struct {
		name string
		ops  []comb.Def[kmodel.Store]
		n    int
	}{{"admin", one, 5}, {"client,mq,other", two, 4}, {"all", full, 3}} {
		for first := 0; first <= len(set.ops); first++ {
			r = append(r, run.Scenario{Name: fmt.Sprintf("seq/%s/%d", set.name, first), Nat: func(t *run.T) {
				n := set.n
				if thorough {
					n++
				}
				ops := append(append([]comb.Def[kmodel.Store]{}, set.ops...), comb.Def[kmodel.Store]{Name: "reload"})
				seqs(t, n, len(ops), first, func(seq []int) {
					os.Mount(nil)
					t.NoPanic(fmt.Sprint(seq), func() {
						s := fresh(t.Fail)
						st := ""
						for i, o := range seq {
							d := ops[o]
							if d.Name == "reload" {
								s = fresh(t.Fail)
								continue
							}
							got := d.Do(s)
							want, next := kmodel.Step(st, d.Name, d.In)
							if got != want {
								var h []string
								for _, p := range seq[:i+1] {
									h = append(h, fmt.Sprint(ops[p].Name, " ", ops[p].In))
								}
								t.Fail("%v returned %q, want %q", h, got, want)
							}
							st = next
						}
						for i := 0; i < 2; i++ {
							for _, m := range []byte("ACMO") {
								for _, d := range []comb.Def[kmodel.Store]{def("get", kmodel.In{M: m, N: "a"}), def("get", kmodel.In{M: m, N: "b"}), def("list", kmodel.In{M: m})} {
									want, _ := kmodel.Step(st, d.Name, d.In)
									if got := d.Do(s); got != want {
										t.Fail("after %v (reloaded: %v), %s(%v) is %q, want %q", seq, i > 0, d.Name, d.In, got, want)
									}
								}
							}
							s = fresh(t.Fail)
						}
					})
				})
			}})
		}
	}
	return
}

// seqs enumerates the sequences of length n that begin with first.
func seqs(t *run.T, n, k, first int, f func(seq []int)) {
	seq := make([]int, n)
	seq[0] = first
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			f(seq)
			t.Case(n)
			return
		}
		for o := 0; o < k; o++ {
			if i == 1 && !t.More() {
				return
			}
			seq[i] = o
			rec(i + 1)
		}
	}
	rec(1)
}

// ---- C27 ----

func content(size, x int) []byte {
	b := make([]byte, size)
	v := uint32(x)*2654435761 + 12345
	for i := range b {
		v ^= v << 13
		v ^= v >> 17
		v ^= v << 5
		b[i] = byte(v >> 9)
	}
	return b
}

func readBack(fail func(f string, a ...any)) (string, bool) {
	b, err := open(fail).Read()
	return string(b), err == nil
}

func brief(s string) string {
	if len(s) > 30 {
		return fmt.Sprintf("%d bytes % x...", len(s), s[:30])
	}
	return fmt.Sprintf("[% x]", s)
}

// crashes writes the contents one after the other into the mounted file system and calls f with every state the
// files were in, and the contents allowed then (nil: nothing yet).
func crashes(t *run.T, k ks, old *string, writes [][]byte, f func(st map[string]string, allowed []*string)) {
	d := os.Disk()
	d.Record = true
	d.States = nil
	type span struct {
		to      int
		allowed []*string
	}
	var spans []span
	for _, w := range writes {
		if err := k.Write(w); err != nil {
			t.Fail("Write of %d bytes: %v", len(w), err)
		}
		n := string(w)
		spans = append(spans, span{len(d.States), []*string{old, &n}})
		old = &n
	}
	d.States = append(d.States, d.Snapshot())
	spans = append(spans, span{len(d.States), []*string{old}})
	states := d.States
	d.Record = false
	i := 0
	for _, s := range spans {
		for ; i < s.to; i++ {
			al := s.allowed
			if i == s.to-1 { // the last change of a Write is in place when it returns
				al = al[len(al)-1:]
			}
			f(states[i], al)
		}
	}
}

func checkState(t *run.T, what string, allowed []*string) *string {
	got, ok := readBack(t.Fail)
	t.Step()
	for _, a := range allowed {
		if a == nil && !ok || a != nil && ok && *a == got {
			return a
		}
	}
	var w []string
	for _, a := range allowed {
		if a == nil {
			w = append(w, "an error (nothing was written yet)")
		} else {
			w = append(w, brief(*a))
		}
	}
	if !ok {
		got = "(an error)"
	}
	t.Fail("%s: after reopening, Read returns %s, want %s", what, brief(got), strings.Join(w, " or "))
	return nil
}

func c27(thorough bool) (r []run.Scenario) {
	sizes := []int{0, 1, 10, 60, 700}
	if thorough {
		sizes = append(sizes, 5000)
	}
	// all histories of up to three writes, a crash in every state, then another write with a crash in every state
	for _, a := range sizes {
		for _, b := range sizes {
			r = append(r, run.Scenario{Name: fmt.Sprintf("crash/%d,%d", a, b), Nat: func(t *run.T) {
				third := []int{-1, 0, 25}
				if a+b < 100 {
					third = append(third, 300)
				}
				for _, c := range third {
					writes := [][]byte{content(a, 1), content(b, 2)}
					if c >= 0 {
						writes = append(writes, content(c, 3))
					}
					os.Mount(nil)
					os.Disk().Record = true
					k := open(t.Fail)
					for _, st := range os.Disk().States { // creating the store
						os.Mount(st)
						checkState(t, "a crash while the store is created", []*string{nil})
					}
					os.Mount(nil)
					k = open(t.Fail)
					n := 0
					crashes(t, k, nil, writes, func(st map[string]string, al []*string) {
						n++
						if !t.More() {
							return
						}
						os.Mount(st)
						what := fmt.Sprintf("a crash in state %d of writes of %d, %d and %d bytes", n, a, b, c)
						was := checkState(t, what, al)
						t.State()
						// the store goes on working, and survives another crash
						k2 := open(t.Fail)
						m := 0
						crashes(t, k2, was, [][]byte{content(8, 4)}, func(st map[string]string, al []*string) {
							m++
							if len(st) > 0 && (a+b+max(c, 0) < 800 || m%16 == 1 || thorough) {
								os.Mount(st)
								checkState(t, fmt.Sprintf("%s, then a crash in state %d of a write of 8 bytes", what, m), al)
								t.State()
							}
						})
					})
					t.Exec()
				}
				t.Sample("writes of %d and %d bytes, a crash after every byte and every other change, each followed by another write with the same", a, b)
			}})
		}
	}
	// the credential store above it
	r = append(r, run.Scenario{Name: "crash/admin", Nat: func(t *run.T) {
		ops := []func(s kmodel.Store){
			func(s kmodel.Store) { s.PutAdmin("a", "p", 1) }, func(s kmodel.Store) { s.PutAdmin("a", "q", 2) }, func(s kmodel.Store) { s.DelAdmin("a") },
			func(s kmodel.Store) { s.PutClient("c", "p", 1) }, func(s kmodel.Store) { s.PutMq("m", "p", 1) }, func(s kmodel.Store) { s.PutOther("o", "v") }, func(s kmodel.Store) { s.DelOther("o") }}
		names := []string{"a", "c", "m", "o"}
		n := 3
		if thorough {
			n = 4
		}
		seq := make([]int, n)
		var rec func(i int)
		rec = func(i int) {
			if i < n {
				for o := range ops {
					if i < 2 && !t.More() {
						return
					}
					seq[i] = o
					rec(i + 1)
				}
				return
			}
			os.Mount(nil)
			s := fresh(t.Fail)
			d := os.Disk()
			d.Record = true
			d.States = nil
			dumps := []string{kmodel.Dump(s, names)}
			var ends []int
			for _, o := range seq {
				ops[o](s)
				dumps = append(dumps, kmodel.Dump(s, names))
				ends = append(ends, len(d.States))
			}
			states := d.States
			j := 0
			for i, st := range states {
				for j < len(ends)-1 && i >= ends[j] {
					j++
				}
				os.Mount(st)
				got := kmodel.Dump(fresh(t.Fail), names)
				if got != dumps[j+1] && (got != dumps[j] || i == ends[j]-1) {
					t.Fail("operations %v, a crash in state %d (during operation %d): the store holds %s, want %s or %s", seq, i, j, got, dumps[j], dumps[j+1])
				}
				t.State()
			}
			t.Case(n)
		}
		rec(0)
		t.Sample("all sequences of %d of seven operations of storeAdmin", n)
	}})
	// failing file operations: each single one, and each pair
	r = append(r, run.Scenario{Name: "faults", Nat: func(t *run.T) {
		sz := []int{0, 1, 60, 3000}
		for _, a := range sz {
			for _, b := range sz {
				for first := 0; first < 12; first++ {
					for second := first; second < 12; second++ {
						for kind := 0; kind < 3; kind++ {
							os.Mount(nil)
							k := open(t.Fail)
							if err := k.Write(content(a, 1)); err != nil {
								t.Fail("Write: %v", err)
							}
							d := os.Disk()
							n := -1
							bad := func() bool { n++; return n == first || n == second }
							d.OpErr = func(op, name string) error {
								if bad() {
									return errors.New("injected")
								}
								return nil
							}
							d.WriteHook = func(name string, l int) (int, error) {
								if bad() {
									return []int{0, l / 2, max(l-1, 0)}[kind], errors.New("injected")
								}
								return l, nil
							}
							x, y := string(content(a, 1)), string(content(b, 2))
							var err error
							t.NoPanic("Write", func() { err = k.Write([]byte(y)) })
							used := n
							d.OpErr, d.WriteHook = nil, nil
							al := []*string{&x, &y}
							if err == nil {
								al = al[1:]
							}
							what := fmt.Sprintf("a Write of %d bytes over %d whose file operations %d and %d failed returned %v", b, a, first, second, err)
							at := checkState(t, what, al)
							if g, err := k.Read(); err != nil || string(g) != *at {
								t.Fail("%s: Read returns %s, %v", what, brief(string(g)), err)
							}
							// the store goes on working
							z := string(content(33, 3))
							if err := k.Write([]byte(z)); err != nil {
								t.Fail("%s: the next Write returned %v", what, err)
							}
							checkState(t, what+", then a good Write", []*string{&z})
							t.Case(3)
							if used < first {
								break
							}
						}
					}
				}
			}
		}
		t.Sample("every pair of failing file operations of a Write")
	}})
	// concurrent writers: what a crash may leave
	for _, shape := range [][]int{{1, 1}, {2, 1}, {1, 1, 1}, {2, 2}} {
		r = append(r, run.Scenario{Name: fmt.Sprint("crash/concurrent/", shape), Max: 5, MaxDeep: 8, Body: func(e *mc.Exec) {
			k := open(e.Fail)
			d := os.Disk()
			d.Record = true
			d.States = nil
			type w struct {
				v        string
				from, to int
			}
			var ws []*w
			for i, n := range shape {
				e.Go(fmt.Sprintf("T%d", i+1), func() {
					for j := 0; j < n; j++ {
						x := &w{v: fmt.Sprintf("%d%d", i, j), to: 1 << 30}
						e.Yield()
						x.from = len(d.States)
						ws = append(ws, x)
						if err := k.Write([]byte(x.v)); err != nil {
							e.Fail("Write: %v", err)
						}
						x.to = len(d.States)
					}
				})
			}
			e.Join()
			states := append(d.States, d.Snapshot())
			for i, st := range states {
				os.Mount(st)
				got, ok := readBack(e.Fail)
				good := !ok
				for _, x := range ws {
					if x.to <= i && !ok {
						good = false
					}
					if ok && x.v == got && x.from <= i {
						good = true
						for _, y := range ws {
							if y.to <= i && y.from > x.to {
								good = false
							}
						}
					}
				}
				if !good {
					e.Fail("a crash in state %d of %d leaves %q (read without error: %v)", i, len(states), got, ok)
				}
			}
		}})
	}
	return
}

// ---- C25: goroutines sharing an Aes ----

func c25(thorough bool) (r []run.Scenario) {
	for _, shape := range [][]string{{"e", "e"}, {"e", "d"}, {"ed", "ed"}, {"ed", "de"}, {"e", "d", "x"}, {"ex", "xd"}, {"ee", "dd"}} {
		r = append(r, run.Scenario{Name: fmt.Sprint("ctl/", shape), Max: 6, Body: func(e *mc.Exec) {
			a := keystore.NewAes("iv", "key")
			var texts, ciphers []string
			for i := range shape {
				texts = append(texts, strings.Repeat(string(rune('a'+i)), 20+i))
				c, err := keystore.NewAes("iv", "key").EncrypterCbc([]byte(texts[i]))
				if err != nil {
					e.Fail("%v", err)
				}
				ciphers = append(ciphers, string(c))
			}
			for i, s := range shape {
				e.Go(fmt.Sprintf("T%d", i+1), func() {
					for _, o := range s {
						e.Yield()
						switch o {
						case 'e':
							if c, err := a.EncrypterCbc([]byte(texts[i])); err != nil || string(c) != ciphers[i] {
								e.Fail("EncrypterCbc returned % x, %v, want % x", c, err, ciphers[i])
							} else {
								e.Yield()
								if string(c) != ciphers[i] {
									e.Fail("the ciphertext changed")
								}
							}
						case 'd':
							if c, err := a.DecrypterCbc([]byte(ciphers[i])); err != nil || string(c) != texts[i] {
								e.Fail("DecrypterCbc returned %q, %v, want %q", c, err, texts[i])
							} else {
								e.Yield()
								if string(c) != texts[i] {
									e.Fail("the plaintext changed")
								}
							}
						case 'x':
							if _, err := a.DecrypterCbc([]byte(ciphers[i])[:17]); err == nil {
								e.Fail("a truncated ciphertext was decrypted")
							}
						}
					}
				})
			}
			e.Join()
		}})
	}
	return
}
