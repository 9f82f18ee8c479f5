// Native enumeration of the credential store on real files (C26, C27).
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"strings"

	"github.com/donnie4w/gofer/keystore"
	"verif.local/v/lib/kmodel"
	"verif.local/v/run"
)

func main() { run.Main(map[string]run.Maker{"C26": c26, "C27": c27}) }

var count int

func scratch(t *run.T) string {
	count++
	return filepath.Join(t.Dir(), fmt.Sprint("s", count), "sub")
}

func fresh(t *run.T, dir string) kmodel.Store {
	k, err := keystore.NewKeyStore(dir, "ks")
	if err != nil {
		t.Fail("NewKeyStore: %v", err)
	}
	keystore.KeyStore = k
	s := keystore.NewStoreAdmin()
	s.Load()
	return s
}

type call struct {
	op string
	a  kmodel.In
}

func c26(thorough bool) (r []run.Scenario) {
	long := strings.Repeat("long name ", 300)
	var ops []call
	for _, m := range []byte("ACMO") {
		ops = append(ops, call{"put", kmodel.In{M: m, N: "a", V: "p", T: 1}}, call{"put", kmodel.In{M: m, N: "a", V: long, T: -128}}, call{"put", kmodel.In{M: m, N: long, V: "", T: 0}}, call{"del", kmodel.In{M: m, N: "a"}}, call{"put", kmodel.In{M: m, N: "", V: "é\x00", T: 127}})
	}
	ops = append(ops, call{op: "reload"})
	names := []string{"", "a", long, "none"}
	n := 3
	if thorough {
		n = 4
	}
	sequences := func(name string, ops []call, names []string, n, first int) {
		r = append(r, run.Scenario{Name: fmt.Sprintf("nat/%s/%d", name, first), Nat: func(t *run.T) {
			seq := make([]int, n)
			seq[0] = first
			var rec func(i int)
			rec = func(i int) {
				if i < n {
					for o := range ops {
						if i == 1 && !t.More() {
							return
						}
						seq[i] = o
						rec(i + 1)
					}
					return
				}
				dir := scratch(t)
				t.NoPanic(fmt.Sprint("operations ", seq), func() {
					s := fresh(t, dir)
					st := ""
					for _, o := range seq {
						c := ops[o]
						if c.op == "reload" {
							s = fresh(t, dir)
							continue
						}
						kmodel.Apply(s, c.op, c.a)
						_, st = kmodel.Step(st, c.op, c.a)
					}
					for i := 0; i < 2; i++ {
						for _, m := range []byte("ACMO") {
							for _, nm := range names {
								a := kmodel.In{M: m, N: nm}
								want, _ := kmodel.Step(st, "get", a)
								if got := kmodel.Apply(s, "get", a); got != want {
									t.Fail("after operations %v (reloaded: %v), get(%v) is %q, want %q", seq, i > 0, a, got, want)
								}
							}
							a := kmodel.In{M: m}
							want, _ := kmodel.Step(st, "list", a)
							if got := kmodel.Apply(s, "list", a); got != want {
								t.Fail("after operations %v (reloaded: %v), list(%v) is %q, want %q", seq, i > 0, a, got, want)
							}
						}
						s = fresh(t, dir)
					}
				})
				os.RemoveAll(filepath.Dir(dir))
				t.Case(n)
			}
			rec(1)
			t.Sample("all sequences of %d of %d calls on real files", n, len(ops))
		}})
	}
	for first := range ops {
		sequences("seq", ops, names, n, first)
	}
	// entries that differ in one thing only
	for _, m := range []byte("ACMO") {
		var ops []call
		for _, nm := range []string{"a", "A"} {
			for _, v := range []string{"p", "P", "83878C91171338902E0FE0FB97A8C47A"} { // the last is the MD5 of p
				ops = append(ops, call{"put", kmodel.In{M: m, N: nm, V: v, T: 1}})
				if nm == "a" && m != 'O' {
					ops = append(ops, call{"put", kmodel.In{M: m, N: nm, V: v, T: 2}})
				}
			}
			ops = append(ops, call{"del", kmodel.In{M: m, N: nm}})
		}
		ops = append(ops, call{op: "reload"})
		for first := range ops {
			sequences("one-map/"+string(m), ops, []string{"a", "A", "p"}, n, first)
		}
	}
	r = append(r, run.Scenario{Name: "nat/large", Nat: func(t *run.T) {
		size := 400
		if thorough {
			size = 2500
		}
		dir := scratch(t)
		s := fresh(t, dir)
		in := func(m byte, i int) kmodel.In {
			v := fmt.Sprint("value ", m, i)
			if i%50 == 7 {
				v = strings.Repeat(v, 300)
			}
			return kmodel.In{M: m, N: fmt.Sprint("name", i), V: v, T: int8(i)}
		}
		check := func(want func(m byte, i int) bool) {
			for _, m := range []byte("ACMO") {
				names := map[string]bool{}
				for i := 0; i < size; i++ {
					a := in(m, i)
					got, w := kmodel.Apply(s, "get", a), "none"
					if want(m, i) {
						_, st := kmodel.Step("", "put", a)
						w = st[strings.Index(st, "\t")+1:]
						names[a.N] = true
					}
					if got != w {
						t.Fail("%d entries in each map: get(%c %s) is %.80q, want %.80q", size, m, a.N, got, w)
					}
				}
				var l []string
				switch m {
				case 'A':
					l = s.AdminList()
				case 'C':
					l = s.ClientList()
				case 'M':
					l = s.MqList()
				default:
					continue
				}
				for _, x := range l {
					if !names[x] {
						t.Fail("%d entries: list %c has %q, or has it twice", size, m, x)
					}
					delete(names, x)
				}
				if len(names) > 0 {
					t.Fail("%d entries: list %c lacks %d names", size, m, len(names))
				}
			}
			t.Case(4 * size)
		}
		for i := 0; i < size; i++ {
			for _, m := range []byte("ACMO") {
				kmodel.Apply(s, "put", in(m, i))
			}
		}
		all := func(byte, int) bool { return true }
		check(all)
		s = fresh(t, dir)
		check(all)
		for i := 0; i < size; i += 7 {
			for j, m := range []byte("ACMO") {
				if i+j < size {
					kmodel.Apply(s, "del", in(m, i+j))
				}
			}
		}
		rest := func(m byte, i int) bool { return (i-strings.IndexByte("ACMO", m)+7)%7 != 0 }
		check(rest)
		s = fresh(t, dir)
		check(rest)
	}})
	r = append(r, run.Scenario{Name: "nat/lists-stay", Nat: func(t *run.T) {
		// a list belongs to who asked for it: later calls do not change it, and changing it changes no entry
		for scribble := 0; scribble < 2; scribble++ {
			dir := scratch(t)
			s := fresh(t, dir)
			lists := map[byte]func() []string{'A': s.AdminList, 'C': s.ClientList, 'M': s.MqList}
			var kept, copies [][]string
			in := map[byte]map[string]bool{'A': {}, 'C': {}, 'M': {}}
			for i := 0; i < 60; i++ {
				for _, m := range []byte("ACM") {
					op, nm := "put", fmt.Sprint(string(m), i/3)
					if i%3 == 2 {
						op, nm = "del", fmt.Sprint(string(m), (i*7+int(m))%(i/3+1))
					}
					kmodel.Apply(s, op, kmodel.In{M: m, N: nm, V: "v"})
					if in[m][nm] = true; op == "del" {
						delete(in[m], nm)
					}
					for x, list := range lists {
						l := list()
						kept, copies = append(kept, l), append(copies, slices.Clone(l))
						for _, n := range l {
							if !in[x][n] {
								t.Fail("after %s %s list %c is %q, lists changed by who got them %v", op, nm, x, l, scribble == 1)
							}
						}
						if len(l) != len(in[x]) {
							t.Fail("after %s %s list %c is %q, want the names %v, lists changed by who got them %v", op, nm, x, l, in[x], scribble == 1)
						}
					}
					for j := range kept {
						if !slices.Equal(kept[j], copies[j]) {
							t.Fail("after %s %s a list returned before, %q, is %q", op, nm, copies[j], kept[j])
						}
						if scribble == 1 {
							for k := range kept[j] {
								kept[j][k], copies[j][k] = "changed", "changed"
							}
						}
					}
					t.Case(1)
				}
			}
			os.RemoveAll(filepath.Dir(dir))
		}
	}})
	r = append(r, run.Scenario{Name: "nat/cell", Nat: func(t *run.T) {
		var data [][]byte
		for _, n := range []int{0, 1, 2, 100, 4095, 4096, 4097, 70000, 1 << 20} {
			b := make([]byte, n)
			x := uint32(n + 1)
			for i := range b {
				x ^= x << 13
				x ^= x >> 17
				x ^= x << 5
				b[i] = byte(x)
			}
			data = append(data, b, make([]byte, n))
		}
		data = append(data, []byte("\x78\x9c"), []byte("text"))
		for i, a := range data {
			for j, b := range data {
				if !t.More() {
					return
				}
				dir := scratch(t)
				k, err := keystore.NewKeyStore(dir, "ks")
				if err != nil {
					t.Fail("NewKeyStore: %v", err)
				}
				o, err := keystore.LoadKeyStore(dir, "ks")
				if err != nil {
					t.Fail("LoadKeyStore: %v", err)
				}
				if g, err := k.Read(); err == nil {
					t.Fail("Read of a new store returned [% x]", g)
				}
				check := func(want []byte) {
					f, err := keystore.LoadKeyStore(dir, "ks")
					if err != nil {
						t.Fail("LoadKeyStore: %v", err)
					}
					for n, s := range []interface{ Read() ([]byte, error) }{k, f, o} {
						if g, err := s.Read(); err != nil || string(g) != string(want) {
							t.Fail("writing data %d and %d: store %d reads %d bytes, %v, want %d", i, j, n, len(g), err, len(want))
						}
					}
				}
				for n, w := range [][]byte{a, b} {
					in := append([]byte{}, w...)
					if err := k.Write(in); err != nil || string(in) != string(w) {
						t.Fail("Write of data %d and %d (%d): %v", i, j, n, err)
					}
					for p := range in {
						in[p] = '#'
					}
					check(w)
				}
				// also when another one writes
				if err := o.Write(a); err != nil {
					t.Fail("Write: %v", err)
				}
				check(a)
				t.Case(9)
				os.RemoveAll(filepath.Dir(dir))
			}
		}
		t.Sample("all pairs of %d contents, read through three stores", len(data))
	}})
	return
}

// c27: what an opened store left behind by a crash is, is explored on the in-memory file system; here its model
// is compared with the real file system.
func c27(thorough bool) (r []run.Scenario) {
	r = append(r, run.Scenario{Name: "nat/replaced", Nat: func(t *run.T) {
		for _, n := range []int{0, 1, 50, 5000} {
			for _, m := range []int{0, 1, 50, 5000} {
				dir := scratch(t)
				k, err := keystore.NewKeyStore(dir, "ks")
				if err != nil {
					t.Fail("%v", err)
				}
				if err := k.Write(make([]byte, n)); err != nil {
					t.Fail("Write: %v", err)
				}
				k, _ = keystore.NewKeyStore(dir, "ks")
				if b, err := k.Read(); err != nil || len(b) != n {
					t.Fail("Read returned %d bytes, %v, want %d", len(b), err, n)
				}
				if err := k.Write([]byte(strings.Repeat("m", m))); err != nil {
					t.Fail("Write: %v", err)
				}
				k, _ = keystore.NewKeyStore(dir, "ks")
				if b, err := k.Read(); err != nil || string(b) != strings.Repeat("m", m) {
					t.Fail("Read returned %d bytes, %v, want %d", len(b), err, m)
				}
				// the file is gone, or another one has taken its place, while the store is open
				for how := 0; how < 2; how++ {
					t.NoPanic("Read and Write with the file gone", func() {
						os.Remove(dir + "/ks")
						if how == 1 {
							os.WriteFile(dir+"/ks", []byte("other"), 0666)
						}
						if b, err := k.Read(); how == 0 && (err == nil || len(b) > 0) {
							t.Fail("Read of a file that is gone returned %q, %v", b, err)
						}
						for i := 0; i < 2; i++ {
							want := strings.Repeat("w", n+m+i)
							if err := k.Write([]byte(want)); err != nil {
								t.Fail("Write with the file gone (%d): %v", how, err)
							}
							if b, err := k.Read(); err != nil || string(b) != want {
								t.Fail("Read after the file was gone (%d) returned %d bytes, %v, want %d", how, len(b), err, len(want))
							}
						}
					})
				}
				t.Case(13)
			}
		}
	}})
	return
}
