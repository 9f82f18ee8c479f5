// Exploration of package mmap over an in-memory file system (C19, C20).
package main

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/donnie4w/gofer/mmap"
	"verif.local/v/comb"
	"verif.local/v/mc"
	"verif.local/v/run"
	"verif.local/v/shim/os"
)

func main() {
	run.Main(map[string]run.Maker{"C19": c19, "C20": c20})
}

const name = "/tmp/m"

type world struct {
	m *mmap.Mmap
	f *os.File
}

// pattern is the content of the file before it is mapped.
func pattern(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = 'A' + byte(i%23)
	}
	return b
}

func open(size int, start int64) (*world, error) {
	os.Disk().Put(name, string(pattern(size)))
	f, err := os.OpenFile(name, os.O_RDWR, 0666)
	if err != nil {
		return nil, err
	}
	m, err := mmap.NewMMAP(f, start)
	return &world{m, f}, err
}

// model of one mapping: position|content
func state(pos int, c []byte) string { return strconv.Itoa(pos) + "|" + string(c) }

type wat struct {
	s   string
	off int
}

func (w wat) String() string { return fmt.Sprintf("%q@%d", w.s, w.off) }

func step(s, op string, in any) (any, string) {
	p, c, _ := strings.Cut(s, "|")
	pos, _ := strconv.Atoi(p)
	b := []byte(c)
	switch op {
	case "Append", "AppendSync":
		x := in.(string)
		if len(x) > len(b)-pos {
			return "error", s
		}
		copy(b[pos:], x)
		return pos, state(pos+len(x), b)
	case "WriteAt", "WriteAtSync":
		w := in.(wat)
		if w.off < 0 || w.off > len(b)-len(w.s) {
			return "error", s
		}
		copy(b[w.off:], w.s)
		return "ok", state(max(pos, w.off+len(w.s)), b)
	case "Content":
		return c, s
	case "Size":
		return len(b), s
	}
	return "ok", s
}

func appendTo(w *world, x string, sync bool) any {
	b := []byte(x)
	n, err := int64(0), error(nil)
	if sync {
		n, err = w.m.AppendSync(b)
	} else {
		n, err = w.m.Append(b)
	}
	clear(b)
	if err != nil {
		return "error"
	}
	return n
}

func writeAt(w *world, x wat, sync bool) any {
	b := []byte(x.s)
	var err error
	if sync {
		err = w.m.WriteAtSync(b, x.off)
	} else {
		err = w.m.WriteAt(b, x.off)
	}
	clear(b)
	if err != nil {
		return "error"
	}
	return "ok"
}

func content() string { c, _ := os.Disk().Content(name); return c }

func ok(err error) any {
	if err != nil {
		return err.Error()
	}
	return "ok"
}

type def = comb.Def[*world]

func app(x string, sync bool) def {
	n := "Append"
	if sync {
		n += "Sync"
	}
	return def{Name: n, In: x, Do: func(w *world) any { return appendTo(w, x, sync) }}
}
func wra(x string, off int, sync bool) def {
	n := "WriteAt"
	if sync {
		n += "Sync"
	}
	v := wat{x, off}
	return def{Name: n, In: v, Do: func(w *world) any { return writeAt(w, v, sync) }}
}

func c19(thorough bool) (r []run.Scenario) {
	// concurrent calls; the ranges of WriteAt are apart from everything appended, so that the content is determined
	type cfg struct {
		name        string
		size, start int
		ops         []def
	}
	flush := def{Name: "Flush", Do: func(w *world) any { return ok(w.m.Flush()) }}
	cfgs := []cfg{
		{"roomy", 64, 3, []def{app("abc", false), app("defgh", true), wra("WW", 45, false), wra("xyz", 40, true), wra("v", 1, false), app("", false), flush, wra("Q", -1, false)}},
		{"tight", 12, 2, []def{app("abcd", false), app("efgh", true), app("ijk", false), app("lmnopq", true), wra("12", 0, false), wra("345", 10, false)}},
		{"exact", 6, 0, []def{app("ab", false), app("cd", true), app("efg", false)}},
	}
	for _, c := range cfgs {
		for _, end := range []string{"Flush", "Close", "UnmapAndCloseFile"} {
			var fin []def
			fin = append(fin, def{Name: "Content", In: "mapping", Do: func(w *world) any { return string(w.m.Bytes()) }},
				def{Name: "Size", Do: func(w *world) any { return w.m.FileSize() }},
				app("z", false),
				def{Name: end, Do: func(w *world) any {
					switch end {
					case "Flush":
						return ok(w.m.Flush())
					case "Close":
						return ok(w.m.Close())
					}
					return ok(w.m.UnmapAndCloseFile())
				}}, def{Name: "Content", In: "file", Do: func(w *world) any { return content() }})
			m := comb.Model[*world]{Name: "Mmap/" + c.name + "/" + end, New: func() *world {
				w, err := open(c.size, int64(c.start))
				if err != nil {
					panic(err)
				}
				return w
			}, Ops: c.ops, Final: fin, Spec: comb.Det(state(c.start, pattern(c.size)), step), Max: 3, MaxDeep: 6}
			if end == "Flush" {
				r = append(r, m.Scenarios(false, []int{1, 1}, []int{2, 1}, []int{2, 2}, []int{1, 1, 1}, []int{2, 1, 1}, []int{3, 1})...)
			} else {
				r = append(r, m.Scenarios(false, []int{1, 1}, []int{2, 1})...)
			}
		}
	}
	// all sequences and all positions, one goroutine
	for _, size := range []int{1, 2, 10, 4096, 5000, 12288} {
		starts := map[int]bool{}
		for _, start := range []int{0, 3, size / 2, size - 1} {
			if start >= size || starts[start] {
				continue
			}
			starts[start] = true
			x := string(bytes.Repeat([]byte("+"), size/2+1))
			ops := []def{app("a", false), app("", true), app("", false), app("bcd", true), app(x, false), app(x[:size/2], true), wra("", 0, false), wra("e", 0, true), wra("f", size-1, false),
				wra("", size, true), wra("gh", size-1, true), wra("i", size, false), wra("j", -1, false), wra("", -1, true), wra("kl", math.MaxInt, false), wra("k", math.MaxInt-1, true), wra("l", math.MinInt, true), wra("mn", size/2, true),
				wra("o", math.MaxInt64/2, false), wra("p", 1<<32, false), wra(x, size-len(x), false), wra(x, size-len(x)+1, false)}
			for first := range ops {
				r = append(r, run.Scenario{Name: fmt.Sprintf("sequences/%d@%d/%d", size, start, first), Nat: func(t *run.T) {
					n := 2
					if thorough {
						n = 3
					}
					if size > 100 {
						n--
					}
					comb.Sequences(t, n, len(ops), func(seq []int) {
						w, err := open(size, int64(start))
						if err != nil {
							t.Fail("NewMMAP of %d bytes at %d: %v", size, start, err)
						}
						s := state(start, pattern(size))
						var log []string
						for _, k := range append([]int{first}, seq...) {
							var want any
							in := fmt.Sprintf("%.40v", ops[k].In)
							log = append(log, fmt.Sprintf("%s(%s)", ops[k].Name, in))
							want, s = step(s, ops[k].Name, ops[k].In)
							var got any
							t.NoPanic(fmt.Sprint(log), func() { got = ops[k].Do(w) })
							if fmt.Sprint(got) != fmt.Sprint(want) {
								t.Fail("size %d, start %d: %v returned %v instead of %v", size, start, log, got, want)
							}
							if _, c, _ := strings.Cut(s, "|"); string(w.m.Bytes()) != c {
								t.Fail("size %d, start %d: after %v the mapping is not as expected", size, start, log)
							}
						}
						which := (first + len(log) + seq0(seq)) % 4
						if err := [](func() error){w.m.Flush, w.m.Close, w.m.UnmapAndCloseFile, w.m.Unmap}[which](); err != nil {
							t.Fail("%v: %v", log, err)
						}
						if gone := len(w.m.Bytes()) == 0; gone != (which > 0) {
							t.Fail("%v, then end %d: unmapped is %v", log, which, gone)
						}
						if _, err := w.f.Stat(); (err != nil) != (which == 2) {
							t.Fail("%v, then end %d: the file gives %v", log, which, err)
						}
						if _, c, _ := strings.Cut(s, "|"); content() != c {
							t.Fail("size %d, start %d: after %v the file is not as expected", size, start, log)
						}
					})
				}})
			}
		}
	}
	r = append(r, run.Scenario{Name: "open", Nat: func(t *run.T) {
		for _, size := range []int{0, 1, 5, 4096} {
			for _, start := range []int64{0, 1, 4, 5, 4095, 4096, 4097, -1, math.MinInt64, math.MaxInt64} {
				t.NoPanic(fmt.Sprintf("NewMMAP of %d bytes at %d", size, start), func() {
					w, err := open(size, start)
					if good := start >= 0 && start < int64(size); good != (err == nil) {
						t.Fail("NewMMAP of %d bytes at %d returned %v", size, start, err)
					}
					if err == nil {
						if n, err := w.m.Append([]byte("x")); err != nil || n != start {
							t.Fail("first Append after NewMMAP of %d bytes at %d returned %d, %v", size, start, n, err)
						}
					}
				})
				t.Case(2)
			}
		}
		// files that cannot be mapped
		for _, kind := range []string{"closed", "read-only"} {
			t.NoPanic("NewMMAP of a "+kind+" file", func() {
				os.Disk().Put(name, "content")
				flag := os.O_RDWR
				if kind == "read-only" {
					flag = os.O_RDONLY
				}
				f, err := os.OpenFile(name, flag, 0666)
				if err != nil {
					t.Fail("open: %v", err)
				}
				if kind == "closed" {
					f.Close()
				}
				if m, err := mmap.NewMMAP(f, 0); err == nil || m != nil {
					t.Fail("NewMMAP of a %s file returned %v, %v", kind, m, err)
				}
			})
			t.Case(1)
		}
	}})
	return
}

// seq0 spreads the ways to end over the sequences.
func seq0(seq []int) (n int) {
	for _, k := range seq {
		n += k
	}
	return
}

var errIO = errors.New("input/output error")

func c20(thorough bool) (r []run.Scenario) {
	type rng struct {
		off int
		s   string
	}
	durable := func(e interface{ Fail(string, ...any) }, what string, x rng) {
		i := os.Disk().Lookup(name)
		d := i.Durable
		if x.off+len(x.s) > len(d) {
			e.Fail("%s: %d bytes at %d are not on the disk", what, len(x.s), x.off)
		} else if string(d[x.off:x.off+len(x.s)]) != x.s {
			k := 0
			for d[x.off+k] == x.s[k] {
				k++
			}
			e.Fail("%s returned, but byte %d of the %d bytes at %d is not on the disk", what, k, len(x.s), x.off)
		}
	}
	fill := func(n int, seed byte) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = 'a' + (byte(i%7)+seed)%26
		}
		return string(b)
	}
	edge := func(size int) (v []int) {
		seen := map[int]bool{}
		for p := 0; p <= size; p += 4096 {
			for _, d := range []int{-2, -1, 0, 1, 2, 2047} {
				if x := p + d; x >= 0 && x <= size && !seen[x] {
					seen[x] = true
					v = append(v, x)
				}
			}
		}
		for _, x := range []int{size - 1, size} {
			if x >= 0 && !seen[x] {
				seen[x] = true
				v = append(v, x)
			}
		}
		return
	}
	sizes := []int{1, 100, 4095, 4096, 4097, 8192, 12288, 12289, 20000}
	if thorough {
		sizes = append(sizes, 40960, 65537)
	}
	for _, size := range sizes {
		for _, kind := range []string{"AppendSync", "WriteAtSync"} {
			r = append(r, run.Scenario{Name: fmt.Sprintf("positions/%s/%d", kind, size), Nat: func(t *run.T) {
				for _, off := range edge(size) {
					for _, end := range edge(size) {
						if end < off {
							continue
						}
						start := off
						if kind == "WriteAtSync" || off == size {
							start = 0
						}
						w, err := open(size, int64(start))
						if err != nil {
							t.Fail("open: %v", err)
						}
						if kind == "AppendSync" && off == size { // reach the very end by appending
							w.m.Append([]byte(fill(size, 3)))
						}
						x := rng{off, fill(end-off, 5)}
						what := fmt.Sprintf("%s of %d bytes at %d of a file of %d", kind, end-off, off, size)
						t.NoPanic(what, func() {
							var n int64
							var err error
							if kind == "AppendSync" {
								n, err = w.m.AppendSync([]byte(x.s))
							} else {
								n, err = int64(off), w.m.WriteAtSync([]byte(x.s), off)
							}
							if err != nil || n != int64(off) {
								t.Fail("%s returned %d, %v", what, n, err)
							}
						})
						durable(t, what, x)
						t.Case(1)
					}
				}
			}})
		}
	}
	// writes of megabytes
	big := []int{5<<20 + 1, 9<<20 + 4095}
	if thorough {
		big = append(big, 70<<20+7, 300<<20)
	}
	for _, size := range big {
		for _, kind := range []string{"AppendSync", "WriteAtSync"} {
			r = append(r, run.Scenario{Name: fmt.Sprintf("positions/%s/%d", kind, size), Nat: func(t *run.T) {
				var lens []int
				for _, n := range []int{1 << 16, 1 << 17, 1 << 18, 1 << 19, 1 << 20, 2 << 20, 3 << 20, 4 << 20, 5 << 20, 8 << 20, 16 << 20, 32 << 20, 64 << 20, 128 << 20, 256 << 20, size} {
					for _, d := range []int{-4097, -1, 0, 1, 4097} {
						if n+d <= size {
							lens = append(lens, n+d)
						}
					}
				}
				var w *world
				pos, seed := size, byte(0)
				for _, off := range []int{0, 1, 4095, 4096, 5000, 1<<20 - 1, 1<<20 + 1} {
					for _, n := range lens {
						if off+n > size || !t.More() {
							continue
						}
						if kind == "AppendSync" && off < pos || w == nil { // start again at the offset
							mc.Reset()
							var err error
							if w, err = open(size, int64(off)); err != nil {
								t.Fail("open: %v", err)
							}
							pos = off
						}
						seed++
						x := rng{off, fill(n, seed%19)}
						what := fmt.Sprintf("%s of %d bytes at %d of a file of %d", kind, n, off, size)
						t.NoPanic(what, func() {
							var p int64
							var err error
							if kind == "AppendSync" {
								p, err = w.m.AppendSync([]byte(x.s))
								pos += n
							} else {
								p, err = int64(off), w.m.WriteAtSync([]byte(x.s), off)
							}
							if err != nil || p != int64(off) {
								t.Fail("%s returned %d, %v", what, p, err)
							}
						})
						durable(t, what, x)
						t.Case(1)
					}
				}
			}})
		}
	}
	for _, size := range []int{1, 4096, 12289} {
		for _, end := range []string{"Flush", "Close"} {
			r = append(r, run.Scenario{Name: fmt.Sprintf("whole/%s/%d", end, size), Nat: func(t *run.T) {
				for _, off := range edge(size) {
					if off == size {
						continue
					}
					w, _ := open(size, 0)
					w.m.WriteAt([]byte(fill(size, 1)), 0)
					w.m.WriteAt([]byte("#"), off)
					want := string(w.m.Bytes())
					var err error
					if end == "Flush" {
						err = w.m.Flush()
					} else {
						err = w.m.Close()
					}
					if err != nil {
						t.Fail("%s: %v", end, err)
					}
					durable(t, end, rng{0, want})
					t.Case(3)
				}
			}})
		}
	}
	// several at once, with and without failing flushes
	kinds := []string{"AppendSync", "WriteAtSync", "Append", "WriteAt", "Flush"}
	for _, shape := range [][]int{{1, 1}, {2, 1}, {2, 2}, {1, 1, 1}, {2, 1, 1}} {
		for _, faults := range []int{0, 1, 2} {
			tot := 0
			for _, n := range shape {
				tot += n
			}
			r = append(r, run.Scenario{Name: fmt.Sprintf("concurrent/%v/%d", shape, faults), Max: 7 - tot, MaxDeep: 8 - tot, Body: func(e *mc.Exec) {
				w, err := open(20000, 4000)
				if err != nil {
					e.Fail("open: %v", err)
				}
				left := faults
				os.Disk().SyncErr = func() error {
					if left > 0 && mc.Choose(2) == 1 {
						left--
						return errIO
					}
					return nil
				}
				for t, n := range shape {
					var ks []int
					for i := 0; i < n; i++ {
						ks = append(ks, mc.Choose(len(kinds)))
					}
					ln := []int{90, 200, 4200}[mc.Choose(3)]
					e.Go(fmt.Sprintf("T%d", t+1), func() {
						var mine []rng
						for i, k := range ks {
							x := rng{100 + 1000*t + 300*i, fill(min(ln, 200), byte(3*t+i))} // apart from what is appended
							was := left
							var err error
							var n int64
							switch kinds[k] {
							case "AppendSync":
								x.s = fill(ln, byte(3*t+i))
								n, err = w.m.AppendSync([]byte(x.s))
								x.off = int(n)
							case "WriteAtSync":
								err = w.m.WriteAtSync([]byte(x.s), x.off)
							case "Append":
								if n, err = w.m.Append([]byte(x.s)); err == nil {
									mine = append(mine, rng{int(n), x.s})
								}
								continue
							case "WriteAt":
								w.m.WriteAt([]byte(x.s), x.off)
								mine = append(mine, x)
								continue
							case "Flush":
								if err := w.m.Flush(); err == nil {
									for _, x := range mine {
										durable(e, "Flush", x)
									}
								} else if was == 0 {
									e.Fail("Flush failed: %v", err)
								}
								continue
							}
							if err == nil {
								durable(e, kinds[k], x)
							} else if faults == 0 || was == 0 {
								// the append may not fit behind what WriteAtSync wrote
								if kinds[k] != "AppendSync" || !strings.Contains(err.Error(), "limit") {
									e.Fail("%s failed: %v", kinds[k], err)
								}
							}
						}
					})
				}
				e.Join()
			}})
		}
	}
	return
}
