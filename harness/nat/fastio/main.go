// Native enumeration of package fastio (C15): all sequences of calls on a real file against a byte slice.
package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"

	"github.com/donnie4w/gofer/fastio"
	"verif.local/v/comb"
	"verif.local/v/run"
)

func main() { run.Main(map[string]run.Maker{"C15": c15}) }

type st struct {
	t    *run.T
	path string
	app  bool
	f    fastio.File
	want []byte
	log  []string
	n    byte
}

func (s *st) open() {
	var err error
	if s.app {
		s.f, err = fastio.Open(s.path)
	} else {
		var h *os.File
		if h, err = os.OpenFile(s.path, os.O_RDWR|os.O_CREATE, 0666); err == nil {
			s.f, err = fastio.New(h)
		}
	}
	if err != nil {
		s.t.Fail("open: %v", err)
	}
}

func (s *st) bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		s.n = s.n*5 + 7
		b[i] = s.n
	}
	return b
}

func (s *st) write(n int) {
	b := s.bytes(n)
	s.want = append(s.want, b...)
	k, err := s.f.Write(b)
	clear(b)
	if k != n || err != nil {
		s.t.Fail("%v: Write of %d bytes returned %d, %v", s.log, n, k, err)
	}
}

func (s *st) sync(n int) {
	b := s.bytes(n)
	off := int64(len(s.want))
	s.want = append(s.want, b...)
	k, err := s.f.WriteSync(b)
	clear(b)
	if k != off || err != nil {
		s.t.Fail("%v: WriteSync of %d bytes returned %d, %v, want %d", s.log, n, k, err, off)
	}
	s.check()
}

func (s *st) check() {
	c, err := os.ReadFile(s.path)
	if err != nil || !bytes.Equal(c, s.want) {
		s.t.Fail("%v: the file has %d bytes instead of %d, or others (%v)", s.log, len(c), len(s.want), err)
	}
}

func (s *st) readAt(off, n int) {
	b := make([]byte, n)
	k, err := s.f.ReadAt(b, int64(off))
	w := 0
	if off < len(s.want) {
		w = min(n, len(s.want)-off)
	}
	if k != w || k > 0 && !bytes.Equal(b[:k], s.want[off:off+k]) || k < n && err == nil {
		s.t.Fail("%v: ReadAt(%d bytes, %d) of %d returned %d, %v", s.log, n, off, len(s.want), k, err)
	}
}

func (s *st) writeAt(off, n int) {
	if off < 0 || off+n > len(s.want) { // only within the content: extending it is not what the appenders know about
		return
	}
	b := s.bytes(n)
	k, err := s.f.WriteAt(b, int64(off))
	if k != n || err != nil {
		s.t.Fail("%v: WriteAt(%d bytes, %d) returned %d, %v", s.log, n, off, k, err)
	}
	copy(s.want[off:], b)
	s.check()
}

func c15(thorough bool) (r []run.Scenario) {
	type op struct {
		name string
		do   func(s *st)
	}
	var ops []op
	for _, n := range []int{0, 1, 4095, 4097} {
		ops = append(ops, op{fmt.Sprintf("Write(%d)", n), func(s *st) { s.write(n) }}, op{fmt.Sprintf("WriteSync(%d)", n), func(s *st) { s.sync(n) }})
	}
	ops = append(ops, op{"Write(70000)", func(s *st) { s.write(70000) }},
		op{"ReadAt", func(s *st) { s.readAt(0, 10); s.readAt(3, 4096); s.readAt(len(s.want), 1); s.readAt(0, len(s.want)) }},
		op{"reopen", func(s *st) {
			if err := s.f.Close(); err != nil {
				s.t.Fail("%v: Close: %v", s.log, err)
			}
			s.check()
			s.open()
		}})
	for _, app := range []bool{true, false} {
		ops := ops
		if !app {
			ops = append(ops[:len(ops):len(ops)], op{"WriteAt", func(s *st) { s.writeAt(0, 1); s.writeAt(2, 5); s.writeAt(len(s.want)-1, 1) }})
		}
		for first := range ops {
			for _, pre := range []int{0, 5} {
				r = append(r, run.Scenario{Name: fmt.Sprintf("nat/append=%v/%d/%s", app, pre, ops[first].name), Nat: func(t *run.T) {
					d := 3
					if thorough {
						d = 4
					}
					path := filepath.Join(t.Dir(), "f")
					comb.Sequences(t, d, len(ops), func(seq []int) {
						s := &st{t: t, path: path, app: app}
						os.Remove(path)
						if pre > 0 {
							s.want = []byte("start")[:pre]
							os.WriteFile(path, s.want, 0666)
						}
						s.open()
						for _, i := range append([]int{first}, seq...) {
							s.log = append(s.log, ops[i].name)
							ops[i].do(s)
						}
						s.f.Close()
						s.check()
					})
				}})
			}
		}
	}
	// megabytes
	for _, app := range []bool{true, false} {
		r = append(r, run.Scenario{Name: fmt.Sprintf("nat/large/append=%v", app), Nat: func(t *run.T) {
			sizes := []int{1<<20 - 1, 1<<20 + 1, 4<<20 + 1, 16<<20 + 1, 33 << 20, 65<<20 + 1}
			if thorough {
				sizes = append(sizes, 129<<20, 257<<20)
			}
			path := filepath.Join(t.Dir(), "f")
			for _, n := range sizes {
				for kind := 0; kind < 2 && t.More(); kind++ {
					s := &st{t: t, path: path, app: app, log: []string{fmt.Sprint("large ", n)}}
					os.Remove(path)
					s.open()
					s.write(3)
					if kind == 0 {
						s.write(n)
					} else {
						s.sync(n)
					}
					s.write(5)
					s.sync(7)
					s.readAt(1, n)
					s.readAt(n, 8)
					if !app {
						s.writeAt(2, n)
					}
					if err := s.f.Close(); err != nil {
						t.Fail("Close: %v", err)
					}
					s.check()
					t.Case(8)
				}
			}
			os.Remove(path)
		}}, run.Scenario{Name: fmt.Sprintf("nat/far/append=%v", app), Nat: func(t *run.T) {
			// files with a hole, so that offsets need more than 31, 32 and 40 bits
			for _, at := range []int64{1<<31 - 3, 1<<32 - 3, 1 << 33, 1<<40 + 5} {
				path := filepath.Join(t.Dir(), "far")
				h, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0666)
				if err != nil {
					panic(err)
				}
				if h.Truncate(at) != nil { // not every file system has files of that size
					h.Close()
					os.Remove(path)
					continue
				}
				h.Close()
				s := &st{t: t, path: path, app: app}
				s.open()
				pos := at
				for i := 0; i < 6; i++ {
					b := s.bytes(5)
					if i%2 == 0 {
						if k, err := s.f.WriteSync(b); k != pos || err != nil {
							t.Fail("WriteSync at the end of a file of %d bytes returned %d, %v", pos, k, err)
						}
					} else if k, err := s.f.Write(b); k != 5 || err != nil {
						t.Fail("Write at the end of a file of %d bytes returned %d, %v", pos, k, err)
					}
					got := make([]byte, 5)
					s.want = append(s.want, b...)
					pos += 5
					if i%2 == 0 {
						if k, err := s.f.ReadAt(got, pos-5); k != 5 || err != nil || !bytes.Equal(got, b) {
							t.Fail("ReadAt(5 bytes, %d) returned %d, %v: % x, want % x", pos-5, k, err, got, b)
						}
					}
				}
				if !app {
					if k, err := s.f.WriteAt([]byte("##"), at+1); k != 2 || err != nil {
						t.Fail("WriteAt(2 bytes, %d) returned %d, %v", at+1, k, err)
					}
					copy(s.want[1:], "##")
				}
				if err := s.f.Close(); err != nil {
					t.Fail("Close: %v", err)
				}
				h, _ = os.Open(path)
				got := make([]byte, len(s.want)+1)
				if k, _ := h.ReadAt(got, at); k != len(s.want) || !bytes.Equal(got[:k], s.want) {
					t.Fail("a file of %d bytes ends, after writes, with % x instead of % x", at, got[:k], s.want)
				}
				h.Close()
				os.Remove(path)
				t.Case(15)
			}
		}})
	}
	r = append(r, run.Scenario{Name: "nat/unusable", Nat: func(t *run.T) {
		d := t.Dir()
		t.NoPanic("Open", func() {
			for _, p := range []string{d, filepath.Join(d, "no", "such"), "", "a\x00b"} {
				if f, err := fastio.Open(p); err == nil {
					t.Fail("Open of %q returned %v and no error", p, f)
				}
			}
			h, err := os.Create(filepath.Join(d, "closed"))
			if err != nil {
				panic(err)
			}
			h.Close()
			if f, err := fastio.New(h); err == nil {
				t.Fail("New of a closed file returned %v and no error", f)
			}
			f, err := fastio.Open(filepath.Join(d, "f"))
			if err != nil {
				t.Fail("Open returned %v", err)
			}
			f.Close()
			if n, err := f.Write([]byte("x")); n != 0 || err == nil {
				t.Fail("Write after Close returned %d, %v", n, err)
			}
			if _, err := f.WriteSync([]byte("x")); err == nil {
				t.Fail("WriteSync after Close returned no error")
			}
			f.Close()
			// every call on a file closed after reads and writes, opened in either way
			for _, app := range []bool{true, false} {
				for _, used := range []bool{true, false} {
					p := filepath.Join(d, fmt.Sprint("g", app, used))
					var f fastio.File
					if app {
						f, err = fastio.Open(p)
					} else {
						h, e := os.Create(p)
						if e != nil {
							panic(e)
						}
						f, err = fastio.New(h)
					}
					if err != nil {
						t.Fail("opening %q returned %v", p, err)
					}
					if used {
						b := make([]byte, 3)
						if off, err := f.WriteSync([]byte("content")); off != 0 || err != nil {
							t.Fail("WriteSync returned %d, %v", off, err)
						}
						if n, err := f.ReadAt(b, 2); n != 3 || string(b) != "nte" {
							t.Fail("ReadAt returned %d, %v", n, err)
						}
					}
					if err := f.Close(); err != nil {
						t.Fail("Close returned %v", err)
					}
					for i := 0; i < 2; i++ {
						for what, do := range map[string]func() (int, error){
							"Read":    func() (int, error) { return f.Read(make([]byte, 3)) },
							"ReadAt":  func() (int, error) { return f.ReadAt(make([]byte, 3), 1) },
							"Write":   func() (int, error) { return f.Write([]byte("xyz")) },
							"WriteAt": func() (int, error) { return f.WriteAt([]byte("xyz"), 1) },
							"WriteSync": func() (int, error) {
								_, err := f.WriteSync([]byte("xyz"))
								return 0, err
							},
						} {
							if n, err := do(); n != 0 || err == nil {
								t.Fail("%s after Close (append %v, used before %v) returned %d, %v", what, app, used, n, err)
							}
						}
						f.Close()
					}
					want := ""
					if used {
						want = "content"
					}
					if c, _ := os.ReadFile(p); string(c) != want {
						t.Fail("after calls on a closed file it has %q, want %q", c, want)
					}
				}
			}
		})
		t.Case(60)
	}})
	return
}
