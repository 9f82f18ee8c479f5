// Native enumeration for package mmap (C19, C20) with real files and mappings of the running kernel: it ties the
// in-memory files of part ctl to the real thing and reaches offsets and sizes that those cannot have.
package main

import (
	"bufio"
	"bytes"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"unsafe"

	"github.com/donnie4w/gofer/mmap"
	"verif.local/v/run"
)

func main() { run.Main(map[string]run.Maker{"C19": c19, "C20": c20}) }

func pick(thorough bool, a, b int) int {
	if thorough {
		return b
	}
	return a
}

func pattern(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = 'A' + byte(i%23)
	}
	return b
}

func fill(n int, seed byte) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7+i>>9) + seed | 1
	}
	return b
}

func open(t *run.T, name string, size, start int64, content []byte) (*mmap.Mmap, *os.File) {
	f, err := os.OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0600)
	if err == nil {
		err = f.Truncate(size)
	}
	if err == nil {
		_, err = f.WriteAt(content, 0)
	}
	if err != nil {
		panic(err)
	}
	m, err := mmap.NewMMAP(f, start)
	if err != nil {
		t.Fail("NewMMAP of %d bytes at %d: %v", size, start, err)
	}
	return m, f
}

// part is one stretch of the file.
func part(t *run.T, name string, off int64, n int) []byte {
	f, err := os.Open(name)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	b := make([]byte, n)
	if k, err := f.ReadAt(b, off); k != n {
		t.Fail("the file has not %d bytes at %d: %v", n, off, err)
	}
	return b
}

func closed(f *os.File) bool { _, err := f.Stat(); return err != nil }

// mapped tells whether the file is still mapped into this process.
func mapped(name string) bool {
	b, _ := os.ReadFile("/proc/self/maps")
	return strings.Contains(string(b), name+"\n")
}

func finish(t *run.T, what, end, name string, m *mmap.Mmap, f *os.File) {
	var err error
	switch end {
	case "Flush":
		err = m.Flush()
	case "Close":
		err = m.Close()
	case "Unmap":
		err = m.Unmap()
	case "UnmapAndCloseFile":
		err = m.UnmapAndCloseFile()
	}
	if err != nil {
		t.Fail("%s: %s: %v", what, end, err)
	}
	if is := mapped(name); is != (end == "Flush") {
		t.Fail("%s: after %s the file is mapped: %v", what, end, is)
	}
	if is := closed(f); is != (end == "UnmapAndCloseFile") {
		t.Fail("%s: after %s the file is closed: %v", what, end, is)
	}
	if end == "Flush" {
		m.Unmap()
	}
	f.Close()
}

var ends = []string{"Flush", "Close", "Unmap", "UnmapAndCloseFile"}

func c19(thorough bool) (r []run.Scenario) {
	type op struct {
		name string
		at   int64 // -1 append
		b    []byte
		sync bool
	}
	for _, size := range []int{1, 10, 4096, 5000} {
		var ops []op
		x := fill(size/2+1, 3)
		for _, b := range [][]byte{[]byte("a"), nil, []byte("bcd"), x, x[:size/2]} {
			ops = append(ops, op{"Append", -1, b, false})
		}
		for _, a := range []int64{0, int64(size / 2), int64(size) - 1, int64(size), -2, math.MaxInt64, math.MinInt64, 1 << 32} {
			ops = append(ops, op{"WriteAt", a, []byte("e"), false})
		}
		ops = append(ops, op{"WriteAt", int64(size), nil, false}, op{"WriteAt", int64(size) - 1, []byte("fg"), false}, op{"WriteAt", int64(size - len(x)), x, false}, op{"AppendSync", -1, []byte("h"), true}, op{"WriteAtSync", 0, []byte("i"), true})
		for first := range ops {
			r = append(r, run.Scenario{Name: fmt.Sprintf("nat/sequences/%d/%d", size, first), Nat: func(t *run.T) {
				name := filepath.Join(t.Dir(), "m")
				defer os.Remove(name)
				nth := first
				var rec func(seq []int)
				one := func(seq []int) {
					nth++
					start := int64([]int{0, size / 3, size - 1}[nth%3])
					end := ends[nth/3%4]
					m, f := open(t, name, int64(size), start, pattern(size))
					want, pos := pattern(size), start
					var log []string
					for _, i := range seq {
						o := ops[i]
						log = append(log, fmt.Sprintf("%s(%d bytes at %d)", o.name, len(o.b), o.at))
						what := fmt.Sprintf("file of %d bytes, start %d: %v", size, start, log)
						at := o.at
						if o.at == -1 {
							at = pos
						}
						fits := at >= 0 && at <= int64(size-len(o.b))
						var err error
						var n int64
						in := append([]byte{}, o.b...)
						t.NoPanic(what, func() {
							switch o.name {
							case "Append":
								n, err = m.Append(in)
							case "AppendSync":
								n, err = m.AppendSync(in)
							case "WriteAt":
								err = m.WriteAt(in, int(at))
							case "WriteAtSync":
								err = m.WriteAtSync(in, int(at))
							}
						})
						if fits != (err == nil) || (err == nil && o.at == -1 && n != pos) {
							t.Fail("%s returned %d, %v; the position was %d", what, n, err, pos)
						}
						if fits {
							copy(want[at:], o.b)
							pos = max(pos, at+int64(len(o.b)))
						}
						if !bytes.Equal(m.Bytes(), want) || m.FileSize() != int64(size) {
							t.Fail("%s: the mapping has another content", what)
						}
					}
					what := fmt.Sprintf("file of %d bytes, start %d: %v", size, start, log)
					finish(t, what, end, name, m, f)
					if got, _ := os.ReadFile(name); !bytes.Equal(got, want) {
						t.Fail("%s, %s: the file has another content (%d bytes)", what, end, len(got))
					}
					t.Case(len(seq) + 1)
				}
				rec = func(seq []int) {
					one(seq)
					if len(seq) < pick(thorough, 3, 4) {
						for i := range ops {
							if ops[i].sync && len(seq) > 1 {
								continue
							}
							if !t.More() {
								return
							}
							rec(append(seq[:len(seq):len(seq)], i))
						}
					}
				}
				rec([]int{first})
			}})
		}
	}
	// positions beyond 2, 4 and 8 GB
	for _, base := range []int64{1 << 31, 1 << 32, 1 << 33} {
		for _, end := range ends {
			r = append(r, run.Scenario{Name: fmt.Sprintf("nat/far/%d/%s", base, end), Nat: func(t *run.T) {
				name := filepath.Join(t.Dir(), "m")
				defer os.Remove(name)
				size := base + 20000
				for _, start := range []int64{0, base - 5000, base - 3, base - 1, base, base + 1, base + 4099} {
					what := fmt.Sprintf("file of %d bytes, start %d", size, start)
					m, f := open(t, name, size, start, []byte("head"))
					if m.FileSize() != size || int64(len(m.Bytes())) != size {
						t.Fail("%s: FileSize %d, %d bytes are mapped", what, m.FileSize(), len(m.Bytes()))
					}
					put := map[int64][]byte{}
					pos := start
					for i, b := range [][]byte{fill(3, 1), fill(4097, 2), fill(6, 4)} {
						var n int64
						var err error
						if i%2 == 0 {
							n, err = m.Append(b)
						} else {
							n, err = m.AppendSync(b)
						}
						if err != nil || n != pos {
							t.Fail("%s: append of %d bytes returned %d, %v; the position was %d", what, len(b), n, err, pos)
						}
						put[pos] = b
						pos += int64(len(b))
					}
					for i, at := range []int64{base + 11111, base + 15000, base + 19990} {
						b := fill(7, byte(10+i))
						var err error
						if i%2 == 0 {
							err = m.WriteAt(b, int(at))
						} else {
							err = m.WriteAtSync(b, int(at))
						}
						if err != nil {
							t.Fail("%s: write at %d: %v", what, at, err)
						}
						put[at] = b
					}
					for _, at := range []int64{size, size - 1, -1, -base, math.MaxInt64 - 1, math.MinInt64, size + base, 1 << 40} {
						if err := m.WriteAt([]byte("xy"), int(at)); err == nil {
							t.Fail("%s: two bytes at %d returned no error", what, at)
						}
					}
					if n, err := m.Append(fill(4, 30)); err == nil {
						t.Fail("%s: an append of four bytes when three are left returned %d", what, n)
					}
					if n, err := m.Append(fill(3, 31)); err != nil || n != size-3 {
						t.Fail("%s: the append of the last three bytes returned %d, %v", what, n, err)
					}
					put[size-3] = fill(3, 31)
					for at, b := range put {
						if !bytes.Equal(m.Bytes()[at:at+int64(len(b))], b) {
							t.Fail("%s: the mapping has not the bytes written at %d", what, at)
						}
					}
					finish(t, what, end, name, m, f)
					for at, b := range put {
						if !bytes.Equal(part(t, name, at, len(b)), b) {
							t.Fail("%s, %s: the file has not the bytes written at %d", what, end, at)
						}
					}
					// nothing else was touched
					want := make([]byte, 20000+5000)
					for at, b := range put {
						if at >= base-5000 {
							copy(want[at-(base-5000):], b)
						}
					}
					if !bytes.Equal(part(t, name, base-5000, len(want)), want) {
						t.Fail("%s, %s: something else in the last bytes of the file was changed", what, end)
					}
					low := make([]byte, 5000)
					copy(low, "head")
					if start == 0 {
						for at, b := range put {
							if at < 5000 {
								copy(low[at:], b)
							}
						}
					}
					if !bytes.Equal(part(t, name, 0, len(low)), low) {
						t.Fail("%s, %s: something else at the start of the file was changed", what, end)
					}
					t.Case(17)
				}
			}})
		}
	}
	// big and many appends
	for _, z := range []int{1<<16 + 1, 1<<20 - 1, 1 << 20, 1<<22 + 3, 1<<24 + 1, 65 << 20} {
		r = append(r, run.Scenario{Name: fmt.Sprintf("nat/large/%d", z), Nat: func(t *run.T) {
			name := filepath.Join(t.Dir(), "m")
			defer os.Remove(name)
			m, f := open(t, name, int64(2*z+10), 1, nil)
			want := make([]byte, 2*z+10)
			b, c := fill(z, 5), fill(z, 9)
			if n, err := m.Append(b); err != nil || n != 1 {
				t.Fail("Append of %d bytes returned %d, %v", z, n, err)
			}
			copy(want[1:], b)
			if err := m.WriteAt(c, z+5); err != nil {
				t.Fail("WriteAt of %d bytes: %v", z, err)
			}
			copy(want[z+5:], c)
			if n, err := m.Append(b[:6]); err == nil {
				t.Fail("an append of six bytes when five are left returned %d", n)
			}
			if n, err := m.Append(b[:5]); err != nil || n != int64(2*z+5) {
				t.Fail("the append of the last five bytes returned %d, %v", n, err)
			}
			copy(want[2*z+5:], b[:5])
			finish(t, fmt.Sprintf("%d bytes", z), ends[z%4], name, m, f)
			if got, _ := os.ReadFile(name); !bytes.Equal(got, want) {
				t.Fail("the file of %d bytes has another content", len(want))
			}
			t.Case(4)
		}})
	}
	for _, gs := range []int{1, 2, 8, 64} {
		r = append(r, run.Scenario{Name: fmt.Sprintf("nat/many/%d", gs), Nat: func(t *run.T) {
			// every goroutine appends its own numbered bytes; a bounded number, whatever the schedule: the ranges are checked
			name := filepath.Join(t.Dir(), "m")
			defer os.Remove(name)
			per := pick(thorough, 40000, 400000) / gs
			size := int64(0)
			for i := 0; i < per; i++ {
				size += int64(1 + i%9)
			}
			size *= int64(gs)
			m, f := open(t, name, size+7, 7, []byte("initial"))
			at := make([][]int64, gs)
			var wg sync.WaitGroup
			for g := 0; g < gs; g++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := 0; i < per; i++ {
						n, err := m.Append(fill(1+i%9, byte(g*31+i)))
						if err != nil {
							t.Note("append %d of %d: %v", i, per, err)
						}
						at[g] = append(at[g], n)
					}
				}()
			}
			wg.Wait()
			t.Check()
			if n, err := m.Append([]byte{1}); err == nil {
				t.Fail("an append to a full file returned %d", n)
			}
			taken := make([]bool, size+7)
			c := m.Bytes()
			for g := range at {
				last := int64(0)
				for i, a := range at[g] {
					n := int64(1 + i%9)
					if a < 7 || a+n > size+7 || a < last {
						t.Fail("an append returned %d in a file of %d bytes, after %d", a, size+7, last)
					}
					last = a
					for j := a; j < a+n; j++ {
						if taken[j] {
							t.Fail("two appends got byte %d", j)
						}
						taken[j] = true
					}
					if !bytes.Equal(c[a:a+n], fill(int(n), byte(g*31+i))) {
						t.Fail("the %d bytes at %d are not those appended", n, a)
					}
				}
			}
			if string(c[:7]) != "initial" {
				t.Fail("the first bytes were changed to %q", c[:7])
			}
			finish(t, "many", ends[gs%4], name, m, f)
			t.Case(per * gs)
		}})
	}
	return
}

// dirty is how much of the mapping at p the kernel holds as changed since it was last written to the file.
func dirty(p []byte) (kb int, ok bool) {
	f, err := os.Open("/proc/self/smaps")
	if err != nil {
		return
	}
	defer f.Close()
	lo := uintptr(unsafe.Pointer(&p[0]))
	hi := lo + uintptr(len(p))
	in := false
	for s := bufio.NewScanner(f); s.Scan(); {
		l := s.Text()
		var a, b uintptr
		if n, _ := fmt.Sscanf(l, "%x-%x ", &a, &b); n == 2 && !strings.Contains(strings.Fields(l)[0], ":") {
			in = a < hi && b > lo
			ok = ok || in
			continue
		}
		var v int
		if in && (strings.HasPrefix(l, "Private_Dirty:") || strings.HasPrefix(l, "Shared_Dirty:")) {
			fmt.Sscanf(strings.Fields(l)[1], "%d", &v)
			kb += v
		}
	}
	return
}

func msync(p []byte) {
	if _, _, e := syscall.Syscall(syscall.SYS_MSYNC, uintptr(unsafe.Pointer(&p[0])), uintptr(len(p)), syscall.MS_SYNC); e != 0 {
		panic(e)
	}
}

// tells reports whether this kernel and file system show what is not flushed: a changed page is counted, and not any more once
// msync has returned.
func tells(m *mmap.Mmap) bool {
	p := m.Bytes()
	msync(p)
	for i := 0; i < 3; i++ {
		p[0]++
		if kb, ok := dirty(p); !ok || kb == 0 {
			return false
		}
		msync(p)
		if kb, _ := dirty(p); kb != 0 {
			return false
		}
	}
	return true
}

func c20(thorough bool) (r []run.Scenario) {
	// what the kernel still holds as changed after a Sync call, a Flush or a Close has returned
	for _, size := range []int64{1, 4096, 20000, 65536, 1<<31 + 20000, 1<<32 + 20000, 1<<33 + 20000} {
		for _, kind := range []string{"AppendSync", "WriteAtSync", "Flush"} {
			r = append(r, run.Scenario{Name: fmt.Sprintf("nat/kernel/%s/%d", kind, size), Nat: func(t *run.T) {
				name := filepath.Join(t.Dir(), "m")
				defer os.Remove(name)
				m, f := open(t, name, size, 0, nil)
				can := tells(m)
				m.Unmap()
				f.Close()
				if !can {
					t.Sample("this kernel does not tell what is flushed")
				}
				base := max(0, size-20000)
				for _, d := range []int64{0, 1, 4090, 4095, 4096, 4097, 8191, 12288, 15000, 19999} {
					for _, n := range []int64{0, 1, 2, 100, 4095, 4096, 4097, 8193, 12289} {
						at := base + d
						if at+n > size || at >= size || !t.More() {
							continue
						}
						what := fmt.Sprintf("file of %d bytes: %s of %d bytes at %d", size, kind, n, at)
						m, f := open(t, name, size, at, nil)
						b := fill(int(n), byte(d))
						var err error
						t.NoPanic(what, func() {
							switch kind {
							case "AppendSync":
								_, err = m.AppendSync(b)
							case "WriteAtSync":
								err = m.WriteAtSync(b, int(at))
							default:
								m.Append(b)
								if at > 0 {
									m.WriteAt([]byte{1}, 0)
								}
								err = m.Flush()
							}
						})
						if err != nil {
							t.Fail("%s: %v", what, err)
						}
						if kb, ok := dirty(m.Bytes()); can && ok && kb != 0 {
							t.Fail("%s returned, and the kernel still holds %d kB of it that are not written to the file", what, kb)
						}
						if !bytes.Equal(part(t, name, at, len(b)), b) {
							t.Fail("%s returned, but the file has other bytes there", what)
						}
						m.Unmap()
						f.Close()
						t.Case(2)
					}
				}
			}})
		}
	}
	for _, n := range []int{1 << 20, 1<<20 + 1, 1<<24 + 5, 65 << 20} {
		r = append(r, run.Scenario{Name: fmt.Sprintf("nat/kernel/large/%d", n), Nat: func(t *run.T) {
			name := filepath.Join(t.Dir(), "m")
			defer os.Remove(name)
			m, f := open(t, name, int64(n)+9, 5, nil)
			can := tells(m)
			for i := 0; i < 4; i++ {
				var err error
				what := "Flush"
				switch i {
				case 0:
					what = "AppendSync"
					_, err = m.AppendSync(fill(n, 1))
				case 1:
					what = "WriteAtSync"
					err = m.WriteAtSync(fill(n, 2), 9)
				case 2:
					m.WriteAt(fill(n, 3), 7)
					err = m.Flush()
				case 3:
					what = "an empty AppendSync"
					_, err = m.AppendSync(nil)
				}
				if err != nil {
					t.Fail("%s of %d bytes: %v", what, n, err)
				}
				if kb, ok := dirty(m.Bytes()); can && ok && kb != 0 {
					t.Fail("%s of %d bytes returned, and the kernel still holds %d kB that are not written to the file", what, n, kb)
				}
				t.Case(2)
			}
			m.Unmap()
			f.Close()
		}})
	}
	return
}
