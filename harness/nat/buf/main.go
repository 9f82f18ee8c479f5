// Native enumeration of packages buffer and pool/buffer (C17, C18).
package main

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"strings"

	"github.com/donnie4w/gofer/buffer"
	pool "github.com/donnie4w/gofer/pool/buffer"
	"verif.local/v/comb"
	"verif.local/v/run"
)

func main() { run.Main(map[string]run.Maker{"C17": c17, "C18": c18}) }

func pick(thorough bool, a, b int) int {
	if thorough {
		return b
	}
	return a
}

type st struct {
	t    *run.T
	b    *buffer.Buffer
	want []byte
	log  []string
	n    byte
	strs []string // what String returned before
	was  []string // copies
}

func (s *st) fail(f string, a ...any) { s.t.Fail("%v: %s", s.log, fmt.Sprintf(f, a...)) }

func (s *st) bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		s.n = s.n*5 + 7
		b[i] = s.n
	}
	return b
}

func (s *st) check() {
	if s.b.Len() != len(s.want) || !bytes.Equal(s.b.Bytes(), s.want) || s.b.String() != string(s.want) {
		s.fail("Len %d, Bytes %q, String %q, want %q", s.b.Len(), s.b.Bytes(), s.b.String(), s.want)
	}
	for i, x := range s.strs {
		if x != s.was[i] {
			s.fail("a string that String returned has changed from %q to %q", s.was[i], x)
		}
	}
	if x := s.b.String(); len(s.strs) < 6 && x != "" {
		s.strs, s.was = append(s.strs, x), append(s.was, strings.Clone(x))
	}
}

func (s *st) wrote(n int, k int, err error) {
	if k != n || err != nil {
		s.fail("wrote %d bytes, but returned %d, %v", n, k, err)
	}
}

func (s *st) write(n int) {
	b := s.bytes(n)
	s.want = append(s.want, b...)
	k, err := s.b.Write(b)
	for i := range b {
		b[i] = '#'
	}
	s.wrote(n, k, err)
}

func (s *st) read(n int) {
	p := make([]byte, n)
	k, err := s.b.Read(p)
	switch {
	case k < 0 || k > n || k > len(s.want):
		s.fail("Read of %d bytes of %d returned %d", n, len(s.want), k)
	case !bytes.Equal(p[:k], s.want[:k]):
		s.fail("Read returned %q, the oldest bytes are %q", p[:k], s.want[:k])
	case n == 0 && (k != 0 || err != nil):
		s.fail("Read of an empty slice returned %d, %v", k, err)
	case n > 0 && len(s.want) == 0 && err != io.EOF:
		s.fail("Read of an empty buffer returned %d, %v", k, err)
	case n > 0 && len(s.want) > 0 && k == 0:
		s.fail("Read of a buffer of %d bytes returned 0, %v", len(s.want), err)
	case err != nil && (err != io.EOF || k < len(s.want)):
		s.fail("Read of %d bytes of %d returned %d, %v", n, len(s.want), k, err)
	}
	s.want = s.want[k:]
}

// drain copies the buffer as io.ReadAll does.
func (s *st) drain() {
	var got []byte
	for i := 0; ; i++ {
		p := make([]byte, 512)
		k, err := s.b.Read(p)
		got = append(got, p[:k]...)
		if err == io.EOF {
			break
		}
		if i > 1000 || err != nil {
			s.fail("reading everything does not end (%v)", err)
		}
	}
	if !bytes.Equal(got, s.want) {
		s.fail("reading everything gave %d bytes instead of %d, or others", len(got), len(s.want))
	}
	s.want = nil
}

type op struct {
	name string
	do   func(s *st)
}

func ops() (r []op) {
	add := func(n string, f func(s *st)) { r = append(r, op{n, f}) }
	add("Write(3)", func(s *st) { s.write(3) })
	add("Read(2)", func(s *st) { s.read(2) })
	add("WriteString(2)", func(s *st) {
		b := s.bytes(2)
		s.want = append(s.want, b...)
		k, err := s.b.WriteString(string(b))
		s.wrote(2, k, err)
	})
	add("WriteByte", func(s *st) {
		b := s.bytes(1)
		s.want = append(s.want, b...)
		if err := s.b.WriteByte(b[0]); err != nil {
			s.fail("WriteByte returned %v", err)
		}
	})
	for _, v := range []int{0x01020304, -2, math.MaxInt32, math.MinInt32} {
		add(fmt.Sprintf("WriteInt32(%d)", v), func(s *st) {
			s.want = append(s.want, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
			k, err := s.b.WriteInt32(v)
			s.wrote(4, k, err)
		})
	}
	add("Read(100)", func(s *st) { s.read(100) })
	add("Reset", func(s *st) { s.b.Reset(); s.want = nil })
	add("Read(0)", func(s *st) { s.read(0) })
	add("Write(0)", func(s *st) { s.write(0) })
	add("Read(1)", func(s *st) { s.read(1) })
	add("Write(200)", func(s *st) { s.write(200) })
	return
}

func c17(thorough bool) (r []run.Scenario) {
	type mk struct {
		name string
		f    func() (*buffer.Buffer, []byte)
	}
	mks := []mk{
		{"new", func() (*buffer.Buffer, []byte) { return buffer.NewBuffer(), nil }},
		{"zero", func() (*buffer.Buffer, []byte) { return new(buffer.Buffer), nil }},
		{"cap0", func() (*buffer.Buffer, []byte) { return buffer.NewBufferWithCapacity(0), nil }},
		{"cap5", func() (*buffer.Buffer, []byte) { return buffer.NewBufferWithCapacity(5), nil }},
		{"slice", func() (*buffer.Buffer, []byte) {
			return buffer.NewBufferBySlice([]byte("hello")), []byte("hello")
		}},
		{"nilslice", func() (*buffer.Buffer, []byte) { return buffer.NewBufferBySlice(nil), nil }},
		{"spare", func() (*buffer.Buffer, []byte) {
			return buffer.NewBufferBySlice(append(make([]byte, 0, 8), "hey"...)), []byte("hey")
		}},
		{"pool", func() (*buffer.Buffer, []byte) { return buffer.NewBufferByPool(), nil }},
	}
	os := ops()
	for _, m := range mks {
		for first := range os {
			r = append(r, run.Scenario{Name: "nat/buffer/" + m.name + "/" + os[first].name, Nat: func(t *run.T) {
				comb.Sequences(t, pick(thorough, 3, 4), len(os), func(seq []int) {
					s := &st{t: t, log: []string{m.name}}
					s.b, s.want = m.f()
					s.check()
					for _, i := range append([]int{first}, seq...) {
						s.log = append(s.log, os[i].name)
						os[i].do(s)
						s.check()
					}
					s.drain()
					s.write(2)
					s.check()
					if m.name == "pool" {
						s.b.Free()
					}
				})
			}})
		}
	}
	// two buffers side by side, and what one of them is told does not reach the other
	for _, a := range mks {
		for _, b := range mks {
			r = append(r, run.Scenario{Name: "nat/two/" + a.name + "/" + b.name, Nat: func(t *run.T) {
				few := os[:12]
				comb.Sequences(t, pick(thorough, 3, 4), 2*len(few), func(seq []int) {
					s := []*st{{t: t}, {t: t, n: 100}}
					s[0].b, s[0].want = a.f()
					s[1].b, s[1].want = b.f()
					var log []string
					for _, i := range seq {
						w, o := i%2, few[i/2]
						log = append(log, fmt.Sprintf("%d.%s", w, o.name))
						s[w].log, s[1-w].log = log, log
						o.do(s[w])
						s[0].check()
						s[1].check()
					}
					for w, m := range []mk{a, b} {
						if m.name == "pool" {
							s[w].b.Free()
						}
					}
				})
			}})
		}
	}
	r = append(r, run.Scenario{Name: "nat/nil", Nat: func(t *run.T) {
		var b *buffer.Buffer
		t.NoPanic("a nil Buffer", func() {
			if n, err := b.Write([]byte("x")); n != 0 || err == nil {
				t.Fail("Write on a nil Buffer returned no error")
			}
			if n, err := b.WriteString("x"); n != 0 || err == nil {
				t.Fail("WriteString on a nil Buffer returned no error")
			}
			if n, err := b.WriteInt32(1); n != 0 || err == nil {
				t.Fail("WriteInt32 on a nil Buffer returned no error")
			}
			if err := b.WriteByte(1); err == nil {
				t.Fail("WriteByte on a nil Buffer returned no error")
			}
			if n, err := b.Read(make([]byte, 1)); n != 0 || err == nil {
				t.Fail("Read on a nil Buffer returned %d, %v", n, err)
			}
			if len(b.Bytes()) != 0 || b.String() != "" || b.Len() != 0 {
				t.Fail("a nil Buffer has content")
			}
			b.Reset()
			b.Free()
		})
		t.Case(9)
	}})
	// all pairs of sizes
	r = append(r, run.Scenario{Name: "nat/sizes", Nat: func(t *run.T) {
		for n := 0; n < pick(thorough, 70, 300); n++ {
			for k := 0; k < n+3 && t.More(); k++ {
				s := &st{t: t, b: buffer.NewBuffer()}
				s.write(n)
				s.read(k)
				s.check()
				s.write(k)
				s.check()
				s.read(n)
				s.check()
				s.drain()
				t.Case(6)
			}
		}
		for v := -70000; v < 70000; v++ {
			s := &st{t: t, b: buffer.NewBuffer()}
			x := v * 30011
			k, err := s.b.WriteInt32(x)
			s.wrote(4, k, err)
			s.want = []byte{byte(x >> 24), byte(x >> 16), byte(x >> 8), byte(x)}
			s.check()
			t.Case(1)
		}
		for v := 0; v < 256; v++ {
			b := buffer.NewBuffer()
			if err := b.WriteByte(byte(v)); err != nil || b.String() != string([]byte{byte(v)}) {
				t.Fail("WriteByte(%d): %q, %v", v, b.String(), err)
			}
			t.Case(1)
		}
	}})
	// big writes, reads and copies; every threshold of size from KB to 33 MB
	for _, z := range bigSizes(thorough) {
		r = append(r, run.Scenario{Name: fmt.Sprintf("nat/large/%d", z), Nat: func(t *run.T) {
			for _, m := range mks {
				if !t.More() {
					return
				}
				s := &st{t: t, log: []string{m.name, fmt.Sprint("large ", z)}}
				s.b, s.want = m.f()
				eq := func(what string) {
					if s.b.Len() != len(s.want) || !bytes.Equal(s.b.Bytes(), s.want) {
						t.Fail("%s, %d bytes: %s: the buffer has not the %d bytes it should have, but %d, or others", m.name, z, what, len(s.want), s.b.Len())
					}
				}
				rd := func(n int) {
					p := make([]byte, n)
					k, err := s.b.Read(p)
					if k < 1 || k > n || k > len(s.want) || (err != nil && err != io.EOF) || !bytes.Equal(p[:k], s.want[:k]) {
						t.Fail("%s, %d bytes: Read of %d of %d bytes returned %d, %v, or not the oldest bytes", m.name, z, n, len(s.want), k, err)
					}
					s.want = s.want[k:]
				}
				big := s.bytes(z)
				k, err := s.b.Write(big)
				s.wrote(z, k, err)
				s.want = append(append([]byte(nil), s.want...), big...)
				eq("Write")
				rd(1)
				eq("a byte read")
				rd(z / 2)
				eq("half read")
				k, err = s.b.WriteString(string(big[:z/2+1]))
				s.wrote(z/2+1, k, err)
				s.want = append(append([]byte(nil), s.want...), big[:z/2+1]...)
				for i := range big {
					big[i] = '#'
				}
				eq("WriteString")
				if str := s.b.String(); str != string(s.want) {
					t.Fail("%s, %d bytes: String has other bytes", m.name, z)
				}
				got, err := io.ReadAll(s.b)
				if err != nil || !bytes.Equal(got, s.want) {
					t.Fail("%s, %d bytes: io.ReadAll returned %d bytes of %d, or others, %v", m.name, z, len(got), len(s.want), err)
				}
				s.want = nil
				s.write(3)
				s.check()
				s.b.Reset()
				s.want = nil
				s.check()
				s.write(2)
				s.check()
				if m.name == "pool" {
					s.b.Free()
				}
				t.Case(10)
			}
		}})
	}
	// long histories: n small writes with reads that stay w bytes behind
	for _, m := range mks {
		r = append(r, run.Scenario{Name: "nat/long/" + m.name, Nat: func(t *run.T) {
			for _, behind := range []int{0, 1, 100, 5000, 70000} {
				s := &st{t: t, log: []string{m.name, fmt.Sprint("long, behind ", behind)}}
				s.b, s.want = m.f()
				for i := 0; i < pick(thorough, 30000, 300000) && t.More(); i++ {
					if i%7 == 0 {
						b := s.bytes(4)
						x := int(b[0])<<24 | int(b[1])<<16 | int(b[2])<<8 | int(b[3])
						s.want = append(s.want, b...)
						k, err := s.b.WriteInt32(x)
						s.wrote(4, k, err)
					} else if i%7 == 1 {
						b := s.bytes(1)
						s.want = append(s.want, b...)
						if err := s.b.WriteByte(b[0]); err != nil {
							s.fail("WriteByte returned %v", err)
						}
					} else {
						s.write(1 + i%13)
					}
					if len(s.want) > behind {
						s.read(len(s.want) - behind)
					}
					if s.b.Len() != len(s.want) {
						s.fail("after %d writes: Len %d, want %d", i, s.b.Len(), len(s.want))
					}
					if i%1000 == 999 && !bytes.Equal(s.b.Bytes(), s.want) {
						s.fail("after %d writes: other bytes than the last %d", i, len(s.want))
					}
				}
				got, err := io.ReadAll(s.b)
				if err != nil || !bytes.Equal(got, s.want) {
					s.fail("io.ReadAll at the end returned %d bytes of %d, or others, %v", len(got), len(s.want), err)
				}
				t.Case(pick(thorough, 30000, 300000))
			}
		}})
	}
	return
}

func bigSizes(thorough bool) (r []int) {
	for _, z := range []int{1 << 12, 1 << 14, 1 << 15, 1 << 16, 1 << 17, 1 << 18, 1 << 20, 1 << 21, 1 << 22, 1 << 24} {
		r = append(r, z-1, z, z+1)
	}
	r = append(r, 33<<20)
	if thorough {
		r = append(r, 65<<20, 257<<20)
	}
	return
}

// holder is one pool with a way to dirty its objects.
type holder interface {
	get(s *ps, n int) any // fails when the object is not clean
	put(x any) bool
	dirty(x any, how int)
}

type ps struct {
	t   *run.T
	log []string
}

func (s *ps) fail(f string, a ...any) { s.t.Fail("%v: %s", s.log, fmt.Sprintf(f, a...)) }

type rec struct {
	n int
	s []byte
}

type recPool struct {
	p interface {
		Get() *rec
		Put(**rec) bool
	}
	reset bool
	s     *ps
}

func (p *recPool) get(s *ps, n int) any {
	p.s = s
	x := p.p.Get()
	if x == nil {
		s.fail("Get returned nil")
	}
	if p.reset && (x.n != 0 || len(x.s) != 0) {
		s.fail("Get returned an object that was not reset: %v", *x)
	}
	return x
}
func (p *recPool) put(x any) bool {
	v := x.(*rec)
	ok := p.p.Put(&v)
	if v != nil {
		p.s.fail("Put left the variable set")
	}
	if p.p.Put(&v) {
		p.s.fail("Put of nil returned true")
	}
	return ok
}
func (p *recPool) dirty(x any, how int) {
	v := x.(*rec)
	v.n = how + 1
	v.s = append(v.s, make([]byte, how*10)...)
}

type bytesPool struct{ p *pool.BufferPool }

func (p bytesPool) get(s *ps, n int) any {
	x := p.p.Get(n)
	if x == nil || x.Len() != 0 || x.String() != "" {
		s.fail("Get returned a buffer that is not empty")
	}
	return x
}
func (p bytesPool) put(x any) bool { return p.p.Put(x.(*bytes.Buffer)) }
func (p bytesPool) dirty(x any, how int) {
	b := x.(*bytes.Buffer)
	b.Write(make([]byte, []int{1, 9, 100, 5000}[how%4]))
	if how%3 == 1 {
		b.Next(1)
	}
}

type bufPool struct{}

func (p bufPool) get(s *ps, n int) any {
	x := buffer.NewBufferByPool()
	if n == 0 {
		return clean(s, x)
	}
	return clean(s, x)
}
func clean(s *ps, x *buffer.Buffer) *buffer.Buffer {
	if x == nil || x.Len() != 0 || len(*x) != 0 {
		s.fail("the pool returned a Buffer that is not empty")
	}
	return x
}
func (p bufPool) put(x any) bool { x.(*buffer.Buffer).Free(); return true }
func (p bufPool) dirty(x any, how int) {
	b := x.(*buffer.Buffer)
	b.Write(make([]byte, 1+how*20))
	if how%3 == 1 {
		b.Read(make([]byte, 1))
	}
	if how == 2 {
		*b = nil
	}
}

type bufPool2 struct{ bufPool }

func (p bufPool2) get(s *ps, n int) any { return clean(s, buffer.BufPool.Get()) }
func (p bufPool2) put(x any) bool {
	v := x.(*buffer.Buffer)
	return buffer.BufPool.Put(&v) && v == nil
}

func c18(thorough bool) (r []run.Scenario) {
	mks := map[string]func() holder{
		"pool-reset": func() holder {
			return &recPool{p: pool.NewPool(func() *rec { return &rec{n: 7, s: []byte("new")} }, func(r *rec) { r.n = 0; r.s = r.s[:0] }), reset: true}
		},
		"pool-nilconstructor": func() holder {
			return &recPool{p: pool.NewPool(nil, func(r *rec) { *r = rec{} }), reset: true}
		},
		"pool-noreset": func() holder { return &recPool{p: pool.NewPool[rec](nil, nil)} },
		"buffer":       func() holder { return bufPool{} },
		"bufpool":      func() holder { return bufPool2{} },
	}
	for _, n := range []int{1, 2, 3, 5, 20, 61, 70} {
		mks[fmt.Sprintf("bufferpool-%d", n)] = func() holder { return bytesPool{pool.NewBufferPool(n)} }
	}
	sizes := []int{0, 1, 8, 100, 5000, -1}
	for name, mk := range mks {
		r = append(r, run.Scenario{Name: "nat/pool/" + name, Nat: func(t *run.T) {
			// operations: get of a size (6), put of the oldest or newest held object after making it dirty (8),
			// or before, when the holder still has a pointer to it (2)
			comb.Sequences(t, pick(thorough, 5, 6), len(sizes)+10, func(seq []int) {
				p := mk()
				s := &ps{t: t}
				var held []any
				var marks []int
				for _, o := range seq {
					if o < len(sizes) {
						s.log = append(s.log, fmt.Sprintf("Get(%d)", sizes[o]))
						x := p.get(s, sizes[o])
						for _, y := range held {
							if x == y {
								s.fail("Get returned an object that someone holds")
							}
						}
						held, marks = append(held, x), append(marks, o)
						continue
					}
					if len(held) == 0 {
						continue
					}
					o -= len(sizes)
					i := 0
					if o >= 4 && o < 8 || o == 9 {
						i = len(held) - 1
					}
					x := held[i]
					if o < 8 {
						s.log = append(s.log, fmt.Sprintf("Put(%d, dirty %d)", i, o%4))
						p.dirty(x, o%4)
					} else {
						s.log = append(s.log, fmt.Sprintf("Put(%d), dirty then", i))
					}
					if !p.put(x) {
						s.fail("Put of an object returned false")
					}
					if o >= 8 {
						p.dirty(x, 1)
					}
					held = append(held[:i:i], held[i+1:]...)
				}
				for _, x := range held {
					p.put(x)
				}
			})
		}})
	}
	// many objects at a time, and objects that have been big
	for name, mk := range mks {
		for _, n := range []int{17, 70, 300, 1100} {
			r = append(r, run.Scenario{Name: fmt.Sprintf("nat/many/%s/%d", name, n), Nat: func(t *run.T) {
				p := mk()
				s := &ps{t: t, log: []string{fmt.Sprintf("%d objects", n)}}
				held := map[any]bool{}
				var order []any
				get := func(size int) {
					x := p.get(s, size)
					if held[x] {
						s.fail("Get returned an object that someone holds")
					}
					held[x] = true
					order = append(order, x)
				}
				for round := 0; round < pick(thorough, 4, 20) && t.More(); round++ {
					for i := 0; i < n; i++ {
						get(i * 37 % 9000)
					}
					for i := 0; i < n-round%3*n/3; i++ {
						x := order[len(order)-1]
						if i%2 == 0 {
							x = order[0]
							order = order[1:]
						} else {
							order = order[:len(order)-1]
						}
						delete(held, x)
						p.dirty(x, i%4)
						if !p.put(x) {
							s.fail("Put of an object returned false")
						}
						if i%5 == 0 {
							get(i * 53 % 9000)
						}
					}
					t.Case(2 * n)
				}
			}})
		}
	}
	for _, n := range []int{1, 2, 3, 5, 20, 61} {
		r = append(r, run.Scenario{Name: fmt.Sprintf("nat/big/bufferpool-%d", n), Nat: func(t *run.T) {
			p := pool.NewBufferPool(n)
			s := &ps{t: t}
			for _, z := range bigSizes(thorough) {
				if !t.More() {
					return
				}
				s.log = []string{fmt.Sprintf("buffers of %d bytes", z)}
				a := bytesPool{p}.get(s, z).(*bytes.Buffer)
				a.Write(make([]byte, z))
				if !p.Put(a) {
					s.fail("Put of a big buffer returned false")
				}
				x := bytesPool{p}.get(s, z).(*bytes.Buffer)
				y := bytesPool{p}.get(s, z).(*bytes.Buffer)
				w := bytesPool{p}.get(s, 10).(*bytes.Buffer)
				if x == y || x == w || y == w {
					s.fail("Get returned an object that someone holds")
				}
				for _, b := range []*bytes.Buffer{x, y, w} {
					b.WriteString("abc")
					if b.String() != "abc" {
						s.fail("a buffer of the pool is not usable: %q", b.String())
					}
					p.Put(b)
				}
				t.Case(6)
			}
		}})
	}
	r = append(r, run.Scenario{Name: "nat/big/buffer", Nat: func(t *run.T) {
		s := &ps{t: t}
		for _, z := range bigSizes(thorough) {
			if !t.More() {
				return
			}
			s.log = []string{fmt.Sprintf("buffers of %d bytes", z)}
			for how := 0; how < 2; how++ {
				a := clean(s, buffer.NewBufferByPool())
				a.Write(make([]byte, z))
				if how == 0 {
					a.Free()
				} else if !buffer.BufPool.Put(&a) || a != nil {
					s.fail("Put of a big buffer returned false or left the variable set")
				}
				x, y := clean(s, buffer.NewBufferByPool()), clean(s, buffer.BufPool.Get())
				if x == y {
					s.fail("Get returned an object that someone holds")
				}
				x.WriteString("abc")
				y.WriteString("xyzt")
				if x.String() != "abc" || y.String() != "xyzt" {
					s.fail("buffers of the pool hold %q and %q", x.String(), y.String())
				}
				x.Free()
				y.Free()
				t.Case(4)
			}
		}
	}})
	r = append(r, run.Scenario{Name: "nat/pool/nil", Nat: func(t *run.T) {
		p := pool.NewBufferPool(3)
		if p.Put(nil) {
			t.Fail("BufferPool.Put(nil) returned true")
		}
		q := pool.NewPool[rec](nil, nil)
		var x *rec
		if q.Put(&x) {
			t.Fail("Put of nil returned true")
		}
		for i := 0; i < 3; i++ {
			if p.Get(1) == nil || q.Get() == nil {
				t.Fail("Get returned nil after Put of nil")
			}
		}
		t.Case(8)
	}})
	return
}
