// Controlled exploration of packages buffer and pool/buffer (C17, C18).
package main

import (
	"bytes"
	"fmt"

	"github.com/donnie4w/gofer/buffer"
	pool "github.com/donnie4w/gofer/pool/buffer"
	"verif.local/v/mc"
	"verif.local/v/run"
	vsync "verif.local/v/shim/sync"
)

func main() {
	vsync.PoolChoice = 1
	run.Main(map[string]run.Maker{"C17": c17, "C18": c18})
}

// c17: goroutines with a buffer of their own each.
func c17(thorough bool) (r []run.Scenario) {
	type op struct {
		name string
		do   func(e *mc.Exec, b *buffer.Buffer, who int) string
	}
	ops := []op{
		{"Write", func(e *mc.Exec, b *buffer.Buffer, who int) string {
			p := []byte{byte(who), 1, 2}
			b.Write(p)
			return string(p)
		}},
		{"WriteInt32", func(e *mc.Exec, b *buffer.Buffer, who int) string {
			b.WriteInt32(who<<16 | 5)
			return string([]byte{0, byte(who), 0, 5})
		}},
		{"WriteString", func(e *mc.Exec, b *buffer.Buffer, who int) string {
			b.WriteString("ab")
			return "ab"
		}},
		{"WriteByte", func(e *mc.Exec, b *buffer.Buffer, who int) string {
			b.WriteByte(byte(who))
			return string([]byte{byte(who)})
		}},
	}
	mks := map[string]func() *buffer.Buffer{
		"new":  buffer.NewBuffer,
		"cap":  func() *buffer.Buffer { return buffer.NewBufferWithCapacity(4) },
		"pool": buffer.NewBufferByPool,
		"zero": func() *buffer.Buffer { return new(buffer.Buffer) },
	}
	for name, mk := range mks {
		for n := 2; n <= 3; n++ {
			r = append(r, run.Scenario{Name: fmt.Sprintf("Buffer/%s/%d", name, n), Max: 8 - 2*n, MaxDeep: 10 - 2*n, Body: func(e *mc.Exec) {
				for who := 1; who <= n; who++ {
					x, y := mc.Choose(len(ops)), mc.Choose(len(ops))
					e.Go(fmt.Sprintf("T%d", who), func() {
						b := mk()
						want := ops[x].do(e, b, who)
						e.Yield()
						want += ops[y].do(e, b, who)
						e.Yield()
						if s := b.String(); s != want {
							e.Fail("buffer of T%d holds %q instead of %q", who, s, want)
						}
						var got []byte
						p := make([]byte, 4)
						for i := 0; i < 10; i++ {
							k, err := b.Read(p)
							got = append(got, p[:k]...)
							if err != nil {
								break
							}
						}
						if string(got) != want {
							e.Fail("T%d read %q instead of %q", who, got, want)
						}
						if name == "pool" {
							b.Free()
						}
					})
				}
				e.Join()
			}})
		}
	}
	return
}

type rec struct {
	n int
	s []byte
}

func c18(thorough bool) (r []run.Scenario) {
	type obj interface{}
	type p struct {
		get   func(n int) obj
		clean func(x obj) bool
		dirty func(x obj, who int)
		mine  func(x obj, who int) bool
		put   func(x obj) bool
	}
	recs := func(pl interface {
		Get() *rec
		Put(**rec) bool
	}) p {
		return p{func(int) obj { return pl.Get() }, func(x obj) bool { v := x.(*rec); return v != nil && v.n == 0 && len(v.s) == 0 },
			func(x obj, w int) { x.(*rec).n = w; x.(*rec).s = append(x.(*rec).s, byte(w)) },
			func(x obj, w int) bool { v := x.(*rec); return v.n == w && string(v.s) == string([]byte{byte(w)}) },
			func(x obj) bool { v := x.(*rec); return pl.Put(&v) && v == nil }}
	}
	bufs := func(get func() *buffer.Buffer, put func(b *buffer.Buffer) bool) p {
		return p{func(int) obj { return get() }, func(x obj) bool { v := x.(*buffer.Buffer); return v != nil && v.Len() == 0 },
			func(x obj, w int) { x.(*buffer.Buffer).WriteByte(byte(w)) },
			func(x obj, w int) bool { return x.(*buffer.Buffer).String() == string([]byte{byte(w)}) },
			func(x obj) bool { return put(x.(*buffer.Buffer)) }}
	}
	mks := map[string]func() p{
		"pool": func() p {
			return recs(pool.NewPool(func() *rec { return &rec{} }, func(r *rec) { r.n, r.s = 0, r.s[:0] }))
		},
		"pool-nil": func() p {
			return recs(pool.NewPool(nil, func(r *rec) { *r = rec{} }))
		},
		"buffer": func() p {
			return bufs(buffer.NewBufferByPool, func(b *buffer.Buffer) bool { b.Free(); return true })
		},
		"bufpool": func() p {
			return bufs(buffer.BufPool.Get, func(b *buffer.Buffer) bool { return buffer.BufPool.Put(&b) && b == nil })
		},
	}
	for _, n := range []int{1, 3} {
		mks[fmt.Sprintf("bufferpool-%d", n)] = func() p {
			pl := pool.NewBufferPool(n)
			return p{func(n int) obj { return pl.Get(n) }, func(x obj) bool { v := x.(*bytes.Buffer); return v != nil && v.Len() == 0 },
				func(x obj, w int) { x.(*bytes.Buffer).WriteByte(byte(w)) },
				func(x obj, w int) bool { return x.(*bytes.Buffer).String() == string([]byte{byte(w)}) },
				func(x obj) bool { return pl.Put(x.(*bytes.Buffer)) }}
		}
	}
	for name, mk := range mks {
		for _, shape := range [][]int{{1, 1}, {2, 1}, {2, 2}, {3, 1}, {1, 1, 1}, {2, 2, 1}, {2, 2, 2}} {
			tot := 0
			for _, k := range shape {
				tot += k
			}
			mx := 5
			if tot > 3 {
				mx = 4
			}
			r = append(r, run.Scenario{Name: fmt.Sprintf("Pool/%s/%v", name, shape), Max: mx, Body: func(e *mc.Exec) {
				pl := mk()
				held := map[any]int{}
				pre := mc.Choose(3) // objects in the pool at the start, dirty
				var xs []obj
				for i := 0; i < pre; i++ {
					xs = append(xs, pl.get(i*10))
				}
				for i, x := range xs {
					pl.dirty(x, 90+i)
					pl.put(x)
				}
				for t, n := range shape {
					who := t + 1
					size := mc.Choose(2) * 9
					e.Go(fmt.Sprintf("T%d", who), func() {
						for i := 0; i < n; i++ {
							x := pl.get(size)
							if o := held[x]; o != 0 {
								e.Fail("T%d got the object T%d holds", who, o)
							}
							held[x] = who
							if !pl.clean(x) {
								e.Fail("T%d got an object that is not clean: %v", who, x)
							}
							pl.dirty(x, who)
							e.Yield()
							if !pl.mine(x, who) {
								e.Fail("the object of T%d was changed by someone else: %v", who, x)
							}
							delete(held, x)
							if !pl.put(x) {
								e.Fail("Put returned false or left the variable set")
							}
						}
					})
				}
				e.Join()
			}})
		}
	}
	return
}
