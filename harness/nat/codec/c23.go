package main

import (
	"bytes"
	"fmt"
	"math"
	"slices"

	"github.com/donnie4w/gofer/base58"
	"github.com/donnie4w/gofer/util"
	"verif.local/v/run"
)

// value of the first w bytes as a big endian number
func big(b []byte, w int) (r uint64) {
	if len(b) > w {
		b = b[:w]
	}
	for _, c := range b {
		r = r*256 + uint64(c)
	}
	return
}

func be(v uint64, w int) []byte {
	b := make([]byte, w)
	for i := w - 1; i >= 0; i-- {
		b[i] = byte(v % 256)
		v /= 256
	}
	return b
}

// values of w bits: all with up to k bits different from all zeros, and the complements, negatives and neighbours
func values(w, k int, f func(v uint64)) {
	var rec func(v uint64, from, k int)
	rec = func(v uint64, from, k int) {
		f(v)
		f(^v)
		f(-v)
		f(v - 1)
		f(v + 1)
		if k == 0 {
			return
		}
		for i := from; i < w; i++ {
			rec(v|1<<i, i+1, k-1)
		}
	}
	rec(0, 0, k)
	for i := 0; i+8 <= w; i += 8 {
		for c := uint64(0); c < 256; c++ {
			f(c << i)
			f(^(c << i))
			for j := 0; j < i; j += 8 {
				f(c<<i | 0x80<<j)
				f(c<<i | 0x7f<<j)
				f(c<<i | (255-c)<<j)
			}
		}
	}
}

func decodeInts(t *run.T, b []byte) {
	in := append([]byte{}, b...)
	t.NoPanic(fmt.Sprintf("decoding [% x]", b), func() {
		if v := util.BytesToInt16(b); v != int16(big(b, 2)) {
			t.Fail("BytesToInt16([% x]) = %d, want %d", b, v, int16(big(b, 2)))
		}
		if v := util.BytesToInt32(b); v != int32(big(b, 4)) {
			t.Fail("BytesToInt32([% x]) = %d, want %d", b, v, int32(big(b, 4)))
		}
		if v := util.BytesToInt64(b); v != int64(big(b, 8)) {
			t.Fail("BytesToInt64([% x]) = %d, want %d", b, v, int64(big(b, 8)))
		}
		a := util.BytesToIntArray(b)
		if len(a) != len(b)/8 {
			t.Fail("BytesToIntArray of %d bytes has %d numbers", len(b), len(a))
		}
		for i := range a {
			if a[i] != int64(big(b[i*8:], 8)) {
				t.Fail("BytesToIntArray([% x])[%d] = %d", b, i, a[i])
			}
		}
	})
	if !bytes.Equal(in, b) {
		t.Fail("decoding [% x] changed it to [% x]", in, b)
	}
	t.Case(4)
}

func array(t *run.T, a []int64) {
	in := append([]int64{}, a...)
	var want []byte
	for _, v := range a {
		want = append(want, be(uint64(v), 8)...)
	}
	t.NoPanic(fmt.Sprintf("IntArrayToBytes(%v)", a), func() {
		b := util.IntArrayToBytes(a)
		if !bytes.Equal(b, want) {
			t.Fail("IntArrayToBytes(%v) = [% x]", a, b)
		}
		g := util.BytesToIntArray(b)
		if !slices.Equal(g, in) || !slices.Equal(a, in) {
			t.Fail("%d numbers, %v, became %v", len(in), in[:min(len(in), 20)], g[:min(len(g), 20)])
		}
	})
	t.Case(2)
}

const alphabet = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

func isB58(c byte) int {
	for i := range alphabet {
		if alphabet[i] == c {
			return i
		}
	}
	return -1
}

func b58dec(t *run.T, b []byte) {
	v, ok := uint64(0), true
	for _, c := range b {
		d := isB58(c)
		if d < 0 || v > math.MaxUint64/58 || v*58 > math.MaxUint64-uint64(max(d, 0)) {
			ok = false
			break
		}
		v = v*58 + uint64(d)
	}
	in := append([]byte{}, b...)
	t.NoPanic(fmt.Sprintf("DecodeForInt64(%q)", b), func() {
		g, gok := base58.DecodeForInt64(b)
		if gok != ok || ok && g != v {
			t.Fail("DecodeForInt64(%q) = %d, %v, want %d, %v", b, g, gok, v, ok)
		}
	})
	if !bytes.Equal(in, b) {
		t.Fail("DecodeForInt64 changed %q to %q", in, b)
	}
	t.Case(1)
}

func b58(t *run.T, seen map[string]uint64, v uint64) {
	t.NoPanic(fmt.Sprintf("EncodeForInt64(%d)", v), func() {
		b := base58.EncodeForInt64(v)
		for _, c := range b {
			if isB58(c) < 0 {
				t.Fail("EncodeForInt64(%d) = %q", v, b)
			}
		}
		if seen != nil {
			if o, ok := seen[string(b)]; ok && o != v {
				t.Fail("%d and %d are both encoded as %q", o, v, b)
			}
			seen[string(b)] = v
		}
		if g, ok := base58.DecodeForInt64(b); !ok || g != v {
			t.Fail("EncodeForInt64(%d) = %q is decoded as %d, %v", v, b, g, ok)
		}
	})
	t.Case(2)
}

func c23(thorough bool) (r []run.Scenario) {
	add := func(n string, f func(t *run.T)) { r = append(r, run.Scenario{Name: "nat/" + n, Nat: f}) }
	one := func(t *run.T, name string, v uint64, w int, b []byte, back int64) {
		if !bytes.Equal(b, be(v, w)) {
			t.Fail("%sToBytes(%d) = [% x], want [% x]", name, int64(v), b, be(v, w))
		}
		s := 64 - 8*w
		if back != int64(v<<s)>>s {
			t.Fail("%d encoded and decoded with %s is %d", int64(v), name, back)
		}
		t.Case(2)
	}
	add("int16", func(t *run.T) {
		for i := math.MinInt16; i <= math.MaxInt16; i++ {
			b := util.Int16ToBytes(int16(i))
			one(t, "Int16", uint64(i), 2, b, int64(util.BytesToInt16(b)))
		}
		t.Sample("every int16")
	})
	i32 := func(t *run.T, v uint64) {
		b := util.Int32ToBytes(int32(v))
		one(t, "Int32", uint64(int64(int32(v))), 4, b, int64(util.BytesToInt32(b)))
	}
	add("int32", func(t *run.T) {
		values(32, pick(thorough, 4, 6), func(v uint64) { i32(t, v) })
		t.Sample("every int32 with few bits different from its neighbours")
	})
	for p := uint64(0); p < 16; p++ {
		r = append(r, run.Scenario{Name: fmt.Sprintf("nat/int32/all/%x", p), Deep: true, Nat: func(t *run.T) {
			for i := p << 28; i < (p+1)<<28; i++ {
				if i&0xffff == 0 && !t.More() {
					return
				}
				b := util.Int32ToBytes(int32(i))
				if len(b) != 4 || b[0] != byte(i>>24) || b[1] != byte(i>>16) || b[2] != byte(i>>8) || b[3] != byte(i) || util.BytesToInt32(b) != int32(i) {
					t.Fail("Int32 %d became % x and %d", int32(i), b, util.BytesToInt32(b))
				}
				t.States++
				t.Execs++
				t.Steps += 2
			}
		}})
	}
	add("int64", func(t *run.T) {
		values(64, pick(thorough, 3, 4), func(v uint64) {
			b := util.Int64ToBytes(int64(v))
			one(t, "Int64", v, 8, b, util.BytesToInt64(b))
		})
		t.Sample("every int64 with few bits different from its neighbours")
	})
	add("array", func(t *run.T) {
		array(t, nil)
		vs := []int64{0, 1, -1, 255, 256, math.MinInt64, math.MaxInt64, 0x0102030405060708}
		var rec func(a []int64, n int)
		rec = func(a []int64, n int) {
			array(t, a)
			if n > 0 {
				for _, v := range vs {
					rec(append(a[:len(a):len(a)], v), n-1)
				}
			}
		}
		rec([]int64{}, pick(thorough, 4, 6))
		sizes := []int{511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 10000, 16384, 32767, 32768, 65535, 65536, 65537, 1<<20 - 1, 1 << 20, 1<<20 + 1}
		for n := 0; n < 300; n++ {
			sizes = append(sizes, n)
		}
		if thorough {
			sizes = append(sizes, 1<<24+1)
		}
		for _, n := range sizes {
			if !t.More() {
				return
			}
			a := make([]int64, n)
			for i := range a {
				a[i] = int64(i-n/2) * 0x0123456789abcd
			}
			array(t, a)
		}
		t.Sample("all arrays of up to %d of %v", pick(thorough, 4, 6), vs)
	})
	add("decode", func(t *run.T) {
		decodeInts(t, nil)
		for i := 0; i < 256; i++ {
			decodeInts(t, []byte{byte(i)})
			for j := 0; j < 256; j++ {
				decodeInts(t, []byte{byte(i), byte(j)})
				decodeInts(t, []byte{byte(j), 0x80, byte(i)})
				decodeInts(t, []byte{1, byte(i), 0xff, byte(j)})
			}
		}
		words("\x00\x01\x80\xff", pick(thorough, 8, 10), func(b []byte) { decodeInts(t, b) })
		for n := 0; n < 70; n++ {
			for _, p := range patterns(n) {
				decodeInts(t, p)
			}
		}
		t.Sample("every string over 00 01 80 ff of up to %d bytes", pick(thorough, 8, 10))
	})
	// results are independent of each other
	add("kept", func(t *run.T) {
		k := &keeper{}
		for i := 0; i < 1000; i++ {
			for _, v := range []int64{0, -1, int64(i), int64(i) << 40, -int64(i)} {
				k.keep(t, "Int64ToBytes", util.Int64ToBytes(v))
				k.keep(t, "Int32ToBytes", util.Int32ToBytes(int32(v)))
				k.keep(t, "Int16ToBytes", util.Int16ToBytes(int16(v)))
				k.keep(t, "IntArrayToBytes", util.IntArrayToBytes([]int64{v, v}))
				k.keep(t, "EncodeForInt64", base58.EncodeForInt64(uint64(v)))
				t.Case(5)
			}
		}
		k.check(t)
	})
	add("base58", func(t *run.T) {
		seen := map[string]uint64{}
		for v := uint64(0); v < uint64(pick(thorough, 1<<19, 1<<22)); v++ {
			b58(t, seen, v)
		}
		values(64, pick(thorough, 2, 3), func(v uint64) { b58(t, seen, v) })
		p := uint64(1)
		for i := 0; i < 11; i++ {
			for d := uint64(0); d < 58; d++ {
				for e := uint64(0); e < 5; e++ {
					b58(t, seen, p*d+e-2)
				}
			}
			p *= 58
		}
		for i := uint64(0); i < 2000; i++ {
			b58(t, seen, math.MaxUint64-i)
			b58(t, seen, math.MaxInt64-1000+i)
		}
		t.Sample("%d numbers", len(seen))
	})
	add("base58/decode", func(t *run.T) {
		b58dec(t, nil)
		for i := 0; i < 256; i++ {
			b58dec(t, []byte{byte(i)})
			for j := 0; j < 256; j++ {
				b58dec(t, []byte{byte(i), byte(j)})
				b58dec(t, []byte{byte(i), 'z', byte(j)})
			}
		}
		// around the largest number, and with every wrong byte at every place
		top := base58.EncodeForInt64(math.MaxUint64)
		for i := range top {
			for c := 0; c < 256; c++ {
				b := append([]byte{}, top...)
				b[i] = byte(c)
				b58dec(t, b)
				b58dec(t, append(b, '1'))
				b58dec(t, b[1:])
				b58dec(t, append([]byte("1"), b...))
				for j := i + 1; j < len(top); j++ {
					for _, e := range []byte("1zj2") {
						b[j] = e
						b58dec(t, b)
						b[j] = top[j]
					}
				}
			}
		}
		words("12Az", pick(thorough, 8, 10), func(b []byte) { b58dec(t, b) })
		words("1zjQ", 3, func(b []byte) {
			for n := 8; n < 30; n++ {
				b58dec(t, append(bytes.Repeat([]byte("z"), n), b...))
				b58dec(t, append(append([]byte{}, b...), bytes.Repeat([]byte("z"), n)...))
				b58dec(t, append(bytes.Repeat([]byte("1"), n), b...))
			}
		})
		t.Sample("every one or two bytes, every byte at every place of %q", top)
	})
	return
}
