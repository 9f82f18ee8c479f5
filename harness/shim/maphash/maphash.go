// Package maphash is hash/maphash with deterministic seeds.
package maphash

import (
	"fmt"

	"verif.local/v/mc"
)

var next uint64

func init() { mc.OnReset(func() { next = 0 }) }

type Seed struct{ s uint64 }

func MakeSeed() Seed {
	next++
	return Seed{mix(next * 0x9E3779B97F4A7C15)}
}

func mix(x uint64) uint64 {
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	return x
}

func Bytes(seed Seed, b []byte) uint64 {
	if seed.s == 0 {
		panic("maphash: use of uninitialized Seed")
	}
	h := seed.s
	for _, c := range b {
		h = mix(h^uint64(c)) + 0x9E3779B97F4A7C15
	}
	return mix(h ^ uint64(len(b)))
}
func String(seed Seed, s string) uint64 { return Bytes(seed, []byte(s)) }
func Comparable[T comparable](seed Seed, v T) uint64 {
	return Bytes(seed, []byte(fmt.Sprintf("%T%v", v, v)))
}

type Hash struct {
	seed Seed
	b    []byte
}

func (h *Hash) init() {
	if h.seed.s == 0 {
		h.seed = MakeSeed()
	}
}
func (h *Hash) Write(b []byte) (int, error) { h.init(); h.b = append(h.b, b...); return len(b), nil }
func (h *Hash) WriteString(s string) (int, error) {
	h.init()
	h.b = append(h.b, s...)
	return len(s), nil
}
func (h *Hash) WriteByte(c byte) error { h.init(); h.b = append(h.b, c); return nil }
func (h *Hash) Sum64() uint64          { h.init(); return Bytes(h.seed, h.b) }
func (h *Hash) Sum(b []byte) []byte {
	x := h.Sum64()
	for i := 7; i >= 0; i-- {
		b = append(b, byte(x>>(8*i)))
	}
	return b
}
func (h *Hash) Reset()         { h.b = nil }
func (h *Hash) Seed() Seed     { h.init(); return h.seed }
func (h *Hash) SetSeed(s Seed) { h.seed = s; h.b = nil }
func (h *Hash) Size() int      { return 8 }
func (h *Hash) BlockSize() int { return 128 }

func WriteComparable[T comparable](h *Hash, x T) { h.WriteString(fmt.Sprintf("%T%v", x, x)) }
