// Native enumeration of the codecs: compression (C22), integers and base58 (C23), serializers (C24), digests and
// helpers (C32).
package main

import (
	"bytes"

	"verif.local/v/run"
)

func main() {
	run.Main(map[string]run.Maker{"C22": c22, "C23": c23, "C24": c24, "C32": c32})
}

func pick(thorough bool, a, b int) int {
	if thorough {
		return b
	}
	return a
}

// words calls f with every string over the alphabet of at most n bytes; f must not keep it.
func words(alphabet string, n int, f func(b []byte)) {
	b := make([]byte, 0, n)
	var rec func()
	rec = func() {
		f(b)
		if len(b) == n {
			return
		}
		for i := 0; i < len(alphabet); i++ {
			b = append(b, alphabet[i])
			rec()
			b = b[:len(b)-1]
		}
	}
	rec()
}

var boundaries = []int{0, 1, 2, 15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097,
	8191, 8192, 8193, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 131071, 131072, 131073, 262145}

// patterns of n bytes: compressible, periodic, incompressible
func patterns(n int) (r [][]byte) {
	z := make([]byte, n)
	p := make([]byte, n)
	q := make([]byte, n)
	x := uint32(n)*2654435761 + 1
	for i := range p {
		p[i] = byte(i % 251)
		x ^= x << 13
		x ^= x >> 17
		x ^= x << 5
		q[i] = byte(x >> 11)
	}
	h := append(append([]byte{}, z[:n/2]...), q[n/2:]...)
	return [][]byte{z, p, q, h, bytes.Repeat([]byte{0xff}, n)}
}

// inputs of a codec
func inputs(t *run.T, deep int, f func(b []byte)) {
	words("a\x00", 6+2*deep, f)
	words("ab\xff", 4+deep, f)
	for i := 0; i < 256; i++ {
		f([]byte{byte(i)})
		f([]byte{byte(i), byte(i), byte(i), byte(255 - i)})
	}
	for _, n := range boundaries {
		if !t.More() {
			return
		}
		for _, p := range patterns(n) {
			f(p)
		}
	}
	if deep > 1 {
		for n := 0; n < 3000 && t.More(); n++ {
			for _, p := range patterns(n)[1:3] {
				f(p)
			}
		}
		for i := 0; i < 65536; i++ {
			if i&255 == 0 && !t.More() {
				return
			}
			f([]byte{byte(i >> 8), byte(i)})
		}
	}
	for _, n := range []int{1<<20 - 1, 1 << 20, 1<<20 + 1, 3 << 20} {
		for _, p := range patterns(n)[:4] {
			if !t.More() {
				return
			}
			f(p)
		}
	}
}
