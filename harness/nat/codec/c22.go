package main

import (
	"bytes"
	"compress/gzip"
	"compress/zlib"
	"encoding/binary"
	"fmt"
	"io"
	"runtime/debug"
	"strings"

	"github.com/donnie4w/gofer/compress"
	"github.com/donnie4w/gofer/util"
	"github.com/klauspost/compress/zstd"
	"verif.local/v/run"
)

type fn func(b []byte) ([]byte, error)

func ugz(b []byte) ([]byte, error) {
	r, err := util.Gzip(b)
	return r.Bytes(), err
}

func uungz(b []byte) ([]byte, error) {
	r, err := util.UnGzip(b)
	return r.Bytes(), err
}

func usn(b []byte) ([]byte, error)   { return util.SnappyEncode(b), nil }
func uunsn(b []byte) ([]byte, error) { return util.SnappyDecode(b), nil }
func csn(b []byte) ([]byte, error)   { return compress.Snappy(b), nil }

type codec struct {
	name string
	enc  fn
	dec  []string
	slow bool
}

var decoders = map[string]fn{"util.UnZlib": util.UnZlib, "compress.UnZlib": compress.UnZlib, "util.UnGzip": uungz, "compress.UnGzip": compress.UnGzip,
	"util.SnappyDecode": uunsn, "compress.UnSnappy": compress.UnSnappy, "compress.UnZstd": compress.UnZstd}

func codecs() (r []codec) {
	z := []string{"util.UnZlib", "compress.UnZlib"}
	g := []string{"util.UnGzip", "compress.UnGzip"}
	r = []codec{{"util.Zlib", util.Zlib, z, false}, {"compress.Zlib", compress.Zlib, z, false}, {"util.Gzip", ugz, g, false}, {"compress.Gzip", compress.Gzip, g, false},
		{"util.SnappyEncode", usn, []string{"util.SnappyDecode"}, false}, {"compress.Snappy", csn, []string{"compress.UnSnappy"}, false},
		{"compress.Zstd", compress.Zstd, []string{"compress.UnZstd"}, true}}
	for l := -2; l <= 9; l++ {
		r = append(r, codec{fmt.Sprintf("compress.ZlibLevel(%d)", l), func(b []byte) ([]byte, error) { return compress.ZlibLevel(b, l) }, z, false})
	}
	for _, l := range []zstd.EncoderLevel{zstd.SpeedFastest, zstd.SpeedDefault, zstd.SpeedBetterCompression, zstd.SpeedBestCompression} {
		r = append(r, codec{fmt.Sprintf("compress.ZstdLevel(%v)", l), func(b []byte) ([]byte, error) { return compress.ZstdLevel(b, l) }, []string{"compress.UnZstd"}, true})
	}
	return
}

// what the standard library reads
func reference(dec string, b []byte) ([]byte, error) {
	var r io.Reader
	var err error
	if dec == "util.UnZlib" || dec == "compress.UnZlib" {
		r, err = zlib.NewReader(bytes.NewReader(b))
	} else {
		r, err = gzip.NewReader(bytes.NewReader(b))
	}
	if err != nil {
		return nil, err
	}
	return io.ReadAll(r)
}

func brief(b []byte) string {
	if len(b) > 40 {
		return fmt.Sprintf("%d bytes % x...", len(b), b[:40])
	}
	return fmt.Sprintf("[% x]", b)
}

type kept struct {
	what      string
	got, want []byte
}

// keeper holds on to earlier results, which later calls must not change.
type keeper struct {
	ring [64]kept
	n    int
}

func (k *keeper) keep(t *run.T, what string, got []byte) {
	o := &k.ring[k.n%len(k.ring)]
	if !bytes.Equal(o.got, o.want) {
		t.Fail("the result of %s changed after it was returned: %s, was %s", o.what, brief(o.got), brief(o.want))
	}
	if len(got) <= 4096 {
		*o = kept{what, got, append([]byte{}, got...)}
	}
	k.n++
}

func (k *keeper) check(t *run.T) {
	for range k.ring {
		k.keep(t, "", nil)
	}
}

func round(t *run.T, k *keeper, c *codec, b []byte) []byte {
	var r []byte
	in := append([]byte{}, b...)
	t.NoPanic(c.name+" of "+brief(b), func() {
		var err error
		r, err = c.enc(b)
		if err != nil {
			t.Fail("%s of %s: %v", c.name, brief(b), err)
		}
		k.keep(t, c.name, r)
		if !bytes.Equal(in, b) {
			t.Fail("%s changed its input %s to %s", c.name, brief(in), brief(b))
		}
		enc := append([]byte{}, r...)
		for _, d := range c.dec {
			u, err := decoders[d](r)
			if err != nil || !bytes.Equal(u, b) {
				t.Fail("%s of %s of %s returned %s, %v", d, c.name, brief(b), brief(u), err)
			}
			k.keep(t, d, u)
			if !bytes.Equal(enc, r) {
				t.Fail("%s changed its input %s", d, brief(enc))
			}
		}
	})
	t.Case(1 + len(c.dec))
	return r
}

func decode(t *run.T, d string, b []byte) {
	f := decoders[d]
	checked := d != "util.SnappyDecode" && d != "compress.UnSnappy" && d != "compress.UnZstd"
	t.NoPanic(d+" of "+brief(b), func() {
		u, err := f(b)
		if checked {
			w, werr := reference(d, b)
			switch {
			case werr != nil && err == nil:
				t.Fail("%s of the broken stream %s returned %s and no error, want %v", d, brief(b), brief(u), werr)
			case werr == nil && err != nil:
				t.Fail("%s of the good stream %s returned %v", d, brief(b), err)
			case err == nil && !bytes.Equal(u, w):
				t.Fail("%s of %s returned %s, want %s", d, brief(b), brief(u), brief(w))
			}
		}
	})
	t.Case(1)
}

func c22(thorough bool) (r []run.Scenario) {
	deep := pick(thorough, 0, 2)
	add := func(n string, f func(t *run.T)) { r = append(r, run.Scenario{Name: "nat/" + n, Nat: f}) }
	for _, c := range codecs() {
		add("round/"+c.name, func(t *run.T) {
			k := &keeper{}
			inputs(t, deep, func(b []byte) { round(t, k, &c, b) })
			round(t, k, &c, nil)
			k.check(t)
			t.Sample("%s then %v", c.name, c.dec)
		})
	}
	// truncations and corruptions of real streams
	texts := [][]byte{nil, []byte("a"), []byte("hello hello hello"), patterns(300)[2], bytes.Repeat([]byte("abc"), 500), patterns(40)[1]}
	if thorough {
		texts = append(texts, patterns(70000)[0], patterns(900)[3], patterns(2000)[1])
	}
	for _, c := range codecs() {
		for _, d := range c.dec {
			add("broken/"+c.name+"/"+d, func(t *run.T) {
				for _, b := range texts {
					s, err := c.enc(b)
					if err != nil {
						t.Fail("%s: %v", c.name, err)
					}
					s = append([]byte{}, s...)
					slow := c.slow && len(s) > 60 && !thorough
					for i := 0; i <= len(s); i++ {
						if i&15 == 0 && !t.More() {
							return
						}
						decode(t, d, s[:i:i])
						decode(t, d, append(append([]byte{}, s[:i]...), 0))
						if i == len(s) {
							break
						}
						old := s[i]
						for v := 0; v < 256; v++ {
							// every value in short streams and in headers and trailers, else every bit and the complements
							x := byte(v) ^ old
							if !(len(s) < 60 || i < 12 || i >= len(s)-8) && x&(x-1) != 0 && v != 0 && v != 255 || slow && x&(x-1) != 0 {
								continue
							}
							s[i] = byte(v)
							decode(t, d, s)
						}
						s[i] = old
					}
					// the checksums, and streams following each other
					decode(t, d, append(append([]byte{}, s...), s...))
				}
				t.Sample("%s of every prefix and every changed byte of %s", d, c.name)
			})
		}
	}
	heads := map[string][]string{
		"util.UnZlib": {"\x78\x9c", "\x78\x01", "\x78\xda", "\x78\xbb"}, "compress.UnZlib": {"\x78\x9c", "\x78\x01", "\x78\xda", "\x78\xbb"},
		"util.UnGzip":       {"\x1f\x8b\x08", "\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff", "\x1f\x8b\x08\x1f\x00\x00\x00\x00\x00\xff"},
		"compress.UnGzip":   {"\x1f\x8b\x08", "\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff", "\x1f\x8b\x08\x1f\x00\x00\x00\x00\x00\xff"},
		"util.SnappyDecode": {"\x08", "\x40", "\x80\x01"}, "compress.UnSnappy": {"\x08", "\x40", "\x80\x01"},
		"compress.UnZstd": {"\x28\xb5\x2f\xfd", "\x28\xb5\x2f\xfd\x00\x48", "\x50\x2a\x4d\x18"},
	}
	for d := range decoders {
		add("any/"+d, func(t *run.T) {
			all := func(head string) {
				decode(t, d, []byte(head))
				for i := 0; i < 256; i++ {
					if i&7 == 0 && !t.More() {
						return
					}
					decode(t, d, append([]byte(head), byte(i)))
					step := 1
					if d == "compress.UnZstd" && !thorough {
						step = 5
					}
					for j := 0; j < 256; j += step {
						decode(t, d, append([]byte(head), byte(i), byte(j)))
					}
				}
			}
			decode(t, d, nil)
			all("")
			for _, h := range heads[d] {
				all(h)
			}
			words("\x00\x01\x7f\x80\xff", pick(thorough, 5, 7), func(b []byte) {
				// six bytes and more can announce a content of gigabytes, which the zstd decoder allocates
				if d != "compress.UnZstd" || len(b) < pick(thorough, 5, 6) {
					decode(t, d, append([]byte(heads[d][0]), b...))
				}
			})
			t.Sample("%s of every string of two bytes", d)
		})
	}
	// texts of many megabytes
	for _, c := range codecs() {
		for _, n := range []int{1<<24 + 3, 33<<20 + 1, 1<<26 + 5, 130<<20 + 1, 300<<20 + 1} {
			if n != 33<<20+1 && strings.Contains(c.name, "Level") && !thorough || n > 65<<20 && c.slow && !thorough || n > 200<<20 && (!thorough || c.slow) {
				continue
			}
			r = append(r, run.Scenario{Name: fmt.Sprintf("nat/huge/%s/%d", c.name, n), Nat: func(t *run.T) { hugeText(t, &c, n) }})
		}
	}
	// calls that follow each other, failed ones included
	add("sequences", func(t *run.T) {
		type call struct {
			name string
			f    func(k *keeper)
		}
		var cs []call
		for _, c := range codecs() {
			if len(c.name) > 18 && c.name != "compress.ZlibLevel(1)" {
				continue
			}
			for _, b := range [][]byte{nil, []byte("first input"), []byte("2nd"), patterns(600)[2]} {
				cs = append(cs, call{c.name, func(k *keeper) { round(t, k, &c, b) }})
			}
			e, _ := c.enc([]byte("some other text, some other text"))
			for _, d := range c.dec {
				for _, n := range []int{0, 1, len(e) / 2, len(e) - 1} {
					s := append([]byte{}, e[:n]...)
					cs = append(cs, call{d + " of a truncated stream", func(k *keeper) { decode(t, d, s) }})
				}
			}
		}
		for i := range cs {
			if !t.More() {
				return
			}
			for j := range cs {
				k := &keeper{}
				cs[i].f(k)
				cs[j].f(k)
				cs[i].f(k)
				k.check(t)
			}
		}
		t.Sample("%d calls, each pair, and the first again", len(cs))
	})
	add("check", func(t *run.T) {
		for _, c := range codecs() {
			for _, b := range texts {
				s, _ := c.enc(b)
				_, want := gzip.NewReader(bytes.NewReader(s))
				t.NoPanic("CheckGzipType", func() {
					if err := util.CheckGzipType(s); (err == nil) != (want == nil) {
						t.Fail("CheckGzipType of the output of %s: %v", c.name, err)
					}
				})
				t.Case(1)
			}
		}
	})
	return
}

// hugeText compresses and restores a text of n bytes, every block of which is different.
func hugeText(t *run.T, c *codec, n int) {
	b := make([]byte, n)
	for i := 0; i+8 <= n; i += 64 << 10 {
		binary.BigEndian.PutUint64(b[i:], uint64(i)*0x9e3779b97f4a7c15)
	}
	b[n-1] = 'z'
	s, err := c.enc(b)
	if err != nil {
		t.Fail("%s of %d bytes: %v", c.name, n, err)
	}
	for _, d := range c.dec {
		u, err := decoders[d](s)
		if err != nil || !bytes.Equal(u, b) {
			t.Fail("%s of %s of %d bytes returned %d bytes, %v", d, c.name, n, len(u), err)
		}
		u = nil
		debug.FreeOSMemory()
	}
	t.Case(1 + len(c.dec))
}
