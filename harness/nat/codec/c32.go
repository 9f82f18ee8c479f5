package main

import (
	"bytes"
	"crypto/md5"
	"crypto/sha1"
	"errors"
	"fmt"
	"hash/crc32"
	"io"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"github.com/donnie4w/gofer/fast"
	"github.com/donnie4w/gofer/util"
	"golang.org/x/crypto/blake2b"
	"verif.local/v/run"
)

// bit by bit, from the definitions

func crc8(b []byte) (r byte) {
	for _, c := range b {
		r ^= c
		for i := 0; i < 8; i++ {
			if r&0x80 != 0 {
				r = r<<1 ^ 7
			} else {
				r <<= 1
			}
		}
	}
	return
}

func crc64(b []byte) uint64 {
	r := ^uint64(0)
	for _, c := range b {
		r ^= uint64(c)
		for i := 0; i < 8; i++ {
			if r&1 != 0 {
				r = r>>1 ^ 0xC96C5795D7870F42
			} else {
				r >>= 1
			}
		}
	}
	return ^r
}

func crc32bits(b []byte) uint32 {
	r := ^uint32(0)
	for _, c := range b {
		r ^= uint32(c)
		for i := 0; i < 8; i++ {
			if r&1 != 0 {
				r = r>>1 ^ 0xEDB88320
			} else {
				r >>= 1
			}
		}
	}
	return ^r
}

func fnv64(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h ^= uint64(c)
		h *= 1099511628211
	}
	return h
}

func fnv32(b []byte) uint32 {
	h := uint32(2166136261)
	for _, c := range b {
		h ^= uint32(c)
		h *= 16777619
	}
	return h
}

func digests(t *run.T, k *keeper, b []byte) {
	in := append([]byte{}, b...)
	t.NoPanic("a digest of "+brief(b), func() {
		eq := func(what string, got, want any) {
			if got != want {
				t.Fail("%s of %s is %v, want %v", what, brief(in), got, want)
			}
		}
		m, s, bl := md5.Sum(in), sha1.Sum(in), blake2b.Sum256(in)
		gm, gs := util.MD5(b), util.SHA1(b)
		gb, err := util.Blake2b(b)
		eq("MD5", string(gm), string(m[:]))
		eq("SHA1", string(gs), string(s[:]))
		eq("Blake2b", string(gb), string(bl[:]))
		eq("Blake2b error", err, nil)
		eq("Md5Str", util.Md5Str(string(b)), fmt.Sprintf("%X", m))
		eq("Sha1Str", util.Sha1Str(string(b)), fmt.Sprintf("%X", s))
		eq("CRC8", util.CRC8(b), crc8(in))
		if len(in) < 70000 {
			eq("CRC32", util.CRC32(b), crc32bits(in))
			eq("CRC64", util.CRC64(b), crc64(in))
		} else {
			eq("CRC32", util.CRC32(b), crc32.ChecksumIEEE(in))
		}
		eq("FNVHash32", util.FNVHash32(b), fnv32(in))
		eq("FNVHash64", util.FNVHash64(b), fnv64(in))
		eq("Hash64", util.Hash64(b), util.Hash64(in))
		k.keep(t, "MD5", gm)
		k.keep(t, "SHA1", gs)
		k.keep(t, "Blake2b", gb)
		if f := fast.StringToSlice(string(in)); !bytes.Equal(f, in) {
			t.Fail("StringToSlice of %s is %s", brief(in), brief(f))
		}
		if !bytes.Equal(b, in) {
			t.Fail("a digest changed its input %s", brief(in))
		}
	})
	t.Case(13)
}

func c32(thorough bool) (r []run.Scenario) {
	add := func(n string, f func(t *run.T)) { r = append(r, run.Scenario{Name: "nat/" + n, Nat: f}) }
	add("digests/short", func(t *run.T) {
		k := &keeper{}
		digests(t, k, nil)
		for i := 0; i < 65536; i++ {
			digests(t, k, []byte{byte(i >> 8), byte(i)})
		}
		for i := 0; i < 256; i++ {
			digests(t, k, []byte{byte(i)})
		}
		words("\x00a\xff", pick(thorough, 8, 11), func(b []byte) { digests(t, k, b) })
		k.check(t)
		t.Sample("every string of up to two bytes, and over 00 61 ff of up to %d", pick(thorough, 8, 11))
	})
	add("digests/lengths", func(t *run.T) {
		k := &keeper{}
		for n := 0; n < pick(thorough, 700, 5000) && t.More(); n++ {
			for _, p := range patterns(n) {
				digests(t, k, p)
			}
		}
		for _, n := range append(boundaries, 1<<20) {
			for _, p := range patterns(n)[1:3] {
				digests(t, k, p)
			}
		}
		big := []int{1<<20 - 1, 1<<20 + 1, 1<<24 + 1}
		if thorough {
			big = append(big, 1<<26+1, 1<<28+1)
		}
		for _, n := range big {
			if t.More() {
				digests(t, k, patterns(n)[1])
			}
		}
		t.Sample("every length to 700, to %d bytes", big[len(big)-1])
	})
	add("digests/bytes", func(t *run.T) {
		// every byte after every single-byte state: the tables
		k := &keeper{}
		for i := 0; i < 256; i++ {
			for j := 0; j < 256; j++ {
				digests(t, k, []byte{'x', byte(i), 0, byte(j), 0x80})
			}
		}
	})
	add("hash64", func(t *run.T) {
		first := map[string]uint64{}
		for i := 0; i < 3; i++ {
			words("\x00a\xff", 7, func(b []byte) {
				h := util.Hash64(b)
				if o, ok := first[string(b)]; ok && o != h {
					t.Fail("Hash64 of %s was %x and is %x", brief(b), o, h)
				}
				first[string(b)] = h
				t.Case(1)
			})
		}
	})
	add("concat", func(t *run.T) {
		ss := []string{"", "a", "bc", "\x00", "é", "\xff", strings.Repeat("x", 1000)}
		var rec func(a []string, n int)
		rec = func(a []string, n int) {
			t.NoPanic("Concat", func() {
				if g := util.Concat(a...); g != strings.Join(a, "") {
					t.Fail("Concat(%q) = %q", a, g)
				}
			})
			t.Case(1)
			if n > 0 {
				for _, s := range ss {
					rec(append(a[:len(a):len(a)], s), n-1)
				}
			}
		}
		rec(nil, pick(thorough, 5, 7))
		t.Sample("all lists of up to %d of %q", pick(thorough, 5, 7), ss)
	})
	add("rand", func(t *run.T) {
		var ns []uint64
		for n := uint64(1); n < 40; n++ {
			ns = append(ns, n)
		}
		for i := 5; i < 64; i++ {
			for d := -2; d <= 2; d++ {
				ns = append(ns, 1<<i+uint64(d))
			}
		}
		ns = append(ns, math.MaxUint64, math.MaxUint64-1, math.MaxUint64/2*3/2)
		for _, n := range ns {
			for i := 0; i < pick(thorough, 200, 4000); i++ {
				t.NoPanic(fmt.Sprintf("RandUint(%d)", n), func() {
					if v := uint64(util.RandUint(uint(n))); v >= n {
						t.Fail("RandUint(%d) = %d", n, v)
					}
				})
				if n <= math.MaxInt64 {
					t.NoPanic(fmt.Sprintf("RandInt64Strict(%d)", n), func() {
						if v, err := util.RandInt64Strict(int64(n)); err != nil || v < 0 || uint64(v) >= n {
							t.Fail("RandInt64Strict(%d) = %d, %v", n, v, err)
						}
					})
				}
				t.Case(2)
			}
		}
		// every value is possible for small n (the probability of missing one is below 1e-30)
		for n := uint64(1); n <= 8; n++ {
			a, b := make([]bool, n), make([]bool, n)
			for i := 0; i < 1000; i++ {
				a[util.RandUint(uint(n))] = true
				v, _ := util.RandInt64Strict(int64(n))
				b[v] = true
			}
			for v := range a {
				if !a[v] || !b[v] {
					t.Fail("%d never comes from RandUint(%d) or RandInt64Strict(%d)", v, n, n)
				}
			}
		}
	})
	add("match", func(t *run.T) {
		// patterns and subjects over small alphabets, broken patterns included
		var subjects []string
		words("ab.", 4, func(b []byte) { subjects = append(subjects, string(b)) })
		words("a.*[(|)", pick(thorough, 4, 5), func(b []byte) {
			if !t.More() {
				return
			}
			p := string(b)
			re, err := regexp.Compile(p)
			t.NoPanic(fmt.Sprintf("MatchString(%q)", p), func() {
				for i, s := range subjects {
					if i%7 != len(p)%7 && !thorough {
						continue
					}
					want := err == nil && re.MatchString(s)
					if got := util.MatchString(p, s); got != want {
						t.Fail("MatchString(%q, %q) is %v", p, s, got)
					}
					t.Case(1)
				}
			})
		})
		// patterns with much in common, asked in turn: words with the same FNV, CRC-32, Java or
		// additive hash, the same length, the same ends
		groups := [][]string{{"costarring", "liquid"}, {"declinate", "macallums"}, {"altarage", "zinke"}, {"altarages", "zinkes"}, {"creamwove", "quists"},
			{"codding", "gnu"}, {"plumless", "buckeroo"}, {"Aa", "BB"}, {"AaAa", "BBBB", "AaBB", "BBAa"}, {"ab", "ba"}, {"abc", "cab", "bca", "acb"}, {"a", "A"}, {"a", "a ", " a", "(a)"},
			{"a\x00b", "a"}, {"a+", "a*", "a?"}, {"^a", "a$"}, {"(?i)a", "a"}, {"é", "e"}, {"", "."}, {"[", "("}}
		for _, n := range []int{7, 8, 15, 16, 31, 32, 63, 64, 100, 255, 256, 1000, 4000} {
			x := strings.Repeat("x", n)
			groups = append(groups, []string{x + "y", x + "z", x + "(", x + "x"}, []string{"y" + x, "z" + x, "(" + x}, []string{x[n/2:] + "y" + x[n/2:], x[n/2:] + "z" + x[n/2:]})
		}
		for _, g := range groups {
			for round := 0; round < 2; round++ {
				for _, p := range g {
					re, err := regexp.Compile(p)
					t.NoPanic(fmt.Sprintf("MatchString(%q)", p), func() {
						for _, s := range append(g[:len(g):len(g)], "", "none", strings.ToUpper(p)) {
							want := err == nil && re.MatchString(s)
							if got := util.MatchString(p, s); got != want {
								t.Fail("MatchString(%s, %s) is %v", brief([]byte(p)), brief([]byte(s)), got)
							}
							t.Case(1)
						}
					})
				}
			}
		}
		// many patterns, then the first ones again
		n := pick(thorough, 20000, 150000)
		for i := 0; i < n+100 && t.More(); i++ {
			j := i % n
			p := fmt.Sprintf("^%d$", j)
			t.NoPanic("MatchString", func() {
				if !util.MatchString(p, fmt.Sprint(j)) || util.MatchString(p, fmt.Sprint(j+1)) {
					t.Fail("MatchString(%q, ...) after %d other patterns: not %d, or %d", p, i, j, j+1)
				}
			})
			t.Case(2)
		}
	})
	add("times", func(t *run.T) {
		// China Standard Time has been UTC+8 without summer time since 1992
		zone := time.FixedZone("", 8*3600)
		for d := time.Date(1992, 1, 1, 0, 0, 0, 0, zone); d.Year() < pick(thorough, 2042, 2500); d = d.Add(86400*time.Second + time.Duration(d.Day())*time.Second) {
			s := d.Format("2006-01-02 15:04:05")
			t.NoPanic("StrToTimeFormat", func() {
				if got, err := util.StrToTimeFormat(s); err != nil || !got.Equal(d) {
					t.Fail("StrToTimeFormat(%q) is %v, %v, want %v", s, got, err, d)
				}
			})
			t.Case(1)
		}
		const good = "2024-02-29 23:59:59"
		bad := []string{"", "x", "2023-02-29 00:00:00", "2024-13-01 00:00:00", "2024-00-01 00:00:00", "2024-01-32 00:00:00", "2024-01-01 24:00:00", "2024-01-01 00:60:00", "2024-01-01 00:00:60", good + "x", good + " +0000", "2024/02/29 23:59:59", "2024-02-29"}
		for i := range good {
			if good[i] != ' ' {
				bad = append(bad, good[:i]+"x"+good[i+1:])
			}
			if i > 0 && i < 17 {
				bad = append(bad, good[:i])
			}
		}
		// every string one character away from a good one: what package time makes of it
		shanghai, err := time.LoadLocation("Asia/Shanghai")
		if err != nil {
			shanghai = zone
		}
		for _, g := range []string{good, "1999-12-31 00:00:00", "2001-10-09 08:07:06"} {
			var near []string
			for i := 0; i <= len(g); i++ {
				for _, c := range []string{" ", "\t", "\n", "\r", "\x00", "0", "1", "9", "x", ".", ",", "+", "-", ":", "/", "T", "Z", "PM", " 08", ".5", ",123456789", "\u00a0", "\ufeff"} {
					near = append(near, g[:i]+c+g[i:])
					if i < len(g) {
						near = append(near, g[:i]+c+g[i+1:])
					}
				}
				if i < len(g) {
					near = append(near, g[:i]+g[i+1:])
				}
			}
			near = append(near, " "+g+" ", "\""+g+"\"", "'"+g+"'", strings.ReplaceAll(g, "-", "/"), strings.ReplaceAll(g, " ", "T"), g+".000", g+" CST", g+"+08:00", g+"Z", g[2:], strings.ReplaceAll(g, "0", ""))
			for _, s := range near {
				want, werr := time.ParseInLocation("2006-01-02 15:04:05", s, shanghai)
				t.NoPanic("StrToTimeFormat", func() {
					if got, err := util.StrToTimeFormat(s); (err == nil) != (werr == nil) || werr == nil && !got.Equal(want) {
						t.Fail("StrToTimeFormat(%q) is %v, %v, want %v, %v", s, got, err, want, werr)
					}
				})
				t.Case(1)
			}
		}
		for _, s := range bad {
			t.NoPanic("StrToTimeFormat", func() {
				if got, err := util.StrToTimeFormat(s); err == nil {
					t.Fail("StrToTimeFormat(%q) is %v and no error", s, got)
				}
			})
			t.Case(1)
		}
	})
	add("recover", func(t *run.T) {
		f := func(v any, err *error) {
			defer util.Recover(err)
			if v != nil {
				panic(v)
			}
		}
		t.NoPanic("Recover", func() {
			for _, v := range []any{"text", 5, errors.New("an error"), struct{}{}} {
				var err error
				if f(v, &err); err == nil || !strings.Contains(err.Error(), fmt.Sprint(v)) {
					t.Fail("Recover from the panic %v gives the error %v", v, err)
				}
				f(v, nil)
			}
			for _, was := range []error{nil, io.EOF} {
				err := was
				if f(nil, &err); err != was {
					t.Fail("Recover without a panic changed the error %v to %v", was, err)
				}
			}
		})
		t.Case(10)
	})
	add("ids", func(t *run.T) {
		a, b := map[int64]bool{}, map[uint32]bool{}
		for i := 0; i < 10000; i++ {
			a[util.UUID64()] = true
			b[util.UUID32()] = true
		}
		if len(a) < 10000 || len(b) < 9900 {
			t.Fail("10000 calls of UUID64 and UUID32 gave %d and %d different numbers", len(a), len(b))
		}
		t.Case(20000)
	})
	add("files", func(t *run.T) {
		dir := t.Dir()
		exist := func(p string, want bool) {
			t.NoPanic("IsFileExist", func() {
				if util.IsFileExist(p) != want {
					t.Fail("IsFileExist(%q) is %v", p, !want)
				}
			})
			t.Case(1)
		}
		exist("", false)
		exist(dir, true)
		f0 := filepath.Join(dir, "plain")
		if err := os.WriteFile(f0, []byte("x"), 0666); err != nil {
			panic(err)
		}
		os.Mkdir(filepath.Join(dir, "sub"), 0777)
		os.Symlink("nowhere", filepath.Join(dir, "dangling"))
		os.Symlink("plain", filepath.Join(dir, "link"))
		os.Symlink("loop", filepath.Join(dir, "loop"))
		for _, x := range []struct {
			p string
			e bool
		}{{"plain", true}, {"plain/x", false}, {"plain/", false}, {"plain/..", false}, {"sub", true}, {"sub/", true}, {"sub/.", true}, {"sub/..", true}, {"sub/x", false}, {"sub/x/y", false},
			{"dangling", false}, {"link", true}, {"link/x", false}, {"loop", false}, {strings.Repeat("n", 255), false}, {strings.Repeat("n", 256), false}, {strings.Repeat("n/", 3000), false}, {"a\x00b", false}, {"plain\x00", false}, {" plain", false}, {"Plain", false}} {
			exist(dir+"/"+x.p, x.e)
		}
		k := &keeper{}
		for _, n := range append(boundaries, 1<<20, 5<<20) {
			for i, p := range patterns(n)[:3] {
				f := filepath.Join(dir, fmt.Sprintf("f%d.%d", n, i))
				exist(f, false)
				if _, err := util.ReadFile(f); err == nil {
					t.Fail("ReadFile of a missing file returned no error")
				}
				if err := os.WriteFile(f, p, 0666); err != nil {
					panic(err)
				}
				exist(f, true)
				t.NoPanic(fmt.Sprintf("ReadFile of %d bytes", n), func() {
					b, err := util.ReadFile(f)
					if err != nil || !bytes.Equal(b, p) {
						t.Fail("ReadFile of %d bytes returned %s, %v", n, brief(b), err)
					}
					k.keep(t, "ReadFile", b)
				})
				t.Case(1)
				// the file grows, shrinks and goes away; what was read stays
				os.WriteFile(f, append(append([]byte{}, p...), "more"...), 0666)
				t.NoPanic("ReadFile", func() {
					if b, err := util.ReadFile(f); err != nil || len(b) != n+4 || string(b[n:]) != "more" {
						t.Fail("ReadFile of %d+4 bytes returned %s, %v", n, brief(b), err)
					}
				})
				os.Truncate(f, int64(n/2))
				t.NoPanic("ReadFile", func() {
					if b, err := util.ReadFile(f); err != nil || !bytes.Equal(b, p[:n/2]) {
						t.Fail("ReadFile of %d bytes returned %s, %v", n/2, brief(b), err)
					}
				})
				os.Remove(f)
				exist(f, false)
			}
		}
		k.check(t)
		// every content of one byte, many of two, and heads and tails that other programs treat in a special way
		var contents [][]byte
		for a := 0; a < 256; a++ {
			contents = append(contents, []byte{byte(a)})
			for b := 0; b < 256; b += pick(thorough, 5, 1) {
				contents = append(contents, []byte{byte(a), byte(b)})
			}
		}
		special := []string{"\xef\xbb\xbf", "\xff\xfe", "\xfe\xff", "\x00\x00\xfe\xff", "\xff\xfe\x00\x00", "\x1f\x8b\x08", "\x78\x9c", "#!", "\r\n", "\n", "\r", "\x00", "\x1a", "\x04", " ", "\xff", "\xc0\x80", "PK\x03\x04"}
		for _, h := range special {
			for _, e := range append(special, "") {
				for _, m := range []string{"", "x", "one\r\ntwo\n", strings.Repeat("z", 5000)} {
					contents = append(contents, []byte(h+m+e), []byte(m+h+e))
				}
			}
		}
		f1 := filepath.Join(dir, "content")
		for _, p := range contents {
			if !t.More() {
				break
			}
			if err := os.WriteFile(f1, p, 0666); err != nil {
				panic(err)
			}
			t.NoPanic(fmt.Sprintf("ReadFile of %q", brief(p)), func() {
				if b, err := util.ReadFile(f1); err != nil || !bytes.Equal(b, p) {
					t.Fail("ReadFile of a file with %s returned %s, %v", brief(p), brief(b), err)
				}
			})
			t.Case(1)
		}
		os.Remove(f1)
		// big files, with a mark at the start, the end and every megabyte
		sizes := []int{16<<20 + 1, 33 << 20, 65 << 20, 129 << 20, 257 << 20}
		if thorough {
			sizes = append(sizes, 513<<20, 1025<<20)
		}
		for _, n := range sizes {
			f := filepath.Join(dir, "big")
			h, err := os.Create(f)
			if err != nil {
				panic(err)
			}
			h.Truncate(int64(n))
			at := []int{0, n - 1}
			for i := 1 << 20; i < n-1; i += 1 << 20 {
				at = append(at, i)
			}
			for _, i := range at {
				h.WriteAt([]byte{byte(i>>20 | 1)}, int64(i))
			}
			h.Close()
			t.NoPanic(fmt.Sprintf("ReadFile of %d bytes", n), func() {
				b, err := util.ReadFile(f)
				if err != nil || len(b) != n {
					t.Fail("ReadFile of %d bytes returned %d bytes, %v", n, len(b), err)
				}
				for _, i := range at {
					if b[i] != byte(i>>20|1) {
						t.Fail("ReadFile of %d bytes: byte %d is %d, want %d", n, i, b[i], byte(i>>20|1))
					}
					b[i] = 0
				}
				if bytes.Count(b, []byte{0}) != n {
					t.Fail("ReadFile of %d bytes: bytes are not as written", n)
				}
			})
			t.Case(1)
			os.Remove(f)
		}
		exist(filepath.Join(dir, "none", "f"), false)
		os.WriteFile(filepath.Join(dir, "real"), nil, 0666)
		exist(filepath.Join(dir, "real"), true)
		t.Sample("files of %v bytes", boundaries)
	})
	return
}
