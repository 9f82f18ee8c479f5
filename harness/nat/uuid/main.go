// Native enumeration of package uuid (C21).
package main

import (
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"strings"

	"github.com/donnie4w/gofer/base58"
	"github.com/donnie4w/gofer/uuid"
	"verif.local/v/run"
)

func main() { run.Main(map[string]run.Maker{"C21": c21}) }

// valid is the definition: 8-4-4-4-12 hexadecimal digits.
func valid(s string) ([]byte, bool) {
	p := strings.Split(s, "-")
	if len(p) != 5 {
		return nil, false
	}
	for i, n := range []int{8, 4, 4, 4, 12} {
		if len(p[i]) != n {
			return nil, false
		}
	}
	b, err := hex.DecodeString(strings.Join(p, ""))
	return b, err == nil
}

func parse(t *run.T, s string) {
	b, ok := valid(s)
	t.NoPanic(fmt.Sprintf("Parse(%q)", s), func() {
		u, err := uuid.Parse(s)
		switch {
		case ok != (err == nil):
			t.Fail("Parse(%q) returned %v, %v", s, u, err)
		case ok && string(u.Bytes()) != string(b):
			t.Fail("Parse(%q) returned % x", s, u.Bytes())
		case ok && u.String() != strings.ToLower(s):
			t.Fail("Parse(%q).String() is %q", s, u)
		case !ok && u != nil:
			t.Fail("Parse(%q) returned a UUID with its error", s)
		}
	})
	t.Case(1)
}

func text(t *run.T, u uuid.UUID) {
	s := u.String()
	b, ok := valid(s)
	if !ok || string(b) != string(u[:]) {
		t.Fail("String of % x is %q", u[:], s)
	}
	if n, ok := base58.DecodeForInt64(u.Base58()); !ok || n != uint64(u.Int64()) {
		t.Fail("Base58 of %s is %s, which is %d, Int64 is %d", s, u.Base58(), int64(n), u.Int64())
	}
	if u.Int64() != int64(binary.BigEndian.Uint64(u[:8])) {
		t.Fail("Int64 of %s is %x", s, u.Int64())
	}
	v := u
	if u.Int32() != v.Int32() || string(u.Bytes()) != string(u[:]) {
		t.Fail("Int32 or Bytes of %s and a copy differ", s)
	}
	if want := map[byte]byte{4: 1, 5: 1, 6: 2}[u[8]>>5]; u.Version() != int(u[6]>>4) || u.Variant() != want {
		t.Fail("%s has Version %d and Variant %d", s, u.Version(), u.Variant())
	}
	p, err := uuid.Parse(s)
	if err != nil || *p != u || !p.Equals(&u) || !u.Equals(p) {
		t.Fail("Parse(%q) returned %v, %v", s, p, err)
	}
	t.Case(3)
}

func c21(thorough bool) (r []run.Scenario) {
	add := func(n string, f func(t *run.T)) { r = append(r, run.Scenario{Name: "nat/" + n, Nat: f}) }
	bases := []string{"00000000-0000-0000-0000-000000000000", "01234567-89ab-cdef-0123-456789abcdef", "FFFFFFFF-ffff-FFFF-ffff-AbCdEf012345"}
	add("many", func(t *run.T) {
		n := 3 << 20
		if thorough {
			n = 20 << 20
		}
		seen := make(map[uuid.UUID]struct{}, n)
		for i := 0; i < n; i++ {
			u := uuid.NewUUID()
			if u.Version() != 4 || u[6]>>4 != 4 || u.Variant() != 1 || u[8]>>6 != 2 {
				t.Fail("%s has version %d and variant %d", u, u[6]>>4, u[8]>>6)
			}
			if _, ok := seen[*u]; ok {
				t.Fail("%s came twice within %d calls", u, i+1)
			}
			seen[*u] = struct{}{}
			t.Step()
		}
		t.Case(0)
	})
	add("text/bytes", func(t *run.T) {
		for _, b := range bases {
			p, _ := valid(b)
			for i := 0; i < 16; i++ {
				for v := 0; v < 256; v++ {
					var u uuid.UUID
					copy(u[:], p)
					u[i] = byte(v)
					text(t, u)
				}
			}
		}
		for i := 0; i < 16; i++ {
			for j := 0; j < i; j++ {
				for v := 0; v < 256; v += 5 {
					for w := 0; w < 256; w += 7 {
						var u uuid.UUID
						u[i], u[j] = byte(v), byte(w)
						text(t, u)
					}
				}
			}
		}
	})
	add("equals", func(t *run.T) {
		for _, b := range bases {
			p, _ := valid(b)
			var u, v uuid.UUID
			copy(u[:], p)
			v = u
			if !u.Equals(&v) || !u.Equals(&u) || u.Equals(nil) {
				t.Fail("Equals of %s and a copy, itself, nil: %v %v %v", &u, u.Equals(&v), u.Equals(&u), u.Equals(nil))
			}
			for k := 0; k < 128; k++ {
				v[k/8] ^= 1 << (k % 8)
				if u.Equals(&v) || v.Equals(&u) {
					t.Fail("%s equals %s", &u, &v)
				}
				for l := 0; l < k; l++ {
					v[l/8] ^= 1 << (l % 8)
					if u.Equals(&v) || v.Equals(&u) {
						t.Fail("%s equals %s", &u, &v)
					}
					v[l/8] ^= 1 << (l % 8)
					t.Case(2)
				}
				v[k/8] ^= 1 << (k % 8)
			}
		}
	})
	add("equals/collisions", func(t *run.T) {
		// UUIDs with one half in common whose hashes coincide are unequal all the same
		cnt := 300000
		if thorough {
			cnt = 2000000
		}
		for half := 0; half < 2; half++ {
			seen := map[int32]uuid.UUID{}
			collisions := 0
			for i := 0; i < cnt && t.More(); i++ {
				var u uuid.UUID
				binary.BigEndian.PutUint64(u[8*half:], uint64(i)*0x9e3779b97f4a7c15)
				binary.BigEndian.PutUint64(u[8*(1-half):], 0x0123456789abcdef)
				h := u.Int32()
				if v, ok := seen[h]; ok {
					collisions++
					if u.Equals(&v) || v.Equals(&u) {
						t.Fail("%s equals %s", &u, &v)
					}
				}
				seen[h] = u
			}
			t.Case(len(seen))
			t.Sample(fmt.Sprintf("%d pairs with the same Int32", collisions))
		}
	})
	add("parse/replace", func(t *run.T) {
		for _, b := range bases {
			for i := range b {
				for c := 0; c < 256; c++ {
					parse(t, b[:i]+string([]byte{byte(c)})+b[i+1:])
				}
			}
		}
	})
	add("parse/replace2", func(t *run.T) {
		cs := []byte{'-', '0', 'g', 'F', ' ', 0xff, 0, '{'}
		for _, b := range bases {
			for i := range b {
				for j := 0; j < i; j++ {
					for _, c := range cs {
						for _, d := range cs {
							x := []byte(b)
							x[i], x[j] = c, d
							parse(t, string(x))
						}
					}
				}
			}
		}
	})
	add("parse/shape", func(t *run.T) {
		for _, b := range bases {
			for i := range b {
				parse(t, b[:i]+b[i+1:])            // one left out
				parse(t, b[:i]+b[i:i+1]+b[i:])     // one doubled
				parse(t, b[:i])                    // cut
				parse(t, b[i:])                    //
				parse(t, b+b[:i])                  // too long
				parse(t, b[i:]+b[:i])              // rotated
				parse(t, b[:i]+"\u00e9"+b[i+1:])   // two bytes for one
				parse(t, b[:i]+" "+b[i:])          //
				parse(t, "{"+b[:i]+b[i:]+"}")      //
				parse(t, "urn:uuid:"+b)            //
				parse(t, strings.Repeat("0", i))   //
				parse(t, strings.Repeat("-", i+1)) //
				parse(t, strings.Repeat("a", i+4))
				for j := 0; j < i; j++ { // one moved
					parse(t, b[:j]+b[i:i+1]+b[j:i]+b[i+1:])
					x := []byte(b)
					x[i], x[j] = x[j], x[i]
					parse(t, string(x))
				}
			}
		}
		// every subset of the four dashes replaced by digits, and every placement of four dashes among 36 places near the right ones
		for m := 0; m < 16; m++ {
			x := []byte(bases[1])
			for k, p := range []int{8, 13, 18, 23} {
				if m>>k&1 == 1 {
					x[p] = 'a'
				}
			}
			parse(t, string(x))
		}
		for a := 6; a < 12; a++ {
			for b := a + 1; b < a+7; b++ {
				for c := b + 1; c < b+7; c++ {
					for d := c + 1; d < c+7 && d < 36; d++ {
						x := []byte(strings.Repeat("7", 36))
						x[a], x[b], x[c], x[d] = '-', '-', '-', '-'
						parse(t, string(x))
					}
				}
			}
		}
	})
	return
}
