// Native enumeration of the encryption functions of package keystore (C25).
package main

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/md5"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/x509"
	"encoding/pem"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/donnie4w/gofer/keystore"
	"verif.local/v/run"
)

func main() { run.Main(map[string]run.Maker{"C25": c25}) }

func pick(thorough bool, a, b int) int {
	if thorough {
		return b
	}
	return a
}

func mode(iv, key string) (cipher.Block, []byte) {
	k := sha256.Sum256([]byte(key))
	v := md5.Sum([]byte(iv))
	c, err := aes.NewCipher(k[:])
	if err != nil {
		panic(err)
	}
	return c, v[:]
}

// raw encrypts whole blocks.
func raw(iv, key string, b []byte) []byte {
	c, v := mode(iv, key)
	r := make([]byte, len(b))
	cipher.NewCBCEncrypter(c, v).CryptBlocks(r, b)
	return r
}

// refDecrypt is the definition: whole blocks, PKCS#7 padding.
func refDecrypt(iv, key string, b []byte) ([]byte, bool) {
	if len(b) == 0 || len(b)%16 != 0 {
		return nil, false
	}
	c, v := mode(iv, key)
	r := make([]byte, len(b))
	cipher.NewCBCDecrypter(c, v).CryptBlocks(r, b)
	n := int(r[len(r)-1])
	if n < 1 || n > 16 {
		return nil, false
	}
	for _, x := range r[len(r)-n:] {
		if int(x) != n {
			return nil, false
		}
	}
	return r[:len(r)-n], true
}

func pad(b []byte) []byte {
	n := 16 - len(b)%16
	return append(append([]byte{}, b...), bytes.Repeat([]byte{byte(n)}, n)...)
}

func patterns(n int) [][]byte {
	a, b := make([]byte, n), make([]byte, n)
	for i := range a {
		a[i] = byte(i*7 + 3)
		b[i] = byte(16 - i%17)
	}
	return [][]byte{make([]byte, n), a, b, bytes.Repeat([]byte{0xff}, n), bytes.Repeat([]byte{1}, n)}
}

type pair struct{ what, iv, key string }

var keys = []pair{{"", "iv", "key"}, {"", "", ""}, {"", "a", ""}, {"", "", "a"}, {"", "同じ", "鍵"}, {"", "\x00", "\x00\x00"}, {"", strings.Repeat("i", 100), strings.Repeat("k", 1000)}, {"", "same", "same"}}

type kept struct {
	what      string
	got, want []byte
}

// guarded returns a slice of b's bytes with extra bytes behind it, and a function telling whether anything changed.
func guarded(b []byte, extra int) ([]byte, func() string) {
	all := make([]byte, len(b)+extra)
	copy(all, b)
	for i := len(b); i < len(all); i++ {
		all[i] = byte(0xA0 + i%31)
	}
	was := append([]byte{}, all...)
	return all[:len(b)], func() string {
		if !bytes.Equal(all, was) {
			return fmt.Sprintf("the caller's bytes changed from % x to % x (length %d)", was, all, len(b))
		}
		return ""
	}
}

func encrypt(t *run.T, what string, f func(b []byte) ([]byte, error), iv, key string, b []byte, extra int) (r []byte) {
	in, changed := guarded(b, extra)
	t.NoPanic(what, func() {
		var err error
		r, err = f(in)
		if m := changed(); m != "" {
			t.Fail("%s of %d bytes with capacity %d: %s", what, len(b), cap(in), m)
		}
		if want := raw(iv, key, pad(b)); err != nil || !bytes.Equal(r, want) {
			t.Fail("%s of [% x] with iv %q and key %q returned [% x], %v, want [% x]", what, b, iv, key, r, err, want)
		}
	})
	t.Case(1)
	return
}

func decrypt(t *run.T, what string, f func(b []byte) ([]byte, error), iv, key string, b []byte, extra int) (r []byte) {
	want, ok := refDecrypt(iv, key, b)
	in, changed := guarded(b, extra)
	if b == nil {
		in = nil
	}
	t.NoPanic(fmt.Sprintf("%s of [% x]", what, b), func() {
		var err error
		r, err = f(in)
		if m := changed(); m != "" {
			t.Fail("%s of %d bytes with capacity %d: %s", what, len(b), cap(in), m)
		}
		switch {
		case !ok && err == nil:
			t.Fail("%s of the malformed ciphertext [% x] (iv %q, key %q) returned [% x] and no error", what, b, iv, key, r)
		case ok && (err != nil || !bytes.Equal(r, want)):
			t.Fail("%s of [% x] (iv %q, key %q) returned [% x], %v, want [% x]", what, b, iv, key, r, err, want)
		}
	})
	t.Case(1)
	return
}

func c25(thorough bool) (r []run.Scenario) {
	add := func(n string, f func(t *run.T)) { r = append(r, run.Scenario{Name: "nat/" + n, Nat: f}) }
	for _, p := range keys {
		name := fmt.Sprintf("aes/%.6q,%.6q", p.iv, p.key)
		both := func(t *run.T, k *[]kept, b []byte, extra int, a *keystore.Aes) {
			e := encrypt(t, "EncrypterCbc", a.EncrypterCbc, p.iv, p.key, b, extra)
			d := decrypt(t, "DecrypterCbc", a.DecrypterCbc, p.iv, p.key, e, extra)
			if !bytes.Equal(d, b) {
				t.Fail("[% x] became [% x]", b, d)
			}
			*k = append(*k, kept{"EncrypterCbc", e, append([]byte{}, e...)}, kept{"DecrypterCbc", d, append([]byte{}, d...)})
			if len(*k) > 300 {
				verify(t, k)
			}
		}
		add(name+"/lengths", func(t *run.T) {
			var k []kept
			a := keystore.NewAes(p.iv, p.key)
			both(t, &k, nil, 0, a)
			for n := 0; n <= pick(thorough, 100, 300); n++ {
				for _, b := range patterns(n) {
					for extra := 0; extra <= 36; extra++ {
						both(t, &k, b, extra, a)
					}
				}
				if !t.More() {
					return
				}
			}
			for _, n := range []int{1023, 1024, 1025, 4095, 4096, 65535, 65536, 65537, 1<<20 + 3} {
				for _, b := range patterns(n) {
					for _, extra := range []int{0, 1, 16, 100} {
						both(t, &k, b, extra, a)
					}
				}
			}
			for i := 0; i < 65536; i++ {
				both(t, &k, []byte{byte(i >> 8), byte(i)}, i%3, a)
			}
			verify(t, &k)
			t.Sample("all lengths to 100 with 0 to 36 spare bytes")
		})
		add(name+"/malformed", func(t *run.T) {
			a := keystore.NewAes(p.iv, p.key)
			dec := func(b []byte) { decrypt(t, "DecrypterCbc", a.DecrypterCbc, p.iv, p.key, b, 0) }
			dec(nil)
			for n := 0; n <= pick(thorough, 100, 700); n++ {
				for _, b := range patterns(n) {
					dec(b)
				}
			}
			// every padding: last byte, and where it is broken
			for blocks := 1; blocks <= 3; blocks++ {
				for last := 0; last < 256; last++ {
					for at := 0; at <= 17; at++ {
						b := patterns(16 * blocks)[1]
						for i := 0; i < last && i < len(b); i++ {
							b[len(b)-1-i] = byte(last)
						}
						b[len(b)-1] = byte(last)
						if at > 0 && at < len(b) {
							b[len(b)-1-at] ^= 0x55
						}
						dec(raw(p.iv, p.key, b))
					}
				}
			}
			// every truncation and changed byte of a ciphertext
			c := raw(p.iv, p.key, pad([]byte("some plain text of three blocks .....")))
			for i := 0; i <= len(c); i++ {
				dec(c[:i])
				dec(c[i:])
				for v := 0; i < len(c) && v < 256; v++ {
					d := append([]byte{}, c...)
					d[i] = byte(v)
					dec(d)
				}
			}
			t.Sample("all 256 last bytes and padding lengths of one to three blocks")
		})
		// calls after each other on the same object, failed ones included
		add(name+"/sequences", func(t *run.T) {
			c := raw(p.iv, p.key, pad([]byte("abc")))
			n := pick(thorough, 4, 5)
			var rec func(seq []int)
			rec = func(seq []int) {
				if len(seq) == n {
					a := keystore.NewAes(p.iv, p.key)
					var k []kept
					for _, o := range seq {
						switch o {
						case 0:
							both(t, &k, []byte("hello"), 0, a)
						case 1:
							both(t, &k, []byte("0123456789abcdef"), 20, a)
						case 2:
							decrypt(t, "DecrypterCbc", a.DecrypterCbc, p.iv, p.key, c, 5)
						case 3:
							decrypt(t, "DecrypterCbc", a.DecrypterCbc, p.iv, p.key, c[:9], 0)
						case 4:
							decrypt(t, "DecrypterCbc", a.DecrypterCbc, p.iv, p.key, raw(p.iv, p.key, make([]byte, 32)), 0)
						case 5:
							encrypt(t, "EncrypterCbc", a.EncrypterCbc, p.iv, p.key, nil, 16)
						case 6:
							keystore.NewAes("other", "other").EncrypterCbc([]byte("x"))
						}
					}
					verify(t, &k)
					return
				}
				for o := 0; o < 7; o++ {
					rec(append(seq, o))
				}
			}
			rec(nil)
			t.Sample("all sequences of %d of seven calls", n)
		})
		add(name+"/functions", func(t *run.T) {
			enc := func(b []byte) ([]byte, error) { return keystore.AesEncrypter(b, p.key) }
			dec := func(b []byte) ([]byte, error) { return keystore.AesDecrypter(b, p.key) }
			for n := 0; n <= 50; n++ {
				for _, b := range patterns(n) {
					for _, extra := range []int{0, 1, 15, 16, 17, 33} {
						e := encrypt(t, "AesEncrypter", enc, p.key, p.key, b, extra)
						if d := decrypt(t, "AesDecrypter", dec, p.key, p.key, e, extra); !bytes.Equal(d, b) {
							t.Fail("[% x] became [% x]", b, d)
						}
						decrypt(t, "AesDecrypter", dec, p.key, p.key, b, extra)
					}
				}
			}
		})
	}
	// ivs and keys of every length and kind
	kinds := []func(n int) string{
		func(n int) string { return strings.Repeat("a", n) },
		func(n int) string { return string(patterns(n)[1]) },
		func(n int) string { return strings.Repeat("0123456789abcdef", n/16+1)[:n] },
		func(n int) string { return strings.Repeat("\x00", n) },
		func(n int) string { return strings.Repeat("é", n/2) + strings.Repeat(" ", n%2) },
	}
	for ki := range kinds {
		add(fmt.Sprintf("aes/strings/%d", ki), func(t *run.T) {
			top := pick(thorough, 70, 140)
			for n := 0; n <= top; n++ {
				for m := 0; m <= top; m++ {
					iv, key := kinds[ki](n), kinds[(ki+n+m)%len(kinds)](m)
					a := keystore.NewAes(iv, key)
					b := patterns(n % 35)[1]
					c := encrypt(t, "EncrypterCbc", a.EncrypterCbc, iv, key, b, m%20)
					decrypt(t, "DecrypterCbc", a.DecrypterCbc, iv, key, c, n%20)
				}
				for _, key := range []string{kinds[ki](n), kinds[ki](n) + "\n", " " + kinds[ki](n)} {
					b := patterns(n % 35)[1]
					c := encrypt(t, "AesEncrypter", func(b []byte) ([]byte, error) { return keystore.AesEncrypter(b, key) }, key, key, b, n%20)
					decrypt(t, "AesDecrypter", func(b []byte) ([]byte, error) { return keystore.AesDecrypter(b, key) }, key, key, c, n%20)
				}
				if !t.More() {
					return
				}
			}
			t.Sample("ivs and keys of all lengths to %d", top)
		})
	}
	for _, n := range []int{1 << 12, 1 << 16, 1<<20 - 1, 1 << 20, 1<<20 + 1, 1<<22 + 1} {
		add(fmt.Sprintf("aes/long-strings/%d", n), func(t *run.T) {
			b := []byte("0123456789abcdefg")
			for _, k := range kinds {
				s := k(n)
				// and strings that differ only at their end
				for _, p := range []pair{{"", s, "k"}, {"", "i", s}, {"", s, s}, {"", s + "x", s + "y"}, {"", s + "y", s + "x"}} {
					a := keystore.NewAes(p.iv, p.key)
					what := fmt.Sprintf("EncrypterCbc with iv of %d and key of %d bytes", len(p.iv), len(p.key))
					c, err := a.EncrypterCbc(b)
					if err != nil || !bytes.Equal(c, raw(p.iv, p.key, pad(b))) {
						t.Fail("%s: another ciphertext than AES-256-CBC, or %v", what, err)
					}
					if d, err := a.DecrypterCbc(c); err != nil || !bytes.Equal(d, b) {
						t.Fail("%s: decrypted as %q, %v", what, d, err)
					}
					c, err = keystore.AesEncrypter(b, p.key)
					if err != nil || !bytes.Equal(c, raw(p.key, p.key, pad(b))) {
						t.Fail("AesEncrypter with a key of %d bytes: another ciphertext than AES-256-CBC, or %v", len(p.key), err)
					}
					if d, err := keystore.AesDecrypter(c, p.key); err != nil || !bytes.Equal(d, b) {
						t.Fail("AesDecrypter with a key of %d bytes: decrypted as %q, %v", len(p.key), d, err)
					}
					t.Case(4)
				}
			}
		})
	}
	for _, n := range []int{1<<20 - 1, 1 << 20, 1<<22 + 1, 1<<24 - 1, 1 << 24, 1<<24 + 1, 33 << 20, pick(thorough, 65<<20, 257<<20)} {
		add(fmt.Sprintf("aes/large/%d", n), func(t *run.T) {
			b := patterns(n)[1]
			for i := range b {
				b[i] += byte(i >> 12)
			}
			was := append([]byte{}, b...)
			want := raw("iv", "key", pad(b))
			wantk := raw("key", "key", pad(b))
			a := keystore.NewAes("iv", "key")
			for round := 0; round < 2; round++ {
				c, err := a.EncrypterCbc(b)
				if err != nil || !bytes.Equal(c, want) {
					t.Fail("EncrypterCbc of %d bytes: another ciphertext (%d bytes) than AES-256-CBC, or %v", n, len(c), err)
				}
				d, err := a.DecrypterCbc(c)
				if err != nil || !bytes.Equal(d, was) || !bytes.Equal(c, want) {
					t.Fail("DecrypterCbc of a plaintext of %d bytes: other bytes (%d), or the ciphertext was changed, or %v", n, len(d), err)
				}
				if d, err := a.DecrypterCbc(c[:len(c)-1]); err == nil {
					t.Fail("DecrypterCbc of %d bytes returned %d bytes and no error", len(c)-1, len(d))
				}
				t.Case(3)
			}
			c, err := keystore.AesEncrypter(b, "key")
			if err != nil || !bytes.Equal(c, wantk) {
				t.Fail("AesEncrypter of %d bytes: another ciphertext (%d bytes) than AES-256-CBC, or %v", n, len(c), err)
			}
			d, err := keystore.AesDecrypter(c, "key")
			if err != nil || !bytes.Equal(d, was) || !bytes.Equal(b, was) {
				t.Fail("AesDecrypter of a plaintext of %d bytes: other bytes (%d), or the plaintext was changed, or %v", n, len(d), err)
			}
			t.Case(2)
		})
	}
	rsaScenarios(thorough, add)
	return
}

func verify(t *run.T, k *[]kept) {
	for _, o := range *k {
		if !bytes.Equal(o.got, o.want) {
			t.Fail("the result of %s changed after it was returned: [% x], was [% x]", o.what, o.got, o.want)
		}
	}
	*k = nil
}

type rsaKey struct {
	name      string
	size      int
	pub, priv []byte
}

func newKey(bits int) rsaKey {
	k, err := rsa.GenerateKey(rand.Reader, bits)
	if err != nil {
		panic(err)
	}
	pub, _ := x509.MarshalPKIXPublicKey(&k.PublicKey)
	return rsaKey{fmt.Sprint(bits), bits / 8, pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: pub}), pem.EncodeToMemory(&pem.Block{Type: "RSA PRIVATE KEY", Bytes: x509.MarshalPKCS1PrivateKey(k)})}
}

func rsaScenarios(thorough bool, add func(n string, f func(t *run.T))) {
	type fn func(b []byte) ([]byte, error)
	enc := func(t *run.T, f fn, b []byte, extra, size int) (c []byte) {
		in, changed := guarded(b, extra)
		t.NoPanic("RSA encryption", func() {
			var err error
			c, err = f(in)
			if m := changed(); m != "" {
				t.Fail("RSA encryption of %d bytes: %s", len(b), m)
			}
			if len(b) <= size-11 && (err != nil || len(c) != size) || len(b) > size-11 && err == nil {
				t.Fail("RSA encryption of %d bytes with a key of %d returned [% x], %v", len(b), size, c, err)
			}
		})
		t.Case(1)
		return
	}
	dec := func(t *run.T, f fn, c, want []byte, extra int) {
		in, changed := guarded(c, extra)
		t.NoPanic("RSA decryption", func() {
			d, err := f(in)
			if m := changed(); m != "" {
				t.Fail("RSA decryption of %d bytes: %s", len(c), m)
			}
			if err != nil || !bytes.Equal(d, want) {
				t.Fail("RSA decryption of [% x] returned [% x], %v, want [% x]", c, d, err, want)
			}
		})
		t.Case(1)
	}
	either := func(t *run.T, what string, f func() ([]byte, error)) {
		t.NoPanic(what, func() {
			if d, err := f(); err == nil && d == nil {
				t.Fail("%s returned nil and no error", what)
			}
		})
		t.Case(1)
	}
	fails := func(t *run.T, what string, f func() ([]byte, error)) {
		t.NoPanic(what, func() {
			if d, err := f(); err == nil {
				t.Fail("%s returned [% x] and no error", what, d)
			}
		})
		t.Case(1)
	}
	round := func(t *run.T, e, d fn, size int) {
		for n := 0; n <= size+5; n++ {
			for i, b := range patterns(n) {
				if i > 2 && n%8 > 0 || !t.More() {
					continue
				}
				c := enc(t, e, b, n%40, size)
				if n <= size-11 {
					dec(t, d, c, b, n%17)
				}
			}
		}
		enc(t, e, nil, 0, size)
		if thorough {
			for i := 0; i < 65536 && t.More(); i += 7 {
				b := []byte{byte(i >> 8), byte(i)}
				dec(t, d, enc(t, e, b, 0, size), b, 0)
			}
		}
		t.Sample("all lengths to %d bytes", size+5)
	}
	add("rsa/default", func(t *run.T) {
		round(t, func(b []byte) ([]byte, error) { return keystore.RsaEncrypt(b, "") }, func(b []byte) ([]byte, error) { return keystore.RsaDecrypt(b, "") }, 128)
	})
	for _, bits := range []int{1024, 1032, 2048} {
		add(fmt.Sprintf("rsa/bytes/%d", bits), func(t *run.T) {
			k := newKey(bits)
			round(t, func(b []byte) ([]byte, error) { return keystore.RsaEncryptByBytes(b, k.pub) }, func(b []byte) ([]byte, error) { return keystore.RsaDecryptByBytes(b, k.priv) }, k.size)
		})
	}
	add("rsa/files", func(t *run.T) {
		k := newKey(1024)
		dir := t.Dir()
		p, q := filepath.Join(dir, "pub"), filepath.Join(dir, "priv")
		os.WriteFile(p, k.pub, 0600)
		os.WriteFile(q, k.priv, 0600)
		round(t, func(b []byte) ([]byte, error) { return keystore.RsaEncrypt(b, p) }, func(b []byte) ([]byte, error) { return keystore.RsaDecrypt(b, q) }, k.size)
		c, _ := keystore.RsaEncrypt([]byte("x"), p)
		for _, bad := range []string{filepath.Join(dir, "missing"), dir, q} {
			fails(t, "RsaEncrypt with "+bad, func() ([]byte, error) { return keystore.RsaEncrypt([]byte("x"), bad) })
		}
		for _, bad := range []string{filepath.Join(dir, "missing"), dir, p} {
			fails(t, "RsaDecrypt with "+bad, func() ([]byte, error) { return keystore.RsaDecrypt(c, bad) })
		}
		for n := 0; n < len(k.pub); n += 3 {
			os.WriteFile(p, k.pub[:n], 0600)
			if !strings.Contains(string(k.pub[:n]), "-----END PUBLIC KEY-----") {
				fails(t, "RsaEncrypt with a truncated key", func() ([]byte, error) { return keystore.RsaEncrypt([]byte("x"), p) })
			}
		}
		for n := 0; n < len(k.priv); n += 3 {
			os.WriteFile(q, k.priv[:n], 0600)
			if !strings.Contains(string(k.priv[:n]), "-----END RSA PRIVATE KEY-----") {
				fails(t, "RsaDecrypt with a truncated key", func() ([]byte, error) { return keystore.RsaDecrypt(c, q) })
			}
		}
	})
	add("rsa/keys", func(t *run.T) {
		k := newKey(1024)
		c, _ := keystore.RsaEncryptByBytes([]byte("text"), k.pub)
		pub := func(what string, b []byte, f func(*run.T, string, func() ([]byte, error))) {
			f(t, "RsaEncryptByBytes with "+what, func() ([]byte, error) { return keystore.RsaEncryptByBytes([]byte("text"), b) })
		}
		priv := func(what string, b []byte, f func(*run.T, string, func() ([]byte, error))) {
			f(t, "RsaDecryptByBytes with "+what, func() ([]byte, error) { return keystore.RsaDecryptByBytes(c, b) })
		}
		ec, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		ecb, _ := x509.MarshalPKIXPublicKey(&ec.PublicKey)
		ed, edp, _ := ed25519.GenerateKey(rand.Reader)
		edb, _ := x509.MarshalPKIXPublicKey(ed)
		edk, _ := x509.MarshalPKCS8PrivateKey(edp)
		ecp, _ := x509.MarshalECPrivateKey(ec)
		for what, b := range map[string][]byte{"no key": nil, "an empty key": {}, "text": []byte("not a key"), "an EC key": pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: ecb}),
			"an Ed25519 key": pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: edb}), "an empty block": pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY"}), "a private key": k.priv} {
			pub(what, b, fails)
		}
		for what, b := range map[string][]byte{"no key": nil, "an empty key": {}, "text": []byte("not a key"), "an EC key": pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: ecp}),
			"an Ed25519 key": pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: edk}), "an empty block": pem.EncodeToMemory(&pem.Block{Type: "RSA PRIVATE KEY"}), "a public key": k.pub} {
			priv(what, b, fails)
		}
		// truncations and changed bytes of the text and of the encoded key
		for _, x := range []struct {
			b []byte
			f func(what string, b []byte, f func(*run.T, string, func() ([]byte, error)))
			e string
		}{{k.pub, pub, "-----END PUBLIC KEY-----"}, {k.priv, priv, "-----END RSA PRIVATE KEY-----"}} {
			for n := range x.b {
				if !t.More() {
					return
				}
				if !strings.Contains(string(x.b[:n]), x.e) {
					x.f("a truncated key", x.b[:n], fails)
				}
				for _, v := range []byte{0, '-', 'A', '\n', x.b[n] ^ 1, x.b[n] ^ 0x80, '=', 'z'} {
					d := append([]byte{}, x.b...)
					d[n] = v
					x.f(fmt.Sprintf("byte %d of the key set to %d", n, v), d, either)
				}
			}
			blk, _ := pem.Decode(x.b)
			for n := range blk.Bytes {
				if !t.More() {
					return
				}
				x.f("a truncated key structure", pem.EncodeToMemory(&pem.Block{Type: blk.Type, Bytes: blk.Bytes[:n]}), fails)
				for _, v := range []byte{0, 1, 2, 0x7f, 0x80, 0xff, blk.Bytes[n] ^ 1, 0x30} {
					d := append([]byte{}, blk.Bytes...)
					d[n] = v
					x.f(fmt.Sprintf("byte %d of the key structure set to %d", n, v), pem.EncodeToMemory(&pem.Block{Type: blk.Type, Bytes: d}), either)
				}
			}
		}
	})
	add("rsa/ciphertexts", func(t *run.T) {
		k := newKey(1024)
		c, _ := keystore.RsaEncryptByBytes([]byte("text"), k.pub)
		for n := 0; n < 300; n++ {
			b := append(append([]byte{}, c...), make([]byte, 200)...)[:n]
			f := func() ([]byte, error) { return keystore.RsaDecryptByBytes(b, k.priv) }
			if n > k.size {
				fails(t, fmt.Sprintf("decrypting %d bytes", n), f)
			} else {
				either(t, fmt.Sprintf("decrypting %d bytes", n), f)
			}
		}
		for i := range c {
			for _, x := range []byte{1, 2, 0x40, 0x80, 0xff} {
				d := append([]byte{}, c...)
				d[i] ^= x
				either(t, "decrypting a changed ciphertext", func() ([]byte, error) { return keystore.RsaDecryptByBytes(d, k.priv) })
			}
		}
		for _, p := range patterns(k.size) {
			either(t, "decrypting no ciphertext", func() ([]byte, error) { return keystore.RsaDecryptByBytes(p, k.priv) })
		}
		fails(t, "decrypting nothing", func() ([]byte, error) { return keystore.RsaDecryptByBytes(nil, k.priv) })
	})
}
