// Driver for cryptox: C37 (encryption), C38 (decryption), C44 (digests).
package main

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"hash"
	"hash/fnv"
	"math/rand"
	"strings"

	"github.com/miniLCT/gosb/library/cryptox"
	"verifh/tr"
)

func main() {
	tr.Main(func() {
		switch tr.Prop {
		case "C37":
			encryption()
		case "C38":
			decryption()
		case "C44":
			digests()
		}
	})
}

var modes = []string{"ecb", "cbc", "ctr"}

// arg puts b into a larger array, to see whether it is left alone.
func arg(b []byte, spare int) (s []byte, intact func() int) {
	whole := make([]byte, 8+len(b)+spare)
	for i := range whole {
		whole[i] = 0xa5
	}
	copy(whole[8:], b)
	was := append([]byte(nil), whole...)
	return whole[8 : 8+len(b)], func() int { return tr.B(!bytes.Equal(whole, was)) }
}

func enc(mode string, key, text []byte, b64 int, omit bool) []byte {
	r := tr.Rng
	k, ki := arg(key, r.Intn(20))
	t, ti := arg(text, r.Intn(40))
	var opt []bool
	if !omit {
		opt = []bool{b64 == 1}
		if r.Intn(3) == 0 {
			opt = append(opt, b64 == 0)
		}
	}
	e := tr.Ev{"op": "enc", "mode": mode, "key": tr.Ints(key), "text": tr.Ints(text), "b64": b64, "mod": 0}
	tr.Busy(true, e)
	var out []byte
	p, _ := tr.Try(func() any {
		switch mode {
		case "ecb":
			out = cryptox.AESEncrypt(k, t, opt...)
		case "cbc":
			out = cryptox.AESCBCEncrypt(k, t, opt...)
		default:
			out = cryptox.AESCTREncrypt(k, t, opt...)
		}
		return 0
	})
	tr.Busy(false, nil)
	e["p"], e["res"], e["mod"] = p, tr.Ints(out), ki()+ti()
	tr.Add(e)
	return out
}

func dec(mode string, key, text []byte, b64 int, omit bool) {
	r := tr.Rng
	k, ki := arg(key, r.Intn(20))
	t, ti := arg(text, r.Intn(40))
	var opt []bool
	if !omit {
		opt = []bool{b64 == 1}
		if r.Intn(3) == 0 {
			opt = append(opt, b64 == 0)
		}
	}
	e := tr.Ev{"op": "dec", "mode": mode, "key": tr.Ints(key), "text": tr.Ints(text), "b64": b64, "mod": 0}
	tr.Busy(true, e)
	var out []byte
	var err error
	p, _ := tr.Try(func() any {
		switch mode {
		case "ecb":
			out, err = cryptox.AESDecrypt(k, t, opt...)
		case "cbc":
			out, err = cryptox.AESCBCDecrypt(k, t, opt...)
		default:
			out, err = cryptox.AESCTRDecrypt(k, t, opt...)
		}
		return 0
	})
	tr.Busy(false, nil)
	e["p"], e["res"], e["mod"] = p, []any{tr.B(err != nil), tr.Ints(out)}, ki()+ti()
	tr.Add(e)
}

func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	switch r.Intn(4) {
	case 0:
		for i := range b {
			b[i] = byte([]int{0, 1, 15, 16, 17, 255, 10, 13}[r.Intn(8)])
		}
	default:
		r.Read(b)
	}
	return b
}

func anyKey(r *rand.Rand) []byte { return randBytes(r, []int{16, 24, 32}[r.Intn(3)]) }

func encryption() {
	r := tr.Rng
	one := func(mode string, n, kl, b64 int) {
		tr.Begin(tr.Ev{"x": 0})
		key := randBytes(r, kl)
		text := randBytes(r, n)
		for i := 0; i < 2; i++ {
			c := enc(mode, key, text, b64, b64 == 0 && r.Intn(2) == 0)
			dec(mode, key, c, b64, b64 == 0 && r.Intn(2) == 0)
		}
		tr.End()
	}
	i := 0
	max := tr.Scale(50, 200)
	for _, mode := range modes {
		for n := 0; n <= max; n++ {
			for _, kl := range []int{16, 24, 32} {
				for b64 := 0; b64 < 2; b64++ {
					if i++; tr.Mine(i) && (tr.Thorough || (n+kl/8+b64)%2 == 0 || n < 3 || n%16 < 2 || n%16 == 15) {
						one(mode, n, kl, b64)
					}
				}
			}
		}
	}
	// longer texts, around the sizes that code may treat in a different way
	for k, n := range []int{511, 512, 513, 1008, 1023, 1024, 1025, 1040, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000} {
		if tr.Thorough || tr.Mine(k) && n%512 < 2 && n < 1500 {
			one(modes[(k/tr.Shards+k)%3], n, []int{16, 24, 32}[r.Intn(3)], r.Intn(2))
		}
	}
	// and long ones: the cipher text is compared with the standard library's, and the text that comes back with the original
	for k := 0; k < tr.Scale(240, 2400)/tr.Shards; k++ {
		mode, n := modes[k%3], r.Intn(1<<(9+r.Intn(9)))
		if r.Intn(3) == 0 {
			n = 1<<(9+r.Intn(11)) + r.Intn(40) - 20
		}
		long(mode, randBytes(r, n), randBytes(r, []int{16, 24, 32}[r.Intn(3)]), r.Intn(2))
	}
	for k := 0; k < tr.Scale(80, 4000)/tr.Shards; k++ {
		one(modes[r.Intn(3)], r.Intn(tr.Scale(300, 800)), []int{16, 24, 32}[r.Intn(3)], r.Intn(2))
	}
}

// long encrypts and decrypts a text that is too long for the trace.
func long(mode string, text, key []byte, b64 int) {
	tr.Begin(tr.Ev{"x": 0})
	enc1 := map[string]func(k, t []byte, b ...bool) []byte{"ecb": cryptox.AESEncrypt, "cbc": cryptox.AESCBCEncrypt, "ctr": cryptox.AESCTREncrypt}[mode]
	dec1 := map[string]func(k, t []byte, b ...bool) ([]byte, error){"ecb": cryptox.AESDecrypt, "cbc": cryptox.AESCBCDecrypt, "ctr": cryptox.AESCTRDecrypt}[mode]
	tr.Do("long", tr.Ev{"mode": mode, "n": len(text), "b64": b64, "mod": 0}, func() any {
		was, wasKey := append([]byte{}, text...), append([]byte{}, key...)
		c := enc1(key, text, b64 == 1)
		raw := make([]byte, len(c))
		var n int
		var err error
		if b64 == 1 {
			n, err = base64.RawURLEncoding.Decode(raw, c)
		} else {
			n, err = hex.Decode(raw, c)
		}
		same := err == nil && bytes.Equal(raw[:n], reference(mode, key, raw[:n], was))
		back, err := dec1(key, c, b64 == 1)
		return []int{tr.B(same), tr.B(err == nil && bytes.Equal(back, was)), tr.B(bytes.Equal(text, was) && bytes.Equal(key, wasKey))}
	})
	tr.End()
}

// reference is what text is encrypted to, with the initialisation vector of c.
func reference(mode string, key, c, text []byte) []byte {
	blk, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	if mode != "ctr" {
		n := 16 - len(text)%16
		text = append(append([]byte{}, text...), bytes.Repeat([]byte{byte(n)}, n)...)
	}
	out := make([]byte, len(text))
	if mode == "ecb" {
		for i := 0; i < len(text); i += 16 {
			blk.Encrypt(out[i:], text[i:])
		}
		return out
	}
	if len(c) < 16 {
		return nil
	}
	if mode == "cbc" {
		cipher.NewCBCEncrypter(blk, c[:16]).CryptBlocks(out, text)
	} else {
		cipher.NewCTR(blk, c[:16]).XORKeyStream(out, text)
	}
	return append(append([]byte{}, c[:16]...), out...)
}

// encode spells bytes as a text, in one of several ways that mean the same.
func encode(r *rand.Rand, c []byte, b64 int) []byte {
	if b64 == 1 {
		s := base64.RawURLEncoding.EncodeToString(c)
		if r.Intn(12) == 0 && len(s) > 0 {
			i := r.Intn(len(s) + 1)
			s = s[:i] + []string{"\n", "\r\n", "\r"}[r.Intn(3)] + s[i:]
		}
		return []byte(s)
	}
	s := hex.EncodeToString(c)
	if r.Intn(4) == 0 {
		s = strings.ToUpper(s)
	}
	return []byte(s)
}

func decryption() {
	r := tr.Rng
	emit := func(f func()) {
		tr.Begin(tr.Ev{"x": 0})
		f()
		tr.End()
	}
	// any padding: texts of one to three blocks whose last bytes are anything
	padded := func(mode string, plain []byte, key []byte, b64 int) {
		blk, err := aes.NewCipher(key)
		if err != nil {
			panic(err)
		}
		var c []byte
		switch mode {
		case "ecb":
			c = make([]byte, len(plain))
			for i := 0; i+16 <= len(plain); i += 16 {
				blk.Encrypt(c[i:], plain[i:])
			}
		case "cbc":
			c = make([]byte, 16+len(plain))
			copy(c, randBytes(r, 16))
			if len(plain) > 0 {
				cipher.NewCBCEncrypter(blk, c[:16]).CryptBlocks(c[16:], plain)
			}
		default:
			c = make([]byte, 16+len(plain))
			copy(c, randBytes(r, 16))
			if r.Intn(3) == 0 {
				copy(c, bytes.Repeat([]byte{255}, 16)) // the counter overflows
				c[r.Intn(16)] = byte(250 + r.Intn(6))
			}
			cipher.NewCTR(blk, c[:16]).XORKeyStream(c[16:], plain)
		}
		emit(func() { dec(mode, key, encode(r, c, b64), b64, b64 == 0 && r.Intn(2) == 0) })
	}
	i := 0
	for _, mode := range modes {
		for last := 0; last < 256; last++ {
			for blocks := 1; blocks <= 2; blocks++ {
				if i++; !tr.Mine(i) || (!tr.Thorough && last > 20 && last%5 != 0) {
					continue
				}
				key := anyKey(r)
				fill := func(n int) []byte {
					p := randBytes(r, 16*blocks)
					for j := 0; j < n && j < len(p); j++ {
						p[len(p)-1-j] = byte(last)
					}
					return p
				}
				padded(mode, fill(last), key, r.Intn(2))
				if last > 1 && last <= 16 {
					for k := 1; k < last; k++ { // one byte of the padding is wrong
						p := fill(last)
						p[len(p)-1-k] ^= byte(1 + r.Intn(255))
						padded(mode, p, key, r.Intn(2))
					}
				}
				padded(mode, fill(1), key, r.Intn(2))
			}
		}
		// all lengths, decoded and not
		for n := 0; n < 70; n++ {
			for b64 := 0; b64 < 2; b64++ {
				if i++; !tr.Mine(i) {
					continue
				}
				emit(func() { dec(mode, anyKey(r), encode(r, randBytes(r, n), b64), b64, false) })
				emit(func() {
					t := encode(r, randBytes(r, 60), b64)
					dec(mode, anyKey(r), t[:n], b64, false)
				})
				if n%16 == 0 && n < 60 {
					for pad := 0; pad <= 17; pad++ {
						padded(mode, append(randBytes(r, n), bytes.Repeat([]byte{byte(pad)}, 16)...), anyKey(r), b64)
					}
				}
			}
		}
		// all key lengths
		for n := 0; n <= 40; n++ {
			if i++; tr.Mine(i) {
				emit(func() { dec(mode, randBytes(r, n), encode(r, randBytes(r, 32), 0), 0, false) })
				emit(func() { dec(mode, randBytes(r, n), nil, 1, false) })
			}
		}
		// all characters
		for c := 0; c < 256; c++ {
			for b64 := 0; b64 < 2; b64++ {
				if i++; tr.Mine(i) {
					emit(func() {
						t := encode(r, randBytes(r, 32), b64)
						t[r.Intn(len(t))] = byte(c)
						dec(mode, anyKey(r), t, b64, false)
					})
				}
			}
		}
	}
	for k := 0; k < tr.Scale(1200, 40000)/tr.Shards; k++ {
		emit(func() {
			b64 := r.Intn(2)
			mode := modes[r.Intn(3)]
			key := anyKey(r)
			switch r.Intn(4) {
			case 0:
				dec(mode, key, randBytes(r, r.Intn(90)), b64, r.Intn(2) == 0 && b64 == 0)
			case 1:
				n := r.Intn(100)
				t := encode(r, randBytes(r, n), b64)
				if len(t) > 0 && r.Intn(2) == 0 {
					t[r.Intn(len(t))] ^= byte(1 << r.Intn(8))
				}
				dec(mode, key, t, b64, false)
			default:
				// encrypted with one mode, key or encoding, perhaps decrypted with another
				t := enc(mode, key, randBytes(r, r.Intn(60)), b64, false)
				switch r.Intn(5) {
				case 0:
					mode = modes[r.Intn(3)]
				case 1:
					key = anyKey(r)
				case 2:
					b64 = 1 - b64
				case 3:
					if len(t) > 0 {
						t[r.Intn(len(t))] ^= byte(1 << r.Intn(8))
					}
				}
				dec(mode, key, t, b64, false)
			}
		})
	}
}

func digests() {
	r := tr.Rng
	one := func(n int) {
		m := randBytes(r, n)
		tr.Begin(tr.Ev{"x": 0})
		edge := n%64 < 2 || n%64 > 54 && n%64 < 58 || n%64 == 63 || n%128 > 110 && n%128 < 113
		for i, op := range []string{"md5", "sha1", "sha256", "sha512", "fnv32", "fnv64"} {
			if !tr.Thorough && !edge && n > 3 && (n+i)%4 != 0 {
				continue
			}
			b, intact := arg(m, r.Intn(20))
			e := tr.Ev{"op": op, "m": tr.Ints(m), "mod": 0}
			tr.Busy(true, e)
			p, res := tr.Try(func() any {
				switch op {
				case "md5":
					return tr.Bytes(cryptox.Md5(b))
				case "sha1":
					return tr.Bytes(cryptox.Sha1(b))
				case "sha256":
					return tr.Bytes(cryptox.Sha256(b))
				case "sha512":
					return tr.Bytes(cryptox.Sha512(b))
				case "fnv32":
					x := cryptox.Fnv1aToUint32(b)
					return []int{int(x >> 16), int(x & 0xffff)}
				}
				x := cryptox.Fnv1aToUint64(b)
				return []int{int(x >> 48), int(x >> 32 & 0xffff), int(x >> 16 & 0xffff), int(x & 0xffff)}
			})
			tr.Busy(false, nil)
			e["p"], e["res"], e["mod"] = p, res, intact()
			tr.Add(e)
		}
		tr.End()
	}
	for n := 0; n <= tr.Scale(140, 600); n++ {
		if tr.Mine(n) {
			one(n)
		}
	}
	for k := 0; k < tr.Scale(40, 4000)/tr.Shards; k++ {
		one(r.Intn(tr.Scale(300, 1500)))
	}
	// texts that are too long for the trace: compared with the standard library
	tr.Begin(tr.Ev{"x": 0})
	for k := 0; k < tr.Scale(400, 4000)/tr.Shards; k++ {
		n := r.Intn(1 << (8 + r.Intn(12)))
		if r.Intn(3) == 0 {
			n = 1<<(8+r.Intn(12)) + r.Intn(40) - 20
		}
		m := randBytes(r, n)
		b, intact := arg(m, r.Intn(20))
		sum := func(h hash.Hash) string { h.Write(m); return hex.EncodeToString(h.Sum(nil)) }
		op := []string{"md5", "sha1", "sha256", "sha512", "fnv32", "fnv64"}[k%6]
		e := tr.Ev{"op": "long", "f": op, "n": n}
		tr.Busy(true, e)
		p, res := tr.Try(func() any {
			switch op {
			case "md5":
				return tr.B(cryptox.Md5(b) == sum(md5.New()))
			case "sha1":
				return tr.B(cryptox.Sha1(b) == sum(sha1.New()))
			case "sha256":
				return tr.B(cryptox.Sha256(b) == sum(sha256.New()))
			case "sha512":
				return tr.B(cryptox.Sha512(b) == sum(sha512.New()))
			case "fnv32":
				return tr.B(fmt.Sprintf("%08x", cryptox.Fnv1aToUint32(b)) == sum(fnv.New32a()))
			}
			return tr.B(fmt.Sprintf("%016x", cryptox.Fnv1aToUint64(b)) == sum(fnv.New64a()))
		})
		tr.Busy(false, nil)
		e["p"], e["res"], e["mod"] = p, res, intact()
		tr.Add(e)
	}
	tr.End()
}
