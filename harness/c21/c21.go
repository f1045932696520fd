// Property C21: AES-CBC encryption of byte strings.
package c21

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/md5"
	"crypto/sha256"

	"github.com/donnie4w/gofer/keystore"
	_ "verif/model"

	"verif/nd"
)

// enc is the reference: AES-256 in CBC mode with PKCS#7 padding, keyed by the
// SHA-256 of key, with the MD5 of iv as initialisation vector.
func enc(iv, key string, src []byte) []byte {
	i, k := md5.Sum([]byte(iv)), sha256.Sum256([]byte(key))
	c, _ := aes.NewCipher(k[:])
	n := 16 - len(src)%16
	r := append(append([]byte{}, src...), bytes.Repeat([]byte{byte(n)}, n)...)
	cipher.NewCBCEncrypter(c, i[:]).CryptBlocks(r, r)
	return r
}

type pair struct {
	enc, dec func([]byte) ([]byte, error)
	ref      func([]byte) []byte
}

func pick() pair {
	key := nd.String("key", nd.Choose("klen", 3))
	if nd.Choose("api", 2) == 0 {
		return pair{
			func(b []byte) ([]byte, error) { return keystore.AesEncrypter(b, key) },
			func(b []byte) ([]byte, error) { return keystore.AesDecrypter(b, key) },
			func(b []byte) []byte { return enc(key, key, b) },
		}
	}
	iv := nd.String("iv", nd.Choose("ivlen", 2))
	a := keystore.NewAes(iv, key)
	return pair{a.EncrypterCbc, a.DecrypterCbc, func(b []byte) []byte { return enc(iv, key, b) }}
}

func lens() int {
	l := []int{0, 1, 15, 16, 17, 31, 32, 33, 47, 48}
	return l[nd.Choose("len", nd.Q(8, 10))]
}

// Encryption is standard, leaves the caller's memory alone, and decryption inverts it.
func CheckRoundTrip() {
	p := pick()
	m := nd.Bytes("msg", lens()+16)
	n := len(m) - 16
	keep := string(m)
	c, err := p.enc(m[:n])
	nd.Assert(err == nil, "encryption succeeds")
	nd.Assert(nd.StrEq(string(m), keep), "encryption leaves its input and the memory behind it alone")
	nd.Assert(len(c) == n/16*16+16, "the ciphertext is padded to whole blocks, by at least one byte")
	nd.Assert(nd.BytesEq(c, p.ref(m[:n])), "the ciphertext is AES-256-CBC with PKCS#7 padding under SHA-256 of the key and MD5 of the iv")
	keepc := string(c)
	d, err := p.dec(c)
	nd.Assert(err == nil, "decryption of a ciphertext succeeds")
	nd.Assert(nd.StrEq(string(d), keep[:n]), "decryption inverts encryption")
	nd.Assert(nd.StrEq(string(c), keepc), "decryption leaves its input alone")
	for i := range m {
		m[i]++
	}
	for i := range c {
		c[i]++
	}
	nd.Assert(nd.StrEq(string(d), keep[:n]), "results do not share memory with inputs")
	nd.Reach("end")
}

// One Aes value serves many messages.
func CheckReuse() {
	a := keystore.NewAes("iv", "key")
	x, y := nd.Bytes("x", nd.Choose("xl", 18)), nd.Bytes("y", nd.Choose("yl", 2))
	cx, err1 := a.EncrypterCbc(x)
	cy, err2 := a.EncrypterCbc(y)
	nd.Assert(err1 == nil && err2 == nil, "encryption succeeds")
	nd.Assert(nd.BytesEq(cx, enc("iv", "key", x)), "messages are independent")
	nd.Assert(nd.BytesEq(cy, enc("iv", "key", y)), "messages are independent")
	dy, err1 := a.DecrypterCbc(cy)
	dx, err2 := a.DecrypterCbc(cx)
	nd.Assert(err1 == nil && err2 == nil, "decryption of a ciphertext succeeds")
	nd.Assert(nd.BytesEq(dx, x), "messages are independent")
	nd.Assert(nd.BytesEq(dy, y), "messages are independent")
	nd.Reach("end")
}

// Values with other keys and initialisation vectors do not disturb each other.
func CheckSeveral() {
	type kv struct{ iv, key string }
	var l [3]kv
	var as [3]*keystore.Aes
	for i := range l {
		if nd.Choose("api", 2) == 0 {
			l[i] = kv{nd.String("iv", 1), nd.String("key", 1)}
			as[i] = keystore.NewAes(l[i].iv, l[i].key)
		} else {
			k := nd.String("key", 1)
			l[i] = kv{k, k}
		}
	}
	x := nd.Bytes("x", 1)
	for i := range l {
		if as[i] == nil {
			c, err := keystore.AesEncrypter(x, l[i].key)
			nd.Assert(err == nil && nd.BytesEq(c, enc(l[i].iv, l[i].key, x)), "each key and iv gives its own ciphertext")
			continue
		}
		c, err := as[i].EncrypterCbc(x)
		nd.Assert(err == nil && nd.BytesEq(c, enc(l[i].iv, l[i].key, x)), "each key and iv gives its own ciphertext")
	}
	nd.Reach("end")
}

// Any input to decryption gives a message or an error.
func CheckMalformed() {
	nd.ModelOnly("what an arbitrary ciphertext decrypts to is arbitrary")
	n := nd.Choose("n", nd.Q(34, 50))
	b := nd.Bytes("b", n)
	d, err := keystore.NewAes("iv", "key").DecrypterCbc(b)
	if n == 0 || n%16 != 0 {
		nd.Assert(err != nil, "a ciphertext of no whole number of blocks is reported")
		return
	}
	if err == nil {
		nd.Assert(nd.And(len(d) < n, len(d) >= n-16), "the padding is between one byte and a block")
	}
	nd.Reach("end")
}

// Ciphertexts whose padding is not PKCS#7 are reported.
func CheckPadding() {
	k, i := sha256.Sum256([]byte("key")), md5.Sum([]byte("iv"))
	c, _ := aes.NewCipher(k[:])
	n := 16 * (1 + nd.Choose("blocks", 2))
	b := nd.Bytes("plain", n)
	keep := append([]byte{}, b...)
	cipher.NewCBCEncrypter(c, i[:]).CryptBlocks(b, b)
	d, err := keystore.NewAes("iv", "key").DecrypterCbc(b)
	l := keep[n-1]
	good := nd.And(l >= 1, l <= 16)
	for j := 2; j <= 16; j++ {
		good = nd.And(good, nd.Or(int(l) < j, keep[n-j] == l))
	}
	nd.Assert((err == nil) == good, "decryption succeeds exactly for PKCS#7 padding")
	if err == nil {
		nd.Assert(nd.And(len(d) == n-int(l), nd.BytesEq(d, keep[:len(d)])), "the padding alone is removed")
	}
	nd.Reach("end")
}

// Concurrent encryptions and decryptions with one Aes value do not meet.
func CheckConc() {
	nd.Preemptions(nd.Q(2, 3))
	nd.RacesAreBugs()
	a := keystore.NewAes("iv", "key")
	shared := nd.Bool("shared")
	work := func(x []byte) func() {
		return func() {
			w := string(x)
			var c, d []byte
			var err error
			if shared {
				c, err = a.EncrypterCbc(x)
				nd.Assert(err == nil && nd.BytesEq(c, enc("iv", "key", []byte(w))), "messages are independent")
				d, err = a.DecrypterCbc(c)
			} else {
				c, err = keystore.AesEncrypter(x, "key")
				nd.Assert(err == nil && nd.BytesEq(c, enc("key", "key", []byte(w))), "messages are independent")
				d, err = keystore.AesDecrypter(c, "key")
			}
			nd.Assert(err == nil && nd.StrEq(string(d), w), "messages are independent")
		}
	}
	nd.Both(work(nd.Bytes("x", nd.Choose("xl", 2)*16)), work(nd.Bytes("y", 1)))
	nd.Reach("end")
}

// Longer messages.
func CheckLarge() {
	nd.MaxMake(1 << 20)
	x := nd.Big("x", []int{130, 260}[nd.Choose("size", 2)])
	w := string(x)
	a := keystore.NewAes("iv", "key")
	e, d, iv := a.EncrypterCbc, a.DecrypterCbc, "iv"
	if nd.Bool("plain") {
		iv = "key"
		e = func(b []byte) ([]byte, error) { return keystore.AesEncrypter(b, "key") }
		d = func(b []byte) ([]byte, error) { return keystore.AesDecrypter(b, "key") }
	}
	c, err := e(x)
	nd.Assert(err == nil, "encryption succeeds")
	nd.Assert(nd.BytesEq(c, enc(iv, "key", []byte(w))), "encryption is AES-256-CBC with PKCS#7 padding")
	m, err := d(c)
	nd.Assert(err == nil && nd.StrEq(string(m), w), "decryption inverts encryption")
	nd.Reach("end")
}
