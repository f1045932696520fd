package model

import (
	"crypto/cipher"
	"crypto/md5"
	"crypto/sha256"
	"errors"
	"hash"

	"verif/nd"
)

// Digests are uninterpreted functions of the bytes hashed; AES is an arbitrary
// bijection per key; CBC is the textbook construction over it.

func uf(name string, n int, in []byte) []byte {
	r := make([]byte, 0, n)
	a := []uint64{uint64(len(in))}
	for i, b := range in {
		if i%8 == 0 {
			a = append(a, 0)
		}
		a[len(a)-1] = a[len(a)-1]<<8 | uint64(b)
	}
	for i := 0; len(r) < n; i++ {
		v := nd.UF(name+string(rune('0'+i)), a...)
		for s := 56; s >= 0; s -= 8 {
			r = append(r, byte(v>>s))
		}
	}
	return r[:n]
}

type digest struct {
	name string
	size int
	data []byte
}

func (d *digest) Write(p []byte) (int, error) { d.data = append(d.data, p...); return len(p), nil }
func (d *digest) Sum(b []byte) []byte         { return append(b, uf(d.name, d.size, d.data)...) }
func (d *digest) Reset()                      { d.data = nil }
func (d *digest) Size() int                   { return d.size }
func (d *digest) BlockSize() int              { return 64 }

//sym:replace crypto/md5.New
func md5New() hash.Hash { return &digest{name: "md5", size: 16} }

//sym:replace crypto/md5.Sum
func md5Sum(b []byte) (r [md5.Size]byte) { copy(r[:], uf("md5", 16, b)); return }

//sym:replace crypto/sha256.New
func sha256New() hash.Hash { return &digest{name: "sha256_", size: 32} }

//sym:replace crypto/sha256.Sum256
func sha256Sum(b []byte) (r [sha256.Size]byte) { copy(r[:], uf("sha256_", 32, b)); return }

//sym:replace crypto/sha1.New
func sha1New() hash.Hash { return &digest{name: "sha1_", size: 20} }

//sym:replace crypto/sha1.Sum
func sha1Sum(b []byte) (r [20]byte) { copy(r[:], uf("sha1_", 20, b)); return }

type aesBlock struct{ key []byte }

type aesPair struct{ key, x, y []byte }

var aesSeen []aesPair

//sym:replace crypto/aes.NewCipher
func aesNew(key []byte) (cipher.Block, error) {
	switch len(key) {
	case 16, 24, 32:
		return &aesBlock{append([]byte(nil), key...)}, nil
	}
	return nil, errors.New("crypto/aes: invalid key size")
}

func (b *aesBlock) BlockSize() int { return 16 }

func (b *aesBlock) Encrypt(dst, src []byte) {
	if len(src) < 16 || len(dst) < 16 {
		panic("crypto/aes: block too short")
	}
	x := append([]byte(nil), src[:16]...)
	y := uf("aesE", 16, append(append([]byte(nil), b.key...), x...))
	nd.Atomic(func() {
		for _, p := range aesSeen { // a bijection
			if nd.Certain(len(p.key) == len(b.key)) && nd.Certain(nd.And(nd.BytesEq(p.x, x), nd.BytesEq(p.key, b.key))) {
				return
			}
		}
		for _, p := range aesSeen {
			if len(p.key) == len(b.key) {
				nd.Assume(nd.Or(!nd.BytesEq(p.key, b.key), !nd.BytesEq(p.y, y), nd.BytesEq(p.x, x)))
			}
		}
		aesSeen = append(aesSeen, aesPair{b.key, x, y})
	})
	copy(dst, y)
}

func (b *aesBlock) Decrypt(dst, src []byte) {
	if len(src) < 16 || len(dst) < 16 {
		panic("crypto/aes: block too short")
	}
	y := append([]byte(nil), src[:16]...)
	var l []aesPair
	nd.Atomic(func() { l = aesSeen })
	for _, p := range l {
		if len(p.key) == len(b.key) && nd.Certain(nd.And(nd.BytesEq(p.y, y), nd.BytesEq(p.key, b.key))) {
			copy(dst, p.x)
			return
		}
	}
	r := uf("aesD", 16, append(append([]byte(nil), b.key...), y...))
	for _, p := range l {
		if len(p.key) == len(b.key) {
			m := nd.And(nd.BytesEq(p.y, y), nd.BytesEq(p.key, b.key))
			for i := range r {
				r[i] = byte(nd.IteInt(m, int(p.x[i]), int(r[i])))
			}
		}
	}
	copy(dst, r)
}

type cbc struct {
	b   cipher.Block
	iv  []byte
	dec bool
}

func newCBC(b cipher.Block, iv []byte, dec bool) cipher.BlockMode {
	if len(iv) != b.BlockSize() {
		panic("cipher.NewCBC: IV length must equal block size")
	}
	return &cbc{b, append([]byte(nil), iv...), dec}
}

//sym:replace crypto/cipher.NewCBCEncrypter
func newCBCEnc(b cipher.Block, iv []byte) cipher.BlockMode { return newCBC(b, iv, false) }

//sym:replace crypto/cipher.NewCBCDecrypter
func newCBCDec(b cipher.Block, iv []byte) cipher.BlockMode { return newCBC(b, iv, true) }

func (c *cbc) BlockSize() int { return c.b.BlockSize() }

func (c *cbc) CryptBlocks(dst, src []byte) {
	n := c.b.BlockSize()
	if len(src)%n != 0 {
		panic("crypto/cipher: input not full blocks")
	}
	if len(dst) < len(src) {
		panic("crypto/cipher: output smaller than input")
	}
	for i := 0; i < len(src); i += n {
		in := append([]byte(nil), src[i:i+n]...)
		t := make([]byte, n)
		if c.dec {
			c.b.Decrypt(t, in)
			for j := range t {
				dst[i+j] = t[j] ^ c.iv[j]
			}
			c.iv = in
		} else {
			for j := range t {
				t[j] = in[j] ^ c.iv[j]
			}
			c.b.Encrypt(t, t)
			copy(dst[i:], t)
			c.iv = t
		}
	}
}

// NewDigest is a keyed hash as an uninterpreted function of key and message.
func NewDigest(name string, size int, key []byte) hash.Hash {
	if len(key) > 0 {
		k := append([]byte{byte(len(key))}, key...)
		return &keyed{digest{name: name + "keyed_", size: size, data: k}, k}
	}
	return &digest{name: name, size: size}
}

type keyed struct {
	digest
	key []byte
}

func (k *keyed) Reset() { k.data = append([]byte(nil), k.key...) }
