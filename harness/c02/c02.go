// Property C02: base58 of 64-bit integers.
package c02

import (
	"github.com/donnie4w/gofer/base58"
	_ "verif/model"
	"verif/nd"
)

const alphabet = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

// digit value of every byte, -1 outside the alphabet (built from the published alphabet)
var digit [256]int8

func init() {
	for i := range digit {
		digit[i] = -1
	}
	for i := 0; i < len(alphabet); i++ {
		digit[alphabet[i]] = int8(i)
	}
}

// Encode produces the positional base-58 representation of v: only alphabet
// characters, no leading zero digit, and its digits sum up to v.
func CheckEncode() {
	v := nd.Uint64("v")
	b := base58.EncodeForInt64(v)
	nd.Assert(len(b) <= 11, "a 64-bit value has at most 11 digits")
	nd.Assert(nd.Implies(v == 0, len(b) == 0), "zero encodes to the empty string")
	var s uint64
	q := v
	for i := len(b) - 1; i >= 0; i-- {
		nd.Assert(b[i] == alphabet[q%58], "digit must be the base-58 digit of the value")
		q /= 58
	}
	nd.Assert(q == 0, "no digit may be missing")
	if len(b) > 0 {
		nd.Assert(b[0] != '1', "no leading zero digit")
	}
	_ = s
	nd.Observe("b", b)
	nd.Reach("end")
}

// Decode of any string of alphabet characters is its positional value; of any
// other string it is (0,false).
func CheckDecode() {
	n := nd.Choose("n", nd.Q(12, 14))
	b := nd.Bytes("b", n)
	ok := true
	var want uint64
	for i := range b {
		d := digit[b[i]]
		ok = nd.And(ok, d >= 0)
		want = want*58 + uint64(d)
	}
	keep := string(b)
	r, o := base58.DecodeForInt64(b)
	nd.Assert(o == ok, "decode must succeed exactly on strings over the alphabet")
	if ok {
		nd.Assert(r == want, "decode must yield the positional value")
	} else {
		nd.Assert(r == 0, "rejected input yields zero")
	}
	nd.Assert(nd.StrEq(string(b), keep), "decode must not modify its input")
	nd.Observe("r", r)
	nd.Observe("ok", o)
	nd.Reach("end")
}

// The same for texts longer than any encoding: the value is taken modulo 2^64.
func CheckLong() {
	n := []int{12, 13, 16, 17, 20, 22, 23, 32, 33, 64, 65, 100, 256, 300}[nd.Choose("n", nd.Q(14, 14))]
	zeros := nd.Bool("zeros")
	b := make([]byte, n)
	for i := range b {
		b[i] = '1'
		if !zeros {
			b[i] = alphabet[nd.Mix(i, 58)]
		}
	}
	copy(b[nd.Choose("at", 2)*(n-2):], nd.Bytes("b", 2))
	ok := true
	var want uint64
	for i := range b {
		d := digit[b[i]]
		ok = nd.And(ok, d >= 0)
		want = want*58 + uint64(d)
	}
	r, o := base58.DecodeForInt64(b)
	nd.Assert(o == ok, "decode must succeed exactly on strings over the alphabet")
	if ok {
		nd.Assert(r == want, "decode must yield the positional value")
	} else {
		nd.Assert(r == 0, "rejected input yields zero")
	}
	nd.Reach("end")
}

// Decode(Encode(v)) == v
func CheckRoundTrip() {
	v := nd.Uint64("v")
	b := base58.EncodeForInt64(v)
	r, ok := base58.DecodeForInt64(b)
	nd.Assert(ok, "an encoding must be decodable")
	nd.Assert(r == v, "Decode(Encode(v)) must be v")
	nd.Observe("r", r)
	nd.Reach("end")
}

// Concurrent conversions do not meet.
func CheckConc() {
	nd.Preemptions(nd.Q(2, 3))
	nd.RacesAreBugs()
	work := func(v uint64) func() {
		return func() {
			r, ok := base58.DecodeForInt64(base58.EncodeForInt64(v))
			nd.Assert(ok && r == v, "Decode(Encode(v)) must be v")
		}
	}
	v, w := nd.Uint64("v"), nd.Uint64("w")
	nd.Assume(v < 58*58*58 && w < 58*58)
	nd.Both(work(v), work(w))
	nd.Reach("end")
}
