// Property C01: fixed-width integer codecs.
package c01

import (
	_ "verif/model"

	"github.com/donnie4w/gofer/util"
	"verif/nd"
)

func CheckInt64RoundTrip() {
	n := nd.Int64("n")
	b := util.Int64ToBytes(n)
	nd.Assert(len(b) == 8, "Int64ToBytes must produce 8 bytes")
	for i := 0; i < 8; i++ {
		nd.Assert(b[i] == byte(uint64(n)>>(56-8*uint(i))), "Int64ToBytes must be big-endian")
	}
	r := util.BytesToInt64(b)
	nd.Assert(r == n, "BytesToInt64(Int64ToBytes(n)) must be n")
	nd.Observe("b", b)
	nd.Reach("end")
}

func CheckInt32RoundTrip() {
	n := nd.Int32("n")
	b := util.Int32ToBytes(n)
	nd.Assert(len(b) == 4, "Int32ToBytes must produce 4 bytes")
	for i := 0; i < 4; i++ {
		nd.Assert(b[i] == byte(uint32(n)>>(24-8*uint(i))), "Int32ToBytes must be big-endian")
	}
	nd.Assert(util.BytesToInt32(b) == n, "BytesToInt32(Int32ToBytes(n)) must be n")
	nd.Observe("b", b)
	nd.Reach("end")
}

func CheckInt16RoundTrip() {
	n := nd.Int16("n")
	b := util.Int16ToBytes(n)
	nd.Assert(len(b) == 2, "Int16ToBytes must produce 2 bytes")
	nd.Assert(b[0] == byte(uint16(n)>>8) && b[1] == byte(n), "Int16ToBytes must be big-endian")
	nd.Assert(util.BytesToInt16(b) == n, "BytesToInt16(Int16ToBytes(n)) must be n")
	nd.Observe("b", b)
	nd.Reach("end")
}

// value of the first k bytes (all bytes when shorter), big-endian.
func ref(b []byte, k int) uint64 {
	var r uint64
	if len(b) < k {
		k = len(b)
	}
	for i := 0; i < k; i++ {
		r = r<<8 | uint64(b[i])
	}
	return r
}

func CheckDecodeAnyLength() {
	n := nd.Choose("len", 12)
	b := nd.Bytes("b", n)
	keep := string(b)
	r64, r32, r16 := util.BytesToInt64(b), util.BytesToInt32(b), util.BytesToInt16(b)
	nd.Assert(uint64(r64) == ref(b, 8), "BytesToInt64 must zero-extend short input and read the first 8 bytes otherwise")
	nd.Assert(uint32(r32) == uint32(ref(b, 4)), "BytesToInt32 must zero-extend short input and read the first 4 bytes otherwise")
	nd.Assert(uint16(r16) == uint16(ref(b, 2)), "BytesToInt16 must zero-extend short input and read the first 2 bytes otherwise")
	nd.Assert(nd.StrEq(string(b), keep), "decoders must not modify their input")
	nd.Observe("r64", r64)
	nd.Observe("r32", r32)
	nd.Observe("r16", r16)
	nd.Reach("end")
}

func CheckIntArray() {
	n := nd.Choose("len", nd.Q(5, 9))
	a := make([]int64, n)
	for i := range a {
		a[i] = nd.Int64("a")
	}
	b := util.IntArrayToBytes(a)
	nd.Assert(len(b) == 8*n, "IntArrayToBytes must produce 8 bytes per element")
	r := util.BytesToIntArray(b)
	nd.Assert(len(r) == n, "BytesToIntArray must recover the element count")
	for i := range a {
		nd.Assert(r[i] == a[i], "array round trip must preserve every element")
		nd.Assert(util.BytesToInt64(b[8*i:8*i+8]) == a[i], "array layout must be consecutive big-endian words")
	}
	nd.Observe("b", b)
	nd.Reach("end")
}

// trailing bytes beyond a whole number of words are ignored
func CheckIntArrayTrailing() {
	n := nd.Choose("len", 27)
	b := nd.Bytes("b", n)
	r := util.BytesToIntArray(b)
	nd.Assert(len(r) == n/8, "BytesToIntArray must decode exactly the whole words")
	for i := range r {
		nd.Assert(uint64(r[i]) == ref(b[8*i:], 8), "BytesToIntArray must decode each word big-endian")
	}
	nd.Reach("end")
}

// decoding sub-slices of a larger message leaves the whole message alone
func CheckDecodeInMessage() {
	m := nd.Bytes("msg", 14)
	keep := string(m)
	i := nd.Choose("from", 5)
	j := i + nd.Choose("len", 10)
	b := m[i:j]
	r64, r32, r16 := util.BytesToInt64(b), util.BytesToInt32(b), util.BytesToInt16(b)
	ar := util.BytesToIntArray(b)
	nd.Assert(nd.StrEq(string(m), keep), "decoders must not modify the message around their input")
	nd.Assert(uint64(r64) == ref(b, 8) && uint32(r32) == uint32(ref(b, 4)) && uint16(r16) == uint16(ref(b, 2)), "decoders read their input only")
	nd.Assert(len(ar) == len(b)/8, "BytesToIntArray decodes whole words of its input only")
	for k := range ar {
		nd.Assert(uint64(ar[k]) == ref(b[8*k:], 8), "BytesToIntArray must decode each word big-endian")
	}
	nd.Reach("end")
}

// encodings are independent of each other and of the array they come from
func CheckEncodingsIndependent() {
	n, m := nd.Int64("n"), nd.Int64("m")
	a, b := util.Int64ToBytes(n), util.Int64ToBytes(m)
	c, d := util.Int32ToBytes(int32(n)), util.Int32ToBytes(int32(m))
	e, f := util.Int16ToBytes(int16(n)), util.Int16ToBytes(int16(m))
	g, h := util.IntArrayToBytes([]int64{n}), util.IntArrayToBytes([]int64{m})
	nd.Assert(util.BytesToInt64(a) == n && util.BytesToInt64(b) == m, "a later Int64ToBytes leaves an earlier result alone")
	nd.Assert(util.BytesToInt32(c) == int32(n) && util.BytesToInt32(d) == int32(m), "a later Int32ToBytes leaves an earlier result alone")
	nd.Assert(util.BytesToInt16(e) == int16(n) && util.BytesToInt16(f) == int16(m), "a later Int16ToBytes leaves an earlier result alone")
	nd.Assert(nd.BytesEq(g, a) && nd.BytesEq(h, b), "a later IntArrayToBytes leaves an earlier result alone")
	x, y := util.BytesToIntArray(g), util.BytesToIntArray(h)
	nd.Assert(x[0] == n && y[0] == m, "a later BytesToIntArray leaves an earlier result alone")
	nd.Reach("end")
}

// concurrent conversions do not meet
func CheckConc() {
	nd.Preemptions(nd.Q(2, 3))
	nd.RacesAreBugs()
	n, m := nd.Int64("n"), nd.Int64("m")
	work := func(k int, v int64) func() {
		return func() {
			switch k {
			case 0:
				nd.Assert(util.BytesToInt64(util.Int64ToBytes(v)) == v, "BytesToInt64(Int64ToBytes(n)) must be n")
			case 1:
				nd.Assert(util.BytesToInt32(util.Int32ToBytes(int32(v))) == int32(v), "BytesToInt32(Int32ToBytes(n)) must be n")
			case 2:
				nd.Assert(util.BytesToInt16(util.Int16ToBytes(int16(v))) == int16(v), "BytesToInt16(Int16ToBytes(n)) must be n")
			case 3:
				r := util.BytesToIntArray(util.IntArrayToBytes([]int64{v, 1}))
				nd.Assert(len(r) == 2 && r[0] == v && r[1] == 1, "array round trip must preserve every element")
			case 4:
				b := []byte{byte(v), byte(v >> 8), byte(v >> 16)}
				nd.Assert(uint64(util.BytesToInt64(b)) == ref(b, 8), "BytesToInt64 must zero-extend short input and read the first 8 bytes otherwise")
				nd.Assert(uint32(util.BytesToInt32(b)) == uint32(ref(b, 4)), "BytesToInt32 must zero-extend short input and read the first 4 bytes otherwise")
				nd.Assert(uint16(util.BytesToInt16(b[:1])) == uint16(ref(b, 1)), "BytesToInt16 must zero-extend short input and read the first 2 bytes otherwise")
			}
		}
	}
	nd.Both(work(nd.Choose("f", 5), n), work(nd.Choose("g", 5), m))
	nd.Reach("end")
}

// arrays of any size
func CheckLarge() {
	nd.MaxMake(1 << 20)
	a := make([]int64, []int{130, 520, 2050, 9000}[nd.Choose("size", nd.Q(3, 4))])
	for i := range a {
		a[i] = int64(i) * 0x0123456789abcdef
	}
	pos := []int{0, 1, 63, 64, 127, 128, 129, 255, 256, 511, 512, 1023, 1024, 2047, 2048, len(a) - 1}
	for _, i := range pos {
		if i < len(a) {
			a[i] = nd.Int64("a")
		}
	}
	b := util.IntArrayToBytes(a)
	nd.Assert(len(b) == 8*len(a), "IntArrayToBytes must produce 8 bytes per element")
	r := util.BytesToIntArray(append(b, make([]byte, nd.Choose("extra", 3)*3)...))
	nd.Assert(len(r) == len(a), "BytesToIntArray must recover the element count")
	for i := range a {
		nd.Assert(r[i] == a[i], "array round trip must preserve every element")
	}
	nd.Reach("end")
}
