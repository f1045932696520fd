// Property C03: UUID textual form, accessors and equality.
package c03

import (
	"github.com/donnie4w/gofer/base58"
	"github.com/donnie4w/gofer/uuid"
	_ "verif/model"
	"verif/nd"
)

func mk(name string) *uuid.UUID {
	b := nd.Bytes(name, 16)
	u := new(uuid.UUID)
	copy(u[:], b)
	return u
}

func hexDigit(v byte) byte { return "0123456789abcdef"[v&15] }

// String is the canonical 8-4-4-4-12 lower-case form and Parse inverts it.
func CheckStringParse() {
	u := mk("u")
	s := u.String()
	nd.Assert(len(s) == 36, "textual form has 36 characters")
	j := 0
	for i := 0; i < 16; i++ {
		if i == 4 || i == 6 || i == 8 || i == 10 {
			nd.Assert(s[j] == '-', "dash expected")
			j++
		}
		nd.Assert(s[j] == hexDigit(u[i]>>4), "high nibble")
		nd.Assert(s[j+1] == hexDigit(u[i]&15), "low nibble")
		j += 2
	}
	r, err := uuid.Parse(s)
	nd.Assert(err == nil && r != nil, "Parse must accept String output")
	for i := range u {
		nd.Assert(r[i] == u[i], "Parse(String(u)) must be u")
	}
	nd.Assert(r.Equals(u), "a parsed copy must equal the original")
	nd.Observe("s", s)
	nd.Reach("end")
}

func hexVal(c byte) (byte, bool) {
	switch {
	case nd.And('0' <= c, c <= '9'):
		return c - '0', true
	case nd.And('a' <= c, c <= 'f'):
		return c - 'a' + 10, true
	case nd.And('A' <= c, c <= 'F'):
		return c - 'A' + 10, true
	}
	return 0, false
}

// Parse never panics; it rejects wrong lengths and non-hex digits.
func CheckParseLength() {
	n := nd.Choose("n", nd.Q(48, 80))
	if n == 36 {
		return
	}
	u, err := uuid.Parse(nd.String("s", n))
	nd.Assert(err != nil && u == nil, "wrong length must be rejected")
	nd.Reach("end")
}

// any 36-character string: one arbitrary character anywhere in an otherwise valid text
func CheckParseChar() {
	base := []byte("01234567-89ab-cdef-0123-456789abcdef")
	p := nd.Choose("pos", 36)
	c := nd.Uint8("c")
	base[p] = c
	u, err := uuid.Parse(string(base))
	if p == 8 || p == 13 || p == 18 || p == 23 {
		nd.Observe("e", err != nil)
		return
	}
	_, hex := hexVal(c)
	nd.Assert((err == nil) == hex, "Parse must accept exactly hexadecimal digits")
	nd.Assert((u != nil) == (err == nil), "Parse must return a value or an error")
	nd.Observe("e", err != nil)
	nd.Reach("end")
}

// Any 36 characters: Parse answers a value or an error, and a value only when
// all digit positions hold hexadecimal digits.
func CheckParseAny() {
	b := []byte("01234567-89ab-cdef-0123-456789abcdef")
	switch nd.Choose("where", 3) {
	case 0: // anything instead of the dashes, and one digit
		for _, i := range []int{8, 13, 18, 23} {
			b[i] = nd.Uint8("dash")
		}
		b[nd.Choose("pos", 36)] = nd.Uint8("c")
	case 1: // any two adjacent characters
		p := nd.Choose("pos", 35)
		b[p], b[p+1] = nd.Uint8("c"), nd.Uint8("d")
	case 2: // any group
		g := [][2]int{{0, 8}, {9, 13}, {14, 18}, {19, 23}, {24, 36}}[nd.Choose("group", 5)]
		for i := g[0]; i < min(g[1], g[0]+nd.Q(4, 8)); i++ {
			b[i] = nd.Uint8("c")
		}
	}
	u, err := uuid.Parse(string(b))
	nd.Assert((u != nil) == (err == nil), "Parse must return a value or an error")
	good := true
	for i, c := range b {
		if i == 8 || i == 13 || i == 18 || i == 23 {
			continue
		}
		good = nd.And(good, nd.Or(nd.And('0' <= c, c <= '9'), nd.And('a' <= c, c <= 'f'), nd.And('A' <= c, c <= 'F')))
	}
	if err == nil {
		nd.Assert(good, "Parse must reject text with a non-hexadecimal digit")
	}
	nd.Reach("end")
}

// upper- and lower-case digits denote the same value
func CheckParseCase() {
	s := nd.Bytes("s", 36)
	d := []int{8, 13, 18, 23}
	for _, i := range d {
		nd.Assume(s[i] == '-')
	}
	k := 0
	var want [16]byte
	for i := 0; i < 36; i++ {
		if i == 8 || i == 13 || i == 18 || i == 23 {
			continue
		}
		c := s[i]
		dig := nd.And('0' <= c, c <= '9')
		lo := nd.And('a' <= c, c <= 'f')
		up := nd.And('A' <= c, c <= 'F')
		nd.Assume(nd.Or(dig, lo, up))
		v := byte(nd.IteInt(dig, int(c-'0'), nd.IteInt(lo, int(c-'a'+10), int(c-'A'+10))))
		if k%2 == 0 {
			want[k/2] = v << 4
		} else {
			want[k/2] |= v
		}
		k++
	}
	u, err := uuid.Parse(string(s))
	nd.Assert(err == nil, "hexadecimal text must parse")
	for i := range want {
		nd.Assert(u[i] == want[i], "Parse must decode each digit pair")
	}
	nd.Reach("end")
}

func CheckEquals() {
	a, b := mk("a"), mk("b")
	same := true
	for i := range a {
		same = nd.And(same, a[i] == b[i])
	}
	nd.Assert(a.Equals(b) == same, "Equals must compare values")
	nd.Assert(b.Equals(a) == same, "Equals must be symmetric")
	nd.Assert(a.Equals(a), "Equals must be reflexive")
	nd.Assert(!a.Equals(nil), "nothing equals nil")
	nd.Reach("end")
}

func CheckAccessors() {
	u := mk("u")
	b := u.Bytes()
	nd.Assert(len(b) == 16, "Bytes has length 16")
	var hi uint64
	for i := range b {
		nd.Assert(b[i] == u[i], "Bytes must be the value's bytes")
		if i < 8 {
			hi = hi<<8 | uint64(u[i])
		}
	}
	nd.Assert(u.Int64() == int64(hi), "Int64 is the big-endian first half")
	nd.Assert(u.Version() == int(u[6]>>4), "Version is the high nibble of octet 6")
	v := u.Variant()
	nd.Assert((v == 1) == (u[8]>>6 == 2), "variant 1 is RFC 4122: octet 8 starts with bits 10")
	nd.Assert((v == 2) == (u[8]>>5 == 6), "variant 2 is Microsoft: octet 8 starts with bits 110")
	nd.Observe("i", u.Int64())
	nd.Observe("v", int(v))
	nd.Reach("end")
}

func CheckBase58() {
	u := mk("u")
	nd.Assume(u[0] == 0 && u[1] == 0) // keep the digit count small
	nd.Assume(u[2] == 0 && u[3] == 0)
	want := base58.EncodeForInt64(uint64(u.Int64()))
	nd.Assert(nd.BytesEq(u.Base58(), want), "Base58 must be base58 of Int64")
	nd.Reach("end")
}

// Concurrent conversions do not meet.
func CheckConc() {
	nd.Preemptions(nd.Q(2, 3))
	nd.RacesAreBugs()
	u, v := mk("u"), mk("v")
	work := func(u *uuid.UUID) func() {
		return func() {
			s := u.String()
			r, err := uuid.Parse(s)
			nd.Assert(err == nil && r != nil, "Parse must accept String output")
			for i := range u {
				nd.Assert(r[i] == u[i], "Parse(String(u)) must be u")
			}
		}
	}
	nd.Both(work(u), work(v))
	nd.Reach("end")
}
