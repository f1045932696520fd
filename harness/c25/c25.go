// Property C25: util's digests and small helpers compute what they are named after.
package c25

import (
	"encoding/binary"
	"crypto/md5"
	"crypto/sha1"
	"errors"
	"hash"
	"hash/crc32"
	"hash/crc64"
	"io"
	"math/big"
	"os"
	"time"

	"github.com/donnie4w/gofer/fast"
	"github.com/donnie4w/gofer/util"
	"golang.org/x/crypto/blake2b"
	"verif/model"

	"verif/nd"
)

// The checksums of the standard library, without the processor's help.

//sym:replace hash/crc32.Update
func crc32Update(crc uint32, tab *crc32.Table, p []byte) uint32 {
	crc = ^crc
	for _, v := range p {
		crc = tab[byte(crc)^v] ^ crc>>8
	}
	return ^crc
}

//sym:replace hash/crc32.MakeTable
func crc32Table(poly uint32) *crc32.Table {
	t := new(crc32.Table)
	for i := range t {
		c := uint32(i)
		for k := 0; k < 8; k++ {
			if c&1 == 1 {
				c = c>>1 ^ poly
			} else {
				c >>= 1
			}
		}
		t[i] = c
	}
	return t
}

//sym:replace hash/crc32.ChecksumIEEE
func crc32IEEE(p []byte) uint32 { return crc32Update(0, crc32Table(crc32.IEEE), p) }

//sym:replace hash/crc64.Update
func crc64Update(crc uint64, tab *crc64.Table, p []byte) uint64 {
	crc = ^crc
	for _, v := range p {
		crc = tab[byte(crc)^v] ^ crc>>8
	}
	return ^crc
}

//sym:replace hash/crc64.MakeTable
func crc64Table(poly uint64) *crc64.Table {
	t := new(crc64.Table)
	for i := range t {
		c := uint64(i)
		for k := 0; k < 8; k++ {
			if c&1 == 1 {
				c = c>>1 ^ poly
			} else {
				c >>= 1
			}
		}
		t[i] = c
	}
	return t
}

//sym:replace hash/crc64.Checksum
func crc64Sum(p []byte, tab *crc64.Table) uint64 { return crc64Update(0, tab, p) }

// The BLAKE2 family as uninterpreted functions of key and message.

//sym:replace golang.org/x/crypto/blake2b.New256
func blakeNew256(key []byte) (hash.Hash, error) { return model.NewDigest("blake2b_256_", 32, key), nil }

//sym:replace golang.org/x/crypto/blake2b.New384
func blakeNew384(key []byte) (hash.Hash, error) { return model.NewDigest("blake2b_384_", 48, key), nil }

//sym:replace golang.org/x/crypto/blake2b.New512
func blakeNew512(key []byte) (hash.Hash, error) { return model.NewDigest("blake2b_512_", 64, key), nil }

//sym:replace golang.org/x/crypto/blake2b.Sum256
func blakeSum256(p []byte) (r [32]byte) {
	d := model.NewDigest("blake2b_256_", 32, nil)
	d.Write(p)
	copy(r[:], d.Sum(nil))
	return
}

var randFails bool

//sym:replace crypto/rand.Int
func randInt(r io.Reader, max *big.Int) (*big.Int, error) {
	if max.Sign() <= 0 {
		panic("crypto/rand: argument to Int is <= 0")
	}
	if randFails {
		return nil, errors.New("no entropy")
	}
	return big.NewInt(int64(nd.Range("rand", 0, int(max.Int64()-1)))), nil
}

var zoneFails bool

// china is the zone of Shanghai since 1970 as in the time zone database.
func china() (*time.Location, error) {
	var at, index []byte
	change := func(y int, m time.Month, d, h int, kind byte) {
		at = binary.BigEndian.AppendUint32(at, uint32(time.Date(y, m, d, h, 0, 0, 0, time.UTC).Unix()))
		index = append(index, kind)
	}
	for i, d := range [][2]int{{4, 14}, {12, 13}, {17, 11}, {16, 17}, {15, 16}, {14, 15}} {
		m := time.April
		if i == 0 {
			m = time.May
		}
		change(1986+i, m, d[0]-1, 18, 1)
		change(1986+i, time.September, d[1]-1, 17, 0)
	}
	b := append([]byte("TZif"), make([]byte, 16+12)...)
	for _, n := range []int{len(index), 2, 8} {
		b = binary.BigEndian.AppendUint32(b, uint32(n))
	}
	b = append(append(b, at...), index...)
	b = append(binary.BigEndian.AppendUint32(b, 8*3600), 0, 0)
	b = append(binary.BigEndian.AppendUint32(b, 9*3600), 1, 4)
	return time.LoadLocationFromTZData("Asia/Shanghai", append(b, "CST\x00CDT\x00"...))
}

//sym:replace time.LoadLocation
func loadLocation(name string) (*time.Location, error) {
	if name == "" || name == "UTC" {
		return time.UTC, nil
	}
	if zoneFails {
		return nil, errors.New("unknown time zone " + name)
	}
	switch name {
	case "Asia/Shanghai", "Asia/Chongqing", "PRC":
		return china()
	}
	nd.Unsupported("time zone " + name)
	return nil, nil
}

func reflect8(b byte) (r byte) {
	for i := 0; i < 8; i++ {
		r |= b >> i & 1 << (7 - i)
	}
	return
}

// crc is the checksum of width w bits by long division, most significant bit first.
func crc(b []byte, w uint, poly, init uint64, reflected bool) uint64 {
	mask := uint64(1)<<w - 1
	if w == 64 {
		mask = ^uint64(0)
	}
	r := init
	for _, v := range b {
		if reflected {
			r ^= uint64(v)
			for i := 0; i < 8; i++ {
				r = r>>1 ^ poly&-(r&1)
			}
		} else {
			r ^= uint64(v) << (w - 8)
			for i := 0; i < 8; i++ {
				r = (r<<1 ^ poly&-(r>>(w-1)&1)) & mask
			}
		}
	}
	return r
}

// The checksums are CRC-8 (0x07), CRC-32 (IEEE) and CRC-64 (ECMA, reflected).
func CheckCRC8() {
	b := nd.Bytes("b", nd.Choose("len", nd.Q(3, 4)))
	w := string(b)
	nd.Assert(util.CRC8(b) == byte(crc(b, 8, 7, 0, false)), "CRC8 is the remainder of division by x^8+x^2+x+1")
	nd.Assert(nd.StrEq(string(b), w), "CRC8 leaves its input alone")
	nd.Reach("end")
}

func CheckCRC32() {
	b := nd.Bytes("b", nd.Choose("len", nd.Q(3, 4)))
	w := string(b)
	nd.Assert(util.CRC32(b) == uint32(^crc(b, 32, 0xedb88320, 1<<32-1, true)), "CRC32 is the IEEE checksum")
	nd.Assert(nd.StrEq(string(b), w), "CRC32 leaves its input alone")
	nd.Reach("end")
}

func CheckCRC64() {
	b := nd.Bytes("b", nd.Choose("len", nd.Q(3, 4)))
	w := string(b)
	nd.Assert(util.CRC64(b) == ^crc(b, 64, 0xC96C5795D7870F42, 1<<64-1, true), "CRC64 is the ECMA checksum")
	nd.Assert(nd.StrEq(string(b), w), "CRC64 leaves its input alone")
	nd.Reach("end")
}

// FNV-1a, and a hash that depends on the content alone.
func CheckFNV() {
	b := nd.Bytes("b", nd.Choose("len", nd.Q(5, 9)))
	w := string(b)
	h32, h64 := uint32(2166136261), uint64(14695981039346656037)
	for _, v := range b {
		h32 = (h32 ^ uint32(v)) * 16777619
		h64 = (h64 ^ uint64(v)) * 1099511628211
	}
	nd.Assert(util.FNVHash32(b) == h32, "FNVHash32 is FNV-1a")
	nd.Assert(util.FNVHash64(b) == h64, "FNVHash64 is FNV-1a")
	nd.Assert(util.Hash64(b) == util.Hash64([]byte(w)), "Hash64 depends on the content alone")
	nd.Assert(nd.StrEq(string(b), w), "hashing leaves its input alone")
	nd.Reach("end")
}

const upper = "0123456789ABCDEF"

func hexUpper(b []byte) string {
	r := make([]byte, 0, 2*len(b))
	for _, v := range b {
		r = append(r, upper[v>>4], upper[v&15])
	}
	return string(r)
}

// Digests of exactly the input; their strings are in upper-case hexadecimal.
func CheckDigests() {
	n := nd.Choose("len", nd.Q(4, 6))
	b := nd.Bytes("b", n)
	w := string(b)
	m, s := md5.Sum([]byte(w)), sha1.Sum([]byte(w))
	nd.Assert(nd.BytesEq(util.MD5(b), m[:]), "MD5 is the MD5 digest")
	nd.Assert(nd.BytesEq(util.SHA1(b), s[:]), "SHA1 is the SHA-1 digest")
	nd.Assert(nd.StrEq(util.Md5Str(w), hexUpper(m[:])), "Md5Str is the digest in upper-case hexadecimal")
	nd.Assert(nd.StrEq(util.Sha1Str(w), hexUpper(s[:])), "Sha1Str is the digest in upper-case hexadecimal")
	d, err := util.Blake2b(b)
	k := blake2b.Sum256([]byte(w))
	nd.Assert(err == nil && nd.BytesEq(d, k[:]), "Blake2b is the unkeyed 256-bit digest")
	nd.Assert(nd.StrEq(string(b), w), "hashing leaves its input alone")
	for i, f := range []func([]byte) []byte{util.MD5, util.SHA1, func(b []byte) []byte { d, _ := util.Blake2b(b); return d }} {
		d := f(b)
		was := string(d)
		o := f([]byte(w + "x"))
		nd.Assert(nd.StrEq(string(d), was), "a digest stays as it is")
		o[i]++
		d[0]++
		nd.Assert(nd.StrEq(string(f(b)), was), "digests are the caller's own")
		o = append(d, 1)
		nd.Assert(nd.StrEq(string(f(b)), was), "digests are the caller's own")
	}
	nd.Reach("end")
}

// Concat joins, StringToSlice shows a string's bytes.
func CheckStrings() {
	k := nd.Choose("strings", 4)
	var in []string
	var want []byte
	for i := 0; i < k; i++ {
		s := nd.String("s", nd.Choose("len", 3))
		in = append(in, s)
		for j := 0; j < len(s); j++ {
			want = append(want, s[j])
		}
	}
	nd.Assert(nd.StrEq(util.Concat(in...), string(want)), "Concat joins its arguments in order")
	s := string(want)
	f := fast.StringToSlice(s)
	nd.Assert(len(f) == len(s) && cap(f) == len(s), "StringToSlice covers the string and no more")
	nd.Assert(nd.StrEq(string(f), s), "StringToSlice shows the string's bytes")
	nd.Reach("end")
}

// Random numbers lie in their range.
func CheckRand() {
	i := nd.Uint("i")
	nd.Assume(i > 0)
	model.Draws, model.MaxDraws = 0, nd.Q(3, 6)
	r := uint(0)
	p := nd.Panics(func() { r = util.RandUint(i) })
	nd.Assert(!p && r < i, "RandUint gives a number below its argument")
	nd.Reach("end")
}

func CheckRandStrict() {
	nd.ModelOnly("randomness is a model")
	i := nd.Int64("i")
	randFails = nd.Bool("fails")
	var r int64
	var err error
	p := nd.Panics(func() { r, err = util.RandInt64Strict(i) })
	nd.Assert(!p, "RandInt64Strict does not panic")
	nd.Assert((err != nil) == (randFails || i <= 0), "RandInt64Strict reports failures and empty ranges")
	nd.Assert(err != nil || r >= 0 && r < i, "RandInt64Strict gives a number below its argument")
	nd.Reach("end")
}

// Times are read as the wall clock of China.
func CheckTime() {
	nd.ModelOnly("the time zone database is a model")
	zoneFails = nd.Bool("no time zone database")
	num := func(name string, n int) (string, int) {
		f, v := nd.Bytes(name, n), 0
		for _, c := range f {
			nd.Assume(c >= '0' && c <= '9')
			v = v*10 + int(c-'0')
		}
		return string(f), v
	}
	ys, y := num("year", 2)
	ms, m := num("month", 2)
	ds, d := num("day", 2)
	hs, h := num("hour", 2)
	is, i := num("minute", 2)
	ss, c := num("second", 2)
	nd.Assume(ys[0] <= '2')
	s := "20" + ys + "-" + ms + "-" + ds + " " + hs + ":" + is + ":" + ss
	y += 2000
	var t time.Time
	var err error
	p := nd.Panics(func() { t, err = util.StrToTimeFormat(s) })
	nd.Assert(!p, "StrToTimeFormat does not panic")
	days := 31
	switch m {
	case 4, 6, 9, 11:
		days = 30
	case 2:
		days = 28
		if y%4 == 0 {
			days = 29
		}
	}
	good := nd.And(m >= 1, m <= 12, d >= 1, d <= days, h < 24, i < 60, c < 60)
	nd.Assert((err == nil) == good, "StrToTimeFormat reports exactly what is no time")
	if err == nil {
		w := time.Date(y, time.Month(m), d, h-8, i, c, 0, time.UTC)
		nd.Assert(t.Unix() == w.Unix() && t.Nanosecond() == 0, "StrToTimeFormat reads the wall clock of China")
	}
	nd.Reach("end")
}

// China had daylight saving time from 1986 to 1991.
func CheckTimeSummer() {
	nd.ModelOnly("the time zone database is a model")
	digit := func(name string, to byte) byte {
		c := nd.Bytes(name, 1)[0]
		nd.Assume(c >= '0' && c <= to)
		return c
	}
	mi := nd.Choose("month", 4)
	b := []byte("198y-MM-dD hH:00:00")
	b[3] = digit("year", '9')
	m := []time.Month{1, 6, 8, 12}[mi]
	copy(b[5:], []string{"01", "06", "08", "12"}[mi])
	b[8], b[9] = digit("day", '2'), digit("day", '9')
	b[11], b[12] = digit("hour", '1'), digit("hour", '9')
	y, d, h := 1980+int(b[3]-'0'), int(b[8]-'0')*10+int(b[9]-'0'), int(b[11]-'0')*10+int(b[12]-'0')
	nd.Assume(d > 0)
	t, err := util.StrToTimeFormat(string(b))
	nd.Assert(err == nil, "StrToTimeFormat reads valid times")
	off := 8
	if y >= 1986 && (mi == 1 || mi == 2) {
		off = 9
	}
	nd.Assert(t.Unix() == time.Date(y, m, d, h-off, 0, 0, 0, time.UTC).Unix(), "StrToTimeFormat reads the wall clock of China")
	nd.Reach("end")
}

func CheckTimeBad() {
	s := []string{"", "2024-02-30 00:00:00", "2024-13-01 00:00:00", "2024-01-01", "2024-01-01 24:00:00", "2024-01-01T00:00:00", "2024-01-01 00:00:00 "}[nd.Choose("bad", 7)]
	_, err := util.StrToTimeFormat(s)
	nd.Assert(err != nil, "StrToTimeFormat reports what is no time")
	nd.Reach("end")
}

// Files.
func CheckFiles() {
	d := model.Dir()
	k := nd.Choose("kind", 4)
	path := d + "/f"
	data := nd.Bytes("data", nd.Choose("len", nd.Q(4, 6)))
	switch k {
	case 1:
		os.WriteFile(path, data, 0o600)
	case 2:
		path = d
	case 3:
		path = ""
	}
	nd.Assert(util.IsFileExist(path) == (k == 1 || k == 2), "IsFileExist tells whether the path exists")
	b, err := util.ReadFile(path)
	if k == 1 {
		nd.Assert(err == nil && nd.BytesEq(b, data), "ReadFile gives the content")
		if len(b) > 0 {
			b[0]++
			b, err = util.ReadFile(path)
			nd.Assert(err == nil && nd.BytesEq(b, data), "what ReadFile gives is the caller's own")
		}
	} else if k != 2 {
		nd.Assert(err != nil, "ReadFile reports what cannot be read")
	}
	nd.Reach("end")
}

// Recover turns a panic into an error.
func CheckRecover() {
	what := nd.Choose("panic", 5)
	e := errors.New("e")
	err := e
	n := nd.Choose("sink", 2)
	p := nd.Panics(func() {
		if n == 0 {
			defer util.Recover(&err)
		} else {
			defer util.Recover(nil)
		}
		switch what {
		case 1:
			panic("boom")
		case 2:
			panic(errors.New("boom"))
		case 3:
			panic(42)
		case 4:
			var m map[int]int
			m[1] = 1
		}
	})
	nd.Assert(!p, "Recover stops the panic")
	if what == 0 || n == 1 {
		nd.Assert(err == e, "without a panic the error stays")
		nd.Reach("end")
		return
	}
	want := []string{"", "boom", "boom", "42", "assignment to entry in nil map"}[what]
	nd.Assert(err != nil && err != e && err.Error() == want, "Recover reports the panic")
	nd.Reach("end")
}

// MatchString.
func CheckMatch() {
	s := nd.String("s", nd.Choose("len", nd.Q(3, 4)))
	for i := 0; i < len(s); i++ {
		nd.Assume(s[i] < 128)
	}
	switch nd.Choose("pattern", 4) {
	case 0:
		nd.Assert(!util.MatchString("(", s), "an invalid pattern matches nothing")
	case 1:
		want := len(s) > 0
		for i := 0; i < len(s); i++ {
			want = nd.And(want, s[i] >= '0', s[i] <= '9')
		}
		nd.Assert(util.MatchString("^[0-9]+$", s) == want, "MatchString matches the whole pattern")
	case 2:
		want := false
		for i := 0; i < len(s); i++ {
			want = nd.Or(want, s[i] == 'x')
		}
		nd.Assert(util.MatchString("x", s) == want, "MatchString matches anywhere")
	case 3:
		nd.Assert(util.MatchString("", s), "the empty pattern matches everything")
	}
	nd.Reach("end")
}

// Concurrent use of the digests and checksums.
func CheckConc() {
	nd.Preemptions(nd.Q(2, 3))
	nd.RacesAreBugs()
	k := nd.Choose("f", 10)
	work := func(b []byte) func() {
		w := string(b)
		return func() {
			switch k {
			case 0:
				nd.Assert(util.CRC32(b) == uint32(^crc([]byte(w), 32, 0xedb88320, 1<<32-1, true)), "CRC32 is the IEEE checksum")
			case 7:
				nd.Assert(util.CRC8(b) == byte(crc([]byte(w), 8, 7, 0, false)), "CRC8 is the remainder of division by x^8+x^2+x+1")
			case 8:
				nd.Assert(util.CRC64(b) == ^crc([]byte(w), 64, 0xC96C5795D7870F42, 1<<64-1, true), "CRC64 is the ECMA checksum")
			case 9:
				h := uint32(2166136261)
				g := uint64(14695981039346656037)
				for i := 0; i < len(w); i++ {
					h = (h ^ uint32(w[i])) * 16777619
					g = (g ^ uint64(w[i])) * 1099511628211
				}
				nd.Assert(util.FNVHash32(b) == h && util.FNVHash64(b) == g, "FNVHash32 and FNVHash64 are FNV-1a")
			case 1:
				m := md5.Sum([]byte(w))
				nd.Assert(nd.BytesEq(util.MD5(b), m[:]), "MD5 is the MD5 digest")
			case 2:
				s := sha1.Sum([]byte(w))
				nd.Assert(nd.BytesEq(util.SHA1(b), s[:]), "SHA1 is the SHA-1 digest")
			case 3:
				m := md5.Sum([]byte(w))
				nd.Assert(nd.StrEq(util.Md5Str(w), hexUpper(m[:])), "Md5Str is the digest in upper-case hexadecimal")
			case 4:
				d, err := util.Blake2b(b)
				s := blake2b.Sum256([]byte(w))
				nd.Assert(err == nil && nd.BytesEq(d, s[:]), "Blake2b is the unkeyed 256-bit digest")
			case 5:
				nd.Assert(nd.StrEq(util.Concat(w, "x", w), w+"x"+w), "Concat joins its arguments in order")
			case 6:
				s := sha1.Sum([]byte(w))
				nd.Assert(nd.StrEq(util.Sha1Str(w), hexUpper(s[:])), "Sha1Str is the digest in upper-case hexadecimal")
			}
		}
	}
	nd.Both(work(nd.Bytes("a", 1)), work(nd.Bytes("b", 1)))
	nd.Reach("end")
}

// Concurrent matching.
func CheckMatchConc() {
	nd.Preemptions(1)
	nd.RacesAreBugs()
	same := nd.Bool("same")
	work := func(p string) func() {
		return func() {
			nd.Assert(util.MatchString(p, "ab") == (p != "ba"), "MatchString matches")
			nd.Assert(!util.MatchString(p, "zz"), "MatchString matches")
		}
	}
	if same {
		nd.Both(work("a"), work("a"))
	} else {
		nd.Both(work("a"), work("ba"))
	}
	nd.Reach("end")
}

// Inputs of any size.
func CheckLarge() {
	nd.MaxMake(1 << 20)
	n := []int{200, 1030, 5000}[nd.Choose("size", 3)]
	b := nd.Big("b", n)
	w := string(b)
	m, s := md5.Sum([]byte(w)), sha1.Sum([]byte(w))
	nd.Assert(nd.BytesEq(util.MD5(b), m[:]), "MD5 is the MD5 digest")
	nd.Assert(nd.BytesEq(util.SHA1(b), s[:]), "SHA1 is the SHA-1 digest")
	nd.Assert(nd.StrEq(util.Md5Str(w), hexUpper(m[:])), "Md5Str is the digest in upper-case hexadecimal")
	nd.Assert(nd.StrEq(util.Sha1Str(w), hexUpper(s[:])), "Sha1Str is the digest in upper-case hexadecimal")
	d, err := util.Blake2b(b)
	k := blake2b.Sum256([]byte(w))
	nd.Assert(err == nil && nd.BytesEq(d, k[:]), "Blake2b is the unkeyed 256-bit digest")
	nd.Assert(nd.StrEq(util.Concat(w, w[:100], "", w), w+w[:100]+w), "Concat joins its arguments in order")
	f := fast.StringToSlice(w)
	nd.Assert(len(f) == n && cap(f) == n && nd.StrEq(string(f), w), "StringToSlice shows the string's bytes")
	var in []string
	var all []byte
	for i := 0; i < 70; i++ {
		in = append(in, w[i:i+i%4])
		all = append(all, w[i:i+i%4]...)
	}
	nd.Assert(nd.StrEq(util.Concat(in...), string(all)), "Concat joins its arguments in order")
	// the checksums of fixed data
	for i := range b {
		b[i] = byte(i * 5)
	}
	nd.Assert(util.CRC8(b) == byte(crc(b, 8, 7, 0, false)), "CRC8 is the remainder of division by x^8+x^2+x+1")
	nd.Assert(util.CRC32(b) == uint32(^crc(b, 32, 0xedb88320, 1<<32-1, true)), "CRC32 is the IEEE checksum")
	nd.Assert(util.CRC64(b) == ^crc(b, 64, 0xC96C5795D7870F42, 1<<64-1, true), "CRC64 is the ECMA checksum")
	h32, h64 := uint32(2166136261), uint64(14695981039346656037)
	for _, v := range b {
		h32 = (h32 ^ uint32(v)) * 16777619
		h64 = (h64 ^ uint64(v)) * 1099511628211
	}
	nd.Assert(util.FNVHash32(b) == h32, "FNVHash32 is FNV-1a")
	nd.Assert(util.FNVHash64(b) == h64, "FNVHash64 is FNV-1a")
	nd.Reach("end")
}
