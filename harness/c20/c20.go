// Property C20: compression helpers invert each other and report damage.
package c20

import (
	"github.com/donnie4w/gofer/compress"
	"github.com/donnie4w/gofer/util"
	"github.com/klauspost/compress/zstd"

	"verif/codec"
	"verif/nd"
)

type coder struct {
	name string
	enc  func([]byte) ([]byte, error)
	dec  func([]byte) ([]byte, error)
}

func noErr(f func([]byte) []byte) func([]byte) ([]byte, error) {
	return func(b []byte) ([]byte, error) { return f(b), nil }
}

func unsnappy(b []byte) ([]byte, error) { return util.SnappyDecode(b), nil }

func utilGzip(b []byte) ([]byte, error) {
	r, err := util.Gzip(b)
	return r.Bytes(), err
}

func utilUnGzip(b []byte) ([]byte, error) {
	r, err := util.UnGzip(b)
	return r.Bytes(), err
}

func coders() []coder {
	return []coder{
		{"util.Zlib", util.Zlib, util.UnZlib},
		{"util.Gzip", utilGzip, utilUnGzip},
		{"util.Snappy", noErr(util.SnappyEncode), unsnappy},
		{"Zlib", compress.Zlib, compress.UnZlib},
		{"ZlibLevel", func(b []byte) ([]byte, error) { return compress.ZlibLevel(b, nd.Range("level", -2, 9)) }, compress.UnZlib},
		{"Gzip", compress.Gzip, compress.UnGzip},
		{"Snappy", noErr(compress.Snappy), compress.UnSnappy},
		{"Zstd", compress.Zstd, compress.UnZstd},
		{"ZstdLevel", func(b []byte) ([]byte, error) {
			return compress.ZstdLevel(b, zstd.EncoderLevel(nd.Range("zlevel", 1, 4)))
		}, compress.UnZstd},
	}
}

func pick() coder {
	l := coders()
	return l[nd.Choose("coder", len(l))]
}

// Decompressing what was compressed gives the data back; results do not share memory.
func CheckRoundTrip() {
	codec.ShortReads = true
	c := pick()
	a := nd.Bytes("a", nd.Choose("len", nd.Q(4, 6)))
	b := nd.Bytes("b", nd.Choose("len2", 3))
	ka, kb := string(a), string(b)
	ea, err := c.enc(a)
	nd.Assert(err == nil, "compressing succeeds")
	keep := string(ea)
	eb, err := c.enc(b)
	nd.Assert(err == nil, "compressing succeeds")
	nd.Assert(nd.StrEq(string(ea), keep), "compressing leaves earlier results alone")
	da, err := c.dec(ea)
	nd.Assert(err == nil, "decompressing what was compressed succeeds")
	nd.Assert(nd.StrEq(string(da), ka), "decompressing what was compressed gives the data back")
	db, err := c.dec(eb)
	nd.Assert(err == nil, "decompressing what was compressed succeeds")
	nd.Assert(nd.StrEq(string(db), kb), "decompressing what was compressed gives the data back")
	nd.Assert(nd.StrEq(string(da), ka), "decompressing leaves earlier results alone")
	nd.Assert(nd.StrEq(string(a), ka), "the input is not changed")
	nd.Assert(nd.StrEq(string(ea), keep), "the input is not changed")
	nd.Reach("end")
}

// The packages read each other's streams.
func CheckAcross() {
	a := nd.Bytes("a", nd.Choose("len", 4))
	l := coders()
	var p [][2]int
	for _, g := range [][]int{{0, 3, 4}, {1, 5}, {2, 6}} {
		for _, i := range g {
			for _, j := range g {
				if i != j {
					p = append(p, [2]int{i, j})
				}
			}
		}
	}
	x := p[nd.Choose("pair", len(p))]
	e, err := l[x[0]].enc(a)
	nd.Assert(err == nil, "compressing succeeds")
	d, err := l[x[1]].dec(e)
	nd.Assert(err == nil && nd.BytesEq(d, a), "the other package reads the stream")
	nd.Reach("end")
}

// A truncated or altered stream is reported.
func CheckDamage() {
	nd.ModelOnly("an ideal checksum detects every alteration")
	c := pick()
	a := nd.Bytes("a", 1+nd.Choose("len", nd.Q(2, 4)))
	e, err := c.enc(a)
	nd.Assert(err == nil, "compressing succeeds")
	e = append([]byte(nil), e...)
	if nd.Choose("how", 2) == 0 {
		k := nd.Choose("keep", len(e))
		if k == 0 && c.name[0] == 'Z' && c.name[1] == 's' {
			return // an empty zstd stream holds no frame
		}
		e = e[:k]
	} else {
		p := nd.Choose("at", len(e))
		x := nd.Uint8("x")
		nd.Assume(x != e[p])
		e[p] = x
	}
	d, err := c.dec(e)
	if c.name == "util.Snappy" {
		nd.Assert(d == nil, "damage is reported")
	} else {
		nd.Assert(err != nil, "damage is reported")
	}
	nd.Reach("end")
}

// CheckGzipType tells gzip streams from other data.
func CheckType() {
	g, err := util.Gzip(nd.Bytes("a", nd.Choose("len", 3)))
	nd.Assert(err == nil && util.CheckGzipType(g.Bytes()) == nil, "a gzip stream is recognised")
	z, _ := util.Zlib(nd.Bytes("b", 2))
	nd.Assert(util.CheckGzipType(z) != nil, "other data is not a gzip stream")
	nd.Assert(util.CheckGzipType(nil) != nil, "nothing is not a gzip stream")
	nd.Reach("end")
}

// Every level that is not one of the codec's is reported.
func CheckLevel() {
	lv := nd.Int("level")
	a := nd.Bytes("a", 2)
	e, err := compress.ZlibLevel(a, lv)
	nd.Assert((err == nil) == nd.And(lv >= -2, lv <= 9), "ZlibLevel accepts exactly the levels of the codec")
	if err == nil {
		d, err := compress.UnZlib(e)
		nd.Assert(err == nil && nd.BytesEq(d, a), "decompressing what was compressed gives the data back")
	}
	nd.Reach("end")
}

// The same for zstd.
func CheckZstdLevel() {
	lv := nd.Int("level")
	a := nd.Bytes("a", 2)
	e, err := compress.ZstdLevel(a, zstd.EncoderLevel(lv))
	nd.Assert((err == nil) == nd.And(lv >= 1, lv <= 4), "ZstdLevel accepts exactly the levels of the codec")
	if err == nil {
		d, err := compress.UnZstd(e)
		nd.Assert(err == nil && nd.BytesEq(d, a), "decompressing what was compressed gives the data back")
	}
	nd.Reach("end")
}

// Encoders and decoders are released.
func CheckRelease() {
	nd.ModelOnly("counts the encoders and decoders of the model")
	c := pick()
	a := nd.Bytes("a", nd.Choose("len", 3))
	e, _ := c.enc(a)
	if len(e) > 0 && nd.Bool("damage") {
		e = e[:len(e)-1]
	}
	c.dec(e)
	nd.Assert(codec.Encoders == 0, "every encoder and decoder is closed")
	nd.Reach("end")
}

// Concurrent callers do not disturb each other.
func CheckConc() {
	nd.Preemptions(nd.Q(1, 2))
	nd.RacesAreBugs()
	c := pick()
	a, b := nd.Bytes("a", 2), nd.Bytes("b", 2)
	done := make(chan bool)
	work := func(in []byte) bool {
		e, err := c.enc(in)
		if err != nil {
			return false
		}
		d, err := c.dec(e)
		return nd.And(err == nil, nd.BytesEq(d, in))
	}
	go func() { done <- work(a) }()
	ok := work(b)
	ok2 := <-done
	nd.Assert(nd.And(ok, ok2), "concurrent round trips give the data back")
	nd.Reach("end")
}

// Data longer than the buffers of the helpers.
func CheckLong() {
	c := pick()
	a := make([]byte, 1024*nd.Q(1, 3)+nd.Choose("more", 3))
	for i := range a {
		a[i] = byte(i * 7)
	}
	a[1020] = nd.Uint8("x")
	e, err := c.enc(a)
	nd.Assert(err == nil, "compressing succeeds")
	d, err := c.dec(e)
	nd.Assert(err == nil && nd.BytesEq(d, a), "decompressing what was compressed gives the data back")
	nd.Reach("end")
}
