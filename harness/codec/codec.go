// Package codec models the compression libraries. A stream is the codec's
// magic, the data and a trailer; readers accept exactly the complete streams
// the writers made, and report any other input as damaged, either at once or
// after delivering part of the data.
package codec

import (
	"compress/gzip"
	"compress/zlib"
	"errors"
	"io"

	gsnappy "github.com/golang/snappy"
	ksnappy "github.com/klauspost/compress/snappy"
	"github.com/klauspost/compress/zstd"
	_ "verif/model"

	"verif/nd"
)

const (
	Zlib = iota
	Gzip
	Snappy
	Zstd
)

type stream struct {
	kind      int
	enc, data []byte
}

var (
	streams []stream
	// Encoders is the number of zstd encoders and decoders not yet closed.
	Encoders int
	// ShortReads lets readers return less than asked for.
	ShortReads bool
	// NoCRC is set when a zstd checksum was left out or not looked at: then
	// damage need not be noticed.
	NoCRC bool
)

func magic(kind int) []byte { return []byte{0x78, byte(0xa0 + kind)} }

// body is the stream of data without its trailer.
func body(kind int, data []byte) []byte {
	r := magic(kind)
	for _, b := range data {
		r = append(r, b^0x5a)
	}
	return r
}

func full(kind int, data []byte) []byte {
	sum := byte(kind)
	for _, b := range data {
		sum = sum*3 + b
	}
	r := append(body(kind, data), 0xe0, byte(len(data)), sum)
	nd.Atomic(func() {
		streams = append(streams, stream{kind, append([]byte(nil), r...), append([]byte(nil), data...)})
	})
	return r
}

var (
	errHeader = errors.New("invalid header")
	errSum    = errors.New("invalid checksum")
)

// decode returns the data of a complete stream, or what is delivered of it and
// how it ends.
func decode(kind int, in []byte) (data []byte, err error) {
	var l []stream
	nd.Atomic(func() { l = streams })
	for _, s := range l { // encoding is injective, the first match does
		if s.kind == kind && len(s.enc) == len(in) && nd.Certain(nd.BytesEq(s.enc, in)) {
			return append([]byte(nil), s.data...), nil
		}
	}
	for _, s := range l {
		if s.kind == kind && len(s.enc) == len(in) && nd.BytesEq(s.enc, in) {
			return append([]byte(nil), s.data...), nil
		}
	}
	if h := magic(kind); len(in) < 2 || !nd.BytesEq(in[:2], h) {
		return nil, errHeader
	}
	n := 0
	if len(in) > 2 {
		n = nd.Choose("codec.delivered", len(in)-1)
	}
	for _, b := range in[2 : 2+n] {
		data = append(data, b^0x5a)
	}
	for _, s := range l {
		if s.kind == kind && len(s.enc) > len(in) && nd.BytesEq(s.enc[:len(in)], in) {
			return data, io.ErrUnexpectedEOF
		}
	}
	if kind == Zstd && NoCRC && nd.Bool("codec.unnoticed") {
		return data, nil
	}
	if nd.Bool("codec.eof") {
		return data, io.ErrUnexpectedEOF
	}
	return data, errSum
}

// ---- stream writers ----

type writer struct {
	kind    int
	w       io.Writer
	head    bool
	data    []byte // everything written
	pending []byte
	closed  bool
	err     error
}

var (
	zws = map[*zlib.Writer]*writer{}
	gws = map[*gzip.Writer]*writer{}
)

func (w *writer) emit(b []byte) error {
	if w.err == nil {
		_, w.err = w.w.Write(b)
	}
	return w.err
}

func (w *writer) write(p []byte) (int, error) {
	if w.err != nil {
		return 0, w.err
	}
	if w.closed {
		return 0, errors.New("write after close")
	}
	if !w.head {
		w.head = true
		if err := w.emit(magic(w.kind)); err != nil {
			return 0, err
		}
	}
	w.data = append(w.data, p...)
	w.pending = append(w.pending, p...)
	return len(p), nil
}

func (w *writer) flush() error {
	w.write(nil)
	var b []byte
	for _, c := range w.pending {
		b = append(b, c^0x5a)
	}
	w.pending = nil
	return w.emit(b)
}

func (w *writer) close() error {
	if w.closed {
		return w.err
	}
	if w.flush() != nil {
		return w.err
	}
	w.closed = true
	f := full(w.kind, w.data)
	return w.emit(f[len(f)-3:])
}

func newZ(w io.Writer) *zlib.Writer {
	z := new(zlib.Writer)
	nd.Atomic(func() { zws[z] = &writer{kind: Zlib, w: w} })
	return z
}

func badLevel(level int) bool { return level < -2 || level > 9 }

//sym:opaque compress/zlib.Writer, compress/gzip.Writer, compress/gzip.Reader
//sym:replace compress/zlib.NewWriter
func zNew(w io.Writer) *zlib.Writer { return newZ(w) }

//sym:replace compress/zlib.NewWriterLevel
func zNewLevel(w io.Writer, level int) (*zlib.Writer, error) {
	if badLevel(level) {
		return nil, errors.New("zlib: invalid compression level")
	}
	return newZ(w), nil
}

//sym:replace compress/zlib.NewWriterLevelDict
func zNewLevelDict(w io.Writer, level int, dict []byte) (*zlib.Writer, error) {
	if dict != nil {
		nd.Unsupported("zlib dictionaries")
	}
	return zNewLevel(w, level)
}

func zw(z *zlib.Writer) (w *writer) { nd.Atomic(func() { w = zws[z] }); return }
func gw(z *gzip.Writer) (w *writer) { nd.Atomic(func() { w = gws[z] }); return }

//sym:replace (*compress/zlib.Writer).Write
func zWrite(z *zlib.Writer, p []byte) (int, error) { return zw(z).write(p) }

//sym:replace (*compress/zlib.Writer).Flush
func zFlush(z *zlib.Writer) error { return zw(z).flush() }

//sym:replace (*compress/zlib.Writer).Close
func zClose(z *zlib.Writer) error { return zw(z).close() }

//sym:replace (*compress/zlib.Writer).Reset
func zReset(z *zlib.Writer, w io.Writer) { *zw(z) = writer{kind: Zlib, w: w} }

func newG(w io.Writer) *gzip.Writer {
	z := new(gzip.Writer)
	nd.Atomic(func() { gws[z] = &writer{kind: Gzip, w: w} })
	return z
}

//sym:replace compress/gzip.NewWriter
func gNew(w io.Writer) *gzip.Writer { return newG(w) }

//sym:replace compress/gzip.NewWriterLevel
func gNewLevel(w io.Writer, level int) (*gzip.Writer, error) {
	if badLevel(level) {
		return nil, errors.New("gzip: invalid compression level")
	}
	return newG(w), nil
}

//sym:replace (*compress/gzip.Writer).Write
func gWrite(z *gzip.Writer, p []byte) (int, error) { return gw(z).write(p) }

//sym:replace (*compress/gzip.Writer).Flush
func gFlush(z *gzip.Writer) error { return gw(z).flush() }

//sym:replace (*compress/gzip.Writer).Close
func gClose(z *gzip.Writer) error { return gw(z).close() }

//sym:replace (*compress/gzip.Writer).Reset
func gReset(z *gzip.Writer, w io.Writer) { *gw(z) = writer{kind: Gzip, w: w} }

// ---- stream readers ----

type reader struct {
	data   []byte
	end    error
	closed bool
}

func open(kind int, r io.Reader) (*reader, error) {
	in, err := io.ReadAll(r)
	if err != nil {
		return nil, err
	}
	if len(in) == 0 && kind == Gzip {
		return nil, io.EOF
	}
	if len(in) < 2 {
		return nil, io.ErrUnexpectedEOF
	}
	data, end := decode(kind, in)
	if end == errHeader {
		return nil, end
	}
	if end == nil {
		end = io.EOF
	}
	return &reader{data: data, end: end}, nil
}

func (r *reader) Read(p []byte) (int, error) {
	if r.closed {
		return 0, errors.New("read after close")
	}
	if len(r.data) == 0 {
		return 0, r.end
	}
	n := min(len(p), len(r.data))
	if n == 0 {
		return 0, nil
	}
	if ShortReads && n > 1 && nd.Bool("codec.short") {
		n--
	}
	copy(p, r.data[:n])
	r.data = r.data[n:]
	if len(r.data) == 0 && (!ShortReads || nd.Bool("codec.early")) {
		return n, r.end
	}
	return n, nil
}

func (r *reader) Close() error { r.closed = true; return nil }

//sym:replace compress/zlib.NewReader
func zNewReader(r io.Reader) (io.ReadCloser, error) {
	x, err := open(Zlib, r)
	if err != nil {
		return nil, err
	}
	return x, nil
}

var grs = map[*gzip.Reader]*reader{}

//sym:replace compress/gzip.NewReader
func gNewReader(r io.Reader) (*gzip.Reader, error) {
	x, err := open(Gzip, r)
	if err != nil {
		return nil, err
	}
	z := new(gzip.Reader)
	nd.Atomic(func() { grs[z] = x })
	return z, nil
}

func gr(z *gzip.Reader) (r *reader) { nd.Atomic(func() { r = grs[z] }); return }

//sym:replace (*compress/gzip.Reader).Read
func gRead(z *gzip.Reader, p []byte) (int, error) { return gr(z).Read(p) }

//sym:replace (*compress/gzip.Reader).Close
func gRClose(z *gzip.Reader) error { return gr(z).Close() }

//sym:replace (*compress/gzip.Reader).Reset
func gRReset(z *gzip.Reader, r io.Reader) error {
	x, err := open(Gzip, r)
	if err != nil {
		return err
	}
	*gr(z) = *x
	return nil
}

//sym:replace (*compress/gzip.Reader).Multistream
func gRMulti(z *gzip.Reader, ok bool) {}

// Reset is zlib.Resetter's.
func (r *reader) Reset(in io.Reader, dict []byte) error {
	if dict != nil {
		nd.Unsupported("zlib dictionaries")
	}
	x, err := open(Zlib, in)
	if err != nil {
		return err
	}
	*r = *x
	return nil
}

// ---- blocks ----

func place(dst, data []byte) []byte {
	if len(data) <= len(dst) {
		dst = dst[:len(data)]
		copy(dst, data)
		return dst
	}
	return data
}

//sym:replace github.com/golang/snappy.Encode, github.com/klauspost/compress/snappy.Encode
func sEncode(dst, src []byte) []byte { return place(dst, full(Snappy, src)) }

//sym:replace github.com/golang/snappy.Decode, github.com/klauspost/compress/snappy.Decode
func sDecode(dst, src []byte) ([]byte, error) {
	data, err := decode(Snappy, src)
	if err != nil {
		return nil, err
	}
	if data == nil {
		data = []byte{}
	}
	return place(dst, data), nil
}

var _ = gsnappy.Encode
var _ = ksnappy.Encode

//sym:replace github.com/golang/snappy.DecodedLen, github.com/klauspost/compress/snappy.DecodedLen
func sDecodedLen(src []byte) (int, error) {
	var l []stream
	nd.Atomic(func() { l = streams })
	for _, s := range l {
		if s.kind == Snappy && len(s.enc) == len(src) && nd.BytesEq(s.enc, src) {
			return len(s.data), nil
		}
	}
	if nd.Bool("snappy.lenok") {
		return nd.Range("snappy.len", 0, 1<<20), nil
	}
	return 0, gsnappy.ErrCorrupt
}

// An encoder or decoder with its options.
type zenc struct {
	open  bool
	nocrc bool
	w     *writer // of a stream
}

type zdec struct {
	open             bool
	nocrc, capLimit  bool
	maxSize, maxWind int64
	r                *reader // of a stream
}

var (
	encs = map[*zstd.Encoder]*zenc{}
	decs = map[*zstd.Decoder]*zdec{}
)

// options applies options to the library's own structure.
func options[T any, O ~func(*T) error](opts []O, f func(p any)) error {
	p := new(T)
	for _, o := range opts {
		if err := o(p); err != nil {
			return err
		}
	}
	f(p)
	return nil
}

//sym:opaque github.com/klauspost/compress/zstd.Encoder, github.com/klauspost/compress/zstd.Decoder
//sym:replace github.com/klauspost/compress/zstd.NewWriter
func eNew(w io.Writer, opts ...zstd.EOption) (*zstd.Encoder, error) {
	z := &zenc{open: true}
	if w != nil {
		z.w = &writer{kind: Zstd, w: w}
	}
	// the options that set a default to what it is already need no mention
	err := options(append([]zstd.EOption{zstd.WithEncoderCRC(true)}, opts...), func(p any) {
		z.nocrc = nd.Field(p, "crc") == 0
	})
	if err != nil {
		return nil, err
	}
	e := new(zstd.Encoder)
	nd.Atomic(func() { encs[e] = z; Encoders++ })
	return e, nil
}

func ze(e *zstd.Encoder) (z *zenc) { nd.Atomic(func() { z = encs[e] }); return }
func zd(d *zstd.Decoder) (z *zdec) { nd.Atomic(func() { z = decs[d] }); return }

//sym:replace (*github.com/klauspost/compress/zstd.Encoder).EncodeAll
func eAll(e *zstd.Encoder, src, dst []byte) []byte {
	z := ze(e)
	nd.Assert(z.open, "an encoder is used only before it is closed")
	if len(src) == 0 {
		return dst
	}
	if z.nocrc {
		nd.Atomic(func() { NoCRC = true })
	}
	return append(dst, full(Zstd, src)...)
}

//sym:replace (*github.com/klauspost/compress/zstd.Encoder).Write
func eWrite(e *zstd.Encoder, p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	return ze(e).w.write(p)
}

//sym:replace (*github.com/klauspost/compress/zstd.Encoder).ReadFrom
func eReadFrom(e *zstd.Encoder, r io.Reader) (int64, error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return int64(len(b)), err
	}
	n, err := eWrite(e, b)
	return int64(n), err
}

//sym:replace (*github.com/klauspost/compress/zstd.Encoder).Flush
func eFlush(e *zstd.Encoder) error {
	w := ze(e).w
	if !w.head {
		return nil
	}
	return w.flush()
}

//sym:replace (*github.com/klauspost/compress/zstd.Encoder).Reset
func eReset(e *zstd.Encoder, w io.Writer) {
	z := ze(e)
	z.w = nil
	if w != nil {
		z.w = &writer{kind: Zstd, w: w}
	}
}

//sym:replace (*github.com/klauspost/compress/zstd.Encoder).Close
func eClose(e *zstd.Encoder) (err error) {
	z := ze(e)
	if z.w != nil && z.w.head {
		err = z.w.close()
	}
	nd.Atomic(func() {
		if z.open {
			z.open = false
			Encoders--
		}
	})
	return err
}

//sym:replace github.com/klauspost/compress/zstd.NewReader
func dNew(r io.Reader, opts ...zstd.DOption) (*zstd.Decoder, error) {
	z := &zdec{open: true}
	err := options(opts, func(p any) {
		z.nocrc = nd.Field(p, "ignoreChecksum") == 1
		z.capLimit = nd.Field(p, "limitToCap") == 1
		z.maxSize = nd.Field(p, "maxDecodedSize")
		z.maxWind = nd.Field(p, "maxWindowSize")
	})
	if err != nil {
		return nil, err
	}
	d := new(zstd.Decoder)
	nd.Atomic(func() { decs[d] = z; Encoders++ })
	if r != nil {
		if err := dReset(d, r); err != nil {
			return nil, err
		}
	}
	return d, nil
}

func (z *zdec) decode(in, dst []byte) ([]byte, error) {
	if len(in) == 0 {
		return nil, nil
	}
	if z.nocrc {
		nd.Atomic(func() { NoCRC = true })
	}
	// The data may be of any size, so a decoder that is limited may refuse it.
	if (z.maxSize > 0 && z.maxSize < 64<<30 || z.maxWind > 0 && z.maxWind < 1<<26) && nd.Bool("codec.toolarge") {
		nd.ModelOnly("the data may be larger than what is encoded here")
		return nil, zstd.ErrDecoderSizeExceeded
	}
	data, err := decode(Zstd, in)
	switch n := int64(len(data)); {
	case err != nil:
	case z.maxWind > 0 && n > z.maxWind:
		return nil, zstd.ErrWindowSizeExceeded
	case z.maxSize > 0 && n > z.maxSize, dst != nil && z.capLimit && len(data) > cap(dst)-len(dst):
		return nil, zstd.ErrDecoderSizeExceeded
	}
	return data, err
}

//sym:replace (*github.com/klauspost/compress/zstd.Decoder).DecodeAll
func dAll(d *zstd.Decoder, in, dst []byte) ([]byte, error) {
	z := zd(d)
	if !z.open {
		return dst, zstd.ErrDecoderClosed
	}
	lim := dst
	if lim == nil {
		lim = []byte{}
	}
	data, err := z.decode(in, lim)
	return append(dst, data...), err
}

//sym:replace (*github.com/klauspost/compress/zstd.Decoder).Reset
func dReset(d *zstd.Decoder, r io.Reader) error {
	z := zd(d)
	if !z.open {
		return zstd.ErrDecoderClosed
	}
	z.r = nil
	if r == nil {
		return nil
	}
	in, err := io.ReadAll(r)
	if err != nil {
		z.r = &reader{end: err}
		return nil
	}
	data, end := z.decode(in, nil)
	if end == nil {
		end = io.EOF
	}
	z.r = &reader{data: data, end: end}
	return nil
}

//sym:replace (*github.com/klauspost/compress/zstd.Decoder).Read
func dRead(d *zstd.Decoder, p []byte) (int, error) {
	z := zd(d)
	if !z.open {
		return 0, zstd.ErrDecoderClosed
	}
	if z.r == nil {
		return 0, zstd.ErrDecoderNilInput
	}
	return z.r.Read(p)
}

//sym:replace (*github.com/klauspost/compress/zstd.Decoder).WriteTo
func dWriteTo(d *zstd.Decoder, w io.Writer) (int64, error) {
	z := zd(d)
	if z.r == nil {
		return 0, zstd.ErrDecoderNilInput
	}
	n, err := w.Write(z.r.data)
	z.r.data = nil
	if err == nil && z.r.end != io.EOF {
		err = z.r.end
	}
	return int64(n), err
}

//sym:replace (*github.com/klauspost/compress/zstd.Decoder).Close
func dClose(d *zstd.Decoder) {
	z := zd(d)
	nd.Atomic(func() {
		if z.open {
			z.open = false
			Encoders--
		}
	})
}
