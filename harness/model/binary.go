package model

import (
	"encoding/binary"
	"errors"
	"io"

	"verif/nd"
)

// encoding/binary.Write and Read use reflection; for the fixed-size values and
// slices the target passes they are equivalent to the following.

//sym:replace encoding/binary.Write
func binaryWrite(w io.Writer, order binary.ByteOrder, data any) error {
	bs, ok := encode(order, data)
	if !ok {
		nd.Unsupported("binary.Write of this type")
	}
	_, err := w.Write(bs)
	return err
}

func encode(o binary.ByteOrder, data any) ([]byte, bool) {
	var bs []byte
	p16 := func(v uint16) { var b [2]byte; o.PutUint16(b[:], v); bs = append(bs, b[:]...) }
	p32 := func(v uint32) { var b [4]byte; o.PutUint32(b[:], v); bs = append(bs, b[:]...) }
	p64 := func(v uint64) { var b [8]byte; o.PutUint64(b[:], v); bs = append(bs, b[:]...) }
	switch v := data.(type) {
	case int8:
		bs = append(bs, byte(v))
	case uint8:
		bs = append(bs, v)
	case int16:
		p16(uint16(v))
	case uint16:
		p16(v)
	case int32:
		p32(uint32(v))
	case uint32:
		p32(v)
	case int64:
		p64(uint64(v))
	case uint64:
		p64(v)
	case []byte:
		bs = append(bs, v...)
	case []int32:
		for _, x := range v {
			p32(uint32(x))
		}
	case []int64:
		for _, x := range v {
			p64(uint64(x))
		}
	case []uint64:
		for _, x := range v {
			p64(x)
		}
	default:
		return nil, false
	}
	return bs, true
}

//sym:replace encoding/binary.Read
func binaryRead(r io.Reader, o binary.ByteOrder, data any) error {
	n := -1
	switch v := data.(type) {
	case *int8, *uint8:
		n = 1
	case *int16, *uint16:
		n = 2
	case *int32, *uint32:
		n = 4
	case *int64, *uint64:
		n = 8
	case []byte:
		n = len(v)
	case []int32:
		n = 4 * len(v)
	case []int64:
		n = 8 * len(v)
	case []uint64:
		n = 8 * len(v)
	}
	if n < 0 {
		nd.Unsupported("binary.Read of this type")
	}
	bs := make([]byte, n)
	if _, err := io.ReadFull(r, bs); err != nil {
		return err
	}
	switch v := data.(type) {
	case *int8:
		*v = int8(bs[0])
	case *uint8:
		*v = bs[0]
	case *int16:
		*v = int16(o.Uint16(bs))
	case *uint16:
		*v = o.Uint16(bs)
	case *int32:
		*v = int32(o.Uint32(bs))
	case *uint32:
		*v = o.Uint32(bs)
	case *int64:
		*v = int64(o.Uint64(bs))
	case *uint64:
		*v = o.Uint64(bs)
	case []byte:
		copy(v, bs)
	case []int32:
		for i := range v {
			v[i] = int32(o.Uint32(bs[4*i:]))
		}
	case []int64:
		for i := range v {
			v[i] = int64(o.Uint64(bs[8*i:]))
		}
	case []uint64:
		for i := range v {
			v[i] = o.Uint64(bs[8*i:])
		}
	}
	return nil
}

var _ = errors.New
