// Property C17: buffer.Buffer is a byte queue.
package c17

import (
	"io"

	"github.com/donnie4w/gofer/buffer"
	_ "verif/model"
	"verif/nd"
)

// Any sequence of writes and reads behaves as a queue of bytes.
func CheckHistory() {
	var b *buffer.Buffer
	var want []byte
	switch nd.Choose("make", 4) {
	case 0:
		b = buffer.NewBuffer()
	case 1:
		b = buffer.NewBufferWithCapacity(nd.Choose("cap", 3))
	case 2:
		b = buffer.NewBufferByPool()
	case 3:
		init := nd.Bytes("init", 2)
		want = append(want, init...)
		b = buffer.NewBufferBySlice(init)
	}
	type snap struct{ got, want string }
	var snaps []snap
	for i := 0; i < nd.Q(3, 4); i++ {
		switch nd.Choose("op", 6) {
		case 0:
			p := nd.Bytes("p", nd.Choose("len", 3))
			n, err := b.Write(p)
			nd.Assert(err == nil && n == len(p), "Write takes everything and reports its length")
			want = append(want, p...)
			for j := range p {
				p[j]++
			}
		case 1:
			s := nd.String("s", nd.Choose("slen", 2))
			n, err := b.WriteString(s)
			nd.Assert(err == nil && n == len(s), "WriteString takes everything and reports its length")
			want = append(want, s...)
		case 2:
			c := nd.Uint8("c")
			nd.Assert(b.WriteByte(c) == nil, "WriteByte succeeds")
			want = append(want, c)
		case 3:
			v := nd.Int("v")
			n, err := b.WriteInt32(v)
			nd.Assert(err == nil && n == 4, "WriteInt32 writes four bytes and says so")
			want = append(want, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
		case 4:
			p := make([]byte, nd.Choose("rlen", 4))
			n, err := b.Read(p)
			k := min(len(p), len(want))
			nd.Assert(n == k, "Read returns as much as there is")
			if len(p) > 0 && len(want) == 0 {
				nd.Assert(err == io.EOF, "Read of an empty buffer reports EOF")
			} else {
				nd.Assert(err == nil || err == io.EOF && n == len(want), "Read succeeds while there is data")
			}
			nd.Assert(nd.BytesEq(p[:n], want[:k]), "Read returns the bytes in the order written")
			want = want[k:]
		case 5:
			b.Reset()
			want = nil
		}
		nd.Assert(b.Len() == len(want), "Len is the number of unread bytes")
		nd.Assert(nd.BytesEq(b.Bytes(), want), "Bytes are the unread bytes")
		str := b.String()
		nd.Assert(nd.StrEq(str, string(want)), "String is the unread bytes")
		snaps = append(snaps, snap{str, string(want)})
	}
	for _, x := range snaps {
		nd.Assert(nd.StrEq(x.got, x.want), "a string once returned never changes")
	}
	nd.Reach("end")
}

// Draining a buffer through io.Reader ends and yields everything.
func CheckDrain() {
	b := buffer.NewBuffer()
	want := nd.Bytes("data", nd.Choose("len", nd.Q(4, 6)))
	b.Write(want)
	var got []byte
	p := make([]byte, 1+nd.Choose("chunk", 3))
	for i := 0; ; i++ {
		nd.Assert(i < 10, "reading to the end terminates")
		n, err := b.Read(p)
		got = append(got, p[:n]...)
		if err != nil {
			nd.Assert(err == io.EOF, "the end is EOF")
			break
		}
	}
	nd.Assert(nd.BytesEq(got, want), "everything written is read, once")
	nd.Reach("end")
}

// A nil buffer reports errors.
func CheckNil() {
	var b *buffer.Buffer
	_, err := b.Write([]byte("x"))
	nd.Assert(err != nil, "writing to a nil buffer fails")
	_, err = b.WriteString("x")
	nd.Assert(err != nil, "writing to a nil buffer fails")
	_, err = b.WriteInt32(1)
	nd.Assert(err != nil, "writing to a nil buffer fails")
	nd.Assert(b.WriteByte(1) != nil, "writing to a nil buffer fails")
	n, err := b.Read(make([]byte, nd.Choose("n", 2)))
	nd.Assert(n == 0, "nothing is read from a nil buffer")
	nd.Assert(b.Bytes() == nil && b.String() == "", "a nil buffer is empty")
	b.Free()
	nd.Reach("end")
}

// A recycled buffer starts empty.
func CheckPool() {
	b := buffer.NewBufferByPool()
	b.Write(nd.Bytes("p", 2))
	b.Free()
	c := buffer.NewBufferByPool()
	nd.Assert(c != nil && c.Len() == 0, "a buffer from the pool is empty")
	d := buffer.NewBufferByPool()
	nd.Assert(c != d, "the pool hands a buffer to one owner")
	c.Write([]byte("cc"))
	d.Write([]byte("d"))
	cs := c.String()
	nd.Assert(cs == "cc" && d.String() == "d", "buffers of different owners are independent")
	c.Free()
	e := buffer.NewBufferByPool()
	e.Write([]byte("ee"))
	nd.Assert(cs == "cc", "a string once returned survives recycling its buffer")
	nd.Reach("end")
}

// Any amount of data, in pieces of any size.
func CheckLarge() {
	nd.MaxMake(1 << 20)
	var b *buffer.Buffer
	switch nd.Choose("how", 3) {
	case 0:
		b = buffer.NewBuffer()
	case 1:
		b = buffer.NewBufferWithCapacity(100)
	case 2:
		b = buffer.NewBufferByPool()
	}
	a := nd.Big("a", []int{600, 5000, 70000}[nd.Choose("size", nd.Q(2, 3))])
	want := append([]byte(nil), a...)
	n, err := b.Write(a)
	nd.Assert(err == nil && n == len(a), "Write takes everything and reports its length")
	for i := 0; i < 100; i++ {
		c := byte(i)
		if i%25 == 0 {
			c = nd.Uint8("c")
		}
		b.WriteByte(c)
		want = append(want, c)
	}
	s := string(nd.Big("s", 300))
	b.WriteString(s)
	want = append(want, s...)
	nd.Assert(b.Len() == len(want) && nd.BytesEq(b.Bytes(), want), "Bytes are the unread bytes")
	nd.Assert(nd.StrEq(b.String(), string(want)), "String is the unread bytes")
	p := make([]byte, 513)
	for len(want) > 0 {
		n, err := b.Read(p)
		nd.Assert(n == min(len(p), len(want)) && (err == nil || n == len(want)), "Read returns as much as there is")
		nd.Assert(nd.BytesEq(p[:n], want[:n]), "Read returns the bytes in the order written")
		want = want[n:]
	}
	nd.Assert(b.Len() == 0, "everything was read")
	b.Write(a)
	nd.Assert(nd.BytesEq(b.Bytes(), a), "a drained buffer can be used again")
	b.Free()
	nd.Reach("end")
}

// Histories of large pieces.
func CheckPieces() {
	nd.MaxMake(1 << 20)
	b := buffer.NewBuffer()
	var want []byte
	data := nd.Big("a", 3000)
	at := 0
	for i := 0; i < nd.Q(4, 5); i++ {
		op := nd.Choose("op", 7)
		if op < 5 {
			n := []int{1, 70, 600, 1100, 2000}[op]
			at = (at + 7) % 900
			if op%2 == 0 {
				k, err := b.Write(data[at : at+n])
				nd.Assert(err == nil && k == n, "Write takes everything and reports its length")
			} else {
				k, err := b.WriteString(string(data[at : at+n]))
				nd.Assert(err == nil && k == n, "WriteString takes everything and reports its length")
			}
			want = append(want, data[at:at+n]...)
		} else {
			p := make([]byte, []int{50, 1000}[op-5])
			k, _ := b.Read(p)
			nd.Assert(k == min(len(p), len(want)), "Read returns as much as there is")
			nd.Assert(nd.BytesEq(p[:k], want[:k]), "Read returns the bytes in the order written")
			want = want[k:]
		}
		nd.Assert(b.Len() == len(want) && nd.BytesEq(b.Bytes(), want), "Bytes are the unread bytes")
	}
	nd.Reach("end")
}
