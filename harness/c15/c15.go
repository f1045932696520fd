// Property C15: a fastio file is an append log shared by concurrent writers.
package c15

import (
	"os"
	"sync"

	"github.com/donnie4w/gofer/fastio"
	"verif/model"
	"verif/nd"
)

func content(path string) []byte {
	b, err := os.ReadFile(path)
	nd.Assert(err == nil, "the file exists")
	return b
}

func open(path string) fastio.File {
	f, err := fastio.Open(path)
	nd.Assert(err == nil && f != nil, "the file can be opened")
	return f
}

// One goroutine: writes append in order, WriteSync tells where.
func CheckSequential() {
	path := model.Dir() + "/f"
	want := nd.Bytes("old", nd.Choose("oldlen", 3))
	if len(want) > 0 || nd.Bool("exists") {
		os.WriteFile(path, want, 0666)
	}
	f := open(path)
	for i := 0; i < nd.Q(3, 4); i++ {
		b := nd.Bytes("b", nd.Choose("len", 3))
		if nd.Bool("sync") {
			off, err := f.WriteSync(b)
			nd.Assert(err == nil, "a write succeeds")
			nd.Assert(off == int64(len(want)), "WriteSync returns the offset of the data")
		} else {
			n, err := f.Write(b)
			nd.Assert(err == nil && n == len(b), "a write succeeds and reports its length")
		}
		want = append(want, b...)
		nd.Assert(nd.BytesEq(content(path), want), "the file is the concatenation of everything written")
	}
	nd.Assert(f.Close() == nil, "Close succeeds")
	nd.Reach("end")
}

func CheckReadAt() {
	path := model.Dir() + "/f"
	f := open(path)
	b := nd.Bytes("b", 4)
	f.Write(b[:2])
	f.WriteSync(b[2:])
	off, n := nd.Choose("off", 6), nd.Choose("n", 6)
	buf := make([]byte, n)
	got, err := f.ReadAt(buf, int64(off))
	want := 0
	if off < 4 {
		want = min(n, 4-off)
	}
	nd.Assert(got == want, "ReadAt reads what is there")
	nd.Assert((err == nil) == (got == n), "ReadAt reports a short read")
	nd.Assert(nd.BytesEq(buf[:got], b[min(off, 4):min(off, 4)+got]), "ReadAt returns the data written")
	nd.Reach("end")
}

// Reopening continues after the existing data.
func CheckReopen() {
	path := model.Dir() + "/f"
	f := open(path)
	a, b := nd.Bytes("a", nd.Choose("la", 3)), nd.Bytes("b", 1+nd.Choose("lb", 2))
	f.Write(a)
	f.Close()
	_, err := f.Write(b)
	nd.Assert(err != nil, "writing to a closed file reports an error")
	f = open(path)
	off, err := f.WriteSync(b)
	nd.Assert(err == nil && off == int64(len(a)), "a reopened file appends")
	nd.Assert(nd.BytesEq(content(path), append(append([]byte{}, a...), b...)), "nothing is lost or duplicated by reopening")
	nd.Reach("end")
}

// Files handed over by the caller without O_APPEND.
func CheckWriteAt() {
	path := model.Dir() + "/f"
	old := nd.Bytes("old", 3)
	os.WriteFile(path, old, 0666)
	osf, err := os.OpenFile(path, os.O_RDWR, 0666)
	nd.Assert(err == nil, "open")
	f, err := fastio.New(osf)
	nd.Assert(err == nil, "a file handle is wrapped")
	off := nd.Choose("off", 4)
	b := nd.Bytes("b", nd.Choose("len", 3))
	n, err := f.WriteAt(b, int64(off))
	nd.Assert(err == nil && n == len(b), "WriteAt writes")
	want := append([]byte{}, old...)
	for i := range b {
		if off+i < len(want) {
			want[off+i] = b[i]
		} else {
			want = append(want, b[i])
		}
	}
	nd.Assert(nd.BytesEq(content(path), want), "WriteAt replaces exactly its range")
	nd.Reach("end")
}

// Files opened by path.
func CheckWriteAtOpen() {
	path := model.Dir() + "/f"
	f := open(path)
	f.Write([]byte("abc"))
	nd.Known("fastio-open-writeat", true)
	n, err := f.WriteAt(nd.Bytes("b", 1), 1)
	nd.Assert(err == nil && n == 1, "WriteAt works on a file opened by path")
	nd.Reach("end")
}

// perms calls f with every order of the pieces.
func perms(pieces [][]byte, prefix []byte, f func([]byte) bool) bool {
	if len(pieces) == 0 {
		return f(prefix)
	}
	r := false
	for i := range pieces {
		rest := append(append([][]byte{}, pieces[:i]...), pieces[i+1:]...)
		r = nd.Or(r, perms(rest, append(append([]byte{}, prefix...), pieces[i]...), f))
	}
	return r
}

// Concurrent writers: every write that returned is in the file, once and
// intact; the caller's buffer may be reused after the call.
func concurrent(progs [][]int, pre int) {
	nd.Preemptions(pre)
	path := model.Dir() + "/f"
	f := open(path)
	var pieces [][]byte
	var wg sync.WaitGroup
	next := byte('a')
	for _, p := range progs {
		wg.Add(1)
		first := next
		for range p {
			pieces = append(pieces, []byte{next, next})
			next++
		}
		go func() {
			defer wg.Done()
			buf := make([]byte, 2)
			for i, kind := range p {
				c := first + byte(i)
				buf[0], buf[1] = c, c
				if kind == 0 {
					n, err := f.Write(buf)
					nd.Assert(err == nil && n == 2, "a write succeeds")
				} else {
					off, err := f.WriteSync(buf)
					nd.Assert(err == nil, "a write succeeds")
					got := content(path)
					nd.Assert(off >= 0 && off+2 <= int64(len(got)) && got[off] == c && got[off+1] == c, "WriteSync has written its data at the offset it returns")
				}
				buf[0], buf[1] = 'x', 'x'
			}
		}()
	}
	wg.Wait()
	got := content(path)
	nd.Assert(perms(pieces, nil, func(w []byte) bool { return string(w) == string(got) }), "the file holds each completed write exactly once and intact")
	nd.Assert(f.Close() == nil, "Close succeeds")
	nd.Reach("end")
}

func CheckConc() {
	nd.RacesAreBugs()
	progs := [][]int{{nd.Choose("k1", 2), nd.Choose("k2", 2)}, {nd.Choose("k3", 2)}}
	concurrent(progs, nd.Q(3, 4))
}

func CheckConc3() {
	nd.RacesAreBugs()
	progs := [][]int{{nd.Choose("k1", 2)}, {nd.Choose("k2", 2)}, {nd.Choose("k3", 2)}}
	concurrent(progs, nd.Q(2, 3))
}

// A write that fails reports it, to its caller, and later writes go on.
func CheckFault() {
	nd.ModelOnly("the file system model injects a failing write")
	path := model.Dir() + "/f"
	f := open(path)
	model.WriteFaults = nd.Q(1, 2)
	var last int64
	for i := 0; i < nd.Q(3, 4); i++ {
		b := []byte{byte('a' + i), byte('a' + i)}
		before := model.Failed
		var off int64
		var err error
		sync := nd.Bool("sync")
		if sync {
			off, err = f.WriteSync(b)
		} else {
			_, err = f.Write(b)
		}
		nd.Assert((err != nil) == (model.Failed > before), "a write reports an error exactly when it failed")
		if err == nil {
			got := content(path)
			n := int64(len(got))
			nd.Assert(n >= 2 && got[n-2] == b[0] && got[n-1] == b[0], "a write that succeeds after a failure is appended")
			if sync {
				nd.Assert(off == n-2, "WriteSync returns the offset of the data, also after a failed write")
			}
			last = n
		}
	}
	_ = last
	nd.Reach("end")
}

// Concurrent writers and one failing write: no write that reported success is
// missing, and nobody is blocked.
func CheckFaultConc() {
	nd.ModelOnly("the file system model injects a failing write")
	nd.Preemptions(nd.Q(2, 3))
	path := model.Dir() + "/f"
	f := open(path)
	model.WriteFaults = 1
	kinds := []int{nd.Choose("k1", 2), nd.Choose("k2", 2)}
	errs := make([]error, 2)
	offs := make([]int64, 2)
	var wg sync.WaitGroup
	for i := range kinds {
		wg.Add(1)
		go func() {
			defer wg.Done()
			b := []byte{byte('a' + i), byte('a' + i)}
			if kinds[i] == 0 {
				_, errs[i] = f.Write(b)
			} else {
				offs[i], errs[i] = f.WriteSync(b)
			}
		}()
	}
	wg.Wait()
	got := string(content(path))
	for i := range kinds {
		if errs[i] == nil {
			found := false
			for j := 0; j+1 < len(got); j++ {
				if got[j] == byte('a'+i) && got[j+1] == byte('a'+i) {
					found = true
				}
			}
			nd.Assert(found, "a write that reported success is in the file")
		}
	}
	_, err := f.Write([]byte("zz"))
	nd.Assert(err == nil || model.Failed > 0, "later writes are possible")
	nd.Reach("end")
}

// Data of any size, and many pieces of it.
func CheckLarge() {
	nd.MaxMake(1 << 20)
	path := model.Dir() + "/f"
	f := open(path)
	var want []byte
	put := func(b []byte, sync bool) {
		if sync {
			off, err := f.WriteSync(b)
			nd.Assert(err == nil && off == int64(len(want)), "WriteSync returns the offset of the data")
		} else {
			n, err := f.Write(b)
			nd.Assert(err == nil && n == len(b), "a write succeeds and reports its length")
		}
		want = append(want, b...)
	}
	sync := nd.Bool("sync")
	put(nd.Big("a", []int{100, 4096, 5000, 70000}[nd.Choose("size", nd.Q(3, 4))]), sync)
	for i := 0; i < 40; i++ {
		put([]byte{byte(i), nd.Uint8("c")}, sync == (i%3 == 0))
	}
	put(nd.Big("b", 4097), !sync)
	nd.Assert(nd.BytesEq(content(path), want), "the file is the concatenation of everything written")
	buf := make([]byte, len(want))
	n, err := f.ReadAt(buf, 0)
	nd.Assert(err == nil && n == len(want) && nd.BytesEq(buf, want), "ReadAt returns the data written")
	nd.Assert(f.Close() == nil, "Close succeeds")
	g := open(path)
	off, err := g.WriteSync([]byte("x"))
	nd.Assert(err == nil && off == int64(len(want)), "a reopened file is continued at its end")
	nd.Reach("end")
}

// Many writers.
func CheckCrowd() {
	nd.RacesAreBugs()
	path := model.Dir() + "/f"
	f := open(path)
	n, per := nd.Q(6, 10), 2
	mode := nd.Choose("mode", 3)
	nd.Crowd(n, func(g int) {
		buf := make([]byte, 2)
		for i := 0; i < per; i++ {
			c := byte('a' + g*per + i)
			buf[0], buf[1] = c, c
			if mode == 0 || mode == 2 && (g+i)%2 == 0 {
				k, err := f.Write(buf)
				nd.Assert(err == nil && k == 2, "a write succeeds")
			} else {
				off, err := f.WriteSync(buf)
				nd.Assert(err == nil, "a write succeeds")
				got := content(path)
				nd.Assert(off >= 0 && off+2 <= int64(len(got)) && got[off] == c && got[off+1] == c, "WriteSync has written its data at the offset it returns")
			}
			buf[0], buf[1] = '!', '!'
		}
	})
	got := content(path)
	nd.Assert(len(got) == 2*n*per, "the file holds each completed write exactly once and intact")
	seen := map[byte]int{}
	for i := 0; i+1 < len(got); i += 2 {
		nd.Assert(got[i] == got[i+1], "the file holds each completed write exactly once and intact")
		seen[got[i]] = i + 1
	}
	for g := 0; g < n; g++ {
		for i := 0; i < per; i++ {
			c := byte('a' + g*per + i)
			nd.Assert(seen[c] > 0, "the file holds each completed write exactly once and intact")
			nd.Assert(i == 0 || seen[c] > seen[c-1], "the writes of one goroutine keep their order")
		}
	}
	nd.Assert(f.Close() == nil, "Close succeeds")
	nd.Reach("end")
}
