// Property C16: a memory-mapped file is a bounded append and random-write area.
package c16

import (
	"os"
	"sync"

	"github.com/donnie4w/gofer/mmap"
	"verif/model"
	"verif/nd"
)

func file(n int) (*os.File, string, []byte) {
	path := model.Dir() + "/f"
	old := nd.Bytes("old", n)
	os.WriteFile(path, old, 0666)
	f, err := os.OpenFile(path, os.O_RDWR, 0666)
	nd.Assert(err == nil, "the file opens")
	return f, path, append([]byte{}, old...)
}

func content(path string) []byte {
	b, _ := os.ReadFile(path)
	return b
}

// Opening: only sizes and offsets that make sense.
func CheckOpen() {
	n := nd.Choose("size", 4)
	f, _, old := file(n)
	start := nd.Int64("start")
	m, err := mmap.NewMMAP(f, start)
	nd.Assert((err == nil) == (start >= 0 && start < int64(n)), "a mapping needs a start offset inside the file")
	if err != nil {
		nd.Assert(m == nil, "no mapping on error")
		if nd.Symbolic() {
			nd.Assert(model.Mappings() == 0, "a failed open leaves nothing mapped")
		}
	} else {
		nd.Assert(m.FileSize() == int64(n), "FileSize is the size of the file")
		nd.Assert(nd.BytesEq(m.Bytes(), old), "Bytes is the content of the file")
		off, err := m.Append([]byte{7})
		nd.Assert(err == nil && off == start, "appending starts at the start offset")
	}
	nd.Reach("end")
}

// Sequences of appends and writes at arbitrary offsets.
func CheckHistory() {
	n := 1 + nd.Choose("size", 3)
	f, path, want := file(n)
	start := nd.Choose("start", n)
	m, err := mmap.NewMMAP(f, int64(start))
	nd.Assert(err == nil, "the file is mapped")
	pos := start
	for i := 0; i < 3; i++ {
		b := nd.Bytes("b", nd.Choose("len", 3))
		kind := 0
		if i == 0 || nd.Thorough() {
			kind = nd.Choose("kind", 4)
		} else {
			kind = 2 * nd.Choose("kind", 2)
		}
		if kind < 2 {
			var off int64
			if kind == 0 {
				off, err = m.Append(b)
			} else {
				off, err = m.AppendSync(b)
			}
			nd.Assert((err == nil) == (pos+len(b) <= n), "an append succeeds exactly when it fits")
			if err == nil {
				nd.Assert(off == int64(pos), "Append returns the offset of the data")
				copy(want[pos:], b)
				pos += len(b)
			}
		} else {
			off := nd.Int("off")
			fits := off >= 0 && off <= n-len(b)
			if kind == 2 {
				err = m.WriteAt(b, off)
			} else {
				err = m.WriteAtSync(b, off)
			}
			nd.Assert((err == nil) == fits, "a write succeeds exactly when it lies within the file")
			if fits {
				off = nd.Concrete(off)
				copy(want[off:], b)
				pos = max(pos, off+len(b))
			}
		}
		nd.Assert(nd.BytesEq(m.Bytes(), want), "a write changes exactly its range")
		nd.Assert(nd.BytesEq(content(path), want), "the file holds what was written")
	}
	nd.Assert(m.Close() == nil, "Close succeeds")
	nd.Assert(nd.BytesEq(content(path), want), "the data stays after closing")
	nd.Reach("end")
}

// The sync variants make their data durable: page boundaries.
func CheckDurable() {
	nd.ModelOnly("what survives a power failure is modelled")
	size := model.Page*nd.Q(2, 3) + []int{0, 3}[nd.Choose("tail", 2)]
	f, _, want := file(size)
	start := nd.Choose("start", size)
	m, err := mmap.NewMMAP(f, int64(start))
	nd.Assert(err == nil, "the file is mapped")
	n := []int{0, 1, 2, model.Page - 1, model.Page, model.Page + 2, 2 * model.Page, size - start}[nd.Choose("len", 8)]
	if start+n > size {
		return
	}
	b := nd.Bytes("b", n)
	if nd.Bool("append") {
		_, err = m.AppendSync(b)
	} else {
		err = m.WriteAtSync(b, start)
	}
	nd.Assert(err == nil, "a synchronous write inside the file succeeds")
	copy(want[start:], b)
	nd.Assert(nd.BytesEq(model.Disk(), want), "a synchronous write is on disk when it returns")
	if nd.Bool("more") && start+n+1 <= size {
		m.WriteAt([]byte{1}, start)
		m.Append([]byte{2})
		want[start] = 1
		want[max(start+n, start+1)%size] = 2
		if nd.Bool("flush") {
			nd.Assert(m.Flush() == nil, "Flush succeeds")
		} else {
			nd.Assert(m.Close() == nil, "Close succeeds")
		}
		if n > 0 {
			nd.Assert(nd.BytesEq(model.Disk(), want), "Flush and Close make every write durable")
		}
	}
	nd.Reach("end")
}

// What is durable is one's own data, whatever others do meanwhile.
func CheckDurableConc() {
	nd.ModelOnly("what is durable shows in the model of msync only")
	nd.Preemptions(nd.Q(3, 4))
	nd.RacesAreBugs()
	const n = model.Page
	f, _, _ := file(6 * n)
	m, err := mmap.NewMMAP(f, 0)
	nd.Assert(err == nil, "the file is mapped")
	var wg sync.WaitGroup
	work := func(op int, d []byte, at int64) {
		defer wg.Done()
		var off int64
		var err error
		switch op {
		case 0:
			off, err = m.AppendSync(d)
		case 1:
			off, err = at, m.WriteAtSync(d, int(at))
		case 2:
			off, err = m.Append(d)
			if err == nil {
				err = m.Flush()
			}
		case 3:
			_, err = m.Append(d)
		}
		nd.Assert(err == nil, "the call succeeds")
		if op < 3 {
			nd.Atomic(func() {
				nd.Assert(nd.StrEq(string(model.Disk()[off:int(off)+len(d)]), string(d)), "synced data is durable when the call returns")
			})
		}
	}
	a, b := nd.Choose("a", 4), nd.Choose("b", 4)
	nd.Assume(a <= b && a < 3)
	wg.Add(2)
	go work(a, []byte("aaaaaaaa"), 2*n)
	go work(b, []byte("bbbbbbbb"), 4*n)
	wg.Wait()
	nd.Reach("end")
}

// A full file accepts empty writes only.
func CheckFull() {
	n := os.Getpagesize() * (1 + nd.Choose("pages", 2))
	path := model.Dir() + "/f"
	os.WriteFile(path, make([]byte, n), 0666)
	f, _ := os.OpenFile(path, os.O_RDWR, 0666)
	m, err := mmap.NewMMAP(f, int64(n-1))
	nd.Assert(err == nil, "the file is mapped")
	off, err := m.AppendSync([]byte{9})
	nd.Assert(err == nil && off == int64(n-1), "the last byte can be appended")
	_, err = m.Append([]byte{9})
	nd.Assert(err != nil, "a full file accepts no more data")
	off, err = m.AppendSync(nil)
	nd.Assert(err == nil && off == int64(n), "nothing can always be appended")
	nd.Assert(m.WriteAtSync(nil, n) == nil, "nothing can be written at the end")
	nd.Assert(m.UnmapAndCloseFile() == nil, "unmapping succeeds")
	if nd.Symbolic() {
		nd.Assert(model.Mappings() == 0 && model.OpenFiles() == 0, "unmapping and closing releases mapping and file")
	}
	nd.Reach("end")
}

// Concurrent appends get disjoint ranges.
func CheckConc() {
	nd.Preemptions(nd.Q(3, 4))
	nd.RacesAreBugs()
	size := []int{4, 6, 8}[nd.Choose("size", 3)]
	f, path, _ := file(size)
	m, err := mmap.NewMMAP(f, 0)
	nd.Assert(err == nil, "the file is mapped")
	var wg sync.WaitGroup
	const G = 2
	ok := make([][]int64, G)
	syncd := nd.Bool("sync")
	for g := 0; g < G; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 2; i++ {
				c := byte('a' + 2*g + i)
				var off int64
				var err error
				if syncd {
					off, err = m.AppendSync([]byte{c, c})
				} else {
					off, err = m.Append([]byte{c, c})
				}
				if err != nil {
					off = -1
				}
				ok[g] = append(ok[g], off)
			}
		}()
	}
	wg.Wait()
	got := content(path)
	n := 0
	for g := range ok {
		for i, off := range ok[g] {
			if off < 0 {
				continue
			}
			n++
			c := byte('a' + 2*g + i)
			nd.Assert(off+2 <= int64(size) && got[off] == c && got[off+1] == c, "each append keeps its own range")
		}
	}
	nd.Assert(n == min(4, size/2), "appends succeed while there is room")
	nd.Reach("end")
}

// Many goroutines append.
func CheckCrowd() {
	nd.RacesAreBugs()
	n, per := nd.Q(5, 8), 2
	size := 2*n*per - nd.Choose("short", 4)
	f, path, _ := file(size)
	m, err := mmap.NewMMAP(f, 0)
	nd.Assert(err == nil, "the file is mapped")
	kind := nd.Choose("kind", 2)
	offs := make([]int64, n*per)
	nd.Crowd(n, func(g int) {
		for i := 0; i < per; i++ {
			j := g*per + i
			c := byte('a' + j)
			var err error
			if kind == 0 {
				offs[j], err = m.Append([]byte{c, c})
			} else {
				offs[j], err = m.AppendSync([]byte{c, c})
			}
			if err != nil {
				offs[j] = -1
			}
		}
	})
	got := content(path)
	fit := 0
	for j, off := range offs {
		if off >= 0 {
			fit++
			c := byte('a' + j)
			nd.Assert(off+2 <= int64(size) && got[off] == c && got[off+1] == c, "each append keeps its own range")
		}
	}
	nd.Assert(fit == size/2, "appends succeed exactly while there is room")
	nd.Reach("end")
}
