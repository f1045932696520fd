package model

import (
	"errors"
	"fmt"
	"io"
	"os"

	"golang.org/x/exp/mmap"

	"verif/nd"
)

// golang.org/x/exp/mmap over the modelled files.

type mapped struct{ data []byte }

var mapFiles = map[*mmap.ReaderAt]*mapped{}

// Mapped is the number of mappings not closed.
func Mapped() (n int) {
	for _, m := range mapFiles {
		if m.data != nil {
			n++
		}
	}
	return
}

//sym:replace golang.org/x/exp/mmap.Open
func expOpen(name string) (*mmap.ReaderAt, error) {
	b, err := os.ReadFile(name)
	if err != nil {
		return nil, err
	}
	r := new(mmap.ReaderAt)
	m := &mapped{}
	if len(b) > 0 {
		m.data = append([]byte(nil), b...)
	}
	nd.Atomic(func() { mapFiles[r] = m })
	return r, nil
}

func mp(r *mmap.ReaderAt) (m *mapped) { nd.Atomic(func() { m = mapFiles[r] }); return }

//sym:replace (*golang.org/x/exp/mmap.ReaderAt).Len
func expLen(r *mmap.ReaderAt) int { return len(mp(r).data) }

//sym:replace (*golang.org/x/exp/mmap.ReaderAt).At
func expAt(r *mmap.ReaderAt, i int) byte { return mp(r).data[i] }

//sym:replace (*golang.org/x/exp/mmap.ReaderAt).ReadAt
func expReadAt(r *mmap.ReaderAt, p []byte, off int64) (int, error) {
	d := mp(r).data
	if d == nil {
		return 0, errors.New("mmap: closed")
	}
	if off < 0 || int64(len(d)) < off {
		return 0, fmt.Errorf("mmap: invalid ReadAt offset %d", off)
	}
	n := copy(p, d[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

//sym:replace (*golang.org/x/exp/mmap.ReaderAt).Close
func expClose(r *mmap.ReaderAt) error { mp(r).data = nil; return nil }
