package model

import (
	"errors"
	"os"

	"golang.org/x/sys/unix"
	"verif/nd"
)

// Shared file mappings with a small page size. Memory and file are one (the
// page cache); msync copies whole pages to disk.

const Page = 8

type mapping struct {
	ino  *inode
	base uintptr
	n    int
	disk []byte
	live bool
}

var (
	mappings []*mapping
	fds      []*handle
	// UnmappedSync counts msync calls the kernel would have refused.
)

//sym:replace os.Getpagesize
func getpagesize() int { return Page }

//sym:replace golang.org/x/sys/unix.Getpagesize
func unixGetpagesize() int { return Page }

//sym:replace syscall.Getpagesize
func syscallGetpagesize() int { return Page }

//sym:replace (*os.File).Fd
func fileFd(f *os.File) uintptr {
	h, err := get(f, "fd")
	if err != nil {
		return ^uintptr(0)
	}
	fds = append(fds, h)
	return uintptr(len(fds) - 1 + 3)
}

//sym:replace golang.org/x/sys/unix.Mmap
func unixMmap(fd int, off int64, length, prot, flags int) ([]byte, error) {
	if fd < 3 || fd-3 >= len(fds) {
		return nil, unix.EBADF
	}
	h := fds[fd-3]
	if length <= 0 || off < 0 || off%Page != 0 {
		return nil, unix.EINVAL
	}
	if off != 0 || length > len(h.ino.data) || flags&unix.MAP_SHARED == 0 || prot&unix.PROT_WRITE == 0 {
		nd.Unsupported("mapping of this kind")
	}
	b := h.ino.data[:length:length]
	nd.Pages(b)
	mappings = append(mappings, &mapping{h.ino, nd.Addr(b), length, append([]byte{}, b...), true})
	return b, nil
}

func findMap(addr uintptr) *mapping {
	for _, m := range mappings {
		if m.live && addr >= m.base && addr < m.base+uintptr((m.n+Page-1)/Page*Page) {
			return m
		}
	}
	return nil
}

func msync(addr, n uintptr) error {
	if addr%Page != 0 {
		return unix.EINVAL
	}
	if n == 0 {
		return nil
	}
	m := findMap(addr)
	if m == nil {
		return unix.ENOMEM
	}
	pages := uintptr((m.n + Page - 1) / Page * Page)
	end := addr - m.base + (n+Page-1)/Page*Page
	var err error
	if end > pages {
		end, err = pages, unix.ENOMEM
	}
	for i := int(addr - m.base); i < int(end) && i < m.n; i++ {
		m.disk[i] = m.ino.data[i]
	}
	return err
}

//sym:replace golang.org/x/sys/unix.Msync
func unixMsync(b []byte, flags int) (err error) {
	if len(b) == 0 {
		return nil
	}
	step(func() { err = msync(nd.Addr(b), uintptr(len(b))) })
	return
}

//sym:replace golang.org/x/sys/unix.Munmap
func unixMunmap(b []byte) error {
	if len(b) == 0 || findMap(nd.Addr(b)) == nil {
		return unix.EINVAL
	}
	findMap(nd.Addr(b)).live = false
	return nil
}

//sym:replace golang.org/x/sys/unix.Syscall6
func unixSyscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err unix.Errno) {
	if trap != unix.SYS_MSYNC {
		nd.Unsupported("system call")
	}
	step(func() {
		if e := msync(a1, a2); e != nil {
			err = e.(unix.Errno)
		}
	})
	return
}

//sym:replace golang.org/x/sys/unix.Syscall
func unixSyscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err unix.Errno) {
	return unixSyscall6(trap, a1, a2, a3, 0, 0, 0)
}

//sym:replace (golang.org/x/sys/unix.Errno).Error
func errnoError(e unix.Errno) string { return "errno" }

// Mappings is the number of live mappings.
func Mappings() int {
	n := 0
	for _, m := range mappings {
		if m.live {
			n++
		}
	}
	return n
}

// Disk is what of the last mapped file would survive a power failure.
func Disk() []byte { return mappings[len(mappings)-1].disk }

var _ = errors.New
