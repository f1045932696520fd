package model

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"strings"
	"time"

	"verif/nd"
)

// An in-memory file system. Every call is one atomic step and a scheduling
// point; faults and crashes are chosen by the solver when a harness enables
// them.

type inode struct {
	data []byte
	dir  bool
	mode fs.FileMode
}

type handle struct {
	ino    *inode
	name   string
	pos    int
	flag   int
	closed bool
}

var (
	files   = map[string]*inode{}
	handles = map[*os.File]*handle{}

	// WriteFaults is the number of write calls that may fail (after a prefix).
	WriteFaults int
	// Failed counts the writes that did fail.
	Failed int
	// Crashes allows the process to stop before, or midway through, a change.
	Crashes bool
	// Crashed: nothing that follows reaches the disk any more.
	Crashed bool
)

// Dir is a fresh directory for files (natively a temporary one).
func Dir() string {
	if nd.Symbolic() {
		files["/vfs"] = &inode{dir: true}
		return "/vfs"
	}
	d, err := os.MkdirTemp("", "verif")
	if err != nil {
		panic(err)
	}
	return d
}

// Reboot forgets the open files and lets changes reach the disk again.
func Reboot() {
	Crashed = false
	handles = map[*os.File]*handle{}
}

// crash decides whether the process stops at this change; k of n bytes of it
// still reach the disk.
func crash(n int) (stop bool, k int) {
	if Crashed {
		return true, 0
	}
	if Crashes && nd.Bool("fs.crash") {
		Crashed = true
		if n > 0 {
			k = []int{0, n / 2, n - 1}[nd.Choose("fs.torn", 3)]
		}
		return true, k
	}
	return false, 0
}

func perr(op, name string, err error) error { return &fs.PathError{Op: op, Path: name, Err: err} }

var errFault = errors.New("no space left on device")
var errAppend = errors.New("os: invalid use of WriteAt on file opened with O_APPEND")

func get(f *os.File, op string) (*handle, error) {
	if f == nil {
		return nil, os.ErrInvalid
	}
	h := handles[f]
	if h == nil {
		nd.Unsupported("file outside the modelled file system")
	}
	if h.closed {
		return nil, perr(op, h.name, os.ErrClosed)
	}
	return h, nil
}

func clean(p string) string {
	for strings.Contains(p, "//") {
		p = strings.ReplaceAll(p, "//", "/")
	}
	if len(p) > 1 {
		p = strings.TrimSuffix(p, "/")
	}
	return p
}

func parent(p string) string {
	if i := strings.LastIndexByte(p, '/'); i > 0 {
		return p[:i]
	}
	return "/"
}

func step(f func()) {
	nd.Point("file system call")
	nd.Atomic(f)
}

//sym:replace os.OpenFile
func openFile(name string, flag int, perm fs.FileMode) (r *os.File, err error) {
	step(func() {
		p := clean(name)
		ino := files[p]
		if ino == nil {
			if d := files[parent(p)]; d == nil && parent(p) != "/" {
				err = perr("open", name, fs.ErrNotExist)
				return
			}
			if flag&os.O_CREATE == 0 {
				err = perr("open", name, fs.ErrNotExist)
				return
			}
			ino = &inode{mode: perm}
			if stop, _ := crash(0); !stop {
				files[p] = ino
			}
		} else if flag&(os.O_CREATE|os.O_EXCL) == os.O_CREATE|os.O_EXCL {
			err = perr("open", name, fs.ErrExist)
			return
		}
		if ino.dir && flag&(os.O_WRONLY|os.O_RDWR) != 0 {
			err = perr("open", name, errors.New("is a directory"))
			return
		}
		if flag&os.O_TRUNC != 0 {
			if stop, _ := crash(0); !stop {
				ino.data = nil
			}
		}
		r = new(os.File)
		handles[r] = &handle{ino: ino, name: name, flag: flag}
	})
	return
}

//sym:replace os.Open
func open(name string) (*os.File, error) { return openFile(name, os.O_RDONLY, 0) }

//sym:replace os.Create
func create(name string) (*os.File, error) {
	return openFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

// put writes b at off, up to a fault or crash.
func (h *handle) put(b []byte, off int) (n int, err error) {
	if h.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, perr("write", h.name, errors.New("bad file descriptor"))
	}
	n = len(b)
	if WriteFaults > 0 && nd.Bool("fs.fault") {
		WriteFaults--
		Failed++
		n = nd.Choose("fs.short", 2) * (len(b) / 2)
		err = perr("write", h.name, errFault)
	}
	d := b[:n]
	if stop, k := crash(n); stop {
		d = b[:k]
	}
	if len(d) == 0 {
		return
	}
	for len(h.ino.data) < off {
		h.ino.data = append(h.ino.data, 0)
	}
	end := min(len(d), len(h.ino.data)-off)
	copy(h.ino.data[off:], d[:end])
	h.ino.data = append(h.ino.data, d[end:]...)
	return
}

//sym:replace (*os.File).Write
func fileWrite(f *os.File, b []byte) (n int, err error) {
	step(func() {
		var h *handle
		if h, err = get(f, "write"); err != nil {
			return
		}
		if h.flag&os.O_APPEND != 0 {
			h.pos = len(h.ino.data)
		}
		n, err = h.put(b, h.pos)
		h.pos += n
	})
	return
}

//sym:replace (*os.File).WriteString
func fileWriteString(f *os.File, s string) (int, error) { return fileWrite(f, []byte(s)) }

//sym:replace (*os.File).WriteAt
func fileWriteAt(f *os.File, b []byte, off int64) (n int, err error) {
	step(func() {
		var h *handle
		if h, err = get(f, "write"); err != nil {
			return
		}
		if h.flag&os.O_APPEND != 0 {
			err = errAppend
			return
		}
		if off < 0 {
			err = perr("writeat", h.name, errors.New("negative offset"))
			return
		}
		n, err = h.put(b, int(off))
	})
	return
}

//sym:replace (*os.File).Read
func fileRead(f *os.File, b []byte) (n int, err error) {
	step(func() {
		var h *handle
		if h, err = get(f, "read"); err != nil {
			return
		}
		if h.flag&os.O_WRONLY != 0 {
			err = perr("read", h.name, errors.New("bad file descriptor"))
			return
		}
		if h.pos < len(h.ino.data) {
			n = copy(b, h.ino.data[h.pos:])
		}
		h.pos += n
		if n == 0 && len(b) > 0 {
			err = io.EOF
		}
	})
	return
}

//sym:replace (*os.File).ReadAt
func fileReadAt(f *os.File, b []byte, off int64) (n int, err error) {
	step(func() {
		var h *handle
		if h, err = get(f, "read"); err != nil {
			return
		}
		if off < 0 {
			err = perr("readat", h.name, errors.New("negative offset"))
			return
		}
		if off < int64(len(h.ino.data)) {
			n = copy(b, h.ino.data[off:])
		}
		if n < len(b) {
			err = io.EOF
		}
	})
	return
}

//sym:replace (*os.File).Seek
func fileSeek(f *os.File, off int64, whence int) (r int64, err error) {
	step(func() {
		var h *handle
		if h, err = get(f, "seek"); err != nil {
			return
		}
		switch whence {
		case io.SeekStart:
		case io.SeekCurrent:
			off += int64(h.pos)
		case io.SeekEnd:
			off += int64(len(h.ino.data))
		}
		if off < 0 {
			err = perr("seek", h.name, errors.New("invalid argument"))
			return
		}
		h.pos = int(off)
		r = off
	})
	return
}

//sym:replace (*os.File).Truncate
func fileTruncate(f *os.File, size int64) (err error) {
	step(func() {
		var h *handle
		if h, err = get(f, "truncate"); err != nil {
			return
		}
		if size < 0 {
			err = perr("truncate", h.name, errors.New("invalid argument"))
			return
		}
		if stop, _ := crash(0); stop {
			return
		}
		for int64(len(h.ino.data)) < size {
			h.ino.data = append(h.ino.data, 0)
		}
		h.ino.data = h.ino.data[:size]
	})
	return
}

//sym:replace (*os.File).Sync
func fileSync(f *os.File) (err error) {
	step(func() { _, err = get(f, "sync") })
	return
}

//sym:replace (*os.File).Close
func fileClose(f *os.File) (err error) {
	step(func() {
		var h *handle
		if h, err = get(f, "close"); err == nil {
			h.closed = true
		}
	})
	return
}

//sym:replace (*os.File).Name
func fileName(f *os.File) string { return handles[f].name }

// Open files, for leak checks.
func OpenFiles() int {
	n := 0
	for _, h := range handles {
		if !h.closed {
			n++
		}
	}
	return n
}

type finfo struct {
	name string
	size int64
	dir  bool
	mode fs.FileMode
}

func (i finfo) Name() string       { return i.name }
func (i finfo) Size() int64        { return i.size }
func (i finfo) IsDir() bool        { return i.dir }
func (i finfo) Sys() any           { return nil }
func (i finfo) ModTime() time.Time { return time.Time{} }
func (i finfo) Mode() fs.FileMode {
	if i.dir {
		return fs.ModeDir | 0777
	}
	return i.mode
}

func (ino *inode) info(name string) finfo {
	return finfo{name[strings.LastIndexByte(name, '/')+1:], int64(len(ino.data)), ino.dir, ino.mode}
}

//sym:replace (*os.File).Stat
func fileStat(f *os.File) (r os.FileInfo, err error) {
	step(func() {
		var h *handle
		if h, err = get(f, "stat"); err == nil {
			r = h.ino.info(h.name)
		}
	})
	return
}

//sym:replace os.Stat
func stat(name string) (r os.FileInfo, err error) {
	step(func() {
		if ino := files[clean(name)]; ino != nil {
			r = ino.info(clean(name))
		} else {
			err = perr("stat", name, fs.ErrNotExist)
		}
	})
	return
}

//sym:replace os.Lstat
func lstat(name string) (os.FileInfo, error) { return stat(name) }

func underlying(err error) error {
	switch e := err.(type) {
	case *fs.PathError:
		return e.Err
	case *os.LinkError:
		return e.Err
	case *os.SyscallError:
		return e.Err
	}
	return err
}

//sym:replace os.IsNotExist
func isNotExist(err error) bool { return underlying(err) == fs.ErrNotExist }

//sym:replace os.IsExist
func isExist(err error) bool { return underlying(err) == fs.ErrExist }

//sym:replace os.ReadFile
func readFile(name string) (b []byte, err error) {
	step(func() {
		ino := files[clean(name)]
		if ino == nil {
			err = perr("open", name, fs.ErrNotExist)
			return
		}
		b = append([]byte{}, ino.data...)
	})
	return
}

//sym:replace os.WriteFile
func writeFile(name string, data []byte, perm fs.FileMode) error {
	f, err := openFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = fileWrite(f, data)
	if e := fileClose(f); e != nil && err == nil {
		err = e
	}
	return err
}

//sym:replace os.MkdirAll
func mkdirAll(name string, perm fs.FileMode) (err error) {
	step(func() {
		p := clean(name)
		if i := files[p]; i != nil && !i.dir {
			err = perr("mkdir", name, errors.New("not a directory"))
			return
		}
		for ; len(p) > 1; p = parent(p) {
			if files[p] == nil {
				files[p] = &inode{dir: true}
			}
		}
	})
	return
}

//sym:replace os.Mkdir
func mkdir(name string, perm fs.FileMode) error { return mkdirAll(name, perm) }

//sym:replace os.Remove
func remove(name string) (err error) {
	step(func() {
		if files[clean(name)] == nil {
			err = perr("remove", name, fs.ErrNotExist)
			return
		}
		if stop, _ := crash(0); !stop {
			delete(files, clean(name))
		}
	})
	return
}

//sym:replace os.Rename
func rename(from, to string) (err error) {
	step(func() {
		i := files[clean(from)]
		if i == nil {
			err = perr("rename", from, fs.ErrNotExist)
			return
		}
		if stop, _ := crash(0); !stop {
			delete(files, clean(from))
			files[clean(to)] = i
		}
	})
	return
}
