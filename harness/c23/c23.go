// Property C23: a KeyStore file holds what was last written.
package c23

import (
	"os"

	"github.com/donnie4w/gofer/keystore"
	_ "verif/codec"
	"verif/lin"
	"verif/model"

	"verif/nd"
)

type store interface {
	Write([]byte) error
	Read() ([]byte, error)
}

func open(dir string) store {
	var s store
	var err error
	if nd.Bool("load") && exists(dir) {
		s, err = keystore.LoadKeyStore(dir, "ks")
	} else {
		s, err = keystore.NewKeyStore(dir, "ks")
	}
	nd.Assert(err == nil, "a store opens")
	return s
}

func exists(p string) bool { _, err := os.Stat(p); return err == nil }

// Any history of writes, reads and reopenings.
func CheckHistory() {
	dir := model.Dir() + "/a/b"
	s := open(dir)
	var other store
	var want string
	written := false
	var got [][]byte
	var wants []string
	for i := 0; i < nd.Q(4, 5); i++ {
		switch nd.Choose("op", 4) {
		case 0:
			b := nd.Bytes("b", nd.Choose("len", 3))
			nd.Assert(s.Write(b) == nil, "Write succeeds")
			want, written = string(b), true
			for j := range b {
				b[j]++
			}
		case 1:
			r, err := s.Read()
			nd.Assert((err == nil) == written, "Read succeeds once something is written")
			nd.Assert(nd.StrEq(string(r), want), "Read returns what was last written")
			got, wants = append(got, r), append(wants, want)
		case 2:
			s = open(dir)
		case 3: // two stores on the same file
			if other == nil {
				other = open(dir)
			}
			s, other = other, s
		}
	}
	r, err := s.Read()
	nd.Assert((err == nil) == written, "Read succeeds once something is written")
	nd.Assert(nd.StrEq(string(r), want), "Read returns what was last written")
	for i, r := range got {
		nd.Assert(nd.StrEq(string(r), wants[i]), "what Read returned stays as it is")
	}
	if other != nil {
		r, err := other.Read()
		nd.Assert((err == nil) == written, "Read succeeds once something is written")
		nd.Assert(nd.StrEq(string(r), want), "Read returns what was last written, through another store too")
	}
	nd.Reach("end")
}

// Stores of other names and directories are independent.
func CheckSeparate() {
	d := model.Dir()
	dirs := []string{d, d, d + "/x"}
	names := [][]string{{"a", "b", "a"}, {"ks", "KS", "ks"}, {"k", "k ", "K"}, {"k.1", "k.2", "k"}, {"é", "e", "É"}}[nd.Choose("names", 5)]
	n := len(dirs)
	stores := make([]store, n)
	want := make([]string, n)
	for i := range stores {
		s, err := keystore.NewKeyStore(dirs[i], names[i])
		nd.Assert(err == nil, "a store opens")
		stores[i] = s
	}
	for i, s := range stores {
		want[i] = nd.String("data", 1+i%2)
		nd.Assert(s.Write([]byte(want[i])) == nil, "Write succeeds")
	}
	for i, s := range stores {
		r, err := s.Read()
		nd.Assert(err == nil && nd.StrEq(string(r), want[i]), "stores are independent")
	}
	nd.Reach("end")
}

// Paths that cannot be opened are reported.
func CheckOpen() {
	d := model.Dir()
	_, err := keystore.LoadKeyStore(d+"/none", "ks")
	nd.Assert(err != nil, "loading from a missing directory is reported")
	os.WriteFile(d+"/f", []byte("x"), 0o600)
	_, err = keystore.NewKeyStore(d+"/f", "ks")
	nd.Assert(err != nil, "a file in place of the directory is reported")
	os.MkdirAll(d+"/d/ks", 0o700)
	_, err = keystore.NewKeyStore(d+"/d", "ks")
	nd.Assert(err != nil, "a directory in place of the file is reported")
	nd.Reach("end")
}

// A failing write is reported, and the store goes on.
func CheckFault() {
	nd.ModelOnly("the file system model injects a failing write")
	s := open(model.Dir())
	old := nd.Bytes("old", nd.Choose("len", 3))
	nd.Assert(s.Write(old) == nil, "Write succeeds")
	model.WriteFaults = 1
	b := nd.Bytes("b", nd.Choose("len2", 3))
	err := s.Write(b)
	failed := model.Failed > 0
	model.WriteFaults = 0
	nd.Assert((err != nil) == failed, "a failing write is reported")
	r, rerr := s.Read()
	if !failed {
		nd.Assert(rerr == nil && nd.BytesEq(r, b), "Read returns what was last written")
	}
	c := nd.Bytes("c", 1)
	nd.Assert(s.Write(c) == nil, "the store can be written after a failure")
	r, rerr = s.Read()
	nd.Assert(rerr == nil && nd.BytesEq(r, c), "Read returns what was last written")
	nd.Reach("end")
}

// What a completed Write stored survives the end of the process; one that is
// interrupted leaves the old content or the new.
func CheckCrash() {
	nd.ModelOnly("the process stops at a chosen file operation")
	dir := model.Dir()
	s := open(dir)
	old := nd.Bytes("old", nd.Choose("len", 2))
	nd.Assert(s.Write(old) == nil, "Write succeeds")
	model.Crashes = true
	b := nd.Bytes("b", 1+nd.Choose("len2", 2))
	s.Write(b)
	model.Crashes = false
	crashed := model.Crashed
	model.Reboot()
	r, err := open(dir).Read()
	if !crashed {
		nd.Assert(err == nil && nd.BytesEq(r, b), "a completed Write survives the end of the process")
	} else {
		nd.Known("keystore-torn-write", true)
		nd.Assert(err == nil, "an interrupted Write leaves the old content or the new")
		nd.Assert(nd.Or(nd.BytesEq(r, b), nd.BytesEq(r, old)), "an interrupted Write leaves the old content or the new")
	}
	nd.Reach("end")
}

type state struct {
	v  string
	ok bool
}

// Concurrent reads and writes are linearizable and race-free.
func CheckConc() {
	nd.Preemptions(nd.Q(2, 3))
	nd.RacesAreBugs()
	s := open(model.Dir())
	init := state{}
	if nd.Bool("init") {
		s.Write([]byte("i"))
		init = state{"i", true}
	}
	mk := func(write bool) *lin.Op[state] {
		if write {
			v := nd.String("v", 1)
			var err error
			return &lin.Op[state]{
				Run:   func() { err = s.Write([]byte(v)) },
				Apply: func(state) (state, bool) { return state{v, true}, err == nil },
			}
		}
		var r []byte
		var err error
		return &lin.Op[state]{
			Run:   func() { r, err = s.Read() },
			Apply: func(x state) (state, bool) { return x, (err == nil) == x.ok && (!x.ok || nd.StrEq(string(r), x.v)) },
		}
	}
	progs := [][]*lin.Op[state]{{mk(true), mk(nd.Bool("w1"))}, {mk(nd.Bool("w2"))}}
	done := func(x state) bool {
		r, err := s.Read()
		return nd.And(err == nil, nd.StrEq(string(r), x.v))
	}
	nd.Assert(lin.Run(init, progs, done), "concurrent reads and writes are linearizable")
	nd.Reach("end")
}

// Data of any size.
func CheckLarge() {
	nd.MaxMake(1 << 20)
	dir := model.Dir()
	s := open(dir)
	for i := 0; i < nd.Q(2, 3); i++ {
		b := nd.Big("b", []int{3, 600, 5000, 70000}[nd.Choose("size", nd.Q(3, 4))])
		want := string(b)
		nd.Assert(s.Write(b) == nil, "Write succeeds")
		if nd.Bool("reopen") {
			s = open(dir)
		}
		r, err := s.Read()
		nd.Assert(err == nil && nd.StrEq(string(r), want), "Read returns what was last written")
	}
	nd.Reach("end")
}

// Many goroutines.
func CheckCrowd() {
	nd.RacesAreBugs()
	s := open(model.Dir())
	s.Write([]byte("000"))
	n := nd.Q(6, 10)
	nd.Crowd(n, func(g int) {
		c := byte('1' + g)
		b := []byte{c, c, c}
		nd.Assert(s.Write(b) == nil, "Write succeeds")
		r, err := s.Read()
		nd.Assert(err == nil && len(r) == 3 && r[0] == r[1] && r[1] == r[2] && r[0] > '0', "Read returns what some Write wrote")
	})
	r, err := s.Read()
	nd.Assert(err == nil && len(r) == 3 && r[0] == r[1] && r[1] == r[2] && r[0] > '0', "Read returns what some Write wrote")
	nd.Reach("end")
}
