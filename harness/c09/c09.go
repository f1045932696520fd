// Property C09: the consistent-hash ring.
package c09

import (
	"encoding/binary"
	"hash"
	"hash/crc64"

	"github.com/donnie4w/gofer/hashmap"
	"verif/lin"
	_ "verif/model"
	"verif/nd"
)

// The hash is any collision-free function of the bytes.
type hashed struct {
	in []byte
	h  uint64
}

var (
	seen  []hashed
	fixed bool // positions are a fixed function
)

//sym:replace hash/crc64.Checksum
func checksum(data []byte, tab *crc64.Table) (h uint64) {
	nd.Atomic(func() { h = checksum1(data) })
	return h
}

func checksum1(data []byte) uint64 {
	if fixed {
		h := uint64(14695981039346656037)
		for _, v := range data {
			h = (h ^ uint64(v)) * 1099511628211
		}
		h ^= h >> 32
		return h * 0x9e3779b97f4a7c15
	}
	for _, s := range seen {
		if len(s.in) == len(data) && nd.BytesEq(s.in, data) {
			return s.h
		}
	}
	h := nd.Uint64("hash")
	for _, s := range seen {
		nd.Assume(s.h != h)
	}
	seen = append(seen, hashed{append([]byte(nil), data...), h})
	return h
}

//sym:replace hash/crc64.MakeTable
func makeTable(poly uint64) *crc64.Table { return nil }

// digest is crc64.New's.
type digest struct{ data []byte }

//sym:replace hash/crc64.New
func newDigest(tab *crc64.Table) hash.Hash64 { return new(digest) }

//sym:replace hash/crc64.Update
func update(crc uint64, tab *crc64.Table, p []byte) uint64 {
	if crc != 0 {
		nd.Unsupported("crc64.Update in pieces")
	}
	return checksum(p, tab)
}

func (d *digest) Write(p []byte) (int, error) { d.data = append(d.data, p...); return len(p), nil }
func (d *digest) Sum64() uint64               { return checksum(d.data, nil) }
func (d *digest) Sum(b []byte) []byte         { return binary.BigEndian.AppendUint64(b, d.Sum64()) }
func (d *digest) Reset()                      { d.data = nil }
func (d *digest) Size() int                   { return 8 }
func (d *digest) BlockSize() int              { return 1 }

func start() {
	nd.ModelOnly("ring positions are an arbitrary collision-free function")
	nd.NoMerge()
	seen, fixed = nil, false
}

type set struct{ l []int64 }

func (s *set) has(k int64) bool {
	for _, x := range s.l {
		if x == k {
			return true
		}
	}
	return false
}
func (s *set) add(k int64) {
	if !s.has(k) {
		s.l = append(s.l, k)
	}
}
func (s *set) del(k int64) {
	for i, x := range s.l {
		if x == k {
			s.l = append(s.l[:i:i], s.l[i+1:]...)
			return
		}
	}
}

func members(c *hashmap.Consistenthash, s *set) {
	ns := c.Nodes()
	nd.Assert(len(ns) == len(s.l), "Nodes lists each member once")
	for i, n := range ns {
		nd.Assert(s.has(n), "Nodes lists only members")
		for _, o := range ns[:i] {
			nd.Assert(o != n, "Nodes lists each member once")
		}
	}
}

func lookup(c *hashmap.Consistenthash, s *set, v int64) (int64, bool) {
	n, ok := c.Get(v)
	nd.Assert(ok == (len(s.l) > 0), "a value has a node iff there are nodes")
	if ok {
		nd.Assert(s.has(n), "values map to members only")
	}
	return n, ok
}

// Any history of Add and Del: lookups go to members, and equal a ring built
// freshly from the member set.
func CheckHistory() {
	start()
	replicas := 1 + nd.Choose("replicas", 2)
	c := hashmap.NewConsistenthash(replicas)
	s := &set{}
	_, ok := c.Get(nd.Int64("v0"))
	nd.Assert(!ok, "an empty ring has no node")
	for i := 0; i < nd.Q(3, 4); i++ {
		k := nd.Int64("k")
		if nd.Choose("op", 2) == 0 {
			c.Add(k)
			s.add(k)
		} else {
			c.Del(k)
			s.del(k)
		}
	}
	same(c, s, replicas)
}

// Adding several nodes at once, members and repetitions among them.
func CheckMultiAdd() {
	start()
	replicas := 1 + nd.Choose("replicas", 2)
	c := hashmap.NewConsistenthash(replicas)
	s := &set{}
	add := func(ks ...int64) {
		c.Add(ks...)
		for _, k := range ks {
			s.add(k)
		}
	}
	add(nd.Int64("k0"))
	add(nd.Int64("k1"), nd.Int64("k2"))
	if nd.Thorough() {
		k := nd.Int64("d")
		c.Del(k)
		s.del(k)
		add(nd.Int64("k3"), nd.Int64("k4"))
	}
	same(c, s, replicas)
}

func same(c *hashmap.Consistenthash, s *set, replicas int) {
	if replicas*len(s.l) > nd.Q(4, 5) {
		nd.Assume(false)
	}
	members(c, s)
	v := nd.Int64("v")
	n, ok := lookup(c, s, v)
	// the same members added in the opposite order at once
	d := hashmap.NewConsistenthash(replicas)
	var rev []int64
	for i := len(s.l) - 1; i >= 0; i-- {
		rev = append(rev, s.l[i])
	}
	d.Add(rev...)
	n2, ok2 := d.Get(v)
	nd.Assert(ok == ok2 && n == n2, "the node of a value depends on the member set only")
	str := nd.String("s", 2)
	sn, sok := c.GetStr(str)
	sn2, sok2 := d.GetStr(str)
	nd.Assert(sok == (len(s.l) > 0), "a string has a node iff there are nodes")
	nd.Assert(sok == sok2 && sn == sn2, "the node of a string depends on the member set only")
	if sok {
		nd.Assert(s.has(sn), "strings map to members only")
	}
	nd.Reach("end")
}

// Adding a node moves values only to it; deleting a node moves only its values.
func CheckMinimalDisruption() {
	start()
	replicas := 1 + nd.Choose("replicas", 2)
	c := hashmap.NewConsistenthash(replicas)
	n := 1 + nd.Choose("n", nd.Q(4, 4)/replicas)
	var nodes []int64
	for i := 0; i < n; i++ {
		k := nd.Int64("k")
		for _, o := range nodes {
			nd.Assume(o != k)
		}
		nodes = append(nodes, k)
	}
	x := nd.Int64("x")
	for _, o := range nodes {
		nd.Assume(o != x)
	}
	c.Add(nodes...)
	v := nd.Int64("v")
	before, ok := c.Get(v)
	nd.Assert(ok, "a value has a node iff there are nodes")
	c.Add(x)
	with, ok := c.Get(v)
	nd.Assert(ok && (with == before || with == x), "adding a node moves values only to that node")
	c.Add(x)
	again, _ := c.Get(v)
	nd.Assert(again == with, "adding a member again changes nothing")
	c.Del(x)
	after, ok := c.Get(v)
	nd.Assert(ok && after == before, "deleting a node restores the mapping without it")
	y := nodes[n-1]
	c.Del(y)
	moved, ok := c.Get(v)
	nd.Assert(ok == (n > 1), "a value has a node iff there are nodes")
	if n > 1 && before != y {
		nd.Assert(moved == before, "deleting a node moves only its own values")
	}
	if ok {
		nd.Assert(moved != y, "values do not map to deleted nodes")
	}
	nd.Reach("end")
}

// The further nodes for a string: distinct members other than its node.
func CheckNextNodes() {
	start()
	replicas := 1 + nd.Choose("replicas", 2)
	c := hashmap.NewConsistenthash(replicas)
	s := &set{}
	n := nd.Choose("n", nd.Q(4, 5)/replicas+1)
	for i := 0; i < n; i++ {
		k := nd.Int64("k")
		nd.Assume(!s.has(k))
		s.add(k)
	}
	c.Add(s.l...)
	str := nd.String("s", 2)
	step := 1 + nd.Choose("step", 3)
	first, ok := c.GetStr(str)
	next, ok2 := c.GetNextNodeStr(str, step)
	nd.Assert(ok == ok2 && ok == (n > 0), "a string has a node iff there are nodes")
	nd.Assert(len(next) <= step, "at most the requested number of further nodes")
	for i, x := range next {
		nd.Assert(s.has(x), "further nodes are members")
		nd.Assert(x != first, "further nodes differ from the string's own node")
		for _, y := range next[:i] {
			nd.Assert(x != y, "further nodes are distinct")
		}
	}
	nd.Reach("end")
}

// Emptied rings answer, and can be filled again.
func CheckEmptied() {
	start()
	c := hashmap.NewConsistenthash(1 + nd.Choose("replicas", 2))
	k := nd.Int64("k")
	c.Add(k)
	c.Del(nd.Int64("other"))
	c.Del(k)
	c.Del(k)
	_, ok := c.Get(nd.Int64("v"))
	_, ok2 := c.GetStr("s")
	ns, ok3 := c.GetNextNodeStr("s", 1)
	nd.Assert(!ok && !ok2 && !ok3 && len(ns) == 0, "an emptied ring has no node")
	nd.Assert(len(c.Nodes()) == 0, "an emptied ring has no members")
	c.Add(k)
	n, ok := c.Get(nd.Int64("v2"))
	nd.Assert(ok && n == k, "an emptied ring can be filled again")
	nd.Reach("end")
}

// Concurrent lookups do not disturb each other.
func CheckReaders() {
	start()
	nd.Preemptions(nd.Q(2, 3))
	nd.RacesAreBugs()
	c := hashmap.NewConsistenthash(1)
	c.Add(nd.Int64("n0"), 7)
	vals := []int64{nd.Int64("v0"), nd.Int64("v1")}
	strs := []string{nd.String("s0", 1), nd.String("s1", 2)}
	kinds := []int{nd.Choose("kind0", 4), nd.Choose("kind1", 4)}
	look := func(g int) (n int64) {
		switch kinds[g] {
		case 0:
			n, _ = c.Get(vals[g])
		case 1:
			n, _ = c.GetStr(strs[g])
		case 2:
			l, _ := c.GetNextNodeStr(strs[g], 1)
			for _, x := range l {
				n = x
			}
		case 3:
			n = int64(len(c.Nodes()))
		}
		return
	}
	want := []int64{look(0), look(1)}
	check := func(g int) func() {
		return func() {
			nd.Assert(look(g) == want[g], "concurrent lookups answer as lookups alone")
		}
	}
	nd.Both(check(0), check(1))
	nd.Reach("end")
}

type S = [3]bool // which of the three nodes are members

func CheckConc() {
	start()
	nd.Preemptions(nd.Q(1, 3))
	nd.RacesAreBugs()
	c := hashmap.NewConsistenthash(1)
	nodes := []int64{nd.Int64("n0"), nd.Int64("n1"), nd.Int64("n2")}
	nd.Assume(nodes[0] != nodes[1] && nodes[0] != nodes[2] && nodes[1] != nodes[2])
	c.Add(nodes[0], nodes[1])
	idx := func(n int64) int {
		for i := range nodes {
			if nodes[i] == n {
				return i
			}
		}
		return -1
	}
	v := nd.Int64("v")
	get := func() *lin.Op[S] {
		var n int64
		var ok bool
		return &lin.Op[S]{Run: func() { n, ok = c.Get(v) }, Apply: func(s S) (S, bool) {
			if !s[0] && !s[1] && !s[2] {
				return s, !ok
			}
			i := idx(n)
			return s, ok && i >= 0 && s[i]
		}}
	}
	add := func(i int) *lin.Op[S] {
		return &lin.Op[S]{Run: func() { c.Add(nodes[i]) }, Apply: func(s S) (S, bool) { s[i] = true; return s, true }}
	}
	del := func(i int) *lin.Op[S] {
		return &lin.Op[S]{Run: func() { c.Del(nodes[i]) }, Apply: func(s S) (S, bool) { s[i] = false; return s, true }}
	}
	progs := [][]*lin.Op[S]{{add(2), get()}, {del(0)}}
	if nd.Choose("prog", 2) == 1 {
		progs = [][]*lin.Op[S]{{del(0), del(1), get()}, {get(), add(0)}}
	}
	ok := lin.Run(S{true, true, false}, progs, func(s S) bool {
		m := 0
		for _, n := range c.Nodes() {
			if i := idx(n); i < 0 || !s[i] {
				return false
			}
			m++
		}
		w := 0
		for _, b := range s {
			if b {
				w++
			}
		}
		n, ok := c.Get(v)
		if ok != (w > 0) {
			return false
		}
		return m == w && (!ok || s[idx(n)])
	})
	nd.Assert(ok, "concurrent operations are linearizable")
	nd.Reach("end")
}

// Many nodes and many values, with fixed positions.
func CheckMany() {
	start()
	fixed = true
	nd.MaxMake(1 << 20)
	nd.MaxSteps(60000)
	const values, names = 40, 12
	c := hashmap.NewConsistenthash([]int{1, 3, 20, 130}[nd.Choose("replicas", 4)])
	s := &set{}
	get := func() (m [values + names]int64) {
		for v := range m {
			var ok bool
			if v < values {
				m[v], ok = c.Get(int64(v) * 1000)
			} else {
				m[v], ok = c.GetStr("value" + string(rune('a'+v-values)))
			}
			nd.Assert(ok == (len(s.l) > 0), "a value has a node iff there are nodes")
			nd.Assert(!ok || s.has(m[v]), "values map to members only")
		}
		return
	}
	before := get()
	for i := 0; i < 14; i++ {
		k := int64(nd.Mix(i, 9)) - 3
		was := s.has(k)
		if was {
			c.Del(k)
			s.del(k)
		} else {
			c.Add(k)
			s.add(k)
		}
		members(c, s)
		after := get()
		for v := range after {
			if was && len(s.l) > 0 {
				nd.Assert(after[v] == before[v] || before[v] == k, "deleting a node moves only its own values")
			}
			if !was && len(s.l) > 1 {
				nd.Assert(after[v] == before[v] || after[v] == k, "adding a node moves values only to that node")
			}
		}
		first, _ := c.GetStr("x")
		next, _ := c.GetNextNodeStr("x", 20)
		nd.Assert(len(s.l) == 0 || len(next) < len(s.l), "further nodes are distinct")
		for i, x := range next {
			nd.Assert(s.has(x) && x != first, "further nodes are members")
			for _, y := range next[:i] {
				nd.Assert(x != y, "further nodes are distinct")
			}
		}
		before = after
	}
	nd.Reach("end")
}
