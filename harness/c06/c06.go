// Property C06: LinkedHashMap is a bounded map ordered by recency of writes.
package c06

import (
	"github.com/donnie4w/gofer/hashmap"
	"verif/lin"
	_ "verif/model"
	"verif/nd"
)

type ent struct {
	cls int
	val uint64
}

// ref lists the entries newest first.
type ref struct {
	limit int
	list  []ent
}

func (r *ref) find(c int) int {
	for i, e := range r.list {
		if e.cls == c {
			return i
		}
	}
	return -1
}
func (r *ref) copy() *ref { return &ref{r.limit, append([]ent(nil), r.list...)} }
func (r *ref) del(c int) {
	if i := r.find(c); i >= 0 {
		r.list = append(append([]ent(nil), r.list[:i]...), r.list[i+1:]...)
	}
}
func (r *ref) front(e ent) {
	r.del(e.cls)
	r.list = append([]ent{e}, r.list...)
	if len(r.list) > r.limit {
		r.list = r.list[:len(r.list)-1]
	}
}

type keyset[K comparable] struct{ reps []K }

func (s *keyset[K]) class(k K) int {
	for i := range s.reps {
		if s.reps[i] == k {
			return i
		}
	}
	s.reps = append(s.reps, k)
	return len(s.reps) - 1
}

func compare[K comparable](m *hashmap.LinkedHashMap[K, uint64], ks *keyset[K], r *ref) {
	nd.Assert(m.Len() == int64(len(r.list)), "Len is the number of entries")
	fk, fv, fok := m.Front()
	bk, bv, bok := m.Back()
	nd.Assert(fok == (len(r.list) > 0) && bok == fok, "Front and Back exist iff the map is not empty")
	if len(r.list) > 0 {
		f, b := r.list[0], r.list[len(r.list)-1]
		nd.Assert(nd.And(fk == ks.reps[f.cls], fv == f.val), "Front is the most recently written entry")
		nd.Assert(nd.And(bk == ks.reps[b.cls], bv == b.val), "Back is the least recently written entry")
	}
	it, jt := m.Iterator(true), m.Iterator(false)
	for i := range r.list {
		e := r.list[i]
		k, v, ok := it.Next()
		nd.Assert(ok, "the forward iterator yields every entry")
		nd.Assert(nd.And(k == ks.reps[e.cls], v == e.val), "the forward iterator goes from newest to oldest")
		e = r.list[len(r.list)-1-i]
		k, v, ok = jt.Next()
		nd.Assert(ok, "the backward iterator yields every entry")
		nd.Assert(nd.And(k == ks.reps[e.cls], v == e.val), "the backward iterator goes from oldest to newest")
	}
	for i := 0; i < 2; i++ {
		_, _, ok := it.Next()
		nd.Assert(!ok, "the forward iterator ends")
		_, _, ok = jt.Next()
		nd.Assert(!ok, "the backward iterator ends")
	}
	for c, k := range ks.reps {
		v, ok := m.Get(k)
		i := r.find(c)
		nd.Assert(ok == (i >= 0), "Get finds exactly the present keys")
		if i >= 0 {
			nd.Assert(v == r.list[i].val, "Get returns the last written value")
		} else {
			nd.Assert(v == 0, "Get of an absent key returns the zero value")
		}
	}
}

func drive[K comparable](m *hashmap.LinkedHashMap[K, uint64], limit int, key func() K, steps int) {
	ks := &keyset[K]{}
	lim := limit
	if lim < 0 {
		lim = 0
	}
	r := &ref{limit: lim}
	for i := 0; i < steps; i++ {
		op := nd.Choose("op", 5)
		if op == 4 {
			m.Clear()
			r.list = nil
			continue
		}
		k := key()
		c := ks.class(k)
		switch op {
		case 0:
			v := nd.Uint64("v")
			m.Put(k, v)
			r.front(ent{c, v})
		case 1:
			v := nd.Uint64("v")
			a, loaded := m.LoadOrStore(k, v)
			j := r.find(c)
			nd.Assert(loaded == (j >= 0), "LoadOrStore reports whether the key was present")
			if j >= 0 {
				nd.Assert(a == r.list[j].val, "LoadOrStore returns the value already there")
				r.front(r.list[j])
			} else {
				nd.Assert(a == v, "LoadOrStore returns the value it stored")
				r.front(ent{c, v})
			}
		case 2:
			m.Delete(k)
			r.del(c)
		case 3:
			m.MoveToFront(k)
			if j := r.find(c); j >= 0 {
				r.front(r.list[j])
			}
		}
		nd.Assert(m.Len() <= int64(lim), "the limit is never exceeded")
		nd.Assert(m.Len() == int64(len(r.list)), "Len is the number of entries")
	}
	compare(m, ks, r)
	nd.Reach("end")
}

func CheckSeq() {
	limit := nd.Choose("limit", nd.Q(4, 5))
	drive(hashmap.NewLinkedHashMap[int64, uint64](int64(limit)), limit, func() int64 { return nd.Int64("k") }, nd.Q(4, 5))
}

func CheckNegativeLimit() {
	l := nd.Int64("limit")
	nd.Assume(l <= 0)
	drive(hashmap.NewLinkedHashMap[int64, uint64](l), 0, func() int64 { return nd.Int64("k") }, 2)
}

func CheckStrings() {
	limit := 1 + nd.Choose("limit", 2)
	drive(hashmap.NewLinkedHashMap[string, uint64](int64(limit)), limit, func() string { return nd.String("k", nd.Choose("len", 2)) }, nd.Q(3, 4))
}

// Puts only: longer histories around the limit.
func CheckPuts() {
	limit := 1 + nd.Choose("limit", nd.Q(4, 5))
	m := hashmap.NewLinkedHashMap[int64, uint64](int64(limit))
	ks := &keyset[int64]{}
	r := &ref{limit: limit}
	for i := 0; i < nd.Q(6, 7); i++ {
		k, v := nd.Int64("k"), nd.Uint64("v")
		c := ks.class(k)
		m.Put(k, v)
		r.front(ent{c, v})
	}
	compare(m, ks, r)
	nd.Reach("end")
}

// An iterator survives deletion of the entries it has already returned.
func CheckIterateAndDelete() {
	front := nd.Bool("front")
	m := hashmap.NewLinkedHashMap[int64, uint64](8)
	n := 1 + nd.Choose("n", 4)
	ks := &keyset[int64]{}
	r := &ref{limit: 8}
	for i := 0; i < n; i++ {
		k, v := nd.Int64("k"), nd.Uint64("v")
		c := ks.class(k)
		m.Put(k, v)
		r.front(ent{c, v})
	}
	it := m.Iterator(front)
	order := append([]ent(nil), r.list...)
	for i := range order {
		e := order[i]
		if !front {
			e = order[len(order)-1-i]
		}
		k, v, ok := it.Next()
		nd.Assert(ok, "iteration continues after deleting a returned entry")
		nd.Assert(nd.And(k == ks.reps[e.cls], v == e.val), "iteration order is unaffected by deleting returned entries")
		if nd.Bool("del") {
			m.Delete(k)
			r.del(e.cls)
		}
	}
	_, _, ok := it.Next()
	nd.Assert(!ok, "the iterator ends")
	compare(m, ks, r)
	nd.Reach("end")
}

// ---- concurrency

func CheckConc() {
	nd.Preemptions(nd.Q(2, 3))
	nd.RacesAreBugs()
	limit := 1 + nd.Choose("limit", 2)
	m := hashmap.NewLinkedHashMap[int64, uint64](int64(limit))
	ks := &keyset[int64]{}
	for i := 0; i < 3; i++ {
		k := nd.Int64("key")
		nd.Assume(ks.class(k) == i)
	}
	init := &ref{limit: limit}
	for i := 0; i < 2; i++ {
		v := nd.Uint64("init")
		m.Put(ks.reps[i], v)
		init.front(ent{i, v})
	}
	mk := func(kind int) *lin.Op[*ref] {
		c := 0
		if kind < 5 {
			c = nd.Choose("cls", 3)
		}
		k := ks.reps[c]
		arg := nd.Uint64("arg")
		var val uint64
		var ok bool
		var n int64
		var rk int64
		o := &lin.Op[*ref]{}
		switch kind {
		case 0:
			o.Run = func() { m.Put(k, arg) }
			o.Apply = func(r *ref) (*ref, bool) { r = r.copy(); r.front(ent{c, arg}); return r, true }
		case 1:
			o.Run = func() { val, ok = m.Get(k) }
			o.Apply = func(r *ref) (*ref, bool) {
				if i := r.find(c); i >= 0 {
					return r, nd.And(ok, val == r.list[i].val)
				}
				return r, !ok
			}
		case 2:
			o.Run = func() { m.Delete(k) }
			o.Apply = func(r *ref) (*ref, bool) { r = r.copy(); r.del(c); return r, true }
		case 3:
			o.Run = func() { val, ok = m.LoadOrStore(k, arg) }
			o.Apply = func(r *ref) (*ref, bool) {
				r = r.copy()
				if i := r.find(c); i >= 0 {
					v := r.list[i].val
					r.front(r.list[i])
					return r, nd.And(ok, val == v)
				}
				r.front(ent{c, arg})
				return r, nd.And(!ok, val == arg)
			}
		case 4:
			o.Run = func() { m.MoveToFront(k) }
			o.Apply = func(r *ref) (*ref, bool) {
				r = r.copy()
				if i := r.find(c); i >= 0 {
					r.front(r.list[i])
				}
				return r, true
			}
		case 5:
			o.Run = func() { n = m.Len() }
			o.Apply = func(r *ref) (*ref, bool) { return r, n == int64(len(r.list)) }
		case 6:
			o.Run = func() { rk, val, ok = m.Back() }
			o.Apply = func(r *ref) (*ref, bool) {
				if len(r.list) == 0 {
					return r, !ok
				}
				e := r.list[len(r.list)-1]
				return r, nd.And(ok, rk == ks.reps[e.cls], val == e.val)
			}
		case 7:
			o.Run = func() { m.Clear() }
			o.Apply = func(r *ref) (*ref, bool) { return &ref{limit: limit}, true }
		}
		return o
	}
	progs := [][]*lin.Op[*ref]{{mk(nd.Choose("op", 8))}, {mk(0)}}
	if nd.Choose("more", 2) == 1 {
		progs[0] = append(progs[0], mk(1))
	} else {
		progs[1] = append(progs[1], mk(nd.Q(5, 2)))
	}
	ok := lin.Run(init, progs, func(r *ref) bool {
		okAll := m.Len() == int64(len(r.list))
		it := m.Iterator(true)
		for _, e := range r.list {
			k, v, ok := it.Next()
			okAll = nd.And(okAll, ok, k == ks.reps[e.cls], v == e.val)
		}
		return okAll
	})
	nd.Assert(ok, "concurrent operations are linearizable")
	nd.Reach("end")
}

// Many entries.
func CheckMany() {
	nd.MaxMake(4096)
	limit := []int{20, 70, 1000}[nd.Choose("limit", 3)]
	m := hashmap.NewLinkedHashMap[int64, uint64](int64(limit))
	ks := &keyset[int64]{}
	for i := 0; i < 90; i++ {
		ks.class(int64(i - 40))
	}
	r := &ref{limit: limit}
	for i := 0; i < 300; i++ {
		c := nd.Mix(i, 90)
		k := ks.reps[c]
		v := uint64(i) << 24
		if i%37 == 0 {
			v = nd.Uint64("v")
		}
		switch nd.Mix(i+1000, 7) {
		case 0:
			m.Delete(k)
			r.del(c)
		case 1:
			m.MoveToFront(k)
			if j := r.find(c); j >= 0 {
				r.front(r.list[j])
			}
		case 2:
			a, loaded := m.LoadOrStore(k, v)
			j := r.find(c)
			nd.Assert(loaded == (j >= 0), "LoadOrStore reports whether the key was present")
			if j >= 0 {
				nd.Assert(a == r.list[j].val, "LoadOrStore returns the value already there")
				r.front(r.list[j])
			} else {
				r.front(ent{c, v})
			}
		default:
			m.Put(k, v)
			r.front(ent{c, v})
		}
		nd.Assert(m.Len() == int64(len(r.list)), "Len is the number of entries")
	}
	compare(m, ks, r)
	m.Clear()
	r.list = nil
	compare(m, ks, r)
	nd.Reach("end")
}
