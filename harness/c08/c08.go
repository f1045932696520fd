// Property C08: TreeMap is a map whose traversals are sorted by key.
package c08

import (
	"cmp"

	"github.com/donnie4w/gofer/hashmap"
	"verif/lin"
	_ "verif/model"
	"verif/nd"
)

type kv[K cmp.Ordered] struct {
	k K
	v uint64
}

// ref is a sorted association list.
type ref[K cmp.Ordered] struct{ l []kv[K] }

// find returns the position of k, or where it belongs.
func (r *ref[K]) find(k K) (int, bool) {
	for i := range r.l {
		if r.l[i].k == k {
			return i, true
		}
		if k < r.l[i].k {
			return i, false
		}
	}
	return len(r.l), false
}
func (r *ref[K]) put(k K, v uint64) (uint64, bool) {
	i, ok := r.find(k)
	if ok {
		p := r.l[i].v
		r.l[i].v = v
		return p, true
	}
	r.l = append(r.l[:i:i], append([]kv[K]{{k, v}}, r.l[i:]...)...)
	return 0, false
}
func (r *ref[K]) del(k K) {
	if i, ok := r.find(k); ok {
		r.l = append(r.l[:i:i], r.l[i+1:]...)
	}
}
func (r *ref[K]) copy() *ref[K] { return &ref[K]{append([]kv[K](nil), r.l...)} }

func compare[K cmp.Ordered](m *hashmap.TreeMap[K, uint64], r *ref[K]) {
	for stop := 0; stop <= len(r.l); stop++ {
		if stop != 1 && stop != 2 && stop != len(r.l) {
			continue
		}
		i := 0
		m.Ascend(func(k K, v uint64) bool {
			nd.Assert(i < len(r.l), "traversal visits only present entries, each once")
			nd.Assert(nd.And(k == r.l[i].k, v == r.l[i].v), "Ascend visits the entries in increasing key order")
			i++
			return i != stop
		})
		want := stop
		if stop == 0 {
			want = len(r.l)
		}
		nd.Assert(i == want, "Ascend visits every entry until told to stop")
		i = 0
		m.Descend(func(k K, v uint64) bool {
			nd.Assert(i < len(r.l), "traversal visits only present entries, each once")
			e := r.l[len(r.l)-1-i]
			nd.Assert(nd.And(k == e.k, v == e.v), "Descend visits the entries in decreasing key order")
			i++
			return i != stop
		})
		nd.Assert(i == want, "Descend visits every entry until told to stop")
	}
	for _, e := range r.l {
		v, ok := m.Get(e.k)
		nd.Assert(ok && v == e.v, "Get returns the last value put")
	}
}

func step[K cmp.Ordered](m *hashmap.TreeMap[K, uint64], r *ref[K], op int, k K) {
	switch op {
	case 0:
		v := nd.Uint64("v")
		p, b := m.Put(k, v)
		wp, wb := r.put(k, v)
		nd.Assert(b == wb, "Put reports whether the key was present")
		nd.Assert(p == wp, "Put returns the previous value")
	case 1:
		m.Del(k)
		r.del(k)
		_, ok := m.Get(k)
		nd.Assert(!ok, "a deleted key is absent")
	case 2:
		v, b := m.Get(k)
		i, ok := r.find(k)
		nd.Assert(b == ok, "Get finds exactly the present keys")
		if ok {
			nd.Assert(v == r.l[i].v, "Get returns the last value put")
		} else {
			nd.Assert(v == 0, "Get of an absent key returns the zero value")
		}
	}
}

func CheckPuts() {
	nd.NoMerge()
	m := hashmap.NewTreeMap[int64, uint64](2 + nd.Choose("deg", nd.Q(1, 2)))
	r := &ref[int64]{}
	for i := 0; i < nd.Q(5, 6); i++ {
		step(m, r, 0, nd.Int64("k"))
	}
	compare(m, r)
	nd.Reach("end")
}

func CheckOps() {
	nd.NoMerge()
	m := hashmap.NewTreeMap[int64, uint64](2 + nd.Choose("deg", 2))
	r := &ref[int64]{}
	for i := 0; i < nd.Q(4, 5); i++ {
		step(m, r, nd.Choose("op", 3), nd.Int64("k"))
	}
	compare(m, r)
	nd.Reach("end")
}

// Operations at every position of larger trees (splits, merges, borrows).
func CheckLarger() {
	nd.NoMerge()
	m := hashmap.NewTreeMap[int64, uint64](2 + nd.Choose("deg", nd.Q(1, 2)))
	r := &ref[int64]{}
	base, gap := int64(-500), int64(100)
	n := 5 + nd.Choose("n", nd.Q(6, 14))
	order := nd.Choose("order", 3)
	for i := 0; i < n; i++ {
		j := i
		switch order {
		case 1:
			j = n - 1 - i
		case 2:
			j = i * 7 % n
			if n%7 == 0 {
				j = i * 5 % n
			}
		}
		m.Put(base+int64(j)*gap, uint64(j))
		r.put(base+int64(j)*gap, uint64(j))
	}
	for i := 0; i < nd.Q(2, 3); i++ {
		step(m, r, nd.Q(1, nd.Choose("op", 2)), nd.Int64("k"))
	}
	compare(m, r)
	nd.Reach("end")
}

func CheckStrings() {
	nd.NoMerge()
	m := hashmap.NewTreeMap[string, uint64](2)
	r := &ref[string]{}
	for i := 0; i < nd.Q(3, 4); i++ {
		step(m, r, nd.Choose("op", nd.Q(2, 3)), nd.String("k", nd.Choose("len", 3)))
	}
	compare(m, r)
	nd.Reach("end")
}

func CheckUint8() {
	nd.NoMerge()
	m := hashmap.NewTreeMap[uint8, uint64](3)
	r := &ref[uint8]{}
	for i := 0; i < 4; i++ {
		step(m, r, nd.Choose("op", 2), nd.Uint8("k"))
	}
	compare(m, r)
	nd.Reach("end")
}

// nil interface values are values.
func CheckNilValues() {
	nd.NoMerge()
	m := hashmap.NewTreeMap[int64, error](2)
	k := nd.Int64("k")
	m.Put(k, nil)
	v, ok := m.Get(k)
	nd.Assert(ok && v == nil, "a nil value is stored")
	p, had := m.Put(k, nil)
	nd.Assert(had && p == nil, "a nil value is overwritten")
	nd.Reach("end")
}

type S = *ref[int64]

func CheckConc() {
	nd.NoMerge()
	nd.Preemptions(nd.Q(2, 4))
	nd.RacesAreBugs()
	m := hashmap.NewTreeMap[int64, uint64](2)
	init := &ref[int64]{}
	a, b := nd.Int64("a"), nd.Int64("b")
	nd.Assume(a < b)
	m.Put(a, 1)
	m.Put(b, 2)
	init.put(a, 1)
	init.put(b, 2)
	c := nd.Int64("c")
	init.find(c)
	mk := func(kind int) *lin.Op[S] {
		arg := nd.Uint64("arg")
		k := a
		if kind < 3 {
			switch nd.Choose("which", 3) {
			case 1:
				k = b
			case 2:
				k = c
			}
		}
		o := &lin.Op[S]{}
		var val uint64
		var ok bool
		var seen []kv[int64]
		switch kind {
		case 0:
			o.Run = func() { val, ok = m.Put(k, arg) }
			o.Apply = func(r S) (S, bool) {
				r = r.copy()
				p, h := r.put(k, arg)
				return r, nd.And(ok == h, val == p)
			}
		case 1:
			o.Run = func() { m.Del(k) }
			o.Apply = func(r S) (S, bool) { r = r.copy(); r.del(k); return r, true }
		case 2:
			o.Run = func() { val, ok = m.Get(k) }
			o.Apply = func(r S) (S, bool) {
				if i, h := r.find(k); h {
					return r, nd.And(ok, val == r.l[i].v)
				}
				return r, !ok
			}
		case 3, 4:
			o.Run = func() {
				f := func(k int64, v uint64) bool { seen = append(seen, kv[int64]{k, v}); nd.Yield(); return true }
				if kind == 3 {
					m.Ascend(f)
				} else {
					m.Descend(f)
				}
			}
			o.Apply = func(r S) (S, bool) {
				good := len(seen) == len(r.l)
				for i := range seen {
					if i < len(r.l) {
						j := i
						if kind == 4 {
							j = len(r.l) - 1 - i
						}
						good = nd.And(good, seen[i].k == r.l[j].k, seen[i].v == r.l[j].v)
					}
				}
				return r, good
			}
		}
		return o
	}
	progs := [][]*lin.Op[S]{{mk(nd.Choose("op", 5)), mk(0)}, {mk(nd.Choose("op2", 2))}}
	ok := lin.Run(init, progs, func(r S) bool {
		i, good := 0, true
		m.Ascend(func(k int64, v uint64) bool {
			if i < len(r.l) {
				good = nd.And(good, k == r.l[i].k, v == r.l[i].v)
			}
			i++
			return true
		})
		return nd.And(good, i == len(r.l))
	})
	nd.Assert(ok, "concurrent operations are linearizable")
	nd.Reach("end")
}

// Many entries: nodes are split, merged and refilled on several levels.
func CheckMany() {
	nd.MaxMake(4096)
	m := hashmap.NewTreeMap[int64, uint64]([]int{2, 3, 32}[nd.Choose("deg", 3)])
	r := &ref[int64]{}
	for i := 0; i < 500; i++ {
		k := int64(nd.Mix(i, 150) - 70)
		if nd.Mix(i+1000, 5) < 2 && i < 470 {
			m.Del(k)
			r.del(k)
			continue
		}
		v := uint64(i) << 24
		if i%37 == 0 {
			v = nd.Uint64("v")
		}
		p, b := m.Put(k, v)
		wp, wb := r.put(k, v)
		nd.Assert(b == wb && p == wp, "Put returns the previous value")
		g, ok := m.Get(k)
		nd.Assert(ok && g == v, "Get returns the last value put")
	}
	compare(m, r)
	for len(r.l) > 0 {
		k := r.l[nd.Mix(len(r.l), len(r.l))].k
		m.Del(k)
		r.del(k)
		_, ok := m.Get(k)
		nd.Assert(!ok, "a deleted key is absent")
	}
	compare(m, r)
	nd.Reach("end")
}

// Many goroutines.
func CheckCrowd() {
	nd.RacesAreBugs()
	nd.MaxMake(4096)
	n, per := nd.Q(6, 8), 4
	m := hashmap.NewTreeMap[int64, uint64](2 + nd.Choose("deg", 2))
	r := &ref[int64]{}
	nd.Crowd(n, func(g int) {
		for i := 0; i < per; i++ {
			k, v := int64(i*n+g), uint64(g*100+i)
			_, had := m.Put(k, v)
			nd.Assert(!had, "Put reports whether the key was present")
			w, ok := m.Get(k)
			nd.Assert(ok && w == v, "Get returns the last value put")
			if i == 2 {
				m.Del(k)
				_, ok = m.Get(k)
				nd.Assert(!ok, "a deleted key is absent")
			}
			last := int64(-1)
			m.Ascend(func(k int64, v uint64) bool {
				nd.Assert(k > last && v == uint64(k)%uint64(n)*100+uint64(k)/uint64(n), "traversal visits the entries in key order")
				last = k
				return true
			})
		}
	})
	for k := int64(0); k < int64(n*per); k++ {
		if k/int64(n) != 2 {
			r.put(k, uint64(k)%uint64(n)*100+uint64(k)/uint64(n))
		}
	}
	compare(m, r)
	nd.Reach("end")
}
