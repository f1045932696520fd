// Property C07: LimitMap and LimitHashMap are maps that never exceed their
// capacity and lose only the entries the capacity forces out.
package c07

import (
	"github.com/donnie4w/gofer/hashmap"
	"verif/lin"
	_ "verif/model"
	"verif/nd"
)

type ent struct {
	cls int
	val uint64
}

// ref lists the entries, next victim last.
type ref struct {
	cap   int
	touch bool // overwriting makes an entry the newest
	list  []ent
}

func (r *ref) find(c int) int {
	for i, e := range r.list {
		if e.cls == c {
			return i
		}
	}
	return -1
}
func (r *ref) copy() *ref { return &ref{r.cap, r.touch, append([]ent(nil), r.list...)} }
func (r *ref) del(c int) {
	if i := r.find(c); i >= 0 {
		r.list = append(append([]ent(nil), r.list[:i]...), r.list[i+1:]...)
	}
}
func (r *ref) put(c int, v uint64) (prev uint64, had bool) {
	if i := r.find(c); i >= 0 {
		prev = r.list[i].val
		if !r.touch {
			r.list[i].val = v
			return prev, true
		}
		r.del(c)
		had = true
	}
	r.list = append([]ent{{c, v}}, r.list...)
	if len(r.list) > r.cap {
		r.list = r.list[:r.cap]
	}
	return prev, had
}

type keyset[K comparable] struct{ reps []K }

func (s *keyset[K]) class(k K) int {
	for i := range s.reps {
		if s.reps[i] == k {
			return i
		}
	}
	s.reps = append(s.reps, k)
	return len(s.reps) - 1
}

type mapper[K comparable] interface {
	Put(K, uint64) (uint64, bool)
	Get(K) (uint64, bool)
	Del(K)
	Len() int
}

func compare[K comparable](m mapper[K], ks *keyset[K], r *ref) {
	nd.Assert(m.Len() == len(r.list), "Len is the number of entries")
	for c, k := range ks.reps {
		v, ok := m.Get(k)
		i := r.find(c)
		nd.Assert(ok == (i >= 0), "exactly the entries forced out by the capacity are gone")
		if i >= 0 {
			nd.Assert(v == r.list[i].val, "Get returns the last value put")
		} else {
			nd.Assert(v == 0, "Get of an absent key returns the zero value")
		}
		if h, ok := any(m).(interface{ Contains(K) bool }); ok {
			nd.Assert(h.Contains(k) == (i >= 0), "Contains agrees with Get")
		}
	}
}

func drive[K comparable](m mapper[K], capacity int, touch bool, key func() K, steps int) {
	ks := &keyset[K]{}
	r := &ref{cap: capacity, touch: touch}
	for i := 0; i < steps; i++ {
		nop := 4
		if _, ok := any(m).(interface{ RemoveMulti([]K) }); ok && i != steps-2 {
			nop = 3
		}
		op := nd.Choose("op", nop)
		k := key()
		c := ks.class(k)
		switch op {
		case 0, 3:
			if op == 3 {
				switch x := any(m).(type) {
				case interface{ RemoveMulti([]K) }:
					k2 := key()
					c2 := ks.class(k2)
					x.RemoveMulti([]K{k, k2})
					r.del(c)
					r.del(c2)
				case interface{ Clear() }:
					x.Clear()
					r.list = nil
				}
				break
			}
			v := nd.Uint64("v")
			p, b := m.Put(k, v)
			wp, wb := r.put(c, v)
			nd.Assert(b == wb, "Put reports whether the key was present")
			nd.Assert(p == wp, "Put returns the previous value")
		case 1:
			m.Del(k)
			r.del(c)
		case 2:
			v, b := m.Get(k)
			j := r.find(c)
			nd.Assert(b == (j >= 0), "Get finds exactly the present keys")
			if j >= 0 {
				nd.Assert(v == r.list[j].val, "Get returns the last value put")
			}
		}
		nd.Assert(m.Len() <= capacity, "the capacity is never exceeded")
	}
	compare(m, ks, r)
	nd.Reach("end")
}

func i64() int64 { return nd.Int64("k") }

func CheckLimitMap() {
	c := 1 + nd.Choose("cap", nd.Q(3, 4))
	drive[int64](hashmap.NewLimitMap[int64, uint64](c), c, true, i64, nd.Q(4, 5))
}

// RemoveMulti between Puts: removed entries leave no trace.
func CheckRemoveMulti() {
	c := 2 + nd.Choose("cap", 2)
	m := hashmap.NewLimitMap[int64, uint64](c)
	ks := &keyset[int64]{}
	r := &ref{cap: c, touch: true}
	put := func(n int) {
		for i := 0; i < n; i++ {
			k, v := nd.Int64("k"), nd.Uint64("v")
			m.Put(k, v)
			r.put(ks.class(k), v)
		}
	}
	put(2)
	l := []int64{nd.Int64("d"), nd.Int64("d")}[:nd.Choose("n", 3)]
	for _, k := range l {
		r.del(ks.class(k))
	}
	m.RemoveMulti(l)
	put(nd.Q(2, 3))
	compare[int64](m, ks, r)
	nd.Reach("end")
}

func puts[K comparable](m mapper[K], c int, touch bool, key func() K, n int) {
	ks := &keyset[K]{}
	r := &ref{cap: c, touch: touch}
	for i := 0; i < n; i++ {
		k, v := key(), nd.Uint64("v")
		m.Put(k, v)
		r.put(ks.class(k), v)
		nd.Assert(m.Len() <= c, "the capacity is never exceeded")
	}
	compare(m, ks, r)
	nd.Reach("end")
}

func CheckLimitMapPuts() {
	c := 1 + nd.Choose("cap", 4)
	puts[int64](hashmap.NewLimitMap[int64, uint64](c), c, true, i64, nd.Q(6, 7))
}
func CheckHashMapPuts() {
	c := 1 + nd.Choose("cap", 4)
	puts[int64](hashmap.NewLimitHashMapWithSegment[int64, uint64](c, 1), c, false, i64, nd.Q(6, 7))
}
func CheckHashMapOneSegment() {
	c := 1 + nd.Choose("cap", nd.Q(3, 4))
	drive[int64](hashmap.NewLimitHashMapWithSegment[int64, uint64](c, 1), c, false, i64, nd.Q(4, 5))
}
func CheckHashMapStrings() {
	c := 1 + nd.Choose("cap", 2)
	drive[string](hashmap.NewLimitHashMapWithSegment[string, uint64](c, 1), c, false,
		func() string { return nd.String("k", nd.Choose("len", 2)) }, nd.Q(3, 4))
}

// Several segments: never more than the capacity in total, a key just put is
// there, and as long as no segment can be full nothing is lost.
func CheckSegments() {
	segs := 1 + nd.Choose("segs", 3)
	c := 1 + nd.Choose("cap", nd.Q(5, 7))
	m := hashmap.NewLimitHashMapWithSegment[uint8, uint64](c, segs)
	ks := &keyset[uint8]{}
	last := map[int]uint64{}
	for i := 0; i < nd.Q(4, 5); i++ {
		k, v := nd.Uint8("k"), nd.Uint64("v")
		cl := ks.class(k)
		_, was := m.Get(k)
		_, had := m.Put(k, v)
		nd.Assert(was == had, "Put reports whether the key was present")
		last[cl] = v
		nd.Assert(m.Len() <= c, "the capacity is never exceeded")
		g, ok := m.Get(k)
		nd.Assert(ok && g == v, "the entry just put is there")
		n := 0
		for cl, k := range ks.reps {
			g, ok := m.Get(k)
			nd.Assert(ok == m.Contains(k), "Contains agrees with Get")
			if ok {
				nd.Assert(g == last[cl], "Get returns the last value put")
				n++
			}
		}
		nd.Assert(m.Len() == n, "Len is the number of entries")
		if len(ks.reps) <= c/segs {
			nd.Assert(n == len(ks.reps), "no entry is lost while its segment has room")
		}
	}
	m.Clear()
	nd.Assert(m.Len() == 0, "Clear removes everything")
	for _, k := range ks.reps {
		nd.Assert(!m.Contains(k), "Clear removes everything")
	}
	nd.Reach("end")
}

// The default constructor spreads over many segments.
func CheckDefaultConstructor() {
	c := 1 + nd.Choose("cap", nd.Q(3, 4))
	m := hashmap.NewLimitHashMap[int64, uint64](c)
	n := 0
	ks := &keyset[int64]{}
	for i := 0; i < 3; i++ {
		k := nd.Int64("k")
		nd.Assume(k >= -2 && k < 3)
		m.Put(k, uint64(i)+1)
		ks.class(k)
		v, ok := m.Get(k)
		nd.Assert(ok && v == uint64(i)+1, "the entry just put is there")
		nd.Assert(m.Len() <= c, "the capacity is never exceeded")
	}
	for _, k := range ks.reps {
		if m.Contains(k) {
			n++
		}
	}
	nd.Assert(n == m.Len(), "Len is the number of entries")
	nd.Reach("end")
}

// A large default map loses nothing it has room for.
func CheckDefaultRoomy() {
	m := hashmap.NewLimitHashMap[uint8, uint64](128)
	a, b := nd.Uint8("a"), nd.Uint8("b")
	nd.Assume(a != b)
	m.Put(a, 1)
	m.Put(b, 2)
	v, ok := m.Get(a)
	nd.Assert(ok && v == 1, "no entry is lost while there is room")
	v, ok = m.Get(b)
	nd.Assert(ok && v == 2, "no entry is lost while there is room")
	nd.Assert(m.Len() == 2, "Len is the number of entries")
	m.Del(a)
	nd.Assert(!m.Contains(a) && m.Contains(b) && m.Len() == 1, "Del removes the key only")
	nd.Reach("end")
}

type keyT interface {
	int | int64 | int8 | int16 | int32 | uint | uint64 | uint8 | uint16 | uint32 | float64 | float32 | uintptr | string
}

func pair[K keyT](a, b K, same bool) {
	for segs := 1; segs <= 4; segs *= 2 {
		m := hashmap.NewLimitHashMapWithSegment[K, uint64](2*segs, segs)
		m.Put(a, 7)
		p, had := m.Put(b, 9)
		if same {
			nd.Assert(had && p == 7 && m.Len() == 1, "equal keys are one key")
			continue
		}
		nd.Assert(!had && m.Len() == 2, "different keys are different entries")
		va, oka := m.Get(a)
		vb, okb := m.Get(b)
		nd.Assert(oka && okb && va == 7 && vb == 9, "different keys have their own values")
		m.Del(a)
		nd.Assert(!m.Contains(a) && m.Contains(b), "Del removes the key only")
	}
}

// Every key type distinguishes exactly its different values.
func CheckKeyTypes() {
	switch nd.Choose("type", 14) {
	case 0:
		a, b := nd.Int("a"), nd.Int("b")
		pair(a, b, a == b)
	case 1:
		a, b := nd.Int8("a"), nd.Int8("b")
		pair(a, b, a == b)
	case 2:
		a, b := nd.Int16("a"), nd.Int16("b")
		pair(a, b, a == b)
	case 3:
		a, b := nd.Int32("a"), nd.Int32("b")
		pair(a, b, a == b)
	case 4:
		a, b := nd.Int64("a"), nd.Int64("b")
		pair(a, b, a == b)
	case 5:
		a, b := nd.Uint("a"), nd.Uint("b")
		pair(a, b, a == b)
	case 6:
		a, b := nd.Uint8("a"), nd.Uint8("b")
		pair(a, b, a == b)
	case 7:
		a, b := nd.Uint16("a"), nd.Uint16("b")
		pair(a, b, a == b)
	case 8:
		a, b := nd.Uint32("a"), nd.Uint32("b")
		pair(a, b, a == b)
	case 9:
		a, b := nd.Uint64("a"), nd.Uint64("b")
		pair(a, b, a == b)
	case 10:
		a, b := uintptr(nd.Uint64("a")), uintptr(nd.Uint64("b"))
		pair(a, b, a == b)
	case 11:
		a, b := nd.Float64("a"), nd.Float64("b")
		nd.Assume(a == a && b == b && a != 0)
		pair(a, b, a == b)
	case 12:
		a, b := nd.Float32("a"), nd.Float32("b")
		nd.Assume(a == a && b == b && a != 0)
		pair(a, b, a == b)
	case 13:
		a, b := nd.String("a", nd.Choose("la", nd.Q(2, 3))), nd.String("b", nd.Choose("lb", nd.Q(2, 3)))
		pair(a, b, a == b)
	}
	nd.Reach("end")
}

// Strings that the hash does not tell apart are still different keys.
func CheckCollidingStrings() {
	a, b := "8yn0iYCKYHlIj4-BwPqk", "GReLUrM4wMqfg9yzV3KQ"
	if nd.Bool("swap") {
		a, b = b, a
	}
	pair(a, b, false)
	nd.Reach("end")
}

// nil interface values are values.
func CheckNilValues() {
	k := nd.Int64("k")
	h := hashmap.NewLimitHashMapWithSegment[int64, error](2, 1)
	h.Put(k, nil)
	v, ok := h.Get(k)
	nd.Assert(ok && v == nil && h.Contains(k), "a nil value is stored")
	p, had := h.Put(k, nil)
	nd.Assert(had && p == nil && h.Len() == 1, "a nil value is overwritten")
	l := hashmap.NewLimitMap[int64, error](2)
	l.Put(k, nil)
	v, ok = l.Get(k)
	nd.Assert(ok && v == nil, "a nil value is stored")
	p, had = l.Put(k, nil)
	nd.Assert(had && p == nil && l.Len() == 1, "a nil value is overwritten")
	nd.Reach("end")
}

// ---- concurrency

func concurrent(m mapper[int64], capacity int, touch bool) {
	nd.Preemptions(nd.Q(2, 4))
	nd.RacesAreBugs()
	ks := &keyset[int64]{}
	for i := 0; i < 3; i++ {
		k := nd.Int64("key")
		nd.Assume(ks.class(k) == i)
	}
	init := &ref{cap: capacity, touch: touch}
	for i := 0; i < 2; i++ {
		v := nd.Uint64("init")
		m.Put(ks.reps[i], v)
		init.put(i, v)
	}
	mk := func(kind int) *lin.Op[*ref] {
		c := 0
		if kind < 3 {
			c = nd.Choose("cls", 3)
		}
		k := ks.reps[c]
		arg := nd.Uint64("arg")
		var val uint64
		var ok bool
		var n int
		o := &lin.Op[*ref]{}
		switch kind {
		case 0:
			o.Run = func() { val, ok = m.Put(k, arg) }
			o.Apply = func(r *ref) (*ref, bool) {
				r = r.copy()
				p, h := r.put(c, arg)
				return r, nd.And(ok == h, val == p)
			}
		case 1:
			o.Run = func() { val, ok = m.Get(k) }
			o.Apply = func(r *ref) (*ref, bool) {
				if i := r.find(c); i >= 0 {
					return r, nd.And(ok, val == r.list[i].val)
				}
				return r, !ok
			}
		case 2:
			o.Run = func() { m.Del(k) }
			o.Apply = func(r *ref) (*ref, bool) { r = r.copy(); r.del(c); return r, true }
		case 3:
			o.Run = func() { n = m.Len() }
			o.Apply = func(r *ref) (*ref, bool) { return r, n == len(r.list) }
		case 4:
			switch x := m.(type) {
			case interface{ RemoveMulti([]int64) }:
				o.Run = func() { x.RemoveMulti(ks.reps[:2]) }
				o.Apply = func(r *ref) (*ref, bool) { r = r.copy(); r.del(0); r.del(1); return r, true }
			case interface{ Clear() }:
				o.Run = func() { x.Clear() }
				o.Apply = func(r *ref) (*ref, bool) { r = r.copy(); r.list = nil; return r, true }
			}
		}
		return o
	}
	progs := [][]*lin.Op[*ref]{{mk(nd.Choose("op", 5))}, {mk(nd.Choose("op2", nd.Q(3, 5)))}}
	progs[0] = append(progs[0], mk(0))
	if nd.Thorough() {
		progs[1] = append(progs[1], mk(1))
	}
	ok := lin.Run(init, progs, func(r *ref) bool {
		okAll := m.Len() == len(r.list)
		for c, k := range ks.reps {
			v, ok := m.Get(k)
			if i := r.find(c); i >= 0 {
				okAll = nd.And(okAll, ok, v == r.list[i].val)
			} else {
				okAll = nd.And(okAll, !ok)
			}
		}
		return okAll
	})
	nd.Assert(ok, "concurrent operations are linearizable")
	nd.Assert(m.Len() <= capacity, "the capacity is never exceeded")
	nd.Reach("end")
}

func CheckLimitMapConc() {
	c := 2
	concurrent(hashmap.NewLimitMap[int64, uint64](c), c, true)
}
func CheckHashMapConc() {
	c := 2
	concurrent(hashmap.NewLimitHashMapWithSegment[int64, uint64](c, 1), c, false)
}

// Many entries.
func CheckMany() {
	nd.MaxMake(4096)
	c := []int{20, 70, 1000}[nd.Choose("cap", 3)]
	touch := nd.Bool("limitmap")
	var m mapper[int64]
	if touch {
		m = hashmap.NewLimitMap[int64, uint64](c)
	} else {
		m = hashmap.NewLimitHashMapWithSegment[int64, uint64](c, 1)
	}
	ks := &keyset[int64]{}
	for i := 0; i < 90; i++ {
		ks.class(int64(i - 40))
	}
	r := &ref{cap: c, touch: touch}
	for i := 0; i < 300; i++ {
		j := nd.Mix(i, 90)
		k := ks.reps[j]
		switch nd.Mix(i+1000, 6) {
		case 0:
			m.Del(k)
			r.del(j)
		case 1:
			v, ok := m.Get(k)
			x := r.find(j)
			nd.Assert(ok == (x >= 0), "Get finds exactly the present keys")
			nd.Assert(x < 0 || v == r.list[x].val, "Get returns the last value put")
		default:
			v := uint64(i) << 24
			if i%37 == 0 {
				v = nd.Uint64("v")
			}
			p, b := m.Put(k, v)
			wp, wb := r.put(j, v)
			nd.Assert(b == wb && p == wp, "Put returns the previous value")
		}
		nd.Assert(m.Len() == len(r.list), "Len is the number of entries")
	}
	compare(m, ks, r)
	nd.Reach("end")
}

// Many goroutines.
func CheckCrowd() {
	nd.RacesAreBugs()
	nd.MaxMake(4096)
	n, per := nd.Q(6, 8), 4
	c := []int{3, 8, 200}[nd.Choose("cap", 3)]
	var m mapper[int64]
	if nd.Bool("limitmap") {
		m = hashmap.NewLimitMap[int64, uint64](c)
	} else {
		m = hashmap.NewLimitHashMapWithSegment[int64, uint64](c, 1)
	}
	nd.Crowd(n, func(g int) {
		for i := 0; i < per; i++ {
			k, v := int64(i*n+g), uint64(g*100+i)
			m.Put(k, v)
			w, ok := m.Get(k)
			nd.Assert(!ok || w == v, "Get returns the last value put")
			nd.Assert(ok || c < 200, "nothing is dropped while there is room")
			nd.Assert(m.Len() <= c, "never more entries than the capacity")
			if i == 2 {
				m.Del(k)
				_, ok = m.Get(k)
				nd.Assert(!ok, "a deleted key is absent")
			}
		}
	})
	cnt := 0
	for k := int64(0); k < int64(n*per); k++ {
		v, ok := m.Get(k)
		if !ok {
			continue
		}
		cnt++
		nd.Assert(v == uint64(k)%uint64(n)*100+uint64(k)/uint64(n), "Get returns the last value put")
		nd.Assert(k/int64(n) != 2, "a deleted key is absent")
	}
	nd.Assert(m.Len() == cnt && cnt <= c, "Len is the number of entries")
	nd.Assert(c < 200 || cnt == n*(per-1), "nothing is dropped while there is room")
	nd.Reach("end")
}
