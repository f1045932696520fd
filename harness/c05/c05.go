// Property C05: the synchronized maps behave as a map, sequentially and under
// concurrency, and the counting map's length is the number of its entries.
package c05

import (
	"sync"

	"github.com/donnie4w/gofer/hashmap"
	_ "verif/model"
	"verif/nd"
)

// ref is the reference map: the entries in insertion order, keys by class.
type ref[K comparable] struct {
	keys  []K // one representative per class
	has   []bool
	vals  []uint64
	count int
}

func (r *ref[K]) class(k K) int {
	for i := range r.keys {
		if r.keys[i] == k {
			return i
		}
	}
	r.keys = append(r.keys, k)
	r.has = append(r.has, false)
	r.vals = append(r.vals, 0)
	return len(r.keys) - 1
}

type mapper[K comparable] interface {
	Put(K, uint64) (uint64, bool)
	Get(K) (uint64, bool)
	Has(K) bool
	Del(K) bool
	Range(func(K, uint64) bool)
}

func (r *ref[K]) checkRange(m mapper[K]) {
	seen := make([]bool, len(r.keys))
	n := 0
	m.Range(func(k K, v uint64) bool {
		c := r.class(k)
		nd.Assert(c < len(seen) && r.has[c], "Range visits only present keys")
		nd.Assert(!seen[c], "Range visits each key once")
		seen[c] = true
		nd.Assert(v == r.vals[c], "Range hands over the stored value")
		n++
		return true
	})
	nd.Assert(n == r.count, "Range visits every present key")
	n = 0
	m.Range(func(k K, v uint64) bool { n++; return false })
	want := 1
	if r.count == 0 {
		want = 0
	}
	nd.Assert(n == want, "Range stops when the callback returns false")
}

func drive[K comparable](m mapper[K], length func() int64, key func() K, steps int) {
	r := &ref[K]{}
	for i := 0; i < steps; i++ {
		op := nd.Choose("op", 4)
		k := key()
		c := r.class(k)
		switch op {
		case 0:
			v := nd.Uint64("v")
			p, b := m.Put(k, v)
			nd.Assert(b == r.has[c], "Put reports whether the key was present")
			if r.has[c] {
				nd.Assert(p == r.vals[c], "Put returns the previous value")
			} else {
				nd.Assert(p == 0, "Put of a new key returns the zero value")
				r.count++
			}
			r.has[c], r.vals[c] = true, v
		case 1:
			ok := m.Del(k)
			nd.Assert(ok == r.has[c], "Del reports whether the key was present")
			if r.has[c] {
				r.count--
			}
			r.has[c], r.vals[c] = false, 0
		case 2:
			v, b := m.Get(k)
			nd.Assert(b == r.has[c], "Get finds exactly the present keys")
			nd.Assert(v == r.vals[c], "Get returns the last stored value")
		case 3:
			nd.Assert(m.Has(k) == r.has[c], "Has finds exactly the present keys")
		}
		if length != nil {
			nd.Assert(length() == int64(r.count), "Len is the number of entries")
		}
	}
	for c := range r.keys {
		v, b := m.Get(r.keys[c])
		nd.Assert(b == r.has[c], "Get finds exactly the present keys")
		nd.Assert(v == r.vals[c], "Get returns the last stored value")
		nd.Assert(m.Has(r.keys[c]) == r.has[c], "Has finds exactly the present keys")
	}
	r.checkRange(m)
	nd.Reach("end")
}

func CheckMapSeq() {
	nd.MapOrder(true)
	drive[int64](hashmap.NewMap[int64, uint64](), nil, func() int64 { return nd.Int64("k") }, nd.Q(4, 6))
}

func CheckMapLSeq() {
	nd.MapOrder(true)
	m := hashmap.NewMapL[int64, uint64]()
	nd.Assert(m.Len() == 0, "a new map is empty")
	drive[int64](m, m.Len, func() int64 { return nd.Int64("k") }, nd.Q(4, 6))
}

func CheckMapLStrings() {
	m := hashmap.NewMapL[string, uint64]()
	drive[string](m, m.Len, func() string { return nd.String("k", nd.Choose("len", 2)) }, nd.Q(3, 4))
}

// nil interface values are values: the key is present, the value reads as nil.
func CheckNilValues() {
	k := nd.Int64("k")
	m, ml := hashmap.NewMap[int64, error](), hashmap.NewMapL[int64, error]()
	_, ok := m.Put(k, nil)
	nd.Assert(!ok, "there was no value before")
	_, ok = ml.Put(k, nil)
	nd.Assert(!ok, "there was no value before")
	v, ok := m.Get(k)
	nd.Assert(ok && v == nil && m.Has(k), "a nil value is stored")
	v, ok = ml.Get(k)
	nd.Assert(ok && v == nil && ml.Has(k) && ml.Len() == 1, "a nil value is stored")
	n := 0
	m.Range(func(kk int64, v error) bool {
		nd.Assert(kk == k && v == nil, "Range shows nil values")
		n++
		return true
	})
	ml.Range(func(kk int64, v error) bool {
		nd.Assert(kk == k && v == nil, "Range shows nil values")
		n++
		return true
	})
	nd.Assert(n == 2, "Range shows nil values")
	v, ok = ml.Put(k, nil)
	nd.Assert(ok && v == nil, "Put reports a nil value that existed")
	v, ok = m.Put(k, nil)
	nd.Assert(ok && v == nil, "Put reports a nil value that existed")
	nd.Assert(ml.Len() == 1, "overwriting a nil value keeps the length")
	nd.Assert(m.Del(k) && ml.Del(k) && ml.Len() == 0, "a nil value is deleted")
	nd.Reach("end")
}

// ---- concurrency: every history of two goroutines linearizes.

type opRec struct {
	kind, key int
	arg       uint64
	val       uint64
	ok        bool
	inv, ret  int
}

// linearizable searches for an order of the records, compatible with their
// intervals, that the reference map explains, ending in the given final state.
func linearizable(ops []*opRec, has [2]bool, vals [2]uint64, final func(has [2]bool, vals [2]uint64) bool) bool {
	if len(ops) == 0 {
		return final(has, vals)
	}
	res := false
	for i, o := range ops {
		first := true
		for _, p := range ops {
			if p.ret < o.inv {
				first = false
			}
		}
		if !first {
			continue
		}
		h, v := has, vals
		good := true
		switch o.kind {
		case 0:
			good = nd.And(o.ok == has[o.key], o.val == vals[o.key])
			h[o.key], v[o.key] = true, o.arg
		case 1:
			good = o.ok == has[o.key]
			h[o.key], v[o.key] = false, 0
		case 2:
			good = nd.And(o.ok == has[o.key], o.val == vals[o.key])
		case 3:
			good = o.ok == has[o.key]
		}
		rest := append(append([]*opRec{}, ops[:i]...), ops[i+1:]...)
		res = nd.Or(res, nd.And(good, linearizable(rest, h, v, final)))
	}
	return res
}

func concurrent(m mapper[int64], length func() int64) {
	nd.Preemptions(nd.Q(3, 5))
	keys := [2]int64{nd.Int64("k0"), nd.Int64("k1")}
	nd.Assume(keys[0] != keys[1])
	v0 := nd.Uint64("init")
	m.Put(keys[0], v0)
	clock := 0
	var recs []*opRec
	plan := func(kinds, n int) []*opRec {
		var l []*opRec
		for i := 0; i < n; i++ {
			o := &opRec{kind: nd.Choose("kind", kinds)}
			if i == 0 {
				o.key = 0
			} else {
				o.key = nd.Choose("key", 2)
			}
			if o.kind == 0 {
				o.arg = nd.Uint64("arg")
			}
			l = append(l, o)
			recs = append(recs, o)
		}
		return l
	}
	run := func(l []*opRec) {
		for _, o := range l {
			nd.Atomic(func() { clock++; o.inv = clock })
			k := keys[o.key]
			switch o.kind {
			case 0:
				o.val, o.ok = m.Put(k, o.arg)
			case 1:
				o.ok = m.Del(k)
			case 2:
				o.val, o.ok = m.Get(k)
			case 3:
				o.ok = m.Has(k)
			}
			nd.Atomic(func() { clock++; o.ret = clock })
		}
	}
	a, b := plan(4, 2), plan(2, nd.Q(1, 2))
	var wg sync.WaitGroup
	wg.Add(2)
	go func() { defer wg.Done(); run(a) }()
	go func() { defer wg.Done(); run(b) }()
	wg.Wait()
	var has [2]bool
	var vals [2]uint64
	n := int64(0)
	for i := range keys {
		vals[i], has[i] = m.Get(keys[i])
		if has[i] {
			n++
		}
	}
	if length != nil {
		nd.Assert(length() == n, "at quiescence Len is the number of entries")
	}
	ok := linearizable(recs, [2]bool{true, false}, [2]uint64{v0, 0}, func(h [2]bool, v [2]uint64) bool {
		return nd.And(h[0] == has[0], h[1] == has[1], v[0] == vals[0], v[1] == vals[1])
	})
	nd.Assert(ok, "concurrent operations are linearizable")
	nd.Reach("end")
}

func CheckMapConc() { concurrent(hashmap.NewMap[int64, uint64](), nil) }
func CheckMapLConc() {
	m := hashmap.NewMapL[int64, uint64]()
	concurrent(m, m.Len)
}

// Len may be called while others write.
func CheckLenConc() {
	nd.Preemptions(3)
	nd.RacesAreBugs()
	m := hashmap.NewMapL[int64, uint64]()
	k0, k1 := nd.Int64("k0"), nd.Int64("k1")
	nd.Assume(k0 != k1)
	var wg sync.WaitGroup
	wg.Add(2)
	go func() { defer wg.Done(); m.Put(k0, 1); m.Put(k1, 1) }()
	go func() { defer wg.Done(); m.Put(k0, 2); m.Del(k1) }()
	n := m.Len()
	nd.Assert(n >= 0 && n <= 2, "Len stays within what was stored")
	wg.Wait()
	nd.Reach("end")
}

// Many entries.
func CheckMany() {
	nd.MaxMake(4096)
	var m mapper[int64] = hashmap.NewMap[int64, uint64]()
	var length func() int64
	if nd.Bool("counting") {
		l := hashmap.NewMapL[int64, uint64]()
		m, length = l, l.Len
	}
	const keys = 90
	var has [keys]bool
	var vals [keys]uint64
	n := 0
	for i := 0; i < 400; i++ {
		k := nd.Mix(i, keys)
		if nd.Mix(i+1000, 3) == 0 {
			nd.Assert(m.Del(int64(k-40)) == has[k], "Del reports whether the key was present")
			if has[k] {
				n--
			}
			has[k], vals[k] = false, 0
		} else {
			v := uint64(i) << 24
			if i%37 == 0 {
				v = nd.Uint64("v")
			}
			p, b := m.Put(int64(k-40), v)
			nd.Assert(b == has[k] && p == vals[k], "Put returns the previous value")
			if !has[k] {
				n++
			}
			has[k], vals[k] = true, v
		}
		nd.Assert(length == nil || length() == int64(n), "Len is the number of entries")
	}
	for k := range has {
		v, ok := m.Get(int64(k - 40))
		nd.Assert(ok == has[k] && v == vals[k], "Get returns the last stored value")
	}
	visited := 0
	m.Range(func(k int64, v uint64) bool {
		visited++
		nd.Assert(has[k+40] && vals[k+40] == v, "Range hands over the stored value")
		return true
	})
	nd.Assert(visited == n, "Range visits every present key")
	nd.Reach("end")
}

// Many goroutines, each with keys of its own next to those of the others.
func CheckCrowd() {
	nd.RacesAreBugs()
	n, per := nd.Q(6, 10), 4
	var m mapper[int64] = hashmap.NewMap[int64, uint64]()
	var length func() int64
	if nd.Bool("counting") {
		l := hashmap.NewMapL[int64, uint64]()
		m, length = l, l.Len
	}
	m.Put(-1, 9)
	nd.Crowd(n, func(g int) {
		for i := 0; i < per; i++ {
			k, v := int64(i*n+g), uint64(g*100+i)
			_, had := m.Put(k, v)
			nd.Assert(!had, "Put reports whether the key was present")
			w, ok := m.Get(k)
			nd.Assert(ok && w == v, "Get returns the last value put")
			if i > 0 {
				nd.Assert(m.Del(k-int64(n)), "Del reports whether the key was present")
			}
			if i%2 == 0 {
				m.Put(-1, v)
			} else {
				m.Del(-1)
			}
		}
		if length != nil {
			l := length()
			nd.Assert(l >= 0 && l <= int64(2*n+1), "Len stays within what was stored")
		}
	})
	cnt := int64(0)
	for k := int64(-1); k < int64(n*per); k++ {
		v, ok := m.Get(k)
		if k >= 0 {
			last := k >= int64(n*(per-1))
			nd.Assert(ok == last, "exactly the keys put and not deleted are present")
			nd.Assert(!ok || v == uint64(k%int64(n)*100)+uint64(per-1), "Get returns the last value put")
		}
		if ok {
			cnt++
		}
	}
	nd.Assert(length == nil || length() == cnt, "at quiescence Len is the number of entries")
	nd.Reach("end")
}
