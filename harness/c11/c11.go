// Property C11: LruCache is a bounded map that drops the least recently used entry.
package c11

import (
	"fmt"

	"github.com/donnie4w/gofer/cache"
	"verif/lin"
	_ "verif/model"
	"verif/nd"
)

type kv[K comparable] struct {
	k K
	v uint64
}

// ref is the reference: newest use first; limit 0 is unlimited.
type ref[K comparable] struct {
	l     []kv[K]
	limit int
}

func (r *ref[K]) copy() *ref[K] {
	return &ref[K]{append([]kv[K]{}, r.l...), r.limit}
}

func (r *ref[K]) take(k K) (e kv[K], ok bool) {
	for i, x := range r.l {
		if x.k == k {
			r.l = append(append([]kv[K]{}, r.l[:i]...), r.l[i+1:]...)
			return x, true
		}
	}
	return
}

func (r *ref[K]) add(k K, v uint64) {
	r.take(k)
	r.l = append([]kv[K]{{k, v}}, r.l...)
	if r.limit != 0 && len(r.l) > r.limit {
		r.l = r.l[:len(r.l)-1]
	}
}

func (r *ref[K]) get(k K) (v uint64, ok bool) {
	if e, ok := r.take(k); ok {
		r.l = append([]kv[K]{e}, r.l...)
		return e.v, true
	}
	return 0, false
}

// history compares n operations with the reference; keys come from gen.
func history[K comparable](n, limit int, gen func(string) K) {
	c := cache.NewLruCache[uint64](limit)
	r := &ref[K]{limit: limit}
	var keys []K
	for i := 0; i < n; i++ {
		op := nd.Choose("op", 3)
		k := gen("key")
		keys = append(keys, k)
		switch op {
		case 0:
			v := nd.Uint64("val")
			c.Add(k, v)
			r.add(k, v)
		case 1:
			v, ok := c.Get(k)
			w, rok := r.get(k)
			nd.Assert(ok == rok, "Get finds exactly the entries added and neither removed nor evicted")
			nd.Assert(v == w, "Get returns the value last added, or zero")
		case 2:
			c.Remove(k)
			r.take(k)
		}
	}
	for _, k := range keys {
		v, ok := c.Get(k)
		w, rok := r.get(k)
		nd.Assert(ok == rok, "the cache holds exactly the most recently used entries")
		nd.Assert(v == w, "the cache holds the last added values")
	}
	nd.Reach("end")
}

func CheckIntKeys() {
	history(nd.Q(4, 5), nd.Choose("limit", 4), func(n string) int64 { return nd.Int64(n) })
}

func CheckStringKeys() {
	history(nd.Q(4, 5), 1+nd.Choose("limit", 2), func(n string) string { return nd.String(n, nd.Choose("len", 2)) })
}

// Filling a cache beyond its limit, with uses in between.
func CheckEviction() {
	limit := 1 + nd.Choose("limit", nd.Q(3, 4))
	c := cache.NewLruCache[uint64](limit)
	r := &ref[int64]{limit: limit}
	for i := 0; i < limit+2; i++ {
		k, v := nd.Int64("k"), nd.Uint64("v")
		c.Add(k, v)
		r.add(k, v)
		u := nd.Int64("use")
		x, ok := c.Get(u)
		y, rok := r.get(u)
		nd.Assert(ok == rok && x == y, "the least recently used entry is evicted, only beyond the limit")
	}
	nd.Reach("end")
}

// Removing several string keys; other keys, also of other types, stay.
func CheckRemoveMulti() {
	c := cache.NewLruCache[uint64](0)
	n := nd.Q(2, 3)
	r := &ref[string]{}
	for i := 0; i < 3; i++ {
		k := nd.String(fmt.Sprint("k", i), 1)
		c.Add(k, uint64(i))
		r.add(k, uint64(i))
	}
	c.Add(7, 70)
	var del []string
	for i := 0; i < n; i++ {
		d := nd.String("del", 1)
		del = append(del, d)
		r.take(d)
	}
	c.RemoveMulti(del)
	p := nd.String("probe", 1)
	v, ok := c.Get(p)
	w, rok := r.get(p)
	nd.Assert(ok == rok && v == w, "RemoveMulti removes exactly the listed keys")
	v, ok = c.Get(7)
	nd.Assert(ok && v == 70, "RemoveMulti keeps keys of other types")
	nd.Reach("end")
}

// A nil key is ignored; nil values of interface type are found.
func CheckNil() {
	c := cache.NewLruCache[any](2)
	c.Add("a", 1)
	c.Add("b", nil)
	c.Add(nil, 3)
	v, ok := c.Get("a")
	nd.Assert(ok && v == 1, "adding under a nil key changes nothing")
	v, ok = c.Get("b")
	nd.Assert(ok && v == nil, "a nil value is found")
	_, ok = c.Get(nil)
	nd.Assert(!ok, "a nil key is never found")
	nd.Reach("end")
}

type S = *ref[int64]

// Concurrent operations are linearizable and race-free.
func CheckConc() {
	nd.Preemptions(nd.Q(2, 3))
	nd.RacesAreBugs()
	c := cache.NewLruCache[uint64](2)
	init := &ref[int64]{limit: 2}
	a, b := int64(1), int64(2)
	c.Add(a, 1)
	c.Add(b, 2)
	init.add(a, 1)
	init.add(b, 2)
	mk := func(kind int) *lin.Op[S] {
		o := &lin.Op[S]{}
		k := []int64{1, 2, 3}[nd.Choose("which", 3)]
		arg := nd.Uint64("arg")
		var val uint64
		var ok bool
		switch kind {
		case 0:
			o.Run = func() { c.Add(k, arg) }
			o.Apply = func(r S) (S, bool) { r = r.copy(); r.add(k, arg); return r, true }
		case 1:
			o.Run = func() { val, ok = c.Get(k) }
			o.Apply = func(r S) (S, bool) {
				r = r.copy()
				w, h := r.get(k)
				return r, nd.And(ok == h, val == w)
			}
		case 2:
			o.Run = func() { c.Remove(k) }
			o.Apply = func(r S) (S, bool) { r = r.copy(); r.take(k); return r, true }
		case 3:
			o.Run = func() { c.RemoveMulti([]string{"x"}) }
			o.Apply = func(r S) (S, bool) { return r, true }
		}
		return o
	}
	first := []*lin.Op[S]{mk(nd.Choose("op", 4)), mk(0)}
	progs := [][]*lin.Op[S]{first, {mk(nd.Choose("op2", 3))}}
	done := func(r S) bool {
		good := true
		for k := int64(1); k <= 3; k++ {
			v, ok := c.Get(k)
			i, h := 0, false
			for j := range r.l {
				if r.l[j].k == k {
					i, h = j, true
				}
			}
			good = nd.And(good, ok == h)
			if h {
				good = nd.And(good, v == r.l[i].v)
			}
		}
		return good
	}
	nd.Assert(lin.Run(init, progs, done), "concurrent operations are linearizable")
	nd.Reach("end")
}

// RemoveMulti is one operation.
func CheckMultiConc() {
	nd.Preemptions(nd.Q(2, 3))
	nd.RacesAreBugs()
	type S = *ref[string]
	limit := 2 + nd.Choose("limit", 2)
	c := cache.NewLruCache[uint64](limit)
	init := &ref[string]{limit: limit}
	keys := []string{"a", "b", "c"}[:limit]
	for i, k := range keys {
		c.Add(k, uint64(i))
		init.add(k, uint64(i))
	}
	multi := &lin.Op[S]{Run: func() { c.RemoveMulti(keys) }, Apply: func(r S) (S, bool) {
		r = r.copy()
		for _, k := range keys {
			r.take(k)
		}
		return r, true
	}}
	mk := func(i int) *lin.Op[S] {
		k := keys[nd.Choose("key", limit)]
		if nd.Bool("add") {
			return &lin.Op[S]{Run: func() { c.Add(k, uint64(9+i)) }, Apply: func(r S) (S, bool) {
				r = r.copy()
				r.add(k, uint64(9+i))
				return r, true
			}}
		}
		var v uint64
		var ok bool
		return &lin.Op[S]{Run: func() { v, ok = c.Get(k) }, Apply: func(r S) (S, bool) {
			r = r.copy()
			w, h := r.get(k)
			return r, nd.And(ok == h, v == w)
		}}
	}
	done := func(r S) bool {
		good := true
		for _, k := range keys {
			v, ok := c.Get(k)
			w, h := r.copy().get(k)
			good = nd.And(good, ok == h, v == w)
		}
		return good
	}
	nd.Assert(lin.Run(init, [][]*lin.Op[S]{{multi}, {mk(0), mk(1)}}, done), "concurrent operations are linearizable")
	nd.Reach("end")
}

// Many entries.
func CheckMany() {
	nd.MaxMake(4096)
	limit := []int{0, 20, 70, 1000}[nd.Choose("limit", 4)]
	c := cache.NewLruCache[uint64](limit)
	r := &ref[int]{limit: limit}
	for i := 0; i < 300; i++ {
		k := nd.Mix(i, 90)
		switch nd.Mix(i+1000, 6) {
		case 0:
			c.Remove(k)
			r.take(k)
		case 1, 2:
			v, ok := c.Get(k)
			w, has := r.get(k)
			nd.Assert(ok == has && v == w, "Get returns the last value added")
		default:
			v := uint64(i) << 24
			if i%37 == 0 {
				v = nd.Uint64("v")
			}
			c.Add(k, v)
			r.add(k, v)
		}
	}
	for k := 0; k < 90; k++ {
		v, ok := c.Get(k)
		w, has := r.get(k)
		nd.Assert(ok == has && v == w, "exactly the least recently used entries are gone")
	}
	nd.Reach("end")
}

// Many goroutines.
func CheckCrowd() {
	nd.RacesAreBugs()
	nd.MaxMake(4096)
	n, per := nd.Q(6, 8), 4
	limit := []int{0, 3, 8, 200}[nd.Choose("limit", 4)]
	c := cache.NewLruCache[uint64](limit)
	roomy := limit == 0 || limit == 200
	nd.Crowd(n, func(g int) {
		for i := 0; i < per; i++ {
			k, v := i*n+g, uint64(g*100+i)
			c.Add(k, v)
			w, ok := c.Get(k)
			nd.Assert(!ok || w == v, "Get returns the last value added")
			nd.Assert(ok || !roomy, "nothing is dropped while there is room")
			if i == 2 {
				c.Remove(k)
				_, ok = c.Get(k)
				nd.Assert(!ok, "a removed key is absent")
			}
		}
	})
	cnt := 0
	for k := 0; k < n*per; k++ {
		v, ok := c.Get(k)
		if ok {
			cnt++
			nd.Assert(v == uint64(k%n*100+k/n) && k/n != 2, "Get returns the last value added")
		}
	}
	if roomy {
		nd.Assert(cnt == n*(per-1), "nothing is dropped while there is room")
	} else {
		nd.Assert(cnt <= limit, "never more entries than the limit")
	}
	nd.Reach("end")
}
