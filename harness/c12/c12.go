// Property C12: key locks exclude each other per key.
package c12

import (
	"sync"

	"github.com/donnie4w/gofer/lock"
	_ "verif/model"
	"verif/nd"
)

// counter detects overlap: write sections are alone, read sections only with readers.
type counter struct{ w, r int }

func (c *counter) write() {
	nd.Atomic(func() {
		nd.Assert(c.w == 0 && c.r == 0, "a write-locked section runs alone for its key")
		c.w++
	})
	nd.Yield()
	nd.Atomic(func() { c.w-- })
}

func (c *counter) read() {
	nd.Atomic(func() {
		nd.Assert(c.w == 0, "no write-locked section overlaps a read-locked one of the same key")
		c.r++
	})
	nd.Yield()
	nd.Atomic(func() { c.r-- })
}

// Any key, any number of mutexes: lock and unlock address the same mutex, a
// second attempt on the same key fails until the unlock.
func CheckNumSequential() {
	n := 1 + nd.Choose("n", nd.Q(5, 9))
	nl := lock.NewNumLock(n)
	k := nd.Int64("key")
	l := nl.Lock(k)
	nd.Assert(l != nil, "Lock returns the held mutex")
	m, ok := nl.TryLock(k)
	nd.Assert(!ok && m == nil, "TryLock of a held key fails")
	nl.Unlock(k)
	m, ok = nl.TryLock(k)
	nd.Assert(ok && m == l, "TryLock of a released key succeeds with the key's mutex")
	m.Unlock()
	l = nl.Lock(k)
	l.Unlock()
	m, ok = nl.TryLock(k)
	nd.Assert(ok, "the returned mutex releases the key")
	nl.Unlock(k)
	nd.Reach("end")
}

func CheckStrSequential() {
	n := 1 + nd.Choose("n", nd.Q(4, 8))
	sl := lock.NewStrlock(n)
	k := nd.String("key", nd.Choose("len", nd.Q(4, 6)))
	l := sl.Lock(k)
	m, ok := sl.TryLock(k)
	nd.Assert(!ok && m == nil, "TryLock of a held key fails")
	m, ok = sl.TryRLock(k)
	nd.Assert(!ok && m == nil, "TryRLock of a write-locked key fails")
	sl.Unlock(k)
	m = sl.RLock(k)
	nd.Assert(m == l, "read and write locks of a key share the mutex")
	_, ok = sl.TryLock(k)
	nd.Assert(!ok, "TryLock of a read-locked key fails")
	m, ok = sl.TryRLock(k)
	nd.Assert(ok && m == l, "readers share")
	sl.RUnlock(k)
	_, ok = sl.TryLock(k)
	nd.Assert(!ok, "TryLock fails while one reader is left")
	sl.RUnlock(k)
	m, ok = sl.TryLock(k)
	nd.Assert(ok && m == l, "TryLock of a released key succeeds")
	m.Unlock()
	_, ok = sl.TryRLock(k)
	nd.Assert(ok, "the returned mutex releases the key")
	nd.Reach("end")
}

// Different keys that share no mutex do not block each other: with n mutexes
// and consecutive keys.
func CheckNumIndependent() {
	n := 3 + nd.Choose("n", 2)
	nl := lock.NewNumLock(n)
	k := nd.Int64("key")
	nd.Assume(k < 1<<63-2)
	if n == 3 { // the residues are out of step where the sign changes
		nd.Assume(nd.Or(k >= 0, k < -2))
	}
	nl.Lock(k)
	_, ok := nl.TryLock(k + 1)
	nd.Assert(ok, "neighbouring keys do not block each other")
	_, ok = nl.TryLock(k + 2)
	nd.Assert(ok, "neighbouring keys do not block each other")
	nl.Unlock(k + 1)
	nl.Unlock(k)
	nl.Unlock(k + 2)
	nd.Reach("end")
}

// Mutual exclusion per key under every schedule.
func CheckNumExclusion() {
	nd.Preemptions(nd.Q(2, 4))
	nd.RacesAreBugs()
	nl := lock.NewNumLock(1 + nd.Choose("n", nd.Q(2, 3)))
	k := []int64{-1, 5}[nd.Choose("key", nd.Q(1, 2))]
	var c counter
	shared := 0
	var wg sync.WaitGroup
	n := nd.Q(2, 3)
	kinds := make([]int, n)
	for i := range kinds {
		kinds[i] = nd.Choose("kind", 3)
	}
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			switch kinds[i] {
			case 0:
				nl.Lock(k)
				shared++
				c.write()
				nl.Unlock(k)
			case 1:
				l := nl.Lock(k)
				shared++
				c.write()
				l.Unlock()
			case 2:
				if _, ok := nl.TryLock(k); ok {
					shared++
					c.write()
					nl.Unlock(k)
				}
			}
		}()
	}
	wg.Wait()
	_, ok := nl.TryLock(k)
	nd.Assert(ok, "all locks were released")
	nd.Reach("end")
}

func CheckStrExclusion() {
	nd.Preemptions(nd.Q(2, 3))
	nd.RacesAreBugs()
	sl := lock.NewStrlock(1 + nd.Choose("n", nd.Q(1, 2)))
	k := "k"
	var c counter
	shared := 0
	var wg sync.WaitGroup
	n := nd.Q(2, 3)
	kinds := make([]int, n)
	for i := range kinds {
		kinds[i] = nd.Choose("kind", 4)
	}
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			switch kinds[i] {
			case 0:
				sl.Lock(k)
				shared++
				c.write()
				sl.Unlock(k)
			case 1:
				sl.RLock(k)
				_ = shared
				c.read()
				sl.RUnlock(k)
			case 2:
				if _, ok := sl.TryLock(k); ok {
					shared++
					c.write()
					sl.Unlock(k)
				}
			case 3:
				if _, ok := sl.TryRLock(k); ok {
					_ = shared
					c.read()
					sl.RUnlock(k)
				}
			}
		}()
	}
	wg.Wait()
	_, ok := sl.TryLock(k)
	nd.Assert(ok, "all locks were released")
	nd.Reach("end")
}

// Two readers of a key are inside at the same time.
func CheckReadersShare() {
	nd.Preemptions(nd.Q(2, 3))
	sl := lock.NewStrlock(2)
	sl.RLock("k")
	done := make(chan bool, 1)
	go func() {
		sl.RLock("k")
		sl.RUnlock("k")
		done <- true
	}()
	<-done // a deadlock if readers excluded each other
	sl.RUnlock("k")
	nd.Reach("end")
}

// Many goroutines.
func CheckCrowd() {
	nd.RacesAreBugs()
	n := nd.Q(6, 10)
	str := nd.Bool("str")
	muxes := 1
	if !str {
		muxes += nd.Choose("muxes", 3)
	}
	if str {
		sl := lock.NewStrlock(muxes)
		var cs [2]counter
		nd.Crowd(n, func(g int) {
			k, c := []string{"a", "b"}[g%2], &cs[g%2]
			for i := 0; i < 3; i++ {
				switch (g/2 + i) % 3 {
				case 0:
					sl.Lock(k)
					c.write()
					sl.Unlock(k)
				case 1:
					sl.RLock(k)
					c.read()
					sl.RUnlock(k)
				case 2:
					if m, ok := sl.TryLock(k); ok {
						c.write()
						m.Unlock()
					}
					if _, ok := sl.TryRLock(k); ok {
						c.read()
						sl.RUnlock(k)
					}
				}
			}
		})
		for _, k := range []string{"a", "b"} {
			m, ok := sl.TryLock(k)
			nd.Assert(ok, "all locks were released")
			m.Unlock()
		}
	} else {
		nl := lock.NewNumLock(muxes)
		var cs [2]counter
		nd.Crowd(n, func(g int) {
			k, c := int64(g%2), &cs[g%2]
			for i := 0; i < 3; i++ {
				if (g/2+i)%3 < 2 {
					nl.Lock(k)
					c.write()
					nl.Unlock(k)
				} else if m, ok := nl.TryLock(k); ok {
					c.write()
					m.Unlock()
				}
			}
		})
		for k := int64(0); k < 2; k++ {
			m, ok := nl.TryLock(k)
			nd.Assert(ok, "all locks were released")
			m.Unlock()
		}
	}
	nd.Reach("end")
}
