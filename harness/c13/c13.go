// Property C13: LimitLock admits at most its limit of holders and times out.
package c13

import (
	"sync"
	"time"

	"github.com/donnie4w/gofer/lock"
	_ "verif/model"
	"verif/nd"
)

// Without contention the lock behaves as a counter up to its limit.
func CheckSequential() {
	limit := nd.Choose("limit", nd.Q(4, 6))
	ll := lock.NewLimitLock(limit, time.Millisecond)
	held, granted := 0, 0
	for i := 0; i < nd.Q(5, 7); i++ {
		if nd.Bool("lock") {
			err := ll.Lock()
			nd.Assert((err == nil) == (held < limit), "Lock succeeds exactly while fewer than the limit hold it")
			if err == nil {
				held++
				granted++
			}
		} else if held > 0 {
			ll.Unlock()
			held--
		}
		nd.Assert(ll.Cc() == int64(held), "Cc is the number of holders")
		nd.Assert(ll.LockCount() == int64(granted), "LockCount is the number of successful locks")
	}
	nd.Reach("end")
}

// At most limit holders under every schedule and every timer expiry.
func exclusion(early bool, n int) {
	nd.Preemptions(nd.Q(2, 3))
	nd.RacesAreBugs()
	nd.EarlyTimers(early)
	limit := 1 + nd.Choose("limit", 2)
	ll := lock.NewLimitLock(limit, time.Second)
	inside, granted, failed := 0, 0, 0
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if ll.Lock() != nil {
				nd.Atomic(func() { failed++ })
				return
			}
			nd.Atomic(func() {
				inside++
				granted++
				nd.Assert(inside <= limit, "never more holders than the limit")
			})
			nd.Yield()
			nd.Atomic(func() { inside-- })
			ll.Unlock()
		}()
	}
	wg.Wait()
	if !early {
		nd.Assert(failed == 0, "a waiter is admitted as soon as a holder leaves")
	}
	nd.Assert(ll.Cc() == 0, "Cc is zero when nobody holds the lock")
	nd.Assert(ll.LockCount() == int64(granted), "LockCount counts exactly the successful locks")
	for i := 0; i < limit; i++ {
		nd.EarlyTimers(false)
		nd.Assert(ll.Lock() == nil, "no slot is lost, also not by a timeout")
	}
	nd.Reach("end")
}

func CheckExclusion() { exclusion(false, nd.Q(3, 4)) }
func CheckTimeouts()  { exclusion(true, nd.Q(2, 3)) }

// The counters may be read at any time.
func CheckCounters() {
	nd.Preemptions(nd.Q(2, 3))
	nd.RacesAreBugs()
	ll := lock.NewLimitLock(2, time.Second)
	done := make(chan bool)
	go func() {
		ll.Lock()
		ll.Unlock()
		ll.Lock()
		done <- true
	}()
	n := ll.LockCount()
	ll.Cc()
	nd.Assert(n >= 0 && n <= 2, "LockCount stays in range")
	<-done
	nd.Assert(ll.LockCount() == 2 && ll.Cc() == 1, "counters are exact when no operation is in progress")
	nd.Reach("end")
}

// A waiter that times out does so, and a later unlock does not admit it.
func CheckTimeoutFires() {
	nd.Preemptions(nd.Q(2, 3))
	ll := lock.NewLimitLock(1, time.Second)
	ll.Lock()
	errs := make(chan error, 1)
	go func() { errs <- ll.Lock() }()
	nd.Assert(ll.LockCount() == 1, "a lock that waits does not count as successful")
	nd.Assert(<-errs != nil, "a waiter gives up after the timeout")
	ll.Unlock()
	nd.Assert(ll.Lock() == nil, "the slot of the holder is free again")
	nd.Reach("end")
}

// Every waiter gives up after its own timeout, also when others wait and come
// and go at the same time.
func CheckSeveralTimeouts() {
	nd.Preemptions(nd.Q(1, 2))
	nd.RacesAreBugs()
	limit := 1 + nd.Choose("limit", 2)
	ll := lock.NewLimitLock(limit, 40*time.Millisecond)
	for i := 0; i < limit; i++ {
		nd.Assert(ll.Lock() == nil, "Lock succeeds while a slot is free")
	}
	n := 2 + nd.Choose("waiters", nd.Q(2, 3))
	errs := make([]error, n)
	late := nd.Bool("late")
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if late && i > 0 {
				time.Sleep(25 * time.Millisecond)
			}
			s := time.Now()
			errs[i] = ll.Lock()
			d := time.Since(s)
			nd.Assert(errs[i] == nil || d >= 40*time.Millisecond, "Lock does not give up before its timeout")
			nd.Assert(d <= 40*time.Millisecond || !nd.Symbolic(), "Lock returns after its timeout")
		}()
	}
	free := nd.Bool("free")
	if free {
		time.Sleep(20 * time.Millisecond)
		ll.Unlock()
	}
	wg.Wait()
	got := 0
	for _, err := range errs {
		if err == nil {
			got++
		}
	}
	if free {
		nd.Assert(got == 1, "Lock succeeds when a slot becomes free in time")
	} else {
		nd.Assert(got == 0, "a waiter gives up after the timeout")
	}
	nd.Assert(ll.Cc() == int64(limit), "Cc is the number of holders")
	nd.Reach("end")
}

// Many goroutines, with and without early timer expiry.
func CheckCrowd() {
	nd.RacesAreBugs()
	n := nd.Q(6, 10)
	limit := 1 + nd.Choose("limit", nd.Q(4, 6))
	ll := lock.NewLimitLock(limit, time.Second)
	inside, granted, failed := 0, 0, 0
	rounds := 2
	nd.Crowd(n, func(g int) {
		for i := 0; i < rounds; i++ {
			if ll.Lock() != nil {
				nd.Atomic(func() { failed++ })
				continue
			}
			nd.Atomic(func() {
				inside++
				granted++
				nd.Assert(inside <= limit, "at most limit goroutines hold the lock")
			})
			nd.Yield()
			nd.Atomic(func() { inside-- })
			ll.Unlock()
		}
	})
	nd.Assert(granted+failed == n*rounds, "every Lock returns")
	nd.Assert(ll.Cc() == 0, "Cc is 0 when nobody holds the lock")
	nd.Assert(ll.LockCount() == int64(granted), "LockCount is the number of successful locks")
	for i := 0; i < limit; i++ {
		nd.Assert(ll.Lock() == nil, "all places are free again")
	}
	nd.Reach("end")
}
