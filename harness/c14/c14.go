// Property C14: Await and FastAwait hand a value from the sender to the waiter of the same id.
package c14

import (
	"context"
	"sync"
	"time"

	"github.com/donnie4w/gofer/lock"
	_ "verif/model"
	"verif/nd"
)

type awaiter interface {
	Wait(int64, time.Duration) (uint64, error)
	WaitWithCancel(context.Context, int64, time.Duration) (uint64, bool, error)
	CloseAndPut(int64, uint64) error
	Close(int64) error
}

func mk(items uint64) (awaiter, *lock.Await[uint64]) {
	if nd.Bool("fast") {
		return lock.NewFastAwait2[uint64](items), nil
	}
	a := lock.NewAwait[uint64](1 + nd.Choose("mux", 2))
	return a, a
}

func wait(a awaiter, at *lock.Await[uint64], how int, id int64, timeout time.Duration) (uint64, error) {
	switch how {
	case 0:
		return a.Wait(id, timeout)
	case 1:
		v, c, err := a.WaitWithCancel(context.Background(), id, timeout)
		nd.Assert(!c, "a wait that was not cancelled does not report cancellation")
		return v, err
	}
	if at == nil {
		return a.Wait(id, timeout)
	}
	return at.SyncWait(nil, id, timeout)
}

// Everybody who asks for the channel of an id gets the same one.
func CheckGet() {
	nd.Preemptions(nd.Q(2, 3))
	nd.RacesAreBugs()
	a := lock.NewAwait[uint64](1 + nd.Choose("mux", 2))
	id := nd.Int64("id")
	nd.Assert(!a.Has(id), "an id has no channel before it is asked for")
	var c, d chan uint64
	nd.Both(func() { c = a.Get(id) }, func() { d = a.Get(id) })
	nd.Assert(c != nil && c == d, "all get the same channel of an id")
	nd.Assert(a.Has(id) && !a.Has(id+1), "the channel is registered under its id")
	v := nd.Uint64("v")
	nd.Assert(a.CloseAndPut(id, v) == nil, "sending to a registered id succeeds")
	nd.Assert(<-c == v, "the value arrives in the channel")
	_, open := <-c
	nd.Assert(!open && !a.Has(id), "the channel is closed and no longer registered")
	nd.Reach("end")
}

// One waiter, one sender, in any order: without a timeout the value arrives.
func CheckDeliver() {
	nd.Preemptions(nd.Q(2, 3))
	nd.RacesAreBugs()
	a, at := mk(2)
	how := nd.Choose("how", 3)
	timeout := time.Duration(0)
	if nd.Bool("timed") {
		timeout = time.Hour
	}
	v := nd.Uint64("v")
	id := int64(7)
	put := nd.Bool("put")
	var serr error
	done := make(chan bool)
	go func() {
		if put {
			serr = a.CloseAndPut(id, v)
		} else {
			serr = a.Close(id)
		}
		done <- true
	}()
	r, err := wait(a, at, how, id, timeout)
	<-done
	nd.Assert(err == nil, "a wait that is answered in time reports no error")
	nd.Assert(serr == nil, "the sender of a delivered value sees no error")
	if put {
		nd.Assert(r == v, "the waiter receives the value that was sent")
	} else {
		nd.Assert(r == 0, "closing ends the wait with the zero value")
	}
	if at != nil {
		nd.Assert(!at.Has(id), "nothing is left registered")
	}
	nd.Reach("end")
}

// The timer may expire at any moment: the wait ends with the value or with an
// error, never both or neither.
func CheckTimeout() {
	nd.Preemptions(nd.Q(2, 3))
	nd.RacesAreBugs()
	a, at := mk(2)
	how := nd.Choose("how", 3)
	v := nd.Uint64("v")
	nd.Assume(v != 0)
	id := int64(7)
	var serr error
	done := make(chan bool)
	ready := make(chan bool)
	sent := false
	go func() {
		<-ready
		serr = a.CloseAndPut(id, v)
		sent = true
		done <- true
	}()
	nd.EarlyTimers(true)
	ready <- true
	r, err := wait(a, at, how, id, time.Second)
	nd.EarlyTimers(false)
	nd.Assert(err != nil || r == v, "a wait without error returns the value sent")
	nd.Assert(err == nil || r == 0, "a wait that timed out returns no value")
	<-done
	if err == nil {
		nd.Assert(serr == nil, "the sender of a delivered value sees no error")
	}
	_ = sent
	if at != nil {
		nd.Assert(!at.Has(id), "nothing is left registered")
	}
	nd.Reach("end")
}

// Nobody answers: the wait ends with an error and the id is usable again.
func CheckTimeoutFires() {
	a, at := mk(2)
	how := nd.Choose("how", 3)
	id := nd.Int64("id")
	r, err := wait(a, at, how, id, time.Second)
	nd.Assert(err != nil && r == 0, "an unanswered wait ends with an error")
	if at != nil {
		nd.Assert(!at.Has(id), "nothing is left registered")
	}
	done := make(chan bool)
	nd.Preemptions(0)
	go func() {
		r, err = wait(a, at, how, id, time.Hour)
		done <- true
	}()
	nd.Idle()
	nd.Assert(a.CloseAndPut(id, 5) == nil, "the sender sees no error")
	<-done
	nd.Assert(err == nil && r == 5, "an id can be waited for again")
	nd.Reach("end")
}

// Cancelling the context ends the wait, with and without a timeout.
func CheckCancel() {
	nd.Preemptions(nd.Q(1, 2))
	nd.RacesAreBugs()
	a, at := mk(2)
	timeout := time.Duration(0)
	if nd.Bool("timed") {
		timeout = time.Hour
	}
	ctx, cancel := context.WithCancel(context.Background())
	id := int64(-3)
	if nd.Bool("before") {
		cancel()
	} else {
		go cancel()
	}
	r, c, err := a.WaitWithCancel(ctx, id, timeout)
	nd.Assert(c && err != nil && r == 0, "cancelling the context ends the wait and is reported")
	if at != nil {
		nd.Assert(!at.Has(id), "nothing is left registered")
	}
	nd.Reach("end")
}

// A cancellation racing with an answer: one of the two is reported.
func CheckCancelRace() {
	nd.Preemptions(nd.Q(1, 2))
	nd.RacesAreBugs()
	a, at := mk(2)
	timeout := time.Duration(0)
	if nd.Bool("timed") {
		timeout = time.Hour
	}
	ctx, cancel := context.WithCancel(context.Background())
	done := make(chan bool)
	var r uint64
	var c bool
	var err error
	go func() {
		r, c, err = a.WaitWithCancel(ctx, 9, timeout)
		done <- true
	}()
	nd.Idle()
	go cancel()
	a.CloseAndPut(9, 77)
	<-done
	if c {
		nd.Assert(err != nil && r == 0, "a cancelled wait returns no value")
	} else {
		nd.Assert(err == nil && r == 77, "a wait that was not cancelled returns the value sent")
	}
	if at != nil {
		nd.Assert(!at.Has(9), "nothing is left registered")
	}
	nd.Reach("end")
}

// Two ids at once: each waiter gets its own value.
func CheckTwoIds() {
	nd.Preemptions(nd.Q(1, 2))
	nd.RacesAreBugs()
	a, _ := mk(4)
	v, w := nd.Uint64("v"), nd.Uint64("w")
	var wg sync.WaitGroup
	wg.Add(2)
	var r [2]uint64
	var errs [2]error
	for i := 0; i < 2; i++ {
		go func() {
			defer wg.Done()
			r[i], errs[i] = a.Wait(int64(i), 0)
		}()
	}
	nd.Idle()
	wg.Add(1)
	go func() {
		defer wg.Done()
		a.CloseAndPut(1, w)
	}()
	a.CloseAndPut(0, v)
	wg.Wait()
	nd.Assert(errs[0] == nil && errs[1] == nil, "both waits succeed")
	nd.Assert(r[0] == v && r[1] == w, "each waiter receives the value sent to its id")
	nd.Reach("end")
}

// Two senders of one id: the waiter gets one of the values, nobody hangs or panics.
func CheckTwoSenders() {
	nd.Preemptions(nd.Q(2, 3))
	nd.RacesAreBugs()
	a, at := mk(2)
	done := make(chan bool)
	var r uint64
	var err error
	go func() {
		r, err = a.Wait(4, 0)
		done <- true
	}()
	nd.Idle()
	var wg sync.WaitGroup
	wg.Add(1)
	close := nd.Bool("close")
	go func() {
		defer wg.Done()
		if close {
			a.Close(4)
		} else {
			a.CloseAndPut(4, 2)
		}
	}()
	a.CloseAndPut(4, 1)
	wg.Wait()
	<-done
	if close {
		nd.Assert(err == nil && (r == 1 || r == 0), "the wait ends with the value or as closed")
	} else {
		nd.Assert(err == nil && (r == 1 || r == 2), "the waiter receives one of the values sent")
	}
	if at != nil {
		nd.Assert(!at.Has(4), "nothing is left registered")
	}
	nd.Reach("end")
}

// SyncWait announces itself only when an answer can reach it.
func CheckSyncWait() {
	nd.Preemptions(nd.Q(2, 3))
	nd.RacesAreBugs()
	at := lock.NewAwait[uint64](1)
	timeout := time.Duration(0)
	if nd.Bool("timed") {
		timeout = time.Hour
	}
	var wg sync.WaitGroup
	wg.Add(1)
	done := make(chan bool)
	var r uint64
	go func() {
		r, _ = at.SyncWait(&wg, 3, timeout)
		done <- true
	}()
	wg.Wait()
	nd.Assert(at.Has(3), "the waiter is registered before it announces itself")
	at.CloseAndPut(3, 8)
	<-done
	nd.Assert(r == 8, "the value arrives")
	nd.Reach("end")
}

// A sender that comes up to half a second before its waiter delivers its value,
// whatever ids were used before.
func CheckEarly() {
	nd.SpreadHashes() // else the filter may take any id for a used one
	nd.RoundRobin(0)
	a, at := mk(1000)
	how := nd.Choose("how", 3)
	ids := []int64{5, -5, 5 + 1<<32, 5 + 1<<8, 5 + 1<<62, 5 - 1<<63, 0, 1 << 16, 1 << 48}
	i, j := 0, 0
	if at == nil { // ids matter to the filter only
		i, j = nd.Choose("id", len(ids)), nd.Choose("next", len(ids)-1)
	}
	if j >= i {
		j++
	}
	for _, id := range []int64{ids[i], ids[j]} {
		v := nd.Uint64("v")
		var serr error
		done := make(chan bool)
		if nd.Bool("early") {
			go func() {
				serr = a.CloseAndPut(id, v)
				done <- true
			}()
			time.Sleep(500 * time.Millisecond)
		} else {
			go func() {
				time.Sleep(500 * time.Millisecond)
				serr = a.CloseAndPut(id, v)
				done <- true
			}()
		}
		r, err := wait(a, at, how, id, time.Hour)
		<-done
		nd.Assert(err == nil && serr == nil, "neither side of a wait that is answered in time sees an error")
		nd.Assert(r == v, "the waiter receives the value that was sent, whoever comes first")
	}
	nd.Reach("end")
}

// A sender that comes when the wait is over does not hold its caller up for
// long, and a FastAwait, which remembers the ids, not at all.
func CheckLate() {
	a, at := mk(2)
	how := nd.Choose("how", 3)
	id := int64(7)
	switch nd.Choose("end", 3) {
	case 0:
		wait(a, at, how, id, time.Second)
	case 1:
		ctx, cancel := context.WithCancel(context.Background())
		cancel()
		a.WaitWithCancel(ctx, id, time.Hour)
	case 2:
		go wait(a, at, how, id, 0)
		nd.Idle()
		a.CloseAndPut(id, 5)
		nd.Idle()
	}
	limit := 10 * time.Second
	if at == nil {
		limit = time.Millisecond
	}
	t := time.Now()
	if nd.Bool("put") {
		a.CloseAndPut(id, 6)
	} else {
		a.Close(id)
	}
	nd.Assert(time.Since(t) < limit, "a late sender is not held up")
	done := make(chan bool)
	var r uint64
	var err error
	go func() {
		r, err = wait(a, at, how, id, time.Hour)
		done <- true
	}()
	nd.Idle()
	v := nd.Uint64("v")
	nd.Assert(a.CloseAndPut(id, v) == nil, "the sender sees no error")
	<-done
	nd.Assert(err == nil && r == v, "an id can be waited for again")
	nd.Reach("end")
}

// Many waiters and senders. The filter of a FastAwait may take an id for a
// finished one, so its senders come after the waiters.
func CheckCrowd() {
	nd.RacesAreBugs()
	n := nd.Q(4, 8)
	a, at := mk(uint64(n))
	timeout := time.Duration(0)
	if nd.Bool("timed") {
		timeout = time.Hour
	}
	how := nd.Choose("how", 2)
	receive := func(id int64) {
		r, err := wait(a, at, how, id, timeout)
		nd.Assert(err == nil, "a wait that is answered in time reports no error")
		nd.Assert(r == uint64(id)*2+1, "the waiter receives the value that was sent")
	}
	send := func(id int64) {
		nd.Assert(a.CloseAndPut(id, uint64(id)*2+1) == nil, "the sender of a delivered value sees no error")
	}
	if at == nil {
		nd.RoundRobin(0)
		for i := int64(0); i < 2; i++ {
			var wg sync.WaitGroup
			for g := int64(0); g < int64(n); g++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					receive(g + i*100)
				}()
			}
			nd.Idle()
			nd.Crowd(n, func(g int) { send(int64(g) + i*100) })
			wg.Wait()
		}
		nd.Reach("end")
		return
	}
	swap := nd.Bool("swap")
	nd.Crowd(2*n, func(g int) {
		if swap {
			g = 2*n - 1 - g
		}
		for i := int64(0); i < 2; i++ {
			id := int64(g%n) + i*100
			if g < n {
				receive(id)
			} else {
				send(id)
			}
		}
	})
	for id := int64(0); id < int64(n); id++ {
		nd.Assert(!at.Has(id) && !at.Has(id+100), "nothing is left registered")
	}
	nd.Reach("end")
}
