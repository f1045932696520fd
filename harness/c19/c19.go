// Property C19: a goroutine pool runs every submitted function exactly once
// within its concurrency limit.
package c19

import (
	"sync"

	"github.com/donnie4w/gofer/pool/gopool"
	_ "verif/model"
	"verif/nd"
)

type run struct {
	ran     []int
	inside  int
	maximum int
	limit   int
	given   []uint32 // the values of the functions submitted
	seen    []uint32 // the values of the functions run
	sum     bool     // compare the sums of the values
	asum    uint32   // sum in the order of submission
	bsum    uint32   // sum in the order of execution
}

func newRun(n, limit int) *run {
	return &run{ran: make([]int, n), given: make([]uint32, n), seen: make([]uint32, n), limit: limit}
}

func (r *run) task(i int) func() {
	v := nd.Uint32("value")
	nd.Atomic(func() { r.given[i] = v; r.asum += v })
	return func() {
		nd.Atomic(func() {
			r.ran[i]++
			r.seen[i] = v
			r.bsum += v
			r.inside++
			nd.Assert(r.limit == 0 || r.inside <= r.limit, "never more functions at once than the limit")
		})
		nd.Yield()
		nd.Atomic(func() { r.inside-- })
	}
}

func (r *run) check() {
	nd.Idle()
	for i, n := range r.ran {
		nd.Assert(n == 1, "every submitted function runs exactly once")
		if !r.sum {
			nd.Assert(r.seen[i] == r.given[i], "the functions run are the ones submitted")
		}
	}
	if r.sum {
		nd.Assert(r.asum == r.bsum, "the functions run are the ones submitted")
	}
	nd.Reach("end")
}

func limits() (min, max int64, limit int) {
	min = int64(nd.Choose("min", 3))
	max = int64(nd.Choose("max", 3))
	limit = int(max)
	if min > max {
		limit = int(min)
	}
	if limit == 0 {
		limit = 1
	}
	return
}

// One submitter.
func CheckOne() {
	nd.Preemptions(nd.Q(1, 2))
	min, max, limit := limits()
	p := gopool.NewPool(min, max)
	n := nd.Q(3, 4)
	r := newRun(n, limit)
	r.sum = true
	for i := 0; i < n; i++ {
		p.Go(r.task(i))
	}
	r.check()
}

// Two submitters.
func CheckTwo() {
	nd.Preemptions(nd.Q(1, 2))
	nd.RacesAreBugs()
	max := 1 + nd.Choose("max", 2)
	p := gopool.NewPool(1, int64(max))
	r := newRun(nd.Q(4-max, 3), max)
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		p.Go(r.task(0))
		if len(r.ran) > 2 {
			p.Go(r.task(2))
		}
	}()
	p.Go(r.task(1))
	wg.Wait()
	p.NumUnExecu()
	r.check()
}

// Submissions after the pool went idle.
func CheckIdle() {
	nd.Preemptions(nd.Q(1, 2))
	p := gopool.NewPool(1, 1)
	r := newRun(2, 1)
	p.Go(r.task(0))
	if nd.Bool("idle") {
		nd.Idle()
		nd.Assert(p.NumUnExecu() == 0, "nothing is left to run")
	}
	p.Go(r.task(1))
	r.check()
}

// A function that panics does not take others with it.
func CheckPanic() {
	nd.Preemptions(nd.Q(0, 1))
	min, max, limit := limits()
	p := gopool.NewPool(min, max)
	r := newRun(nd.Q(3, 4), limit)
	for i := range r.ran {
		f := r.task(i)
		panics := nd.Bool("panics")
		p.Go(func() {
			f()
			if panics {
				panic("task")
			}
		})
	}
	r.check()
}

// Functions may submit functions; a full queue only delays.
func CheckNested() {
	nd.Preemptions(nd.Q(1, 2))
	p := gopool.NewPoolWithFuncLimit(1, 1, nd.Choose("queue", 3))
	r := newRun(3, 1)
	r.sum = true
	if nd.Bool("nested") {
		p.Go(func() { r.task(0)(); go p.Go(r.task(1)) })
		p.Go(r.task(2))
	} else {
		for i := range r.ran {
			p.Go(r.task(i))
		}
	}
	r.check()
}

// Closing the pool while functions are queued, running or submitted.
func CheckClose() {
	nd.Preemptions(nd.Q(1, 2))
	nd.RacesAreBugs()
	p := gopool.NewPool(1, 1+int64(nd.Choose("max", 2)))
	r := newRun(3, 0)
	var wg sync.WaitGroup
	wg.Add(1)
	p.Go(r.task(0))
	if nd.Bool("idle") {
		nd.Idle()
	}
	go func() {
		defer wg.Done()
		p.Close()
	}()
	p.Go(r.task(1))
	wg.Wait()
	p.Go(r.task(2))
	r.check()
}

// Turning the pool off and on.
func CheckTurnOff() {
	nd.Preemptions(nd.Q(1, 2))
	nd.RacesAreBugs()
	p := gopool.NewPool(1, 1)
	r := newRun(3, 0)
	r.sum = true
	var wg sync.WaitGroup
	wg.Add(1)
	p.Go(r.task(0))
	go func() {
		defer wg.Done()
		p.TurnOff(true)
		if nd.Bool("on") {
			p.TurnOff(false)
		}
	}()
	p.Go(r.task(1))
	wg.Wait()
	p.Go(r.task(2))
	r.check()
}

// together submits n functions none of which returns before all have started.
func together(p *gopool.GoPool, n int) {
	var in, out sync.WaitGroup
	in.Add(n)
	out.Add(n)
	for i := 0; i < n; i++ {
		p.Go(func() {
			in.Done()
			in.Wait()
			out.Done()
		})
	}
	out.Wait()
}

// As many functions as the limit allows run at once, even after the pool was
// used, or functions panicked.
func CheckTogether() {
	nd.Preemptions(nd.Q(0, 1))
	min, max, limit := limits()
	p := gopool.NewPool(min, max)
	switch nd.Choose("before", 4) {
	case 1:
		p.Go(func() {})
	case 2:
		p.Go(func() { panic("task") })
	case 3:
		p.Go(func() {})
		p.Go(func() {})
		p.Go(func() {})
		nd.Idle()
	}
	together(p, limit)
	nd.Idle()
	nd.Assert(p.NumUnExecu() == 0, "nothing is left to run")
	together(p, limit)
	nd.Idle()
	nd.Reach("end")
}

// A pool turned off or closed runs its functions without a limit; turned on
// again it has its limit back.
func CheckUnlimited() {
	nd.Preemptions(nd.Q(0, 1))
	limit := 1 + nd.Choose("limit", 2)
	p := gopool.NewPool(1, int64(limit))
	if nd.Bool("before") {
		p.Go(func() {})
	}
	closed := nd.Bool("close")
	if closed {
		p.Close()
		p.TurnOff(false)
	} else {
		p.TurnOff(true)
	}
	together(p, limit+1)
	nd.Idle()
	if !closed {
		p.TurnOff(false)
		if limit > 1 {
			together(p, limit)
		}
		r := newRun(2, limit)
		for i := range r.ran {
			p.Go(r.task(i))
		}
		r.check()
	}
	nd.Idle()
	nd.Assert(p.NumUnExecu() == 0, "nothing is left to run")
	nd.Reach("end")
}

// NumUnExecu counts the functions that wait for their turn.
func CheckCount() {
	nd.Preemptions(nd.Q(1, 2))
	p := gopool.NewPool(1, 1)
	n := 1 + nd.Choose("n", 3)
	gate := make(chan int)
	started := 0
	for i := 0; i < n; i++ {
		p.Go(func() {
			nd.Atomic(func() { started++ })
			<-gate
		})
	}
	for i := 0; i < n; i++ {
		nd.Idle()
		nd.Assert(started == i+1, "one function runs at a time")
		nd.Assert(p.NumUnExecu() == n-started, "NumUnExecu counts the functions that have not started")
		gate <- 1
	}
	nd.Idle()
	nd.Assert(p.NumUnExecu() == 0, "nothing is left to run")
	nd.Reach("end")
}

// Many functions from many goroutines.
func CheckCrowd() {
	min := nd.Choose("min", 3)
	limit := 1 + nd.Choose("max", nd.Q(4, 6))
	p := gopool.NewPool(int64(min), int64(limit))
	limit = max(min, limit)
	n, per := nd.Q(5, 8), nd.Q(3, 4)
	r := newRun(n*per, limit)
	nd.Crowd(n, func(g int) {
		for i := 0; i < per; i++ {
			p.Go(r.task(g*per + i))
		}
	})
	r.sum = true
	r.check()
	nd.Assert(p.NumUnExecu() == 0, "nothing is left to run")
	together(p, limit)
}
