// Package lin decides linearizability of a recorded concurrent history
// against a sequential reference.
package lin

import (
	"sync"

	"verif/nd"
)

// Op is one recorded operation: Apply is the reference, from a state to the
// next one and whether the recorded result is explained.
type Op[S any] struct {
	Run      func()
	Apply    func(S) (S, bool)
	inv, ret int
}

func search[S any](ops []*Op[S], s S, final func(S) bool) bool {
	if len(ops) == 0 {
		return final(s)
	}
	res := false
	for i, o := range ops {
		first := true
		for _, p := range ops {
			if p.ret < o.inv {
				first = false
			}
		}
		if !first {
			continue
		}
		n, good := o.Apply(s)
		rest := append(append([]*Op[S]{}, ops[:i]...), ops[i+1:]...)
		res = nd.Or(res, nd.And(good, search(rest, n, final)))
	}
	return res
}

// Run executes one goroutine per program concurrently and returns whether the
// history has an order the reference explains, ending in a state final accepts
// (final is called after all goroutines ended).
func Run[S any](init S, progs [][]*Op[S], final func(S) bool) bool {
	clock := 0
	var all []*Op[S]
	var wg sync.WaitGroup
	for _, p := range progs {
		all = append(all, p...)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, o := range p {
				tick(&clock, &o.inv)
				o.Run()
				tick(&clock, &o.ret)
			}
		}()
	}
	wg.Wait()
	return search(all, init, final)
}

var mu sync.Mutex

func tick(clock, at *int) {
	if nd.Symbolic() {
		nd.Atomic(func() { *clock++; *at = *clock })
		return
	}
	mu.Lock()
	*clock++
	*at = *clock
	mu.Unlock()
}
