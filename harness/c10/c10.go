// Property C10: the rotating Bloom filter has no false negatives within its window.
package c10

import (
	"sync"

	"github.com/donnie4w/gofer/cache"
	_ "verif/model"
	"verif/nd"
)

type shape struct {
	items uint64
	rate  float64
}

// Shapes by number of hash functions and words:
// 1/1, 1/1, 2/1, 1/1 (rounded up from 0 words), 2/2, 6/1, 3/2.
var shapes = []shape{{1, 0.5}, {2, 0.3}, {2, 0.2}, {1, 0.9}, {20, 0.2}, {3, 0.01}, {14, 0.1}}

func window(sh shape, pre, after int, each bool, fillers int) {
	nd.ModelOnly("hash values are uninterpreted")
	bf := cache.NewBloomFilter(sh.items, sh.rate)
	x := nd.Bytes("x", 2)
	for i := 0; i < pre; i++ {
		bf.Add([]byte{byte(i % fillers)})
	}
	bf.Add(x)
	nd.Assert(bf.Contains(x), "an item just added is contained")
	for i := 0; i < after; i++ {
		bf.Add([]byte{byte(i % fillers), 1})
		if each {
			nd.Assert(bf.Contains(x), "an item is contained until more than the expected number of items were added after it")
		}
	}
	nd.Assert(bf.Contains(x), "an item is contained until more than the expected number of items were added after it")
	nd.Reach("end")
}

// From every phase of the rotation.
func CheckWindow() {
	sh := shapes[nd.Choose("shape", 4)]
	e := int(sh.items)
	window(sh, nd.Choose("pre", 2*(3*e+1)+1), e, true, 100)
}

func CheckLarger() {
	sh := shapes[4+nd.Choose("shape", nd.Q(1, 3))]
	e := int(sh.items)
	pre := []int{0, e - 1, e, 2*e - 1, 2 * e, 3*e - 1, 3 * e, 3*e + 1, 4 * e}[nd.Choose("pre", nd.Q(7, 9))]
	window(sh, pre, e, false, 2)
}

// Two different items: both contained; items never added may or may not be.
func CheckTwo() {
	nd.ModelOnly("hash values are uninterpreted")
	bf := cache.NewBloomFilter(4, 0.2)
	x, y := nd.Bytes("x", 3), nd.Bytes("y", nd.Choose("len", 4))
	bf.Add(x)
	bf.Add(y)
	nd.Assert(bf.Contains(x) && bf.Contains(y), "added items are contained")
	nd.Reach("end")
}

// An empty filter contains nothing.
func CheckEmpty() {
	nd.ModelOnly("hash values are uninterpreted")
	sh := shapes[nd.Choose("shape", len(shapes))]
	bf := cache.NewBloomFilter(sh.items, sh.rate)
	nd.Assert(!bf.Contains(nd.Bytes("x", 2)), "an empty filter contains nothing")
	nd.Reach("end")
}

// Concurrent additions are not lost, and lookups see what was added before.
func CheckConc() {
	nd.ModelOnly("hash values are uninterpreted")
	nd.Preemptions(nd.Q(2, 3))
	nd.RacesAreBugs()
	sh := shapes[2-nd.Choose("shape", nd.Q(1, 2))]
	e := int(sh.items)
	bf := cache.NewBloomFilter(sh.items, sh.rate)
	pre := []int{1, 5, 0, 3, 2, 4, 6}[nd.Choose("pre", nd.Q(2, 3*e+1))]
	for i := 0; i < pre; i++ {
		bf.Add([]byte("filler"))
	}
	x, y := []byte("x"), []byte("y")
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		bf.Add(x)
		nd.Assert(bf.Contains(x), "an item just added is contained")
	}()
	go func() {
		defer wg.Done()
		bf.Add(y)
	}()
	if nd.Bool("reader") {
		bf.Contains([]byte("x"))
	}
	wg.Wait()
	nd.Assert(bf.Contains(x) && bf.Contains(y), "concurrently added items are contained")
	nd.Reach("end")
}

// Lookups during an addition, in every phase and at its ends.
func CheckReaders() {
	nd.ModelOnly("hash values are uninterpreted")
	nd.Preemptions(nd.Q(2, 3))
	nd.RacesAreBugs()
	sh := shapes[nd.Choose("shape", nd.Q(2, 3))]
	bf := cache.NewBloomFilter(sh.items, sh.rate)
	pre := nd.Choose("pre", 3*int(sh.items)+2)
	x := []byte("x")
	for i := 0; i < pre; i++ {
		bf.Add([]byte("filler"))
	}
	if pre > 0 {
		bf.Add(x)
	}
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			nd.Assert(bf.Contains(x) || pre == 0, "an item is contained until more than the expected number of items were added after it")
		}()
	}
	bf.Add([]byte("y"))
	wg.Wait()
	nd.Assert(bf.Contains([]byte("y")), "an item just added is contained")
	nd.Reach("end")
}

// Many goroutines.
func CheckCrowd() {
	nd.ModelOnly("hash values are uninterpreted")
	nd.RacesAreBugs()
	n := nd.Q(3, 5)
	sh := shapes[2]
	bf := cache.NewBloomFilter(sh.items, sh.rate)
	names := []string{"a", "b", "c", "d", "e"}
	nd.Crowd(n, func(g int) {
		bf.Add([]byte(names[g]))
		nd.Assert(n > int(sh.items) || bf.Contains([]byte(names[g])), "an item just added is contained")
	})
	for g := 0; g < n && n <= int(sh.items); g++ {
		nd.Assert(bf.Contains([]byte(names[g])), "concurrently added items are contained")
	}
	nd.Reach("end")
}
