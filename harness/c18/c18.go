// Property C18: object pools hand out clean objects, each to one owner.
package c18

import (
	"bytes"
	"sync"

	"github.com/donnie4w/gofer/pool/buffer"
	_ "verif/model"
	"verif/nd"
)

type obj struct {
	n   uint64
	own int
}

// Whatever is put back and taken again: every Get returns a reset object that
// nobody else holds.
func CheckHistory() {
	made := 0
	ctor := func() *obj { made++; return &obj{n: 5} }
	withReset, withCtor := nd.Bool("reset"), nd.Bool("ctor")
	var reset func(*obj)
	if withReset {
		reset = func(o *obj) { o.n = 7 }
	}
	if !withCtor {
		ctor = nil
	}
	p := buffer.NewPool[obj](ctor, reset)
	var held []*obj
	for i := 0; i < nd.Q(5, 6); i++ {
		if nd.Bool("get") {
			o := p.Get()
			nd.Assert(o != nil, "Get returns an object")
			for _, h := range held {
				nd.Assert(h != o, "an object has one owner at a time")
			}
			if withReset {
				nd.Assert(o.n == 7, "an object is reset before it is handed out")
			} else if withCtor {
				nd.Assert(o.n == 5 || o.n == 9, "a new object comes from the constructor")
			}
			o.n = 9
			held = append(held, o)
		} else if len(held) > 0 {
			k := nd.Choose("which", len(held))
			o := held[k]
			held = append(held[:k:k], held[k+1:]...)
			nd.Assert(p.Put(&o), "Put accepts an object")
			nd.Assert(o == nil, "Put takes the caller's reference away")
			nd.Assert(!p.Put(&o), "Put refuses nil")
		}
	}
	nd.Reach("end")
}

// Byte buffer pools: for every pool size and every requested length.
func CheckBufferPool() {
	n := 1 + nd.Choose("poolsize", nd.Q(4, 6))
	p := buffer.NewBufferPool(n)
	var held []*bytes.Buffer
	for i := 0; i < nd.Q(4, 5); i++ {
		if nd.Bool("get") {
			b := p.Get(nd.Int("len"))
			nd.Assert(b != nil && b.Len() == 0, "Get returns an empty buffer")
			for _, h := range held {
				nd.Assert(h != b, "a buffer has one owner at a time")
			}
			b.Write([]byte("0123456789")[:nd.Choose("fill", 2)*9+1])
			held = append(held, b)
		} else if len(held) > 0 {
			k := nd.Choose("which", len(held))
			nd.Assert(p.Put(held[k]), "Put accepts a buffer")
			held = append(held[:k:k], held[k+1:]...)
		} else {
			p.Put(nil)
		}
	}
	nd.Reach("end")
}

// Concurrent users never share an object.
func CheckConc() {
	nd.Preemptions(nd.Q(3, 4))
	nd.RacesAreBugs()
	p := buffer.NewPool[obj](nil, func(o *obj) { o.n = 0 })
	bp := buffer.NewBufferPool(2)
	var wg sync.WaitGroup
	bufs := nd.Bool("bufs")
	for g := 1; g <= 2; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 2; i++ {
				if bufs {
					b := bp.Get(4)
					nd.Assert(b.Len() == 0, "Get returns an empty buffer")
					b.WriteByte(byte('0' + g))
					nd.Yield()
					nd.Assert(b.String() == string(rune('0'+g)), "nobody else writes to a held buffer")
					bp.Put(b)
					continue
				}
				o := p.Get()
				nd.Assert(o.n == 0, "an object is reset before it is handed out")
				o.n = uint64(g)
				nd.Yield()
				nd.Assert(o.n == uint64(g), "nobody else writes to a held object")
				p.Put(&o)
			}
		}()
	}
	wg.Wait()
	nd.Reach("end")
}

// Many users.
func CheckCrowd() {
	nd.RacesAreBugs()
	p := buffer.NewPool[obj](nil, func(o *obj) { o.n = 0 })
	bp := buffer.NewBufferPool(1 + nd.Choose("size", 3))
	nd.Crowd(nd.Q(6, 10), func(g int) {
		for i := 0; i < 3; i++ {
			o, b := p.Get(), bp.Get(4)
			nd.Assert(o.n == 0, "an object is reset before it is handed out")
			nd.Assert(b.Len() == 0, "Get returns an empty buffer")
			o.n = uint64(g + 1)
			b.WriteByte(byte('0' + g))
			nd.Yield()
			nd.Assert(o.n == uint64(g+1), "nobody else writes to a held object")
			nd.Assert(b.String() == string(rune('0'+g)), "nobody else writes to a held buffer")
			p.Put(&o)
			bp.Put(b)
		}
	})
	nd.Reach("end")
}

// Objects that have grown.
func CheckLarge() {
	nd.MaxMake(1 << 20)
	p := buffer.NewBufferPool(1 + nd.Choose("poolsize", 3))
	var held []*bytes.Buffer
	var fill []byte
	for i := 0; i < 3; i++ {
		n := []int{1, 300, 5000}[nd.Choose("grow", 3)]
		b := p.Get(n)
		nd.Assert(b.Len() == 0, "Get returns an empty buffer")
		b.Write(make([]byte, n))
		nd.Assert(b.Len() == n, "Get returns an empty buffer")
		nd.Assert(p.Put(b), "Put accepts a buffer")
	}
	for i := 0; i < 4; i++ {
		b := p.Get([]int{1, 5000}[nd.Choose("len", 2)])
		nd.Assert(b.Len() == 0, "Get returns an empty buffer")
		c := nd.Uint8("c")
		b.Write([]byte{c, byte(i)})
		held, fill = append(held, b), append(fill, c)
	}
	for i, b := range held {
		g := b.Bytes()
		nd.Assert(len(g) == 2 && g[0] == fill[i] && g[1] == byte(i), "nobody else writes to a held buffer")
	}
	nd.Reach("end")
}
