package main

import (
	"fmt"
	"sort"
)

// A small decision procedure for path feasibility: the order and equality
// atoms on the path condition, closed under transitivity. It only answers
// what they imply; everything else, and every assertion, goes to the solver.

type ordEdge struct {
	to     int
	strict bool
}
type ordDom struct {
	signed bool
	id     map[*Term]int
	nodes  []*Term
	edges  [][]ordEdge
	consts []int // node indices, sorted by value
}
type ordSt struct {
	done int
	atom map[*Term]bool
	ne   map[[2]*Term]bool
	dom  map[[2]int]*ordDom
}

func newOrd() *ordSt {
	return &ordSt{atom: map[*Term]bool{}, ne: map[[2]*Term]bool{}, dom: map[[2]int]*ordDom{}}
}

func (o *ordSt) d(s Sort, signed bool) *ordDom {
	k := [2]int{int(s), 0}
	if signed {
		k[1] = 1
	}
	d := o.dom[k]
	if d == nil {
		d = &ordDom{signed: signed, id: map[*Term]int{}}
		o.dom[k] = d
	}
	return d
}

func sext64(v uint64, s Sort) int64 {
	if s >= 64 {
		return int64(v)
	}
	sh := uint(64 - s)
	return int64(v<<sh) >> sh
}

func (d *ordDom) less(a, b *Term) bool {
	if d.signed {
		return sext64(a.k, a.srt) < sext64(b.k, b.srt)
	}
	return a.k < b.k
}

func (d *ordDom) node(t *Term) int {
	if i, ok := d.id[t]; ok {
		return i
	}
	i := len(d.nodes)
	d.id[t] = i
	d.nodes = append(d.nodes, t)
	d.edges = append(d.edges, nil)
	if t.isConst() {
		p := sort.Search(len(d.consts), func(j int) bool { return d.less(t, d.nodes[d.consts[j]]) })
		d.consts = append(d.consts, 0)
		copy(d.consts[p+1:], d.consts[p:])
		d.consts[p] = i
	}
	return i
}

func (d *ordDom) add(a, b *Term, strict bool) {
	x, y := d.node(a), d.node(b)
	d.edges[x] = append(d.edges[x], ordEdge{y, strict})
}

// reach: 0 no path, 1 a<=b, 2 a<b.
func (d *ordDom) reach(a, b *Term) int {
	x, ok := d.id[a]
	if !ok {
		if !a.isConst() {
			return 0
		}
		x = d.node(a)
	}
	y, ok := d.id[b]
	if !ok {
		if !b.isConst() {
			return 0
		}
		y = d.node(b)
	}
	best := make([]int8, len(d.nodes))
	type it struct {
		n int
		s int8
	}
	best[x] = 1
	st := []it{{x, 1}}
	for len(st) > 0 {
		e := st[len(st)-1]
		st = st[:len(st)-1]
		if best[e.n] > e.s {
			continue
		}
		visit := func(to int, strict bool) {
			s := e.s
			if strict {
				s = 2
			}
			if s > best[to] {
				best[to] = s
				st = append(st, it{to, s})
			}
		}
		for _, g := range d.edges[e.n] {
			visit(g.to, g.strict)
		}
		if d.nodes[e.n].isConst() {
			for j, c := range d.consts {
				if c == e.n && j+1 < len(d.consts) {
					visit(d.consts[j+1], true)
				}
			}
		}
	}
	return int(best[y])
}

func (o *ordSt) assume(t *Term) {
	if o.atom[t] {
		return
	}
	o.atom[t] = true
	switch t.op {
	case OAnd:
		for _, a := range t.args {
			o.assume(a)
		}
	case OUlt, OUle:
		o.d(t.args[0].srt, false).add(t.args[0], t.args[1], t.op == OUlt)
	case OSlt, OSle:
		o.d(t.args[0].srt, true).add(t.args[0], t.args[1], t.op == OSlt)
	case OEq:
		a, b := t.args[0], t.args[1]
		if a.srt > 0 && a.srt <= 64 && !a.srt.isFP() {
			for _, sg := range []bool{false, true} {
				d := o.d(a.srt, sg)
				d.add(a, b, false)
				d.add(b, a, false)
			}
		}
	case ONot:
		x := t.args[0]
		switch x.op {
		case OEq:
			a, b := x.args[0], x.args[1]
			o.ne[[2]*Term{a, b}] = true
			o.ne[[2]*Term{b, a}] = true
		case OOr:
			for _, a := range x.args {
				if a.op == ONot {
					o.assume(a.args[0])
				}
			}
		}
	}
}

// decide: 1 implied, -1 refuted, 0 unknown.
func (o *ordSt) decide(t *Term) int {
	if o.atom[t] {
		return 1
	}
	switch t.op {
	case ONot:
		if o.atom[t.args[0]] {
			return -1
		}
		return -o.decide(t.args[0])
	case OAnd:
		r := 1
		for _, a := range t.args {
			switch o.decide(a) {
			case -1:
				return -1
			case 0:
				r = 0
			}
		}
		return r
	case OOr:
		r := -1
		for _, a := range t.args {
			switch o.decide(a) {
			case 1:
				return 1
			case 0:
				r = 0
			}
		}
		return r
	case OUlt, OSlt, OUle, OSle:
		a, b := t.args[0], t.args[1]
		d := o.d(a.srt, t.op == OSlt || t.op == OSle)
		f, g := d.reach(a, b), d.reach(b, a)
		if t.op == OUlt || t.op == OSlt {
			if f == 2 || f == 1 && o.ne[[2]*Term{a, b}] {
				return 1
			}
			if g >= 1 {
				return -1
			}
		} else {
			if f >= 1 {
				return 1
			}
			if g == 2 || g == 1 && o.ne[[2]*Term{a, b}] {
				return -1
			}
		}
	case OEq:
		a, b := t.args[0], t.args[1]
		if o.ne[[2]*Term{a, b}] {
			return -1
		}
		if a.srt <= 0 || a.srt > 64 || a.srt.isFP() {
			return 0
		}
		for _, sg := range []bool{false, true} {
			d := o.d(a.srt, sg)
			f, g := d.reach(a, b), d.reach(b, a)
			if f == 2 || g == 2 {
				return -1
			}
			if f == 1 && g == 1 {
				return 1
			}
		}
	}
	return 0
}

func (w *Worker) quick(c *Term) int {
	if w.ord == nil {
		w.ord = newOrd()
	}
	for ; w.ord.done < len(w.pc); w.ord.done++ {
		w.ord.assume(w.pc[w.ord.done])
	}
	return w.ord.decide(c)
}

func showTerm(t *Term, d int) string {
	switch t.op {
	case OConst:
		return fmt.Sprint(int64(t.k))
	case OVar:
		return t.name
	}
	if d == 0 {
		return "…"
	}
	s := fmt.Sprintf("(%d", t.op)
	for _, a := range t.args {
		s += " " + showTerm(a, d-1)
	}
	return s + ")"
}
