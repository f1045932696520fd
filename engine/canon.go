package main

// Canonical forms for functions of one small leaf (at most 8 bits): two terms
// that compute the same function of the same leaf become the same term. This
// is semantic hash-consing by truth table; it keeps table lookups and their
// inverses (alphabets, hex digits) from reaching the solver as mux chains.

type leafI struct {
	t      *Term // base term, nil: no variable
	lo, hi int
	bad    bool
}

type canonKey struct {
	leaf   int32
	lo, hi int
	srt    Sort
	tab    string
}

type canonSt struct {
	leaf map[*Term]leafI
	memo map[*Term]*Term
	tab  map[canonKey]*Term
}

var badLeaf = leafI{bad: true}

func joinLeaf(a, b leafI) leafI {
	switch {
	case a.bad || b.bad:
		return badLeaf
	case a.t == nil:
		return b
	case b.t == nil:
		return a
	case a.t != b.t:
		return badLeaf
	}
	r := leafI{t: a.t, lo: min(a.lo, b.lo), hi: max(a.hi, b.hi)}
	if r.hi-r.lo > 7 {
		return badLeaf
	}
	return r
}

func small(t *Term) bool { return t.srt.isBV() && t.srt <= 64 && (t.srt <= 8 || t.umax < 256) }

func (tb *TB) leafOf(t *Term, budget *int) leafI {
	if t.op == OConst {
		return leafI{}
	}
	if l, ok := tb.canon.leaf[t]; ok {
		return l
	}
	*budget--
	if *budget < 0 {
		return badLeaf
	}
	r := leafI{}
	whole := func() leafI {
		if small(t) {
			h := int(t.srt) - 1
			if h > 7 {
				h = 7
			}
			return leafI{t: t, lo: 0, hi: h}
		}
		return badLeaf
	}
	switch t.op {
	case OIte, OAnd, OOr, ONot, OEq, OUlt, OUle, OSlt, OSle, OZext, OSext, OConcat, OAdd, OSub, OBAnd, OBOr, OBXor, OBNot, ONeg, OMul, OShl, OLshr, OAshr:
		if t.srt.isBV() && t.srt > 64 || t.srt.isFP() {
			r = badLeaf
			break
		}
		for _, a := range t.args {
			if a.srt.isBV() && a.srt > 64 || a.srt.isFP() {
				r = badLeaf
				break
			}
			r = joinLeaf(r, tb.leafOf(a, budget))
			if r.bad {
				break
			}
		}
	case OExtract:
		a := t.args[0]
		hi, lo := int(t.k>>16), int(t.k&0xffff)
		if small(a) {
			r = tb.leafOf(a, budget)
			if r.bad || r.t == a {
				r = leafI{t: a, lo: lo, hi: hi}
				if hi > 7 {
					r = leafI{t: a, lo: 0, hi: 7}
				}
			}
		} else if hi-lo <= 7 {
			r = leafI{t: a, lo: lo, hi: hi}
		} else {
			r = badLeaf
		}
	default:
		r = whole()
	}
	if *budget >= 0 {
		tb.canon.leaf[t] = r
	}
	return r
}

// canonize returns the canonical term for an if-then-else over one small leaf.
func (tb *TB) canonize(t *Term) *Term {
	if tb.raw || t.op != OIte && t.op != OSext && t.op != OZext || !t.srt.isBV() || t.srt > 64 || t.size < 6 {
		return t
	}
	if tb.canon.memo == nil {
		tb.canon = canonSt{map[*Term]leafI{}, map[*Term]*Term{}, map[canonKey]*Term{}}
	}
	if r, ok := tb.canon.memo[t]; ok {
		return r
	}
	r := tb.canonize1(t)
	tb.canon.memo[t] = r
	return r
}

func (tb *TB) canonize1(t *Term) *Term {
	budget := 3000
	l := tb.leafOf(t, &budget)
	if l.bad || l.t == nil || l.t == t {
		return t
	}
	n := 1 << uint(l.hi-l.lo+1)
	if l.lo == 0 && l.t.srt <= 64 && l.t.umax < uint64(n-1) {
		n = int(l.t.umax) + 1
	}
	ev := &evalr{tb: tb, m: &Model{}, memo: map[*Term]evr{}, leaf: l}
	key := make([]byte, 0, 8*n)
	ident, cnst := true, true
	var first uint64
	for x := 0; x < n; x++ {
		clear(ev.memo)
		ev.lv = uint64(x)
		v, ok := ev.eval(t)
		if !ok {
			return t
		}
		if x == 0 {
			first = v
		}
		cnst = cnst && v == first
		ident = ident && v == uint64(x)
		for k := 0; k < int(t.srt+7)/8; k++ {
			key = append(key, byte(v>>(8*k)))
		}
	}
	if cnst {
		return tb.Const(t.srt, first)
	}
	w := Sort(l.hi - l.lo + 1)
	if ident {
		if w == l.t.srt || l.lo == 0 && l.t.srt <= 64 && l.t.umax <= maskw(w) {
			return tb.Resize(l.t, t.srt, false)
		}
		if w <= t.srt {
			return tb.Zext(tb.Extract(l.t, l.hi, l.lo), t.srt)
		}
	}
	ck := canonKey{l.t.id, l.lo, l.hi, t.srt, string(key)}
	if r, ok := tb.canon.tab[ck]; ok {
		return r
	}
	tb.canon.tab[ck] = t
	return t
}
