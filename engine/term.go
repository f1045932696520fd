package main

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
)

// Sort: 0 = Bool, 1..128 = BitVec(n), F32/F64 = IEEE floats.
type Sort int16

const (
	SBool Sort = 0
	SF32  Sort = 1032
	SF64  Sort = 1064
)

func (s Sort) isBV() bool { return s > 0 && s <= 256 }
func (s Sort) isFP() bool { return s > 1000 }
func (s Sort) smt() string {
	switch {
	case s == SBool:
		return "Bool"
	case s == SF32:
		return "Float32"
	case s == SF64:
		return "Float64"
	}
	return fmt.Sprintf("(_ BitVec %d)", int(s))
}

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLshr
	OAshr
	OConcat
	OExtract // k = hi<<16|lo
	OZext
	OSext
	OUlt
	OUle
	OSlt
	OSle
	OUF // name, args
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFAbs
	OFSqrt
	OFLt
	OFLe
	OFEq
	OFIsNaN
	OFFromS  // signed bv -> fp
	OFFromU  // unsigned bv -> fp
	OFToS    // fp -> signed bv (rtz); result sort bv
	OFToU    // fp -> unsigned bv (rtz)
	OFToF    // fp -> fp
	OFFromBV // bit pattern -> fp
	OFFloor
	OFCeil
	OFTrunc
	OFRound
)

type Term struct {
	op   Op
	srt  Sort
	k    uint64 // const value / extract bounds
	name string
	args []*Term
	id   int32
	umax uint64 // unsigned upper bound (valid if srt bv <= 64)
	vars bool   // contains variables
	size int32
}

type tkey struct {
	op      Op
	srt     Sort
	k       uint64
	a, b, c int32
	name    string
}

// TB is the term builder (one per worker, not shared).
type TB struct {
	tab   map[tkey]*Term
	n     int32
	True  *Term
	False *Term
	small [65][]*Term
	canon canonSt
	raw   bool // constant folding only: leave the rewriting to the solver
}

func NewTB() *TB {
	tb := &TB{tab: make(map[tkey]*Term, 1<<16)}
	tb.False = tb.mk(OConst, SBool, 0, "")
	tb.True = tb.mk(OConst, SBool, 1, "")
	return tb
}

func maskw(w Sort) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func (tb *TB) mk(op Op, s Sort, k uint64, name string, args ...*Term) *Term {
	key := tkey{op: op, srt: s, k: k, name: name, a: -1, b: -1, c: -1}
	switch len(args) {
	case 0:
	case 1:
		key.a = args[0].id
	case 2:
		key.a, key.b = args[0].id, args[1].id
	case 3:
		key.a, key.b, key.c = args[0].id, args[1].id, args[2].id
	default:
		var sb strings.Builder
		sb.WriteString(name)
		for _, a := range args {
			fmt.Fprintf(&sb, ",%d", a.id)
		}
		key.name = sb.String()
	}
	if t, ok := tb.tab[key]; ok {
		return t
	}
	t := &Term{op: op, srt: s, k: k, name: name, id: tb.n}
	if len(args) > 0 {
		t.args = append([]*Term(nil), args...)
	}
	tb.n++
	t.size = 1
	for _, a := range args {
		t.vars = t.vars || a.vars
		if t.size < 1<<28 {
			t.size += a.size
		}
	}
	if op == OVar {
		t.vars = true
	}
	if s.isBV() && s <= 64 {
		t.umax = tb.computeUmax(t)
	} else {
		t.umax = ^uint64(0)
	}
	tb.tab[key] = t
	return t
}

func (tb *TB) computeUmax(t *Term) uint64 {
	m := maskw(t.srt)
	a := t.args
	switch t.op {
	case OConst:
		return t.k
	case OZext:
		return a[0].umax
	case OURem:
		if a[1].isConst() && a[1].k > 0 {
			return min(a[1].k-1, a[0].umax)
		}
		return a[0].umax
	case OUDiv:
		if a[1].isConst() && a[1].k > 0 {
			return a[0].umax / a[1].k
		}
	case OBAnd:
		return min(a[0].umax, a[1].umax)
	case OBOr, OBXor:
		n := bits.Len64(a[0].umax | a[1].umax)
		if n >= 64 {
			return m
		}
		return min(m, uint64(1)<<uint(n)-1)
	case OIte:
		return max(a[1].umax, a[2].umax)
	case OConcat:
		if a[0].srt+a[1].srt <= 64 {
			return a[0].umax<<uint(a[1].srt) | maskw(a[1].srt)&umaxPow(a[1].umax, a[0].umax)
		}
	case OAdd:
		hi, c := bits.Add64(a[0].umax, a[1].umax, 0)
		if c == 0 && hi <= m {
			return hi
		}
	case OMul:
		h, l := bits.Mul64(a[0].umax, a[1].umax)
		if h == 0 && l <= m {
			return l
		}
	case OLshr:
		if a[1].isConst() && a[1].k < 64 {
			return a[0].umax >> a[1].k
		}
		return a[0].umax
	case OExtract:
		lo := t.k & 0xffff
		if a[0].srt <= 64 {
			if lo == 0 && a[0].umax <= m {
				return a[0].umax
			}
			if v := a[0].umax >> lo; v <= m {
				return v
			}
		}
	}
	return m
}

func umaxPow(lo, hi uint64) uint64 {
	if hi == 0 {
		return lo
	}
	return ^uint64(0)
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.srt == SBool && t.k == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.srt == SBool && t.k == 0 }

func (t *Term) sval() int64 { return sx(t.k, t.srt) }
func sx(k uint64, w Sort) int64 {
	if w >= 64 {
		return int64(k)
	}
	sh := uint(64 - w)
	return int64(k<<sh) >> sh
}

func (tb *TB) Const(w Sort, k uint64) *Term {
	if w <= 64 {
		k &= maskw(w)
		if k < 256 {
			c := tb.small[w]
			if c == nil {
				c = make([]*Term, 256)
				tb.small[w] = c
			}
			if c[k] == nil {
				c[k] = tb.mk(OConst, w, k, "")
			}
			return c[k]
		}
		return tb.mk(OConst, w, k, "")
	}
	if w.isFP() {
		return tb.mk(OConst, w, k, "")
	}
	return tb.mk(OConst, w, k, "")
}
func (tb *TB) Bool(b bool) *Term {
	if b {
		return tb.True
	}
	return tb.False
}
func (tb *TB) Int(i int) *Term            { return tb.Const(64, uint64(i)) }
func (tb *TB) F64(f float64) *Term        { return tb.mk(OConst, SF64, math.Float64bits(f), "") }
func (tb *TB) F32(f float32) *Term        { return tb.mk(OConst, SF32, uint64(math.Float32bits(f)), "") }
func (tb *TB) Var(n string, s Sort) *Term { return tb.mk(OVar, s, 0, n) }
func (tb *TB) UF(name string, s Sort, args ...*Term) *Term {
	t := tb.mk(OUF, s, 0, name, args...)
	t.vars = true
	return t
}

func (tb *TB) Not(a *Term) *Term {
	switch {
	case a.isConst():
		return tb.Bool(a.k == 0)
	case a.op == ONot:
		return a.args[0]
	case a.op == OUlt:
		return tb.Ule(a.args[1], a.args[0])
	case a.op == OUle:
		return tb.Ult(a.args[1], a.args[0])
	case a.op == OSlt:
		return tb.Sle(a.args[1], a.args[0])
	case a.op == OSle:
		return tb.Slt(a.args[1], a.args[0])
	}
	return tb.mk(ONot, SBool, 0, "", a)
}
func (tb *TB) And(a, b *Term) *Term {
	switch {
	case a.isFalse() || b.isFalse():
		return tb.False
	case a.isTrue():
		return b
	case b.isTrue():
		return a
	case a == b:
		return a
	case a == tb.notOf(b):
		return tb.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tb.mk(OAnd, SBool, 0, "", a, b)
}
func (tb *TB) notOf(a *Term) *Term {
	if a.op == ONot {
		return a.args[0]
	}
	if t, ok := tb.tab[tkey{op: ONot, srt: SBool, a: a.id, b: -1, c: -1}]; ok {
		return t
	}
	return nil
}
func (tb *TB) Or(a, b *Term) *Term {
	switch {
	case a.isTrue() || b.isTrue():
		return tb.True
	case a.isFalse():
		return b
	case b.isFalse():
		return a
	case a == b:
		return a
	case a == tb.notOf(b):
		return tb.True
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tb.mk(OOr, SBool, 0, "", a, b)
}
func (tb *TB) Ands(ts ...*Term) *Term {
	r := tb.True
	for _, t := range ts {
		r = tb.And(r, t)
	}
	return r
}

func (tb *TB) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.k == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.op == ONot {
		return tb.Ite(c.args[0], b, a)
	}
	if a.srt == SBool {
		switch {
		case a.isTrue() && b.isFalse():
			return c
		case a.isFalse() && b.isTrue():
			return tb.Not(c)
		case a.isTrue():
			return tb.Or(c, b)
		case a.isFalse():
			return tb.And(tb.Not(c), b)
		case b.isTrue():
			return tb.Or(tb.Not(c), a)
		case b.isFalse():
			return tb.And(c, a)
		}
	}
	if a.op == OIte && a.args[0] == c {
		return tb.Ite(c, a.args[1], b)
	}
	if b.op == OIte && b.args[0] == c {
		return tb.Ite(c, a, b.args[2])
	}
	if b.op == OIte && b.args[1] == a { // c?a:(d?a:e)
		return tb.Ite(tb.Or(c, b.args[0]), a, b.args[2])
	}
	return tb.mk(OIte, a.srt, 0, "", c, a, b)
}

func (tb *TB) Eq(a, b *Term) *Term {
	a, b = tb.canonize(a), tb.canonize(b)
	if a == b {
		if a.srt.isFP() {
			// structural equality of FP terms (used for bit identity only)
			return tb.True
		}
		return tb.True
	}
	if a.srt != b.srt {
		panic(fmt.Sprintf("Eq sort mismatch %v %v", a.srt, b.srt))
	}
	if a.isConst() && b.isConst() {
		return tb.Bool(a.k == b.k)
	}
	if a.srt == SBool {
		switch {
		case a.isTrue():
			return b
		case b.isTrue():
			return a
		case a.isFalse():
			return tb.Not(b)
		case b.isFalse():
			return tb.Not(a)
		}
	}
	if a.isConst() {
		a, b = b, a
	}
	if tb.raw {
		return tb.mk(OEq, SBool, 0, "", a, b)
	}
	if b.isConst() && a.srt.isBV() && a.srt <= 64 {
		if b.k > a.umax {
			return tb.False
		}
		switch a.op {
		case OIte:
			x, y := a.args[1], a.args[2]
			if x.isConst() && y.isConst() {
				if x.k == b.k {
					return a.args[0] // y differs, else folded
				}
				if y.k == b.k {
					return tb.Not(a.args[0])
				}
				return tb.False
			}
			if x.isConst() {
				if x.k == b.k {
					return tb.Or(a.args[0], tb.Eq(y, b))
				}
				return tb.And(tb.Not(a.args[0]), tb.Eq(y, b))
			}
			if y.isConst() {
				if y.k == b.k {
					return tb.Or(tb.Not(a.args[0]), tb.Eq(x, b))
				}
				return tb.And(a.args[0], tb.Eq(x, b))
			}
		case OZext:
			return tb.Eq(a.args[0], tb.Const(a.args[0].srt, b.k))
		case OConcat:
			lw := a.args[1].srt
			return tb.And(tb.Eq(a.args[0], tb.Const(a.args[0].srt, b.k>>uint(lw))), tb.Eq(a.args[1], tb.Const(lw, b.k)))
		case OAdd:
			if a.args[1].isConst() {
				return tb.Eq(a.args[0], tb.Const(a.srt, b.k-a.args[1].k))
			}
		case OBXor:
			if a.args[1].isConst() {
				return tb.Eq(a.args[0], tb.Const(a.srt, b.k^a.args[1].k))
			}
		case OSext:
			x := a.args[0]
			lo := tb.Const(x.srt, b.k)
			if uint64(lo.sval())&maskw(a.srt) == b.k {
				return tb.Eq(x, lo)
			}
			return tb.False
		}
	}
	if a.op == OZext && b.op == OZext && a.args[0].srt == b.args[0].srt {
		return tb.Eq(a.args[0], b.args[0])
	}
	if a.op == OSext && b.op == OSext && a.args[0].srt == b.args[0].srt {
		return tb.Eq(a.args[0], b.args[0])
	}
	if a.op == OConcat && b.op == OConcat && a.args[0].srt == b.args[0].srt {
		return tb.And(tb.Eq(a.args[0], b.args[0]), tb.Eq(a.args[1], b.args[1]))
	}
	if a.op == OAdd && b.op == OAdd && a.args[0] == b.args[0] {
		return tb.Eq(a.args[1], b.args[1])
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return tb.mk(OEq, SBool, 0, "", a, b)
}

func (tb *TB) Ult(a, b *Term) *Term {
	if a == b {
		return tb.False
	}
	if a.isConst() && b.isConst() && a.srt <= 64 {
		return tb.Bool(a.k < b.k)
	}
	if tb.raw {
		return tb.mk(OUlt, SBool, 0, "", a, b)
	}
	if a.srt <= 64 {
		if b.isConst() && a.umax < b.k {
			return tb.True
		}
		if b.isConst() && b.k == 0 {
			return tb.False
		}
		if b.isConst() && b.k == 1 {
			return tb.Eq(a, tb.Const(a.srt, 0))
		}
		if a.isConst() && a.k >= b.umax {
			return tb.False
		}
		if a.op == OZext && b.op == OZext && a.args[0].srt == b.args[0].srt {
			return tb.Ult(a.args[0], b.args[0])
		}
		if a.op == OZext && b.isConst() && b.k <= maskw(a.args[0].srt) {
			return tb.Ult(a.args[0], tb.Const(a.args[0].srt, b.k))
		}
		if b.op == OZext && a.isConst() && a.k <= maskw(b.args[0].srt) {
			return tb.Ult(tb.Const(b.args[0].srt, a.k), b.args[0])
		}
	}
	return tb.mk(OUlt, SBool, 0, "", a, b)
}
func (tb *TB) Ule(a, b *Term) *Term {
	if a == b {
		return tb.True
	}
	if a.isConst() && b.isConst() && a.srt <= 64 {
		return tb.Bool(a.k <= b.k)
	}
	if tb.raw {
		return tb.mk(OUle, SBool, 0, "", a, b)
	}
	if a.srt <= 64 {
		if b.isConst() && a.umax <= b.k {
			return tb.True
		}
		if a.isConst() && a.k == 0 {
			return tb.True
		}
		if a.isConst() && a.k > b.umax {
			return tb.False
		}
		if b.isConst() && b.k == 0 {
			return tb.Eq(a, b)
		}
		if a.op == OZext && b.op == OZext && a.args[0].srt == b.args[0].srt {
			return tb.Ule(a.args[0], b.args[0])
		}
		if a.op == OZext && b.isConst() && b.k <= maskw(a.args[0].srt) {
			return tb.Ule(a.args[0], tb.Const(a.args[0].srt, b.k))
		}
		if b.op == OZext && a.isConst() && a.k <= maskw(b.args[0].srt) {
			return tb.Ule(tb.Const(b.args[0].srt, a.k), b.args[0])
		}
	}
	return tb.mk(OUle, SBool, 0, "", a, b)
}

func (tb *TB) nonneg(a *Term) bool { return a.srt <= 64 && a.umax <= maskw(a.srt)>>1 }

func (tb *TB) Slt(a, b *Term) *Term {
	if a == b {
		return tb.False
	}
	if a.srt <= 64 {
		if a.isConst() && b.isConst() {
			return tb.Bool(a.sval() < b.sval())
		}
		if tb.raw {
			return tb.mk(OSlt, SBool, 0, "", a, b)
		}
		if tb.nonneg(a) && tb.nonneg(b) {
			return tb.Ult(a, b)
		}
		if tb.nonneg(a) && b.isConst() && b.sval() < 0 {
			return tb.False
		}
		if tb.nonneg(b) && a.isConst() && a.sval() < 0 {
			return tb.True
		}
		if a.op == OSext && b.op == OSext && a.args[0].srt == b.args[0].srt {
			return tb.Slt(a.args[0], b.args[0])
		}
	}
	return tb.mk(OSlt, SBool, 0, "", a, b)
}
func (tb *TB) Sle(a, b *Term) *Term {
	if a == b {
		return tb.True
	}
	if a.srt <= 64 {
		if a.isConst() && b.isConst() {
			return tb.Bool(a.sval() <= b.sval())
		}
		if tb.raw {
			return tb.mk(OSle, SBool, 0, "", a, b)
		}
		if tb.nonneg(a) && tb.nonneg(b) {
			return tb.Ule(a, b)
		}
		if tb.nonneg(a) && b.isConst() && b.sval() < 0 {
			return tb.False
		}
		if tb.nonneg(b) && a.isConst() && a.sval() <= 0 {
			return tb.True
		}
		if a.op == OSext && b.op == OSext && a.args[0].srt == b.args[0].srt {
			return tb.Sle(a.args[0], b.args[0])
		}
	}
	return tb.mk(OSle, SBool, 0, "", a, b)
}

func (tb *TB) Bin(op Op, a, b *Term) *Term {
	w := a.srt
	if w != b.srt {
		panic(fmt.Sprintf("Bin sort mismatch %d: %v %v", op, a.srt, b.srt))
	}
	if w > 64 {
		return tb.mk(op, w, 0, "", a, b)
	}
	if a.isConst() && b.isConst() {
		if r, ok := foldBin(op, a.k, b.k, w); ok {
			return tb.Const(w, r)
		}
	}
	a, b = tb.canonize(a), tb.canonize(b)
	if a.isConst() && b.isConst() {
		if r, ok := foldBin(op, a.k, b.k, w); ok {
			return tb.Const(w, r)
		}
	}
	if tb.raw && !(b.isConst() && b.k == 0) && !(a.isConst() && a.k == 0) {
		return tb.mk(op, w, 0, "", a, b)
	}
	switch op {
	case OAdd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.k == 0 {
			return a
		}
		if b.isConst() && a.op == OAdd && a.args[1].isConst() {
			return tb.Bin(OAdd, a.args[0], tb.Const(w, a.args[1].k+b.k))
		}
		// x/k*k + x%k == x
		if r := divModFold(a, b); r != nil {
			return r
		}
		if r := divModFold(b, a); r != nil {
			return r
		}
		// (x - y) + y == x
		if a.op == OSub && a.args[1] == b {
			return a.args[0]
		}
		if b.op == OSub && b.args[1] == a {
			return b.args[0]
		}
		if a.op == OAdd && a.args[1].isConst() {
			return tb.Bin(OAdd, tb.Bin(OAdd, a.args[0], b), a.args[1])
		}
		if b.op == OAdd && b.args[1].isConst() {
			return tb.Bin(OAdd, tb.Bin(OAdd, a, b.args[0]), b.args[1])
		}
		if !b.isConst() && a.id > b.id {
			a, b = b, a
		}
	case OSub:
		if a == b {
			return tb.Const(w, 0)
		}
		if b.isConst() {
			return tb.Bin(OAdd, a, tb.Const(w, -b.k))
		}
		if a.op == OAdd {
			if a.args[0] == b {
				return a.args[1]
			}
			if a.args[1] == b {
				return a.args[0]
			}
			if a.args[1].isConst() {
				return tb.Bin(OAdd, tb.Bin(OSub, a.args[0], b), a.args[1])
			}
		}
		if b.op == OAdd && b.args[1].isConst() {
			return tb.Bin(OAdd, tb.Bin(OSub, a, b.args[0]), tb.Const(w, -b.args[1].k))
		}
	case OMul:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
			if bits.OnesCount64(b.k) == 1 {
				return tb.Bin(OShl, a, tb.Const(w, uint64(bits.TrailingZeros64(b.k))))
			}
		} else if a.id > b.id {
			a, b = b, a
		}
	case OUDiv:
		if b.isConst() && b.k != 0 {
			if b.k == 1 {
				return a
			}
			if bits.OnesCount64(b.k) == 1 {
				return tb.Bin(OLshr, a, tb.Const(w, uint64(bits.TrailingZeros64(b.k))))
			}
			if a.umax < b.k {
				return tb.Const(w, 0)
			}
		}
	case OURem:
		if b.isConst() && b.k != 0 {
			if bits.OnesCount64(b.k) == 1 {
				return tb.Bin(OBAnd, a, tb.Const(w, b.k-1))
			}
			if a.umax < b.k {
				return a
			}
		}
	case OSDiv:
		if b.isConst() && b.sval() > 0 && tb.nonneg(a) {
			return tb.Bin(OUDiv, a, b)
		}
	case OSRem:
		if b.isConst() && b.sval() > 0 && tb.nonneg(a) {
			return tb.Bin(OURem, a, b)
		}
	case OBAnd:
		if a.isConst() {
			a, b = b, a
		}
		if a == b {
			return a
		}
		if b.isConst() {
			if b.k == 0 {
				return b
			}
			if b.k == maskw(w) {
				return a
			}
			if r := tb.maskConst(a, b.k); r != nil {
				return r
			}
		} else if a.id > b.id {
			a, b = b, a
		}
	case OBOr:
		if a.isConst() {
			a, b = b, a
		}
		if a == b {
			return a
		}
		if b.isConst() {
			if b.k == 0 {
				return a
			}
			if b.k == maskw(w) {
				return b
			}
		}
		if r := tb.orSegs(a, b); r != nil {
			return r
		}
		if !b.isConst() && a.id > b.id {
			a, b = b, a
		}
	case OBXor:
		if a.isConst() {
			a, b = b, a
		}
		if a == b {
			return tb.Const(w, 0)
		}
		if b.isConst() && b.k == 0 {
			return a
		}
		if b.isConst() && b.k == maskw(w) {
			return tb.BNot(a)
		}
		if a.op == OBXor {
			if a.args[0] == b {
				return a.args[1]
			}
			if a.args[1] == b {
				return a.args[0]
			}
			if a.args[1].isConst() && b.isConst() {
				return tb.Bin(OBXor, a.args[0], tb.Const(w, a.args[1].k^b.k))
			}
		}
		if r := tb.orSegs(a, b); r != nil {
			return r
		}
		if !b.isConst() && a.id > b.id {
			a, b = b, a
		}
	case OShl:
		if b.isConst() {
			if b.k == 0 {
				return a
			}
			if b.k >= uint64(w) {
				return tb.Const(w, 0)
			}
			return tb.Concat(tb.Extract(a, int(w)-1-int(b.k), 0), tb.Const(Sort(b.k), 0))
		}
	case OLshr:
		if b.isConst() {
			if b.k == 0 {
				return a
			}
			if b.k >= uint64(w) {
				return tb.Const(w, 0)
			}
			return tb.Zext(tb.Extract(a, int(w)-1, int(b.k)), w)
		}
	case OAshr:
		if b.isConst() {
			k := b.k
			if k >= uint64(w) {
				k = uint64(w) - 1
			}
			if k == 0 {
				return a
			}
			return tb.Sext(tb.Extract(a, int(w)-1, int(k)), w)
		}
	}
	return tb.mk(op, w, 0, "", a, b)
}

// divModFold: a = (x / k) * k (also k power of two is normalised away), b = x % k.
func divModFold(a, b *Term) *Term {
	if a.op == OMul && a.args[1].isConst() && a.args[0].op == OUDiv && b.op == OURem {
		d := a.args[0]
		if d.args[1] == a.args[1] && b.args[1] == d.args[1] && b.args[0] == d.args[0] {
			return b.args[0]
		}
	}
	return nil
}

func foldBin(op Op, x, y uint64, w Sort) (uint64, bool) {
	sx_, sy := sx(x, w), sx(y, w)
	switch op {
	case OAdd:
		return x + y, true
	case OSub:
		return x - y, true
	case OMul:
		return x * y, true
	case OUDiv:
		if y == 0 {
			return maskw(w), true
		}
		return x / y, true
	case OURem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case OSDiv:
		if y == 0 {
			return 0, false
		}
		if sy == -1 {
			return -x, true
		}
		return uint64(sx_ / sy), true
	case OSRem:
		if y == 0 {
			return 0, false
		}
		if sy == -1 {
			return 0, true
		}
		return uint64(sx_ % sy), true
	case OBAnd:
		return x & y, true
	case OBOr:
		return x | y, true
	case OBXor:
		return x ^ y, true
	case OShl:
		if y >= uint64(w) {
			return 0, true
		}
		return x << y, true
	case OLshr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OAshr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sx_ >> y), true
	}
	return 0, false
}

func (tb *TB) BNot(a *Term) *Term {
	if a.isConst() && a.srt <= 64 {
		return tb.Const(a.srt, ^a.k)
	}
	if a.op == OBNot {
		return a.args[0]
	}
	return tb.mk(OBNot, a.srt, 0, "", a)
}
func (tb *TB) Neg(a *Term) *Term {
	if a.isConst() && a.srt <= 64 {
		return tb.Const(a.srt, -a.k)
	}
	return tb.mk(ONeg, a.srt, 0, "", a)
}

func (tb *TB) Concat(hi, lo *Term) *Term {
	hi, lo = tb.canonize(hi), tb.canonize(lo)
	w := hi.srt + lo.srt
	if w <= 64 {
		if hi.isConst() && lo.isConst() {
			return tb.Const(w, hi.k<<uint(lo.srt)|lo.k)
		}
		if hi.isConst() && hi.k == 0 {
			return tb.Zext(lo, w)
		}
	}
	if tb.raw {
		return tb.mk(OConcat, w, 0, "", hi, lo)
	}
	// merge adjacent extracts
	if hi.op == OExtract && lo.op == OExtract && hi.args[0] == lo.args[0] {
		hlo := hi.k & 0xffff
		lhi := lo.k >> 16
		if hlo == lhi+1 {
			return tb.Extract(hi.args[0], int(hi.k>>16), int(lo.k&0xffff))
		}
	}
	// concat(a, concat(b,c)) with a,b mergeable
	if lo.op == OConcat && hi.op == OExtract && lo.args[0].op == OExtract && hi.args[0] == lo.args[0].args[0] &&
		hi.k&0xffff == lo.args[0].k>>16+1 {
		return tb.Concat(tb.Extract(hi.args[0], int(hi.k>>16), int(lo.args[0].k&0xffff)), lo.args[1])
	}
	// right-assoc normal form
	if hi.op == OConcat {
		return tb.Concat(hi.args[0], tb.Concat(hi.args[1], lo))
	}
	if hi.op == OZext && w <= 64 {
		return tb.Zext(tb.Concat(hi.args[0], lo), w)
	}
	return tb.mk(OConcat, w, 0, "", hi, lo)
}

func (tb *TB) Extract(a *Term, hi, lo int) *Term {
	w := Sort(hi - lo + 1)
	if w == a.srt {
		return a
	}
	if w <= 0 || hi >= int(a.srt) {
		panic("bad extract")
	}
	if a.isConst() && a.srt <= 64 {
		return tb.Const(w, a.k>>uint(lo))
	}
	if tb.raw {
		return tb.mk(OExtract, w, uint64(hi)<<16|uint64(lo), "", a)
	}
	switch a.op {
	case OExtract:
		l0 := int(a.k & 0xffff)
		return tb.Extract(a.args[0], hi+l0, lo+l0)
	case OConcat:
		lw := int(a.args[1].srt)
		if hi < lw {
			return tb.Extract(a.args[1], hi, lo)
		}
		if lo >= lw {
			return tb.Extract(a.args[0], hi-lw, lo-lw)
		}
		return tb.Concat(tb.Extract(a.args[0], hi-lw, 0), tb.Extract(a.args[1], lw-1, lo))
	case OZext:
		iw := int(a.args[0].srt)
		if lo >= iw {
			return tb.Const(w, 0)
		}
		if hi < iw {
			return tb.Extract(a.args[0], hi, lo)
		}
		return tb.Zext(tb.Extract(a.args[0], iw-1, lo), w)
	case OSext:
		iw := int(a.args[0].srt)
		if hi < iw {
			return tb.Extract(a.args[0], hi, lo)
		}
		if lo < iw {
			return tb.Sext(tb.Extract(a.args[0], iw-1, lo), w)
		}
	case OBAnd, OBOr, OBXor:
		return tb.Bin(a.op, tb.Extract(a.args[0], hi, lo), tb.Extract(a.args[1], hi, lo))
	case OBNot:
		return tb.BNot(tb.Extract(a.args[0], hi, lo))
	case OIte:
		if a.args[1].isConst() || a.args[2].isConst() || a.size < 64 {
			return tb.Ite(a.args[0], tb.Extract(a.args[1], hi, lo), tb.Extract(a.args[2], hi, lo))
		}
	case OAdd, OSub, OMul:
		if lo == 0 && a.srt <= 64 {
			return tb.Bin(a.op, tb.Extract(a.args[0], hi, 0), tb.Extract(a.args[1], hi, 0))
		}
	}
	return tb.mk(OExtract, w, uint64(hi)<<16|uint64(lo), "", a)
}

func (tb *TB) Zext(a *Term, w Sort) *Term {
	a = tb.canonize(a)
	if a.srt == w {
		return a
	}
	if a.srt > w {
		panic("zext")
	}
	if a.isConst() && a.srt <= 64 {
		return tb.Const(w, a.k)
	}
	if tb.raw {
		return tb.mk(OZext, w, 0, "", a)
	}
	if a.op == OZext {
		return tb.Zext(a.args[0], w)
	}
	return tb.mk(OZext, w, 0, "", a)
}
func (tb *TB) Sext(a *Term, w Sort) *Term {
	a = tb.canonize(a)
	if a.srt == w {
		return a
	}
	if a.isConst() && a.srt <= 64 && w <= 64 {
		return tb.Const(w, uint64(a.sval()))
	}
	if tb.raw {
		return tb.mk(OSext, w, 0, "", a)
	}
	if a.op == OSext {
		return tb.Sext(a.args[0], w)
	}
	if a.op == OZext {
		return tb.Zext(a.args[0], w)
	}
	if tb.nonneg(a) {
		return tb.Zext(a, w)
	}
	return tb.mk(OSext, w, 0, "", a)
}

// resize to width w, signed or not.
func (tb *TB) Resize(a *Term, w Sort, signed bool) *Term {
	switch {
	case a.srt == w:
		return a
	case a.srt > w:
		return tb.Extract(a, int(w)-1, 0)
	case signed:
		return tb.Sext(a, w)
	}
	return tb.Zext(a, w)
}

type seg struct {
	t *Term // nil = zero
	w int
}

// segments from high to low
func (tb *TB) segs(a *Term, out []seg) []seg {
	switch a.op {
	case OConcat:
		out = tb.segs(a.args[0], out)
		return tb.segs(a.args[1], out)
	case OZext:
		out = append(out, seg{nil, int(a.srt - a.args[0].srt)})
		return tb.segs(a.args[0], out)
	case OConst:
		if a.k == 0 {
			return append(out, seg{nil, int(a.srt)})
		}
		// split constants at zero runs, byte-ish
		w := int(a.srt)
		for w > 0 {
			bit := a.k >> uint(w-1) & 1
			n := 1
			for n < w && a.k>>uint(w-1-n)&1 == bit {
				n++
			}
			if bit == 0 {
				out = append(out, seg{nil, n})
			} else {
				out = append(out, seg{tb.Const(Sort(n), ^uint64(0)), n})
			}
			w -= n
		}
		return out
	}
	return append(out, seg{a, int(a.srt)})
}

func (tb *TB) orSegs(a, b *Term) *Term {
	if a.srt > 64 || !(a.op == OConcat || a.op == OZext || b.op == OConcat || b.op == OZext) {
		return nil
	}
	sa, sb := tb.segs(a, nil), tb.segs(b, nil)
	var res []seg
	for len(sa) > 0 {
		w := min(sa[0].w, sb[0].w)
		x, y := sa[0], sb[0]
		if x.t != nil && y.t != nil {
			return nil
		}
		take := func(s *[]seg) *Term {
			h := (*s)[0]
			var r *Term
			if h.t != nil {
				r = tb.Extract(h.t, h.w-1, h.w-w)
			}
			if h.w == w {
				*s = (*s)[1:]
			} else {
				rest := seg{nil, h.w - w}
				if h.t != nil {
					rest.t = tb.Extract(h.t, h.w-w-1, 0)
				}
				ns := append([]seg{rest}, (*s)[1:]...)
				*s = ns
			}
			return r
		}
		p, q := take(&sa), take(&sb)
		if p == nil {
			p = q
		}
		res = append(res, seg{p, w})
	}
	return tb.fromSegs(res)
}

func (tb *TB) fromSegs(res []seg) *Term {
	var r *Term
	for i := len(res) - 1; i >= 0; i-- {
		t := res[i].t
		if t == nil {
			t = tb.Const(Sort(res[i].w), 0)
		}
		if r == nil {
			r = t
		} else {
			r = tb.Concat(t, r)
		}
	}
	return r
}

// a & constmask as concat of extracts and zeros, when the mask has few runs.
func (tb *TB) maskConst(a *Term, m uint64) *Term {
	w := int(a.srt)
	if w > 64 {
		return nil
	}
	var res []seg
	i := w
	for i > 0 {
		bit := m >> uint(i-1) & 1
		n := 1
		for n < i && m>>uint(i-1-n)&1 == bit {
			n++
		}
		if bit == 0 {
			res = append(res, seg{nil, n})
		} else {
			res = append(res, seg{tb.Extract(a, i-1, i-n), n})
		}
		i -= n
		if len(res) > 8 {
			return nil
		}
	}
	return tb.fromSegs(res)
}

// ---- floats ----
func fval(t *Term) float64 {
	if t.srt == SF32 {
		return float64(math.Float32frombits(uint32(t.k)))
	}
	return math.Float64frombits(t.k)
}
func (tb *TB) fconst(s Sort, f float64) *Term {
	if s == SF32 {
		return tb.F32(float32(f))
	}
	return tb.F64(f)
}

func foldF(op Op, s Sort, x, y float64) float64 {
	if s == SF32 {
		a, b := float32(x), float32(y)
		switch op {
		case OFAdd:
			return float64(a + b)
		case OFSub:
			return float64(a - b)
		case OFMul:
			return float64(a * b)
		case OFDiv:
			return float64(a / b)
		}
	}
	switch op {
	case OFAdd:
		return x + y
	case OFSub:
		return x - y
	case OFMul:
		return x * y
	case OFDiv:
		return x / y
	}
	panic("foldF")
}

func (tb *TB) FBin(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tb.fconst(a.srt, foldF(op, a.srt, fval(a), fval(b)))
	}
	return tb.mk(op, a.srt, 0, "", a, b)
}
func (tb *TB) FCmp(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		x, y := fval(a), fval(b)
		switch op {
		case OFLt:
			return tb.Bool(x < y)
		case OFLe:
			return tb.Bool(x <= y)
		case OFEq:
			return tb.Bool(x == y)
		}
	}
	return tb.mk(op, SBool, 0, "", a, b)
}
func (tb *TB) FUn(op Op, a *Term) *Term {
	if a.isConst() {
		x := fval(a)
		switch op {
		case OFNeg:
			return tb.fconst(a.srt, -x)
		case OFAbs:
			return tb.fconst(a.srt, math.Abs(x))
		case OFSqrt:
			return tb.fconst(a.srt, math.Sqrt(x))
		case OFFloor:
			return tb.fconst(a.srt, math.Floor(x))
		case OFCeil:
			return tb.fconst(a.srt, math.Ceil(x))
		case OFTrunc:
			return tb.fconst(a.srt, math.Trunc(x))
		case OFRound:
			return tb.fconst(a.srt, math.Round(x))
		}
	}
	return tb.mk(op, a.srt, 0, "", a)
}
func (tb *TB) FIsNaN(a *Term) *Term {
	if a.isConst() {
		return tb.Bool(math.IsNaN(fval(a)))
	}
	return tb.mk(OFIsNaN, SBool, 0, "", a)
}
func (tb *TB) FFromInt(a *Term, s Sort, signed bool) *Term {
	if a.isConst() {
		var f float64
		if signed {
			if s == SF32 {
				f = float64(float32(a.sval()))
			} else {
				f = float64(a.sval())
			}
		} else {
			if s == SF32 {
				f = float64(float32(a.k))
			} else {
				f = float64(a.k)
			}
		}
		return tb.fconst(s, f)
	}
	if signed {
		return tb.mk(OFFromS, s, 0, "", a)
	}
	return tb.mk(OFFromU, s, 0, "", a)
}

// FToInt follows amd64 for out-of-range signed 64-bit conversion (0x8000...).
func (tb *TB) FToInt(a *Term, w Sort, signed bool) *Term {
	if a.isConst() {
		x := fval(a)
		if signed {
			return tb.Const(w, uint64(int64(x)))
		}
		return tb.Const(w, uint64(x))
	}
	if w < 64 || !signed { // go via int64 for narrow types (amd64 behaviour)
		if w < 64 {
			return tb.Extract(tb.FToInt(a, 64, true), int(w)-1, 0)
		}
		return tb.mk(OFToU, w, 0, "", a)
	}
	lo, hi := tb.fconst(a.srt, -9223372036854775808.0), tb.fconst(a.srt, 9223372036854775808.0)
	in := tb.And(tb.FCmp(OFLe, lo, a), tb.FCmp(OFLt, a, hi))
	return tb.Ite(in, tb.mk(OFToS, w, 0, "", a), tb.Const(64, 1<<63))
}
func (tb *TB) FToF(a *Term, s Sort) *Term {
	if a.srt == s {
		return a
	}
	if a.isConst() {
		return tb.fconst(s, fval(a))
	}
	return tb.mk(OFToF, s, 0, "", a)
}
func (tb *TB) FFromBits(a *Term, s Sort) *Term {
	if a.isConst() {
		return tb.mk(OConst, s, a.k, "")
	}
	return tb.mk(OFFromBV, s, 0, "", a)
}

// ---- mux over a slice of terms by symbolic index (index known in range) ----
func (tb *TB) Mux(idx *Term, el []*Term) *Term {
	if idx.isConst() {
		return el[idx.k]
	}
	nb := bits.Len(uint(len(el) - 1))
	var rec func(bit int, base int) *Term
	rec = func(bit int, base int) *Term {
		if bit < 0 {
			if base >= len(el) {
				base = len(el) - 1
			}
			return el[base]
		}
		lo := rec(bit-1, base)
		if base+1<<uint(bit) >= len(el) {
			return lo
		}
		hi := rec(bit-1, base+1<<uint(bit))
		if lo == hi {
			return lo
		}
		return tb.Ite(tb.Eq(tb.Extract(idx, bit, bit), tb.Const(1, 1)), hi, lo)
	}
	return rec(nb-1, 0)
}

// ---- evaluation under a model ----
type Model struct {
	v map[string]uint64 // vars
	u map[string]uint64 // UF apps, keyed by printed application with evaluated args
}

type evalr struct {
	tb   *TB
	m    *Model
	memo map[*Term]evr
	leaf leafI // truth-table evaluation: the only variable
	lv   uint64
}
type evr struct {
	k  uint64
	ok bool
}

func (e *evalr) eval(t *Term) (uint64, bool) {
	if t.op == OConst {
		return t.k, true
	}
	if l := e.leaf.t; l != nil {
		if t == l {
			return e.lv << uint(e.leaf.lo), true
		}
		if t.op == OExtract && t.args[0] == l {
			return e.lv >> (uint(t.k&0xffff) - uint(e.leaf.lo)) & maskw(t.srt), true
		}
		if t.op == OVar {
			return 0, false
		}
	}
	if t.op == OVar {
		return e.m.v[t.name], true
	}
	if r, ok := e.memo[t]; ok {
		return r.k, r.ok
	}
	k, ok := e.eval1(t)
	e.memo[t] = evr{k, ok}
	return k, ok
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func ufKey(name string, s Sort, args []uint64) string {
	var sb strings.Builder
	sb.WriteString(name)
	for _, a := range args {
		fmt.Fprintf(&sb, ",%x", a)
	}
	return sb.String()
}

func (e *evalr) eval1(t *Term) (uint64, bool) {
	a := t.args
	switch t.op {
	case OAnd:
		x, ok := e.eval(a[0])
		if ok && x == 0 {
			return 0, true
		}
		y, ok2 := e.eval(a[1])
		if ok2 && y == 0 {
			return 0, true
		}
		return 1, ok && ok2
	case OOr:
		x, ok := e.eval(a[0])
		if ok && x == 1 {
			return 1, true
		}
		y, ok2 := e.eval(a[1])
		if ok2 && y == 1 {
			return 1, true
		}
		return 0, ok && ok2
	case OIte:
		c, ok := e.eval(a[0])
		if !ok {
			return 0, false
		}
		if c == 1 {
			return e.eval(a[1])
		}
		return e.eval(a[2])
	}
	if t.srt > 64 && t.srt.isBV() {
		return 0, false
	}
	vs := make([]uint64, len(a))
	for i, x := range a {
		if x.srt > 64 && x.srt.isBV() {
			return 0, false
		}
		v, ok := e.eval(x)
		if !ok {
			return 0, false
		}
		vs[i] = v
	}
	w := t.srt
	switch t.op {
	case ONot:
		return 1 - vs[0], true
	case OEq:
		return b2u(vs[0] == vs[1]), true
	case OAdd, OSub, OMul, OUDiv, OURem, OSDiv, OSRem, OBAnd, OBOr, OBXor, OShl, OLshr, OAshr:
		r, ok := foldBin(t.op, vs[0], vs[1], w)
		return r & maskw(w), ok
	case OBNot:
		return ^vs[0] & maskw(w), true
	case ONeg:
		return -vs[0] & maskw(w), true
	case OConcat:
		return (vs[0]<<uint(a[1].srt) | vs[1]) & maskw(w), true
	case OExtract:
		return vs[0] >> (t.k & 0xffff) & maskw(w), true
	case OZext:
		return vs[0], true
	case OSext:
		return uint64(sx(vs[0], a[0].srt)) & maskw(w), true
	case OUlt:
		return b2u(vs[0] < vs[1]), true
	case OUle:
		return b2u(vs[0] <= vs[1]), true
	case OSlt:
		return b2u(sx(vs[0], a[0].srt) < sx(vs[1], a[0].srt)), true
	case OSle:
		return b2u(sx(vs[0], a[0].srt) <= sx(vs[1], a[0].srt)), true
	case OUF:
		v, ok := e.m.u[ufKey(t.name, w, vs)]
		return v, ok
	}
	// floats
	f := func(i int) float64 {
		if a[i].srt == SF32 {
			return float64(math.Float32frombits(uint32(vs[i])))
		}
		return math.Float64frombits(vs[i])
	}
	enc := func(x float64) (uint64, bool) {
		if t.srt == SF32 {
			return uint64(math.Float32bits(float32(x))), true
		}
		return math.Float64bits(x), true
	}
	switch t.op {
	case OFAdd, OFSub, OFMul, OFDiv:
		return enc(foldF(t.op, t.srt, f(0), f(1)))
	case OFNeg:
		return enc(-f(0))
	case OFAbs:
		return enc(math.Abs(f(0)))
	case OFSqrt:
		return enc(math.Sqrt(f(0)))
	case OFFloor:
		return enc(math.Floor(f(0)))
	case OFCeil:
		return enc(math.Ceil(f(0)))
	case OFTrunc:
		return enc(math.Trunc(f(0)))
	case OFRound:
		return enc(math.Round(f(0)))
	case OFLt:
		return b2u(f(0) < f(1)), true
	case OFLe:
		return b2u(f(0) <= f(1)), true
	case OFEq:
		return b2u(f(0) == f(1)), true
	case OFIsNaN:
		return b2u(math.IsNaN(f(0))), true
	case OFFromS:
		v := sx(vs[0], a[0].srt)
		if t.srt == SF32 {
			return enc(float64(float32(v)))
		}
		return enc(float64(v))
	case OFFromU:
		if t.srt == SF32 {
			return enc(float64(float32(vs[0])))
		}
		return enc(float64(vs[0]))
	case OFToS:
		return uint64(int64(f(0))) & maskw(w), true
	case OFToU:
		return uint64(f(0)) & maskw(w), true
	case OFToF:
		return enc(f(0))
	case OFFromBV:
		return vs[0], true
	}
	return 0, false
}
