package main

import (
	"fmt"
	"go/types"
	"math"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value representations:
//
//	bool/int/uint/float   *Term
//	string                *Str
//	pointer               *Value (slot) | *SymPtr | *DataPtr | *Opaque
//	struct / array        Struct / Array (slots live inside)
//	slice                 Slice
//	interface             Iface
//	map, chan, func       *MapObj, *ChanObj, *Closure
//	tuple                 Tuple
//	anything unknown      Poison (only produced while initialising non-target packages)
type Value = any

type Struct []Value
type Array []Value
type Slice []Value
type Tuple []Value

type Str struct {
	s string
	b []*Term // symbolic when non-nil
}

func (s *Str) len() int {
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

type Iface struct {
	t types.Type
	v Value
}

type SymPtr struct {
	arr []Value
	idx *Term
}

// DataPtr is the result of unsafe.SliceData / unsafe.StringData.
type DataPtr struct {
	sl  Slice
	str *Str
}

type Opaque struct{ what string }

type Closure struct {
	fn  *ssa.Function
	env []Value
	nat func(w *Worker, fr *Frame, args []Value) Value
	nm  string
}

type Poison struct{ why string }

type mapEnt struct {
	k    Value
	v    Value
	dead bool
	sym  bool
	ks   string
}

type MapObj struct {
	ents  []*mapEnt
	idx   map[string]*mapEnt
	nsym  int
	n     int
	kt    types.Type
	slot  *Value // race-detection shadow
	epoch int
}

type chanMsg struct {
	v  Value
	vc VC
}

type ChanObj struct {
	id     int
	cap    int
	buf    []chanMsg
	closed bool
	clVC   VC
	rcvVC  VC
	// rendezvous
	recvq []*waiter
	sendq []*waiter
	et    types.Type
}

type waiter struct {
	th   *Thread
	sel  *selState
	ci   int
	v    Value
	ok   bool
	done *bool
}
type selState struct {
	fired bool
	idx   int
	v     Value
	ok    bool
}

func nilPtr() Value { return (*Value)(nil) }

func isNilPtr(v Value) bool {
	switch p := v.(type) {
	case *Value:
		return p == nil
	case nil:
		return true
	}
	return false
}

func (w *Worker) mkStr(b []*Term) *Str {
	if len(b) == 0 {
		return emptyStr
	}
	for _, t := range b {
		if !t.isConst() {
			return &Str{b: b}
		}
	}
	bs := make([]byte, len(b))
	for i, t := range b {
		bs[i] = byte(t.k)
	}
	return &Str{s: string(bs)}
}

var emptyStr = &Str{}

func (w *Worker) strBytes(s *Str) []*Term {
	if s.b != nil {
		return s.b
	}
	r := make([]*Term, len(s.s))
	for i := range r {
		r[i] = w.tb.Const(8, uint64(s.s[i]))
	}
	return r
}
func (w *Worker) strAt(s *Str, i int) *Term {
	if s.b != nil {
		return s.b[i]
	}
	return w.tb.Const(8, uint64(s.s[i]))
}
func (w *Worker) strSlice(s *Str, i, j int) *Str {
	if w.aliasOf != nil {
		if sl := w.aliasOf[s]; sl != nil {
			return w.aliasStr(sl[i:j])
		}
	}
	if s.b != nil {
		return w.mkStr(s.b[i:j])
	}
	return &Str{s: s.s[i:j]}
}
func (w *Worker) bytesOf(v Slice) []*Term {
	r := make([]*Term, len(v))
	for i, x := range v {
		t, ok := x.(*Term)
		if !ok {
			w.unsupported("non-term byte %T", x)
		}
		r[i] = t
	}
	return r
}
func (w *Worker) termsToSlice(b []*Term) Slice {
	r := make(Slice, len(b))
	for i, t := range b {
		r[i] = t
	}
	return r
}
func (w *Worker) concat(a, b *Str) *Str {
	if a.b == nil && b.b == nil {
		return &Str{s: a.s + b.s}
	}
	return w.mkStr(append(append([]*Term(nil), w.strBytes(a)...), w.strBytes(b)...))
}

func widthOf(t types.Type) (Sort, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return -1, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return SBool, false
	case types.Int8:
		return 8, true
	case types.Uint8:
		return 8, false
	case types.Int16:
		return 16, true
	case types.Uint16:
		return 16, false
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Uint32:
		return 32, false
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	case types.Float32:
		return SF32, true
	case types.Float64, types.UntypedFloat:
		return SF64, true
	}
	return -1, false
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isIface(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

func (w *Worker) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return emptyStr
		}
		if u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil {
			return nilPtr()
		}
		s, _ := widthOf(t)
		if s < 0 {
			return Poison{"zero " + t.String()}
		}
		if s == SBool {
			return w.tb.False
		}
		return w.tb.Const(s, 0)
	case *types.Pointer:
		return nilPtr()
	case *types.Struct:
		r := make(Struct, u.NumFields())
		for i := range r {
			r[i] = w.zero(u.Field(i).Type())
		}
		return r
	case *types.Array:
		r := make(Array, u.Len())
		if len(r) > 0 {
			z := w.zero(u.Elem())
			for i := range r {
				r[i] = copyVal(z)
			}
		}
		return r
	case *types.Slice:
		return Slice(nil)
	case *types.Interface:
		return Iface{}
	case *types.Map:
		return (*MapObj)(nil)
	case *types.Chan:
		return (*ChanObj)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Tuple:
		r := make(Tuple, u.Len())
		for i := range r {
			r[i] = w.zero(u.At(i).Type())
		}
		return r
	}
	w.unsupported("zero of %v", t)
	return nil
}

func copyVal(v Value) Value {
	switch x := v.(type) {
	case Struct:
		r := make(Struct, len(x))
		for i, e := range x {
			r[i] = copyVal(e)
		}
		return r
	case Array:
		r := make(Array, len(x))
		for i, e := range x {
			r[i] = copyVal(e)
		}
		return r
	}
	return v
}

type trailEntry struct {
	p   *Value
	old Value
	fn  func()
}

func (w *Worker) set(p *Value, v Value) {
	if w.trailOn {
		w.trail = append(w.trail, trailEntry{p: p, old: *p})
	}
	*p = v
	if w.aliases != nil {
		for _, s := range w.aliases[p] {
			n := w.mkStr(w.bytesOf(w.aliasOf[s]))
			s.s, s.b = n.s, n.b
		}
	}
}

// aliasStr is a string sharing memory with sl (unsafe.String): it changes with it.
func (w *Worker) aliasStr(sl Slice) *Str {
	r := w.mkStr(w.bytesOf(sl))
	if len(sl) == 0 || w.initMode > 0 {
		return r
	}
	r = &Str{s: r.s, b: r.b}
	if w.aliases == nil {
		w.aliases, w.aliasOf = map[*Value][]*Str{}, map[*Str]Slice{}
	}
	for i := range sl {
		w.aliases[&sl[i]] = append(w.aliases[&sl[i]], r)
	}
	w.aliasOf[r] = sl
	return r
}

// assign stores v in slot p, keeping aggregate slots in place.
func (w *Worker) assign(p *Value, v Value) {
	switch x := v.(type) {
	case Struct:
		d, ok := (*p).(Struct)
		if !ok || len(d) != len(x) {
			w.set(p, copyVal(x))
			return
		}
		for i := range x {
			w.assign(&d[i], x[i])
		}
		return
	case Array:
		d, ok := (*p).(Array)
		if !ok || len(d) != len(x) {
			w.set(p, copyVal(x))
			return
		}
		if len(d) > 0 && &d[0] == &x[0] {
			return
		}
		for i := range x {
			w.assign(&d[i], x[i])
		}
		return
	}
	w.set(p, v)
}

func (w *Worker) undoTrail() {
	for i := len(w.trail) - 1; i >= 0; i-- {
		e := w.trail[i]
		if e.fn != nil {
			e.fn()
		} else {
			*e.p = e.old
		}
	}
	clear(w.trail)
	w.trail = w.trail[:0]
}

// eq builds the term for a == b (Go semantics), both of static type t.
func (w *Worker) eq(a, b Value, t types.Type) *Term {
	tb := w.tb
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			w.unsupported("eq %T %T", a, b)
		}
		if x.srt.isFP() {
			return tb.FCmp(OFEq, x, y)
		}
		return tb.Eq(x, y)
	case *Str:
		return w.strEq(x, b.(*Str))
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			w.unsupported("eq iface %T", b)
		}
		if x.t == nil || y.t == nil {
			return tb.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return tb.False
		}
		if !types.Comparable(x.t) {
			w.goPanicStr("runtime error: comparing uncomparable type " + x.t.String())
		}
		return w.eq(x.v, y.v, x.t)
	case Struct:
		y := b.(Struct)
		st := t.Underlying().(*types.Struct)
		r := tb.True
		for i := range x {
			if st.Field(i).Name() == "_" {
				continue
			}
			r = tb.And(r, w.eq(x[i], y[i], st.Field(i).Type()))
			if r.isFalse() {
				return r
			}
		}
		return r
	case Array:
		y := b.(Array)
		et := t.Underlying().(*types.Array).Elem()
		r := tb.True
		for i := range x {
			r = tb.And(r, w.eq(x[i], y[i], et))
			if r.isFalse() {
				return r
			}
		}
		return r
	case *Value:
		switch y := b.(type) {
		case *Value:
			return tb.Bool(x == y)
		case *SymPtr:
			return w.eq(b, a, t)
		}
		return tb.False
	case *SymPtr:
		switch y := b.(type) {
		case *Value:
			if y == nil {
				return tb.False
			}
			for i := range x.arr {
				if &x.arr[i] == y {
					return tb.Eq(x.idx, tb.Int(i))
				}
			}
			return tb.False
		case *SymPtr:
			if len(x.arr) > 0 && len(y.arr) > 0 && &x.arr[0] == &y.arr[0] {
				return tb.Eq(x.idx, y.idx)
			}
		}
		w.unsupported("eq symbolic pointers")
	case *DataPtr:
		y, ok := b.(*Value)
		if ok && y == nil {
			return tb.False
		}
		return tb.Bool(a == b)
	case *Opaque:
		return tb.Bool(a == b)
	case *MapObj:
		y, _ := b.(*MapObj)
		return tb.Bool(x == y)
	case *ChanObj:
		y, _ := b.(*ChanObj)
		return tb.Bool(x == y)
	case *Closure:
		y, _ := b.(*Closure)
		return tb.Bool(x == y)
	case Slice:
		y, _ := b.(Slice)
		return tb.Bool(x == nil && y == nil)
	}
	w.unsupported("eq of %T", a)
	return nil
}

func (w *Worker) strEq(x, y *Str) *Term {
	tb := w.tb
	if x == y {
		return tb.True
	}
	if x.len() != y.len() {
		return tb.False
	}
	if x.b == nil && y.b == nil {
		return tb.Bool(x.s == y.s)
	}
	r := tb.True
	for i := 0; i < x.len(); i++ {
		r = tb.And(r, tb.Eq(w.strAt(x, i), w.strAt(y, i)))
		if r.isFalse() {
			return r
		}
	}
	return r
}

// bytesLess: lexicographic a < b (or <=)
func (w *Worker) bytesLess(a, b []*Term, orEq bool) *Term {
	tb := w.tb
	n := min(len(a), len(b))
	var r *Term
	if len(a) < len(b) {
		r = tb.True
	} else if len(a) == len(b) {
		r = tb.Bool(orEq)
	} else {
		r = tb.False
	}
	for i := n - 1; i >= 0; i-- {
		r = tb.Or(tb.Ult(a[i], b[i]), tb.And(tb.Eq(a[i], b[i]), r))
	}
	return r
}

func (w *Worker) strLess(x, y *Str, orEq bool) *Term {
	if x.b == nil && y.b == nil {
		if orEq {
			return w.tb.Bool(x.s <= y.s)
		}
		return w.tb.Bool(x.s < y.s)
	}
	return w.bytesLess(w.strBytes(x), w.strBytes(y), orEq)
}

// keyStr renders a fully concrete, hashable key.
func keyStr(v Value, sb *strings.Builder) bool {
	switch x := v.(type) {
	case *Term:
		if !x.isConst() {
			return false
		}
		if x.srt.isFP() {
			f := fval(x)
			if f == 0 {
				f = 0
			}
			if math.IsNaN(f) {
				return false
			}
			fmt.Fprintf(sb, "f%x;", math.Float64bits(f+0))
			return true
		}
		fmt.Fprintf(sb, "%d:%x;", x.srt, x.k)
		return true
	case *Str:
		if x.b != nil {
			return false
		}
		fmt.Fprintf(sb, "s%d:%s;", len(x.s), x.s)
		return true
	case Iface:
		if x.t == nil {
			sb.WriteString("nil;")
			return true
		}
		sb.WriteString("i" + types.TypeString(x.t, nil) + "(")
		ok := keyStr(x.v, sb)
		sb.WriteString(")")
		return ok
	case Struct:
		for _, e := range x {
			if !keyStr(e, sb) {
				return false
			}
		}
		return true
	case Array:
		for _, e := range x {
			if !keyStr(e, sb) {
				return false
			}
		}
		return true
	case *Value, *ChanObj, *Opaque, *DataPtr:
		fmt.Fprintf(sb, "p%p;", x)
		return true
	}
	return false
}

func (w *Worker) newMap(kt types.Type) *MapObj {
	return &MapObj{idx: map[string]*mapEnt{}, kt: kt, slot: new(Value)}
}

func (w *Worker) mapFind(m *MapObj, k Value) *mapEnt {
	if i, ok := k.(Iface); ok && i.t != nil && !types.Comparable(i.t) {
		w.goPanicStr("runtime error: hash of unhashable type " + i.t.String())
	}
	if m == nil {
		return nil
	}
	var sb strings.Builder
	conc := keyStr(k, &sb)
	if conc {
		if e := m.idx[sb.String()]; e != nil {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
	}
	for _, e := range m.ents {
		if e.dead || (conc && !e.sym) {
			continue
		}
		c := w.eq(e.k, k, m.kt)
		if w.branch(c) {
			return e
		}
	}
	return nil
}

func (w *Worker) mapSet(m *MapObj, k, v Value) {
	if e := w.mapFind(m, k); e != nil {
		old := e.v
		e.v = copyVal(v)
		w.trailFn(func() { e.v = old })
		return
	}
	e := &mapEnt{k: copyVal(k), v: copyVal(v)}
	var sb strings.Builder
	if keyStr(k, &sb) {
		e.ks = sb.String()
		m.idx[e.ks] = e
	} else {
		e.sym = true
		m.nsym++
	}
	m.ents = append(m.ents, e)
	m.n++
	n := len(m.ents)
	w.trailFn(func() {
		m.ents = m.ents[:n-1]
		m.n--
		if e.sym {
			m.nsym--
		} else {
			delete(m.idx, e.ks)
		}
	})
}

func (w *Worker) trailFn(f func()) {
	if w.trailOn {
		w.trail = append(w.trail, trailEntry{fn: f})
	}
}

func (w *Worker) mapDelete(m *MapObj, k Value) {
	if e := w.mapFind(m, k); e != nil {
		w.mapDelEnt(m, e)
	}
}
func (w *Worker) mapDelEnt(m *MapObj, e *mapEnt) {
	e.dead = true
	m.n--
	if e.sym {
		m.nsym--
	} else {
		delete(m.idx, e.ks)
	}
	w.trailFn(func() {
		e.dead = false
		m.n++
		if e.sym {
			m.nsym++
		} else {
			m.idx[e.ks] = e
		}
	})
}
func (w *Worker) mapClear(m *MapObj) {
	for _, e := range m.ents {
		if !e.dead {
			w.mapDelEnt(m, e)
		}
	}
}

// growCap computes the capacity Go's append would choose.
type gk struct {
	es             int64
	scan           bool
	ol, oc, newlen int
}

func hasPointers(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0 || u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPointers(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return u.Len() > 0 && hasPointers(u.Elem())
	}
	return true
}

var stdSizes = types.SizesFor("gc", "amd64")

func (w *Worker) growCap(et types.Type, oldlen, oldcap, newlen int) int {
	es := stdSizes.Sizeof(et)
	if es == 0 {
		return newlen
	}
	k := gk{es, hasPointers(et), oldlen, oldcap, newlen}
	if c, ok := w.growCache[k]; ok {
		return c
	}
	var rt reflect.Type
	if k.scan {
		rt = reflect.ArrayOf(int(es/8), reflect.TypeOf((*byte)(nil)))
	} else {
		rt = reflect.ArrayOf(int(es), reflect.TypeOf(byte(0)))
	}
	var c int
	if int64(newlen)*es > 1<<26 {
		c = newlen
	} else {
		s := reflect.MakeSlice(reflect.SliceOf(rt), oldlen, oldcap)
		s = reflect.AppendSlice(s, reflect.MakeSlice(reflect.SliceOf(rt), newlen-oldlen, newlen-oldlen))
		c = s.Cap()
	}
	w.growCache[k] = c
	return c
}

func (w *Worker) appendVals(s Slice, add []Value, et types.Type) Slice {
	if len(add) == 0 {
		return s
	}
	n := len(s) + len(add)
	if n <= cap(s) {
		r := s[:n]
		if len(add) > 0 && len(s) > 0 {
			// possible overlap: snapshot
			tmp := make([]Value, len(add))
			for i, v := range add {
				tmp[i] = copyVal(v)
			}
			add = tmp
		}
		for i, v := range add {
			w.assign(&r[len(s)+i], v)
		}
		return r
	}
	c := w.growCap(et, len(s), cap(s), n)
	r := make(Slice, n, c)
	for i, v := range s {
		r[i] = copyVal(v)
	}
	for i, v := range add {
		r[len(s)+i] = copyVal(v)
	}
	if c > n {
		z := w.zero(et)
		x := r[:c]
		for i := n; i < c; i++ {
			x[i] = copyVal(z)
		}
	}
	return r
}

func (w *Worker) makeSlice(et types.Type, n, c int) Slice {
	r := make(Slice, c)
	z := w.zero(et)
	switch z.(type) {
	case Struct, Array:
		for i := range r {
			r[i] = copyVal(z)
		}
	default:
		for i := range r {
			r[i] = z
		}
	}
	return r[:n]
}

// show renders a value (for reports)
func show(v Value, depth int) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case *Term:
		if x.isConst() {
			if x.srt == SBool {
				return fmt.Sprint(x.k == 1)
			}
			if x.srt.isFP() {
				return fmt.Sprint(fval(x))
			}
			return fmt.Sprint(x.sval())
		}
		return "<sym>"
	case *Str:
		if x.b == nil {
			return fmt.Sprintf("%q", x.s)
		}
		return "<symstr>"
	case Iface:
		if x.t == nil {
			return "nil"
		}
		if depth > 0 {
			return types.TypeString(x.t, func(p *types.Package) string { return p.Name() }) + "(" + show(x.v, depth-1) + ")"
		}
		return "iface"
	case *Value:
		if x == nil {
			return "nil"
		}
		if depth > 0 {
			return "&" + show(*x, depth-1)
		}
		return "ptr"
	case Struct:
		var p []string
		for _, e := range x {
			p = append(p, show(e, depth-1))
		}
		return "{" + strings.Join(p, " ") + "}"
	case Slice:
		return fmt.Sprintf("slice(len=%d)", len(x))
	case Poison:
		return "poison:" + x.why
	}
	return fmt.Sprintf("%T", v)
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
