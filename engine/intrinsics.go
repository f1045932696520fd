package main

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"strings"
	"unsafe"
)

type intrinsic func(w *Worker, fr *Frame, a []Value) Value

var intrinsics map[string]intrinsic
var opaqueMethods map[string]intrinsic

// ---------- sync objects ----------
type mutexSt struct {
	locked  bool
	owner   int
	readers int
	wwait   int
	vc, rvc VC
}
type wgSt struct {
	n  int
	vc VC
}
type condSt struct{ q []*bool }
type syncMapSt struct {
	m  *MapObj
	vc VC
}
type poolSt struct {
	items []Value
	vc    VC
}
type atomSt struct {
	v  Iface
	vc VC
}
type locSt struct{ vc VC }
type onceSt struct {
	done    bool
	running bool
	vc      VC
}

func obj[T any](w *Worker, p Value) *T {
	x, ok := p.(*Value)
	if !ok {
		w.unsupported("sync object via %T", p)
	}
	if x == nil {
		w.nilDeref()
	}
	if o, ok := w.objs[x]; ok {
		if t, ok := o.(*T); ok {
			return t
		}
		w.unsupported("sync object type confusion %T", o)
	}
	t := new(T)
	w.objs[x] = t
	return t
}

func (w *Worker) acq(vc VC) { w.acquire(vc) }
func (w *Worker) rel(vc *VC) {
	if w.multi {
		*vc = vcJoin(*vc, w.release())
	}
}

func (w *Worker) mutexLock(fr *Frame, p Value) {
	m := obj[mutexSt](w, p)
	ready := func() bool { return !m.locked && m.readers == 0 }
	if m.readers == 0 {
		w.visible(fr, "Lock", ready)
	} else {
		// a waiting writer keeps new readers out
		w.visible(fr, "Lock", nil)
		if !ready() {
			m.wwait++
			w.block(fr, "Lock", ready)
			m.wwait--
		}
	}
	m.locked = true
	w.acq(m.vc)
	w.acq(m.rvc)
}

// release1: an unlock commutes with everything other goroutines can do before
// it (they could only block on it), so switching right before it is never
// needed, unless somebody probes with TryLock.
func (w *Worker) release1(fr *Frame, what string) {
	if w.eng.usesTry {
		w.visible(fr, what, nil)
		return
	}
	if w.spec > 0 {
		panic(specAbort{})
	}
}
func (w *Worker) mutexTryLock(fr *Frame, p Value) Value {
	m := obj[mutexSt](w, p)
	w.visible(fr, "TryLock", nil)
	if m.locked || m.readers > 0 {
		if t := w.cur; w.spec == 0 && w.initMode == 0 {
			if t.spin++; t.spin >= 2 { // a spinning goroutine does not run forever
				w.yield(fr)
			}
		}
		return w.tb.False
	}
	w.cur.spin = 0
	m.locked = true
	w.acq(m.vc)
	w.acq(m.rvc)
	return w.tb.True
}
func (w *Worker) mutexUnlock(fr *Frame, p Value, what string) {
	m := obj[mutexSt](w, p)
	w.release1(fr, "Unlock")
	if !m.locked {
		w.violation("panic", "fatal error: sync: unlock of unlocked "+what+w.where())
		panic(pathEnd{"violation", "unlock"})
	}
	m.locked = false
	w.rel(&m.vc)
}

// ---------- atomics ----------
func (w *Worker) atomicLoc(fr *Frame, p Value, what string) (*Value, *locSt) {
	x, ok := p.(*Value)
	if !ok {
		w.unsupported("atomic on %T", p)
	}
	if x == nil {
		w.nilDeref()
	}
	w.visible(fr, what, nil)
	if w.initMode > 0 {
		return x, &locSt{}
	}
	w.atomicAccess(fr, x, what != "atomic load")
	return x, obj[locSt](w, p)
}

func asPtr(v Value) Value {
	if v == nil {
		return nilPtr()
	}
	return v
}

func init() {
	intrinsics = map[string]intrinsic{}
	opaqueMethods = map[string]intrinsic{}
	I := intrinsics
	nop := func(w *Worker, fr *Frame, a []Value) Value { return nil }

	// --- nd ---
	scal := func(kind string, s Sort) {
		I["verif/nd."+kind] = func(w *Worker, fr *Frame, a []Value) Value {
			n := w.ndName(a[0])
			var v *Term
			if s.isFP() {
				bv := w.tb.Var(n, s-1000)
				w.addInput(n, kind, []*Term{bv})
				return w.tb.FFromBits(bv, s)
			}
			v = w.tb.Var(n, s)
			w.addInput(n, kind, []*Term{v})
			return v
		}
	}
	for k, s := range map[string]Sort{"Bool": SBool, "Int": 64, "Int8": 8, "Int16": 16, "Int32": 32, "Int64": 64, "Uint": 64, "Uint8": 8, "Uint16": 16, "Uint32": 32, "Uint64": 64, "Float64": SF64, "Float32": SF32} {
		scal(k, s)
	}
	I["verif/nd.Range"] = func(w *Worker, fr *Frame, a []Value) Value {
		n := w.ndName(a[0])
		lo, hi := w.term(a[1]), w.term(a[2])
		if lo.isConst() && hi.isConst() && lo.sval() >= 0 && hi.sval() >= lo.sval() {
			// narrow variable: cheaper reasoning
			nb := bits.Len64(hi.k)
			if nb == 0 {
				nb = 1
			}
			v := w.tb.Var(n, Sort(nb))
			z := w.tb.Zext(v, 64)
			w.addInput(n, "Range", []*Term{z})
			w.assume(w.tb.Ule(z, hi))
			w.assume(w.tb.Ule(lo, z))
			return z
		}
		v := w.tb.Var(n, 64)
		w.addInput(n, "Range", []*Term{v})
		w.assume(w.tb.Sle(lo, v))
		w.assume(w.tb.Sle(v, hi))
		return v
	}
	I["verif/nd.Choose"] = func(w *Worker, fr *Frame, a []Value) Value {
		n := w.ndName(a[0])
		k := w.choose(w.concInt(a[1], true), n)
		w.addInput(n, "Choose", []*Term{w.tb.Int(k)})
		return w.tb.Int(k)
	}
	I["verif/nd.Concrete"] = func(w *Worker, fr *Frame, a []Value) Value { return w.tb.Int(w.concInt(a[0], true)) }
	I["verif/nd.Bytes"] = func(w *Worker, fr *Frame, a []Value) Value {
		return w.termsToSlice(w.ndBytes(a))
	}
	I["verif/nd.String"] = func(w *Worker, fr *Frame, a []Value) Value {
		return w.mkStr(w.ndBytes(a))
	}
	I["verif/nd.Assume"] = func(w *Worker, fr *Frame, a []Value) Value { w.assume(w.term(a[0])); return nil }
	I["verif/nd.Assert"] = func(w *Worker, fr *Frame, a []Value) Value {
		w.assert(w.term(a[0]), a[1].(*Str).s)
		return nil
	}
	I["verif/nd.Fail"] = func(w *Worker, fr *Frame, a []Value) Value {
		w.assert(w.tb.False, a[0].(*Str).s)
		return nil
	}
	I["verif/nd.ModelOnly"] = func(w *Worker, fr *Frame, a []Value) Value {
		w.eng.mu.Lock()
		w.it.entry.modelOnly = a[0].(*Str).s
		w.eng.mu.Unlock()
		return nil
	}
	I["verif/nd.Known"] = func(w *Worker, fr *Frame, a []Value) Value {
		if w.eng.knownIDs[a[0].(*Str).s] == "" {
			return nil // not a recorded finding: violations are reported
		}
		w.known = append(w.known, knownRec{a[0].(*Str).s, w.term(a[1])})
		return nil
	}
	I["verif/nd.Reach"] = func(w *Worker, fr *Frame, a []Value) Value {
		w.eng.mu.Lock()
		w.it.entry.reach[a[0].(*Str).s]++
		w.eng.mu.Unlock()
		return nil
	}
	I["verif/nd.Observe"] = func(w *Worker, fr *Frame, a []Value) Value {
		i := a[1].(Iface)
		o := obsRec{label: a[0].(*Str).s}
		switch v := i.v.(type) {
		case *Term:
			o.kind = "s"
			if v.srt.isFP() {
				if v.op == OFFromBV {
					v = v.args[0]
				}
			}
			o.ts = []*Term{v}
		case *Str:
			o.kind = "b"
			o.ts = w.strBytes(v)
		case Slice:
			if allTerms(v) {
				o.kind = "b"
				o.ts = w.bytesOf(v)
			}
		case nil:
			o.kind = "s"
			o.ts = []*Term{w.tb.Const(1, 0)}
		default:
			o.kind = "s"
			o.ts = []*Term{w.tb.Const(1, 1)}
		}
		w.obs = append(w.obs, o)
		return nil
	}
	I["verif/nd.And"] = func(w *Worker, fr *Frame, a []Value) Value {
		r := w.tb.True
		for _, x := range a[0].(Slice) {
			r = w.tb.And(r, w.term(x))
		}
		return r
	}
	I["verif/nd.Or"] = func(w *Worker, fr *Frame, a []Value) Value {
		r := w.tb.False
		for _, x := range a[0].(Slice) {
			r = w.tb.Or(r, w.term(x))
		}
		return r
	}
	I["verif/nd.Implies"] = func(w *Worker, fr *Frame, a []Value) Value {
		return w.tb.Or(w.tb.Not(w.term(a[0])), w.term(a[1]))
	}
	I["verif/nd.IteInt"] = func(w *Worker, fr *Frame, a []Value) Value {
		return w.tb.Ite(w.term(a[0]), w.term(a[1]), w.term(a[2]))
	}
	I["verif/nd.BytesEq"] = func(w *Worker, fr *Frame, a []Value) Value {
		return w.bytesEq(a[0].(Slice), a[1].(Slice))
	}
	I["verif/nd.StrEq"] = func(w *Worker, fr *Frame, a []Value) Value { return w.strEq(a[0].(*Str), a[1].(*Str)) }
	I["verif/nd.Symbolic"] = func(w *Worker, fr *Frame, a []Value) Value { return w.tb.True }
	I["verif/nd.Thorough"] = func(w *Worker, fr *Frame, a []Value) Value { return w.tb.Bool(thorough) }
	I["verif/nd.Q"] = func(w *Worker, fr *Frame, a []Value) Value {
		if thorough {
			return a[1]
		}
		return a[0]
	}
	I["verif/nd.Preemptions"] = func(w *Worker, fr *Frame, a []Value) Value {
		w.preemptBound = w.concInt(a[0], true)
		w.eng.mu.Lock()
		w.it.entry.bounds["preemptions"] = w.preemptBound
		w.eng.mu.Unlock()
		return nil
	}
	I["verif/nd.RoundRobin"] = func(w *Worker, fr *Frame, a []Value) Value {
		w.maxThreads = 64
		w.slice = w.concInt(a[0], true)
		return nil
	}
	I["verif/nd.SpreadHashes"] = func(w *Worker, fr *Frame, a []Value) Value { w.spreadHashes = true; return nil }
	I["verif/nd.EarlyTimers"] = func(w *Worker, fr *Frame, a []Value) Value { w.earlyTimers = w.term(a[0]).isTrue(); return nil }
	I["verif/nd.NoMerge"] = func(w *Worker, fr *Frame, a []Value) Value { w.noMerge = true; return nil }
	I["verif/nd.RacesAreBugs"] = func(w *Worker, fr *Frame, a []Value) Value { w.raceBug = true; return nil }
	I["verif/nd.MapOrder"] = func(w *Worker, fr *Frame, a []Value) Value {
		w.mapOrder = 0
		if w.term(a[0]).isTrue() {
			w.mapOrder = 1
		}
		return nil
	}
	I["verif/nd.MaxSteps"] = func(w *Worker, fr *Frame, a []Value) Value {
		w.maxSteps = int64(w.concInt(a[0], true)) * 1000
		return nil
	}
	I["verif/nd.MaxMake"] = func(w *Worker, fr *Frame, a []Value) Value { w.maxMake = w.concInt(a[0], true); return nil }
	I["verif/nd.Yield"] = func(w *Worker, fr *Frame, a []Value) Value { w.yield(fr); return nil }
	I["verif/nd.Pages"] = func(w *Worker, fr *Frame, a []Value) Value {
		base := 0xd000000000 + uint64(len(w.addrs)+1)*1<<20
		for i := range a[0].(Slice) {
			w.addrs[&a[0].(Slice)[i]] = base + uint64(i)
		}
		return nil
	}
	I["verif/nd.Addr"] = func(w *Worker, fr *Frame, a []Value) Value {
		s := a[0].(Slice)
		if len(s) == 0 {
			return w.tb.Const(64, 0)
		}
		return w.ptrInt(&s[0])
	}
	I["verif/nd.Point"] = func(w *Worker, fr *Frame, a []Value) Value { w.point(fr, a[0].(*Str).s); return nil }
	I["verif/nd.Idle"] = func(w *Worker, fr *Frame, a []Value) Value {
		me := w.cur
		w.block(fr, "idle", func() bool {
			for _, t := range w.threads {
				if t != me && !t.done && (t.ready == nil || t.what != "idle" && t.ready()) {
					return false
				}
			}
			return true
		})
		return nil
	}
	I["verif/nd.Advance"] = func(w *Worker, fr *Frame, a []Value) Value {
		w.sleep(fr, int64(w.concInt(a[0], true))*1e6)
		return nil
	}
	I["verif/nd.Atomic"] = func(w *Worker, fr *Frame, a []Value) Value {
		w.atomicSec++
		w.callValue(a[0], nil, fr)
		w.atomicSec--
		return nil
	}
	I["verif/nd.Field"] = func(w *Worker, fr *Frame, a []Value) Value {
		i := a[0].(Iface)
		st := i.t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		for k := 0; k < st.NumFields(); k++ {
			if st.Field(k).Name() == a[1].(*Str).s {
				switch v := (*i.v.(*Value)).(Struct)[k].(type) {
				case *Term:
					if v.srt == 0 {
						return w.tb.Ite(v, w.tb.Int(1), w.tb.Int(0))
					}
					return w.tb.Resize(v, 64, signedT(st.Field(k).Type()))
				default:
					w.unsupported("nd.Field of %T", v)
				}
			}
		}
		w.unsupported("no field %s in %v", a[1].(*Str).s, i.t)
		return nil
	}
	I["verif/nd.AssignErr"] = func(w *Worker, fr *Frame, a []Value) Value {
		src, tgt := a[0].(Iface), a[1].(Iface)
		if src.t == nil || tgt.t == nil {
			return w.tb.False
		}
		pt, ok := tgt.t.Underlying().(*types.Pointer)
		if !ok {
			w.goPanicStr("errors: target must be a non-nil pointer")
		}
		if it, ok := pt.Elem().Underlying().(*types.Interface); ok {
			if !w.eng.implements(src.t, it) {
				return w.tb.False
			}
			w.store(tgt.v, src)
			return w.tb.True
		}
		if !types.Identical(src.t, pt.Elem()) {
			return w.tb.False
		}
		w.store(tgt.v, copyVal(src.v))
		return w.tb.True
	}
	I["verif/nd.Certain"] = func(w *Worker, fr *Frame, a []Value) Value {
		t := a[0].(*Term)
		return w.tb.Bool(t.isConst() && t.k == 1)
	}
	I["verif/nd.UF"] = func(w *Worker, fr *Frame, a []Value) Value {
		return w.tb.UF("uf_"+a[0].(*Str).s+fmt.Sprint(len(a[1].(Slice))), 64, w.bytesOf(a[1].(Slice))...)
	}
	I["verif/nd.Load"] = nop
	I["verif/nd.Unsupported"] = func(w *Worker, fr *Frame, a []Value) Value {
		w.unsupported("%s", a[0].(*Str).s)
		return nil
	}

	// --- sync ---
	I["(*sync.Mutex).Lock"] = func(w *Worker, fr *Frame, a []Value) Value { w.mutexLock(fr, a[0]); return nil }
	I["(*sync.Mutex).TryLock"] = func(w *Worker, fr *Frame, a []Value) Value { return w.mutexTryLock(fr, a[0]) }
	I["(*sync.Mutex).Unlock"] = func(w *Worker, fr *Frame, a []Value) Value { w.mutexUnlock(fr, a[0], "mutex"); return nil }
	I["(*internal/sync.Mutex).Lock"] = I["(*sync.Mutex).Lock"]
	I["(*internal/sync.Mutex).Unlock"] = I["(*sync.Mutex).Unlock"]
	I["(*internal/sync.Mutex).TryLock"] = I["(*sync.Mutex).TryLock"]
	I["(*sync.RWMutex).Lock"] = I["(*sync.Mutex).Lock"]
	I["(*sync.RWMutex).Unlock"] = func(w *Worker, fr *Frame, a []Value) Value { w.mutexUnlock(fr, a[0], "rwmutex"); return nil }
	I["(*sync.RWMutex).TryLock"] = I["(*sync.Mutex).TryLock"]
	I["(*sync.RWMutex).RLock"] = func(w *Worker, fr *Frame, a []Value) Value {
		m := obj[mutexSt](w, a[0])
		w.visible(fr, "RLock", func() bool { return !m.locked && m.wwait == 0 })
		m.readers++
		w.acq(m.vc)
		return nil
	}
	I["(*sync.RWMutex).TryRLock"] = func(w *Worker, fr *Frame, a []Value) Value {
		m := obj[mutexSt](w, a[0])
		w.visible(fr, "TryRLock", nil)
		if m.locked || m.wwait > 0 {
			return w.tb.False
		}
		m.readers++
		w.acq(m.vc)
		return w.tb.True
	}
	I["(*sync.RWMutex).RUnlock"] = func(w *Worker, fr *Frame, a []Value) Value {
		m := obj[mutexSt](w, a[0])
		w.release1(fr, "RUnlock")
		if m.readers <= 0 {
			w.violation("panic", "fatal error: sync: RUnlock of unlocked RWMutex"+w.where())
			panic(pathEnd{"violation", "runlock"})
		}
		m.readers--
		w.rel(&m.rvc)
		return nil
	}
	I["(*sync.WaitGroup).Add"] = func(w *Worker, fr *Frame, a []Value) Value {
		g := obj[wgSt](w, a[0])
		w.visible(fr, "wg.Add", nil)
		g.n += w.concInt(a[1], true)
		w.rel(&g.vc)
		if g.n < 0 {
			w.goPanicStr("sync: negative WaitGroup counter")
		}
		return nil
	}
	I["(*sync.WaitGroup).Done"] = func(w *Worker, fr *Frame, a []Value) Value {
		g := obj[wgSt](w, a[0])
		w.release1(fr, "wg.Done")
		g.n--
		w.rel(&g.vc)
		if g.n < 0 {
			w.goPanicStr("sync: negative WaitGroup counter")
		}
		return nil
	}
	I["(*sync.WaitGroup).Wait"] = func(w *Worker, fr *Frame, a []Value) Value {
		g := obj[wgSt](w, a[0])
		w.visible(fr, "wg.Wait", func() bool { return g.n == 0 })
		w.acq(g.vc)
		return nil
	}
	I["(*sync.WaitGroup).Go"] = func(w *Worker, fr *Frame, a []Value) Value {
		g := obj[wgSt](w, a[0])
		g.n++
		f := a[1]
		w.spawn(fr, func(fr *Frame) Value {
			w.callValue(f, nil, fr)
			w.release1(fr, "wg.Done")
			g.n--
			w.rel(&g.vc)
			return nil
		})
		return nil
	}
	condL := func(w *Worker, p Value) (Iface, *condSt) {
		x := p.(*Value)
		st := (*x).(Struct)
		for i := range st {
			if l, ok := st[i].(Iface); ok {
				return l, obj[condSt](w, p)
			}
		}
		w.unsupported("cond without L")
		return Iface{}, nil
	}
	I["(*sync.Cond).Wait"] = func(w *Worker, fr *Frame, a []Value) Value {
		l, c := condL(w, a[0])
		fl := false
		c.q = append(c.q, &fl)
		w.invoke(fr, l, "Unlock")
		w.visible(fr, "cond.Wait", func() bool { return fl })
		w.invoke(fr, l, "Lock")
		return nil
	}
	I["(*sync.Cond).Signal"] = func(w *Worker, fr *Frame, a []Value) Value {
		_, c := condL(w, a[0])
		w.visible(fr, "cond.Signal", nil)
		if len(c.q) > 0 {
			*c.q[0] = true
			c.q = c.q[1:]
		}
		return nil
	}
	I["(*sync.Cond).Broadcast"] = func(w *Worker, fr *Frame, a []Value) Value {
		_, c := condL(w, a[0])
		w.visible(fr, "cond.Broadcast", nil)
		for _, p := range c.q {
			*p = true
		}
		c.q = nil
		return nil
	}
	I["(*sync.Once).Do"] = func(w *Worker, fr *Frame, a []Value) Value {
		o := obj[onceSt](w, a[0])
		w.visible(fr, "once.Do", func() bool { return !o.running })
		if o.done {
			w.acq(o.vc)
			return nil
		}
		o.running = true
		func() {
			defer func() {
				o.done = true
				o.running = false
			}()
			w.callValue(a[1], nil, fr)
		}()
		w.rel(&o.vc)
		return nil
	}
	I["(*sync.Pool).Get"] = func(w *Worker, fr *Frame, a []Value) Value {
		p := obj[poolSt](w, a[0])
		w.visible(fr, "pool.Get", nil)
		if n := len(p.items); n > 0 {
			v := p.items[n-1]
			p.items = p.items[:n-1]
			w.acq(p.vc)
			return v
		}
		st := (*(a[0].(*Value))).(Struct)
		if f, ok := st[len(st)-1].(*Closure); ok && f != nil {
			return w.callValue(f, nil, fr)
		}
		return Iface{}
	}
	I["(*sync.Pool).Put"] = func(w *Worker, fr *Frame, a []Value) Value {
		p := obj[poolSt](w, a[0])
		w.visible(fr, "pool.Put", nil)
		if a[1].(Iface).t == nil {
			return nil
		}
		w.rel(&p.vc)
		p.items = append(p.items, a[1])
		return nil
	}
	sm := func(f func(w *Worker, fr *Frame, m *syncMapSt, a []Value) Value) intrinsic {
		return func(w *Worker, fr *Frame, a []Value) Value {
			m := obj[syncMapSt](w, a[0])
			w.visible(fr, "sync.Map", nil)
			if m.m == nil {
				m.m = w.newMap(types.NewInterfaceType(nil, nil))
			}
			w.acq(m.vc)
			r := f(w, fr, m, a)
			w.rel(&m.vc)
			return r
		}
	}
	I["(*sync.Map).Load"] = sm(func(w *Worker, fr *Frame, m *syncMapSt, a []Value) Value {
		if e := w.mapFind(m.m, a[1]); e != nil {
			return Tuple{e.v, w.tb.True}
		}
		return Tuple{Iface{}, w.tb.False}
	})
	I["(*sync.Map).Store"] = sm(func(w *Worker, fr *Frame, m *syncMapSt, a []Value) Value { w.mapSet(m.m, a[1], a[2]); return nil })
	I["(*sync.Map).LoadOrStore"] = sm(func(w *Worker, fr *Frame, m *syncMapSt, a []Value) Value {
		if e := w.mapFind(m.m, a[1]); e != nil {
			return Tuple{e.v, w.tb.True}
		}
		w.mapSet(m.m, a[1], a[2])
		return Tuple{a[2], w.tb.False}
	})
	I["(*sync.Map).LoadAndDelete"] = sm(func(w *Worker, fr *Frame, m *syncMapSt, a []Value) Value {
		if e := w.mapFind(m.m, a[1]); e != nil {
			v := e.v
			w.mapDelEnt(m.m, e)
			return Tuple{v, w.tb.True}
		}
		return Tuple{Iface{}, w.tb.False}
	})
	I["(*sync.Map).Delete"] = sm(func(w *Worker, fr *Frame, m *syncMapSt, a []Value) Value { w.mapDelete(m.m, a[1]); return nil })
	I["(*sync.Map).Clear"] = sm(func(w *Worker, fr *Frame, m *syncMapSt, a []Value) Value { w.mapClear(m.m); return nil })
	I["(*sync.Map).Swap"] = sm(func(w *Worker, fr *Frame, m *syncMapSt, a []Value) Value {
		if e := w.mapFind(m.m, a[1]); e != nil {
			v := e.v
			w.mapSet(m.m, a[1], a[2])
			return Tuple{v, w.tb.True}
		}
		w.mapSet(m.m, a[1], a[2])
		return Tuple{Iface{}, w.tb.False}
	})
	I["(*sync.Map).CompareAndSwap"] = sm(func(w *Worker, fr *Frame, m *syncMapSt, a []Value) Value {
		e := w.mapFind(m.m, a[1])
		if e == nil || !w.branch(w.eq(e.v, a[2], nil)) {
			return w.tb.False
		}
		w.mapSet(m.m, a[1], a[3])
		return w.tb.True
	})
	I["(*sync.Map).CompareAndDelete"] = sm(func(w *Worker, fr *Frame, m *syncMapSt, a []Value) Value {
		e := w.mapFind(m.m, a[1])
		if e == nil || !w.branch(w.eq(e.v, a[2], nil)) {
			return w.tb.False
		}
		w.mapDelEnt(m.m, e)
		return w.tb.True
	})
	I["(*sync.Map).Range"] = func(w *Worker, fr *Frame, a []Value) Value {
		m := obj[syncMapSt](w, a[0])
		w.visible(fr, "sync.Map.Range", nil)
		if m.m == nil {
			return nil
		}
		it := w.newMapIter(m.m)
		for first := true; ; first = false {
			if !first {
				w.visible(fr, "sync.Map.Range", nil)
			}
			w.acq(m.vc)
			e := w.mapNext(it)
			if e == nil {
				return nil
			}
			r := w.callValue(a[1], []Value{e.k, e.v}, fr)
			if !w.branch(w.term(r)) {
				return nil
			}
		}
	}

	// --- sync/atomic ---
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		I["sync/atomic.Load"+ty] = func(w *Worker, fr *Frame, a []Value) Value {
			p, l := w.atomicLoc(fr, a[0], "atomic load")
			w.acq(l.vc)
			return *p
		}
		I["sync/atomic.Store"+ty] = func(w *Worker, fr *Frame, a []Value) Value {
			p, l := w.atomicLoc(fr, a[0], "atomic store")
			w.rel(&l.vc)
			w.set(p, asPtr(a[1]))
			return nil
		}
		I["sync/atomic.Swap"+ty] = func(w *Worker, fr *Frame, a []Value) Value {
			p, l := w.atomicLoc(fr, a[0], "atomic swap")
			w.acq(l.vc)
			w.rel(&l.vc)
			o := *p
			w.set(p, asPtr(a[1]))
			return o
		}
		I["sync/atomic.CompareAndSwap"+ty] = func(w *Worker, fr *Frame, a []Value) Value {
			p, l := w.atomicLoc(fr, a[0], "atomic cas")
			w.acq(l.vc)
			if !w.branch(w.eq(*p, a[1], nil)) {
				return w.tb.False
			}
			w.rel(&l.vc)
			w.set(p, asPtr(a[2]))
			return w.tb.True
		}
		if ty != "Pointer" {
			ar := func(op Op, old bool) intrinsic {
				return func(w *Worker, fr *Frame, a []Value) Value {
					p, l := w.atomicLoc(fr, a[0], "atomic rmw")
					w.acq(l.vc)
					w.rel(&l.vc)
					o := w.term(*p)
					n := w.tb.Bin(op, o, w.term(a[1]))
					w.set(p, n)
					if old {
						return o
					}
					return n
				}
			}
			I["sync/atomic.Add"+ty] = ar(OAdd, false)
			I["sync/atomic.And"+ty] = ar(OBAnd, true)
			I["sync/atomic.Or"+ty] = ar(OBOr, true)
		}
	}
	I["(*sync/atomic.Value).Load"] = func(w *Worker, fr *Frame, a []Value) Value {
		o := obj[atomSt](w, a[0])
		w.visible(fr, "atomic.Value load", nil)
		w.acq(o.vc)
		return o.v
	}
	I["(*sync/atomic.Value).Store"] = func(w *Worker, fr *Frame, a []Value) Value {
		o := obj[atomSt](w, a[0])
		w.visible(fr, "atomic.Value store", nil)
		w.rel(&o.vc)
		if a[1].(Iface).t == nil {
			w.goPanicStr("sync/atomic: store of nil value into Value")
		}
		o.v = a[1].(Iface)
		return nil
	}
	I["(*sync/atomic.Value).Swap"] = func(w *Worker, fr *Frame, a []Value) Value {
		o := obj[atomSt](w, a[0])
		w.visible(fr, "atomic.Value swap", nil)
		w.acq(o.vc)
		w.rel(&o.vc)
		v := o.v
		o.v = a[1].(Iface)
		return v
	}
	I["(*sync/atomic.Value).CompareAndSwap"] = func(w *Worker, fr *Frame, a []Value) Value {
		o := obj[atomSt](w, a[0])
		w.visible(fr, "atomic.Value cas", nil)
		w.acq(o.vc)
		if !w.branch(w.eq(o.v, a[1], nil)) {
			return w.tb.False
		}
		w.rel(&o.vc)
		o.v = a[2].(Iface)
		return w.tb.True
	}

	// --- runtime ---
	for _, n := range []string{"runtime.KeepAlive", "runtime.GC", "runtime.SetFinalizer", "internal/race.Acquire", "internal/race.Release", "internal/race.Disable", "internal/race.Enable", "internal/race.Read", "internal/race.Write", "internal/race.ReadRange", "internal/race.WriteRange", "internal/race.ReleaseMerge", "internal/race.Errors", "internal/godebug.registerMetric", "internal/godebug.setUpdate", "internal/godebug.setNewIncNonDefault", "(*internal/godebug.Setting).IncNonDefault", "runtime/debug.SetGCPercent", "runtime/debug.FreeOSMemory", "log.Println", "log.Printf", "log.Print", "internal/testlog.Getenv", "runtime.runtime_debug_WriteHeapDump", "internal/runtime/maps.fatal", "runtime/debug.PrintStack"} {
		I[n] = nop
	}
	I["runtime.AddCleanup"] = nil
	delete(I, "runtime.AddCleanup")
	I["runtime.Gosched"] = func(w *Worker, fr *Frame, a []Value) Value { w.yield(fr); return nil }
	I["runtime.NumCPU"] = func(w *Worker, fr *Frame, a []Value) Value { return w.tb.Int(4) }
	I["runtime.GOMAXPROCS"] = func(w *Worker, fr *Frame, a []Value) Value { return w.tb.Int(4) }
	I["runtime.NumGoroutine"] = func(w *Worker, fr *Frame, a []Value) Value {
		n := 0
		for _, t := range w.threads {
			if !t.done {
				n++
			}
		}
		return w.tb.Int(n)
	}
	I["runtime.Callers"] = func(w *Worker, fr *Frame, a []Value) Value { return w.tb.Int(0) }
	I["runtime/debug.Stack"] = func(w *Worker, fr *Frame, a []Value) Value { return Slice(nil) }
	I["runtime.Caller"] = func(w *Worker, fr *Frame, a []Value) Value {
		return Tuple{w.tb.Int(0), &Str{s: "?"}, w.tb.Int(0), w.tb.False}
	}
	I["(*internal/godebug.Setting).Value"] = func(w *Worker, fr *Frame, a []Value) Value { return emptyStr }
	I["internal/abi.NoEscape"] = func(w *Worker, fr *Frame, a []Value) Value { return a[0] }
	I["internal/abi.Escape"] = func(w *Worker, fr *Frame, a []Value) Value { return a[0] }
	I["internal/stringslite.Clone"] = func(w *Worker, fr *Frame, a []Value) Value { return a[0] }
	I["strings.Clone"] = I["internal/stringslite.Clone"]
	I["(*strings.Builder).copyCheck"] = nop
	I["os.Getenv"] = func(w *Worker, fr *Frame, a []Value) Value { return emptyStr }

	// --- time ---
	I["time.Now"] = func(w *Worker, fr *Frame, a []Value) Value { return w.timeVal(w.clock) }
	I["time.now"] = func(w *Worker, fr *Frame, a []Value) Value {
		return Tuple{w.tb.Const(64, uint64(w.clock/1e9)), w.tb.Const(32, uint64(w.clock%1e9)), w.tb.Const(64, uint64(w.clock-w.startClock+1))}
	}
	I["time.runtimeNow"] = I["time.now"]
	I["time.runtimeNano"] = func(w *Worker, fr *Frame, a []Value) Value { return w.tb.Const(64, uint64(w.clock-w.startClock+1)) }
	I["time.Sleep"] = func(w *Worker, fr *Frame, a []Value) Value {
		w.sleep(fr, int64(w.concInt(a[0], true)))
		return nil
	}
	newTimer := func(w *Worker, fr *Frame, d int64, f Value, tt string, period int64) Value {
		st := w.zero(w.eng.namedType("time", tt))
		p := new(Value)
		*p = st
		sv := st.(Struct)
		var tm *timerSt
		tm = obj[timerSt](w, p)
		if f == nil {
			w.nchan++
			tm.c = &ChanObj{id: w.nchan, cap: 1, et: w.eng.namedType("time", "Time")}
			sv[0] = tm.c
			tm.fire = func() {
				if len(tm.c.buf) == 0 {
					w.timerSend(tm.c)
				}
				if period > 0 {
					tm.t = w.addTimer(period, tm.fire)
				}
			}
		} else {
			tm.fire = func() {
				w.spawnDetached(f, fr, tm.vc)
			}
		}
		w.startedBy(tm)
		tm.t = w.addTimer(d, tm.fire)
		return p
	}
	I["time.NewTimer"] = func(w *Worker, fr *Frame, a []Value) Value {
		return newTimer(w, fr, int64(w.concInt(a[0], true)), nil, "Timer", 0)
	}
	I["time.NewTicker"] = func(w *Worker, fr *Frame, a []Value) Value {
		d := int64(w.concInt(a[0], true))
		if d <= 0 {
			w.goPanicStr("non-positive interval for NewTicker")
		}
		return newTimer(w, fr, d, nil, "Ticker", d)
	}
	I["time.Tick"] = func(w *Worker, fr *Frame, a []Value) Value {
		d := int64(w.concInt(a[0], true))
		p := newTimer(w, fr, d, nil, "Ticker", d)
		return (*p.(*Value)).(Struct)[0]
	}
	I["time.After"] = func(w *Worker, fr *Frame, a []Value) Value {
		p := newTimer(w, fr, int64(w.concInt(a[0], true)), nil, "Timer", 0)
		return (*p.(*Value)).(Struct)[0]
	}
	I["time.AfterFunc"] = func(w *Worker, fr *Frame, a []Value) Value {
		return newTimer(w, fr, int64(w.concInt(a[0], true)), a[1], "Timer", 0)
	}
	I["(*time.Timer).Stop"] = func(w *Worker, fr *Frame, a []Value) Value {
		w.visible(fr, "timer.Stop", nil)
		tm := obj[timerSt](w, a[0])
		r := w.stopTimer(tm.t)
		if tm.c != nil {
			if len(tm.c.buf) > 0 {
				r = true // go1.23+: unreceived tick is discarded
			}
			tm.c.buf = nil
		}
		return w.tb.Bool(r)
	}
	I["(*time.Timer).Reset"] = func(w *Worker, fr *Frame, a []Value) Value {
		w.visible(fr, "timer.Reset", nil)
		tm := obj[timerSt](w, a[0])
		r := w.stopTimer(tm.t)
		if tm.c != nil {
			tm.c.buf = nil
		}
		w.startedBy(tm)
		tm.t = w.addTimer(int64(w.concInt(a[1], true)), tm.fire)
		return w.tb.Bool(r)
	}
	I["(*time.Ticker).Stop"] = func(w *Worker, fr *Frame, a []Value) Value {
		tm := obj[timerSt](w, a[0])
		w.stopTimer(tm.t)
		if tm.c != nil {
			tm.c.buf = nil
		}
		return nil
	}

	// --- math ---
	f1 := func(op Op) intrinsic {
		return func(w *Worker, fr *Frame, a []Value) Value { return w.tb.FUn(op, w.term(a[0])) }
	}
	I["math.Floor"], I["math.Ceil"], I["math.Trunc"], I["math.Sqrt"], I["math.Abs"], I["math.Round"] = f1(OFFloor), f1(OFCeil), f1(OFTrunc), f1(OFSqrt), f1(OFAbs), f1(OFRound)
	I["math.sqrt"] = f1(OFSqrt)
	I["math.Float64bits"] = func(w *Worker, fr *Frame, a []Value) Value { return w.fbits(w.term(a[0])) }
	I["math.Float32bits"] = I["math.Float64bits"]
	I["math.Float64frombits"] = func(w *Worker, fr *Frame, a []Value) Value { return w.tb.FFromBits(w.term(a[0]), SF64) }
	I["math.Float32frombits"] = func(w *Worker, fr *Frame, a []Value) Value { return w.tb.FFromBits(w.term(a[0]), SF32) }
	I["math.IsNaN"] = func(w *Worker, fr *Frame, a []Value) Value { return w.tb.FIsNaN(w.term(a[0])) }
	native1 := func(name string, f func(float64) float64) {
		I["math."+name] = func(w *Worker, fr *Frame, a []Value) Value {
			x := w.term(a[0])
			if x.isConst() {
				return w.tb.F64(f(fval(x)))
			}
			return w.tb.UF("math_"+name, SF64, x)
		}
	}
	native1("Log", math.Log)
	native1("Log2", math.Log2)
	native1("Exp", math.Exp)
	native1("Log10", math.Log10)
	native1("Sin", math.Sin)
	native1("Cos", math.Cos)
	I["math.Pow"] = func(w *Worker, fr *Frame, a []Value) Value {
		x, y := w.term(a[0]), w.term(a[1])
		if x.isConst() && y.isConst() {
			return w.tb.F64(math.Pow(fval(x), fval(y)))
		}
		return w.tb.UF("math_Pow", SF64, x, y)
	}
	I["math.Mod"] = func(w *Worker, fr *Frame, a []Value) Value {
		x, y := w.term(a[0]), w.term(a[1])
		if x.isConst() && y.isConst() {
			return w.tb.F64(math.Mod(fval(x), fval(y)))
		}
		w.unsupported("math.Mod symbolic")
		return nil
	}
	mm := func(isMin bool) intrinsic {
		return func(w *Worker, fr *Frame, a []Value) Value {
			tb := w.tb
			x, y := w.term(a[0]), w.term(a[1])
			if x.isConst() && y.isConst() {
				if isMin {
					return tb.F64(math.Min(fval(x), fval(y)))
				}
				return tb.F64(math.Max(fval(x), fval(y)))
			}
			// NaN propagates; signed zeros are distinguished only by bit pattern (not modelled)
			nan := tb.Or(tb.FIsNaN(x), tb.FIsNaN(y))
			lt := tb.FCmp(OFLt, x, y)
			r := tb.Ite(lt, y, x)
			if isMin {
				r = tb.Ite(lt, x, y)
			}
			return tb.Ite(nan, tb.F64(math.NaN()), r)
		}
	}
	I["math.Min"], I["math.Max"] = mm(true), mm(false)
	// --- math/bits ---
	I["math/bits.Mul64"] = func(w *Worker, fr *Frame, a []Value) Value {
		x, y := w.term(a[0]), w.term(a[1])
		if x.isConst() && y.isConst() {
			h, l := bits.Mul64(x.k, y.k)
			return Tuple{w.tb.Const(64, h), w.tb.Const(64, l)}
		}
		p := w.tb.Bin(OMul, w.tb.Zext(x, 128), w.tb.Zext(y, 128))
		return Tuple{w.tb.Extract(p, 127, 64), w.tb.Bin(OMul, x, y)}
	}

	// --- bytealg & friends ---
	I["internal/bytealg.Equal"] = func(w *Worker, fr *Frame, a []Value) Value { return w.bytesEq(a[0].(Slice), a[1].(Slice)) }
	I["bytes.Equal"] = I["internal/bytealg.Equal"]
	I["internal/bytealg.Compare"] = func(w *Worker, fr *Frame, a []Value) Value {
		return w.cmp3(w.bytesOf(a[0].(Slice)), w.bytesOf(a[1].(Slice)))
	}
	I["bytes.Compare"] = I["internal/bytealg.Compare"]
	I["internal/bytealg.CompareString"] = func(w *Worker, fr *Frame, a []Value) Value {
		return w.cmp3(w.strBytes(a[0].(*Str)), w.strBytes(a[1].(*Str)))
	}
	I["strings.Compare"] = I["internal/bytealg.CompareString"]
	toB := func(w *Worker, v Value) []*Term {
		if s, ok := v.(*Str); ok {
			return w.strBytes(s)
		}
		return w.bytesOf(v.(Slice))
	}
	ib := func(w *Worker, fr *Frame, a []Value) Value { return w.indexByte(toB(w, a[0]), w.term(a[1])) }
	I["internal/bytealg.IndexByte"], I["internal/bytealg.IndexByteString"] = ib, ib
	cb := func(w *Worker, fr *Frame, a []Value) Value {
		r := w.tb.Int(0)
		for _, t := range toB(w, a[0]) {
			r = w.tb.Bin(OAdd, r, w.tb.Ite(w.tb.Eq(t, w.term(a[1])), w.tb.Int(1), w.tb.Int(0)))
		}
		return r
	}
	I["internal/bytealg.Count"], I["internal/bytealg.CountString"] = cb, cb
	ix := func(w *Worker, fr *Frame, a []Value) Value { return w.indexSub(toB(w, a[0]), toB(w, a[1])) }
	I["internal/bytealg.Index"], I["internal/bytealg.IndexString"] = ix, ix
	I["strings.Index"], I["bytes.Index"] = ix, ix
	I["internal/stringslite.Index"] = ix
	I["internal/bytealg.MakeNoZero"] = func(w *Worker, fr *Frame, a []Value) Value {
		n := w.concInt(a[0], true)
		if n > w.maxAlloc {
			w.incomplete("MakeNoZero above engine limit")
		}
		return w.makeSlice(types.Typ[types.Byte], n, n)
	}
	I["crypto/subtle.ConstantTimeCompare"] = func(w *Worker, fr *Frame, a []Value) Value {
		return w.tb.Ite(w.bytesEq(a[0].(Slice), a[1].(Slice)), w.tb.Int(1), w.tb.Int(0))
	}
	// hash/maphash
	I["hash/maphash.MakeSeed"] = func(w *Worker, fr *Frame, a []Value) Value {
		st := w.zero(w.eng.namedType("hash/maphash", "Seed")).(Struct)
		w.names["maphash"]++
		st[0] = w.tb.Const(64, uint64(w.names["maphash"]))
		return st
	}
	rth := func(w *Worker, b []*Term, s *Term) *Term {
		if w.spreadHashes {
			if h, ok := spread(b, s); ok {
				return w.tb.Const(64, h)
			}
		}
		return w.tb.UF(fmt.Sprintf("maphash%d", len(b)), 64, append([]*Term{s}, b...)...)
	}
	mh := func(w *Worker, fr *Frame, a []Value) Value {
		// like the library, in blocks of 128 bytes, so that maphash.Hash agrees
		b := toB(w, a[1])
		s := w.term(a[0].(Struct)[0])
		for len(b) > 128 {
			s = rth(w, b[:128], s)
			b = b[128:]
		}
		return rth(w, b, s)
	}
	rt := func(w *Worker, fr *Frame, a []Value) Value { return rth(w, toB(w, a[0]), w.term(a[1])) }
	I["hash/maphash.rthash"], I["hash/maphash.rthashString"] = rt, rt
	I["hash/maphash.Bytes"], I["hash/maphash.String"] = mh, mh

	// --- reflect (only what uuid needs) ---
	I["reflect.ValueOf"] = func(w *Worker, fr *Frame, a []Value) Value {
		st := w.zero(w.eng.namedType("reflect", "Value")).(Struct)
		st[1] = a[0]
		return st
	}
	I["(reflect.Value).Pointer"] = func(w *Worker, fr *Frame, a []Value) Value {
		i, ok := a[0].(Struct)[1].(Iface)
		if !ok {
			w.unsupported("reflect.Value.Pointer")
		}
		if s, ok := i.v.(Slice); ok {
			if cap(s) == 0 {
				return w.tb.Int(0)
			}
			return w.ptrInt(&s[:1][0])
		}
		return w.ptrInt(i.v)
	}

	// --- slices: pointer arithmetic ---
	addr := func(s Slice, i int) uintptr { return uintptr(unsafe.Pointer(&s[i])) }
	I["slices.overlaps"] = func(w *Worker, fr *Frame, v []Value) Value {
		a, b := v[0].(Slice), v[1].(Slice)
		return w.tb.Bool(len(a) > 0 && len(b) > 0 && addr(a, 0) <= addr(b, len(b)-1) && addr(b, 0) <= addr(a, len(a)-1))
	}
	for _, p := range []string{"crypto/internal/fips140/alias", "golang.org/x/crypto/internal/alias", "golang.org/x/crypto/internal/subtle", "vendor/golang.org/x/crypto/internal/alias"} {
		I[p+".AnyOverlap"] = I["slices.overlaps"]
		I[p+".InexactOverlap"] = func(w *Worker, fr *Frame, v []Value) Value {
			a, b := v[0].(Slice), v[1].(Slice)
			if len(a) == 0 || len(b) == 0 || &a[0] == &b[0] {
				return w.tb.Bool(false)
			}
			return I["slices.overlaps"](w, fr, v)
		}
	}
	I["crypto/internal/fips140/subtle.XORBytes"] = func(w *Worker, fr *Frame, v []Value) Value {
		d, x, y := v[0].(Slice), v[1].(Slice), v[2].(Slice)
		n := min(len(x), len(y))
		if n == 0 {
			return w.tb.Int(0)
		}
		if n > len(d) {
			w.goPanicStr("subtle.XORBytes: dst too short")
		}
		for _, o := range []Slice{x, y} {
			if b, _ := I["crypto/internal/fips140/alias.InexactOverlap"](w, fr, []Value{d[:n], o[:n]}).(*Term); b == w.tb.Bool(true) {
				w.goPanicStr("subtle.XORBytes: invalid overlap")
			}
		}
		for i := range n {
			w.assign(&d[i], w.tb.Bin(OBXor, w.term(x[i]), w.term(y[i])))
		}
		return w.tb.Int(n)
	}
	I["slices.startIdx"] = func(w *Worker, fr *Frame, v []Value) Value {
		a, b := v[0].(Slice), v[1].(Slice)
		for i := range a {
			if &a[i] == &b[0] {
				return w.tb.Int(i)
			}
		}
		w.goPanicStr("needle not found")
		return nil
	}

	// --- sort ---
	I["sort.Slice"] = func(w *Worker, fr *Frame, a []Value) Value {
		s := a[0].(Iface).v.(Slice)
		for i := 1; i < len(s); i++ {
			for j := i; j > 0; j-- {
				if !w.branch(w.term(w.callValue(a[1], []Value{w.tb.Int(j), w.tb.Int(j - 1)}, fr))) {
					break
				}
				x, y := copyVal(s[j]), copyVal(s[j-1])
				w.assign(&s[j], y)
				w.assign(&s[j-1], x)
			}
		}
		return nil
	}
	I["sort.SliceStable"] = I["sort.Slice"]

	// --- fmt ---
	spf := func(w *Worker, fr *Frame, a []Value) Value { return w.sprintf(fr, a[0].(*Str), a[1].(Slice), true) }
	I["fmt.Sprintf"] = spf
	I["fmt.Sprint"] = func(w *Worker, fr *Frame, a []Value) Value {
		return w.sprintf(fr, &Str{s: strings.Repeat("%v", len(a[0].(Slice)))}, a[0].(Slice), true)
	}
	I["fmt.Errorf"] = func(w *Worker, fr *Frame, a []Value) Value {
		s := w.sprintf(fr, a[0].(*Str), a[1].(Slice), false)
		if strings.Contains(a[0].(*Str).s, "%w") {
			for _, x := range a[1].(Slice) {
				if i, ok := x.(Iface); ok && i.t != nil && w.eng.isError(i.t) {
					p := new(Value)
					*p = Struct{s, i}
					return Iface{types.NewPointer(w.eng.namedType("fmt", "wrapError")), p}
				}
			}
		}
		p := new(Value)
		*p = Struct{s}
		return Iface{types.NewPointer(w.eng.namedType("errors", "errorString")), p}
	}
	for _, n := range []string{"Println", "Printf", "Print"} {
		I["fmt."+n] = func(w *Worker, fr *Frame, a []Value) Value { return Tuple{w.tb.Int(0), Iface{}} }
	}
	I["fmt.Fprintf"] = func(w *Worker, fr *Frame, a []Value) Value {
		s := w.sprintf(fr, a[1].(*Str), a[2].(Slice), true)
		return w.invoke(fr, a[0].(Iface), "Write", w.termsToSlice(w.strBytes(s)))
	}
}

type timerSt struct {
	c    *ChanObj
	t    *vtimer
	fire func()
	vc   VC // what happened before the start of an AfterFunc timer
}

func (w *Worker) timerSend(c *ChanObj) {
	v := w.timeVal(w.clock)
	if r := c.firstRecv(); r != nil {
		r.sel.fired, r.sel.idx, r.sel.v, r.sel.ok = true, r.ci, v, true
		return
	}
	c.buf = append(c.buf, chanMsg{v, nil})
}

// startedBy notes that what the current thread did so far happens before the
// function of the timer.
func (w *Worker) startedBy(tm *timerSt) {
	if w.cur != nil && w.cur.id >= 0 {
		w.cur.tick()
		tm.vc = vcJoin(tm.vc, w.cur.vc.copy())
	}
}

func (w *Worker) spawnDetached(f Value, fr *Frame, vc VC) {
	t := w.newThread()
	t.vc = vcJoin(t.vc, vc)
	t.tick()
	w.multi = true
	root := &Frame{w: w, th: t, fn: fr.fn, pos: fr.pos}
	w.startThread(t, func() {
		t.top = root
		w.callValue(f, nil, root)
	})
}

func (w *Worker) timeVal(ns int64) Value {
	st := w.zero(w.eng.namedType("time", "Time")).(Struct)
	const unixToInternal = (1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400
	st[0] = w.tb.Const(64, uint64(ns%1e9))
	st[1] = w.tb.Const(64, uint64(ns/1e9+unixToInternal))
	return st
}

func (w *Worker) sleep(fr *Frame, d int64) {
	if w.initMode > 0 {
		return
	}
	if d <= 0 {
		w.yield(fr)
		return
	}
	fired := false
	w.addTimer(d, func() { fired = true })
	w.visible(fr, "sleep", func() bool { return fired })
	w.block(fr, "sleep", func() bool { return fired })
}

func (w *Worker) invoke(fr *Frame, i Iface, m string, args ...Value) Value {
	if i.t == nil {
		w.nilDeref()
	}
	o, _, _ := types.LookupFieldOrMethod(i.t, true, nil, m)
	if o == nil {
		w.unsupported("invoke %s on %v", m, i.t)
	}
	f := w.methodOf(i.t, o.(*types.Func))
	if f == nil {
		w.unsupported("invoke %s on %v", m, i.t)
	}
	return w.call(w.fn(f), append([]Value{i.v}, args...), nil, fr)
}

func (w *Worker) ndName(v Value) string {
	n := v.(*Str).s
	w.names["nd:"+n]++
	if c := w.names["nd:"+n]; c > 1 {
		return fmt.Sprintf("%s#%d", n, c)
	}
	return n
}
func (w *Worker) addInput(n, kind string, ts []*Term) {
	w.inputs = append(w.inputs, ndInput{n, kind, ts})
}
func (w *Worker) ndBytes(a []Value) []*Term {
	n := w.ndName(a[0])
	k := w.concInt(a[1], true)
	b := make([]*Term, k)
	for i := range b {
		b[i] = w.tb.Var(fmt.Sprintf("%s[%d]", n, i), 8)
	}
	w.addInput(n, "Bytes", b)
	return b
}

func (w *Worker) bytesEq(a, b Slice) *Term {
	if len(a) != len(b) {
		return w.tb.False
	}
	r := w.tb.True
	for i := range a {
		r = w.tb.And(r, w.tb.Eq(w.term(a[i]), w.term(b[i])))
		if r.isFalse() {
			return r
		}
	}
	return r
}

func (w *Worker) cmp3(a, b []*Term) *Term {
	tb := w.tb
	lt := w.bytesLess(a, b, false)
	gt := w.bytesLess(b, a, false)
	return tb.Ite(lt, tb.Const(64, ^uint64(0)), tb.Ite(gt, tb.Int(1), tb.Int(0)))
}

func (w *Worker) indexByte(b []*Term, c *Term) *Term {
	r := w.tb.Const(64, ^uint64(0))
	for i := len(b) - 1; i >= 0; i-- {
		r = w.tb.Ite(w.tb.Eq(b[i], c), w.tb.Int(i), r)
	}
	return r
}
func (w *Worker) indexSub(b, s []*Term) *Term {
	if len(s) == 0 {
		return w.tb.Int(0)
	}
	r := w.tb.Const(64, ^uint64(0))
	for i := len(b) - len(s); i >= 0; i-- {
		c := w.tb.True
		for j := range s {
			c = w.tb.And(c, w.tb.Eq(b[i+j], s[j]))
		}
		r = w.tb.Ite(c, w.tb.Int(i), r)
	}
	return r
}

func (e *Engine) namedType(pkg, name string) types.Type {
	p := e.prog.ImportedPackage(pkg)
	if p == nil {
		for _, q := range e.prog.AllPackages() {
			if q.Pkg.Path() == pkg {
				p = q
			}
		}
	}
	if p == nil {
		panic(pathEnd{"unsupported", "package not loaded: " + pkg})
	}
	return p.Pkg.Scope().Lookup(name).Type()
}

var errIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

func (e *Engine) isError(t types.Type) bool { return e.implements(t, errIface) }

// native converts a fully concrete value for formatting; ok=false if symbolic.
func (w *Worker) native(fr *Frame, i Iface) (any, bool) {
	if i.t == nil {
		return nil, true
	}
	switch v := i.v.(type) {
	case *Term:
		if !v.isConst() {
			return nil, false
		}
		if w.eng.isError(i.t) || hasString(i.t) {
			break
		}
		b, ok := i.t.Underlying().(*types.Basic)
		if !ok {
			return nil, false
		}
		switch b.Kind() {
		case types.Bool:
			return v.k == 1, true
		case types.Int8:
			return int8(v.k), true
		case types.Int16:
			return int16(v.k), true
		case types.Int32:
			return int32(v.k), true
		case types.Int64:
			return int64(v.k), true
		case types.Int:
			return int(v.k), true
		case types.Uint8:
			return uint8(v.k), true
		case types.Uint16:
			return uint16(v.k), true
		case types.Uint32:
			return uint32(v.k), true
		case types.Uint64:
			return v.k, true
		case types.Uint:
			return uint(v.k), true
		case types.Uintptr:
			return uintptr(v.k), true
		case types.Float32:
			return float32(fval(v)), true
		case types.Float64:
			return fval(v), true
		}
	case *Str:
		if v.b == nil {
			return v.s, true
		}
		return nil, false
	case Slice:
		if allTerms(v) {
			if s, ok := i.t.Underlying().(*types.Slice); ok {
				if ws, _ := widthOf(s.Elem()); ws == 8 {
					r := make([]byte, len(v))
					for k, x := range v {
						if !x.(*Term).isConst() {
							return nil, false
						}
						r[k] = byte(x.(*Term).k)
					}
					return r, true
				}
			}
		}
	}
	var r Value
	switch {
	case w.eng.isError(i.t):
		if isNilPtr(i.v) {
			return "<nil>", true
		}
		r = w.invoke(fr, i, "Error")
	case hasString(i.t):
		r = w.invoke(fr, i, "String")
	default:
		return "{" + show(i, 2) + "}", true
	}
	if s, ok := r.(*Str); ok && s.b == nil {
		return s.s, true
	}
	return nil, false
}

func hasString(t types.Type) bool {
	o, _, _ := types.LookupFieldOrMethod(t, true, nil, "String")
	f, ok := o.(*types.Func)
	if !ok {
		return false
	}
	s := f.Type().(*types.Signature)
	return s.Params().Len() == 0 && s.Results().Len() == 1
}

func (w *Worker) sprintf(fr *Frame, f *Str, args Slice, precise bool) *Str {
	if f.b != nil {
		w.unsupported("symbolic format")
	}
	out := emptyStr
	fs := f.s
	ai := 0
	for i := 0; i < len(fs); {
		if fs[i] != '%' {
			j := strings.IndexByte(fs[i:], '%')
			if j < 0 {
				j = len(fs) - i
			}
			out = w.concat(out, &Str{s: fs[i : i+j]})
			i += j
			continue
		}
		j := i + 1
		for j < len(fs) && strings.IndexByte("0123456789.+-# []*", fs[j]) >= 0 {
			j++
		}
		if j >= len(fs) {
			break
		}
		verb := fs[i : j+1]
		c := fs[j]
		i = j + 1
		if c == '%' {
			out = w.concat(out, &Str{s: "%"})
			continue
		}
		if ai >= len(args) {
			out = w.concat(out, &Str{s: "%!" + string(c) + "(MISSING)"})
			continue
		}
		arg := args[ai].(Iface)
		ai++
		if c == 'w' {
			verb = verb[:len(verb)-1] + "v"
			c = 'v'
		}
		if c == 'T' {
			out = w.concat(out, &Str{s: fmt.Sprint(arg.t)})
			continue
		}
		if n, ok := w.native(fr, arg); ok {
			out = w.concat(out, &Str{s: fmt.Sprintf(verb, n)})
			continue
		}
		if !precise {
			out = w.concat(out, &Str{s: "<sym>"})
			continue
		}
		switch v := arg.v.(type) {
		case *Str:
			if (c == 's' || c == 'v') && len(verb) == 2 {
				out = w.concat(out, v)
				continue
			}
			if (c == 'x' || c == 'X') && len(verb) == 2 {
				out = w.concat(out, w.hexStr(w.strBytes(v), c))
				continue
			}
		case Slice:
			if c == 's' && len(verb) == 2 {
				out = w.concat(out, w.mkStr(w.bytesOf(v)))
				continue
			}
			if (c == 'x' || c == 'X') && (len(verb) == 2 || verb[1:len(verb)-1] == "02") && allTerms(v) {
				out = w.concat(out, w.hexStr(w.bytesOf(v), c))
				continue
			}
		case Array:
			if (c == 'x' || c == 'X') && (len(verb) == 2 || verb[1:len(verb)-1] == "02") && allTerms(v) {
				out = w.concat(out, w.hexStr(w.bytesOf(Slice(v)), c))
				continue
			}
		case *Term:
			if (c == 'x' || c == 'X') && v.srt.isBV() && (verb == fmt.Sprintf("%%0%d%c", v.srt/4, c)) && !signedT(arg.t) {
				var bs []*Term
				for k := int(v.srt) - 8; k >= 0; k -= 8 {
					bs = append(bs, w.tb.Extract(v, k+7, k))
				}
				out = w.concat(out, w.hexStr(bs, c))
				continue
			}
			if v.srt.isBV() && v.srt > 0 {
				cv := w.concretize(v)
				n, _ := w.native(fr, Iface{arg.t, w.tb.Const(v.srt, cv)})
				out = w.concat(out, &Str{s: fmt.Sprintf(verb, n)})
				continue
			}
		}
		w.unsupported("Sprintf %s of symbolic %v", verb, arg.t)
	}
	return out
}

func (w *Worker) hexStr(b []*Term, c byte) *Str {
	a := uint64(c) - 'x' + 'a'
	dig := func(n *Term) *Term {
		z := w.tb.Zext(n, 8)
		return w.tb.Ite(w.tb.Ult(z, w.tb.Const(8, 10)), w.tb.Bin(OAdd, z, w.tb.Const(8, '0')), w.tb.Bin(OAdd, z, w.tb.Const(8, a-10)))
	}
	var r []*Term
	for _, t := range b {
		r = append(r, dig(w.tb.Extract(t, 7, 4)), dig(w.tb.Extract(t, 3, 0)))
	}
	return w.mkStr(r)
}

// spread hashes constant bytes.
func spread(b []*Term, s *Term) (uint64, bool) {
	mix := func(h uint64) uint64 {
		h += 0x9e3779b97f4a7c15
		h = (h ^ h>>30) * 0xbf58476d1ce4e5b9
		h = (h ^ h>>27) * 0x94d049bb133111eb
		return h ^ h>>31
	}
	if !s.isConst() {
		return 0, false
	}
	h := mix(s.k + uint64(len(b))<<56)
	for _, t := range b {
		if !t.isConst() {
			return 0, false
		}
		h = mix(h ^ t.k)
	}
	return h, true
}
