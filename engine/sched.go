package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type VC []uint32

func (v VC) get(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}
func vcJoin(a, b VC) VC {
	if len(b) > len(a) {
		a = append(a, make(VC, len(b)-len(a))...)
	}
	for i, x := range b {
		if x > a[i] {
			a[i] = x
		}
	}
	return a
}
func (v VC) copy() VC { return append(VC(nil), v...) }

type Thread struct {
	solo   int // consecutive yields with nothing else to run
	spin   int // consecutive failed TryLocks
	w      *Worker
	id     int
	top    *Frame
	depth  int
	resume chan struct{}
	done   bool
	parked bool
	ready  func() bool
	vc     VC
	what   string
	exited chan struct{}
}

func (t *Thread) tick() {
	if t.id < 0 {
		return
	}
	if len(t.vc) <= t.id {
		t.vc = append(t.vc, make(VC, t.id+1-len(t.vc))...)
	}
	t.vc[t.id]++
}

type vtimer struct {
	when   int64
	seq    int
	fire   func()
	active bool
}

type switchRec struct {
	Thread int    `json:"thread"`
	Pos    string `json:"pos"`
	Occ    int    `json:"occ"`
	To     int    `json:"to"`
	What   string `json:"what"`
	Pre    bool   `json:"preempt"`
	Timer  bool   `json:"timer,omitempty"`
}

func (w *Worker) newThread() *Thread {
	t := &Thread{w: w, id: len(w.threads), resume: make(chan struct{}), exited: make(chan struct{})}
	w.threads = append(w.threads, t)
	return t
}

// startThread launches the goroutine (parked until resumed).
func (w *Worker) startThread(t *Thread, body func()) {
	t.parked = true
	go func() {
		defer close(t.exited)
		<-t.resume
		t.parked = false
		if w.killing {
			return
		}
		var out any
		func() {
			defer func() {
				out = recover()
			}()
			body()
		}()
		if out == nil {
			t.done = true
			if t.id == 0 {
				w.pathDone <- pathEnd{kind: "done"}
				return
			}
			func() {
				defer func() { out = recover() }()
				w.reschedule(nil, false)
			}()
			if out == nil {
				return
			}
		}
		switch e := out.(type) {
		case pathEnd:
			if e.kind == "killed" {
				return
			}
			w.pathDone <- e
		case *goPanic:
			w.pathDone <- pathEnd{kind: "panic", msg: e.msg + e.pos}
		default:
			w.pathDone <- pathEnd{kind: "unsupported", msg: fmt.Sprintf("internal: %v%s", out, w.where()) + stackHint()}
		}
	}()
}

func (w *Worker) spawn(fr *Frame, th func(fr *Frame) Value) {
	if w.spec > 0 {
		panic(specAbort{})
	}
	if w.initMode > 0 {
		return // background goroutines of initialisers are not modelled
	}
	if len(w.threads) >= w.maxThreads {
		w.incomplete("thread bound")
	}
	w.visible(fr, "go", nil)
	t := w.newThread()
	cur := w.cur
	cur.tick()
	t.vc = cur.vc.copy()
	t.tick()
	w.multi = true
	root := &Frame{w: w, th: t, fn: fr.fn, pos: fr.pos}
	w.startThread(t, func() {
		t.top = root
		th(root)
	})
	w.visible(fr, "go", nil)
}

func (w *Worker) handoff(from, to *Thread) {
	if from == to {
		return
	}
	w.cur = to
	w.since = w.steps
	if from != nil && !from.done {
		from.parked = true
	}
	to.resume <- struct{}{}
	if from != nil && !from.done {
		<-from.resume
		from.parked = false
		if w.killing {
			panic(pathEnd{kind: "killed"})
		}
	}
}

// reschedule picks the next thread. fr is nil when the current thread has finished.
func (w *Worker) reschedule(fr *Frame, voluntary bool) {
	cur := w.cur
	for {
		var opts []*Thread
		curOK := false
		for _, t := range w.threads {
			if t.done {
				continue
			}
			if t.ready == nil || t.ready() {
				if t == cur && fr != nil {
					curOK = true
				} else {
					opts = append(opts, t)
				}
			}
		}
		tm := w.nextTimer()
		pre := false
		nopt := 0
		var list []*Thread
		timerOpt := false
		switch {
		case curOK && !voluntary:
			list = append(list, cur)
			if w.preempts < w.preemptBound && fr != nil {
				list = append(list, opts...)
				timerOpt = tm != nil && w.earlyTimers
				pre = true
			}
		case curOK && voluntary:
			list = opts
			if len(list) == 0 {
				if cur.solo++; tm != nil && cur.solo > 3 {
					// a polling loop: time passes
					cur.solo = 0
					w.fireTimer(tm)
					continue
				}
				list = append(list, cur)
			}
		default:
			list = opts
			if len(list) == 0 {
				if tm == nil {
					w.deadlock(fr)
				}
				w.fireTimer(tm)
				continue
			}
			timerOpt = tm != nil && w.earlyTimers && w.preempts < w.preemptBound
		}
		nopt = len(list)
		if timerOpt {
			nopt++
		}
		k := 0
		if w.slice >= 0 {
			list, timerOpt, nopt = append([]*Thread(nil), opts...), false, 0
			pre = false
			if curOK && !voluntary {
				w.nslice++
				if w.slice == 0 || w.nslice%w.slice != 0 || len(list) == 0 {
					list = []*Thread{cur}
				} else {
					pre = true
				}
			} else if len(list) == 0 {
				list = []*Thread{cur}
			}
			for i, t := range list { // round-robin
				if cur != nil && t.id > cur.id {
					k = i
					break
				}
			}
		} else if nopt > 1 {
			k = w.choose(nopt, "sched")
		}
		w.fair = false
		if k == len(list) { // early timer
			w.preempts++
			w.logSwitch(fr, cur, nil, true, true)
			w.fireTimer(tm)
			continue
		}
		nx := list[k]
		if pre && nx != cur {
			w.preempts++
		}
		if nx != cur {
			w.logSwitch(fr, cur, nx, pre, false)
			w.nswitch++
		}
		w.handoff(cur, nx)
		return
	}
}

func (w *Worker) logSwitch(fr *Frame, from, to *Thread, pre, timer bool) {
	r := switchRec{Thread: from.id, To: -1, Pre: pre, Timer: timer}
	if to != nil {
		r.To = to.id
	}
	if fr != nil {
		p := w.userPos(fr)
		r.Pos = p
		r.Occ = w.occ[p]
		r.What = from.what
	}
	w.switches = append(w.switches, r)
}

// userPos: file:line of the innermost user frame.
func (w *Worker) userPos(fr *Frame) string {
	for f := fr; f != nil; f = f.caller {
		if f.fn.user && f.pos != nil {
			p := w.eng.prog.Fset.Position(instrPos(f.pos))
			return fmt.Sprintf("%s:%d:%d", p.Filename, p.Line, p.Column)
		}
	}
	return ""
}

func (w *Worker) deadlock(fr *Frame) {
	s := ""
	for _, t := range w.threads {
		if !t.done {
			s += fmt.Sprintf(" [t%d blocked: %s%s]", t.id, t.what, w.thWhere(t))
		}
	}
	w.violation("deadlock", "all goroutines are blocked"+s)
	panic(pathEnd{"violation", "deadlock"})
}

func (w *Worker) thWhere(t *Thread) string {
	for f := t.top; f != nil; f = f.caller {
		if f.fn.user {
			return " at " + w.frPos(f)
		}
	}
	return ""
}

func (w *Worker) userCaller(fr *Frame) bool {
	for f := fr; f != nil; f = f.caller {
		if f.fn.syncPkg || f.fn.f.Synthetic != "" && !f.fn.user {
			continue
		}
		return f.fn.user
	}
	return false
}

// visible is a scheduling point before an operation that is enabled when ready() holds.
func (w *Worker) visible(fr *Frame, what string, ready func() bool) {
	if w.spec > 0 {
		panic(specAbort{})
	}
	if w.initMode > 0 {
		if ready != nil && !ready() {
			w.unsupported("blocking in initialiser")
		}
		return
	}
	t := w.cur
	if !w.multi && len(w.timers) == 0 {
		if ready == nil || ready() {
			return
		}
	}
	if !w.userCaller(fr) || w.atomicSec > 0 {
		if ready == nil || ready() {
			return
		}
	}
	p := w.userPos(fr)
	w.occ[p]++
	t.what = what
	t.ready = ready
	w.reschedule(fr, false)
	t.ready = nil
}

// point is a scheduling point of the environment model.
func (w *Worker) point(fr *Frame, what string) {
	if w.spec > 0 {
		panic(specAbort{})
	}
	if w.initMode > 0 || w.atomicSec > 0 || !w.multi && len(w.timers) == 0 {
		return
	}
	p := w.userPos(fr)
	w.occ[p]++
	w.cur.what = what
	w.cur.ready = nil
	w.reschedule(fr, false)
}

// block waits until ready() (not a choice point when already ready).
func (w *Worker) block(fr *Frame, what string, ready func() bool) {
	if ready() {
		return
	}
	if w.initMode > 0 {
		w.unsupported("blocking in initialiser")
	}
	if w.spec > 0 {
		panic(specAbort{})
	}
	t := w.cur
	t.what = what
	t.ready = ready
	w.reschedule(fr, false)
	t.ready = nil
}

// fairSteps is how long a goroutine runs before others get their turn anyway.
const fairSteps = 200000

func (w *Worker) fairSwitch(fr *Frame) {
	w.since = w.steps
	w.fair = true
	w.cur.what = "yield"
	w.reschedule(fr, true)
	w.fair = false
}

func (w *Worker) yield(fr *Frame) {
	if w.initMode > 0 || (!w.multi && len(w.timers) == 0) {
		return
	}
	w.cur.what = "yield"
	w.reschedule(fr, true)
}

// ---- timers (virtual clock) ----
func (w *Worker) addTimer(d int64, fire func()) *vtimer {
	w.tseq++
	when := w.clock + d
	if d < 0 {
		when = w.clock
	}
	if when < w.clock {
		when = 1<<63 - 1
	}
	t := &vtimer{when: when, seq: w.tseq, fire: fire, active: true}
	w.timers = append(w.timers, t)
	return t
}
func (w *Worker) stopTimer(t *vtimer) bool {
	if t == nil || !t.active {
		return false
	}
	t.active = false
	for i, x := range w.timers {
		if x == t {
			w.timers = append(w.timers[:i:i], w.timers[i+1:]...)
			break
		}
	}
	return true
}
func (w *Worker) nextTimer() *vtimer {
	var b *vtimer
	for _, t := range w.timers {
		if b == nil || t.when < b.when || t.when == b.when && t.seq < b.seq {
			b = t
		}
	}
	if b != nil && b.when-w.startClock > w.maxClock {
		return nil
	}
	return b
}
func (w *Worker) fireTimer(t *vtimer) {
	w.stopTimer(t)
	if t.when > w.clock {
		w.clock = t.when
	}
	t.fire()
}

// ---- channels ----

func (w *Worker) acquire(vc VC) {
	if w.multi && w.cur.id >= 0 {
		w.cur.vc = vcJoin(w.cur.vc, vc)
	}
}
func (w *Worker) release() VC {
	if w.multi && w.cur.id >= 0 {
		v := w.cur.vc.copy()
		w.cur.tick()
		return v
	}
	return nil
}

func pruneQ(q []*waiter) []*waiter {
	i := 0
	for i < len(q) && (q[i].sel.fired || q[i].th.done) {
		i++
	}
	return q[i:]
}

func (c *ChanObj) firstRecv() *waiter {
	c.recvq = pruneQ(c.recvq)
	for _, x := range c.recvq {
		if !x.sel.fired {
			return x
		}
	}
	return nil
}
func (c *ChanObj) firstSend() *waiter {
	c.sendq = pruneQ(c.sendq)
	for _, x := range c.sendq {
		if !x.sel.fired {
			return x
		}
	}
	return nil
}

func (w *Worker) trySend(c *ChanObj, v Value) bool {
	if c.closed {
		w.goPanicStr("send on closed channel")
	}
	if r := c.firstRecv(); r != nil {
		r.sel.fired, r.sel.idx, r.sel.v, r.sel.ok = true, r.ci, v, true
		if w.multi {
			vc := w.release()
			if r.th.id >= 0 {
				r.th.vc = vcJoin(r.th.vc, vc)
				if c.cap == 0 && w.cur.id >= 0 {
					w.acquire(r.th.vc)
				}
			}
		}
		return true
	}
	if len(c.buf) < c.cap {
		w.acquire(c.rcvVC)
		c.buf = append(c.buf, chanMsg{v, w.release()})
		return true
	}
	return false
}

func (w *Worker) tryRecv(c *ChanObj, et types.Type) (v Value, ok, done bool) {
	if len(c.buf) > 0 {
		m := c.buf[0]
		c.buf = append([]chanMsg(nil), c.buf[1:]...)
		w.acquire(m.vc)
		if w.multi {
			c.rcvVC = vcJoin(c.rcvVC, w.release())
		}
		if s := c.firstSend(); s != nil {
			s.sel.fired, s.sel.idx = true, s.ci
			c.buf = append(c.buf, chanMsg{s.v, s.th.vc.copy()})
			if s.th.id >= 0 {
				s.th.tick()
			}
		}
		return m.v, true, true
	}
	if s := c.firstSend(); s != nil { // unbuffered
		s.sel.fired, s.sel.idx = true, s.ci
		if w.multi {
			w.acquire(s.th.vc)
			s.th.vc = vcJoin(s.th.vc, w.release())
		}
		return s.v, true, true
	}
	if c.closed {
		w.acquire(c.clVC)
		return w.zero(et), false, true
	}
	return nil, false, false
}

func (w *Worker) chanSend(fr *Frame, c *ChanObj, v Value) {
	w.visible(fr, "chan send", nil)
	if c == nil {
		w.block(fr, "send on nil channel", func() bool { return false })
	}
	if w.trySend(c, v) {
		return
	}
	sel := &selState{}
	c.sendq = append(c.sendq, &waiter{th: w.cur, sel: sel, v: v})
	w.block(fr, "chan send", func() bool { return sel.fired || c.closed })
	if !sel.fired {
		sel.fired = true
		w.goPanicStr("send on closed channel")
	}
}

func (w *Worker) chanRecv(fr *Frame, c *ChanObj, et types.Type) (Value, bool) {
	w.visible(fr, "chan receive", nil)
	if c == nil {
		w.block(fr, "receive on nil channel", func() bool { return false })
	}
	if v, ok, done := w.tryRecv(c, et); done {
		return v, ok
	}
	sel := &selState{}
	c.recvq = append(c.recvq, &waiter{th: w.cur, sel: sel})
	w.block(fr, "chan receive", func() bool { return sel.fired || c.closed })
	if !sel.fired {
		sel.fired = true
		w.acquire(c.clVC)
		return w.zero(et), false
	}
	return sel.v, sel.ok
}

func (w *Worker) chanClose(fr *Frame, c *ChanObj) {
	w.visible(fr, "close", nil)
	if c == nil {
		w.goPanicStr("close of nil channel")
	}
	if c.closed {
		w.goPanicStr("close of closed channel")
	}
	c.closed = true
	c.clVC = w.release()
	w.trailFn(func() { c.closed = false })
}

func (w *Worker) selectInstr(x *Fn, t *ssa.Select, dst int) instrFn {
	type st struct {
		send bool
		c, v opnd
		et   types.Type
	}
	var sts []st
	nrecv := 0
	for _, s := range t.States {
		e := st{send: s.Dir == types.SendOnly, c: w.opnd(x, s.Chan)}
		e.et = s.Chan.Type().Underlying().(*types.Chan).Elem()
		if e.send {
			e.v = w.opnd(x, s.Send)
		} else {
			nrecv++
		}
		sts = append(sts, e)
	}
	blocking := t.Blocking
	return func(fr *Frame) {
		w := fr.w
		chans := make([]*ChanObj, len(sts))
		vals := make([]Value, len(sts))
		for i := range sts {
			chans[i], _ = sts[i].c.get(fr).(*ChanObj)
			if sts[i].send {
				vals[i] = copyVal(sts[i].v.get(fr))
			}
		}
		finish := func(idx int, v Value, ok bool) {
			tu := make(Tuple, 2+nrecv)
			tu[0] = w.tb.Int(idx)
			tu[1] = w.tb.Bool(ok)
			r := 2
			for i := range sts {
				if sts[i].send {
					continue
				}
				if i == idx {
					tu[r] = v
				} else {
					tu[r] = w.zero(sts[i].et)
				}
				r++
			}
			fr.regs[dst] = tu
		}
		canGo := func() []int {
			var r []int
			for i := range sts {
				c := chans[i]
				if c == nil {
					continue
				}
				if sts[i].send {
					if c.closed || len(c.buf) < c.cap || c.firstRecv() != nil {
						r = append(r, i)
					}
				} else if c.closed || len(c.buf) > 0 || c.firstSend() != nil {
					r = append(r, i)
				}
			}
			return r
		}
		w.visible(fr, "select", nil)
		rd := canGo()
		if len(rd) == 0 {
			if !blocking {
				finish(-1, nil, false)
				return
			}
			sel := &selState{}
			for i := range sts {
				if c := chans[i]; c != nil {
					wt := &waiter{th: w.cur, sel: sel, ci: i, v: vals[i]}
					if sts[i].send {
						c.sendq = append(c.sendq, wt)
					} else {
						c.recvq = append(c.recvq, wt)
					}
				}
			}
			anyClosed := func() bool {
				for _, c := range chans {
					if c != nil && c.closed {
						return true
					}
				}
				return false
			}
			w.block(fr, "select", func() bool { return sel.fired || anyClosed() })
			if sel.fired {
				if sts[sel.idx].send {
					finish(sel.idx, nil, false)
				} else {
					finish(sel.idx, sel.v, sel.ok)
				}
				return
			}
			sel.fired = true
			rd = canGo()
		}
		k := 0
		if len(rd) > 1 {
			k = w.choose(len(rd), "select")
		}
		i := rd[k]
		if sts[i].send {
			w.trySend(chans[i], vals[i])
			finish(i, nil, false)
			return
		}
		v, ok, _ := w.tryRecv(chans[i], sts[i].et)
		finish(i, v, ok)
	}
}

// ---- data-race detection (happens-before) on plain accesses of user code ----

type accRec struct {
	clk uint32
	ins ssa.Instruction
	pos string
}
type shadow struct {
	wt  int
	wr  accRec
	rds map[int]accRec
	ar  map[int]accRec // last atomic access per thread
	aw  map[int]accRec // last atomic write per thread
}

// atomicAccess records an atomic access; mixing it with unordered plain
// accesses is a race.
func (w *Worker) atomicAccess(fr *Frame, p *Value, write bool) {
	t := w.cur
	if t.id < 0 || w.initMode > 0 || fr == nil || fr.pos == nil {
		return
	}
	s := w.shadowOf(p)
	if s.wt >= 0 && s.wt != t.id && s.wr.clk > t.vc.get(s.wt) {
		w.race(fr, fr.pos, s.wr, write, true)
	}
	if write {
		for id, r := range s.rds {
			if id != t.id && r.clk > t.vc.get(id) {
				w.race(fr, fr.pos, r, true, false)
			}
		}
	}
	rec := accRec{t.vc.get(t.id), fr.pos, w.userPos(fr)}
	if s.ar == nil {
		s.ar, s.aw = map[int]accRec{}, map[int]accRec{}
	}
	s.ar[t.id] = rec
	if write {
		s.aw[t.id] = rec
	}
}

func (w *Worker) shadowOf(p *Value) *shadow {
	s := w.shadows[p]
	if s == nil {
		s = &shadow{wt: -1, rds: map[int]accRec{}}
		w.shadows[p] = s
	}
	return s
}

func (w *Worker) access(fr *Frame, ins ssa.Instruction, p *Value, write bool) {
	t := w.cur
	if t.id < 0 || w.initMode > 0 || w.atomicSec > 0 {
		return
	}
	s := w.shadowOf(p)
	if s.wt >= 0 && s.wt != t.id && s.wr.clk > t.vc.get(s.wt) {
		w.race(fr, ins, s.wr, write, true)
	}
	if s.ar != nil {
		at := s.aw
		if write {
			at = s.ar
		}
		for id, r := range at {
			if id != t.id && r.clk > t.vc.get(id) {
				w.race(fr, ins, r, write, true)
			}
		}
	}
	if write {
		for id, r := range s.rds {
			if id != t.id && r.clk > t.vc.get(id) {
				w.race(fr, ins, r, true, false)
			}
		}
		s.wt, s.wr = t.id, accRec{t.vc.get(t.id), ins, w.userPos(fr)}
		if len(s.rds) > 0 {
			s.rds = map[int]accRec{}
		}
	} else {
		s.rds[t.id] = accRec{t.vc.get(t.id), ins, w.userPos(fr)}
	}
}

func (w *Worker) race(fr *Frame, ins ssa.Instruction, o accRec, write, owrite bool) {
	w.eng.addRacy(ins, o.ins)
	p := w.userPos(fr)
	if w.raceBug && w.inTarget(p) && w.inTarget(o.pos) {
		a, b := p, o.pos
		if a > b {
			a, b = b, a
		}
		w.violation("race", fmt.Sprintf("data race between %s and %s", shortFile(a), shortFile(b)))
	}
}

func (w *Worker) inTarget(pos string) bool {
	return strings.HasPrefix(pos, repoDir+"/")
}

func (w *Worker) leaves(p *Value, f func(*Value)) {
	switch x := (*p).(type) {
	case Struct:
		for i := range x {
			w.leaves(&x[i], f)
		}
	case Array:
		if len(x) > 64 {
			f(p)
			return
		}
		for i := range x {
			w.leaves(&x[i], f)
		}
	default:
		f(p)
	}
}

func (w *Worker) noteLoad(fr *Frame, ins ssa.Instruction, p Value) { w.noteAcc(fr, ins, p, false) }
func (w *Worker) noteStoreI(fr *Frame, ins ssa.Instruction, p Value) {
	w.noteAcc(fr, ins, p, true)
}
func (w *Worker) noteAcc(fr *Frame, ins ssa.Instruction, p Value, write bool) {
	if w.initMode > 0 {
		return
	}
	if w.visIns[ins] {
		w.visible(fr, "racy access", nil)
	}
	if w.spec > 0 {
		panic(specAbort{})
	}
	switch x := p.(type) {
	case *Value:
		if x == nil {
			return
		}
		w.leaves(x, func(q *Value) { w.access(fr, ins, q, write) })
	}
}
func (w *Worker) noteRange(fr *Frame, r []Value, write bool) {
	if w.initMode > 0 || len(r) == 0 {
		return
	}
	if w.visIns[fr.pos] {
		w.visible(fr, "racy access", nil)
	}
	if len(r) > 256 {
		w.access(fr, fr.pos, &r[0], write)
		w.access(fr, fr.pos, &r[len(r)-1], write)
		return
	}
	for i := range r {
		w.leaves(&r[i], func(q *Value) { w.access(fr, fr.pos, q, write) })
	}
}
func (w *Worker) noteMap(fr *Frame, ins ssa.Instruction, m *MapObj, write bool) {
	if w.initMode > 0 || w.spec > 0 {
		return
	}
	if w.visIns[ins] {
		w.visible(fr, "racy map access", nil)
	}
	t := w.cur
	if t.id >= 0 {
		s := w.shadowOf(m.slot)
		bad := s.wt >= 0 && s.wt != t.id && s.wr.clk > t.vc.get(s.wt)
		if write {
			for id, r := range s.rds {
				if id != t.id && r.clk > t.vc.get(id) {
					bad = true
				}
			}
		}
		if bad {
			w.violation("mapfault", "concurrent map access at "+shortFile(w.userPos(fr)))
			panic(pathEnd{"violation", "mapfault"})
		}
	}
	w.access(fr, ins, m.slot, write)
}
