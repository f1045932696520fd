package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Decision struct {
	kind   uint8 // b branch, c concretise, n choose, a assert
	dir    bool
	forced bool
	val    uint64
	site   ssa.Instruction // where it was taken: replays must agree
}

func (w *Worker) site() ssa.Instruction {
	if w.cur != nil && w.cur.top != nil {
		return w.cur.top.pos
	}
	return nil
}

// checkSite guards against a replay that runs differently from its original.
func (w *Worker) checkSite(d *Decision) {
	if d.site != w.site() {
		panic(pathEnd{"unsupported", "replay divergence (site)" + w.where()})
	}
}

type dnode struct {
	parent *dnode
	d      Decision
	n      int
}

type item struct {
	entry *entry
	pre   *dnode
	model *Model
	check bool // model missing: feasibility must be decided at the end of the prefix
}

type entry struct {
	fn        *ssa.Function
	name      string
	paths     int64
	done      int64
	viols     map[string]bool
	stopped   bool
	reach     map[string]int64
	samples   []*Sample
	asserts   int64
	bounds    map[string]int
	notes     map[string]int
	raceBug   bool
	folded    int64 // assertions reduced to true by the term simplifier
	solved    int64 // assertions decided by a solver query
	modelOnly string
}

type ndVal struct {
	Name string   `json:"name"`
	Kind string   `json:"kind"`
	Vals []uint64 `json:"vals"`
}

type Obs struct {
	Label string   `json:"label"`
	Vals  []uint64 `json:"vals"`
	Kind  string   `json:"kind"`
}

type Sample struct {
	Check  string      `json:"check"`
	Inputs []ndVal     `json:"inputs"`
	Obs    []Obs       `json:"observed,omitempty"`
	Sched  []switchRec `json:"schedule,omitempty"`
	Multi  bool        `json:"multi,omitempty"`
	UF     bool        `json:"uf,omitempty"`
	Steps  int64       `json:"steps"`
	End    string      `json:"end"`
}

type Violation struct {
	Property string      `json:"property"`
	Check    string      `json:"check"`
	Kind     string      `json:"kind"`
	Msg      string      `json:"msg"`
	Where    string      `json:"where"`
	Inputs   []ndVal     `json:"inputs"`
	Sched    []switchRec `json:"schedule,omitempty"`
	Known    string      `json:"known,omitempty"`
	Multi    bool        `json:"multi,omitempty"`
	Replay   string      `json:"replay_result,omitempty"`
	File     string      `json:"-"`
}

func (v *Violation) key() string { return v.Check + "|" + v.Kind + "|" + v.Msg }

// ---------- worker ----------

type ndInput struct {
	name, kind string
	ts         []*Term
}

type obsRec struct {
	label, kind string
	ts          []*Term
}

type Worker struct {
	ord     *ordSt
	pathNo  int
	noMerge bool
	eng     *Engine
	id      int
	tb      *TB
	sv      *Solver

	fns     map[*ssa.Function]*Fn
	fvals   map[*ssa.Function]*Closure
	globals map[*ssa.Global]*Value
	inited  map[*ssa.Package]bool

	growCache map[gk]int
	trailOn   bool
	initMode  int
	spec      int

	// per path
	it           *item
	pc           []*Term
	trail        []trailEntry
	prefix       []Decision
	pos          int
	last         *dnode
	model        *Model
	ev           *evalr
	threads      []*Thread
	cur          *Thread
	pathDone     chan pathEnd
	killing      bool
	multi        bool
	steps        int64
	maxSteps     int64
	lastDec      int64 // steps at the last decision
	lastDepth    int   // depth of the calls at the last decision
	since        int64 // steps at the last switch of goroutines
	slice        int   // round-robin scheduling with this time slice if not negative
	nslice       int
	fair         bool // the next decision is forced by fairness
	inputs       []ndInput
	obs          []obsRec
	nfresh       int
	nchan        int
	objs         map[*Value]any
	addrs        map[*Value]uint64
	names        map[string]int
	preempts     int
	preemptBound int
	earlyTimers  bool
	spreadHashes bool
	switches     []switchRec
	occ          map[string]int
	nswitch      int
	timers       []*vtimer
	tseq         int
	clock        int64
	startClock   int64
	maxClock     int64
	atomicSec    int
	mapOrder     int
	maxMake      int
	maxAlloc     int
	maxThreads   int
	shadows      map[*Value]*shadow
	visIns       map[ssa.Instruction]bool
	raceBug      bool
	aliases      map[*Value][]*Str // cells shared with strings
	aliasOf      map[*Str]Slice
	fnSeen       map[*Fn]bool
	known        []knownRec
	deferredFork int
}

type knownRec struct {
	id string
	c  *Term
}

func newWorker(e *Engine, id int) *Worker {
	w := &Worker{eng: e, id: id}
	w.reset()
	return w
}

func (w *Worker) reset() {
	if w.sv != nil {
		w.eng.addStats(&w.sv.st)
		w.sv.Close()
	}
	w.tb = NewTB()
	w.tb.raw = w.eng.raw
	w.sv = NewSolver(w.tb)
	w.sv.soft, w.sv.hard = w.eng.soft, w.eng.hard
	w.fns = map[*ssa.Function]*Fn{}
	w.fvals = map[*ssa.Function]*Closure{}
	w.globals = map[*ssa.Global]*Value{}
	w.inited = map[*ssa.Package]bool{}
	w.growCache = map[gk]int{}
	w.fnSeen = map[*Fn]bool{}
	w.objs = map[*Value]any{}
	w.addrs = map[*Value]uint64{}
	w.shadows = map[*Value]*shadow{}
}

func (w *Worker) setModel(m *Model) {
	w.model = m
	if m == nil {
		w.ev = nil
		return
	}
	w.ev = &evalr{tb: w.tb, m: m, memo: map[*Term]evr{}}
}

func (w *Worker) push(t *Term) {
	if t.isTrue() {
		return
	}
	w.pc = append(w.pc, t)
}

func (w *Worker) record(d Decision) {
	n := 1
	if w.last != nil {
		n = w.last.n + 1
	}
	d.site = w.site()
	w.last = &dnode{w.last, d, n}
	if !w.fair && !d.forced {
		w.lastDec = w.steps
		if w.cur != nil {
			w.lastDepth = w.cur.depth
		}
	}
}

func (w *Worker) replaying() bool { return w.pos < len(w.prefix) }

// endOfPrefix is called after consuming the last prefix decision.
func (w *Worker) consumed() {
	w.pos++
	if w.pos == len(w.prefix) && w.it.check {
		r, m := w.sv.Check(w.pc, nil, true)
		switch r {
		case Unsat:
			panic(pathEnd{kind: "assume"})
		case Unknown:
			panic(pathEnd{"solver", "feasibility unknown"})
		}
		w.setModel(m)
	}
}

func (w *Worker) evalBool(t *Term) (bool, bool) {
	if w.ev == nil {
		return false, false
	}
	k, ok := w.ev.eval(t)
	return k == 1, ok
}

func (w *Worker) enqueue(d Decision, m *Model) {
	n := 1
	if w.last != nil {
		n = w.last.n + 1
	}
	d.site = w.site()
	w.eng.push(&item{entry: w.it.entry, pre: &dnode{w.last, d, n}, model: m, check: m == nil})
}

// branch returns the direction taken for a (possibly symbolic) condition.
func (w *Worker) branch(c *Term) bool {
	if c.isConst() {
		return c.k == 1
	}
	if w.spec > 0 {
		panic(specAbort{})
	}
	if w.initMode > 0 {
		w.unsupported("symbolic branch in initialiser")
	}
	return w.fork(c, Decision{kind: 'b'})
}

func (w *Worker) fork(c *Term, base Decision) bool {
	if w.replaying() {
		d := w.prefix[w.pos]
		if d.kind != base.kind {
			panic(pathEnd{"unsupported", fmt.Sprintf("replay divergence: %c vs %c", d.kind, base.kind) + w.where()})
		}
		w.checkSite(&d)
		w.record(d)
		if !d.forced {
			if d.dir {
				w.push(c)
			} else {
				w.push(w.tb.Not(c))
			}
		}
		w.consumed()
		return d.dir
	}
	w.eng.checkBudget()
	if q := w.quick(c); q != 0 {
		d := base
		d.dir, d.forced = q > 0, true
		w.record(d)
		return d.dir
	}
	if qstat {
		w.eng.qstat(w.where(), c)
	}
	nc := w.tb.Not(c)
	dir, ok := w.evalBool(c)
	if !ok {
		r, m := w.sv.Check(w.pc, c, true)
		switch r {
		case Sat:
			dir = true
			w.setModel(m)
		case Unsat:
			d := base
			d.dir, d.forced = false, true
			w.record(d)
			return false
		default:
			// undecided: explore both sides, each must prove its own feasibility
			w.eng.noteUnknown("branch")
			d := base
			d.dir = true
			w.enqueue(d, nil)
			r2, m2 := w.sv.Check(w.pc, nc, true)
			if r2 != Sat {
				panic(pathEnd{"solver", "branch undecided" + w.where()})
			}
			w.setModel(m2)
			d.dir = false
			w.record(d)
			w.push(nc)
			return false
		}
	}
	oth := nc
	if !dir {
		oth = c
	}
	r, m := w.sv.Check(w.pc, oth, true)
	d := base
	d.dir = dir
	switch r {
	case Unsat:
		d.forced = true
		w.record(d)
		return dir
	case Sat:
		od := base
		od.dir = !dir
		w.enqueue(od, m)
	case Unknown:
		w.eng.noteUnknown("branch")
		od := base
		od.dir = !dir
		w.enqueue(od, nil)
	}
	w.record(d)
	if dir {
		w.push(c)
	} else {
		w.push(nc)
	}
	return dir
}

func (w *Worker) concretize(t *Term) uint64 {
	if t.isConst() {
		return t.k
	}
	if w.spec > 0 {
		panic(specAbort{})
	}
	if w.initMode > 0 {
		w.unsupported("symbolic value in initialiser")
	}
	for n := 0; ; n++ {
		if n > 1<<12 {
			w.incomplete("concretisation bound")
		}
		var v uint64
		if w.replaying() {
			v = w.prefix[w.pos].val
		} else {
			if w.ev != nil {
				x, ok := w.ev.eval(t)
				if !ok {
					w.ev = nil
				}
				v = x
			}
			if w.ev == nil {
				// ask the solver for a value via a fresh variable
				w.nfresh++
				fv := w.tb.Var(fmt.Sprintf("conc%d", w.nfresh), t.srt)
				r, m := w.sv.Check(w.pc, w.tb.mk(OEq, SBool, 0, "", fv, t), true)
				if r != Sat {
					panic(pathEnd{"solver", "concretise"})
				}
				v = m.v[fv.name]
				w.setModel(m)
			}
		}
		c := w.tb.Eq(t, w.tb.Const(t.srt, v))
		if c.isTrue() {
			return v
		}
		if w.fork(c, Decision{kind: 'c', val: v}) {
			return v
		}
	}
}

// choose makes an n-way environment choice.
func (w *Worker) choose(n int, what string) int {
	if n <= 1 {
		return 0
	}
	if w.spec > 0 {
		panic(specAbort{})
	}
	if w.replaying() {
		d := w.prefix[w.pos]
		if d.kind != 'n' {
			panic(pathEnd{"unsupported", "replay divergence: choose " + what + w.where()})
		}
		w.checkSite(&d)
		w.record(d)
		w.consumed()
		return int(d.val)
	}
	w.eng.checkBudget()
	for k := n - 1; k >= 1; k-- {
		w.enqueue(Decision{kind: 'n', val: uint64(k)}, w.model)
	}
	w.record(Decision{kind: 'n', val: 0})
	return 0
}

func (w *Worker) assume(c *Term) {
	if c.isConst() {
		if c.k == 0 {
			panic(pathEnd{kind: "assume"})
		}
		return
	}
	if w.replaying() && w.it.model != nil {
		w.push(c)
		return
	}
	if v, ok := w.evalBool(c); ok && v {
		w.push(c)
		return
	}
	if w.replaying() && w.it.check {
		w.push(c)
		return
	}
	r, m := w.sv.Check(w.pc, c, true)
	switch r {
	case Unsat:
		panic(pathEnd{kind: "assume"})
	case Unknown:
		panic(pathEnd{"solver", "assume undecided" + w.where()})
	}
	w.setModel(m)
	w.push(c)
}

func (w *Worker) assert(c *Term, msg string) {
	w.eng.mu.Lock()
	w.it.entry.asserts++
	w.eng.mu.Unlock()
	if w.replaying() {
		d := w.prefix[w.pos]
		if d.kind != 'a' {
			panic(pathEnd{"unsupported", "replay divergence: assert" + w.where()})
		}
		w.checkSite(&d)
		w.record(d)
		if d.dir {
			w.push(c)
		}
		w.consumed()
		return
	}
	if c.isConst() || !w.eng.raw && len(w.known) == 0 && w.quick(c) > 0 {
		if c.isConst() && c.k == 0 {
			w.violation("assert", msg)
			panic(pathEnd{"violation", msg})
		}
		w.record(Decision{kind: 'a'})
		w.eng.mu.Lock()
		w.it.entry.folded++
		w.eng.mu.Unlock()
		return
	}
	if qstat {
		w.eng.qstat("assert "+msg, c)
	}
	w.eng.mu.Lock()
	w.it.entry.solved++
	w.eng.mu.Unlock()
	nc := w.tb.Not(c)
	// known findings exclude their failing inputs
	ex := nc
	for _, k := range w.known {
		ex = w.tb.And(ex, w.tb.Not(k.c))
	}
	for _, k := range w.known {
		r, m := w.sv.Check(w.pc, w.tb.And(nc, k.c), true)
		if r == Sat {
			w.reportKnown(k.id, msg, m)
		}
	}
	r, m := w.sv.Check(w.pc, ex, true)
	switch r {
	case Unsat:
		if len(w.known) == 0 {
			w.record(Decision{kind: 'a'})
			return
		}
	case Unknown:
		w.eng.noteUnresolved(w.it.entry.name + ": assert " + msg)
	case Sat:
		w.violationM("assert", msg, m)
	}
	// continue under the assumption that it holds
	w.record(Decision{kind: 'a', dir: true})
	w.pos = len(w.prefix) // not replaying anyway
	if v, ok := w.evalBool(c); !ok || !v {
		r, m := w.sv.Check(w.pc, c, true)
		if r != Sat {
			panic(pathEnd{"violation", msg})
		}
		w.setModel(m)
	}
	w.push(c)
}

func (w *Worker) incomplete(what string) {
	if w.spec > 0 {
		panic(specAbort{})
	}
	panic(pathEnd{"bound", what + w.where()})
}

func (w *Worker) valsOf(ts []*Term, ev *evalr) ([]uint64, bool) {
	r := make([]uint64, len(ts))
	for i, t := range ts {
		v, ok := ev.eval(t)
		if !ok {
			return nil, false
		}
		r[i] = v
	}
	return r, true
}

func (w *Worker) inputVals(ev *evalr) []ndVal {
	var r []ndVal
	for _, in := range w.inputs {
		v, _ := w.valsOf(in.ts, ev)
		r = append(r, ndVal{in.name, in.kind, v})
	}
	return r
}

func (w *Worker) violation(kind, msg string) { w.violationM(kind, msg, w.model) }

func (w *Worker) violationM(kind, msg string, m *Model) {
	if m == nil {
		r, m2 := w.sv.Check(w.pc, nil, true)
		if r != Sat {
			w.eng.noteUnresolved(w.it.entry.name + ": " + msg + " (path feasibility unknown)")
			return
		}
		m = m2
	}
	ev := &evalr{tb: w.tb, m: m, memo: map[*Term]evr{}}
	// unconditional violations (panics, deadlocks, const-false asserts) may still be known
	for _, k := range w.known {
		if v, ok := ev.eval(k.c); ok && v == 1 {
			w.reportKnown(k.id, msg, m)
			return
		}
	}
	v := &Violation{Check: w.it.entry.name, Kind: kind, Msg: msg, Where: w.where(), Inputs: w.inputVals(ev), Sched: append([]switchRec(nil), w.switches...), Multi: w.multi}
	w.eng.addViolation(w.it.entry, v)
}

func (w *Worker) reportKnown(id, msg string, m *Model) {
	ev := &evalr{tb: w.tb, m: m, memo: map[*Term]evr{}}
	v := &Violation{Check: w.it.entry.name, Kind: "known", Msg: msg, Known: id, Inputs: w.inputVals(ev)}
	w.eng.addKnown(v)
}

// stuck ends a path at the step bound. Without a decision for most of the way
// there the code goes round in circles.
func (w *Worker) stuck(what string) {
	if w.spec == 0 && w.initMode == 0 && w.steps-w.lastDec > w.maxSteps/2 {
		w.violation("deadlock", "the code does not come to an end")
		panic(pathEnd{"violation", "no progress"})
	}
	panic(pathEnd{"bound", what + w.where()})
}

// stuckDepth ends a path whose calls nest too deep. Without a decision since
// half the depth nothing ends the recursion.
func (w *Worker) stuckDepth() {
	if w.spec == 0 && w.initMode == 0 && w.lastDepth < maxDepth/2 {
		w.violation("panic", "the recursion does not come to an end")
		panic(pathEnd{"violation", "no progress"})
	}
	panic(pathEnd{"bound", "call depth" + w.where()})
}

func (w *Worker) noteFn(fn *Fn) {
	if w.initMode > 0 || w.fnSeen[fn] {
		return
	}
	w.fnSeen[fn] = true
	w.eng.noteFn(fn)
}

// runPath executes one path.
func (w *Worker) runPath(it *item) {
	w.it = it
	n := 0
	if it.pre != nil {
		n = it.pre.n
	}
	w.prefix = make([]Decision, n)
	for d := it.pre; d != nil; d = d.parent {
		w.prefix[d.n-1] = d.d
	}
	w.pos = 0
	w.last = nil
	w.pc = w.pc[:0]
	w.ord = nil
	w.pathNo++
	w.noMerge = false
	w.setModel(it.model)
	if it.model == nil && !it.check {
		w.setModel(&Model{v: map[string]uint64{}, u: map[string]uint64{}})
	}
	w.trail = w.trail[:0]
	w.trailOn = true
	w.initMode, w.spec = 0, 0
	w.threads = nil
	w.pathDone = make(chan pathEnd, 4)
	w.killing = false
	w.multi = false
	w.steps = 0
	w.maxSteps = w.eng.maxSteps
	w.inputs, w.obs = nil, nil
	w.nfresh, w.nchan = 0, 0
	clear(w.objs)
	clear(w.addrs)
	clear(w.shadows)
	w.names = map[string]int{}
	w.preempts, w.nswitch = 0, 0
	w.preemptBound = w.eng.preemptBound
	w.earlyTimers = false
	w.spreadHashes = false
	w.switches = nil
	w.occ = map[string]int{}
	w.timers = nil
	w.tseq = 0
	w.clock = 1700000000 * 1e9
	w.startClock = w.clock
	w.maxClock = int64(24 * 365 * time.Hour)
	w.atomicSec = 0
	w.lastDec, w.lastDepth, w.since, w.fair = 0, 0, 0, false
	w.slice, w.nslice = -1, 0
	w.mapOrder = 0
	w.maxMake = 64
	w.maxAlloc = 1 << 22
	w.maxThreads = 12
	w.raceBug = false
	w.known = nil
	w.visIns = w.eng.visIns

	th := w.newThread()
	w.cur = th
	th.tick()
	w.startThread(th, func() {
		for _, p := range w.eng.userPkgs {
			w.eng.buildPkg(p)
			w.initUser(p)
		}
		w.call(w.fn(it.entry.fn), nil, nil, nil)
	})
	th.resume <- struct{}{}
	end := <-w.pathDone
	w.killing = true
	for _, t := range w.threads {
		if t.parked {
			t.resume <- struct{}{}
		}
		<-t.exited
	}
	// interpret the end of path
	switch end.kind {
	case "panic":
		w.violation("panic", end.msg)
	case "solver":
		w.eng.noteUnresolved(it.entry.name + ": " + end.msg)
	case "unsupported":
		w.eng.noteUnsupported(it.entry, end.msg)
	case "bound":
		w.eng.noteBound(it.entry, end.msg)
	}
	if end.kind == "done" {
		w.eng.finishPath(w, it.entry)
	}
	w.eng.countPath(w, it.entry, end.kind)
	w.trailOn = false
	w.aliases, w.aliasOf = nil, nil
	w.undoTrail()
}

// initUser runs the package initialiser of a target/harness package inside the path.
func (w *Worker) initUser(p *ssa.Package) {
	init := p.Func("init")
	if init == nil || init.Blocks == nil {
		return
	}
	w.call(w.fn(init), nil, nil, nil)
}

// ---------- engine ----------

type Engine struct {
	usesTry  bool
	prog     *ssa.Program
	target   string
	harness  string
	replace  map[string]*ssa.Function
	opaque map[string]bool
	rtErrT   types.Type
	noInit   map[string]bool
	userPkgs []*ssa.Package
	buildMu  sync.Mutex
	built    map[*ssa.Package]bool

	mu    sync.Mutex
	cond  *sync.Cond
	queue []*item
	busy  int
	stop  bool

	entries      []*entry
	maxSteps     int64
	preemptBound int
	soft, hard   time.Duration
	deadline     time.Time
	budgetHit    bool
	maxPaths     int64

	stats                                         SolverStats
	viols                                         []*Violation
	knowns                                        map[string]*Violation
	unsup                                         map[string]int
	boundsN                                       map[string]int
	unres                                         map[string]int
	unknown                                       map[string]int
	initErr                                       map[string]string
	fnsSeen                                       map[string]bool
	paths, donePaths, infeasible, steps, switches int64
	racy                                          map[ssa.Instruction]bool
	visIns                                        map[ssa.Instruction]bool
	implMu                                        sync.Mutex
	implC                                         map[[2]types.Type]bool
	methC                                         map[string]*ssa.Function
	raw                                           bool
	knownIDs                                      map[string]string
	verbose                                       bool
}

func (e *Engine) isTarget(p string) bool {
	return p == e.target || strings.HasPrefix(p, e.target+"/")
}
func (e *Engine) isHarness(p string) bool {
	return p == e.harness || strings.HasPrefix(p, e.harness+"/")
}
func (e *Engine) isUserPkg(p string) bool { return e.isTarget(p) || e.isHarness(p) }

func (e *Engine) buildPkg(p *ssa.Package) {
	e.buildMu.Lock()
	defer e.buildMu.Unlock()
	if !e.built[p] {
		e.built[p] = true
		p.Build()
	}
}

func (e *Engine) build(f *ssa.Function) {
	if p := pkgOf(f); p != nil {
		e.buildPkg(p)
	}
}

func (e *Engine) implements(t types.Type, it *types.Interface) bool {
	e.implMu.Lock()
	defer e.implMu.Unlock()
	k := [2]types.Type{t, it}
	if r, ok := e.implC[k]; ok {
		return r
	}
	r := types.Implements(t, it)
	e.implC[k] = r
	return r
}

func (e *Engine) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	e.implMu.Lock()
	defer e.implMu.Unlock()
	k := types.TypeString(t, nil) + "." + m.Id()
	if r, ok := e.methC[k]; ok {
		return r
	}
	e.buildMu.Lock()
	f := e.prog.LookupMethod(t, m.Pkg(), m.Name())
	e.buildMu.Unlock()
	e.methC[k] = f
	return f
}

func (e *Engine) push(it *item) {
	e.mu.Lock()
	if !it.entry.stopped {
		e.queue = append(e.queue, it)
	}
	e.mu.Unlock()
	e.cond.Signal()
}

func (e *Engine) checkBudget() {
	if e.stop {
		panic(pathEnd{kind: "stop"})
	}
}

func (e *Engine) noteUnknown(s string)    { e.mu.Lock(); e.unknown[s]++; e.mu.Unlock() }
func (e *Engine) noteUnresolved(s string) { e.mu.Lock(); e.unres[s]++; e.mu.Unlock() }
func (e *Engine) noteUnsupported(en *entry, s string) {
	e.mu.Lock()
	e.unsup[en.name+": "+s]++
	e.mu.Unlock()
	if e.verbose {
		fmt.Fprintln(os.Stderr, "UNSUPPORTED", en.name, s)
	}
}
func (e *Engine) noteBound(en *entry, s string) {
	e.mu.Lock()
	e.boundsN[en.name+": "+s]++
	e.mu.Unlock()
}
func (e *Engine) noteInit(p, s string) { e.mu.Lock(); e.initErr[p] = s; e.mu.Unlock() }
func (e *Engine) noteFn(fn *Fn) {
	e.mu.Lock()
	e.fnsSeen[fn.name] = true
	e.mu.Unlock()
}
func (e *Engine) addStats(s *SolverStats) {
	e.mu.Lock()
	e.stats.Queries += s.Queries
	e.stats.SatN += s.SatN
	e.stats.UnsatN += s.UnsatN
	e.stats.UnknownN += s.UnknownN
	e.stats.Portfolio += s.Portfolio
	e.stats.Time += s.Time
	e.mu.Unlock()
}
func (e *Engine) addRacy(a, b ssa.Instruction) {
	e.mu.Lock()
	if a != nil {
		e.racy[a] = true
	}
	if b != nil {
		e.racy[b] = true
	}
	e.mu.Unlock()
}

func (e *Engine) addKnown(v *Violation) {
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.knowns[v.Known] == nil {
		e.knowns[v.Known] = v
	}
}

func (e *Engine) addViolation(en *entry, v *Violation) {
	e.mu.Lock()
	defer e.mu.Unlock()
	if en.viols[v.key()] {
		return
	}
	en.viols[v.key()] = true
	if firstOnly {
		fmt.Printf("violated: %s [%s] %s\n", en.name, v.Kind, v.Msg)
		os.Exit(1)
	}
	e.viols = append(e.viols, v)
	if e.verbose {
		fmt.Fprintf(os.Stderr, "CANDIDATE %s %s: %s%s\n", v.Check, v.Kind, v.Msg, v.Where)
	}
	if len(en.viols) >= 6 {
		en.stopped = true
	}
}

func (e *Engine) finishPath(w *Worker, en *entry) {
	e.mu.Lock()
	defer e.mu.Unlock()
	en.done++
	// reservoir-free sampling: keep powers of two and the first few
	n := en.done
	if n > 6 && n&(n-1) != 0 || len(en.samples) > 14 || w.model == nil {
		return
	}
	s := &Sample{Check: en.name, Inputs: w.inputVals(w.ev), Steps: w.steps, End: "ok", Multi: w.multi}
	for _, o := range w.obs {
		v, ok := w.valsOf(o.ts, w.ev)
		if !ok {
			s.UF = true
			continue
		}
		s.Obs = append(s.Obs, Obs{o.label, v, o.kind})
	}
	for _, p := range w.pc {
		if p.vars && hasUF(p, map[*Term]bool{}) {
			s.UF = true
		}
	}
	s.Sched = append(s.Sched, w.switches...)
	en.samples = append(en.samples, s)
}

func hasUF(t *Term, seen map[*Term]bool) bool {
	if seen[t] || !t.vars {
		return false
	}
	seen[t] = true
	if t.op == OUF {
		return true
	}
	for _, a := range t.args {
		if hasUF(a, seen) {
			return true
		}
	}
	return false
}

func (e *Engine) countPath(w *Worker, en *entry, kind string) {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.paths++
	en.paths++
	switch kind {
	case "done":
		e.donePaths++
	case "assume":
		e.infeasible++
	}
	e.steps += w.steps
	e.switches += int64(w.nswitch)
}

// explore runs all entries to completion or budget.
func (e *Engine) explore(nw int) {
	e.queue = nil
	e.stop = false
	for i := len(e.entries) - 1; i >= 0; i-- {
		en := e.entries[i]
		if !en.stopped {
			e.queue = append(e.queue, &item{entry: en})
		}
	}
	var wg sync.WaitGroup
	stopT := time.AfterFunc(time.Until(e.deadline), func() {
		e.mu.Lock()
		e.budgetHit = true
		e.stop = true
		e.mu.Unlock()
		e.cond.Broadcast()
	})
	defer stopT.Stop()
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func(id int) {
			defer wg.Done()
			w := newWorker(e, id)
			for {
				e.mu.Lock()
				for len(e.queue) == 0 && e.busy > 0 && !e.stop {
					e.cond.Wait()
				}
				if e.stop || len(e.queue) == 0 {
					e.mu.Unlock()
					e.cond.Broadcast()
					break
				}
				// round-robin between entries is approximated by alternating ends
				it := e.queue[len(e.queue)-1]
				e.queue = e.queue[:len(e.queue)-1]
				if it.entry.stopped {
					e.mu.Unlock()
					continue
				}
				e.busy++
				e.mu.Unlock()
				w.runPath(it)
				e.mu.Lock()
				e.busy--
				if e.maxPaths > 0 && e.paths >= e.maxPaths {
					e.stop = true
					e.budgetHit = true
				}
				e.mu.Unlock()
				e.cond.Broadcast()
				if w.tb.n > 4<<20 {
					w.reset()
				}
			}
			e.addStats(&w.sv.st)
			w.sv.Close()
		}(i)
	}
	wg.Wait()
}

func stackHint() string {
	s := string(debug.Stack())
	lines := strings.Split(s, "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "/verif/engine/") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 14 {
		out = out[:14]
	}
	return " <<" + strings.Join(out, " | ") + ">>"
}

func sortedCounts(m map[string]int) []string {
	var r []string
	for k, v := range m {
		r = append(r, fmt.Sprintf("%dx %s", v, k))
	}
	sort.Strings(r)
	return r
}

// query statistics for engine development (GOSYM_QSTAT=1)
var qstat = os.Getenv("GOSYM_QSTAT") != ""
var qstats = map[string]int{}
var qsample = map[string]string{}

func (e *Engine) qstat(where string, c *Term) {
	e.mu.Lock()
	qstats[where]++
	if qsample[where] == "" {
		qsample[where] = short(showTerm(c, 5), 300)
	}
	e.mu.Unlock()
}
func dumpQstat() {
	for _, k := range sortedKeys(qstats) {
		if qstats[k] > 50 {
			fmt.Fprintf(os.Stderr, "%8d %s\n          %s\n", qstats[k], k, qsample[k])
		}
	}
}
