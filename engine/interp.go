package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"unicode/utf8"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

type opnd struct {
	c Value
	r int
}

func (o *opnd) get(fr *Frame) Value {
	if o.r < 0 {
		return o.c
	}
	return fr.regs[o.r]
}

type Fn struct {
	f       *ssa.Function
	nregs   int
	blocks  []*Blk
	intr    intrinsic
	repl    *Fn
	hasDef  bool
	user    bool // gofer or harness code
	acc     bool // plain accesses take part in race detection
	target  bool // gofer code
	syncPkg bool
	ready   bool
	regOf   map[ssa.Value]int
	fvReg   []int
	parReg  []int
	name    string
}

type instrFn func(fr *Frame)

type phi struct {
	dst int
	src []opnd // per pred
}

type Blk struct {
	ins    []instrFn
	src    []ssa.Instruction
	phis   []phi
	term   func(fr *Frame) int
	b      *ssa.BasicBlock
	pure   bool
	region *region
}

type region struct {
	root  *rnode
	path  int // counters below belong to this path (replays must agree)
	fails int
	oks   int
}
type rnode struct { // a conditional block
	blk  int
	cond opnd
	kid  [2]redge
}
type redge struct {
	from   int
	target int    // exit target if path empty & node nil
	chain  []int  // pure blocks ending in jump, executed in order
	node   *rnode // nested conditional (its block pure)
}

type deferred struct {
	call func()
}

type Frame struct {
	w      *Worker
	th     *Thread
	fn     *Fn
	regs   []Value
	prev   int
	blk    int
	caller *Frame
	defers []func(*Frame)
	result Value
	pos    ssa.Instruction
	// panic state
	panicking bool
	pval      *goPanic
	noPhi     bool
	deferOf   *Frame // set when this frame is a deferred call run by deferOf
}

type goPanic struct {
	v   Iface
	msg string
	pos string
}

// pathEnd terminates the current path (not a Go-level panic of the program).
type pathEnd struct {
	kind string // "assume", "unsupported", "bound", "stop", "violation", "killed"
	msg  string
}
type specAbort struct{}

func (w *Worker) unsupported(f string, a ...any) {
	if w.spec > 0 {
		panic(specAbort{})
	}
	msg := fmt.Sprintf(f, a...)
	panic(pathEnd{"unsupported", msg + w.where()})
}

func (w *Worker) where() string {
	if w.cur == nil {
		return ""
	}
	fr := w.cur.top
	var sb strings.Builder
	for n := 0; fr != nil && n < 8; n++ {
		fmt.Fprintf(&sb, " @ %s", w.frPos(fr))
		fr = fr.caller
	}
	return sb.String()
}

func (w *Worker) frPos(fr *Frame) string {
	s := fr.fn.name
	if fr.pos != nil {
		p := w.eng.prog.Fset.Position(instrPos(fr.pos))
		if p.IsValid() {
			s += fmt.Sprintf(" (%s:%d)", shortFile(p.Filename), p.Line)
		}
	}
	return s
}

func instrPos(i ssa.Instruction) token.Pos {
	if p := i.Pos(); p.IsValid() {
		return p
	}
	for _, op := range i.Operands(nil) {
		if *op != nil {
			if p := (*op).Pos(); p.IsValid() {
				return p
			}
		}
	}
	if st, ok := i.(*ssa.Store); ok {
		return st.Addr.Pos()
	}
	return i.Pos()
}

func shortFile(f string) string {
	if i := strings.LastIndex(f, "/src/"); i >= 0 {
		return f[i+5:]
	}
	return strings.TrimPrefix(strings.TrimPrefix(f, repoDir+"/"), "/verif/")
}

func (w *Worker) goPanicStr(msg string) {
	if w.spec > 0 {
		panic(specAbort{})
	}
	panic(&goPanic{v: w.runtimeErr(msg), msg: msg, pos: w.where()})
}

func (w *Worker) runtimeErr(msg string) Iface {
	t := w.eng.rtErrT
	if t == nil {
		return Iface{types.Typ[types.String], &Str{s: msg}}
	}
	return Iface{t, &Str{s: strings.TrimPrefix(msg, "runtime error: ")}}
}

// ---------- function lookup & compilation ----------

func (w *Worker) fn(f *ssa.Function) *Fn {
	if x := w.fns[f]; x != nil {
		return x
	}
	x := &Fn{f: f}
	x.name = f.String()
	w.fns[f] = x
	org := f
	if f.Origin() != nil {
		org = f.Origin()
	}
	oname := org.String()
	pkg := pkgOf(f)
	if pkg != nil {
		p := pkg.Pkg.Path()
		x.target = w.eng.isTarget(p)
		x.user = x.target || w.eng.isHarness(p)
		x.acc = x.user || accPkg(p)
		x.syncPkg = p == "sync" || p == "sync/atomic" || p == "internal/sync" || p == "internal/runtime/atomic"
	}
	if r := w.eng.replace[oname]; r != nil && r != f {
		x.repl = w.fn(r)
		return x
	}
	if in := intrinsics[oname]; in != nil {
		x.intr = in
	}
	return x
}

func pkgOf(f *ssa.Function) *ssa.Package {
	for f != nil {
		if f.Pkg != nil {
			return f.Pkg
		}
		if f.Origin() != nil && f.Origin() != f {
			if p := pkgOf(f.Origin()); p != nil {
				return p
			}
		}
		if f.Parent() == nil {
			if r := f.Signature.Recv(); r != nil && f.Object() != nil && f.Object().Pkg() != nil {
				return f.Prog.Package(f.Object().Pkg())
			}
		}
		f = f.Parent()
	}
	return nil
}

func (w *Worker) compile(x *Fn) {
	if x.ready {
		return
	}
	f := x.f
	w.eng.build(f)
	if f.Blocks == nil {
		w.unsupported("no body: %s", f.String())
	}
	x.regOf = map[ssa.Value]int{}
	n := 0
	reg := func(v ssa.Value) int {
		x.regOf[v] = n
		n++
		return n - 1
	}
	for _, p := range f.Params {
		x.parReg = append(x.parReg, reg(p))
	}
	for _, p := range f.FreeVars {
		x.fvReg = append(x.fvReg, reg(p))
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				reg(v)
			}
			if _, ok := i.(*ssa.Defer); ok {
				x.hasDef = true
			}
			if r, ok := i.(*ssa.Range); ok {
				_ = r
			}
		}
	}
	x.nregs = n
	x.blocks = make([]*Blk, len(f.Blocks))
	for bi, b := range f.Blocks {
		bl := &Blk{b: b, pure: true}
		x.blocks[bi] = bl
		for _, i := range b.Instrs {
			switch t := i.(type) {
			case *ssa.Phi:
				p := phi{dst: x.regOf[t]}
				for _, e := range t.Edges {
					p.src = append(p.src, w.opnd(x, e))
				}
				bl.phis = append(bl.phis, p)
				continue
			case *ssa.DebugRef:
				continue
			case *ssa.Jump:
				to := b.Succs[0].Index
				bl.term = func(fr *Frame) int { return to }
				continue
			case *ssa.If:
				c := w.opnd(x, t.Cond)
				tt, ff := b.Succs[0].Index, b.Succs[1].Index
				ins := t
				bl.term = func(fr *Frame) int {
					ct, ok := c.get(fr).(*Term)
					if !ok {
						fr.w.unsupported("branch on %T", c.get(fr))
					}
					if ct.isConst() {
						if ct.k == 1 {
							return tt
						}
						return ff
					}
					fr.pos = ins
					if bl.region != nil {
						if to, ok := fr.w.runRegion(fr, bl.region); ok {
							return to
						}
					}
					if fr.w.branch(ct) {
						return tt
					}
					return ff
				}
				continue
			case *ssa.Return:
				var ops []opnd
				for _, r := range t.Results {
					ops = append(ops, w.opnd(x, r))
				}
				bl.term = func(fr *Frame) int {
					switch len(ops) {
					case 0:
						fr.result = nil
					case 1:
						fr.result = ops[0].get(fr)
					default:
						tu := make(Tuple, len(ops))
						for i := range ops {
							tu[i] = ops[i].get(fr)
						}
						fr.result = tu
					}
					return -1
				}
				continue
			case *ssa.Panic:
				v := w.opnd(x, t.X)
				ins := t
				bl.term = func(fr *Frame) int {
					fr.pos = ins
					pv := v.get(fr).(Iface)
					panic(&goPanic{v: pv, msg: "panic: " + show(pv, 3), pos: fr.w.where()})
				}
				bl.pure = false
				continue
			}
			bl.ins = append(bl.ins, w.instr(x, i))
			bl.src = append(bl.src, i)
			if !pureInstr(i) {
				bl.pure = false
			}
		}
		if len(bl.ins) > 16 {
			bl.pure = false
		}
	}
	for bi, b := range f.Blocks {
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			x.blocks[bi].region = w.findRegion(x, bi)
		}
	}
	x.ready = true
}

func pureInstr(i ssa.Instruction) bool {
	switch t := i.(type) {
	case *ssa.BinOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Field, *ssa.Index, *ssa.ChangeType, *ssa.Extract, *ssa.Convert:
		return true
	case *ssa.UnOp:
		return t.Op != token.ARROW
	case *ssa.Call:
		if b, ok := t.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len", "cap", "min", "max":
				return true
			}
		}
	case *ssa.Lookup:
		return isString(t.X.Type())
	}
	return false
}

// findRegion computes the if-convertible region rooted at conditional block bi.
func (w *Worker) findRegion(x *Fn, bi int) *region {
	type leaf struct {
		n    *rnode
		k    int
		dest int
		from int
	}
	condOf := func(b int) opnd {
		ins := x.f.Blocks[b].Instrs
		return w.opnd(x, ins[len(ins)-1].(*ssa.If).Cond)
	}
	root := &rnode{blk: bi, cond: condOf(bi)}
	leaves := []leaf{}
	addNode := func(n *rnode) {
		for k := 0; k < 2; k++ {
			s := x.f.Blocks[n.blk].Succs[k].Index
			n.kid[k] = redge{from: n.blk, target: s}
			leaves = append(leaves, leaf{n, k, s, n.blk})
		}
	}
	addNode(root)
	targets := func(ls []leaf) map[int]bool {
		m := map[int]bool{}
		for _, l := range ls {
			m[l.dest] = true
		}
		return m
	}
	visited := map[int]bool{bi: true}
	for steps := 0; steps < 12; steps++ {
		progress := false
		for li := 0; li < len(leaves); li++ {
			l := leaves[li]
			b := x.f.Blocks[l.dest]
			bl := x.blocks[l.dest]
			if visited[l.dest] || len(b.Preds) != 1 || !bl.pure || len(bl.phis) > 0 {
				continue
			}
			last := b.Instrs[len(b.Instrs)-1]
			rest := append([]leaf(nil), leaves[:li]...)
			rest = append(rest, leaves[li+1:]...)
			switch last.(type) {
			case *ssa.Jump:
				nd := b.Succs[0].Index
				if visited[nd] {
					continue
				}
				if len(targets(append(rest, leaf{dest: nd}))) > 2 {
					continue
				}
				visited[l.dest] = true
				e := &l.n.kid[l.k]
				e.chain = append(e.chain, l.dest)
				e.from = l.dest
				e.target = nd
				leaves[li] = leaf{l.n, l.k, nd, l.dest}
				progress = true
			case *ssa.If:
				s0, s1 := b.Succs[0].Index, b.Succs[1].Index
				if visited[s0] || visited[s1] {
					continue
				}
				// require that one successor is already a target (short-circuit shape)
				tg := targets(rest)
				if !tg[s0] && !tg[s1] {
					// nested diamond: allowed only if it could collapse; try conservatively
					continue
				}
				if len(targets(append(rest, leaf{dest: s0}, leaf{dest: s1}))) > 2 {
					continue
				}
				visited[l.dest] = true
				n := &rnode{blk: l.dest, cond: condOf(l.dest)}
				e := &l.n.kid[l.k]
				e.node = n
				leaves = rest
				addNode(n)
				progress = true
			}
			if progress {
				break
			}
		}
		if !progress {
			break
		}
	}
	tg := targets(leaves)
	if len(tg) > 2 || len(leaves) <= len(tg) {
		return nil
	}
	return &region{root: root}
}

type rexit struct {
	cond   *Term
	from   int
	target int
}

// runRegion evaluates a pure region speculatively; returns the next block.
func (w *Worker) runRegion(fr *Frame, r *region) (to int, ok bool) {
	if r.path != w.pathNo {
		r.path, r.fails, r.oks = w.pathNo, 0, 0
	}
	if w.noMerge || r.fails > 16 && r.oks < r.fails/4 {
		return 0, false
	}
	if w.spec > 0 {
		return 0, false
	}
	var exits []rexit
	func() {
		defer func() {
			w.spec = 0
			if e := recover(); e != nil {
				if _, is := e.(specAbort); is {
					exits = nil
					return
				}
				panic(e)
			}
		}()
		w.spec = 1
		var walk func(n *rnode, pc *Term)
		walk = func(n *rnode, pc *Term) {
			c := n.cond.get(fr).(*Term)
			for k := 0; k < 2; k++ {
				ck := c
				if k == 1 {
					ck = w.tb.Not(c)
				}
				p := w.tb.And(pc, ck)
				if p.isFalse() {
					continue
				}
				e := &n.kid[k]
				for _, b := range e.chain {
					bl := fr.fn.blocks[b]
					for _, in := range bl.ins {
						in(fr)
					}
				}
				if e.node != nil {
					bl := fr.fn.blocks[e.node.blk]
					for _, in := range bl.ins {
						in(fr)
					}
					walk(e.node, p)
				} else {
					exits = append(exits, rexit{p, e.from, e.target})
				}
			}
		}
		walk(r.root, w.tb.True)
	}()
	if len(exits) == 0 {
		r.fails++
		return 0, false
	}
	// phi merging per target
	type mv struct {
		dst int
		v   Value
	}
	merged := map[int][]mv{}
	var tgs []int
	for _, e := range exits {
		if _, dup := merged[e.target]; dup {
			continue
		}
		tgs = append(tgs, e.target)
		bl := fr.fn.blocks[e.target]
		var ms []mv
		for _, p := range bl.phis {
			var val Value
			first := true
			for _, x := range exits {
				if x.target != e.target {
					continue
				}
				pi := predIndex(bl.b, x.from)
				if pi < 0 {
					r.fails++
					return 0, false
				}
				v := p.src[pi].get(fr)
				if first {
					val = v
					first = false
					continue
				}
				m, ok := w.merge(x.cond, v, val)
				if !ok {
					r.fails++
					return 0, false
				}
				val = m
			}
			ms = append(ms, mv{p.dst, val})
		}
		if ms == nil {
			ms = []mv{}
		}
		merged[e.target] = ms
	}
	r.oks++
	to = tgs[0]
	if len(tgs) > 1 {
		c := w.tb.False
		for _, e := range exits {
			if e.target == tgs[0] {
				c = w.tb.Or(c, e.cond)
			}
		}
		if !w.branch(c) {
			to = tgs[1]
		}
	}
	for _, m := range merged[to] {
		fr.regs[m.dst] = m.v
	}
	fr.noPhi = true
	return to, true
}

func predIndex(b *ssa.BasicBlock, from int) int {
	r := -1
	for i, p := range b.Preds {
		if p.Index == from {
			if r >= 0 {
				return -1 // both edges from the same block: ambiguous
			}
			r = i
		}
	}
	return r
}

func (w *Worker) merge(c *Term, a, b Value) (Value, bool) {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok || x.srt != y.srt {
			return nil, false
		}
		return w.tb.Ite(c, x, y), true
	case *Value:
		if y, ok := b.(*Value); ok && x == y {
			return a, true
		}
		return nil, false
	case *Str:
		y, ok := b.(*Str)
		if !ok || x.len() != y.len() {
			return nil, false
		}
		if x == y {
			return x, true
		}
		bx, by := w.strBytes(x), w.strBytes(y)
		r := make([]*Term, len(bx))
		for i := range r {
			r[i] = w.tb.Ite(c, bx[i], by[i])
		}
		return w.mkStr(r), true
	case *MapObj, *ChanObj, *Closure:
		if a == b {
			return a, true
		}
		return nil, false
	case Iface:
		y, ok := b.(Iface)
		if ok && x.t == nil && y.t == nil {
			return a, true
		}
		return nil, false
	}
	return nil, false
}

func (w *Worker) opnd(x *Fn, v ssa.Value) opnd {
	switch t := v.(type) {
	case *ssa.Const:
		return opnd{w.constVal(t), -1}
	case *ssa.Global:
		return opnd{w.global(t), -1}
	case *ssa.Function:
		return opnd{w.funcVal(t), -1}
	case *ssa.Builtin:
		return opnd{nil, -1}
	}
	r, ok := x.regOf[v]
	if !ok {
		w.unsupported("no register for %v in %s", v, x.name)
	}
	return opnd{nil, r}
}

func (w *Worker) funcVal(f *ssa.Function) *Closure {
	if c := w.fvals[f]; c != nil {
		return c
	}
	c := &Closure{fn: f}
	w.fvals[f] = c
	return c
}

func (w *Worker) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return w.zero(t)
	}
	if tp, ok := t.(*types.TypeParam); ok {
		w.unsupported("type param const %v", tp)
	}
	if isString(t) {
		if c.Value.Kind() == constant.String {
			return &Str{s: constant.StringVal(c.Value)}
		}
		return &Str{s: string(rune(c.Int64()))}
	}
	s, _ := widthOf(t)
	switch {
	case s == SBool:
		return w.tb.Bool(constant.BoolVal(c.Value))
	case s == SF64:
		return w.tb.F64(c.Float64())
	case s == SF32:
		f, _ := constant.Float32Val(c.Value)
		return w.tb.F32(f)
	case s > 0:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return w.tb.Const(s, uint64(i))
		}
		u, _ := constant.Uint64Val(v)
		return w.tb.Const(s, u)
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return nilPtr()
	}
	return Poison{"const " + t.String()}
}

func (w *Worker) global(g *ssa.Global) *Value {
	if p := w.globals[g]; p != nil {
		return p
	}
	p := new(Value)
	*p = w.zero(g.Type().Underlying().(*types.Pointer).Elem())
	w.globals[g] = p
	if g.Pkg != nil && !w.eng.isUserPkg(g.Pkg.Pkg.Path()) {
		w.ensureInit(g.Pkg)
	}
	return p
}

// ensureInit runs the initialiser of a non-user package once, concretely, in the base heap.
func (w *Worker) ensureInit(p *ssa.Package) {
	if w.inited[p] {
		return
	}
	w.inited[p] = true
	w.eng.buildPkg(p)
	init := p.Func("init")
	if init == nil || w.eng.noInit[p.Pkg.Path()] {
		return
	}
	so, sm, ss := w.trailOn, w.initMode, w.spec
	sth := w.cur
	w.trailOn = false
	w.spec = 0
	w.initMode++
	th := &Thread{w: w, id: -1}
	w.cur = th
	defer func() {
		w.trailOn, w.initMode, w.spec = so, sm, ss
		w.cur = sth
		if e := recover(); e != nil {
			w.eng.noteInit(p.Pkg.Path(), fmt.Sprint(e))
		}
	}()
	w.call(w.fn(init), nil, nil, nil)
}

// ---------- calling ----------

func (w *Worker) call(fn *Fn, args []Value, env []Value, caller *Frame) Value {
	for fn.repl != nil {
		fn = fn.repl
	}
	if fn.intr != nil && !(w.initMode > 0 && fn.f.Name() == "init") {
		if caller == nil {
			caller = &Frame{w: w, th: w.cur, fn: fn}
		}
		r := fn.intr(w, caller, args)
		if r != callThrough {
			return r
		}
	}
	if fn.f.Name() == "init" && fn.f.Synthetic != "" && fn.f.Pkg != nil && caller != nil {
		// nested package initialiser: handled lazily / by the driver
		return nil
	}
	w.compile(fn)
	fr := &Frame{w: w, th: w.cur, fn: fn, caller: caller, prev: -1}
	fr.regs = make([]Value, fn.nregs)
	if len(args) != len(fn.parReg) {
		w.unsupported("arity %s: %d vs %d", fn.name, len(args), len(fn.parReg))
	}
	for i, r := range fn.parReg {
		fr.regs[r] = copyVal(args[i])
	}
	for i, r := range fn.fvReg {
		fr.regs[r] = env[i]
	}
	if fn.target {
		w.noteFn(fn)
	}
	depth := 0
	if caller != nil {
		depth = w.cur.depth + 1
	}
	if depth > maxDepth {
		w.stuckDepth()
	}
	th := w.cur
	saved, sd := th.top, th.depth
	th.top, th.depth = fr, depth
	if !fn.hasDef {
		fr.run()
		th.top, th.depth = saved, sd
		return fr.result
	}
	defer func() { th.top, th.depth = saved, sd }()
	w.runDeferFrame(fr)
	return fr.result
}

var callThrough = &struct{ x int }{1}

func (w *Worker) runDeferFrame(fr *Frame) {
	ok := func() (ok bool) {
		defer func() {
			if ok {
				return
			}
			e := recover()
			gp, is := e.(*goPanic)
			if !is {
				panic(e)
			}
			fr.panicking = true
			fr.pval = gp
			w.cur.top = fr
		}()
		fr.run()
		return true
	}()
	if ok {
		return
	}
	// run defers while panicking
	w.runDefers(fr)
	if fr.panicking {
		panic(fr.pval)
	}
	// recovered
	if rb := fr.fn.f.Recover; rb != nil {
		fr.blk = rb.Index
		fr.prev = -1
		fr.noPhi = true
		fr.run2()
		return
	}
	fr.result = w.zeroResult(fr.fn.f.Signature)
}

func (w *Worker) zeroResult(sig *types.Signature) Value {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return w.zero(sig.Results().At(0).Type())
	}
	return w.zero(sig.Results())
}

func (w *Worker) runDefers(fr *Frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			ok := false
			defer func() {
				if ok {
					return
				}
				e := recover()
				gp, is := e.(*goPanic)
				if !is {
					panic(e)
				}
				fr.panicking = true
				fr.pval = gp
				w.cur.top = fr
			}()
			d(fr)
			ok = true
		}()
	}
}

func (fr *Frame) run() {
	fr.blk = 0
	fr.run2()
}

const maxDepth = 3000

func (fr *Frame) run2() {
	w := fr.w
	for {
		bl := fr.fn.blocks[fr.blk]
		if fr.noPhi {
			fr.noPhi = false
		} else if len(bl.phis) > 0 {
			pi := -1
			for i, p := range bl.b.Preds {
				if p.Index == fr.prev {
					pi = i
					break
				}
			}
			if len(bl.phis) == 1 {
				p := &bl.phis[0]
				fr.regs[p.dst] = p.src[pi].get(fr)
			} else {
				var buf [8]Value
				tmp := buf[:0]
				for i := range bl.phis {
					tmp = append(tmp, bl.phis[i].src[pi].get(fr))
				}
				for i := range bl.phis {
					fr.regs[bl.phis[i].dst] = tmp[i]
				}
			}
		}
		w.steps += int64(len(bl.ins)) + 1
		if w.steps > w.maxSteps {
			w.stuck("step bound")
		}
		if w.steps-w.since > fairSteps && w.multi && w.spec == 0 && w.atomicSec == 0 && w.initMode == 0 {
			w.fairSwitch(fr)
		}
		if w.initMode > 0 {
			fr.runInit(bl)
		} else {
			for i, in := range bl.ins {
				fr.pos = bl.src[i]
				in(fr)
			}
		}
		next := bl.term(fr)
		if next < 0 {
			return
		}
		fr.prev = fr.blk
		fr.blk = next
	}
}

// runInit executes a block of an initialiser tolerating unsupported instructions.
func (fr *Frame) runInit(bl *Blk) {
	w := fr.w
	for i, in := range bl.ins {
		fr.pos = bl.src[i]
		func() {
			th, top, depth := w.cur, w.cur.top, w.cur.depth
			done := false
			defer func() {
				if done {
					return
				}
				e := recover()
				switch e := e.(type) {
				case *goPanic:
					panic(e)
				case pathEnd:
					if e.kind != "unsupported" {
						panic(e)
					}
				}
				w.cur = th
				th.top, th.depth = top, depth
				if v, ok := bl.src[i].(ssa.Value); ok {
					fr.regs[fr.fn.regOf[v]] = Poison{fmt.Sprint(e)}
				}
			}()
			in(fr)
			done = true
		}()
	}
}

func (w *Worker) callValue(v Value, args []Value, fr *Frame) Value {
	c, ok := v.(*Closure)
	if !ok {
		w.unsupported("call of %T", v)
	}
	if c == nil {
		w.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
	}
	if c.nat != nil {
		return c.nat(w, fr, args)
	}
	return w.call(w.fn(c.fn), args, c.env, fr)
}

func (w *Worker) methodOf(t types.Type, m *types.Func) *ssa.Function {
	return w.eng.lookupMethod(t, m)
}

// prepareCall resolves callee and args now; returns a thunk.
func (w *Worker) prepareCall(x *Fn, c *ssa.CallCommon) func(fr *Frame) func(fr *Frame) Value {
	args := make([]opnd, len(c.Args))
	for i, a := range c.Args {
		args[i] = w.opnd(x, a)
	}
	getArgs := func(fr *Frame, extra int) []Value {
		r := make([]Value, len(args)+extra)
		for i := range args {
			r[i+extra] = args[i].get(fr)
		}
		return r
	}
	if c.IsInvoke() {
		recv := w.opnd(x, c.Value)
		m := c.Method
		return func(fr *Frame) func(fr *Frame) Value {
			rv := recv.get(fr)
			i, ok := rv.(Iface)
			if !ok {
				fr.w.unsupported("invoke on %T", rv)
			}
			if i.t == nil {
				fr.w.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
			}
			as := getArgs(fr, 1)
			as[0] = i.v
			if o, ok := i.v.(*Opaque); ok {
				if h := opaqueMethods[o.what+"."+m.Name()]; h != nil {
					return func(fr *Frame) Value { return h(fr.w, fr, as) }
				}
			}
			f := fr.w.methodOf(i.t, m)
			if f == nil {
				fr.w.unsupported("no method %s on %v", m.Name(), i.t)
			}
			fn := fr.w.fn(f)
			return func(fr *Frame) Value { return fr.w.call(fn, as, nil, fr) }
		}
	}
	switch v := c.Value.(type) {
	case *ssa.Builtin:
		sig := v.Type().(*types.Signature)
		name := v.Name()
		ats := make([]types.Type, len(c.Args))
		for i, a := range c.Args {
			ats[i] = a.Type()
		}
		return func(fr *Frame) func(fr *Frame) Value {
			as := getArgs(fr, 0)
			return func(fr *Frame) Value { return fr.w.builtin(fr, name, sig, ats, as) }
		}
	case *ssa.Function:
		fn := w.fn(v)
		return func(fr *Frame) func(fr *Frame) Value {
			as := getArgs(fr, 0)
			return func(fr *Frame) Value { return fr.w.call(fn, as, nil, fr) }
		}
	}
	fv := w.opnd(x, c.Value)
	return func(fr *Frame) func(fr *Frame) Value {
		as := getArgs(fr, 0)
		f := fv.get(fr)
		return func(fr *Frame) Value { return fr.w.callValue(f, as, fr) }
	}
}

func (w *Worker) term(v Value) *Term {
	t, ok := v.(*Term)
	if !ok {
		w.unsupported("expected scalar, have %s", show(v, 1))
	}
	return t
}
func (w *Worker) idx64(v Value, signed bool) *Term {
	return w.tb.Resize(w.term(v), 64, signed)
}

// concInt concretises an integer value (forks if several values are possible).
func (w *Worker) concInt(v Value, signed bool) int {
	t := w.tb.Resize(w.term(v), 64, signed)
	if t.isConst() {
		return int(t.k)
	}
	return int(w.concretize(t))
}

func (w *Worker) nilDeref() {
	w.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
}

func (w *Worker) load(p Value, t types.Type) Value {
	switch x := p.(type) {
	case *Value:
		if x == nil {
			w.nilDeref()
		}
		v := *x
		switch y := v.(type) {
		case Struct, Array:
			if _, ok := t.Underlying().(*types.Array); ok {
				if st, ok := v.(Struct); ok {
					return copyVal(st)
				}
			}
			return copyVal(v)
		case Slice:
			if isString(t) {
				return w.aliasStr(y)
			}
		case *Term:
			// unsafe reinterpretation int <-> float
			if s, _ := widthOf(t); s > 0 && s != y.srt {
				return w.reinterpret(y, s)
			}
		case Poison:
			w.unsupported("poison value read: %s", y.why)
		case nil:
			w.unsupported("uninitialised slot")
		}
		return v
	case *SymPtr:
		el := make([]*Term, len(x.arr))
		for i, e := range x.arr {
			el[i] = w.term(e)
		}
		return w.muxTable(x.idx, el)
	case *DataPtr:
		if x.str != nil && x.str.len() > 0 {
			return w.strAt(x.str, 0)
		}
		if len(x.sl) > 0 {
			return x.sl[0]
		}
	case Poison:
		w.unsupported("poison deref %s", x.why)
	}
	w.unsupported("load via %T of %v", p, t)
	return nil
}

func (w *Worker) reinterpret(y *Term, s Sort) Value {
	switch {
	case s.isFP() && y.srt.isBV() && int(s)-1000 == int(y.srt):
		return w.tb.FFromBits(y, s)
	case s.isBV() && y.srt.isFP() && int(y.srt)-1000 == int(s):
		return w.fbits(y)
	case s.isBV() && y.srt.isBV() && s == y.srt:
		return y
	}
	w.unsupported("reinterpret %v as %v", y.srt, s)
	return nil
}

// fbits: bit pattern of a float term.
func (w *Worker) fbits(y *Term) *Term {
	if y.isConst() {
		return w.tb.Const(Sort(int(y.srt)-1000), y.k)
	}
	if y.op == OFFromBV {
		return y.args[0]
	}
	w.nfresh++
	v := w.tb.Var(fmt.Sprintf("fbits%d", w.nfresh), Sort(int(y.srt)-1000))
	w.assume(w.tb.Eq(w.tb.FFromBits(v, y.srt), y))
	return v
}

func (w *Worker) muxTable(idx *Term, el []*Term) *Term {
	if idx.isConst() {
		return el[idx.k]
	}
	allc := true
	for _, e := range el {
		if !e.isConst() {
			allc = false
			break
		}
	}
	n := len(el)
	if allc && n >= 4 && n&(n-1) == 0 && el[0].srt.isBV() && el[0].k == 0 {
		lin := true
		for i := 1; i < n && lin; i++ {
			low := i & -i
			if low != i && el[i].k != el[low].k^el[i^low].k {
				lin = false
			}
		}
		if lin {
			r := w.tb.Const(el[0].srt, 0)
			for b := 0; 1<<b < n; b++ {
				bit := w.tb.Extract(idx, b, b)
				c := w.tb.Eq(bit, w.tb.Const(1, 1))
				r = w.tb.Bin(OBXor, r, w.tb.Ite(c, el[1<<b], w.tb.Const(el[0].srt, 0)))
			}
			return r
		}
	}
	return w.tb.Mux(idx, el)
}

func (w *Worker) store(p Value, v Value) {
	switch x := p.(type) {
	case *Value:
		if x == nil {
			w.nilDeref()
		}
		if w.initMode == 0 {
			if po, bad := v.(Poison); bad {
				w.unsupported("poison store: %s", po.why)
			}
		}
		if t, ok := v.(*Term); ok {
			if o, ok2 := (*x).(*Term); ok2 && o.srt != t.srt {
				v = w.reinterpret(t, o.srt)
			}
		}
		w.assign(x, v)
		return
	case *SymPtr:
		t := w.term(v)
		for i := range x.arr {
			w.set(&x.arr[i], w.tb.Ite(w.tb.Eq(x.idx, w.tb.Int(i)), t, w.term(x.arr[i])))
		}
		return
	}
	w.unsupported("store via %T", p)
}

func (w *Worker) boundsPanic(idx *Term, n int) {
	w.goPanicStr(fmt.Sprintf("runtime error: index out of range [%s] with length %d", show(idx, 0), n))
}

// checkIdx returns concrete index (>=0) or -1 with the in-range symbolic term.
func (w *Worker) checkIdx(v Value, signed bool, n int) (int, *Term) {
	t := w.idx64(v, signed)
	if t.isConst() {
		if t.k >= uint64(n) {
			w.boundsPanic(t, n)
		}
		return int(t.k), nil
	}
	in := w.tb.Ult(t, w.tb.Int(n))
	if !w.branch(in) {
		w.boundsPanic(t, n)
	}
	return -1, t
}

func allTerms(a []Value) bool {
	for _, x := range a {
		if _, ok := x.(*Term); !ok {
			return false
		}
	}
	return true
}

func signedT(t types.Type) bool {
	_, s := widthOf(t)
	return s
}

// instr compiles one non-control instruction.
func (w *Worker) instr(x *Fn, in ssa.Instruction) instrFn {
	dst := -1
	if v, ok := in.(ssa.Value); ok {
		dst = x.regOf[v]
	}
	switch t := in.(type) {
	case *ssa.Alloc:
		et := t.Type().Underlying().(*types.Pointer).Elem()
		z := w.zero(et)
		return func(fr *Frame) {
			p := new(Value)
			*p = copyVal(z)
			fr.regs[dst] = p
		}
	case *ssa.BinOp:
		a, b := w.opnd(x, t.X), w.opnd(x, t.Y)
		return w.binop(t, a, b, dst)
	case *ssa.UnOp:
		a := w.opnd(x, t.X)
		switch t.Op {
		case token.MUL:
			et := t.Type()
			user := x.acc
			return func(fr *Frame) {
				p := a.get(fr)
				if user && fr.w.multi {
					fr.w.noteLoad(fr, t, p)
				}
				fr.regs[dst] = fr.w.load(p, et)
			}
		case token.NOT:
			return func(fr *Frame) { fr.regs[dst] = fr.w.tb.Not(fr.w.term(a.get(fr))) }
		case token.SUB:
			return func(fr *Frame) {
				v := fr.w.term(a.get(fr))
				if v.srt.isFP() {
					fr.regs[dst] = fr.w.tb.FUn(OFNeg, v)
				} else {
					fr.regs[dst] = fr.w.tb.Neg(v)
				}
			}
		case token.XOR:
			return func(fr *Frame) { fr.regs[dst] = fr.w.tb.BNot(fr.w.term(a.get(fr))) }
		case token.ARROW:
			et := t.X.Type().Underlying().(*types.Chan).Elem()
			ok := t.CommaOk
			return func(fr *Frame) {
				v, o := fr.w.chanRecv(fr, a.get(fr).(*ChanObj), et)
				if ok {
					fr.regs[dst] = Tuple{v, fr.w.tb.Bool(o)}
				} else {
					fr.regs[dst] = v
				}
			}
		}
	case *ssa.Call:
		pc := w.prepareCall(x, &t.Call)
		return func(fr *Frame) { fr.regs[dst] = pc(fr)(fr) }
	case *ssa.Go:
		pc := w.prepareCall(x, &t.Call)
		return func(fr *Frame) {
			th := pc(fr)
			fr.w.spawn(fr, th)
		}
	case *ssa.Defer:
		pc := w.prepareCall(x, &t.Call)
		if t.DeferStack != nil {
			ds := w.opnd(x, t.DeferStack)
			return func(fr *Frame) {
				th := pc(fr)
				tgt, _ := ds.get(fr).(*Frame)
				if tgt == nil {
					tgt = fr
				}
				tgt.defers = append(tgt.defers, func(f *Frame) { th(f) })
			}
		}
		return func(fr *Frame) {
			th := pc(fr)
			fr.defers = append(fr.defers, func(f *Frame) { th(f) })
		}
	case *ssa.RunDefers:
		return func(fr *Frame) {
			fr.w.runDefers(fr)
			if fr.panicking {
				panic(fr.pval)
			}
		}
	case *ssa.ChangeInterface:
		a := w.opnd(x, t.X)
		return func(fr *Frame) { fr.regs[dst] = a.get(fr) }
	case *ssa.ChangeType:
		a := w.opnd(x, t.X)
		return func(fr *Frame) { fr.regs[dst] = a.get(fr) }
	case *ssa.Convert:
		a := w.opnd(x, t.X)
		return w.convert(a, dst, t.X.Type(), t.Type())
	case *ssa.MultiConvert:
		a := w.opnd(x, t.X)
		return w.convert(a, dst, t.X.Type(), t.Type())
	case *ssa.Extract:
		a := w.opnd(x, t.Tuple)
		i := t.Index
		return func(fr *Frame) {
			tu, ok := a.get(fr).(Tuple)
			if !ok {
				fr.w.unsupported("extract from %T", a.get(fr))
			}
			fr.regs[dst] = tu[i]
		}
	case *ssa.Field:
		a := w.opnd(x, t.X)
		i := t.Field
		return func(fr *Frame) { fr.regs[dst] = copyVal(a.get(fr).(Struct)[i]) }
	case *ssa.FieldAddr:
		a := w.opnd(x, t.X)
		i := t.Field
		if pt, ok := t.X.Type().Underlying().(*types.Pointer); ok && len(w.eng.opaque) > 0 && w.eng.opaque[types.TypeString(pt.Elem(), nil)] {
			if f := pt.Elem().Underlying().(*types.Struct).Field(i); !f.Exported() {
				n := types.TypeString(pt.Elem(), nil) + "." + f.Name()
				return func(fr *Frame) { fr.w.unsupported("field %s of a modelled type", n) }
			}
		}
		return func(fr *Frame) {
			switch p := a.get(fr).(type) {
			case *Value:
				if p == nil {
					fr.w.nilDeref()
				}
				st, ok := (*p).(Struct)
				if !ok {
					fr.w.unsupported("fieldaddr of %T", *p)
				}
				fr.regs[dst] = &st[i]
			default:
				fr.w.unsupported("fieldaddr via %T", p)
			}
		}
	case *ssa.Index:
		a, ix := w.opnd(x, t.X), w.opnd(x, t.Index)
		sg := signedT(t.Index.Type())
		return func(fr *Frame) {
			w := fr.w
			switch c := a.get(fr).(type) {
			case Array:
				i, s := w.checkIdx(ix.get(fr), sg, len(c))
				if s != nil && allTerms(c) {
					fr.regs[dst] = w.load(&SymPtr{c, s}, nil)
					return
				}
				if s != nil {
					i = int(w.concretize(s))
				}
				fr.regs[dst] = copyVal(c[i])
			case *Str:
				fr.regs[dst] = w.strIndex(c, ix.get(fr), sg)
			default:
				w.unsupported("index of %T", c)
			}
		}
	case *ssa.IndexAddr:
		a, ix := w.opnd(x, t.X), w.opnd(x, t.Index)
		sg := signedT(t.Index.Type())
		return func(fr *Frame) {
			w := fr.w
			var el []Value
			switch c := a.get(fr).(type) {
			case Slice:
				el = c
			case *Value:
				if c == nil {
					w.nilDeref()
				}
				ar, ok := (*c).(Array)
				if !ok {
					w.unsupported("indexaddr of *%T", *c)
				}
				el = ar
			default:
				w.unsupported("indexaddr of %T", c)
			}
			i, s := w.checkIdx(ix.get(fr), sg, len(el))
			if s != nil {
				if allTerms(el) {
					fr.regs[dst] = &SymPtr{el, s}
					return
				}
				i = int(w.concretize(s))
			}
			fr.regs[dst] = &el[i]
		}
	case *ssa.Lookup:
		a, ix := w.opnd(x, t.X), w.opnd(x, t.Index)
		if isString(t.X.Type()) {
			sg := signedT(t.Index.Type())
			return func(fr *Frame) { fr.regs[dst] = fr.w.strIndex(a.get(fr).(*Str), ix.get(fr), sg) }
		}
		vt := t.X.Type().Underlying().(*types.Map).Elem()
		ok := t.CommaOk
		user := x.acc
		return func(fr *Frame) {
			w := fr.w
			m, good := a.get(fr).(*MapObj)
			if !good {
				w.unsupported("lookup in %T", a.get(fr))
			}
			if user && w.multi && m != nil {
				w.noteMap(fr, t, m, false)
			}
			e := w.mapFind(m, ix.get(fr))
			var v Value
			if e != nil {
				v = copyVal(e.v)
			} else {
				v = w.zero(vt)
			}
			if ok {
				fr.regs[dst] = Tuple{v, w.tb.Bool(e != nil)}
			} else {
				fr.regs[dst] = v
			}
		}
	case *ssa.MapUpdate:
		m, k, v := w.opnd(x, t.Map), w.opnd(x, t.Key), w.opnd(x, t.Value)
		user := x.acc
		return func(fr *Frame) {
			mo := m.get(fr).(*MapObj)
			if mo == nil {
				fr.w.goPanicStr("assignment to entry in nil map")
			}
			if user && fr.w.multi {
				fr.w.noteMap(fr, t, mo, true)
			}
			fr.w.mapSet(mo, k.get(fr), v.get(fr))
		}
	case *ssa.MakeChan:
		n := w.opnd(x, t.Size)
		et := t.Type().Underlying().(*types.Chan).Elem()
		return func(fr *Frame) {
			c := fr.w.concInt(n.get(fr), true)
			if c < 0 {
				fr.w.goPanicStr("makechan: size out of range")
			}
			fr.w.nchan++
			fr.regs[dst] = &ChanObj{id: fr.w.nchan, cap: c, et: et}
		}
	case *ssa.MakeClosure:
		f := t.Fn.(*ssa.Function)
		bs := make([]opnd, len(t.Bindings))
		for i, b := range t.Bindings {
			bs[i] = w.opnd(x, b)
		}
		return func(fr *Frame) {
			env := make([]Value, len(bs))
			for i := range bs {
				env[i] = bs[i].get(fr)
			}
			fr.regs[dst] = &Closure{fn: f, env: env}
		}
	case *ssa.MakeInterface:
		a := w.opnd(x, t.X)
		ty := t.X.Type()
		return func(fr *Frame) { fr.regs[dst] = Iface{ty, copyVal(a.get(fr))} }
	case *ssa.MakeMap:
		kt := t.Type().Underlying().(*types.Map).Key()
		return func(fr *Frame) { fr.regs[dst] = fr.w.newMap(kt) }
	case *ssa.MakeSlice:
		l, c := w.opnd(x, t.Len), w.opnd(x, t.Cap)
		et := t.Type().Underlying().(*types.Slice).Elem()
		ls, cs := signedT(t.Len.Type()), signedT(t.Cap.Type())
		return func(fr *Frame) {
			w := fr.w
			lt := w.idx64(l.get(fr), ls)
			lim := w.tb.Int(w.maxMake)
			if !lt.isConst() {
				// huge lengths are an environment limit: explore the panic for negatives only
				if !w.branch(w.tb.Sle(w.tb.Int(0), lt)) {
					w.goPanicStr("runtime error: makeslice: len out of range")
				}
				if !w.branch(w.tb.Ule(lt, lim)) {
					w.incomplete("makeslice length above bound")
				}
			}
			n := w.concInt(lt, true)
			m := n
			if t.Cap != t.Len {
				ct := w.idx64(c.get(fr), cs)
				if !ct.isConst() && !w.branch(w.tb.Ule(ct, lim)) {
					if !w.branch(w.tb.Sle(w.tb.Int(0), ct)) {
						w.goPanicStr("runtime error: makeslice: cap out of range")
					}
					w.incomplete("makeslice cap above bound")
				}
				m = w.concInt(ct, true)
			}
			if n < 0 || n > 1<<47 {
				w.goPanicStr("runtime error: makeslice: len out of range")
			}
			if m < n {
				w.goPanicStr("runtime error: makeslice: cap out of range")
			}
			if m > w.maxAlloc {
				w.incomplete("makeslice of concrete size above engine limit")
			}
			fr.regs[dst] = w.makeSlice(et, n, m)
		}
	case *ssa.Range:
		a := w.opnd(x, t.X)
		user := x.acc
		if isString(t.X.Type()) {
			return func(fr *Frame) { fr.regs[dst] = &strIter{s: a.get(fr).(*Str)} }
		}
		return func(fr *Frame) {
			m := a.get(fr).(*MapObj)
			if user && fr.w.multi && m != nil {
				fr.w.noteMap(fr, t, m, false)
			}
			fr.regs[dst] = fr.w.newMapIter(m)
		}
	case *ssa.Next:
		a := w.opnd(x, t.Iter)
		mt, _ := t.Iter.(*ssa.Range)
		var kt, vt types.Type
		if mt != nil && !t.IsString {
			mm := mt.X.Type().Underlying().(*types.Map)
			kt, vt = mm.Key(), mm.Elem()
		}
		user := x.acc
		return func(fr *Frame) {
			w := fr.w
			switch it := a.get(fr).(type) {
			case *strIter:
				fr.regs[dst] = w.strNext(it)
			case *mapIter:
				if user && w.multi && it.m != nil {
					w.noteMap(fr, t, it.m, false)
				}
				e := w.mapNext(it)
				if e == nil {
					fr.regs[dst] = Tuple{w.tb.False, w.zero(kt), w.zero(vt)}
				} else {
					fr.regs[dst] = Tuple{w.tb.True, copyVal(e.k), copyVal(e.v)}
				}
			default:
				w.unsupported("next on %T", it)
			}
		}
	case *ssa.Select:
		return w.selectInstr(x, t, dst)
	case *ssa.Send:
		c, v := w.opnd(x, t.Chan), w.opnd(x, t.X)
		return func(fr *Frame) { fr.w.chanSend(fr, c.get(fr).(*ChanObj), copyVal(v.get(fr))) }
	case *ssa.Slice:
		return w.sliceInstr(x, t, dst)
	case *ssa.SliceToArrayPointer:
		a := w.opnd(x, t.X)
		n := int(t.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		return func(fr *Frame) {
			s := a.get(fr).(Slice)
			if len(s) < n {
				fr.w.goPanicStr(fmt.Sprintf("runtime error: cannot convert slice with length %d to array or pointer to array with length %d", len(s), n))
			}
			if s == nil {
				fr.regs[dst] = nilPtr()
				return
			}
			p := new(Value)
			*p = Array(s[:n:n])
			fr.regs[dst] = p
		}
	case *ssa.Store:
		a, v := w.opnd(x, t.Addr), w.opnd(x, t.Val)
		user := x.acc
		return func(fr *Frame) {
			p := a.get(fr)
			if user && fr.w.multi {
				fr.w.noteStoreI(fr, t, p)
			}
			fr.w.store(p, v.get(fr))
		}
	case *ssa.TypeAssert:
		return w.typeAssert(x, t, dst)
	}
	return func(fr *Frame) { fr.w.unsupported("instruction %T %v", in, in) }
}

func (w *Worker) strIndex(c *Str, ixv Value, sg bool) Value {
	i, s := w.checkIdx(ixv, sg, c.len())
	if s != nil {
		return w.muxTable(s, w.strBytes(c))
	}
	return w.strAt(c, i)
}

func (w *Worker) typeAssert(x *Fn, t *ssa.TypeAssert, dst int) instrFn {
	a := w.opnd(x, t.X)
	at := t.AssertedType
	toI := isIface(at)
	var it *types.Interface
	if toI {
		it = at.Underlying().(*types.Interface)
	}
	return func(fr *Frame) {
		w := fr.w
		v, good := a.get(fr).(Iface)
		if !good {
			w.unsupported("typeassert on %T", a.get(fr))
		}
		ok := false
		var res Value
		if v.t != nil {
			if toI {
				ok = w.eng.implements(v.t, it)
				if _, isOp := v.v.(*Opaque); isOp && !ok {
					ok = true
				}
				res = v
			} else {
				ok = types.Identical(v.t, at)
				res = v.v
			}
		}
		if t.CommaOk {
			if !ok {
				res = w.zero(at)
			}
			fr.regs[dst] = Tuple{copyVal(res), w.tb.Bool(ok)}
			return
		}
		if !ok {
			if v.t == nil {
				w.goPanicStr(fmt.Sprintf("interface conversion: interface is nil, not %v", at))
			}
			w.goPanicStr(fmt.Sprintf("interface conversion: interface is %v, not %v", v.t, at))
		}
		fr.regs[dst] = copyVal(res)
	}
}

func (w *Worker) sliceInstr(x *Fn, t *ssa.Slice, dst int) instrFn {
	a := w.opnd(x, t.X)
	var lo, hi, mx opnd
	var los, his, mxs bool
	if t.Low != nil {
		lo, los = w.opnd(x, t.Low), signedT(t.Low.Type())
	}
	if t.High != nil {
		hi, his = w.opnd(x, t.High), signedT(t.High.Type())
	}
	if t.Max != nil {
		mx, mxs = w.opnd(x, t.Max), signedT(t.Max.Type())
	}
	return func(fr *Frame) {
		w := fr.w
		tb := w.tb
		base := a.get(fr)
		var el Slice
		var str *Str
		n, c := 0, 0
		isNil := false
		switch b := base.(type) {
		case Slice:
			el = b
			n, c = len(b), cap(b)
			isNil = b == nil
		case *Str:
			str = b
			n, c = b.len(), b.len()
		case *Value:
			if b == nil {
				w.nilDeref()
			}
			ar, ok := (*b).(Array)
			if !ok {
				w.unsupported("slice of *%T", *b)
			}
			el = Slice(ar)
			n, c = len(ar), len(ar)
		default:
			w.unsupported("slice of %T", b)
		}
		l, h, m := tb.Int(0), tb.Int(n), tb.Int(c)
		if t.Low != nil {
			l = w.idx64(lo.get(fr), los)
		}
		if t.High != nil {
			h = w.idx64(hi.get(fr), his)
		}
		if t.Max != nil {
			m = w.idx64(mx.get(fr), mxs)
		}
		ok := tb.Ands(tb.Ule(m, tb.Int(c)), tb.Ule(h, m), tb.Ule(l, h))
		if !w.branch(ok) {
			w.goPanicStr(fmt.Sprintf("runtime error: slice bounds out of range [%s:%s] with capacity %d", show(l, 0), show(h, 0), c))
		}
		hi_ := w.concInt(h, true)
		lo_ := w.concInt(l, true)
		if str != nil {
			fr.regs[dst] = w.strSlice(str, lo_, hi_)
			return
		}
		mx_ := w.concInt(m, true)
		if isNil {
			fr.regs[dst] = Slice(nil)
			return
		}
		fr.regs[dst] = el[lo_:hi_:mx_]
	}
}

func (w *Worker) binop(t *ssa.BinOp, a, b opnd, dst int) instrFn {
	xt := t.X.Type()
	s, signed := widthOf(xt)
	op := t.Op
	switch op {
	case token.EQL, token.NEQ:
		ne := op == token.NEQ
		yt := t.Y.Type()
		return func(fr *Frame) {
			w := fr.w
			x, y := a.get(fr), b.get(fr)
			var r *Term
			if isIface(xt) != isIface(yt) {
				if isIface(xt) {
					y = Iface{yt, y}
				} else {
					x = Iface{xt, x}
				}
				r = w.eq(x, y, yt)
			} else {
				r = w.eq(x, y, xt)
			}
			if ne {
				r = w.tb.Not(r)
			}
			fr.regs[dst] = r
		}
	}
	if isString(xt) {
		return func(fr *Frame) {
			w := fr.w
			x, ok1 := a.get(fr).(*Str)
			y, ok2 := b.get(fr).(*Str)
			if !ok1 || !ok2 {
				w.unsupported("string op on %T %T", a.get(fr), b.get(fr))
			}
			switch op {
			case token.ADD:
				fr.regs[dst] = w.concat(x, y)
			case token.LSS:
				fr.regs[dst] = w.strLess(x, y, false)
			case token.LEQ:
				fr.regs[dst] = w.strLess(x, y, true)
			case token.GTR:
				fr.regs[dst] = w.strLess(y, x, false)
			case token.GEQ:
				fr.regs[dst] = w.strLess(y, x, true)
			default:
				w.unsupported("string op %v", op)
			}
		}
	}
	if s < 0 {
		return func(fr *Frame) { fr.w.unsupported("binop on %v", xt) }
	}
	if s.isFP() {
		return func(fr *Frame) {
			tb := fr.w.tb
			x, y := fr.w.term(a.get(fr)), fr.w.term(b.get(fr))
			var r *Term
			switch op {
			case token.ADD:
				r = tb.FBin(OFAdd, x, y)
			case token.SUB:
				r = tb.FBin(OFSub, x, y)
			case token.MUL:
				r = tb.FBin(OFMul, x, y)
			case token.QUO:
				r = tb.FBin(OFDiv, x, y)
			case token.LSS:
				r = tb.FCmp(OFLt, x, y)
			case token.LEQ:
				r = tb.FCmp(OFLe, x, y)
			case token.GTR:
				r = tb.FCmp(OFLt, y, x)
			case token.GEQ:
				r = tb.FCmp(OFLe, y, x)
			}
			fr.regs[dst] = r
		}
	}
	if op == token.SHL || op == token.SHR {
		_, ysigned := widthOf(t.Y.Type())
		return func(fr *Frame) {
			w := fr.w
			tb := w.tb
			x, y := w.term(a.get(fr)), w.term(b.get(fr))
			if ysigned && !y.isConst() {
				if !tb.nonneg(y) && !w.branch(tb.Sle(tb.Const(y.srt, 0), y)) {
					w.goPanicStr("runtime error: negative shift amount")
				}
			} else if ysigned && y.sval() < 0 {
				w.goPanicStr("runtime error: negative shift amount")
			}
			var c *Term
			switch {
			case y.isConst():
				k := y.k
				if k > uint64(x.srt) {
					k = uint64(x.srt)
				}
				if x.srt < 8 && k > maskw(x.srt) {
					k = maskw(x.srt)
				}
				c = tb.Const(x.srt, k)
			case y.srt > x.srt:
				c = tb.Ite(tb.Ult(y, tb.Const(y.srt, uint64(x.srt))), tb.Extract(y, int(x.srt)-1, 0), tb.Const(x.srt, uint64(x.srt)))
			default:
				c = tb.Zext(y, x.srt)
			}
			o := OShl
			if op == token.SHR {
				o = OLshr
				if signed {
					o = OAshr
				}
			}
			fr.regs[dst] = tb.Bin(o, x, c)
		}
	}
	var o Op
	switch op {
	case token.ADD:
		o = OAdd
	case token.SUB:
		o = OSub
	case token.MUL:
		o = OMul
	case token.QUO:
		o = OUDiv
		if signed {
			o = OSDiv
		}
	case token.REM:
		o = OURem
		if signed {
			o = OSRem
		}
	case token.AND:
		o = OBAnd
	case token.OR:
		o = OBOr
	case token.XOR:
		o = OBXor
	case token.AND_NOT:
		return func(fr *Frame) {
			tb := fr.w.tb
			fr.regs[dst] = tb.Bin(OBAnd, fr.w.term(a.get(fr)), tb.BNot(fr.w.term(b.get(fr))))
		}
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		return func(fr *Frame) {
			tb := fr.w.tb
			x, y := fr.w.term(a.get(fr)), fr.w.term(b.get(fr))
			if op == token.GTR || op == token.GEQ {
				x, y = y, x
			}
			strict := op == token.LSS || op == token.GTR
			var r *Term
			switch {
			case signed && strict:
				r = tb.Slt(x, y)
			case signed:
				r = tb.Sle(x, y)
			case strict:
				r = tb.Ult(x, y)
			default:
				r = tb.Ule(x, y)
			}
			fr.regs[dst] = r
		}
	}
	div := op == token.QUO || op == token.REM
	boolAnd := s == SBool
	return func(fr *Frame) {
		w := fr.w
		x, y := w.term(a.get(fr)), w.term(b.get(fr))
		if boolAnd {
			switch op {
			case token.AND:
				fr.regs[dst] = w.tb.And(x, y)
			case token.OR:
				fr.regs[dst] = w.tb.Or(x, y)
			default:
				w.unsupported("bool op %v", op)
			}
			return
		}
		if div {
			if y.isConst() {
				if y.k == 0 {
					w.goPanicStr("runtime error: integer divide by zero")
				}
			} else if w.branch(w.tb.Eq(y, w.tb.Const(y.srt, 0))) {
				w.goPanicStr("runtime error: integer divide by zero")
			}
		}
		fr.regs[dst] = w.tb.Bin(o, x, y)
	}
}

func (w *Worker) convert(a opnd, dst int, from, to types.Type) instrFn {
	fu, tu := from.Underlying(), to.Underlying()
	fs, fsg := widthOf(from)
	ts, tsg := widthOf(to)
	fb, _ := fu.(*types.Basic)
	tbk, _ := tu.(*types.Basic)
	isUP := func(b *types.Basic) bool { return b != nil && b.Kind() == types.UnsafePointer }
	switch {
	case isUP(fb) && isUP(tbk):
		return func(fr *Frame) { fr.regs[dst] = a.get(fr) }
	case isUP(tbk) || isUP(fb):
		if fs > 0 { // uintptr -> unsafe.Pointer
			return func(fr *Frame) {
				v := a.get(fr)
				if t, ok := v.(*Term); ok {
					if t.isConst() && t.k == 0 {
						fr.regs[dst] = nilPtr()
						return
					}
					fr.w.unsupported("uintptr to pointer")
				}
				fr.regs[dst] = v
			}
		}
		if ts > 0 { // unsafe.Pointer -> uintptr
			return func(fr *Frame) {
				v := a.get(fr)
				if p, ok := v.(*Value); ok && p == nil {
					fr.regs[dst] = fr.w.tb.Const(64, 0)
					return
				}
				fr.regs[dst] = fr.w.ptrInt(v)
			}
		}
		return func(fr *Frame) { fr.regs[dst] = a.get(fr) }
	case fs == SBool || ts == SBool:
		return func(fr *Frame) { fr.regs[dst] = a.get(fr) }
	case fs > 0 && ts > 0:
		return func(fr *Frame) {
			w := fr.w
			t := w.term(a.get(fr))
			switch {
			case fs.isBV() && ts.isBV():
				fr.regs[dst] = w.tb.Resize(t, ts, fsg)
			case fs.isBV() && ts.isFP():
				fr.regs[dst] = w.tb.FFromInt(t, ts, fsg)
			case fs.isFP() && ts.isBV():
				fr.regs[dst] = w.tb.FToInt(t, ts, tsg)
			default:
				fr.regs[dst] = w.tb.FToF(t, ts)
			}
		}
	case isString(to):
		if fs > 0 {
			return func(fr *Frame) {
				t := fr.w.idx64(a.get(fr), fsg)
				if !t.isConst() {
					if fr.w.branch(fr.w.tb.Ult(t, fr.w.tb.Int(128))) {
						fr.regs[dst] = fr.w.mkStr([]*Term{fr.w.tb.Extract(t, 7, 0)})
						return
					}
					t = fr.w.tb.Const(64, fr.w.concretize(t))
				}
				r := rune(utf8.RuneError)
				if t.k <= utf8.MaxRune {
					r = rune(t.k)
				}
				fr.regs[dst] = &Str{s: string(r)}
			}
		}
		if sl, ok := fu.(*types.Slice); ok {
			es, _ := widthOf(sl.Elem())
			if es == 8 {
				return func(fr *Frame) {
					s, ok := a.get(fr).(Slice)
					if !ok {
						fr.w.unsupported("string(%T)", a.get(fr))
					}
					fr.regs[dst] = fr.w.mkStr(fr.w.bytesOf(s))
				}
			}
			return func(fr *Frame) {
				w := fr.w
				out := emptyStr
				for _, e := range a.get(fr).(Slice) {
					t := w.term(e)
					if !t.isConst() {
						if w.branch(w.tb.Ult(t, w.tb.Const(t.srt, 128))) {
							out = w.concat(out, w.mkStr([]*Term{w.tb.Extract(t, 7, 0)}))
							continue
						}
						t = w.tb.Const(t.srt, w.concretize(t))
					}
					out = w.concat(out, &Str{s: string(rune(t.sval()))})
				}
				fr.regs[dst] = out
			}
		}
		if isString(from) {
			return func(fr *Frame) { fr.regs[dst] = a.get(fr) }
		}
	case isString(from):
		if sl, ok := tu.(*types.Slice); ok {
			es, _ := widthOf(sl.Elem())
			if es == 8 {
				return func(fr *Frame) {
					s, ok := a.get(fr).(*Str)
					if !ok {
						fr.w.unsupported("[]byte(%T)", a.get(fr))
					}
					r := fr.w.termsToSlice(fr.w.strBytes(s))
					fr.regs[dst] = r
				}
			}
			return func(fr *Frame) {
				w := fr.w
				it := &strIter{s: a.get(fr).(*Str)}
				r := Slice{}
				for {
					n := w.strNext(it)
					if n[0].(*Term).isFalse() {
						break
					}
					r = append(r, n[2])
				}
				fr.regs[dst] = r
			}
		}
	}
	switch tu.(type) {
	case *types.Pointer, *types.Slice, *types.Signature, *types.Struct, *types.Array, *types.Map, *types.Chan:
		return func(fr *Frame) { fr.regs[dst] = a.get(fr) }
	}
	return func(fr *Frame) { fr.w.unsupported("convert %v -> %v", from, to) }
}

// ptrInt gives a pointer an opaque, distinct, stable address.
func (w *Worker) ptrInt(v Value) Value {
	switch d := v.(type) {
	case *DataPtr:
		if len(d.sl) > 0 {
			v = &d.sl[0]
		}
	case *SymPtr:
		v = &d.arr[w.concretize(d.idx)]
	}
	p, ok := v.(*Value)
	if !ok {
		w.unsupported("pointer to integer of %T", v)
	}
	if a, ok := w.addrs[p]; ok {
		return w.tb.Const(64, a)
	}
	a := 0xc000000000 + uint64(len(w.addrs)+1)*64
	w.addrs[p] = a
	return w.tb.Const(64, a)
}

type strIter struct {
	s *Str
	i int
}

func (w *Worker) strNext(it *strIter) Tuple {
	tb := w.tb
	n := it.s.len()
	if it.i >= n {
		return Tuple{tb.False, tb.Int(0), tb.Const(32, 0)}
	}
	i := it.i
	b := w.strAt(it.s, i)
	if b.isConst() && it.s.b == nil {
		r, sz := utf8.DecodeRuneInString(it.s.s[i:])
		it.i += sz
		return Tuple{tb.True, tb.Int(i), tb.Const(32, uint64(r))}
	}
	if w.branch(tb.Ult(b, tb.Const(8, 0x80))) {
		it.i++
		return Tuple{tb.True, tb.Int(i), tb.Zext(b, 32)}
	}
	// multi-byte: concretise up to 4 bytes progressively
	var buf []byte
	for k := i; k < n && k < i+4; k++ {
		buf = append(buf, byte(w.concretize(w.strAt(it.s, k))))
		if utf8.FullRune(buf) {
			break
		}
	}
	r, sz := utf8.DecodeRune(buf)
	it.i += sz
	return Tuple{tb.True, tb.Int(i), tb.Const(32, uint64(r))}
}

type mapIter struct {
	m     *MapObj
	order []*mapEnt
	i     int
	live  bool
}

func (w *Worker) newMapIter(m *MapObj) *mapIter {
	it := &mapIter{m: m}
	if m == nil {
		return it
	}
	if w.mapOrder > 0 && m.n > 1 && w.initMode == 0 {
		var live []*mapEnt
		for _, e := range m.ents {
			if !e.dead {
				live = append(live, e)
			}
		}
		// nondeterministic permutation (bounded)
		for len(live) > 0 {
			k := 0
			if len(live) > 1 {
				k = w.choose(len(live), "maporder")
			}
			it.order = append(it.order, live[k])
			live = append(live[:k:k], live[k+1:]...)
		}
		return it
	}
	it.live = true
	return it
}

func (w *Worker) mapNext(it *mapIter) *mapEnt {
	if it.m == nil {
		return nil
	}
	if it.live {
		for it.i < len(it.m.ents) {
			e := it.m.ents[it.i]
			it.i++
			if !e.dead {
				return e
			}
		}
		return nil
	}
	for it.i < len(it.order) {
		e := it.order[it.i]
		it.i++
		if !e.dead {
			return e
		}
	}
	return nil
}

// ---------- builtins ----------

func (w *Worker) builtin(fr *Frame, name string, sig *types.Signature, ats []types.Type, as []Value) Value {
	tb := w.tb
	switch name {
	case "len":
		switch x := as[0].(type) {
		case *Str:
			return tb.Int(x.len())
		case Slice:
			return tb.Int(len(x))
		case Array:
			return tb.Int(len(x))
		case *Value:
			return tb.Int(int(ats[0].Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()))
		case *MapObj:
			if x == nil {
				return tb.Int(0)
			}
			if w.multi && fr.fn.acc && w.spec == 0 {
				w.noteMap(fr, fr.pos, x, false)
			}
			return tb.Int(x.n)
		case *ChanObj:
			if x == nil {
				return tb.Int(0)
			}
			if fr.fn.user {
				w.visible(fr, "len(chan)", nil)
			}
			return tb.Int(len(x.buf))
		}
	case "cap":
		switch x := as[0].(type) {
		case Slice:
			return tb.Int(cap(x))
		case Array:
			return tb.Int(len(x))
		case *Value:
			return tb.Int(int(ats[0].Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()))
		case *ChanObj:
			if x == nil {
				return tb.Int(0)
			}
			return tb.Int(x.cap)
		}
	case "append":
		if len(as) == 1 {
			return as[0]
		}
		s, ok := as[0].(Slice)
		if !ok {
			w.unsupported("append to %T", as[0])
		}
		et := ats[0].Underlying().(*types.Slice).Elem()
		var add []Value
		switch y := as[1].(type) {
		case Slice:
			add = y
		case *Str:
			add = w.termsToSlice(w.strBytes(y))
		default:
			w.unsupported("append of %T", y)
		}
		if w.multi && fr.fn.acc {
			w.noteRange(fr, add, false)
			if n := len(s) + len(add); n <= cap(s) {
				w.noteRange(fr, s[len(s):n], true)
			}
		}
		return w.appendVals(s, add, et)
	case "copy":
		d := as[0].(Slice)
		var src []Value
		switch y := as[1].(type) {
		case Slice:
			src = y
		case *Str:
			src = w.termsToSlice(w.strBytes(y))
		}
		n := min(len(d), len(src))
		if w.multi && fr.fn.acc {
			w.noteRange(fr, src[:n], false)
			w.noteRange(fr, d[:n], true)
		}
		tmp := make([]Value, n)
		for i := range tmp {
			tmp[i] = copyVal(src[i])
		}
		for i := range tmp {
			w.assign(&d[i], tmp[i])
		}
		return tb.Int(n)
	case "clear":
		switch x := as[0].(type) {
		case *MapObj:
			if x != nil {
				if w.multi && fr.fn.acc {
					w.noteMap(fr, fr.pos, x, true)
				}
				w.mapClear(x)
			}
			return nil
		case Slice:
			z := w.zero(ats[0].Underlying().(*types.Slice).Elem())
			for i := range x {
				w.assign(&x[i], z)
			}
			return nil
		}
	case "delete":
		m := as[0].(*MapObj)
		if m != nil {
			if w.multi && fr.fn.acc {
				w.noteMap(fr, fr.pos, m, true)
			}
			w.mapDelete(m, as[1])
		}
		return nil
	case "close":
		w.chanClose(fr, as[0].(*ChanObj))
		return nil
	case "panic":
		pv := as[0].(Iface)
		panic(&goPanic{v: pv, msg: "panic: " + show(pv, 3), pos: w.where()})
	case "recover":
		// fr is the deferred function's frame; its caller is the panicking frame
		if c := fr.caller; c != nil && c.panicking {
			c.panicking = false
			pv := c.pval.v
			return pv
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		r := as[0]
		for _, y := range as[1:] {
			r = w.minmax(r, y, name == "min", ats[0])
		}
		return r
	case "ssa:wrapnilchk":
		if isNilPtr(as[0]) {
			w.goPanicStr("value method called using nil pointer")
		}
		return as[0]
	case "ssa:deferstack":
		return fr
	case "SliceData":
		s := as[0].(Slice)
		if s == nil {
			return nilPtr()
		}
		return &DataPtr{sl: s[:cap(s)]}
	case "StringData":
		return &DataPtr{str: as[0].(*Str)}
	case "String":
		n := w.concInt(as[1], true)
		if n == 0 {
			return emptyStr
		}
		switch d := as[0].(type) {
		case *DataPtr:
			if d.str != nil {
				return w.strSlice(d.str, 0, n)
			}
			return w.aliasStr(d.sl[:n])
		case *Value:
			if d != nil {
				return w.aliasStr(Slice(unsafe.Slice(d, n)))
			}
		}
	case "Slice":
		n := w.concInt(as[1], true)
		switch d := as[0].(type) {
		case *DataPtr:
			if d.str != nil {
				return w.termsToSlice(w.strBytes(d.str)[:n])
			}
			return d.sl[:n:n]
		case *Value:
			if d == nil {
				return Slice(nil)
			}
			if n == 0 {
				return Slice{}
			}
		}
	}
	w.unsupported("builtin %s(%T)", name, as[0])
	return nil
}

func (w *Worker) minmax(a, b Value, isMin bool, t types.Type) Value {
	switch x := a.(type) {
	case *Term:
		y := b.(*Term)
		var lt *Term
		if x.srt.isFP() {
			if !x.isConst() || !y.isConst() {
				w.unsupported("min/max float")
			}
			lt = w.tb.FCmp(OFLt, x, y)
		} else if signedT(t) {
			lt = w.tb.Slt(x, y)
		} else {
			lt = w.tb.Ult(x, y)
		}
		if isMin {
			return w.tb.Ite(lt, x, y)
		}
		return w.tb.Ite(lt, y, x)
	case *Str:
		lt := w.branch(w.strLess(x, b.(*Str), false))
		if lt == isMin {
			return a
		}
		return b
	}
	w.unsupported("min/max %T", a)
	return nil
}

// accPkg: packages outside the target whose plain memory accesses take part in
// race detection: third-party modules and the unsynchronised containers and
// streams of the standard library.
func accPkg(p string) bool {
	switch p {
	case "container/list", "container/heap", "container/ring", "bytes", "bufio", "math/rand":
		return true
	}
	i := strings.IndexByte(p, '/')
	return i > 0 && strings.Contains(p[:i], ".") && !strings.HasPrefix(p, "golang.org/x/")
}
