package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type Result int

const (
	Unknown Result = iota
	Sat
	Unsat
)

func (r Result) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

type SolverStats struct {
	Queries, SatN, UnsatN, UnknownN, Portfolio int64
	Time                                       time.Duration
}

type Solver struct {
	tb      *TB
	cmd     *exec.Cmd
	in      *bufio.Writer
	out     *bufio.Reader
	defined map[int32]bool
	decls   map[string]bool
	stack   []*Term
	st      SolverStats
	soft    time.Duration // incremental timeout
	hard    time.Duration // portfolio timeout
	log     io.Writer
	curTO   int
}

func NewSolver(tb *TB) *Solver {
	s := &Solver{tb: tb, soft: 4 * time.Second, hard: 60 * time.Second}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command("z3-new", "-in", "-smt2")
	s.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	w, _ := s.cmd.StdinPipe()
	r, _ := s.cmd.StdoutPipe()
	if d := os.Getenv("GOSYM_SMTLOG"); d != "" {
		s.log, _ = os.Create(fmt.Sprintf("%s/%p.smt2", d, s))
	}
	if err := s.cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, "cannot start z3-new:", err)
		os.Exit(2)
	}
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReaderSize(r, 1<<16)
	s.defined = map[int32]bool{}
	s.decls = map[string]bool{}
	s.stack = nil
	s.curTO = 0
	s.send("(set-option :global-declarations true)\n(set-option :produce-models true)\n")
}

func (s *Solver) Close() {
	s.in.Flush()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

func (s *Solver) send(x string) {
	if s.log != nil {
		io.WriteString(s.log, x)
	}
	s.in.WriteString(x)
}

func symName(n string) string { return "|" + n + "|" }
func varSym(t *Term) string   { return symName(t.name + "!" + strconv.Itoa(int(t.srt))) }

func constSMT(t *Term) string {
	switch {
	case t.srt == SBool:
		if t.k == 1 {
			return "true"
		}
		return "false"
	case t.srt == SF64:
		return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", t.k)
	case t.srt == SF32:
		return fmt.Sprintf("((_ to_fp 8 24) #x%08x)", t.k)
	case t.srt%4 == 0:
		return fmt.Sprintf("#x%0*x", int(t.srt)/4, t.k)
	}
	return fmt.Sprintf("#b%0*b", int(t.srt), t.k)
}

var opSMT = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", ONeg: "bvneg",
	OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OConcat: "concat", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OFAdd: "fp.add RNE", OFSub: "fp.sub RNE", OFMul: "fp.mul RNE", OFDiv: "fp.div RNE", OFNeg: "fp.neg", OFAbs: "fp.abs", OFSqrt: "fp.sqrt RNE",
	OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq", OFIsNaN: "fp.isNaN",
	OFFloor: "fp.roundToIntegral RTN", OFCeil: "fp.roundToIntegral RTP", OFTrunc: "fp.roundToIntegral RTZ", OFRound: "fp.roundToIntegral RNA"}

type emitter struct {
	w       *strings.Builder
	defined map[int32]bool
	decls   map[string]bool
}

func (e *emitter) ref(t *Term) string {
	switch t.op {
	case OConst:
		return constSMT(t)
	case OVar:
		return varSym(t)
	}
	return "t" + strconv.Itoa(int(t.id))
}

func (e *emitter) emit(t *Term) {
	if t.op == OConst {
		return
	}
	if t.op == OVar {
		if !e.decls[varSym(t)] {
			e.decls[varSym(t)] = true
			fmt.Fprintf(e.w, "(declare-fun %s () %s)\n", varSym(t), t.srt.smt())
		}
		return
	}
	if e.defined[t.id] {
		return
	}
	e.defined[t.id] = true
	for _, a := range t.args {
		e.emit(a)
	}
	w := e.w
	if t.op == OUF && !e.decls["uf:"+t.name] {
		e.decls["uf:"+t.name] = true
		fmt.Fprintf(w, "(declare-fun %s (", symName(t.name))
		for _, a := range t.args {
			w.WriteString(a.srt.smt() + " ")
		}
		fmt.Fprintf(w, ") %s)\n", t.srt.smt())
	}
	fmt.Fprintf(w, "(define-fun t%d () %s ", t.id, t.srt.smt())
	switch t.op {
	case OUF:
		if len(t.args) == 0 {
			w.WriteString(symName(t.name) + ")\n")
			return
		}
		w.WriteString("(" + symName(t.name))
	case OExtract:
		fmt.Fprintf(w, "((_ extract %d %d)", t.k>>16, t.k&0xffff)
	case OZext:
		fmt.Fprintf(w, "((_ zero_extend %d)", t.srt-t.args[0].srt)
	case OSext:
		fmt.Fprintf(w, "((_ sign_extend %d)", t.srt-t.args[0].srt)
	case OFFromS, OFToF:
		if t.srt == SF64 {
			w.WriteString("((_ to_fp 11 53) RNE")
		} else {
			w.WriteString("((_ to_fp 8 24) RNE")
		}
	case OFFromU:
		if t.srt == SF64 {
			w.WriteString("((_ to_fp_unsigned 11 53) RNE")
		} else {
			w.WriteString("((_ to_fp_unsigned 8 24) RNE")
		}
	case OFFromBV:
		if t.srt == SF64 {
			w.WriteString("((_ to_fp 11 53)")
		} else {
			w.WriteString("((_ to_fp 8 24)")
		}
	case OFToS:
		fmt.Fprintf(w, "((_ fp.to_sbv %d) RTZ", t.srt)
	case OFToU:
		fmt.Fprintf(w, "((_ fp.to_ubv %d) RTZ", t.srt)
	default:
		o := opSMT[t.op]
		if o == "" {
			panic(fmt.Sprint("no smt for op ", t.op))
		}
		w.WriteString("(" + o)
	}
	for _, a := range t.args {
		w.WriteString(" " + e.ref(a))
	}
	w.WriteString("))\n")
}

func (s *Solver) assertTerm(t *Term) {
	var sb strings.Builder
	e := emitter{&sb, s.defined, s.decls}
	e.emit(t)
	fmt.Fprintf(&sb, "(assert %s)\n", e.ref(t))
	s.send(sb.String())
}

func (s *Solver) sync(pc []*Term) {
	n := 0
	for n < len(pc) && n < len(s.stack) && pc[n] == s.stack[n] {
		n++
	}
	if d := len(s.stack) - n; d > 0 {
		s.send(fmt.Sprintf("(pop %d)\n", d))
		s.stack = s.stack[:n]
	}
	for _, t := range pc[n:] {
		s.send("(push 1)\n")
		s.assertTerm(t)
		s.stack = append(s.stack, t)
	}
}

// Check decides PC ∧ extra. model returned when sat.
func (s *Solver) Check(pc []*Term, extra *Term, hard bool) (Result, *Model) {
	t0 := time.Now()
	s.st.Queries++
	defer func() { s.st.Time += time.Since(t0) }()
	res, m := s.incremental(pc, extra)
	if res == Unknown {
		s.st.Portfolio++
		res, m = s.portfolio(pc, extra)
	}
	switch res {
	case Sat:
		s.st.SatN++
	case Unsat:
		s.st.UnsatN++
	default:
		s.st.UnknownN++
	}
	return res, m
}

type solverDied struct{ why string }

// incremental asks the resident solver; a solver that dies or answers
// nonsense is restarted and the query counts as unknown there.
func (s *Solver) incremental(pc []*Term, extra *Term) (res Result, m *Model) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(solverDied); !ok {
				panic(r)
			}
			s.cmd.Process.Kill()
			s.cmd.Wait()
			s.start()
			res, m = Unknown, nil
		}
	}()
	s.sync(pc)
	to := int(s.soft / time.Millisecond)
	if s.curTO != to {
		s.send(fmt.Sprintf("(set-option :timeout %d)\n", to))
		s.curTO = to
	}
	s.send("(push 1)\n")
	if extra != nil {
		s.assertTerm(extra)
	}
	s.send("(check-sat)\n")
	s.in.Flush()
	line := s.readLine()
	switch line {
	case "sat":
		res = Sat
	case "unsat":
		res = Unsat
	case "unknown", "timeout":
		res = Unknown
	default:
		panic(solverDied{line})
	}
	if res == Sat {
		m = s.getModel(pc, extra, func(q string) string {
			s.send(q)
			s.in.Flush()
			return s.readSexp()
		})
		if m == nil {
			panic(solverDied{"bad get-value reply"})
		}
	}
	s.send("(pop 1)\n")
	return res, m
}

func (s *Solver) readLine() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			panic(solverDied{err.Error()})
		}
		if l = strings.TrimSpace(l); l != "" {
			return l
		}
	}
}

func (s *Solver) readSexp() string {
	var sb strings.Builder
	depth := 0
	bar := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			panic(solverDied{err.Error()})
		}
		sb.WriteByte(c)
		if c == '|' {
			bar = !bar
		}
		if bar {
			continue
		}
		if c == '(' {
			depth++
		}
		if c == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	r := sb.String()
	if strings.Contains(r, "(error") {
		panic(solverDied{r})
	}
	return r
}

func collect(ts []*Term) (vars, ufs []*Term) {
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if !t.vars || seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			walk(a)
		}
		if t.op == OVar {
			vars = append(vars, t)
		} else if t.op == OUF {
			ufs = append(ufs, t)
		}
	}
	for _, t := range ts {
		walk(t)
	}
	return
}

func (s *Solver) getModel(pc []*Term, extra *Term, ask func(string) string) *Model {
	all := pc
	if extra != nil {
		all = append(append([]*Term(nil), pc...), extra)
	}
	vars, ufs := collect(all)
	m := &Model{v: make(map[string]uint64, len(vars)), u: map[string]uint64{}}
	if len(vars)+len(ufs) == 0 {
		return m
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, v := range vars {
		sb.WriteString(varSym(v) + " ")
	}
	for _, u := range ufs {
		fmt.Fprintf(&sb, "t%d ", u.id)
	}
	sb.WriteString("))\n")
	rep := ask(sb.String())
	vals := parseValues(rep)
	if len(vals) != len(vars)+len(ufs) {
		return nil
	}
	for i, v := range vars {
		m.v[v.name] = vals[i]
	}
	e := &evalr{tb: s.tb, m: m, memo: map[*Term]evr{}}
	for i, u := range ufs { // args-first order
		args := make([]uint64, len(u.args))
		ok := true
		for j, a := range u.args {
			var o bool
			args[j], o = e.eval(a)
			ok = ok && o
		}
		if ok {
			m.u[ufKey(u.name, u.srt, args)] = vals[len(vars)+i]
			delete(e.memo, u)
		}
	}
	return m
}

func parseValues(r string) []uint64 {
	// ((name val) (name val) ...)
	var out []uint64
	i := strings.IndexByte(r, '(') + 1
	for i < len(r) {
		j := strings.IndexByte(r[i:], '(')
		if j < 0 {
			break
		}
		i += j + 1
		// skip name
		if r[i] == '|' {
			i += strings.IndexByte(r[i+1:], '|') + 2
		} else {
			for r[i] != ' ' && r[i] != '\n' {
				i++
			}
		}
		k := strings.IndexByte(r[i:], ')')
		tok := strings.TrimSpace(r[i : i+k])
		i += k + 1
		switch {
		case tok == "true":
			out = append(out, 1)
		case tok == "false":
			out = append(out, 0)
		case strings.HasPrefix(tok, "#x"):
			v, err := strconv.ParseUint(tok[2:], 16, 64)
			if err != nil {
				fatal("value %q", tok)
			}
			out = append(out, v)
		case strings.HasPrefix(tok, "#b"):
			v, err := strconv.ParseUint(tok[2:], 2, 64)
			if err != nil {
				fatal("value %q", tok)
			}
			out = append(out, v)
		default:
			fatal("cannot parse value %q in %q", tok, r)
		}
	}
	return out
}

var portSem = make(chan struct{}, 3)

func (s *Solver) script(pc []*Term, extra *Term) (string, []*Term) {
	var sb strings.Builder
	e := emitter{&sb, map[int32]bool{}, map[string]bool{}}
	all := append([]*Term(nil), pc...)
	if extra != nil {
		all = append(all, extra)
	}
	for _, t := range all {
		e.emit(t)
		fmt.Fprintf(&sb, "(assert %s)\n", e.ref(t))
	}
	return sb.String(), all
}

// portfolio runs several one-shot solvers in parallel on the standalone script.
func (s *Solver) portfolio(pc []*Term, extra *Term) (Result, *Model) {
	portSem <- struct{}{}
	defer func() { <-portSem }()
	body, _ := s.script(pc, extra)
	ctx, cancel := context.WithTimeout(context.Background(), s.hard)
	defer cancel()
	type ans struct {
		r Result
		m *Model
	}
	cfgs := [][]string{
		{"z3-new", "-in", "-smt2"},
		{"cvc5", "--lang=smt2", "--produce-models", "-"},
		{"cvc5", "--lang=smt2", "--produce-models", "--solve-bv-as-int=sum", "-"},
		{"z3", "-in", "-smt2"},
	}
	ch := make(chan ans, len(cfgs))
	var mu sync.Mutex
	for _, c := range cfgs {
		go func(c []string) {
			text := "(set-option :produce-models true)\n"
			text += "(set-logic ALL)\n"
			text += body + "(check-sat)\n"
			run := func(txt string) string {
				cmd := exec.CommandContext(ctx, c[0], c[1:]...)
				cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
				cmd.Stdin = strings.NewReader(txt)
				var ob bytes.Buffer
				cmd.Stdout = &ob
				cmd.Run()
				return ob.String()
			}
			query := ""
			mu.Lock()
			s.getModel(pc, extra, func(q string) string { query = q; return "" })
			mu.Unlock()
			o := run(text + query)
			first := strings.TrimSpace(strings.SplitN(o, "\n", 2)[0])
			switch first {
			case "unsat":
				ch <- ans{Unsat, nil}
			case "sat":
				mu.Lock()
				defer mu.Unlock()
				if ctx.Err() != nil {
					ch <- ans{}
					return
				}
				m := s.getModel(pc, extra, func(q string) string {
					if i := strings.IndexByte(o, '\n'); i >= 0 {
						return strings.TrimSpace(o[i+1:])
					}
					return ""
				})
				if m == nil {
					ch <- ans{}
					return
				}
				ch <- ans{Sat, m}
			default:
				ch <- ans{}
			}
		}(c)
	}
	var got ans
	for range cfgs {
		a := <-ch
		if a.r != Unknown && got.r == Unknown {
			got = a
			cancel()
		}
	}
	return got.r, got.m
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "FATAL: "+f+"\n", a...)
	os.Exit(2)
}
