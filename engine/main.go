package main

import (
	"cmp"
	"flag"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var thorough bool

func main() {
	prop := flag.String("prop", "", "property id")
	pkgs := flag.String("pkg", "", "harness package(s), comma separated")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick|thorough")
	only := flag.String("run", "", "only checks whose name contains this")
	budget := flag.Duration("budget", 0, "exploration budget")
	workers := flag.Int("j", runtime.NumCPU(), "workers")
	verbose := flag.Bool("v", false, "verbose")
	evid := flag.String("evidence", "", "evidence file")
	noreplay := flag.Bool("noreplay", false, "skip native replay")
	hdir := flag.String("harness", "/verif/harness", "harness module dir")
	paths := flag.Int64("maxpaths", 0, "path limit")
	maxsteps := flag.Int64("maxsteps", 3000000, "steps per path")
	flag.Parse()
	if *tier == "" {
		*tier = "quick"
	}
	thorough = *tier == "thorough"
	os.Setenv("VERIF_TIER", *tier)
	if *budget == 0 {
		*budget = 90 * time.Second
		if thorough {
			*budget = 700 * time.Second
		}
	}
	t0 := time.Now()
	e := load(*hdir, strings.Split(*pkgs, ","), *only)
	loadT := time.Since(t0)
	e.verbose = *verbose
	e.knownIDs = loadKnown("/verif/KNOWN_FINDINGS.txt", *prop)
	e.soft, e.hard = 4*time.Second, 45*time.Second
	e.maxSteps = *maxsteps
	e.maxPaths = *paths
	e.preemptBound = 2
	e.deadline = time.Now().Add(*budget)
	run := &runner{e: e, prop: *prop, tier: *tier, hdir: *hdir, evid: *evid, t0: t0, loadT: loadT, pkgs: strings.Split(*pkgs, ","), noreplay: *noreplay, workers: *workers, budget: *budget}
	os.Exit(run.run())
}

func load(hdir string, pats []string, only string) *Engine {
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  hdir,
		Env:  os.Environ(),
	}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		buildBroken("load: %v", err)
	}
	nerr := 0
	var firstErr string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, er := range p.Errors {
			nerr++
			if firstErr == "" {
				firstErr = er.Error()
			}
			if nerr < 5 {
				fmt.Fprintln(os.Stderr, "load error:", er)
			}
		}
	})
	if nerr > 0 {
		buildBroken("load errors: %s", firstErr)
	}
	prog, pkgs := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	e := &Engine{prog: prog, target: "github.com/donnie4w/gofer", harness: "verif",
		replace: map[string]*ssa.Function{}, opaque: map[string]bool{}, noInit: map[string]bool{}, built: map[*ssa.Package]bool{},
		implC: map[[2]types.Type]bool{}, methC: map[string]*ssa.Function{},
		knownIDs: map[string]string{}, knowns: map[string]*Violation{}, unsup: map[string]int{}, boundsN: map[string]int{}, unres: map[string]int{}, unknown: map[string]int{},
		initErr: map[string]string{}, fnsSeen: map[string]bool{}, racy: map[ssa.Instruction]bool{}, visIns: map[ssa.Instruction]bool{}}
	e.cond = sync.NewCond(&e.mu)
	for _, p := range []string{"runtime", "internal/cpu", "syscall", "os", "net", "internal/godebug", "internal/poll", "crypto/internal/fips140", "golang.org/x/sys/cpu", "net/http", "internal/godebugs"} {
		e.noInit[p] = true
	}
	if rt := prog.ImportedPackage("runtime"); rt != nil {
		if o := rt.Pkg.Scope().Lookup("errorString"); o != nil {
			e.rtErrT = o.Type()
		}
	}
	// user packages in dependency order, and replacement directives
	seen := map[string]bool{}
	var visit func(p *packages.Package)
	visit = func(p *packages.Package) {
		if seen[p.PkgPath] {
			return
		}
		seen[p.PkgPath] = true
		var names []string
		for n := range p.Imports {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			visit(p.Imports[n])
		}
		if !e.isUserPkg(p.PkgPath) {
			return
		}
		sp := prog.Package(p.Types)
		if sp == nil {
			return
		}
		if !strings.HasSuffix(p.PkgPath, "verif/nd") {
			e.userPkgs = append(e.userPkgs, sp)
		}
		e.buildPkg(sp)
		for _, f := range p.Syntax {
			ast.Inspect(f, func(n ast.Node) bool {
				if s, ok := n.(*ast.SelectorExpr); ok && (s.Sel.Name == "TryLock" || s.Sel.Name == "TryRLock") {
					e.usesTry = true
				}
				return true
			})
		}
		if e.isHarness(p.PkgPath) {
			for _, f := range p.Syntax {
				for _, d := range f.Decls {
					fd, ok := d.(*ast.FuncDecl)
					if !ok || fd.Doc == nil {
						continue
					}
					for _, c := range fd.Doc.List {
						if r, ok := strings.CutPrefix(c.Text, "//sym:replace "); ok {
							fn := sp.Func(fd.Name.Name)
							for _, n := range strings.Split(r, ",") {
								e.replace[strings.TrimSpace(n)] = fn
							}
						}
						if r, ok := strings.CutPrefix(c.Text, "//sym:opaque "); ok {
							for _, n := range strings.Split(r, ",") {
								e.opaque[strings.TrimSpace(n)] = true
							}
						}
					}
				}
			}
		}
	}
	for _, p := range ps {
		visit(p)
	}
	for _, sp := range pkgs {
		if sp == nil {
			continue
		}
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			f, ok := sp.Members[n].(*ssa.Function)
			if ok && strings.HasPrefix(n, "Check") && f.Signature.Params().Len() == 0 && (only == "" || strings.Contains(n, only)) {
				e.entries = append(e.entries, &entry{fn: f, name: n, viols: map[string]bool{}, reach: map[string]int64{}, bounds: map[string]int{}, notes: map[string]int{}})
			}
		}
	}
	if len(e.entries) == 0 {
		fatal("no checks found")
	}
	return e
}

// buildBroken: the tree under test does not compile against the harness.
func buildBroken(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "CANNOT ENCODE: "+f+"\n", a...)
	os.Exit(3)
}

type runner struct {
	e          *Engine
	prop       string
	tier       string
	hdir       string
	evid       string
	t0         time.Time
	loadT      time.Duration
	pkgs       []string
	noreplay   bool
	workers    int
	budget     time.Duration
	rounds     int
	rawEntries []*entry
	rawPaths   int64
	rawHit     bool
}

func (r *runner) run() int {
	e := r.e
	for round := 0; ; round++ {
		r.rounds++
		e.explore(r.workers)
		// extend the visible set with racy accesses and repeat
		grew := false
		vis := map[ssa.Instruction]bool{}
		for i := range e.visIns {
			vis[i] = true
		}
		for i := range e.racy {
			if !vis[i] {
				vis[i] = true
				grew = true
			}
		}
		e.visIns = vis
		if !grew || e.budgetHit || round >= 4 || len(e.viols) > 0 {
			break
		}
		for _, en := range e.entries {
			en.samples = nil
			en.done = 0
		}
	}
	if qstat {
		dumpQstat()
	}
	fmt.Printf("explored paths=%d completed=%d steps=%d queries=%d (sat %d unsat %d unknown %d) solver=%.1fs load=%.1fs wall=%.1fs budgetHit=%v rounds=%d\n",
		e.paths, e.donePaths, e.steps, e.stats.Queries, e.stats.SatN, e.stats.UnsatN, e.stats.UnknownN, e.stats.Time.Seconds(), r.loadT.Seconds(), time.Since(r.t0).Seconds(), e.budgetHit, r.rounds)
	for _, en := range e.entries {
		fmt.Printf("  %-40s paths=%d complete=%d asserts=%d reach=%v\n", en.name, en.paths, en.done, en.asserts, en.reach)
	}
	// assertions the term simplifier alone reduced to true are put to the solver:
	// those checks run again with only constant folding
	var saved []*entry
	var redo []*entry
	if len(e.viols) == 0 && !e.budgetHit && !firstOnly {
		for _, en := range e.entries {
			if en.folded > 0 && en.solved == 0 && en.done > 0 {
				redo = append(redo, &entry{fn: en.fn, name: en.name, viols: map[string]bool{}, reach: map[string]int64{}, bounds: map[string]int{}, notes: map[string]int{}})
			}
		}
	}
	if len(redo) > 0 {
		r.rawEntries = redo
		saved, e.entries = e.entries, redo
		e.raw = true
		dl := time.Now().Add(20 * time.Second)
		if thorough {
			dl = time.Now().Add(60 * time.Second)
		}
		e.deadline = dl
		p0, d0, s0 := e.paths, e.donePaths, e.steps
		e.explore(r.workers)
		r.rawPaths, r.rawHit = e.paths-p0, e.budgetHit
		e.paths, e.donePaths, e.steps = p0, d0, s0
		e.budgetHit = false
		e.entries = saved
		fmt.Printf("solver confirmation of simplified assertions: checks=%d paths=%d complete=%v queries now %d\n", len(redo), r.rawPaths, !r.rawHit, e.stats.Queries)
	}
	show := func(n string, m map[string]int) {
		c := sortedCounts(m)
		for i, s := range c {
			if i >= 8 {
				fmt.Printf("  %s: ... %d more\n", n, len(c)-i)
				break
			}
			fmt.Printf("  %s: %s\n", n, s)
		}
	}
	show("UNSUPPORTED", e.unsup)
	show("BOUND", e.boundsN)
	show("UNRESOLVED", e.unres)
	show("UNKNOWN", e.unknown)
	if e.verbose {
		for p, m := range e.initErr {
			fmt.Println("  init", p, m)
		}
	}
	return r.finish()
}

// repoDir is the code under test; only development runs set another one.
var repoDir = cmp.Or(os.Getenv("GOSYM_REPO"), "/repo")

// firstOnly ends development runs at the first violation.
var firstOnly = os.Getenv("GOSYM_FIRST") != ""
