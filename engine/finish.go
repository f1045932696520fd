package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// ---------- known findings ----------

// loadKnown reads "known: property=<id> id=<fid> <what>" lines.
func loadKnown(file, prop string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(file)
	if err != nil {
		return m
	}
	re := regexp.MustCompile(`^known: property=(\S+) id=(\S+) (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if g := re.FindStringSubmatch(strings.TrimSpace(l)); g != nil && g[1] == prop {
			m[g[2]] = g[3]
		}
	}
	return m
}

// ---------- native replay ----------

type replayer struct {
	r       *runner
	dir     string
	bin     string
	raceBin string
	err     error
	mu      sync.Mutex
}

func (p *replayer) mainSrc() string {
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\t\"os\"\n\t\"fmt\"\n\t\"verif/nd\"\n")
	for i, k := range p.r.pkgs {
		fmt.Fprintf(&sb, "\th%d %q\n", i, k)
	}
	sb.WriteString(")\n\nvar checks = map[string]func(){\n")
	for _, en := range p.r.e.entries {
		for i, k := range p.r.pkgs {
			if en.fn.Pkg.Pkg.Path() == k {
				fmt.Fprintf(&sb, "\t%q: h%d.%s,\n", en.name, i, en.name)
			}
		}
	}
	sb.WriteString("}\n\nfunc main() {\n\tif err := nd.Load(os.Args[2]); err != nil {\n\t\tfmt.Println(\"ND-ERROR\", err)\n\t\tos.Exit(9)\n\t}\n\tf := checks[os.Args[1]]\n\tf()\n\tfmt.Println(\"ND-DONE\")\n}\n")
	return sb.String()
}

func (p *replayer) build(race bool, over map[string]string) (string, error) {
	if over == nil {
		if race && p.raceBin != "" {
			return p.raceBin, nil
		}
		if !race && p.bin != "" {
			return p.bin, nil
		}
	}
	if p.dir == "" {
		d, err := os.MkdirTemp("", "gosym-replay")
		if err != nil {
			return "", err
		}
		p.dir = d
	}
	src := filepath.Join(p.dir, "main.go")
	if err := os.WriteFile(src, []byte(p.mainSrc()), 0o644); err != nil {
		return "", err
	}
	m := map[string]string{filepath.Join(p.r.hdir, "zreplay", "main.go"): src}
	for k, v := range over {
		m[k] = v
	}
	ov, _ := json.Marshal(map[string]any{"Replace": m})
	ovf := filepath.Join(p.dir, "overlay.json")
	os.WriteFile(ovf, ov, 0o644)
	name := "replay"
	if race {
		name += "race"
	}
	if over != nil {
		name += "gate"
	}
	out := filepath.Join(p.dir, name)
	args := []string{"build", "-overlay", ovf, "-o", out}
	if race {
		args = append(args, "-race")
	}
	args = append(args, "verif/zreplay")
	cmd := exec.Command("go", args...)
	cmd.Dir = p.r.hdir
	b, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("%v: %s", err, b)
	}
	if over == nil {
		if race {
			p.raceBin = out
		} else {
			p.bin = out
		}
	}
	return out, nil
}

func (p *replayer) cleanup() {
	if p.dir != "" {
		os.RemoveAll(p.dir)
	}
}

type runOut struct {
	out     string
	code    int
	timeout bool
}

func (p *replayer) exec(bin, check, file string, to time.Duration, env ...string) runOut {
	ctx, cancel := context.WithTimeout(context.Background(), to)
	defer cancel()
	work, _ := os.MkdirTemp(p.dir, "w")
	defer os.RemoveAll(work)
	cmd := exec.CommandContext(ctx, bin, check, file)
	cmd.Dir = work
	cmd.Env = append(os.Environ(), "GOTRACEBACK=all", "TMPDIR="+work)
	cmd.Env = append(cmd.Env, env...)
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	cmd.WaitDelay = time.Second
	err := cmd.Run()
	o := runOut{out: b.String()}
	if ctx.Err() != nil {
		o.timeout = true
	}
	if cmd.ProcessState != nil {
		o.code = cmd.ProcessState.ExitCode()
	} else if err != nil {
		o.code = -1
	}
	return o
}

func confirms(v *Violation, o runOut) bool {
	has := func(s string) bool { return strings.Contains(o.out, s) }
	if has("ND-VIOLATION") {
		return true
	}
	if has("ND-ASSUME-FALSE") || has("ND-ERROR") {
		return false
	}
	switch v.Kind {
	case "deadlock":
		return o.timeout || has("all goroutines are asleep")
	case "race":
		return has("DATA RACE")
	}
	return o.code == 2 && (has("panic:") || has("fatal error:")) || has("SIGSEGV") || has("SIGBUS") || has("DATA RACE") && v.Kind == "mapfault"
}

func summary(o runOut) string {
	if o.timeout {
		return "timeout (hang)"
	}
	for _, l := range strings.Split(o.out, "\n") {
		if strings.HasPrefix(l, "ND-VIOLATION") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || strings.Contains(l, "DATA RACE") {
			return l
		}
	}
	return fmt.Sprintf("exit %d", o.code)
}

func writeJSON(path string, v any) {
	os.MkdirAll(filepath.Dir(path), 0o755)
	b, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(path, append(b, '\n'), 0o644)
}

func (r *runner) evDir() string {
	if r.evid != "" {
		return filepath.Dir(r.evid)
	}
	return "/verif/evidence"
}

func (r *runner) finish() int {
	e := r.e
	rp := &replayer{r: r}
	defer rp.cleanup()
	sort.SliceStable(e.viols, func(i, j int) bool { return e.viols[i].key() < e.viols[j].key() })
	var confirmed, modelled, rejected []*Violation
	rdir := filepath.Join(r.evDir(), "replays", r.prop)
	os.RemoveAll(rdir)
	entryOf := map[string]*entry{}
	for _, en := range e.entries {
		entryOf[en.name] = en
	}
	for i, v := range e.viols {
		v.Property = r.prop
		file := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", v.Check, i))
		v.File = file
		writeJSON(file, v)
		if e.verbose {
			fmt.Printf("candidate: %s [%s] %s%s\n   inputs: %+v\n", v.Check, v.Kind, v.Msg, v.Where, v.Inputs)
			for _, s := range v.Sched {
				fmt.Printf("   sched: %+v\n", s)
			}
		}
		if !r.noreplay && len(confirmed) < 4 {
			ok := r.replay(rp, v, file)
			if ok {
				confirmed = append(confirmed, v)
				writeJSON(file, v)
				continue
			}
		}
		en := entryOf[v.Check]
		switch {
		case r.noreplay || len(confirmed) >= 4:
			v.Replay = "not replayed"
			modelled = append(modelled, v)
		case v.Multi || en.modelOnly != "" || len(v.Sched) > 0:
			v.Replay = "engine trace (" + v.Replay + ")"
			modelled = append(modelled, v)
		default:
			v.Replay = "NOT REPRODUCED natively (" + v.Replay + ")"
			rejected = append(rejected, v)
		}
		writeJSON(file, v)
	}
	// differential validation of passing paths
	validated, mismatches := 0, []string{}
	skipped := 0
	if !r.noreplay && len(e.viols) == 0 {
		validated, skipped, mismatches = r.validate(rp)
	}
	code := 0
	for _, v := range append(append([]*Violation(nil), confirmed...), modelled...) {
		fmt.Printf("violated: %s [%s] %s%s\n    replay: %s\n", v.Check, v.Kind, v.Msg, v.Where, v.Replay)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.prop, v.File)
		code = 1
	}
	for _, v := range rejected {
		fmt.Printf("unconfirmed candidate (not reported): %s [%s] %s%s: %s\n", v.Check, v.Kind, v.Msg, v.Where, v.Replay)
	}
	var kn []string
	for id := range e.knowns {
		kn = append(kn, id)
	}
	sort.Strings(kn)
	for _, id := range kn {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", r.prop, id, e.knownIDs[id])
	}
	for _, m := range mismatches {
		fmt.Println("ENCODING MISMATCH:", m)
	}
	if r.prop != "" {
		r.evidence(confirmed, modelled, rejected, validated, skipped, mismatches, kn)
	}
	return code
}

// replay runs the counterexample against the real code.
func (r *runner) replay(rp *replayer, v *Violation, file string) bool {
	bin, err := rp.build(v.Kind == "race", nil)
	if err != nil {
		v.Replay = "replay build failed: " + err.Error()
		return false
	}
	to := 15 * time.Second
	if v.Multi {
		if ok := r.gateReplay(rp, v, file); ok {
			return true
		}
		to = 6 * time.Second
	}
	n := 1
	if v.Multi {
		n = 12
	}
	var last runOut
	for i := 0; i < n; i++ {
		o := rp.exec(bin, v.Check, file, to, "ND_REPLAY=1")
		last = o
		if confirms(v, o) {
			v.Replay = "reproduced natively: " + summary(o)
			return true
		}
		if o.timeout {
			break
		}
	}
	v.Replay = "native run: " + summary(last)
	return false
}

// validate runs sampled passing paths natively and compares the observations.
func (r *runner) validate(rp *replayer) (int, int, []string) {
	var todo []*Sample
	skipped := 0
	for _, en := range r.e.entries {
		for _, s := range en.samples {
			if s.UF || s.Multi || en.modelOnly != "" {
				skipped++
				continue
			}
			todo = append(todo, s)
		}
	}
	if len(todo) == 0 {
		return 0, skipped, nil
	}
	bin, err := rp.build(false, nil)
	if err != nil {
		return 0, skipped, []string{"replay build failed: " + err.Error()}
	}
	var mu sync.Mutex
	var mism []string
	ok := 0
	sem := make(chan bool, 8)
	var wg sync.WaitGroup
	for i, s := range todo {
		wg.Add(1)
		sem <- true
		go func(i int, s *Sample) {
			defer func() { <-sem; wg.Done() }()
			f := filepath.Join(rp.dir, fmt.Sprintf("s%d.json", i))
			writeJSON(f, s)
			o := rp.exec(bin, s.Check, f, 20*time.Second)
			bad := ""
			if !strings.Contains(o.out, "ND-DONE") {
				bad = "native: " + summary(o) + " " + firstLine(o.out)
			} else {
				var got []string
				for _, l := range strings.Split(o.out, "\n") {
					if strings.HasPrefix(l, "ND-OBS ") {
						got = append(got, l)
					}
				}
				var want []string
				for _, b := range s.Obs {
					var p []string
					for _, x := range b.Vals {
						p = append(p, strconv.FormatUint(x, 10))
					}
					want = append(want, strings.TrimSpace("ND-OBS "+b.Label+" = "+strings.Join(p, " ")))
				}
				for k := range got {
					got[k] = strings.TrimSpace(got[k])
				}
				if strings.Join(got, "\n") != strings.Join(want, "\n") {
					bad = fmt.Sprintf("observations differ: native %q, encoding %q", got, want)
				}
			}
			mu.Lock()
			defer mu.Unlock()
			if bad == "" {
				ok++
			} else {
				mism = append(mism, fmt.Sprintf("%s inputs=%s: %s", s.Check, short(fmt.Sprint(s.Inputs), 300), short(bad, 600)))
			}
		}(i, s)
	}
	wg.Wait()
	sort.Strings(mism)
	return ok, skipped, mism
}

func short(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.TrimSpace(l) != "" && !strings.HasPrefix(l, "ND-OBS") {
			return l
		}
	}
	return ""
}

func (r *runner) evidence(confirmed, modelled, rejected []*Violation, validated, skipped int, mism []string, known []string) {
	e := r.e
	type chk struct {
		Name      string           `json:"check"`
		Paths     int64            `json:"paths"`
		Complete  int64            `json:"complete_paths"`
		Asserts   int64            `json:"assertions"`
		Solved    int64            `json:"assertions_decided_by_solver_query"`
		Folded    int64            `json:"assertions_folded_by_simplifier"`
		Reach     map[string]int64 `json:"reached,omitempty"`
		Bounds    map[string]int   `json:"bounds,omitempty"`
		ModelOnly string           `json:"modelled_effects,omitempty"`
	}
	var cs []chk
	var samples []any
	var asserts, solved, folded int64
	raw := map[string]int64{}
	for _, en := range r.rawEntries {
		raw[en.name] = en.solved
	}
	for _, en := range e.entries {
		c := chk{en.name, en.paths, en.done, en.asserts, en.solved + raw[en.name], en.folded, en.reach, en.bounds, en.modelOnly}
		cs = append(cs, c)
		asserts += en.asserts
		solved += c.Solved
		folded += en.folded
		for i, s := range en.samples {
			if i < 2 && len(samples) < 24 {
				samples = append(samples, s)
			}
		}
	}
	for _, v := range confirmed {
		samples = append(samples, v)
	}
	for _, v := range modelled {
		samples = append(samples, v)
	}
	if len(samples) == 0 {
		samples = append(samples, "no path completed")
	}
	var fns []string
	for f := range e.fnsSeen {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	exhaustive := !e.budgetHit && len(e.unsup) == 0 && len(e.unres) == 0 && len(e.boundsN) == 0 && len(e.unknown) == 0
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	nz := func(m map[string]int) []string {
		s := sortedCounts(m)
		if s == nil {
			s = []string{}
		}
		if len(s) > 30 {
			s = s[:30]
		}
		return s
	}
	var rej []string
	for _, v := range rejected {
		rej = append(rej, v.Check+": "+v.Msg+" "+v.Replay)
	}
	vis := []string{}
	for i := range e.visIns {
		p := e.prog.Fset.Position(instrPos(i))
		vis = append(vis, fmt.Sprintf("%s:%d", shortFile(p.Filename), p.Line))
	}
	sort.Strings(vis)
	ev := map[string]any{
		"property": r.prop,
		"tier":     r.tier,
		"seed":     seed,
		"level":    "model_checking",
		"coverage": map[string]any{
			"states":                               e.paths,
			"transitions":                          e.steps,
			"traces_validated_against_impl":        validated,
			"samples":                              samples,
			"explanation":                          "states = symbolic execution paths of the harness over the real code's SSA (each path covers every input satisfying its path condition and one schedule); transitions = SSA instructions executed symbolically; traces_validated_against_impl = sampled paths whose solver-chosen inputs were run through the compiled code with equal observations",
			"complete_paths":                       e.donePaths,
			"infeasible_or_assumed_away":           e.infeasible,
			"context_switches":                     e.switches,
			"checks":                               cs,
			"functions_encoded":                    fns,
			"assertions":                           asserts,
			"assertions_decided_by_solver_query":   solved,
			"assertions_folded_by_simplifier":      folded,
			"solver_queries":                       e.stats.Queries,
			"solver_sat":                           e.stats.SatN,
			"solver_unsat":                         e.stats.UnsatN,
			"solver_unknown":                       e.stats.UnknownN,
			"solver_portfolio_calls":               e.stats.Portfolio,
			"solver_seconds":                       e.stats.Time.Seconds(),
			"solver":                               "z3-new incremental; z3/cvc5/z3-new portfolio on timeout",
			"simplified_checks_rerun_unsimplified": len(r.rawEntries),
			"simplified_rerun_paths":               r.rawPaths,
			"simplified_rerun_complete":            !r.rawHit,
			"exploration_rounds":                   r.rounds,
			"racy_accesses_made_visible":           vis,
			"exhaustive":                           exhaustive,
			"budget_exhausted":                     e.budgetHit,
			"unsupported_paths":                    nz(e.unsup),
			"bound_reached":                        nz(e.boundsN),
			"undecided":                            nz(e.unres),
			"solver_unknowns":                      nz(e.unknown),
			"encoding_mismatches":                  append([]string{}, mism...),
			"samples_not_replayable":               skipped,
			"unconfirmed_candidates":               append([]string{}, rej...),
			"known_findings_seen":                  append([]string{}, known...),
			"preemption_bound_default":             e.preemptBound,
		},
		"assumptions": []string{
			"bounds are the loop sizes, lengths, step and preemption counts written in harness/" + strings.ToLower(r.prop) + " and listed under coverage.checks",
			"sequentially consistent interleavings of visible operations; data races found are made visible and re-explored",
			"standard library synchronisation, time, randomness and I/O are replaced by the models in engine/intrinsics.go and harness/model",
		},
		"wall_s":     time.Since(r.t0).Seconds(),
		"violations": len(confirmed) + len(modelled),
	}
	out := r.evid
	if out == "" {
		out = filepath.Join("/verif/evidence", r.prop+".json")
	}
	writeJSON(out, ev)
}

func (r *runner) gateReplay(rp *replayer, v *Violation, file string) bool { return false }
