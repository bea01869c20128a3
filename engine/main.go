package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var (
	flagSolver   = flag.String("solver", "z3-new", "incremental solver")
	flagFallback = flag.Int("fallback", 20, "seconds per fallback solver run")
	flagTimeout  = flag.Int("timeout", 4000, "milliseconds per incremental query")
	flagSeed     = flag.Int64("seed", 1, "seed for sampling")
	flagSteps    = flag.Int("steps", 80000000, "instruction bound per path")
	flagSamples  = flag.Int("samples", 24, "completed paths per harness replayed natively")
	flagProp     = flag.String("prop", "", "property id")
	flagTier     = flag.String("tier", "quick", "quick or thorough")
	flagBudget   = flag.Int("budget", 0, "seconds for all harnesses of the property")
	flagOnly     = flag.String("only", "", "run only harnesses whose name contains this")
	flagVerif    = flag.String("verif", "/verif", "framework directory")
	flagWorkers  = flag.Int("workers", 0, "worker count")
	flagV        = flag.Bool("v", false, "verbose")
	flagKeepGo   = flag.Bool("keepgoing", false, "do not stop at the first violation")
)

const targetPath = "github.com/codeallergy/value"

func goEnv() []string {
	return append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=1")
}

func load() (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: *flagVerif + "/harness", BuildFlags: []string{"-tags=math_big_pure_go,purego"}, Env: goEnv()}
	ps, err := packages.Load(cfg, "./props")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, pk := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	pr := &Program{ssa: prog, harness: pk[0], sizes: types.SizesFor("gc", "amd64"), known: map[string]bool{}, used: map[string]int{}}
	pr.target = prog.ImportedPackage(targetPath)
	if pr.target == nil {
		return nil, fmt.Errorf("package %s not imported by the harness", targetPath)
	}
	return pr, nil
}

// --- native replay

type replayer struct {
	bin, raceBin string
	dir          string
	buildErr     error
	done         chan struct{}
}

func (r *replayer) build() {
	defer close(r.done)
	cmd := exec.Command("go", "build", "-o", r.bin, "./cmd/replay")
	cmd.Dir = *flagVerif + "/harness"
	cmd.Env = goEnv()
	if out, err := cmd.CombinedOutput(); err != nil {
		r.buildErr = fmt.Errorf("replay build: %v\n%s", err, out)
	}
}

func (r *replayer) buildRace() error {
	if r.raceBin != "" {
		return nil
	}
	bin := filepath.Join(r.dir, "replay.race")
	cmd := exec.Command("go", "build", "-race", "-o", bin, "./cmd/replay")
	cmd.Dir = *flagVerif + "/harness"
	cmd.Env = goEnv()
	if out, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("%v\n%s", err, out)
	}
	r.raceBin = bin
	return nil
}

type replayFile struct {
	Harness string      `json:"harness"`
	Tier    int         `json:"tier"`
	Msg     string      `json:"message,omitempty"`
	Where   string      `json:"where,omitempty"`
	Race    bool        `json:"race,omitempty"`
	Values  []ReplayVal `json:"values"`
}

// run replays one file; repeat covers map iteration order.
func (r *replayer) run(path string, race bool, repeat int) (exit int, out string) {
	exit, out = r.run1(path, race, repeat)
	for i := 0; race && i < 12 && exit == 0; i++ { // not every schedule shows it
		exit, out = r.run1(path, race, repeat)
	}
	return
}

func (r *replayer) run1(path string, race bool, repeat int) (exit int, out string) {
	bin := r.bin
	if race {
		if err := r.buildRace(); err != nil {
			return -1, err.Error()
		}
		bin = r.raceBin
	}
	mem := "12000000"
	if race {
		mem = "unlimited"
	}
	cmd := exec.Command("bash", "-c", fmt.Sprintf("ulimit -v %s; exec timeout -s KILL 60 %s -file %s -repeat %d", mem, bin, path, repeat))
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=single", "GOMEMLIMIT=8GiB")
	b, err := cmd.CombinedOutput()
	out = string(b)
	if len(out) > 4000 {
		out = out[:4000]
	}
	if err == nil {
		return 0, out
	}
	if ee, ok := err.(*exec.ExitError); ok {
		return ee.ExitCode(), out
	}
	return -1, err.Error()
}

type harnessReport struct {
	Name           string           `json:"harness"`
	Paths          int64            `json:"paths"`
	Completed      int64            `json:"completed"`
	Pruned         int64            `json:"pruned_by_assumption"`
	Steps          int64            `json:"instructions"`
	LongestPath    int              `json:"longest_path"`
	AssertConst    int64            `json:"assertions_decided_by_simplification"`
	AssertSolver   int64            `json:"assertions_discharged_by_solver"`
	Asserts        map[string]int64 `json:"assertions"`
	Covers         map[string]int64 `json:"covers,omitempty"`
	Unknown        map[string]int   `json:"undecided,omitempty"`
	Unsupported    map[string]int   `json:"not_encoded,omitempty"`
	Notes          map[string]int   `json:"notes,omitempty"`
	Known          map[string]int64 `json:"known_findings_hit,omitempty"`
	Unexplored     int64            `json:"paths_left_unexplored"`
	NativeReplays  int              `json:"native_replays"`
	NativeMismatch []string         `json:"native_mismatches,omitempty"`
	Unconfirmed    []*Violation     `json:"candidates_not_reproduced,omitempty"`
	Violations     []*Violation     `json:"violations,omitempty"`
	WallS          float64          `json:"wall_s"`
	Status         string           `json:"status"`
}

func main() {
	flag.Parse()
	debug.SetGCPercent(400)
	debug.SetMaxStack(8 << 30)
	debug.SetMemoryLimit(8 << 30)
	start := time.Now()
	tier := 0
	budget := 240
	if *flagTier == "thorough" {
		tier = 1
		budget = 780
	}
	if *flagBudget > 0 {
		budget = *flagBudget
	}
	if tier == 1 {
		*flagSamples *= 2
	}
	deadline := start.Add(time.Duration(budget) * time.Second)

	tmp, err := os.MkdirTemp("", "verif-"+*flagProp+"-")
	if err != nil {
		fmt.Println("ERROR:", err)
		os.Exit(2)
	}
	exitCode := 0
	defer func() {
		os.RemoveAll(tmp)
		os.Exit(exitCode)
	}()
	rp := &replayer{bin: filepath.Join(tmp, "replay"), dir: tmp, done: make(chan struct{})}
	go rp.build()
	prog, err := load()
	if err != nil {
		fmt.Println("ERROR:", err)
		exitCode = 2
		return
	}
	prog.tier = tier
	known := readKnown(*flagVerif+"/known_findings.txt", *flagProp)
	for _, k := range known {
		prog.known[k.id] = true
	}
	<-rp.done
	if rp.buildErr != nil {
		fmt.Println("ERROR:", rp.buildErr)
		exitCode = 2
		return
	}
	var fns []*ssa.Function
	for name, m := range prog.harness.Members {
		if fn, ok := m.(*ssa.Function); ok && strings.HasPrefix(name, *flagProp+"_") && strings.Contains(name, *flagOnly) {
			fns = append(fns, fn)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Pos() < fns[j].Pos() })
	if len(fns) == 0 {
		fmt.Println("ERROR: no harness for", *flagProp)
		exitCode = 2
		return
	}
	nw := *flagWorkers
	if nw == 0 {
		nw = runtime.NumCPU()
	}
	workers := make([]*worker, nw)
	for i := range workers {
		workers[i] = &worker{id: i, ip: NewInterp(prog)}
	}
	if *flagV {
		fmt.Printf("loaded in %.1fs, %d harnesses\n", time.Since(start).Seconds(), len(fns))
	}
	replayDir := filepath.Join(*flagVerif, "evidence", "replays")
	os.MkdirAll(replayDir, 0o755)

	var reports []*harnessReport
	violated := false
	decided := 0
	var samples []interface{}
	for i, fn := range fns {
		left := time.Until(deadline)
		// leave later harnesses a fair share, but let a slow one use what
		// the quick ones do not need
		share := left / time.Duration(len(fns)-i)
		b := share * 2
		if i == len(fns)-1 || b > left {
			b = left
		}
		if b < 2*time.Second {
			b = 2 * time.Second
		}
		t0 := time.Now()
		ex := NewExplorer(prog, fn, nw, workers, tier)
		nrep := 0
		ex.onViolation = func(v *Violation) bool {
			nrep++
			path := filepath.Join(replayDir, fmt.Sprintf("%s-%d.json", fn.Name(), nrep))
			race := strings.HasPrefix(v.Msg, "write to memory that existed")
			rf := replayFile{Harness: v.Harness, Tier: tier, Msg: v.Msg, Where: v.Where, Race: race, Values: v.Values}
			js, _ := json.MarshalIndent(rf, "", " ")
			os.WriteFile(path, js, 0o644)
			repeat := 60
			if v.Msg == noTermination {
				repeat = 1
			}
			code, out := rp.run(path, race, repeat)
			v.Output = strings.TrimSpace(out)
			v.Path = path
			if *flagV {
				fmt.Printf("  candidate %s: %s (in %s) -> native exit %d\n", fn.Name(), v.Msg, v.Where, code)
				for _, x := range v.Values {
					fmt.Printf("     %s = %s\n", x.Name, x.Val)
				}
			}
			switch {
			case code == 0, code == 4, code == 5, code == -1:
				return false
			}
			return v.Msg != noTermination || code == 137
		}
		ex.Run(b)
		r := &harnessReport{Name: fn.Name(), Paths: ex.paths, Completed: ex.completed, Pruned: ex.pruned, Steps: ex.steps, LongestPath: ex.maxStepSeen, AssertConst: ex.assertsTrivial, AssertSolver: ex.assertsSolved,
			Asserts: ex.assertMsgs, Covers: ex.covers, Unknown: ex.unknowns, Unsupported: ex.unsupported, Notes: ex.notes, Known: ex.knownSeen, Unexplored: ex.unexplored, Unconfirmed: ex.unconfirmed, Violations: ex.violations}
		// native validation of completed paths
		if len(ex.samples) > 0 && len(ex.violations) == 0 {
			bad, n, viol := validate(rp, fn.Name(), tier, ex.samples, tmp, replayDir)
			r.NativeReplays, r.NativeMismatch = n, bad
			if viol != nil {
				r.Violations = append(r.Violations, viol)
			}
		}
		for k, s := range ex.samples {
			if k < 2 {
				samples = append(samples, map[string]interface{}{"harness": fn.Name(), "values": s.Values, "observed": s.Obs})
			}
		}
		r.WallS = time.Since(t0).Seconds()
		r.Status = "held on every path within the bounds"
		if ex.unexplored > 0 || len(ex.unknowns) > 0 || len(ex.unsupported) > 0 || len(ex.unconfirmed) > 0 {
			r.Status = "held on what was explored (REDUCED-BOUND: see undecided, not_encoded, paths_left_unexplored)"
		}
		if len(r.NativeMismatch) > 0 {
			r.Status += "; ENCODING MISMATCH against native runs"
		}
		if ex.completed > 0 && (ex.assertsSolved+ex.assertsTrivial) > 0 {
			decided++
		} else {
			r.Status = "decided nothing"
		}
		reports = append(reports, r)
		for _, v := range r.Violations {
			violated = true
			r.Status = "VIOLATED: " + v.Msg
			fmt.Printf("VIOLATION property=%s replay=%s\n", *flagProp, v.Path)
			fmt.Printf("  %s: %s\n", v.Harness, v.Msg)
		}
		if *flagV || len(r.NativeMismatch) > 0 || strings.HasPrefix(r.Status, "decided") {
			fmt.Printf("%-44s %6.1fs paths=%d done=%d pruned=%d steps=%d asserts=%d/%d left=%d replays=%d: %s\n", r.Name, r.WallS, r.Paths, r.Completed, r.Pruned, r.Steps, r.AssertSolver, r.AssertConst, r.Unexplored, r.NativeReplays, r.Status)
			for k, n := range r.Unknown {
				fmt.Printf("    undecided x%d: %s\n", n, k)
			}
			for k, n := range r.Unsupported {
				fmt.Printf("    not encoded x%d: %s\n", n, k)
			}
			for k, n := range r.Notes {
				if *flagV {
					fmt.Printf("    note x%d: %s\n", n, k)
				}
			}
			for _, m := range r.NativeMismatch {
				fmt.Printf("    mismatch: %s\n", m)
			}
			for _, v := range r.Unconfirmed {
				fmt.Printf("    candidate not reproduced natively: %s (in %s) %s\n", v.Msg, v.Where, v.Path)
			}
		}
		if violated && !*flagKeepGo {
			break
		}
	}
	for _, w := range workers {
		w.ip.solver.Close()
	}
	for _, k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", *flagProp, k.text)
	}
	writeEvidence(prog, reports, known, samples, tier, time.Since(start), violated)
	var paths, q int64
	for _, r := range reports {
		paths += r.Paths
	}
	q = atomic.LoadInt64(&gStats.queries)
	fmt.Printf("%s %s: %d harnesses, %d paths, %d solver queries (%.1fs solver), %.1fs\n", *flagProp, *flagTier, len(reports), paths, q, float64(gStats.timeNS)/1e9, time.Since(start).Seconds())
	switch {
	case violated:
		exitCode = 1
	case decided == 0:
		fmt.Println("ERROR: no harness decided anything")
		exitCode = 2
	}
}

type knownFinding struct{ id, text string }

// readKnown parses lines "finding: property=<id> id=<key> <text>".
func readKnown(path, prop string) []knownFinding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		rest, ok := strings.CutPrefix(l, "finding: property="+prop+" id=")
		if !ok {
			continue
		}
		id, text, _ := strings.Cut(rest, " ")
		out = append(out, knownFinding{id, text})
	}
	return out
}

func validate(rp *replayer, harness string, tier int, samples []sampleTrace, tmp, replayDir string) (bad []string, n int, viol *Violation) {
	type batchItem struct {
		Values []ReplayVal `json:"values"`
	}
	type batch struct {
		Harness string      `json:"harness"`
		Tier    int         `json:"tier"`
		Items   []batchItem `json:"items"`
	}
	bt := batch{Harness: harness, Tier: tier}
	for _, s := range samples {
		bt.Items = append(bt.Items, batchItem{s.Values})
	}
	path := filepath.Join(tmp, "batch.json")
	js, _ := json.Marshal(bt)
	os.WriteFile(path, js, 0o644)
	cmd := exec.Command("bash", "-c", fmt.Sprintf("ulimit -v 12000000; exec timeout -s KILL 120 %s -batch %s", rp.bin, path))
	cmd.Env = append(os.Environ(), "GOMEMLIMIT=8GiB", "GOTRACEBACK=single")
	out, err := cmd.Output()
	type result struct {
		Status string      `json:"status"`
		Msg    string      `json:"msg"`
		Obs    []ReplayVal `json:"obs"`
	}
	lines := strings.Split(strings.TrimSpace(string(out)), "\n")
	for i, s := range samples {
		if i >= len(lines) || lines[i] == "" {
			bad = append(bad, fmt.Sprintf("native run ended early at sample %d: %v", i, err))
			break
		}
		var r result
		if e := json.Unmarshal([]byte(lines[i]), &r); e != nil {
			bad = append(bad, "unreadable native result: "+lines[i])
			break
		}
		n++
		if r.Status == "fail" || r.Status == "panic" {
			// a real failing run, whatever the encoding said
			v := &Violation{Harness: harness, Msg: "native replay of an explored path: " + r.Msg, Values: s.Values, Confirmed: true}
			v.Path = filepath.Join(replayDir, harness+"-native.json")
			rf := replayFile{Harness: harness, Tier: tier, Msg: r.Msg, Values: s.Values}
			js, _ := json.MarshalIndent(rf, "", " ")
			os.WriteFile(v.Path, js, 0o644)
			viol = v
			bad = append(bad, "encoding passed what fails natively: "+r.Msg)
			return
		}
		if r.Status != "ok" {
			bad = append(bad, fmt.Sprintf("sample %d: native status %s %s", i, r.Status, r.Msg))
			continue
		}
		a, _ := json.Marshal(r.Obs)
		b, _ := json.Marshal(s.Obs)
		if len(r.Obs) == 0 && len(s.Obs) == 0 {
			continue
		}
		if string(a) != string(b) {
			vs, _ := json.Marshal(s.Values)
			bad = append(bad, fmt.Sprintf("observed natively %s, encoded %s, for %s", a, b, vs))
		}
	}
	if len(bad) > 6 {
		bad = bad[:6]
	}
	return
}

func writeEvidence(prog *Program, reports []*harnessReport, known []knownFinding, samples []interface{}, tier int, wall time.Duration, violated bool) {
	var targetFns, otherFns []string
	for f := range prog.used {
		if strings.Contains(f, targetPath) {
			targetFns = append(targetFns, strings.ReplaceAll(f, targetPath, "value"))
		} else {
			otherFns = append(otherFns, f)
		}
	}
	sort.Strings(targetFns)
	sort.Strings(otherFns)
	var paths, steps, as, at, rep int64
	nv := 0
	reduced := []string{}
	for _, r := range reports {
		paths += r.Paths
		steps += r.Steps
		as += r.AssertSolver
		at += r.AssertConst
		rep += int64(r.NativeReplays)
		nv += len(r.Violations)
		if strings.Contains(r.Status, "REDUCED") || strings.Contains(r.Status, "nothing") {
			reduced = append(reduced, r.Name)
		}
	}
	if len(samples) > 12 {
		samples = samples[:12]
	}
	if samples == nil {
		samples = []interface{}{}
	}
	kf := []string{}
	for _, k := range known {
		kf = append(kf, k.text)
	}
	ev := map[string]interface{}{
		"property": *flagProp, "tier": *flagTier, "seed": *flagSeed, "level": "model_checking", "wall_s": wall.Seconds(), "violations": nv,
		"coverage": map[string]interface{}{
			"states": paths, "transitions": steps, "traces_validated_against_impl": rep, "samples": samples,
			"explanation":                          "states are symbolic execution paths of the harnesses over the SSA of the current /repo tree (each stands for every input satisfying its path condition); transitions are SSA instructions executed symbolically",
			"assertions_discharged_by_solver":      as,
			"assertions_decided_by_simplification": at,
			"solver":                               map[string]interface{}{"name": *flagSolver, "queries": gStats.queries, "sat": gStats.sat, "unsat": gStats.unsat, "unknown": gStats.unknown, "fallback_races": gStats.fallback, "time_s": float64(gStats.timeNS) / 1e9},
			"functions_encoded":                    targetFns,
			"library_functions_encoded":            len(otherFns),
			"harnesses":                            reports,
			"reduced_bound_harnesses":              reduced,
			"instruction_bound_per_path":           *flagSteps,
			"known_findings":                       kf,
		},
		"assumptions": []string{"int is 64 bits, amd64 float conversion", "stubs: sync, sync/atomic, reflect, fmt text of symbolic operands, nacl/box (ideal), crypto/rand (harness reader)", "bounds are those written in the harness functions in /verif/harness/props"},
	}
	js, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*flagVerif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(*flagVerif, "evidence", *flagProp+".json"), js, 0o644); err != nil {
		fmt.Println("ERROR: evidence:", err)
	}
}
