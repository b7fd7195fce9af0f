// symgo: symbolic execution of Go programs (go/ssa) decided by an SMT solver.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type HarnessResult struct {
	Harness       string            `json:"harness"`
	Paths         int               `json:"paths"`
	Infeasible    int               `json:"infeasible"`
	Aborted       int               `json:"aborted"`
	Aborts        map[string]int    `json:"aborts,omitempty"`
	StepLimit     int               `json:"step_limit"`
	Unfinished    int               `json:"unfinished"`
	TimedOut      bool              `json:"timed_out"`
	Branches      int               `json:"branches"`
	Asserts       int               `json:"asserts"`
	Concretized   int               `json:"concretized"`
	UnknownBranch int               `json:"unknown_branch"`
	UnknownAssert int               `json:"unknown_assert"`
	Unconfirmed   int               `json:"unconfirmed"`
	Spurious      int               `json:"spurious"`
	Steps         int64             `json:"steps"`
	MaxDepth      int               `json:"max_depth"`
	Queries       int               `json:"queries"`
	Sat           int               `json:"sat"`
	Unsat         int               `json:"unsat"`
	Order         int               `json:"order"`
	Cached        int               `json:"cached"`
	Witness       int               `json:"witness"`
	Unknown       int               `json:"unknown"`
	PathChecks    int               `json:"path_checks"`
	Inconsistent  int               `json:"inconsistent"`
	SolverS       float64           `json:"solver_s"`
	WallS         float64           `json:"wall_s"`
	RaceQueries   int               `json:"race_queries,omitempty"`
	RaceEvents    int               `json:"race_events,omitempty"`
	Covers        map[string]int    `json:"covers"`
	Funcs         []string          `json:"functions"`
	SymFuncs      []string          `json:"symbolic_branch_functions"`
	Violations    []*Violation      `json:"violations"`
	Complete      bool              `json:"complete"`
	Validated     int               `json:"validated"`
	ValidMismatch []string          `json:"validation_mismatch,omitempty"`
	Opts          map[string]string `json:"opts,omitempty"`
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(3)
}

func main() {
	dir := flag.String("dir", ".", "harness module")
	pkgPath := flag.String("pkg", "vh/h", "harness package")
	hre := flag.String("run", "", "comma separated harness names (each may carry :opt=val options)")
	out := flag.String("out", "", "result file")
	tmo := flag.Int("timeout", 60, "seconds per harness")
	total := flag.Int("total", 0, "seconds for all harnesses")
	workers := flag.Int("j", runtime.NumCPU(), "workers")
	replay := flag.String("replay", "", "replay binary")
	replayRace := flag.String("replay-race", "", "race replay binary")
	solver := flag.String("solver", "cvc5 --incremental --produce-models", "solver command (option s=z3 selects z3-new)")
	stmo := flag.Int("stimeout", 5000, "solver timeout, ms")
	maxSteps := flag.Int64("steps", 60_000_000, "instructions per path")
	keep := flag.Bool("keep", false, "continue after a confirmed violation")
	outDir := flag.String("cex", "", "directory for counterexamples")
	list := flag.Bool("list", false, "list harnesses")
	noConfirm := flag.Bool("noconfirm", false, "report unconfirmed candidates as they are")
	validate := flag.Int("validate", 2, "number of explored paths whose inputs are replayed natively")
	flag.Parse()

	t0 := time.Now()
	prog := load(*dir, *pkgPath)
	hp := prog.pkgs[*pkgPath]
	if hp == nil {
		fatal("package %s not found", *pkgPath)
	}
	if *list {
		for _, n := range sortedKeys(hp.Members) {
			if f, ok := hp.Members[n].(*ssa.Function); ok && isHarness(f) {
				fmt.Println(n)
			}
		}
		return
	}
	loadS := time.Since(t0).Seconds()
	_ = loadS
	var results []*HarnessResult
	bad := false
	names := strings.Split(*hre, ",")
	deadline := time.Time{}
	if *total > 0 {
		deadline = t0.Add(time.Duration(*total) * time.Second)
	}
	for i, spec := range names {
		parts := strings.Split(spec, ":")
		name := parts[0]
		opts := map[string]string{}
		for _, o := range parts[1:] {
			kv := strings.SplitN(o, "=", 2)
			if len(kv) == 1 {
				kv = append(kv, "1")
			}
			opts[kv[0]] = kv[1]
		}
		fn := hp.Func(name)
		if fn == nil {
			fatal("harness %s not found", name)
		}
		prog.harness = fn
		cfg := &Config{Harness: name, MaxSteps: *maxSteps, TimeoutMs: *stmo, Solver: strings.Fields(*solver), Precise: opts["precise"] != "", Exps: opts["exp"] != ""}
		if opts["s"] == "z3" {
			cfg.Solver = []string{"z3-new", "-in"}
		}
		if v, ok := opts["st"]; ok {
			fmt.Sscan(v, &cfg.TimeoutMs)
		}
		secs := time.Duration(*tmo) * time.Second
		if v, ok := opts["t"]; ok {
			n := 0
			fmt.Sscan(v, &n)
			secs = time.Duration(n) * time.Second
		}
		dl := time.Now().Add(secs)
		if !deadline.IsZero() {
			// share what is left
			left := time.Until(deadline) / time.Duration(len(names)-i)
			if left < time.Second {
				left = time.Second
			}
			if left2 := time.Until(deadline) - time.Duration(len(names)-i-1)*2*time.Second; left2 > left {
				left = left2
			}
			if time.Now().Add(left).Before(dl) {
				dl = time.Now().Add(left)
			}
		}
		x := &Explorer{p: prog, cfg: cfg, workers: *workers, deadline: dl, keepGoin: *keep}
		if opts["j"] != "" {
			fmt.Sscan(opts["j"], &x.workers)
		}
		if opts["paths"] != "" {
			fmt.Sscan(opts["paths"], &x.maxPaths)
		}
		conf := &confirmer{bin: *replay, race: *replayRace, harness: name, dir: *outDir, off: *noConfirm}
		x.confirm = conf.confirm
		x.sampleMax = *validate
		ts := time.Now()
		x.Run()
		r := &HarnessResult{Harness: name, Paths: x.st.Paths, Infeasible: x.st.Infeasible, Aborted: x.st.Aborted, Aborts: x.st.Aborts,
			StepLimit: x.st.StepLimit, Unfinished: x.unfinished + x.cut, TimedOut: x.timedOut, Branches: x.st.Branches, Asserts: x.st.Asserts,
			Concretized: x.st.Concretized, UnknownBranch: x.st.UnknownBranch, UnknownAssert: x.st.UnknownAssert, Unconfirmed: x.st.Unconfirmed,
			Spurious: x.st.Spurious, Steps: x.st.Steps, MaxDepth: x.st.MaxDepth, Queries: x.sst.Queries, Sat: x.sst.Sat, Unsat: x.sst.Unsat, Order: x.sst.Order, Cached: x.sst.Cached, Witness: x.sst.Witness,
			Unknown: x.sst.Unknown, SolverS: x.sst.Time.Seconds(), RaceQueries: x.st.RaceQueries, RaceEvents: x.st.RaceEvents, PathChecks: x.st.PathChecks, Inconsistent: x.st.Inconsistent, Covers: x.st.Covers, Violations: x.viols, Opts: opts}
		r.Funcs = sortedKeys(x.st.Funcs)
		r.SymFuncs = sortedKeys(x.st.SymBranchFuncs)
		nconf := 0
		for _, v := range x.viols {
			if v.Status == "confirmed" {
				nconf++
			}
		}
		if *replay != "" && nconf == 0 {
			for _, s := range x.samples {
				ok, o := conf.runOne(s, false)
				if ok {
					r.ValidMismatch = append(r.ValidMismatch, o)
				} else {
					r.Validated++
				}
			}
		}
		r.WallS = time.Since(ts).Seconds()
		r.Complete = !x.timedOut && x.unfinished+x.cut == 0 && x.st.Aborted == 0 && x.st.StepLimit == 0 && x.st.UnknownAssert == 0 && x.st.UnknownBranch == 0 && x.st.Unconfirmed == 0 && nconf == 0
		results = append(results, r)
		fmt.Fprintf(os.Stderr, "%s: paths=%d infeasible=%d aborted=%d unfinished=%d asserts=%d queries=%d solver=%.1fs wall=%.1fs steps=%d complete=%v confirmed=%d unconfirmed=%d spurious=%d unknown=%d/%d validated=%d\n",
			name, r.Paths, r.Infeasible, r.Aborted+r.StepLimit, r.Unfinished, r.Asserts, r.Queries, r.SolverS, r.WallS, r.Steps, r.Complete, nconf, r.Unconfirmed, r.Spurious, r.UnknownBranch, r.UnknownAssert, r.Validated)
		for _, k := range sortedKeys(r.Aborts) {
			fmt.Fprintf(os.Stderr, "   abort %dx %s\n", r.Aborts[k], k)
		}
		for _, v := range x.viols {
			fmt.Fprintf(os.Stderr, "   %s %s: %s\n      at %s\n", v.Status, v.Kind, v.Msg, v.Where)
			if v.Status == "confirmed" {
				bad = true
				fmt.Fprintf(os.Stderr, "      replay: %s\n", firstLine(v.Output))
			}
		}
		if r.Inconsistent > 0 {
			fmt.Fprintf(os.Stderr, "   ENGINE ERROR: %d explored paths are infeasible\n", r.Inconsistent)
			r.Complete = false
		}
		for _, mm := range r.ValidMismatch {
			fmt.Fprintf(os.Stderr, "   VALIDATION MISMATCH: %s\n", firstLine(mm))
		}
		if bad && !*keep {
			break
		}
	}
	if *out != "" {
		b, _ := json.MarshalIndent(results, "", " ")
		os.WriteFile(*out, b, 0644)
	}
	if bad {
		os.Exit(1)
	}
}

func firstLine(s string) string {
	s = strings.TrimSpace(s)
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	return s
}

func isHarness(f *ssa.Function) bool {
	return regexp.MustCompile(`^[A-Z][0-9]{2,3}`).MatchString(f.Name()) && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 0
}

func load(dir, pkgPath string) *Prog {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: os.Environ()}
	initial, err := packages.Load(cfg, pkgPath)
	if err != nil {
		fatal("load: %v", err)
	}
	nerr := 0
	packages.Visit(initial, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if strings.HasPrefix(p.PkgPath, repoMod) || strings.HasPrefix(p.PkgPath, "vh") {
				fmt.Fprintln(os.Stderr, "load:", e)
				nerr++
			}
		}
	})
	if nerr > 0 {
		fatal("the tree does not type-check")
	}
	prog, _ := ssautil.AllPackages(initial, ssa.InstantiateGenerics)
	prog.Build()
	p := &Prog{ssa: prog, pkgs: map[string]*ssa.Package{}, tags: map[uint32][]*TypeTag{}, sizes: types.SizesFor("gc", "amd64"), stubPkgs: map[string]bool{}}
	for _, pk := range prog.AllPackages() {
		p.pkgs[pk.Pkg.Path()] = pk
	}
	for _, s := range []string{"fmt", "reflect", "net", "log", "os/exec", "os/signal", "testing", "flag"} {
		p.stubPkgs[s] = true
	}
	// package initialisers of the code under analysis run first, dependencies first
	done := map[*types.Package]bool{}
	var visit func(t *types.Package)
	visit = func(t *types.Package) {
		if done[t] {
			return
		}
		done[t] = true
		for _, d := range t.Imports() {
			visit(d)
		}
		if strings.HasPrefix(t.Path(), repoMod) || strings.HasPrefix(t.Path(), "vh") && t.Path() != symPkg {
			if sp := prog.Package(t); sp != nil {
				p.eager = append(p.eager, sp)
			}
		}
	}
	visit(p.pkgs[pkgPath].Pkg)
	p.setupIntrinsics()
	// whether a lock is held can be observed without taking it: releasing is then visible too
	packages.Visit(initial, nil, func(pk *packages.Package) {
		if pk.TypesInfo == nil || !strings.HasPrefix(pk.PkgPath, repoMod) && !strings.HasPrefix(pk.PkgPath, "vh/") {
			return
		}
		for _, o := range pk.TypesInfo.Uses {
			if f, ok := o.(*types.Func); ok && f.Pkg() != nil && f.Pkg().Path() == "sync" && strings.HasPrefix(f.Name(), "Try") {
				for _, n := range []string{"(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock"} {
					visFns[n] = true
				}
			}
		}
	})
	return p
}

// ---- native confirmation ----

type confirmer struct {
	bin, race, harness, dir string
	off                     bool
	mu                      sync.Mutex
	n                       int
}

func (c *confirmer) confirm(v *Violation) (bool, string) {
	if c.off {
		return true, "not replayed"
	}
	if c.bin == "" {
		return false, "no replay binary"
	}
	ok, out := c.runOne(v.Inputs, v.Kind == "race")
	if ok && c.dir != "" {
		c.mu.Lock()
		c.n++
		n := c.n
		c.mu.Unlock()
		os.MkdirAll(c.dir, 0755)
		f := filepath.Join(c.dir, fmt.Sprintf("%s-%d.json", c.harness, n))
		b, _ := json.MarshalIndent(map[string]any{"harness": c.harness, "inputs": v.Inputs, "kind": v.Kind, "msg": v.Msg, "where": v.Where, "output": tail(out, 3000)}, "", " ")
		os.WriteFile(f, b, 0644)
		v.Replay = f
	}
	return ok, out
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

var replaySem = make(chan struct{}, 6)

// runOne executes the harness natively; true if it fails.
func (c *confirmer) runOne(inputs map[string]uint64, race bool) (bool, string) {
	replaySem <- struct{}{}
	defer func() { <-replaySem }()
	bin := c.bin
	tries := 1
	if race {
		bin = c.race
		tries = 8
		if bin == "" {
			return false, "no race binary"
		}
	}
	sched := false
	for k := range inputs {
		if strings.HasPrefix(k, "sched:") || strings.HasPrefix(k, "maporder:") || strings.HasPrefix(k, "globalrand:") {
			sched = true
		}
	}
	if sched && tries == 1 {
		tries = 60
	}
	var sb strings.Builder
	keys := make([]string, 0, len(inputs))
	for k := range inputs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	b, _ := json.Marshal(inputs)
	var last string
	for t := 0; t < tries; t++ {
		ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
		cmd := exec.CommandContext(ctx, bin, c.harness)
		cmd.Stdin = bytes.NewReader(b)
		cmd.Env = append(os.Environ(), fmt.Sprintf("SYM_TRY=%d", t), "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=single")
		if !race {
			cmd.Env = append(cmd.Env, "SYM_MEM=6000000000")
		}
		var o bytes.Buffer
		cmd.Stdout = &o
		cmd.Stderr = &o
		err := cmd.Run()
		timedOut := ctx.Err() != nil
		cancel()
		last = o.String()
		if timedOut {
			return true, "HANG: the replay did not end within 30 s\n" + last
		}
		if err == nil {
			continue
		}
		if ee, ok := err.(*exec.ExitError); ok {
			if ee.ExitCode() == 77 { // assumption violated: not a valid replay
				sb.WriteString("assumption violated in the replay")
				return false, "replay: an assumption does not hold"
			}
			return true, last
		}
		return false, "replay: " + err.Error()
	}
	return false, last
}
