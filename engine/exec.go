package main

// Path-wise symbolic execution state: decisions, path condition, exploration.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Prog struct {
	ssa      *ssa.Program
	pkgs     map[string]*ssa.Package
	sizes    types.Sizes
	layouts  sync.Map
	infos    sync.Map // *ssa.Function -> *FnInfo
	infoMu   sync.Mutex
	tagMu    sync.Mutex
	tags     map[uint32][]*TypeTag
	tagBy    sync.Map // types.Type -> *TypeTag
	intr     map[string]Intrinsic
	ntags    int
	closures sync.Map
	impls    sync.Map
	methMu   sync.Mutex
	stubPkgs map[string]bool
	eager    []*ssa.Package
	harness  *ssa.Function
}

type randState struct {
	seed string
	n    int
}

type Dec struct {
	v  uint64
	eq bool // concretisation: the value was taken (eq) or excluded
	cz bool
}

type Work struct {
	prefix []Dec
	model  []uint64
}

type Violation struct {
	Kind   string            `json:"kind"`
	Msg    string            `json:"msg"`
	Where  string            `json:"where"`
	Inputs map[string]uint64 `json:"inputs"`
	FP     bool              `json:"fp_abstract"`
	Status string            `json:"status"` // confirmed / unconfirmed / spurious
	Output string            `json:"output,omitempty"`
	Replay string            `json:"replay,omitempty"`
}

type pathEnd struct {
	kind string
	msg  string
}

type goPanic struct {
	v       Val // interface value
	runtime string
}

type Config struct {
	Harness   string
	Precise   bool
	Exps      bool
	MaxSteps  int64
	Explore   bool
	Races     bool
	TimeoutMs int
	Solver    []string
}

type Stats struct {
	Paths, Infeasible, Aborted, StepLimit int
	Branches, Asserts, Concretized        int
	UnknownBranch, UnknownAssert          int
	Steps                                 int64
	Aborts                                map[string]int
	Covers                                map[string]int
	Funcs                                 map[string]int64
	SymBranchFuncs                        map[string]bool
	Unconfirmed                           int
	Spurious                              int
	MaxDepth                              int
	RaceQueries, RaceEvents               int
	PathChecks, Inconsistent              int
}

func newStats() *Stats {
	return &Stats{Aborts: map[string]int{}, Covers: map[string]int{}, Funcs: map[string]int64{}, SymBranchFuncs: map[string]bool{}}
}

// Exec is the state of one path.
type Exec struct {
	p      *Prog
	x      *Explorer
	cfg    *Config
	tb     *TB
	solver *Solver
	st     *Stats

	pc         []*Term
	pcset      map[*Term]bool
	model      []uint64
	haveMod    bool
	nrange     int  // iterations over maps whose order has been chosen
	globalRand *Val // the shared generator of math/rand
	prefix     []Dec
	pos        int
	taken      []Dec

	objs       []*Obj
	globals    map[*ssa.Global]*Obj
	inited     map[*ssa.Package]bool
	initing    int
	gs         []*G
	cur        *G
	steps      int64
	inputs     map[string]int // name -> occurrences
	invars     []*Term
	nmaps      int
	locks      map[lockKey]*lockState
	explore    int // remaining preemptions; -1: no exploration
	nsched     int
	fs         *FS
	race       *raceState
	mcache     map[mkey]*ssa.Function
	tags       map[string]bool
	nested     bool
	nestedDone bool
	sync       bool // pushCall comes from callSync
	nestedRes  Val
	next       *G
	memLimit   int64
	numCPU     int64
	clock      int64
	rands      map[*Obj]*randState
	randVals   map[string]*Term
	workMod    []uint64
	ord        *orderTheory
}

type mkey struct {
	tag  *TypeTag
	name *types.Func
}

var noWitness = os.Getenv("SYM_NOWITNESS") != ""

var noSlice = os.Getenv("SYM_NOSLICE") != ""

var noOrder, ordCheck = os.Getenv("SYM_NOORDER") != "", os.Getenv("SYM_ORDCHECK") != ""

func (e *Exec) abort(kind, msg string) { panic(pathEnd{kind, msg}) }

func (e *Exec) replaying() bool { return e.pos < len(e.prefix) }

func (e *Exec) addPC(t *Term) {
	if t.isConst() {
		if t.val == 0 {
			e.abort("infeasible", "")
		}
		return
	}
	if e.pcset[t] {
		return
	}
	if t.op == OpAnd {
		e.addPC(t.a)
		e.addPC(t.b)
		e.pcset[t] = true
		return
	}
	e.pc = append(e.pc, t)
	e.pcset[t] = true
	if t.op == OpEq && t.b.isConst() {
		// nothing more
	}
}

func (e *Exec) evalModel(t *Term) uint64 {
	return e.tb.Eval(t, e.model)
}

func (e *Exec) setModel(m []uint64) bool {
	if m == nil {
		e.haveMod = false
		return false
	}
	e.model = m
	e.tb.NewModel()
	e.haveMod = true
	for _, t := range e.pc {
		if e.tb.Eval(t, m) == 0 {
			e.haveMod = false
			return false
		}
	}
	return true
}

// decide consumes a recorded decision; ok is false when none is left.
func (e *Exec) nextDec() (Dec, bool) {
	if e.pos < len(e.prefix) {
		d := e.prefix[e.pos]
		e.pos++
		e.taken = append(e.taken, d)
		return d, true
	}
	return Dec{}, false
}

func (e *Exec) afterReplay() {
	if e.pos == len(e.prefix) && !e.haveMod && e.workMod != nil {
		// activate the model that came with the work item (values in input order)
		m := make([]uint64, len(e.tb.vars))
		for i, v := range e.invars {
			if i < len(e.workMod) {
				m[v.val] = e.workMod[i]
			}
		}
		e.workMod = nil
		e.setModel(m)
	}
}

func (e *Exec) checkSat(extra ...*Term) (SatResult, []uint64) {
	if !noOrder {
		if e.ord == nil {
			e.ord = newOrder(e.tb, e.pcset)
		}
		e.ord.sync(e.pc)
		for _, t := range extra {
			if e.ord.refutes(t, 0) {
				e.solver.stats.Order++
				if ordCheck {
					if r, _ := e.solver.Check(e.pc, extra, e.invars); r == Sat {
						panic("order theory is wrong: " + t.String())
					}
				}
				return Unsat, nil
			}
		}
	}
	if e.haveMod && !noSlice {
		return e.sliced(extra)
	}
	return e.solver.Check(e.pc, extra, e.invars)
}

func (e *Exec) pushWork(d Dec, m []uint64) {
	np := make([]Dec, len(e.taken)+1)
	copy(np, e.taken)
	np[len(e.taken)] = d
	var wm []uint64
	if m != nil {
		wm = make([]uint64, len(e.invars))
		for i, v := range e.invars {
			if int(v.val) < len(m) {
				wm[i] = m[v.val]
			}
		}
	}
	e.x.push(Work{np, wm})
}

// branch forks on a symbolic condition.
func (e *Exec) branch(c *Term) bool {
	if c.isConst() {
		return c.val != 0
	}
	if e.pcset[c] {
		return true
	}
	nc := e.tb.Not(c)
	if e.pcset[nc] {
		return false
	}
	if d, ok := e.nextDec(); ok {
		if d.cz {
			e.abort("unsupported", "replay diverged at "+e.where())
		}
		if d.v == 1 {
			e.addPC(c)
		} else {
			e.addPC(nc)
		}
		e.afterReplay()
		return d.v == 1
	}
	e.st.Branches++
	if e.cur != nil && len(e.cur.frames) > 0 {
		e.st.SymBranchFuncs[e.cur.frames[len(e.cur.frames)-1].fi.name] = true
	}
	note := func(side bool) {
		e.taken = append(e.taken, Dec{v: b2u(side)})
		e.prefix = e.taken
		e.pos = len(e.taken)
	}
	if e.haveMod {
		side := e.evalModel(c) != 0
		other, mine := nc, c
		if !side {
			other, mine = c, nc
		}
		r, m := e.checkSat(other)
		if r == Sat || r == Unknown {
			if r == Unknown {
				e.st.UnknownBranch++
			}
			e.pushWork(Dec{v: b2u(!side)}, m)
		}
		note(side)
		e.addPC(mine)
		return side
	}
	r1, m1 := e.checkSat(c)
	r2, m2 := e.checkSat(nc)
	if r1 == Unknown {
		e.st.UnknownBranch++
	}
	if r2 == Unknown {
		e.st.UnknownBranch++
	}
	switch {
	case r1 == Unsat && r2 == Unsat:
		e.abort("infeasible", "")
	case r1 == Unsat:
		note(false)
		e.addPC(nc)
		if m2 != nil {
			e.setModel(m2)
		}
		return false
	case r2 == Unsat:
		note(true)
		e.addPC(c)
		if m1 != nil {
			e.setModel(m1)
		}
		return true
	}
	e.pushWork(Dec{v: 0}, m2)
	note(true)
	e.addPC(c)
	if m1 != nil {
		e.setModel(m1)
	}
	return true
}

// pickFresh introduces a variable and forks over all its values 0..max; no solver is
// needed since nothing constrains it yet.
func (e *Exec) pickFresh(name string, w uint8, max uint64) uint64 {
	v := e.newVar(name, w)
	if d, ok := e.nextDec(); ok {
		if !d.cz {
			e.abort("unsupported", "replay diverged at "+e.where())
		}
		e.addPC(e.tb.Eq(v, e.tb.Const(w, d.v)))
		e.afterReplay()
		return d.v
	}
	if max > 5000 {
		e.abort("unsupported", "too many values to pick from")
	}
	if e.haveMod {
		for len(e.model) <= int(v.val) {
			e.model = append(e.model, 0)
		}
	}
	for x := max; x >= 1; x-- {
		var m []uint64
		if e.haveMod {
			m = append([]uint64{}, e.model...)
			m[v.val] = x
		}
		e.pushWork(Dec{v: x, eq: true, cz: true}, m)
	}
	e.taken = append(e.taken, Dec{v: 0, eq: true, cz: true})
	e.prefix = e.taken
	e.pos = len(e.taken)
	if e.haveMod {
		m := append([]uint64{}, e.model...)
		m[v.val] = 0
		e.model = m
		e.tb.NewModel()
	}
	e.addPC(e.tb.Eq(v, e.tb.Const(w, 0)))
	return 0
}

var dbgConc = os.Getenv("SYM_CONC") != ""

// concretize forks over all feasible values of t.
func (e *Exec) concretize(t *Term) uint64 {
	if t.isConst() {
		return t.val
	}
	for n := 0; ; n++ {
		if n > 5000 {
			e.abort("unsupported", "too many values to concretise at "+e.where())
		}
		if d, ok := e.nextDec(); ok {
			if !d.cz {
				e.abort("unsupported", "replay diverged at "+e.where())
			}
			c := e.tb.Eq(t, e.tb.Const(t.w, d.v))
			if d.eq {
				e.addPC(c)
				e.afterReplay()
				return d.v
			}
			e.addPC(e.tb.Not(c))
			e.afterReplay()
			continue
		}
		var v uint64
		if e.haveMod {
			v = e.evalModel(t)
		} else {
			r, m, val := e.solver.CheckVal(e.pc, t, e.invars)
			if r == Unsat {
				e.abort("infeasible", "")
			}
			if r == Unknown {
				e.st.UnknownBranch++
				e.abort("unsupported", "solver gave no value to concretise")
			}
			v = val
			if e.setModel(m) {
				v = e.evalModel(t)
			}
		}
		c := e.tb.Eq(t, e.tb.Const(t.w, v))
		known := c.isConst() || e.pcset[c]
		var r SatResult
		var m []uint64
		if !known {
			r, m = e.checkSat(e.tb.Not(c))
		}
		if known || r == Unsat {
			// only one value is possible on this path
			e.taken = append(e.taken, Dec{v: v, eq: true, cz: true})
			e.prefix = e.taken
			e.pos = len(e.taken)
			e.addPC(c)
			return v
		}
		e.st.Concretized++
		if dbgConc {
			fmt.Fprintln(os.Stderr, "CONC", v, e.haveMod, e.where(), t, e.pc)
		}
		if r == Unknown {
			e.st.UnknownBranch++
		}
		e.pushWork(Dec{v: v, cz: true}, m)
		e.taken = append(e.taken, Dec{v: v, eq: true, cz: true})
		e.prefix = e.taken
		e.pos = len(e.taken)
		e.addPC(c)
		return v
	}
}

func (e *Exec) concInt(v Val) int64 {
	if v.t != nil {
		if v.t.w == 0 {
			return int64(e.concretize(v.t))
		}
		return sext(e.concretize(v.t), v.t.w)
	}
	if o, ok := v.o.(*Obj); ok {
		return int64(e.base(o) + v.c)
	}
	return int64(v.c)
}

// assume restricts the path.
func (e *Exec) assume(c *Term) {
	if c.isConst() {
		if c.val == 0 {
			e.abort("infeasible", "")
		}
		return
	}
	if e.replaying() {
		e.addPC(c)
		return
	}
	if e.haveMod && e.evalModel(c) != 0 {
		e.addPC(c)
		return
	}
	r, m := e.checkSat(c)
	if r == Unsat {
		e.abort("infeasible", "")
	}
	e.addPC(c)
	if r == Sat {
		e.setModel(m)
	} else {
		e.st.UnknownBranch++
		e.haveMod = false
	}
}

// check asserts c: a satisfying assignment of its negation is a violation.
func (e *Exec) check(c *Term, kind, msg string) {
	if c.isConst() {
		if c.val == 0 {
			if e.replaying() {
				e.abort("infeasible", "")
			}
			e.st.Asserts++
			e.violate(kind, msg)
		}
		if !e.replaying() {
			e.st.Asserts++
		}
		return
	}
	if e.pcset[c] {
		return
	}
	if e.replaying() {
		e.addPC(c)
		return
	}
	e.st.Asserts++
	nc := e.tb.Not(c)
	if e.haveMod && e.evalModel(c) == 0 {
		e.report(kind, msg, e.model, nc)
		// continue with the condition assumed, if possible
		r, m := e.checkSat(c)
		if r == Unsat {
			e.abort("violated", msg)
		}
		e.addPC(c)
		if r == Sat {
			e.setModel(m)
		} else {
			e.haveMod = false
		}
		return
	}
	r, m := e.checkSat(nc)
	switch r {
	case Sat:
		e.report(kind, msg, m, nc)
		if !e.haveMod {
			r2, m2 := e.checkSat(c)
			if r2 == Unsat {
				e.abort("violated", msg)
			}
			e.addPC(c)
			if r2 == Sat {
				e.setModel(m2)
			}
			return
		}
		e.addPC(c)
	case Unsat:
		e.addPC(c)
	case Unknown:
		e.st.UnknownAssert++
		e.addPC(c)
	}
}

// violate reports an unconditional violation on this path and ends it.
func (e *Exec) violate(kind, msg string) {
	if e.replaying() {
		// cannot happen on a deterministic replay, except after a reported violation
		e.abort("violated", msg)
	}
	var m []uint64
	if e.haveMod {
		m = e.model
	} else {
		r, mm := e.checkSat()
		if r == Unsat {
			e.abort("infeasible", "")
		}
		m = mm
	}
	e.report(kind, msg, m, nil)
	e.abort("violated", msg)
}

func (e *Exec) where() string {
	var sb []string
	if e.cur != nil {
		for i := len(e.cur.frames) - 1; i >= 0 && len(sb) < 6; i-- {
			f := e.cur.frames[i]
			pos := e.p.ssa.Fset.Position(f.curPos())
			s := f.fi.name
			if pos.IsValid() {
				s += fmt.Sprintf(" (%s:%d)", shortFile(pos.Filename), pos.Line)
			}
			sb = append(sb, s)
		}
	}
	return strings.Join(sb, " < ")
}

func shortFile(f string) string {
	p := strings.Split(f, "/")
	if len(p) > 3 {
		p = p[len(p)-3:]
	}
	return strings.Join(p, "/")
}

func (e *Exec) inputsOf(m []uint64) map[string]uint64 {
	r := map[string]uint64{}
	for _, v := range e.invars {
		var x uint64
		if int(v.val) < len(m) {
			x = m[v.val]
		}
		r[v.name] = x & mask(v.w)
	}
	return r
}

func (e *Exec) report(kind, msg string, m []uint64, nc *Term) {
	e.reportV(&Violation{Kind: kind, Msg: msg, Where: e.where(), Inputs: e.inputsOf(m)}, nc)
}

func (e *Exec) reportV(v *Violation, nc *Term) {
	fp := nc != nil && nc.fp
	for _, t := range e.pc {
		if t.fp {
			fp = true
		}
	}
	v.FP = fp && !e.solver.precise
	e.x.candidate(e, v, nc)
}

// ---- explorer ----

type Explorer struct {
	p          *Prog
	cfg        *Config
	mu         sync.Mutex
	cond       *sync.Cond
	queue      []Work
	active     int
	stop       bool
	deadline   time.Time
	viols      []*Violation
	seen       map[string]int
	st         *Stats
	sst        SolverStats
	timedOut   bool
	maxPaths   int
	paths      int
	confirm    func(v *Violation) (bool, string)
	confirmd   int
	workers    int
	keepGoin   bool
	started    time.Time
	precSt     SolverStats
	unfinished int
	cut        int
	samples    []map[string]uint64
	sampleMax  int
	sampleTick int
}

func (x *Explorer) expired() bool {
	if time.Now().After(x.deadline) {
		return true
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.stop
}

func (x *Explorer) push(w Work) {
	x.mu.Lock()
	x.queue = append(x.queue, w)
	x.cond.Signal()
	x.mu.Unlock()
}

func (x *Explorer) pop() (Work, bool) {
	x.mu.Lock()
	defer x.mu.Unlock()
	for {
		if x.stop || time.Now().After(x.deadline) || (x.maxPaths > 0 && x.paths >= x.maxPaths) {
			if !x.stop && (len(x.queue) > 0 || x.active > 0) {
				x.timedOut = true
			}
			x.cond.Broadcast()
			return Work{}, false
		}
		if n := len(x.queue); n > 0 {
			w := x.queue[n-1]
			x.queue = x.queue[:n-1]
			x.active++
			x.paths++
			return w, true
		}
		if x.active == 0 {
			x.cond.Broadcast()
			return Work{}, false
		}
		x.cond.Wait()
	}
}

func (x *Explorer) doneOne() {
	x.mu.Lock()
	x.active--
	if x.active == 0 {
		x.cond.Broadcast()
	}
	x.mu.Unlock()
}

// candidate handles a solver counterexample: replay it on the real build.
func (x *Explorer) candidate(e *Exec, v *Violation, nc *Term) {
	key := v.Kind + "|" + v.Msg + "|" + v.Where
	x.mu.Lock()
	if x.stop {
		x.mu.Unlock()
		return
	}
	n := x.seen[key]
	x.seen[key] = n + 1
	x.mu.Unlock()
	if n >= 40 {
		e.st.Unconfirmed++
		return
	}
	ok, out := x.confirm(v)
	v.Output = out
	if !ok && v.FP {
		// the counterexample used uninterpreted floating point: look for one under IEEE semantics
		extra := []*Term{}
		if nc != nil {
			extra = append(extra, nc)
		}
		ps := NewSolver(e.tb, true, false, 20000, x.cfg.Solver, &x.precSt)
		for try := 0; try < 6 && !ok; try++ {
			ex := append([]*Term{}, extra...)
			if try > 0 {
				ex = append(ex, e.diversify(try)...)
			}
			r, m := ps.Check(e.pc, ex, e.invars)
			if r == Unsat && try == 0 {
				v.Status = "spurious"
				e.st.Spurious++
				ps.Close()
				return
			}
			if r == Sat {
				v.Inputs = e.inputsOf(m)
				ok, out = x.confirm(v)
				v.Output = out
			}
			if r == Unknown {
				break
			}
		}
		ps.Close()
		for try := 1; try < 8 && !ok; try++ {
			r, m := e.solver.Check(e.pc, append(append([]*Term{}, extra...), e.diversify(try)...), e.invars)
			if r == Sat {
				v.Inputs = e.inputsOf(m)
				ok, out = x.confirm(v)
				v.Output = out
			}
		}
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	if ok {
		v.Status = "confirmed"
		x.confirmd++
		x.viols = append([]*Violation{v}, x.viols...)
		if !x.keepGoin {
			x.stop = true
			x.cond.Broadcast()
		}
	} else {
		v.Status = "unconfirmed"
		e.st.Unconfirmed++
		if len(x.viols) < 50 {
			x.viols = append(x.viols, v)
		}
	}
}

// diversify returns constraints that push the solver to other models.
func (e *Exec) diversify(try int) []*Term {
	var r []*Term
	h := uint64(try)*0x9e3779b97f4a7c15 + 12345
	for _, v := range e.invars {
		if v.w < 8 {
			continue
		}
		h = h*6364136223846793005 + 1442695040888963407
		if h>>60 < 8 {
			continue
		}
		c := e.tb.Eq(e.tb.Bin(OpBAnd, v, e.tb.Const(v.w, 3)), e.tb.Const(v.w, (h>>33)&3))
		ok, _ := e.solver.Check(e.pc, append(append([]*Term{}, r...), c), nil)
		if ok == Sat {
			r = append(r, c)
		}
		if len(r) > 12 {
			break
		}
	}
	return r
}

func (x *Explorer) Run() {
	x.cond = sync.NewCond(&x.mu)
	x.seen = map[string]int{}
	x.st = newStats()
	x.started = time.Now()
	x.queue = []Work{{nil, []uint64{}}}
	var wg sync.WaitGroup
	var smu sync.Mutex
	for i := 0; i < x.workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			st := newStats()
			var sst SolverStats
			tb := NewTB()
			var sol *Solver
			for {
				w, ok := x.pop()
				if !ok {
					break
				}
				if sol == nil {
					sol = NewSolver(tb, x.cfg.Precise, x.cfg.Exps, x.cfg.TimeoutMs, x.cfg.Solver, &sst)
				}
				x.runPath(w, tb, sol, st)
				x.doneOne()
				if len(tb.tab) > 3_000_000 {
					sol.Close()
					tb = NewTB()
					sol = nil
				}
			}
			if sol != nil {
				sol.Close()
			}
			smu.Lock()
			x.st.merge(st)
			x.sst.Queries += sst.Queries
			x.sst.Sat += sst.Sat
			x.sst.Unsat += sst.Unsat
			x.sst.Order += sst.Order
			x.sst.Cached += sst.Cached
			x.sst.Witness += sst.Witness
			x.sst.Unknown += sst.Unknown
			x.sst.Time += sst.Time
			x.sst.Restarts += sst.Restarts
			smu.Unlock()
		}()
	}
	// wake waiting workers at the deadline
	done := make(chan struct{})
	go func() {
		for {
			select {
			case <-done:
				return
			case <-time.After(300 * time.Millisecond):
				x.mu.Lock()
				x.cond.Broadcast()
				x.mu.Unlock()
			}
		}
	}()
	wg.Wait()
	close(done)
	x.unfinished = len(x.queue)
}

func (s *Stats) merge(o *Stats) {
	s.Paths += o.Paths
	s.Infeasible += o.Infeasible
	s.Aborted += o.Aborted
	s.StepLimit += o.StepLimit
	s.Branches += o.Branches
	s.Asserts += o.Asserts
	s.Concretized += o.Concretized
	s.UnknownBranch += o.UnknownBranch
	s.UnknownAssert += o.UnknownAssert
	s.Steps += o.Steps
	s.Unconfirmed += o.Unconfirmed
	s.Spurious += o.Spurious
	s.RaceQueries += o.RaceQueries
	s.RaceEvents += o.RaceEvents
	s.PathChecks += o.PathChecks
	s.Inconsistent += o.Inconsistent
	if o.MaxDepth > s.MaxDepth {
		s.MaxDepth = o.MaxDepth
	}
	for k, v := range o.Aborts {
		s.Aborts[k] += v
	}
	for k, v := range o.Covers {
		s.Covers[k] += v
	}
	for k, v := range o.Funcs {
		s.Funcs[k] += v
	}
	for k := range o.SymBranchFuncs {
		s.SymBranchFuncs[k] = true
	}
}

func (x *Explorer) newExec(w Work, tb *TB, sol *Solver, st *Stats) *Exec {
	e := &Exec{p: x.p, x: x, cfg: x.cfg, tb: tb, solver: sol, st: st,
		pcset: map[*Term]bool{}, prefix: w.prefix, workMod: w.model,
		globals: map[*ssa.Global]*Obj{}, inited: map[*ssa.Package]bool{}, inputs: map[string]int{},
		locks: map[lockKey]*lockState{}, explore: -1, mcache: map[mkey]*ssa.Function{}, rands: map[*Obj]*randState{}, randVals: map[string]*Term{}, memLimit: 1 << 26, numCPU: 2}
	e.fs = newFS()
	tb.NewModel()
	if len(w.prefix) == 0 {
		e.haveMod = true
		e.model = []uint64{}
	}
	return e
}

func (x *Explorer) runPath(w Work, tb *TB, sol *Solver, st *Stats) {
	e := x.newExec(w, tb, sol, st)
	end := e.runMain()
	st.Steps += e.steps
	if len(e.taken) > st.MaxDepth {
		st.MaxDepth = len(e.taken)
	}
	switch end.kind {
	case "ok", "violated":
		st.Paths++
		if end.kind == "ok" {
			if st.PathChecks < 200 && len(e.pc) > 0 && e.haveMod {
				// the solver confirms that the path is feasible
				st.PathChecks++
				if r, _ := e.solver.Check(nil, e.pc, nil); r == Unsat {
					st.Inconsistent++
				}
			}
			x.sample(e)
		}
	case "infeasible":
		st.Infeasible++
	case "steps":
		st.StepLimit++
		x.mu.Lock()
		n := x.seen["hang"]
		x.seen["hang"] = n + 1
		x.mu.Unlock()
		if n < 3 && e.haveMod {
			// confirmed only if the real code does not end either
			v := &Violation{Kind: "hang", Msg: "the execution does not end", Where: end.msg, Inputs: e.inputsOf(e.model)}
			if ok, out := x.confirm(v); ok {
				v.Output, v.Status = out, "confirmed"
				x.mu.Lock()
				x.confirmd++
				x.viols = append([]*Violation{v}, x.viols...)
				x.stop = true
				x.cond.Broadcast()
				x.mu.Unlock()
			}
		}
	case "stop":
		x.mu.Lock()
		x.cut++
		x.mu.Unlock()
	default:
		st.Aborted++
		st.Aborts[end.kind+": "+end.msg]++
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// sample keeps the inputs of a few completed paths, spread over the exploration,
// for native validation of the encoding.
func (x *Explorer) sample(e *Exec) {
	if !e.haveMod || x.sampleMax == 0 {
		return
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	x.sampleTick++
	t := x.sampleTick
	if len(x.samples) < x.sampleMax {
		x.samples = append(x.samples, e.inputsOf(e.model))
	} else if t&(t-1) == 0 {
		x.samples[t%x.sampleMax] = e.inputsOf(e.model)
	}
}
