package main

// Models of the environment: the sym package, math, sync, os, syscall, fmt, time, ...

import (
	"fmt"
	"go/types"
	"math"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Intrinsic func(e *Exec, g *G, f *Frame, c *callCtx) (Val, status)

const symPkg = "vh/sym"
const repoMod = "github.com/mariotoffia/goannoy"

var visFns = map[string]bool{
	"(*sync.Mutex).Lock": true, "(*sync.RWMutex).Lock": true, "(*sync.RWMutex).RLock": true,
	"(*sync.WaitGroup).Wait": true, "runtime.Gosched": true, "(*sync.WaitGroup).Done": true,
}

func ret(v Val) (Val, status) { return v, stNext }

func cbool(b bool) Val { return Val{c: b2u(b)} }

func pure(fn func(e *Exec, a []Val) Val) Intrinsic {
	return func(e *Exec, g *G, f *Frame, c *callCtx) (Val, status) { return fn(e, c.args), stNext }
}

func (p *Prog) setupIntrinsics() {
	m := map[string]Intrinsic{}
	p.intr = m
	p.symIntrinsics(m)
	p.mathIntrinsics(m)
	p.syncIntrinsics(m)
	p.syncMore(m)
	p.osIntrinsics(m)
	p.miscIntrinsics(m)
}

// ---- sym ----

func (p *Prog) symIntrinsics(m map[string]Intrinsic) {
	S := func(n string, i Intrinsic) { m[symPkg+"."+n] = i }
	nv := func(w uint8) Intrinsic {
		return pure(func(e *Exec, a []Val) Val { return Val{t: e.newVar(str(a[0]), w)} })
	}
	S("U8", nv(8))
	S("U32", nv(32))
	S("U64", nv(64))
	S("F32", nv(32))
	S("F64", nv(64))
	S("Bool", pure(func(e *Exec, a []Val) Val {
		v := e.newVar(str(a[0]), 8)
		e.assume(e.tb.Bin(OpULe, v, e.tb.Const(8, 1)))
		return e.fromTerm(e.tb.Eq(v, e.tb.Const(8, 1)))
	}))
	rng := func(e *Exec, a []Val) *Term {
		lo, hi := int64(a[1].c), int64(a[2].c)
		v := e.newVar(str(a[0]), 64)
		tb := e.tb
		// the variable is the offset from lo
		e.assume(tb.Bin(OpULe, v, tb.Const(64, uint64(hi-lo))))
		return tb.Bin(OpAdd, v, tb.Const(64, uint64(lo)))
	}
	S("Int", pure(func(e *Exec, a []Val) Val { return e.fromTerm(rng(e, a)) }))
	S("Pick", pure(func(e *Exec, a []Val) Val {
		lo, hi := int64(a[1].c), int64(a[2].c)
		if hi < lo {
			e.abort("infeasible", "")
		}
		return Val{c: e.pickFresh(str(a[0]), 64, uint64(hi-lo)) + uint64(lo)}
	}))
	S("Conc", pure(func(e *Exec, a []Val) Val {
		if a[0].t == nil {
			return a[0]
		}
		return Val{c: e.concretize(a[0].t)}
	}))
	S("Assume", pure(func(e *Exec, a []Val) Val { e.assume(e.boolTerm(a[0])); return Val{} }))
	S("Assert", pure(func(e *Exec, a []Val) Val {
		e.check(e.boolTerm(a[0]), "assert", str(a[1]))
		return Val{}
	}))
	S("Cover", pure(func(e *Exec, a []Val) Val { e.st.Covers[str(a[0])]++; return Val{} }))
	S("And", pure(func(e *Exec, a []Val) Val { return e.fromTerm(e.tb.And(e.boolTerm(a[0]), e.boolTerm(a[1]))) }))
	S("Or", pure(func(e *Exec, a []Val) Val { return e.fromTerm(e.tb.Or(e.boolTerm(a[0]), e.boolTerm(a[1]))) }))
	S("Not", pure(func(e *Exec, a []Val) Val { return e.fromTerm(e.tb.Not(e.boolTerm(a[0]))) }))
	S("Implies", pure(func(e *Exec, a []Val) Val {
		return e.fromTerm(e.tb.Or(e.tb.Not(e.boolTerm(a[0])), e.boolTerm(a[1])))
	}))
	ite := func(w uint8) Intrinsic {
		return pure(func(e *Exec, a []Val) Val {
			return e.fromTerm(e.tb.Ite(e.boolTerm(a[0]), e.term(a[1], w), e.term(a[2], w)))
		})
	}
	S("IteInt", ite(64))
	S("IteU32", ite(32))
	S("IteF32", ite(32))
	S("IteF64", ite(64))
	S("IsFinite32", pure(func(e *Exec, a []Val) Val { return e.fromTerm(e.tb.IsFinite(e.term(a[0], 32))) }))
	S("IsFinite64", pure(func(e *Exec, a []Val) Val { return e.fromTerm(e.tb.IsFinite(e.term(a[0], 64))) }))
	S("IsNaN32", pure(func(e *Exec, a []Val) Val { return e.fromTerm(e.tb.IsNaN(e.term(a[0], 32))) }))
	S("IsNaN64", pure(func(e *Exec, a []Val) Val { return e.fromTerm(e.tb.IsNaN(e.term(a[0], 64))) }))
	S("Symbolic", pure(func(e *Exec, a []Val) Val { return cbool(true) }))
	S("Yield", pure(func(e *Exec, a []Val) Val { return Val{} }))
	S("Explore", pure(func(e *Exec, a []Val) Val { e.explore = int(int64(a[0].c)); return Val{} }))
	S("TrackRaces", pure(func(e *Exec, a []Val) Val { e.race = newRace(e); return Val{} }))
	S("MaxProcs", pure(func(e *Exec, a []Val) Val { e.numCPU = int64(a[0].c); return Val{} }))
	S("MemLimit", pure(func(e *Exec, a []Val) Val { e.memLimit = int64(a[0].c); return Val{} }))
	S("TempDir", pure(func(e *Exec, a []Val) Val { return mkStr("/scratch") }))
	S("FileLimit", pure(func(e *Exec, a []Val) Val {
		if int64(a[0].c) < 0 && a[0].t == nil {
			e.fs.limit = -1
		} else {
			e.fs.limit = e.concInt(a[0])
		}
		return Val{}
	}))
	S("GuardAlloc", pure(func(e *Exec, a []Val) Val {
		n := e.concInt(a[0])
		o := e.newObj(n, "build memory")
		return Val{o: o}
	}))
	S("GuardFree", pure(func(e *Exec, a []Val) Val {
		if o, ok := a[0].o.(*Obj); ok {
			o.freed = "the build allocator released it"
		}
		return Val{}
	}))
	S("GuardReadOnly", pure(func(e *Exec, a []Val) Val {
		if o, ok := a[0].o.(*Obj); ok {
			o.readon = a[1].c != 0
		}
		return Val{}
	}))
	S("FileSize", pure(func(e *Exec, a []Val) Val {
		ino := e.fs.files[str(a[0])]
		if ino == nil {
			return Val{c: ^uint64(0)}
		}
		return Val{c: uint64(ino.size)}
	}))
	S("OpenHandles", pure(func(e *Exec, a []Val) Val {
		n := 0
		for _, h := range e.fs.handles {
			if !h.closed {
				n++
			}
		}
		return Val{c: uint64(n)}
	}))
	S("OpenMappings", pure(func(e *Exec, a []Val) Val { return Val{c: uint64(e.fs.maps)} }))
	S("Catch", func(e *Exec, g *G, f *Frame, c *callCtx) (Val, status) {
		// Catch(fn) reports whether fn panicked; executed as real code through Catch0
		e.abort("unsupported", "sym.Catch")
		return Val{}, stNext
	})
	delete(m, symPkg+".Catch")
}

// ---- math ----

func (p *Prog) mathIntrinsics(m map[string]Intrinsic) {
	un := func(op Op, w uint8, cf func(float64) float64) Intrinsic {
		return pure(func(e *Exec, a []Val) Val {
			if a[0].t == nil {
				return Val{c: u64f(cf(f64(a[0].c)))}
			}
			return e.fromTerm(e.tb.Un(op, w, a[0].t))
		})
	}
	for _, n := range []string{"math.Sqrt", "math.sqrt"} {
		m[n] = un(OpFSqrt, 64, math.Sqrt)
	}
	for _, n := range []string{"math.Floor", "math.floor"} {
		m[n] = un(OpFFloor, 64, math.Floor)
	}
	m["math.Ceil"] = un(OpFCeil, 64, math.Ceil)
	m["math.Trunc"] = un(OpFTrunc, 64, math.Trunc)
	m["math.Abs"] = pure(func(e *Exec, a []Val) Val {
		if a[0].t == nil {
			return Val{c: a[0].c &^ (1 << 63)}
		}
		return e.fromTerm(e.tb.FAbs(a[0].t))
	})
	mm := func(max bool) Intrinsic {
		l := &Layout{kind: lkInt, float: true, w: 64}
		return pure(func(e *Exec, a []Val) Val { return e.minmax(a[0], a[1], l, max) })
	}
	m["math.Min"] = mm(false)
	m["math.Max"] = mm(true)
	id := pure(func(e *Exec, a []Val) Val { return a[0] })
	m["math.Float32bits"] = id
	m["math.Float64bits"] = id
	m["math.Float32frombits"] = id
	m["math.Float64frombits"] = id
	m["math.IsNaN"] = pure(func(e *Exec, a []Val) Val { return e.fromTerm(e.tb.IsNaN(e.term(a[0], 64))) })
	m["math.Pow"] = pure(func(e *Exec, a []Val) Val {
		if a[0].t == nil && a[1].t == nil {
			return Val{c: u64f(math.Pow(f64(a[0].c), f64(a[1].c)))}
		}
		if a[1].t == nil && f64(a[1].c) == 2 {
			// equal to x*x outside the subnormal range
			x := e.term(a[0], 64)
			return e.fromTerm(e.tb.Bin(OpFMul, x, x))
		}
		return e.fromTerm(e.tb.Bin(OpFPow, e.term(a[0], 64), e.term(a[1], 64)))
	})
	m["math.FMA"] = pure(func(e *Exec, a []Val) Val {
		if a[0].t == nil && a[1].t == nil && a[2].t == nil {
			return Val{c: u64f(math.FMA(f64(a[0].c), f64(a[1].c), f64(a[2].c)))}
		}
		e.abort("unsupported", "symbolic math.FMA")
		return Val{}
	})
	m["math.Hypot"] = pure(func(e *Exec, a []Val) Val {
		if a[0].t != nil || a[1].t != nil {
			e.abort("unsupported", "symbolic math.Hypot")
		}
		return Val{c: u64f(math.Hypot(f64(a[0].c), f64(a[1].c)))}
	})
	conc1 := func(name string, fn func(float64) float64) {
		m["math."+name] = pure(func(e *Exec, a []Val) Val {
			x := a[0].c
			if a[0].t != nil {
				e.abort("unsupported", "symbolic math."+name)
			}
			return Val{c: u64f(fn(f64(x)))}
		})
	}
	conc1("Log", math.Log)
	conc1("Log2", math.Log2)
	conc1("Exp", math.Exp)
	conc1("Cos", math.Cos)
	conc1("Sin", math.Sin)
	conc1("Acos", math.Acos)
	conc1("Cbrt", math.Cbrt)
	bitsFn := func(n string, w uint8, fn func(uint64) int) {
		m["math/bits."+n] = pure(func(e *Exec, a []Val) Val {
			x := a[0].c
			if a[0].t != nil {
				x = e.concretize(a[0].t)
			}
			_ = w
			return Val{c: uint64(fn(x))}
		})
	}
	bl := func(x uint64) int { return 64 - clz64(x) }
	for _, n := range []string{"Len", "Len64", "Len32", "Len8", "Len16"} {
		bitsFn(n, 64, bl)
	}
}

func clz64(x uint64) int {
	n := 0
	for i := 63; i >= 0; i-- {
		if x>>uint(i)&1 == 1 {
			return n
		}
		n++
	}
	return 64
}

// ---- sync ----

type lockState struct {
	w       int // goroutine id + 1 holding the write lock
	readers map[int]int
	nread   int
	waitW   map[int]bool
	n       int64 // wait group counter
	used    bool
	once    int // 0 fresh, 1 running, 2 done
	waiters []*condWaiter
	m       *MapObj // sync.Map
	val     Val     // atomic.Value
}

func (e *Exec) lock(p Val) (*lockState, lockKey) {
	o, off := e.resolve(p, 1, false)
	k := lockKey{o, off}
	s := e.locks[k]
	if s == nil {
		s = &lockState{readers: map[int]int{}, waitW: map[int]bool{}}
		e.locks[k] = s
	}
	return s, k
}

func (p *Prog) syncIntrinsics(m map[string]Intrinsic) {
	wlock := func(rw bool) Intrinsic {
		return func(e *Exec, g *G, f *Frame, c *callCtx) (Val, status) {
			s, k := e.lock(c.args[0])
			if s.w != 0 || s.nread > 0 {
				s.waitW[g.id] = true
				return Val{}, e.block(g, "lock", func() bool { return s.w == 0 && s.nread == 0 })
			}
			delete(s.waitW, g.id)
			s.w = g.id + 1
			e.syncEvent(g, evAcq, k, true)
			return Val{}, stNext
		}
	}
	wunlock := func(e *Exec, g *G, f *Frame, c *callCtx) (Val, status) {
		s, k := e.lock(c.args[0])
		if s.w == 0 {
			e.violate("fatal", "fatal error: sync: unlock of unlocked mutex")
		}
		s.w = 0
		e.syncEvent(g, evRel, k, true)
		return Val{}, stNext
	}
	rlock := func(e *Exec, g *G, f *Frame, c *callCtx) (Val, status) {
		s, k := e.lock(c.args[0])
		if s.w != 0 || len(s.waitW) > 0 {
			return Val{}, e.block(g, "rlock", func() bool { return s.w == 0 && len(s.waitW) == 0 })
		}
		s.readers[g.id]++
		s.nread++
		e.syncEvent(g, evAcq, k, false)
		return Val{}, stNext
	}
	runlock := func(e *Exec, g *G, f *Frame, c *callCtx) (Val, status) {
		s, k := e.lock(c.args[0])
		if s.nread == 0 {
			e.violate("fatal", "fatal error: sync: RUnlock of unlocked RWMutex")
		}
		s.nread--
		s.readers[g.id]--
		e.syncEvent(g, evRel, k, false)
		return Val{}, stNext
	}
	try := func(e *Exec, g *G, f *Frame, c *callCtx) (Val, status) {
		s, k := e.lock(c.args[0])
		if s.w != 0 || s.nread > 0 {
			return cbool(false), stNext
		}
		s.w = g.id + 1
		e.syncEvent(g, evAcq, k, true)
		return cbool(true), stNext
	}
	tryR := func(e *Exec, g *G, f *Frame, c *callCtx) (Val, status) {
		s, k := e.lock(c.args[0])
		if s.w != 0 || len(s.waitW) > 0 {
			return cbool(false), stNext
		}
		s.readers[g.id]++
		s.nread++
		e.syncEvent(g, evAcq, k, false)
		return cbool(true), stNext
	}
	m["(*sync.Mutex).Lock"] = wlock(false)
	m["(*sync.Mutex).Unlock"] = wunlock
	m["(*sync.Mutex).TryLock"] = try
	m["(*sync.RWMutex).Lock"] = wlock(true)
	m["(*sync.RWMutex).Unlock"] = wunlock
	m["(*sync.RWMutex).RLock"] = rlock
	m["(*sync.RWMutex).RUnlock"] = runlock
	m["(*sync.RWMutex).TryLock"] = try
	m["(*sync.RWMutex).TryRLock"] = tryR

	wgAdd := func(e *Exec, g *G, p Val, n int64) {
		s, k := e.lock(p)
		s.n += n
		if s.n < 0 {
			panic(goPanic{v: e.strErr("sync: negative WaitGroup counter")})
		}
		if n < 0 {
			e.syncEvent(g, evDone, k, true)
		}
	}
	m["(*sync.WaitGroup).Add"] = func(e *Exec, g *G, f *Frame, c *callCtx) (Val, status) {
		wgAdd(e, g, c.args[0], e.concInt(c.args[1]))
		return Val{}, stNext
	}
	m["(*sync.WaitGroup).Done"] = func(e *Exec, g *G, f *Frame, c *callCtx) (Val, status) {
		wgAdd(e, g, c.args[0], -1)
		return Val{}, stNext
	}
	m["(*sync.WaitGroup).Wait"] = func(e *Exec, g *G, f *Frame, c *callCtx) (Val, status) {
		s, k := e.lock(c.args[0])
		if s.n > 0 {
			return Val{}, e.block(g, "WaitGroup.Wait", func() bool { return s.n == 0 })
		}
		e.syncEvent(g, evWait, k, true)
		return Val{}, stNext
	}
	m["(*sync.WaitGroup).Go"] = func(e *Exec, g *G, f *Frame, c *callCtx) (Val, status) {
		p := c.args[0]
		wgAdd(e, g, p, 1)
		if c.args[1].o == nil {
			e.goPanicRuntime("invalid memory address or nil pointer dereference")
		}
		ng := e.newG(g)
		e.pushCall(ng, c.args[1].o.(*Closure), nil, -1)
		if len(ng.frames) > 0 {
			ng.frames[0].onRet = func(e *Exec, g *G, v Val) { wgAdd(e, g, p, -1) }
		} else {
			wgAdd(e, ng, p, -1)
			ng.done = true
		}
		return Val{}, stNext
	}
	m["(*sync.Once).Do"] = func(e *Exec, g *G, f *Frame, c *callCtx) (Val, status) {
		s, k := e.lock(c.args[0])
		switch s.once {
		case 2:
			e.syncEvent(g, evWait, k, true)
			return Val{}, stNext
		case 1:
			return Val{}, e.block(g, "Once.Do", func() bool { return s.once == 2 })
		}
		s.once = 1
		n := len(g.frames)
		st := e.pushCall(g, c.args[1].o.(*Closure), nil, -1)
		if len(g.frames) > n {
			g.frames[n].onRet = func(e *Exec, g *G, v Val) {
				s.once = 2
				e.syncEvent(g, evDone, k, true)
			}
			return Val{}, stJump
		}
		_ = st
		s.once = 2
		return Val{}, stNext
	}
	// atomics
	at := func(w uint8, kind string) Intrinsic {
		l := &Layout{kind: lkInt, size: int64(w / 8), w: w, signed: true}
		return func(e *Exec, g *G, f *Frame, c *callCtx) (Val, status) {
			a := c.args
			o, off := e.resolve(a[0], l.size, true)
			e.syncEvent(g, evAtomic, lockKey{o, off}, true)
			old := e.loadAt(o, off, l)
			switch kind {
			case "Add":
				nv := e.arith(OpAdd, w, old, a[1])
				e.storeAt(o, off, nv, l)
				return nv, stNext
			case "Load":
				return old, stNext
			case "Store":
				e.storeAt(o, off, a[1], l)
				return Val{}, stNext
			case "Swap":
				e.storeAt(o, off, a[1], l)
				return old, stNext
			case "CompareAndSwap":
				eq := e.tb.Eq(e.term(old, w), e.term(a[1], w))
				if e.branch(eq) {
					e.storeAt(o, off, a[2], l)
					return cbool(true), stNext
				}
				return cbool(false), stNext
			}
			panic("atomic")
		}
	}
	for _, k := range []string{"Add", "Load", "Store", "Swap", "CompareAndSwap"} {
		for _, t := range []struct {
			n string
			w uint8
		}{{"Int32", 32}, {"Uint32", 32}, {"Int64", 64}, {"Uint64", 64}, {"Uintptr", 64}} {
			m["sync/atomic."+k+t.n] = at(t.w, k)
			m["internal/runtime/atomic."+k+t.n] = at(t.w, k)
			visFns["(*sync/atomic."+t.n+")."+k] = true
			visFns["sync/atomic."+k+t.n] = true
		}
	}
	pl := &Layout{kind: lkPtr, size: 8}
	m["sync/atomic.LoadPointer"] = func(e *Exec, g *G, f *Frame, c *callCtx) (Val, status) {
		o, off := e.resolve(c.args[0], 8, false)
		e.syncEvent(g, evAtomic, lockKey{o, off}, true)
		return e.loadAt(o, off, pl), stNext
	}
	m["sync/atomic.StorePointer"] = func(e *Exec, g *G, f *Frame, c *callCtx) (Val, status) {
		o, off := e.resolve(c.args[0], 8, true)
		e.syncEvent(g, evAtomic, lockKey{o, off}, true)
		e.storeAt(o, off, c.args[1], pl)
		return Val{}, stNext
	}
	m["(*sync.Pool).Put"] = pure(func(e *Exec, a []Val) Val { return Val{} })
	m["(*sync.Pool).Get"] = func(e *Exec, g *G, f *Frame, c *callCtx) (Val, status) {
		// always empty: call New when set
		pt := c.fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem()
		st := pt.Underlying().(*types.Struct)
		l := e.p.layout(pt)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "New" {
				fv := e.load(e.ptrAdd(c.args[0], Val{c: uint64(l.offs[i])}), l.fields[i])
				if fv.o == nil {
					return Val{}, stNext
				}
				return Val{}, e.pushCall(g, fv.o.(*Closure), nil, c.dst)
			}
		}
		return Val{}, stNext
	}
	m["runtime.Gosched"] = func(e *Exec, g *G, f *Frame, c *callCtx) (Val, status) {
		return Val{}, stNext
	}
	m["runtime.NumCPU"] = pure(func(e *Exec, a []Val) Val { return Val{c: uint64(e.numCPU)} })
	m["runtime.GOMAXPROCS"] = pure(func(e *Exec, a []Val) Val { return Val{c: uint64(e.numCPU)} })
	m["runtime.NumGoroutine"] = pure(func(e *Exec, a []Val) Val {
		n := 0
		for _, g := range e.gs {
			if !g.done {
				n++
			}
		}
		return Val{c: uint64(n)}
	})
	nop := pure(func(e *Exec, a []Val) Val { return Val{} })
	for _, n := range []string{"runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime/debug.FreeOSMemory", "runtime.LockOSThread", "runtime.UnlockOSThread"} {
		m[n] = nop
	}
	m["runtime/debug.SetGCPercent"] = nop
}

// ---- errors, fmt, time, strings, ... ----

func (e *Exec) strErr(s string) Val {
	return Val{o: e.p.tag(types.Typ[types.String]), x: []Val{mkStr(s)}}
}

func (p *Prog) lookupType(pkg, name string) types.Type {
	pk := p.pkgs[pkg]
	if pk == nil {
		return nil
	}
	o := pk.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

func (e *Exec) runtimeErr(msg string) Val {
	t := e.p.lookupType("runtime", "errorString")
	if t == nil {
		return e.strErr("runtime error: " + msg)
	}
	return Val{o: e.p.tag(t), x: []Val{mkStr(msg)}}
}

// newStruct allocates a struct of the named type with some fields set and returns a pointer.
func (e *Exec) newStruct(pkg, name string, fields map[string]Val) (Val, types.Type) {
	t := e.p.lookupType(pkg, name)
	if t == nil {
		e.abort("unsupported", "type "+pkg+"."+name+" is not loaded")
	}
	l := e.p.layout(t)
	st := t.Underlying().(*types.Struct)
	o := e.newObj(l.size, pkg+"."+name)
	for i := 0; i < st.NumFields(); i++ {
		if v, ok := fields[st.Field(i).Name()]; ok {
			e.storeAt(o, l.offs[i], v, l.fields[i])
		}
	}
	return Val{o: o}, t
}

func (e *Exec) errorString(msg string) Val {
	p, t := e.newStruct("errors", "errorString", map[string]Val{"s": mkStr(msg)})
	return Val{o: e.p.tag(types.NewPointer(t)), x: []Val{p}}
}

func (e *Exec) errno(n int) Val {
	t := e.p.lookupType("syscall", "Errno")
	return Val{o: e.p.tag(t), x: []Val{{c: uint64(n)}}}
}

func (e *Exec) pathError(op, path string, n int) Val {
	p, t := e.newStruct("io/fs", "PathError", map[string]Val{"Op": mkStr(op), "Path": mkStr(path), "Err": e.errno(n)})
	return Val{o: e.p.tag(types.NewPointer(t)), x: []Val{p}}
}

func (e *Exec) globalVal(pkg, name string) Val {
	pk := e.p.pkgs[pkg]
	if pk == nil {
		e.abort("unsupported", "package "+pkg+" is not loaded")
	}
	g := pk.Members[name].(*ssa.Global)
	o := e.global(g)
	return e.loadAt(o, 0, e.p.layout(g.Type().Underlying().(*types.Pointer).Elem()))
}

func (e *Exec) field(p Val, t types.Type, name string) (Val, bool) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return Val{}, false
	}
	l := e.p.layout(t)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return e.load(e.ptrAdd(p, Val{c: uint64(l.offs[i])}), l.fields[i]), true
		}
	}
	return Val{}, false
}

var errnoNames = map[uint64]string{1: "operation not permitted", 2: "no such file or directory", 9: "bad file descriptor", 13: "permission denied", 17: "file exists", 20: "not a directory", 21: "is a directory", 22: "invalid argument", 27: "file too large", 28: "no space left on device", 19: "no such device", 12: "cannot allocate memory"}

// errText renders well known error values.
func (e *Exec) errText(v Val) (string, bool) {
	tg := v.o.(*TypeTag)
	switch tg.t.String() {
	case "*errors.errorString":
		s, _ := e.field(v.x[0], tg.t.(*types.Pointer).Elem(), "s")
		return str(s), true
	case "*fmt.wrapError":
		s, _ := e.field(v.x[0], tg.t.(*types.Pointer).Elem(), "msg")
		return str(s), true
	case "*io/fs.PathError":
		el := tg.t.(*types.Pointer).Elem()
		op, _ := e.field(v.x[0], el, "Op")
		pa, _ := e.field(v.x[0], el, "Path")
		er, _ := e.field(v.x[0], el, "Err")
		s := "?"
		if er.o != nil {
			s, _ = e.errText(er)
		}
		return str(op) + " " + str(pa) + ": " + s, true
	case "syscall.Errno":
		if v.x[0].t == nil {
			if s, ok := errnoNames[v.x[0].c]; ok {
				return s, true
			}
			return fmt.Sprintf("errno %d", v.x[0].c), true
		}
	case "runtime.errorString":
		return "runtime error: " + str(v.x[0]), true
	}
	return "", false
}

func (e *Exec) fmtVal(v Val, verb byte) string {
	if v.o == nil {
		return "<nil>"
	}
	tg, ok := v.o.(*TypeTag)
	if !ok {
		return "?"
	}
	if s, ok := e.errText(v); ok {
		return s
	}
	d := v.x[0]
	l := e.p.layout(tg.t)
	switch l.kind {
	case lkString:
		return str(d)
	case lkBool:
		if d.t == nil {
			return fmt.Sprint(d.c != 0)
		}
	case lkInt:
		if d.t != nil || d.o != nil {
			return "?"
		}
		if l.float {
			return fmt.Sprint(toF(d.c, l.w))
		}
		if verb == 'x' {
			return strconv.FormatUint(d.c, 16)
		}
		if l.signed {
			return fmt.Sprint(sext(d.c, l.w))
		}
		return fmt.Sprint(d.c)
	}
	return "{" + tg.t.String() + "}"
}

func (e *Exec) variadic(v Val) []Val {
	var r []Val
	n := sliceLen(e, v)
	l := &Layout{kind: lkIface, size: 16}
	for i := int64(0); i < n; i++ {
		r = append(r, e.load(e.ptrAdd(slicePtr(v), Val{c: uint64(16 * i)}), l))
	}
	return r
}

func (e *Exec) sprintf(f string, args []Val) string {
	var sb strings.Builder
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			sb.WriteByte(f[i])
			continue
		}
		i++
		for i < len(f) && strings.IndexByte("+-# 0123456789.*", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			break
		}
		if f[i] == '%' {
			sb.WriteByte('%')
			continue
		}
		if k < len(args) {
			sb.WriteString(e.fmtVal(args[k], f[i]))
			k++
		} else {
			sb.WriteString("%!" + string(f[i]) + "(MISSING)")
		}
	}
	return sb.String()
}

func (e *Exec) sprint(args []Val, ln bool) string {
	var p []string
	for _, a := range args {
		p = append(p, e.fmtVal(a, 'v'))
	}
	if ln {
		return strings.Join(p, " ") + "\n"
	}
	return strings.Join(p, "")
}

func (p *Prog) miscIntrinsics(m map[string]Intrinsic) {
	zero2 := pure(func(e *Exec, a []Val) Val { return Val{x: []Val{{}, {}}} })
	for _, n := range []string{"fmt.Println", "fmt.Printf", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint"} {
		m[n] = zero2
	}
	m["fmt.Sprintf"] = pure(func(e *Exec, a []Val) Val { return mkStr(e.sprintf(str(a[0]), e.variadic(a[1]))) })
	m["fmt.Sprint"] = pure(func(e *Exec, a []Val) Val { return mkStr(e.sprint(e.variadic(a[0]), false)) })
	m["fmt.Sprintln"] = pure(func(e *Exec, a []Val) Val { return mkStr(e.sprint(e.variadic(a[0]), true)) })
	m["fmt.Errorf"] = pure(func(e *Exec, a []Val) Val {
		f := str(a[0])
		args := e.variadic(a[1])
		msg := e.sprintf(f, args)
		if strings.Contains(f, "%w") {
			et := types.Universe.Lookup("error").Type()
			for i := len(args) - 1; i >= 0; i-- {
				if args[i].o != nil && e.p.implements(args[i].o.(*TypeTag), et) {
					p, t := e.newStruct("fmt", "wrapError", map[string]Val{"msg": mkStr(msg), "err": args[i]})
					return Val{o: e.p.tag(types.NewPointer(t)), x: []Val{p}}
				}
			}
		}
		return e.errorString(msg)
	})
	m["errors.Is"] = pure(func(e *Exec, a []Val) Val { return cbool(e.errorsIs(a[0], a[1])) })
	m["errors.Join"] = pure(func(e *Exec, a []Val) Val {
		for _, v := range e.variadic(a[0]) {
			if v.o != nil {
				return v
			}
		}
		return Val{}
	})
	m["os.IsNotExist"] = pure(func(e *Exec, a []Val) Val { return cbool(e.errnoOf(a[0]) == 2) })
	m["os.IsExist"] = pure(func(e *Exec, a []Val) Val { return cbool(e.errnoOf(a[0]) == 17) })
	m["os.IsPermission"] = pure(func(e *Exec, a []Val) Val { return cbool(e.errnoOf(a[0]) == 13) })

	timeZero := func(e *Exec) Val { return e.p.layout(e.p.lookupType("time", "Time")).zero }
	m["time.Now"] = pure(func(e *Exec, a []Val) Val { return timeZero(e) })
	m["time.Since"] = pure(func(e *Exec, a []Val) Val { return Val{} })
	m["(time.Time).Sub"] = pure(func(e *Exec, a []Val) Val { return Val{} })
	tick := pure(func(e *Exec, a []Val) Val { e.clock += 1000003; return Val{c: uint64(1700000000000000000 + e.clock)} })
	m["(time.Time).UnixNano"] = tick
	m["(time.Time).Unix"] = tick
	m["(time.Time).UnixMilli"] = tick
	m["(time.Time).UnixMicro"] = tick
	m["(time.Time).Nanosecond"] = tick
	m["time.Sleep"] = pure(func(e *Exec, a []Val) Val { return Val{} })
	m["(time.Duration).String"] = pure(func(e *Exec, a []Val) Val { return mkStr("0s") })

	// math/rand as an abstract stream per seed
	type rsrc struct {
		seed string
		n    int
	}
	_ = rsrc{}
	keyOf := func(v Val) string {
		if v.t != nil {
			return fmt.Sprintf("t%d", v.t.id)
		}
		return fmt.Sprintf("c%d", v.c)
	}
	draw := func(e *Exec, p Val) *Term {
		o := p.o.(*Obj)
		s := e.rands[o]
		if s == nil {
			e.abort("unsupported", "math/rand state")
		}
		k := fmt.Sprintf("%s|%d", s.seed, s.n)
		s.n++
		if t, ok := e.randVals[k]; ok {
			return t
		}
		name := "rand:"
		if s.seed == "global" {
			name = "globalrand:"
		}
		t := e.newVar(name, 64)
		e.randVals[k] = t
		return t
	}
	m["math/rand.NewSource"] = pure(func(e *Exec, a []Val) Val {
		p, t := e.newStruct("math/rand", "rngSource", nil)
		e.rands[p.o.(*Obj)] = &randState{seed: keyOf(a[0])}
		return Val{o: e.p.tag(types.NewPointer(t)), x: []Val{p}}
	})
	m["math/rand.New"] = pure(func(e *Exec, a []Val) Val {
		p, _ := e.newStruct("math/rand", "Rand", nil)
		st := e.rands[a[0].x[0].o.(*Obj)]
		if st == nil {
			e.abort("unsupported", "math/rand.New of an unknown source")
		}
		e.rands[p.o.(*Obj)] = st
		return p
	})
	// the generator shared by everyone is seeded at random
	m["math/rand.globalRand"] = pure(func(e *Exec, a []Val) Val {
		if e.globalRand == nil {
			p, _ := e.newStruct("math/rand", "Rand", nil)
			e.rands[p.o.(*Obj)] = &randState{seed: "global"}
			e.globalRand = &p
		}
		return *e.globalRand
	})
	m["math/rand.Seed"] = pure(func(e *Exec, a []Val) Val { return Val{} })
	anyDraw := pure(func(e *Exec, a []Val) Val { return Val{t: e.newVar("globalrand:", 64)} })
	m["math/rand.runtime_rand"] = anyDraw
	m["math/rand/v2.runtime_rand"] = anyDraw
	m["(*math/rand.Rand).Seed"] = pure(func(e *Exec, a []Val) Val {
		if s := e.rands[a[0].o.(*Obj)]; s != nil {
			s.seed, s.n = keyOf(a[1]), 0
		}
		return Val{}
	})
	bounded := func(w uint8) Intrinsic {
		return pure(func(e *Exec, a []Val) Val {
			tb := e.tb
			n := e.term(a[1], w)
			if !e.branch(tb.Bin(OpSLt, tb.Const(w, 0), n)) {
				panic(goPanic{v: e.strErr("invalid argument to Intn")})
			}
			t := draw(e, a[0])
			if w < 64 {
				t = tb.Extract(t, w-1, 0)
			}
			t = tb.Bin(OpBAnd, t, tb.Const(w, mask(w)>>1))
			return e.fromTerm(tb.Bin(OpURem, t, n))
		})
	}
	m["(*math/rand.Rand).Intn"] = bounded(64)
	m["(*math/rand.Rand).Int63n"] = bounded(64)
	m["(*math/rand.Rand).Int31n"] = bounded(32)
	m["(*math/rand.Rand).Uint64"] = pure(func(e *Exec, a []Val) Val { return Val{t: draw(e, a[0])} })
	m["(*math/rand.Rand).Uint32"] = pure(func(e *Exec, a []Val) Val { return e.fromTerm(e.tb.Extract(draw(e, a[0]), 31, 0)) })
	m["(*math/rand.Rand).Int63"] = pure(func(e *Exec, a []Val) Val {
		return e.fromTerm(e.tb.Bin(OpBAnd, draw(e, a[0]), e.tb.Const(64, mask(63))))
	})
	m["(*math/rand.Rand).NormFloat64"] = pure(func(e *Exec, a []Val) Val { return Val{t: draw(e, a[0])} })
	m["(*math/rand.Rand).Float64"] = m["(*math/rand.Rand).NormFloat64"]

	// sorting of basic slices by the third party package sorty: its contract
	m["github.com/jfcg/sorty/v2.SortSlice"] = pure(func(e *Exec, a []Val) Val {
		if a[0].o == nil {
			return Val{}
		}
		tg := a[0].o.(*TypeTag)
		st, ok := tg.t.Underlying().(*types.Slice)
		if !ok {
			e.abort("unsupported", "sorty.SortSlice of "+tg.t.String())
		}
		el := e.p.layout(st.Elem())
		if el.kind != lkInt {
			e.abort("unsupported", "sorty.SortSlice of "+tg.t.String())
		}
		e.sortSlice(a[0].x[0], el)
		return Val{}
	})
	// reflectlite, as used by sort.Slice
	m["internal/reflectlite.ValueOf"] = pure(func(e *Exec, a []Val) Val { return Val{o: &Box{a[0]}, x: []Val{{}, {}, {}}} })
	m["(internal/reflectlite.Value).Len"] = pure(func(e *Exec, a []Val) Val {
		bx, ok := a[0].o.(*Box)
		if !ok {
			e.abort("unsupported", "reflectlite value")
		}
		return bx.v.x[0].x[0]
	})
	m["internal/reflectlite.Swapper"] = pure(func(e *Exec, a []Val) Val {
		tg := a[0].o.(*TypeTag)
		st, ok := tg.t.Underlying().(*types.Slice)
		if !ok {
			panic(goPanic{v: e.strErr("reflect: call of Swapper on non-slice value")})
		}
		el := e.p.layout(st.Elem())
		s := a[0].x[0]
		return Val{o: &Closure{native: func(e *Exec, g *G, as []Val) (Val, bool) {
			n := sliceLen(e, s)
			i, j := e.concInt(as[0]), e.concInt(as[1])
			if i < 0 || j < 0 || i >= n || j >= n {
				panic(goPanic{v: e.strErr("reflect: slice index out of range")})
			}
			pi := e.ptrAdd(slicePtr(s), Val{c: uint64(i * el.size)})
			pj := e.ptrAdd(slicePtr(s), Val{c: uint64(j * el.size)})
			vi, vj := e.load(pi, el), e.load(pj, el)
			e.store(pi, vj, el)
			e.store(pj, vi, el)
			return Val{}, true
		}}}
	})
	// strings and paths (concrete)
	sfn := func(n string, fn func(a []Val, e *Exec) Val) {
		m[n] = pure(func(e *Exec, a []Val) Val { return fn(a, e) })
	}
	sfn("strings.Contains", func(a []Val, e *Exec) Val { return cbool(strings.Contains(str(a[0]), str(a[1]))) })
	sfn("strings.Index", func(a []Val, e *Exec) Val { return Val{c: uint64(int64(strings.Index(str(a[0]), str(a[1]))))} })
	sfn("strings.HasSuffix", func(a []Val, e *Exec) Val { return cbool(strings.HasSuffix(str(a[0]), str(a[1]))) })
	sfn("strings.HasPrefix", func(a []Val, e *Exec) Val { return cbool(strings.HasPrefix(str(a[0]), str(a[1]))) })
	sfn("strings.ToLower", func(a []Val, e *Exec) Val { return mkStr(strings.ToLower(str(a[0]))) })
	sfn("strings.Repeat", func(a []Val, e *Exec) Val { return mkStr(strings.Repeat(str(a[0]), int(e.concInt(a[1])))) })
	sfn("path/filepath.Dir", func(a []Val, e *Exec) Val { return mkStr(filepath.Dir(str(a[0]))) })
	sfn("path/filepath.Base", func(a []Val, e *Exec) Val { return mkStr(filepath.Base(str(a[0]))) })
	sfn("path/filepath.Clean", func(a []Val, e *Exec) Val { return mkStr(filepath.Clean(str(a[0]))) })
	sfn("path/filepath.Ext", func(a []Val, e *Exec) Val { return mkStr(filepath.Ext(str(a[0]))) })
	sfn("path/filepath.IsAbs", func(a []Val, e *Exec) Val { return cbool(filepath.IsAbs(str(a[0]))) })
	sfn("path/filepath.Abs", func(a []Val, e *Exec) Val { return Val{x: []Val{mkStr(filepath.Clean(str(a[0]))), {}}} })
	sfn("path/filepath.EvalSymlinks", func(a []Val, e *Exec) Val { return Val{x: []Val{mkStr(filepath.Clean(str(a[0]))), {}}} })
	sfn("path/filepath.Join", func(a []Val, e *Exec) Val {
		n := sliceLen(e, a[0])
		var p []string
		l := &Layout{kind: lkString, size: 16}
		for i := int64(0); i < n; i++ {
			p = append(p, str(e.load(e.ptrAdd(slicePtr(a[0]), Val{c: uint64(16 * i)}), l)))
		}
		return mkStr(filepath.Join(p...))
	})
	sfn("strconv.Itoa", func(a []Val, e *Exec) Val { return mkStr(strconv.Itoa(int(e.concInt(a[0])))) })
	sfn("internal/bytealg.IndexByteString", func(a []Val, e *Exec) Val {
		return Val{c: uint64(int64(strings.IndexByte(str(a[0]), byte(e.concInt(a[1])))))}
	})
	sfn("internal/bytealg.MakeNoZero", func(a []Val, e *Exec) Val {
		n := e.concInt(a[0])
		o := e.newObj(n, "[]byte")
		return Val{o: o, x: []Val{{c: uint64(n)}, {c: uint64(n)}}}
	})
	sfn("bytes.Equal", func(a []Val, e *Exec) Val {
		n := sliceLen(e, a[0])
		if n != sliceLen(e, a[1]) {
			return cbool(false)
		}
		return e.fromTerm(e.memEq(slicePtr(a[0]), slicePtr(a[1]), n))
	})
	sfn(symPkg+".MemEq", func(a []Val, e *Exec) Val {
		return e.fromTerm(e.memEq(a[0], a[1], e.concInt(a[2])))
	})
	nop := pure(func(e *Exec, a []Val) Val { return Val{} })
	for _, n := range []string{"os.NewFile", "os.runtime_args", "os.checkPidfd", "os.init#1", "os.runtime_beforeExit", "internal/godebug.New", "internal/testlog.Getenv", "internal/bytealg.init", "internal/cpu.init"} {
		m[n] = nop
	}
	m["os.Getpid"] = pure(func(e *Exec, a []Val) Val { return Val{c: 4242} })
	m["os.TempDir"] = pure(func(e *Exec, a []Val) Val { return mkStr("/scratch") })
	m["os.Getenv"] = pure(func(e *Exec, a []Val) Val { return Val{} })
	m["os.LookupEnv"] = pure(func(e *Exec, a []Val) Val { return Val{x: []Val{{}, {}}} })
	m["os.Hostname"] = pure(func(e *Exec, a []Val) Val { return Val{x: []Val{mkStr("host"), {}}} })
	m["internal/godebug.New"] = pure(func(e *Exec, a []Val) Val { return Val{o: e.newObj(64, "godebug setting")} })
	m["(*internal/godebug.Setting).Value"] = pure(func(e *Exec, a []Val) Val { return Val{} })
	m["(*internal/godebug.Setting).IncNonDefault"] = pure(func(e *Exec, a []Val) Val { return Val{} })
	m["runtime.Stack"] = pure(func(e *Exec, a []Val) Val { return Val{} })
	m["runtime/debug.Stack"] = pure(func(e *Exec, a []Val) Val { return Val{x: []Val{{}, {}}} })
	m["runtime.Caller"] = pure(func(e *Exec, a []Val) Val { return Val{x: []Val{{}, {}, {}, {}}} })
}

// memEq compares n bytes of memory as a term.
func (e *Exec) memEq(a, b Val, n int64) *Term {
	if n == 0 {
		return e.tb.True
	}
	ao, aoff := e.resolve(a, n, false)
	bo, boff := e.resolve(b, n, false)
	r := e.tb.True
	for i := int64(0); i < n; {
		ha, hb := ao.getHead(aoff+i), bo.getHead(boff+i)
		if ha == hb && ha != 0 && ha&0x80 == 0 && int64(ha)+i <= n {
			va, vb := ao.getVal(aoff+i), bo.getVal(boff+i)
			if va.o == nil && vb.o == nil && va.x == nil && vb.x == nil && ha <= 8 {
				w := ha * 8
				ta, tb := e.cellTerm(va, w), e.cellTerm(vb, w)
				r = e.tb.And(r, e.tb.Eq(ta, tb))
				i += int64(ha)
				continue
			}
			if o, ok := va.o.(*Obj); ok && va.o == vb.o && va.t == vb.t && va.c == vb.c {
				_ = o
				i += int64(ha)
				continue
			}
		}
		ta, ca := e.byteAt(ao, aoff+i)
		tb, cb := e.byteAt(bo, boff+i)
		if ta == nil && tb == nil {
			if ca != cb {
				return e.tb.False
			}
			i++
			continue
		}
		if ta == nil {
			ta = e.tb.Const(8, ca)
		}
		if tb == nil {
			tb = e.tb.Const(8, cb)
		}
		r = e.tb.And(r, e.tb.Eq(ta, tb))
		i++
	}
	return r
}

func (e *Exec) cellTerm(v Val, w uint8) *Term {
	if v.t == nil {
		return e.tb.Const(w, v.c)
	}
	if v.t.w == 0 {
		return e.tb.BoolToBV(v.t, w)
	}
	return v.t
}

// sortSlice sorts a slice of integers in place (compare-exchange network on symbolic values).
func (e *Exec) sortSlice(s Val, el *Layout) {
	n := int(sliceLen(e, s))
	if n < 2 {
		return
	}
	vs := make([]Val, n)
	conc := true
	for i := range vs {
		vs[i] = e.load(e.ptrAdd(slicePtr(s), Val{c: uint64(int64(i) * el.size)}), el)
		if vs[i].t != nil {
			conc = false
		}
	}
	op := OpULt
	if el.float {
		op = OpFLt
	} else if el.signed {
		op = OpSLt
	}
	if conc {
		sort.SliceStable(vs, func(i, j int) bool { return evalOp(op, 0, el.w, 0, vs[i].c, vs[j].c, 0) != 0 })
	} else {
		for i := 0; i < n; i++ {
			for j := 0; j+1 < n-i; j++ {
				a, b := e.term(vs[j], el.w), e.term(vs[j+1], el.w)
				c := e.tb.Bin(op, b, a)
				vs[j] = e.fromTerm(e.tb.Ite(c, b, a))
				vs[j+1] = e.fromTerm(e.tb.Ite(c, a, b))
			}
		}
	}
	for i := range vs {
		e.store(e.ptrAdd(slicePtr(s), Val{c: uint64(int64(i) * el.size)}), vs[i], el)
	}
}

func (e *Exec) errnoOf(v Val) int {
	for n := 0; v.o != nil && n < 10; n++ {
		tg := v.o.(*TypeTag)
		switch tg.t.String() {
		case "*io/fs.PathError", "*os.LinkError", "*os.SyscallError":
			v, _ = e.field(v.x[0], tg.t.(*types.Pointer).Elem(), "Err")
		case "*fmt.wrapError":
			v, _ = e.field(v.x[0], tg.t.(*types.Pointer).Elem(), "err")
		case "syscall.Errno":
			return int(v.x[0].c)
		default:
			return 0
		}
	}
	return 0
}

func (e *Exec) errorsIs(a, b Val) bool {
	if b.o == nil || a.o == nil {
		return a.o == b.o
	}
	for n := 0; a.o != nil && n < 10; n++ {
		if a.o == b.o && types.Comparable(a.o.(*TypeTag).t) {
			if e.branch(e.equal(a, b, types.Universe.Lookup("error").Type(), types.Universe.Lookup("error").Type())) {
				return true
			}
		}
		tg := a.o.(*TypeTag)
		switch tg.t.String() {
		case "*io/fs.PathError", "*os.LinkError", "*os.SyscallError":
			a, _ = e.field(a.x[0], tg.t.(*types.Pointer).Elem(), "Err")
		case "*fmt.wrapError":
			a, _ = e.field(a.x[0], tg.t.(*types.Pointer).Elem(), "err")
		case "syscall.Errno":
			if s, ok := e.errText(b); ok {
				switch a.x[0].c {
				case 2:
					return s == "file does not exist"
				case 17:
					return s == "file already exists"
				case 13, 1:
					return s == "permission denied"
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}
