package main

// Interpreter for go/ssa functions over symbolic values.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type status int

const (
	stNext  status = iota
	stJump         // control was transferred (block change, frame pushed or popped)
	stBlock        // blocked: the instruction is retried later
	stSpin         // preempted before the instruction: retry it later
)

type runFn func(e *Exec, g *G, f *Frame) status

type ins struct {
	run runFn
	pos token.Pos
	vis bool // scheduling point
}

type FnInfo struct {
	fn     *ssa.Function
	name   string
	nregs  int
	reg    map[ssa.Value]int
	blocks [][]ins
	intr   Intrinsic
	nblk   int
	repo   bool
}

type Frame struct {
	fi      *FnInfo
	regs    []Val
	blk     int
	prev    int
	pc      int
	defers  []deferred
	dst     int // result register in the caller, -1: none
	onRet   func(e *Exec, g *G, v Val)
	pan     *panicRec
	isDefer bool
	rundef  bool // running deferred calls because of a RunDefers instruction
	recov   bool // recovered: run the remaining defers and leave through the recover block
	stop    bool // nested run boundary
	result  Val
	spun    bool
}

func (f *Frame) curPos() token.Pos {
	if f.blk < len(f.fi.blocks) {
		b := f.fi.blocks[f.blk]
		for i := f.pc; i < len(b) && i >= 0; i++ {
			if b[i].pos.IsValid() {
				return b[i].pos
			}
		}
	}
	return f.fi.fn.Pos()
}

type deferred struct {
	fn   Val
	args []Val
	call *ssa.CallCommon
}

type panicRec struct {
	v         Val
	runtime   string
	recovered bool
	where     string
}

type G struct {
	id     int
	frames []*Frame
	panics []*panicRec
	done   bool
	ready  func() bool // nil: runnable
	why    string
	// channel hand-off
	chVal  Val
	chOK   bool
	chSel  int
	chDone bool
	wait   *waiter
	vc     []int32
	lockst []lockKey
	seg    int
}

type waiter struct {
	g    *G
	sel  int
	val  Val
	dead *bool
}

type lockKey struct {
	o   *Obj
	off int64
}

// ---- operands ----

type opnd struct {
	kind int8 // 0 reg, 1 const, 2 global
	reg  int
	v    Val
	gl   *ssa.Global
}

func (o *opnd) get(e *Exec, f *Frame) Val {
	switch o.kind {
	case 0:
		return f.regs[o.reg]
	case 1:
		return o.v
	}
	return Val{o: e.global(o.gl)}
}

func (e *Exec) global(g *ssa.Global) *Obj {
	if o, ok := e.globals[g]; ok {
		return o
	}
	l := e.p.layout(g.Type().Underlying().(*types.Pointer).Elem())
	e.initPkg(g.Pkg)
	if o, ok := e.globals[g]; ok {
		return o
	}
	o := e.newObj(l.size, g.Name())
	o.global = true
	e.globals[g] = o
	return o
}

// initPkg runs the package initialiser on first use of one of its globals.
func (e *Exec) initPkg(p *ssa.Package) {
	if p == nil || e.inited[p] {
		return
	}
	e.inited[p] = true
	fn := p.Func("init")
	if fn == nil || len(fn.Blocks) == 0 || skipInit[p.Pkg.Path()] {
		return
	}
	std := !strings.Contains(p.Pkg.Path(), ".")
	saveSteps := e.steps
	e.initing++
	func() {
		defer func() {
			if r := recover(); r != nil {
				if pe, ok := r.(pathEnd); ok && std && (pe.kind == "unsupported" || pe.kind == "violated") {
					return
				}
				panic(r)
			}
		}()
		e.callSync(fn, nil)
	}()
	e.initing--
	e.steps = saveSteps
}

var skipInit = map[string]bool{"runtime": true, "syscall": true, "os": false, "internal/godebug": true, "internal/poll": true, "unicode": true, "time": true, "reflect": true, "testing": true, "flag": true, "fmt": true, "crypto/rand": true}

// ---- function preparation ----

func (p *Prog) info(fn *ssa.Function) *FnInfo {
	if fi, ok := p.infos.Load(fn); ok {
		return fi.(*FnInfo)
	}
	p.infoMu.Lock()
	defer p.infoMu.Unlock()
	if fi, ok := p.infos.Load(fn); ok {
		return fi.(*FnInfo)
	}
	fi := p.prepare(fn)
	p.infos.Store(fn, fi)
	return fi
}

func fnKey(fn *ssa.Function) string {
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	return o.String()
}

func (p *Prog) prepare(fn *ssa.Function) *FnInfo {
	fi := &FnInfo{fn: fn, name: fn.String(), reg: map[ssa.Value]int{}}
	if i := p.intr[fnKey(fn)]; i != nil {
		fi.intr = i
		return fi
	}
	if pk := fn.Package(); pk != nil {
		fi.repo = strings.HasPrefix(pk.Pkg.Path(), repoMod)
	} else if fn.Origin() != nil && fn.Origin().Package() != nil {
		fi.repo = strings.HasPrefix(fn.Origin().Package().Pkg.Path(), repoMod)
	}
	if pk := fn.Pkg; pk != nil && p.stubPkgs[pk.Pkg.Path()] {
		nm := fi.name
		fi.intr = func(e *Exec, g *G, f *Frame, c *callCtx) (Val, status) {
			e.abort("unsupported", "call of "+nm)
			return Val{}, stNext
		}
		return fi
	}
	for _, v := range fn.Params {
		fi.reg[v] = fi.nregs
		fi.nregs++
	}
	for _, v := range fn.FreeVars {
		fi.reg[v] = fi.nregs
		fi.nregs++
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				fi.reg[v] = fi.nregs
				fi.nregs++
			}
		}
	}
	c := &compiler{p: p, fi: fi}
	for _, b := range fn.Blocks {
		var l []ins
		for _, i := range b.Instrs {
			c.vis = false
			if r := c.compile(i); r != nil {
				l = append(l, ins{r, i.Pos(), c.vis})
			}
		}
		fi.blocks = append(fi.blocks, l)
	}
	return fi
}

type compiler struct {
	p   *Prog
	fi  *FnInfo
	vis bool
}

func (c *compiler) op(v ssa.Value) *opnd {
	switch x := v.(type) {
	case *ssa.Const:
		return &opnd{kind: 1, v: c.p.constVal(x)}
	case *ssa.Global:
		return &opnd{kind: 2, gl: x}
	case *ssa.Function:
		return &opnd{kind: 1, v: Val{o: c.p.closureOf(x)}}
	case *ssa.Builtin:
		return &opnd{kind: 1, v: Val{}}
	}
	r, ok := c.fi.reg[v]
	if !ok {
		panic(fmt.Sprintf("no register for %T %s in %s", v, v.Name(), c.fi.name))
	}
	return &opnd{kind: 0, reg: r}
}

func (p *Prog) closureOf(fn *ssa.Function) *Closure {
	if c, ok := p.closures.Load(fn); ok {
		return c.(*Closure)
	}
	c, _ := p.closures.LoadOrStore(fn, &Closure{fn: fn})
	return c.(*Closure)
}

func (p *Prog) constVal(x *ssa.Const) Val {
	l := p.layout(x.Type())
	if x.Value == nil {
		return l.zero
	}
	switch l.kind {
	case lkBool:
		return Val{c: b2u(constant.BoolVal(x.Value))}
	case lkString:
		if x.Value.Kind() == constant.Int {
			i, _ := constant.Int64Val(x.Value)
			return mkStr(string(rune(i)))
		}
		return mkStr(constant.StringVal(x.Value))
	case lkInt:
		if l.float {
			if l.w == 32 {
				f, _ := constant.Float32Val(constant.ToFloat(x.Value))
				return Val{c: u32f(f)}
			}
			f, _ := constant.Float64Val(constant.ToFloat(x.Value))
			return Val{c: u64f(f)}
		}
		iv := constant.ToInt(x.Value)
		if i, ok := constant.Int64Val(iv); ok {
			return Val{c: uint64(i) & mask(l.w)}
		}
		u, _ := constant.Uint64Val(iv)
		return Val{c: u & mask(l.w)}
	case lkPtr:
		u, _ := constant.Uint64Val(constant.ToInt(x.Value))
		return Val{c: u}
	}
	return Val{}
}

func mkStr(s string) Val {
	if s == "" {
		return Val{}
	}
	return Val{o: s}
}

func (e *Exec) term(v Val, w uint8) *Term {
	if v.o != nil {
		if t := e.scalarBits(v, w); t != nil {
			return t
		}
	}
	if v.t != nil {
		return v.t
	}
	return e.tb.Const(w, v.c)
}

func (e *Exec) boolTerm(v Val) *Term {
	if v.t != nil {
		return v.t
	}
	return e.tb.Bool(v.c != 0)
}

func (e *Exec) boolVal(t *Term) Val { return e.fromTerm(t) }

// truth decides a boolean value, forking if it is symbolic.
func (e *Exec) truth(v Val) bool {
	if v.t == nil {
		return v.c != 0
	}
	return e.branch(v.t)
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (c *compiler) compile(i ssa.Instruction) runFn {
	switch x := i.(type) {
	case *ssa.DebugRef:
		return nil
	case *ssa.Alloc:
		d := c.fi.reg[x]
		l := c.p.layout(x.Type().Underlying().(*types.Pointer).Elem())
		name := x.Comment
		local := !x.Heap
		if name == "" {
			name = "alloc"
		}
		name += " " + types.TypeString(l.typ, func(p *types.Package) string { return p.Name() })
		return func(e *Exec, g *G, f *Frame) status {
			o := e.newObj(l.size, name)
			o.local = local
			f.regs[d] = Val{o: o}
			return stNext
		}
	case *ssa.Phi:
		// handled at block entry: copies are gathered first
		d := c.fi.reg[x]
		ops := make([]*opnd, len(x.Edges))
		for k, v := range x.Edges {
			ops[k] = c.op(v)
		}
		preds := x.Block().Preds
		idx := map[int]int{}
		for k, pb := range preds {
			idx[pb.Index] = k
		}
		// phis read their operands before any phi of the block is assigned
		first := x.Block().Instrs[0] == ssa.Instruction(x)
		var group []*ssa.Phi
		if first {
			for _, in := range x.Block().Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				group = append(group, ph)
			}
			gops := make([][]*opnd, len(group))
			gd := make([]int, len(group))
			for gi, ph := range group {
				gd[gi] = c.fi.reg[ph]
				for _, v := range ph.Edges {
					gops[gi] = append(gops[gi], c.op(v))
				}
			}
			n := len(group)
			return func(e *Exec, g *G, f *Frame) status {
				k := idx[f.prev]
				if n == 1 {
					f.regs[d] = ops[k].get(e, f)
					return stNext
				}
				var tmp [16]Val
				t := tmp[:]
				if n > 16 {
					t = make([]Val, n)
				}
				for j := 0; j < n; j++ {
					t[j] = gops[j][k].get(e, f)
				}
				for j := 0; j < n; j++ {
					f.regs[gd[j]] = t[j]
				}
				return stNext
			}
		}
		return nil
	case *ssa.BinOp:
		return c.binop(x)
	case *ssa.UnOp:
		return c.unop(x)
	case *ssa.Call:
		return c.call(x)
	case *ssa.ChangeInterface:
		return c.mov(x, x.X)
	case *ssa.ChangeType:
		return c.mov(x, x.X)
	case *ssa.Convert:
		return c.convert(x, x.X)
	case *ssa.MultiConvert:
		return c.convert(x, x.X)
	case *ssa.Extract:
		d, s, k := c.fi.reg[x], c.op(x.Tuple), x.Index
		return func(e *Exec, g *G, f *Frame) status {
			f.regs[d] = s.get(e, f).x[k]
			return stNext
		}
	case *ssa.Field:
		d, s, k := c.fi.reg[x], c.op(x.X), x.Field
		return func(e *Exec, g *G, f *Frame) status {
			f.regs[d] = s.get(e, f).x[k]
			return stNext
		}
	case *ssa.FieldAddr:
		d, s := c.fi.reg[x], c.op(x.X)
		l := c.p.layout(x.X.Type().Underlying().(*types.Pointer).Elem())
		off := uint64(l.offs[x.Field])
		return func(e *Exec, g *G, f *Frame) status {
			p := s.get(e, f)
			if p.o == nil && p.t == nil && p.c == 0 {
				e.goPanicRuntime("invalid memory address or nil pointer dereference")
			}
			if p.t == nil {
				p.c += off
			} else {
				p = e.ptrAdd(p, Val{c: off})
			}
			f.regs[d] = p
			return stNext
		}
	case *ssa.Index:
		return c.index(x)
	case *ssa.IndexAddr:
		return c.indexAddr(x)
	case *ssa.If:
		s := c.op(x.Cond)
		t, fl := x.Block().Succs[0].Index, x.Block().Succs[1].Index
		return func(e *Exec, g *G, f *Frame) status {
			n := fl
			v := s.get(e, f)
			if v.t == nil {
				if v.c != 0 {
					n = t
				}
			} else if e.branch(v.t) {
				n = t
			}
			f.prev, f.blk, f.pc = f.blk, n, 0
			return stJump
		}
	case *ssa.Jump:
		t := x.Block().Succs[0].Index
		return func(e *Exec, g *G, f *Frame) status {
			f.prev, f.blk, f.pc = f.blk, t, 0
			return stJump
		}
	case *ssa.Return:
		var ops []*opnd
		for _, r := range x.Results {
			ops = append(ops, c.op(r))
		}
		switch len(ops) {
		case 0:
			return func(e *Exec, g *G, f *Frame) status { e.doReturn(g, f, Val{}); return stJump }
		case 1:
			o := ops[0]
			return func(e *Exec, g *G, f *Frame) status { e.doReturn(g, f, o.get(e, f)); return stJump }
		}
		return func(e *Exec, g *G, f *Frame) status {
			r := make([]Val, len(ops))
			for i, o := range ops {
				r[i] = o.get(e, f)
			}
			e.doReturn(g, f, Val{x: r})
			return stJump
		}
	case *ssa.RunDefers:
		return func(e *Exec, g *G, f *Frame) status {
			if n := len(f.defers); n > 0 {
				d := f.defers[n-1]
				f.defers = f.defers[:n-1]
				e.runDeferred(g, f, d)
				if g.ready != nil {
					return stBlock
				}
				return stJump // come back here (pc not advanced)
			}
			return stNext
		}
	case *ssa.Defer:
		if x.DeferStack != nil {
			panic("defer stack not supported in " + c.fi.name)
		}
		fnop, args := c.callOps(&x.Call)
		cc := &x.Call
		return func(e *Exec, g *G, f *Frame) status {
			d := deferred{call: cc}
			d.fn = fnop.get(e, f)
			for _, a := range args {
				d.args = append(d.args, a.get(e, f))
			}
			if cc.IsInvoke() && d.fn.o == nil {
				e.goPanicRuntime("invalid memory address or nil pointer dereference")
			}
			f.defers = append(f.defers, d)
			return stNext
		}
	case *ssa.Go:
		fnop, args := c.callOps(&x.Call)
		cc := &x.Call
		c.vis = true
		return func(e *Exec, g *G, f *Frame) status {
			fn := fnop.get(e, f)
			var as []Val
			for _, a := range args {
				as = append(as, a.get(e, f))
			}
			clo, as := e.resolveCall(cc, fn, as)
			ng := e.newG(g)
			if clo == nil {
				e.goPanicRuntime("go of nil func value")
			}
			e.pushCall(ng, clo, as, -1)
			return stNext
		}
	case *ssa.Panic:
		s := c.op(x.X)
		return func(e *Exec, g *G, f *Frame) status {
			panic(goPanic{v: s.get(e, f)})
		}
	case *ssa.Store:
		a, s := c.op(x.Addr), c.op(x.Val)
		l := c.p.layout(x.Val.Type())
		return func(e *Exec, g *G, f *Frame) status {
			e.store(a.get(e, f), s.get(e, f), l)
			return stNext
		}
	case *ssa.MakeInterface:
		d, s := c.fi.reg[x], c.op(x.X)
		tag := c.p.tag(x.X.Type())
		return func(e *Exec, g *G, f *Frame) status {
			f.regs[d] = Val{o: tag, x: []Val{s.get(e, f)}}
			return stNext
		}
	case *ssa.MakeClosure:
		d := c.fi.reg[x]
		fn := x.Fn.(*ssa.Function)
		var ops []*opnd
		for _, b := range x.Bindings {
			ops = append(ops, c.op(b))
		}
		return func(e *Exec, g *G, f *Frame) status {
			cl := &Closure{fn: fn}
			for _, o := range ops {
				cl.bind = append(cl.bind, o.get(e, f))
			}
			f.regs[d] = Val{o: cl}
			return stNext
		}
	case *ssa.MakeSlice:
		d, ln, cp := c.fi.reg[x], c.op(x.Len), c.op(x.Cap)
		l := c.p.layout(x.Type().Underlying().(*types.Slice).Elem())
		lw, cw := c.p.layout(x.Len.Type()), c.p.layout(x.Cap.Type())
		_ = lw
		_ = cw
		return func(e *Exec, g *G, f *Frame) status {
			f.regs[d] = e.makeSlice(l, ln.get(e, f), cp.get(e, f))
			return stNext
		}
	case *ssa.MakeMap:
		d := c.fi.reg[x]
		return func(e *Exec, g *G, f *Frame) status {
			e.nmaps++
			f.regs[d] = Val{o: &MapObj{id: e.nmaps, keys: map[string]int{}}}
			return stNext
		}
	case *ssa.MakeChan:
		d, s := c.fi.reg[x], c.op(x.Size)
		el := c.p.layout(x.Type().Underlying().(*types.Chan).Elem())
		return func(e *Exec, g *G, f *Frame) status {
			e.nmaps++
			n := e.concInt(s.get(e, f))
			if n < 0 || el.size > 0 && n > (1<<47)/el.size {
				e.goPanicRuntime("makechan: size out of range")
			}
			f.regs[d] = Val{o: &ChanObj{id: e.nmaps, cap: int(n)}}
			return stNext
		}
	case *ssa.MapUpdate:
		m, k, v := c.op(x.Map), c.op(x.Key), c.op(x.Value)
		mt := x.Map.Type().Underlying().(*types.Map)
		kt := mt.Key()
		return func(e *Exec, g *G, f *Frame) status {
			mo := m.get(e, f)
			if mo.o == nil {
				e.goPanicErr("assignment to entry in nil map")
			}
			e.mapSet(mo.o.(*MapObj), k.get(e, f), v.get(e, f), kt)
			return stNext
		}
	case *ssa.Lookup:
		return c.lookup(x)
	case *ssa.Range:
		d, s := c.fi.reg[x], c.op(x.X)
		isS := isString(x.X.Type())
		return func(e *Exec, g *G, f *Frame) status {
			v := s.get(e, f)
			it := &rangeIter{}
			if isS {
				it.s = str(v)
				it.isS = true
			} else if v.o != nil {
				it.m = v.o.(*MapObj)
				// the order is up to the run-time system: forwards or backwards for the
				// first few iterations over maps of the code under analysis
				if f.fi.repo && it.m.live > 1 && e.nrange < 3 {
					e.nrange++
					it.n = len(it.m.ents)
					it.rev = e.pickFresh("maporder:", 8, 1) == 1
				}
			}
			f.regs[d] = Val{o: it}
			return stNext
		}
	case *ssa.Next:
		d, s := c.fi.reg[x], c.op(x.Iter)
		tup := x.Type().(*types.Tuple)
		kz, vz := Val{}, Val{}
		if c.valid(tup.At(1).Type()) {
			kz = c.p.layout(tup.At(1).Type()).zero
		}
		if c.valid(tup.At(2).Type()) {
			vz = c.p.layout(tup.At(2).Type()).zero
		}
		return func(e *Exec, g *G, f *Frame) status {
			it := s.get(e, f).o.(*rangeIter)
			if it.isS {
				if it.pos >= len(it.s) {
					f.regs[d] = Val{x: []Val{{}, kz, vz}}
					return stNext
				}
				for i, r := range it.s[it.pos:] {
					_ = i
					p := it.pos
					it.pos += len(string(r))
					if r == 0xfffd {
						it.pos = p + 1
					}
					f.regs[d] = Val{x: []Val{{c: 1}, {c: uint64(p)}, {c: uint64(uint32(r))}}}
					break
				}
				return stNext
			}
			for it.m != nil && it.pos < len(it.m.ents) {
				en := it.m.ents[it.pos]
				if it.rev && it.pos < it.n {
					en = it.m.ents[it.n-1-it.pos]
				}
				it.pos++
				if en.ok {
					f.regs[d] = Val{x: []Val{{c: 1}, en.k, en.v}}
					return stNext
				}
			}
			f.regs[d] = Val{x: []Val{{}, kz, vz}}
			return stNext
		}
	case *ssa.Slice:
		return c.slice(x)
	case *ssa.SliceToArrayPointer:
		d, s := c.fi.reg[x], c.op(x.X)
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		return func(e *Exec, g *G, f *Frame) status {
			v := s.get(e, f)
			if sliceLen(e, v) < n {
				e.goPanicRuntime("cannot convert slice to array pointer: length too short")
			}
			f.regs[d] = Val{o: v.o, t: v.t, c: v.c}
			return stNext
		}
	case *ssa.TypeAssert:
		return c.typeAssert(x)
	case *ssa.Send:
		ch, s := c.op(x.Chan), c.op(x.X)
		c.vis = true
		return func(e *Exec, g *G, f *Frame) status {
			return e.chanSend(g, ch.get(e, f), s.get(e, f))
		}
	case *ssa.Select:
		c.vis = true
		return c.selectIns(x)
	}
	panic(fmt.Sprintf("instruction %T in %s", i, c.fi.name))
}

func (c *compiler) valid(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return !ok || b.Kind() != types.Invalid
}

type rangeIter struct {
	n   int  // entries when the iteration began
	rev bool // backwards
	m   *MapObj
	pos int
	s   string
	isS bool
}

func (c *compiler) mov(d ssa.Value, s ssa.Value) runFn {
	dr, so := c.fi.reg[d], c.op(s)
	return func(e *Exec, g *G, f *Frame) status {
		f.regs[dr] = so.get(e, f)
		return stNext
	}
}

// ---- arithmetic ----

func (c *compiler) binop(x *ssa.BinOp) runFn {
	d, a, b := c.fi.reg[x], c.op(x.X), c.op(x.Y)
	tx := x.X.Type()
	l := c.p.layout(tx)
	switch x.Op {
	case token.EQL, token.NEQ:
		neg := x.Op == token.NEQ
		if l.kind == lkInt && !l.float {
			w := l.w
			return func(e *Exec, g *G, f *Frame) status {
				p, q := a.get(e, f), b.get(e, f)
				if p.t == nil && q.t == nil && p.o == nil && q.o == nil {
					f.regs[d] = Val{c: b2u((p.c == q.c) != neg)}
					return stNext
				}
				t := e.tb.Eq(e.term(p, w), e.term(q, w))
				if neg {
					t = e.tb.Not(t)
				}
				f.regs[d] = e.fromTerm(t)
				return stNext
			}
		}
		ty := x.Y.Type()
		return func(e *Exec, g *G, f *Frame) status {
			t := e.equal(a.get(e, f), b.get(e, f), tx, ty)
			if neg {
				t = e.tb.Not(t)
			}
			f.regs[d] = e.fromTerm(t)
			return stNext
		}
	}
	if l.kind == lkString {
		op := x.Op
		return func(e *Exec, g *G, f *Frame) status {
			p, q := str(a.get(e, f)), str(b.get(e, f))
			switch op {
			case token.ADD:
				f.regs[d] = mkStr(p + q)
			case token.LSS:
				f.regs[d] = Val{c: b2u(p < q)}
			case token.LEQ:
				f.regs[d] = Val{c: b2u(p <= q)}
			case token.GTR:
				f.regs[d] = Val{c: b2u(p > q)}
			case token.GEQ:
				f.regs[d] = Val{c: b2u(p >= q)}
			}
			return stNext
		}
	}
	if l.kind == lkBool { // & | on bools do not exist in Go; keep for completeness
		panic("bool binop")
	}
	w := l.w
	if l.kind != lkInt {
		panic(fmt.Sprintf("binop %s on %s", x.Op, tx))
	}
	if l.float {
		return c.fbinop(x, d, a, b, w)
	}
	sg := l.signed
	var op Op
	swap, cmp := false, false
	switch x.Op {
	case token.ADD:
		op = OpAdd
	case token.SUB:
		op = OpSub
	case token.MUL:
		op = OpMul
	case token.QUO, token.REM:
		if sg {
			op = OpSDiv
			if x.Op == token.REM {
				op = OpSRem
			}
		} else {
			op = OpUDiv
			if x.Op == token.REM {
				op = OpURem
			}
		}
		return func(e *Exec, g *G, f *Frame) status {
			p, q := a.get(e, f), b.get(e, f)
			if q.t == nil {
				if q.c == 0 && q.o == nil {
					e.goPanicRuntime("integer divide by zero")
				}
			} else if e.branch(e.tb.Eq(q.t, e.tb.Const(w, 0))) {
				e.goPanicRuntime("integer divide by zero")
			}
			f.regs[d] = e.arith(op, w, p, q)
			return stNext
		}
	case token.AND:
		op = OpBAnd
	case token.OR:
		op = OpBOr
	case token.XOR:
		op = OpBXor
	case token.AND_NOT:
		return func(e *Exec, g *G, f *Frame) status {
			p, q := a.get(e, f), b.get(e, f)
			nq := e.arith(OpBXor, w, q, Val{c: mask(w)})
			f.regs[d] = e.arith(OpBAnd, w, p, nq)
			return stNext
		}
	case token.SHL, token.SHR:
		op = OpShl
		if x.Op == token.SHR {
			op = OpLShr
			if sg {
				op = OpAShr
			}
		}
		ly := c.p.layout(x.Y.Type())
		wy, sy := ly.w, ly.signed
		return func(e *Exec, g *G, f *Frame) status {
			p, q := a.get(e, f), b.get(e, f)
			if sy {
				if q.t == nil {
					if sext(q.c, wy) < 0 {
						e.goPanicRuntime("negative shift amount")
					}
				} else if e.branch(e.tb.Bin(OpSLt, q.t, e.tb.Const(wy, 0))) {
					e.goPanicRuntime("negative shift amount")
				}
			}
			// bring the amount to width w, saturating
			if q.t == nil {
				if q.c > 255 {
					q.c = 255
				}
				if q.c >= uint64(w) && w < 8 {
					q.c = uint64(w)
				}
			} else if wy > w {
				big := e.tb.Bin(OpULt, e.tb.Const(wy, uint64(w)), q.t)
				q = e.fromTerm(e.tb.Ite(big, e.tb.Const(w, uint64(w)), e.tb.Extract(q.t, w-1, 0)))
			} else if wy < w {
				q = e.fromTerm(e.tb.ZExt(q.t, w))
			}
			f.regs[d] = e.arith(op, w, p, q)
			return stNext
		}
	case token.LSS:
		op, cmp = OpULt, true
	case token.LEQ:
		op, cmp = OpULe, true
	case token.GTR:
		op, cmp, swap = OpULt, true, true
	case token.GEQ:
		op, cmp, swap = OpULe, true, true
	default:
		panic("binop " + x.Op.String())
	}
	if cmp {
		if sg {
			if op == OpULt {
				op = OpSLt
			} else {
				op = OpSLe
			}
		}
		return func(e *Exec, g *G, f *Frame) status {
			p, q := a.get(e, f), b.get(e, f)
			if swap {
				p, q = q, p
			}
			if p.t == nil && q.t == nil && p.o == nil && q.o == nil {
				f.regs[d] = Val{c: evalOp(op, 0, w, 0, p.c, q.c, 0)}
				return stNext
			}
			f.regs[d] = e.fromTerm(e.tb.Bin(op, e.term(p, w), e.term(q, w)))
			return stNext
		}
	}
	return func(e *Exec, g *G, f *Frame) status {
		p, q := a.get(e, f), b.get(e, f)
		f.regs[d] = e.arith(op, w, p, q)
		return stNext
	}
}

func (e *Exec) arith(op Op, w uint8, p, q Val) Val {
	if p.o == nil && q.o == nil {
		if p.t == nil && q.t == nil {
			switch op {
			case OpAdd:
				return Val{c: (p.c + q.c) & mask(w)}
			case OpSub:
				return Val{c: (p.c - q.c) & mask(w)}
			}
			return Val{c: evalOp(op, w, w, 0, p.c&mask(w), q.c&mask(w), 0)}
		}
		return e.fromTerm(e.tb.Bin(op, e.term(p, w), e.term(q, w)))
	}
	// pointer provenance in uintptr arithmetic
	if op == OpAdd && q.o == nil {
		return e.ptrAdd(p, q)
	}
	if op == OpAdd && p.o == nil {
		return e.ptrAdd(q, p)
	}
	if op == OpSub && q.o == nil {
		nq := e.arith(OpSub, 64, Val{}, q)
		return e.ptrAdd(p, nq)
	}
	if op == OpSub && p.o == q.o {
		return e.arith(OpSub, 64, Val{t: p.t, c: p.c}, Val{t: q.t, c: q.c})
	}
	return e.fromTerm(e.tb.Bin(op, e.term(p, w), e.term(q, w)))
}

func (c *compiler) fbinop(x *ssa.BinOp, d int, a, b *opnd, w uint8) runFn {
	var op Op
	cmp, swap := false, false
	switch x.Op {
	case token.ADD:
		op = OpFAdd
	case token.SUB:
		op = OpFSub
	case token.MUL:
		op = OpFMul
	case token.QUO:
		op = OpFDiv
	case token.LSS:
		op, cmp = OpFLt, true
	case token.LEQ:
		op, cmp = OpFLe, true
	case token.GTR:
		op, cmp, swap = OpFLt, true, true
	case token.GEQ:
		op, cmp, swap = OpFLe, true, true
	default:
		panic("fbinop")
	}
	return func(e *Exec, g *G, f *Frame) status {
		p, q := a.get(e, f), b.get(e, f)
		if swap {
			p, q = q, p
		}
		if p.t == nil && q.t == nil {
			ww := w
			if cmp {
				ww = 0
			}
			f.regs[d] = Val{c: evalOp(op, ww, w, 0, p.c, q.c, 0)}
			return stNext
		}
		f.regs[d] = e.fromTerm(e.tb.Bin(op, e.term(p, w), e.term(q, w)))
		return stNext
	}
}

func (c *compiler) unop(x *ssa.UnOp) runFn {
	d, s := c.fi.reg[x], c.op(x.X)
	switch x.Op {
	case token.MUL:
		// loads that only serve Sizeof/Offsetof/Alignof are not evaluated
		only := x.Referrers() != nil && len(*x.Referrers()) > 0
		if only {
			for _, r := range *x.Referrers() {
				ok := false
				if cl, isC := r.(*ssa.Call); isC {
					if bi, isB := cl.Call.Value.(*ssa.Builtin); isB && (bi.Name() == "Sizeof" || bi.Name() == "Offsetof" || bi.Name() == "Alignof") {
						ok = true
					}
				}
				if !ok {
					only = false
				}
			}
		}
		if only {
			return nil
		}
		l := c.p.layout(x.Type())
		if gl, ok := x.X.(*ssa.Global); ok && gl.Name() == "InTest" {
			_ = gl
		}
		return func(e *Exec, g *G, f *Frame) status {
			f.regs[d] = e.load(s.get(e, f), l)
			return stNext
		}
	case token.NOT:
		return func(e *Exec, g *G, f *Frame) status {
			v := s.get(e, f)
			if v.t == nil {
				f.regs[d] = Val{c: v.c ^ 1}
			} else {
				f.regs[d] = e.fromTerm(e.tb.Not(v.t))
			}
			return stNext
		}
	case token.SUB:
		l := c.p.layout(x.Type())
		w := l.w
		if l.float {
			return func(e *Exec, g *G, f *Frame) status {
				v := s.get(e, f)
				if v.t == nil {
					f.regs[d] = Val{c: v.c ^ (1 << (w - 1))}
				} else {
					f.regs[d] = e.fromTerm(e.tb.FNeg(v.t))
				}
				return stNext
			}
		}
		return func(e *Exec, g *G, f *Frame) status {
			f.regs[d] = e.arith(OpSub, w, Val{}, s.get(e, f))
			return stNext
		}
	case token.XOR:
		w := c.p.layout(x.Type()).w
		return func(e *Exec, g *G, f *Frame) status {
			f.regs[d] = e.arith(OpBXor, w, s.get(e, f), Val{c: mask(w)})
			return stNext
		}
	case token.ARROW:
		c.vis = true
		comma := x.CommaOk
		var el types.Type = x.X.Type().Underlying().(*types.Chan).Elem()
		z := c.p.layout(el).zero
		return func(e *Exec, g *G, f *Frame) status {
			v, ok, st := e.chanRecv(g, s.get(e, f), z)
			if st != stNext {
				return st
			}
			if comma {
				f.regs[d] = Val{x: []Val{v, {c: b2u(ok)}}}
			} else {
				f.regs[d] = v
			}
			return stNext
		}
	}
	panic("unop " + x.Op.String())
}

// equal compares two values of (possibly different, one interface) types.
func (e *Exec) equal(p, q Val, tx, ty types.Type) *Term {
	tb := e.tb
	l := e.p.layout(tx)
	switch l.kind {
	case lkBool:
		return tb.Eq(e.boolTerm(p), e.boolTerm(q))
	case lkInt:
		if l.float {
			return tb.Bin(OpFEq, e.term(p, l.w), e.term(q, l.w))
		}
		return tb.Eq(e.term(p, l.w), e.term(q, l.w))
	case lkString:
		return tb.Bool(str(p) == str(q))
	case lkPtr:
		if p.o == nil && q.o == nil {
			return tb.Eq(e.term(p, 64), e.term(q, 64))
		}
		if p.o != q.o {
			if p.o == nil && p.t == nil && p.c != 0 || q.o == nil && q.t == nil && q.c != 0 {
				p, q = e.ptrFromInt(p), e.ptrFromInt(q)
				if p.o == q.o {
					return tb.Eq(e.term(Val{t: p.t, c: p.c}, 64), e.term(Val{t: q.t, c: q.c}, 64))
				}
			}
			return tb.False
		}
		return tb.Eq(e.term(Val{t: p.t, c: p.c}, 64), e.term(Val{t: q.t, c: q.c}, 64))
	case lkFunc, lkSlice:
		if l.kind == lkSlice {
			return tb.Bool(isNilSlice(p) && isNilSlice(q))
		}
		return tb.Bool(p.o == q.o)
	case lkIface:
		if _, isI := ty.Underlying().(*types.Interface); !isI {
			panic("mixed interface comparison")
		}
		if p.o == nil || q.o == nil {
			return tb.Bool(p.o == nil && q.o == nil)
		}
		if p.o != q.o {
			return tb.False
		}
		tg := p.o.(*TypeTag)
		if !types.Comparable(tg.t) {
			e.goPanicRuntime("comparing uncomparable type " + tg.t.String())
		}
		return e.equal(p.x[0], q.x[0], tg.t, tg.t)
	case lkStruct:
		r := tb.True
		st := tx.Underlying().(*types.Struct)
		for i := range l.fields {
			if st.Field(i).Name() == "_" {
				continue
			}
			r = tb.And(r, e.equal(p.x[i], q.x[i], l.fields[i].typ, l.fields[i].typ))
		}
		return r
	case lkArray:
		r := tb.True
		for i := range p.x {
			r = tb.And(r, e.equal(p.x[i], q.x[i], l.elem.typ, l.elem.typ))
		}
		return r
	}
	panic("equal")
}

func isNilSlice(v Val) bool { return v.o == nil && v.t == nil && v.c == 0 }

// ---- conversions ----

func (c *compiler) convert(x ssa.Value, src ssa.Value) runFn {
	d, s := c.fi.reg[x], c.op(src)
	tf, tt := src.Type(), x.Type()
	lf, lt := c.p.layout(tf), c.p.layout(tt)
	switch {
	case lf.kind == lkInt && lt.kind == lkInt:
		return func(e *Exec, g *G, f *Frame) status {
			f.regs[d] = e.convNum(s.get(e, f), lf, lt)
			return stNext
		}
	case lf.kind == lkPtr && lt.kind == lkPtr:
		return c.mov(x, src)
	case lf.kind == lkPtr && lt.kind == lkInt:
		return c.mov(x, src)
	case lf.kind == lkInt && lt.kind == lkPtr:
		return func(e *Exec, g *G, f *Frame) status {
			v := s.get(e, f)
			if v.o == nil && (v.c != 0 || v.t != nil) {
				v = e.ptrFromInt(v)
			}
			f.regs[d] = v
			return stNext
		}
	case lf.kind == lkString && lt.kind == lkSlice:
		es := c.p.layout(tt.Underlying().(*types.Slice).Elem())
		return func(e *Exec, g *G, f *Frame) status {
			st := str(s.get(e, f))
			if es.size == 1 {
				f.regs[d] = e.bytesVal([]byte(st))
				return stNext
			}
			rs := []rune(st)
			o := e.newObj(int64(4*len(rs)), "[]rune")
			for i, r := range rs {
				e.storeCell(o, int64(4*i), 4, Val{c: uint64(uint32(r))})
			}
			f.regs[d] = Val{o: o, x: []Val{{c: uint64(len(rs))}, {c: uint64(len(rs))}}}
			return stNext
		}
	case lf.kind == lkSlice && lt.kind == lkString:
		es := c.p.layout(tf.Underlying().(*types.Slice).Elem())
		return func(e *Exec, g *G, f *Frame) status {
			v := s.get(e, f)
			if es.size == 1 {
				if len(v.x) == 0 || isNilSlice(v) {
					f.regs[d] = Val{}
				} else {
					f.regs[d] = e.stringFrom(Val{o: v.o, t: v.t, c: v.c}, v.x[0])
				}
				return stNext
			}
			n := sliceLen(e, v)
			var rs []rune
			for i := int64(0); i < n; i++ {
				ev := e.load(e.ptrAdd(Val{o: v.o, t: v.t, c: v.c}, Val{c: uint64(4 * i)}), es)
				rs = append(rs, rune(int32(e.concInt(ev))))
			}
			f.regs[d] = mkStr(string(rs))
			return stNext
		}
	case lf.kind == lkInt && lt.kind == lkString:
		return func(e *Exec, g *G, f *Frame) status {
			v := s.get(e, f)
			cv := v.c
			if v.t != nil {
				cv = e.concretize(v.t)
			}
			f.regs[d] = mkStr(string(rune(sext(cv, lf.w))))
			return stNext
		}
	case lf.kind == lt.kind:
		return c.mov(x, src)
	}
	panic(fmt.Sprintf("convert %s -> %s", tf, tt))
}

func (e *Exec) convNum(v Val, lf, lt *Layout) Val {
	tb := e.tb
	switch {
	case !lf.float && !lt.float:
		if v.o != nil {
			if lt.w == 64 {
				return v
			}
			v = e.fromTerm(e.scalarBits(v, 64))
		}
		if v.t == nil {
			if lf.signed {
				return Val{c: uint64(sext(v.c, lf.w)) & mask(lt.w)}
			}
			return Val{c: v.c & mask(lt.w)}
		}
		switch {
		case lt.w == lf.w:
			return v
		case lt.w < lf.w:
			return e.fromTerm(tb.Extract(v.t, lt.w-1, 0))
		case lf.signed:
			return e.fromTerm(tb.SExt(v.t, lt.w))
		default:
			return e.fromTerm(tb.ZExt(v.t, lt.w))
		}
	case lf.float && lt.float:
		if v.t == nil {
			return Val{c: evalOp(OpF2F, lt.w, lf.w, 0, v.c, 0, 0)}
		}
		if lf.w == lt.w {
			return v
		}
		return e.fromTerm(tb.Un(OpF2F, lt.w, v.t))
	case !lf.float && lt.float:
		if v.o != nil {
			v = e.fromTerm(e.scalarBits(v, 64))
		}
		op := OpU2F
		if lf.signed {
			op = OpS2F
		}
		if v.t == nil {
			return Val{c: evalOp(op, lt.w, lf.w, 0, v.c, 0, 0)}
		}
		return e.fromTerm(tb.Un(op, lt.w, v.t))
	default:
		if v.t == nil {
			return Val{c: f2iConcrete(toF(v.c, lf.w), lt)}
		}
		// out-of-range conversions are implementation-defined: decide on the range first
		if lt.signed {
			return e.fromTerm(tb.Un(OpF2S, lt.w, v.t))
		}
		return e.fromTerm(tb.Un(OpF2U, lt.w, v.t))
	}
}

func f2iConcrete(x float64, lt *Layout) uint64 {
	if lt.signed {
		switch lt.w {
		case 64:
			return uint64(int64(x))
		case 32:
			return uint64(uint32(int32(x)))
		case 16:
			return uint64(uint16(int16(x)))
		}
		return uint64(uint8(int8(x)))
	}
	switch lt.w {
	case 64:
		return uint64(x)
	case 32:
		return uint64(uint32(x))
	case 16:
		return uint64(uint16(x))
	}
	return uint64(uint8(x))
}

func (e *Exec) bytesVal(b []byte) Val {
	o := e.newObj(int64(len(b)), "[]byte")
	for i, c := range b {
		e.storeCell(o, int64(i), 1, Val{c: uint64(c)})
	}
	n := Val{c: uint64(len(b))}
	return Val{o: o, x: []Val{n, n}}
}

// ---- slices, arrays, strings ----

func sliceLen(e *Exec, v Val) int64 {
	if len(v.x) < 2 {
		return 0
	}
	if v.x[0].t != nil {
		return int64(e.concretize(v.x[0].t))
	}
	return int64(v.x[0].c)
}

func sliceCap(e *Exec, v Val) int64 {
	if len(v.x) < 2 {
		return 0
	}
	if v.x[1].t != nil {
		return int64(e.concretize(v.x[1].t))
	}
	return int64(v.x[1].c)
}

func (e *Exec) makeSlice(l *Layout, ln, cp Val) Val {
	var n, c int64
	if ln.t != nil {
		n = sext(e.concretize(ln.t), ln.t.w)
	} else {
		n = int64(ln.c)
	}
	if cp.t != nil {
		c = sext(e.concretize(cp.t), cp.t.w)
	} else {
		c = int64(cp.c)
	}
	if n < 0 || l.size > 0 && n > (1<<47)/l.size {
		e.goPanicRuntime("makeslice: len out of range")
	}
	if c < n || l.size > 0 && c > (1<<47)/l.size {
		e.goPanicRuntime("makeslice: cap out of range")
	}
	if e.memLimit > 0 && c*l.size > e.memLimit {
		e.abort("unsupported", fmt.Sprintf("allocation of %d bytes", c*l.size))
	}
	o := e.newObj(l.size*c, "slice of "+l.typ.String())
	return Val{o: o, x: []Val{{c: uint64(n)}, {c: uint64(c)}}}
}

// checkIndex panics unless 0 <= i < n (n concrete); returns the 64-bit index.
func (e *Exec) checkIndex(i Val, l *Layout, n int64) Val {
	i = e.widen(i, l)
	if i.t == nil {
		if i.c >= uint64(n) {
			e.goPanicRuntime(fmt.Sprintf("index out of range [%d] with length %d", int64(i.c), n))
		}
		return i
	}
	if !e.branch(e.tb.Bin(OpULt, i.t, e.tb.Const(64, uint64(n)))) {
		e.goPanicRuntime(fmt.Sprintf("index out of range [symbolic] with length %d", n))
	}
	return i
}

func (e *Exec) widen(i Val, l *Layout) Val {
	if i.o != nil {
		return e.fromTerm(e.scalarBits(i, 64))
	}
	if i.t == nil {
		if l.signed {
			i.c = uint64(sext(i.c, l.w))
		}
		return i
	}
	if l.w == 64 {
		return i
	}
	if l.signed {
		return e.fromTerm(e.tb.SExt(i.t, 64))
	}
	return e.fromTerm(e.tb.ZExt(i.t, 64))
}

func (c *compiler) indexAddr(x *ssa.IndexAddr) runFn {
	d, s, ix := c.fi.reg[x], c.op(x.X), c.op(x.Index)
	li := c.p.layout(x.Index.Type())
	switch t := x.X.Type().Underlying().(type) {
	case *types.Slice:
		es := c.p.layout(t.Elem()).size
		return func(e *Exec, g *G, f *Frame) status {
			v := s.get(e, f)
			i := ix.get(e, f)
			if i.t == nil && len(v.x) == 2 && v.x[0].t == nil && v.t == nil && i.c < v.x[0].c && i.o == nil {
				f.regs[d] = Val{o: v.o, c: v.c + i.c*uint64(es)}
				return stNext
			}
			i = e.checkIndex(i, li, sliceLen(e, v))
			f.regs[d] = e.ptrAdd(Val{o: v.o, t: v.t, c: v.c}, e.scale(i, es))
			return stNext
		}
	case *types.Pointer:
		at := t.Elem().Underlying().(*types.Array)
		n := at.Len()
		es := c.p.layout(at.Elem()).size
		return func(e *Exec, g *G, f *Frame) status {
			v := s.get(e, f)
			if v.o == nil && v.t == nil && v.c == 0 {
				e.goPanicRuntime("invalid memory address or nil pointer dereference")
			}
			i := e.checkIndex(ix.get(e, f), li, n)
			f.regs[d] = e.ptrAdd(v, e.scale(i, es))
			return stNext
		}
	}
	panic("indexAddr")
}

func (e *Exec) scale(i Val, n int64) Val {
	if i.t == nil {
		return Val{c: i.c * uint64(n)}
	}
	return e.arith(OpMul, 64, i, Val{c: uint64(n)})
}

func (c *compiler) index(x *ssa.Index) runFn {
	d, s, ix := c.fi.reg[x], c.op(x.X), c.op(x.Index)
	li := c.p.layout(x.Index.Type())
	isS := isString(x.X.Type())
	return func(e *Exec, g *G, f *Frame) status {
		v := s.get(e, f)
		if isS {
			st := str(v)
			i := e.checkIndex(ix.get(e, f), li, int64(len(st)))
			f.regs[d] = Val{c: uint64(st[e.concInt(i)])}
			return stNext
		}
		i := e.checkIndex(ix.get(e, f), li, int64(len(v.x)))
		f.regs[d] = v.x[e.concInt(i)]
		return stNext
	}
}

func (c *compiler) slice(x *ssa.Slice) runFn {
	d, s := c.fi.reg[x], c.op(x.X)
	get := func(v ssa.Value) (*opnd, *Layout) {
		if v == nil {
			return nil, nil
		}
		return c.op(v), c.p.layout(v.Type())
	}
	lo, llo := get(x.Low)
	hi, lhi := get(x.High)
	mx, lmx := get(x.Max)
	conc := func(e *Exec, f *Frame, o *opnd, l *Layout) int64 {
		v := e.widen(o.get(e, f), l)
		if v.t != nil {
			return int64(e.concretize(v.t))
		}
		return int64(v.c)
	}
	switch t := x.X.Type().Underlying().(type) {
	case *types.Basic: // string
		return func(e *Exec, g *G, f *Frame) status {
			st := str(s.get(e, f))
			a, b := int64(0), int64(len(st))
			if lo != nil {
				a = conc(e, f, lo, llo)
			}
			if hi != nil {
				b = conc(e, f, hi, lhi)
			}
			if b < 0 || b > int64(len(st)) || a < 0 || a > b {
				e.goPanicRuntime("slice bounds out of range")
			}
			f.regs[d] = mkStr(st[a:b])
			return stNext
		}
	case *types.Slice, *types.Pointer:
		var es, n int64
		ptr := false
		if pt, ok := t.(*types.Pointer); ok {
			at := pt.Elem().Underlying().(*types.Array)
			es, n, ptr = c.p.layout(at.Elem()).size, at.Len(), true
		} else {
			es = c.p.layout(t.(*types.Slice).Elem()).size
		}
		return func(e *Exec, g *G, f *Frame) status {
			v := s.get(e, f)
			var ln, cp int64
			if ptr {
				if v.o == nil && v.t == nil && v.c == 0 {
					e.goPanicRuntime("invalid memory address or nil pointer dereference")
				}
				ln, cp = n, n
			} else {
				ln, cp = sliceLen(e, v), sliceCap(e, v)
			}
			a, b, m := int64(0), ln, cp
			if mx != nil {
				m = conc(e, f, mx, lmx)
				if m < 0 || m > cp {
					e.goPanicRuntime(fmt.Sprintf("slice bounds out of range [::%d] with capacity %d", m, cp))
				}
			}
			if hi != nil {
				b = conc(e, f, hi, lhi)
				if b < 0 || b > m {
					e.goPanicRuntime(fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", b, m))
				}
			} else if b > m {
				e.goPanicRuntime("slice bounds out of range")
			}
			if lo != nil {
				a = conc(e, f, lo, llo)
				if a < 0 || a > b {
					e.goPanicRuntime(fmt.Sprintf("slice bounds out of range [%d:%d]", a, b))
				}
			}
			base := Val{o: v.o, t: v.t, c: v.c}
			if a > 0 && m-a > 0 {
				base = e.ptrAdd(base, Val{c: uint64(a * es)})
			}
			base.x = []Val{{c: uint64(b - a)}, {c: uint64(m - a)}}
			f.regs[d] = base
			return stNext
		}
	}
	panic("slice")
}

// ---- maps ----

func (e *Exec) mapKey(k Val, t types.Type) string {
	l := e.p.layout(t)
	switch l.kind {
	case lkString:
		return "s" + str(k)
	case lkInt, lkBool, lkPtr:
		if ob, ok := k.o.(*Obj); ok {
			off := k.c
			if k.t != nil {
				off = e.concretize(k.t)
			}
			return fmt.Sprintf("p%d.%d", e.objID(ob), off)
		}
		c := k.c
		if k.t != nil {
			c = e.concretize(k.t)
		}
		if l.float && toF(c, l.w) == 0 {
			c = 0
		}
		return fmt.Sprintf("i%d", c)
	case lkIface:
		if k.o == nil {
			return "nil"
		}
		tg := k.o.(*TypeTag)
		if !types.Comparable(tg.t) {
			e.goPanicRuntime("hash of unhashable type " + tg.t.String())
		}
		return fmt.Sprintf("t%d:%s", tg.id, e.mapKey(k.x[0], tg.t))
	case lkStruct:
		s := "{"
		for i, f := range l.fields {
			s += e.mapKey(k.x[i], f.typ) + ";"
		}
		return s + "}"
	case lkArray:
		s := "["
		for i := range k.x {
			s += e.mapKey(k.x[i], l.elem.typ) + ";"
		}
		return s + "]"
	case lkFunc:
		return fmt.Sprintf("f%p", k.o)
	}
	e.abort("unsupported", "map key "+t.String())
	return ""
}

func (e *Exec) mapSet(m *MapObj, k, v Val, kt types.Type) {
	ks := e.mapKey(k, kt)
	e.accessMap(m, true)
	if i, ok := m.keys[ks]; ok {
		m.ents[i].v = v
		return
	}
	m.keys[ks] = len(m.ents)
	m.ents = append(m.ents, mapEnt{k, v, true})
	m.live++
}

func (e *Exec) mapGet(m *MapObj, k Val, kt types.Type) (Val, bool) {
	ks := e.mapKey(k, kt)
	if m == nil {
		return Val{}, false
	}
	e.accessMap(m, false)
	if i, ok := m.keys[ks]; ok {
		return m.ents[i].v, true
	}
	return Val{}, false
}

func (e *Exec) mapDelete(m *MapObj, k Val, kt types.Type) {
	ks := e.mapKey(k, kt)
	if m == nil {
		return
	}
	e.accessMap(m, true)
	if i, ok := m.keys[ks]; ok {
		m.ents[i].ok = false
		delete(m.keys, ks)
		m.live--
	}
}

func (c *compiler) lookup(x *ssa.Lookup) runFn {
	d, s, ix := c.fi.reg[x], c.op(x.X), c.op(x.Index)
	if isString(x.X.Type()) {
		li := c.p.layout(x.Index.Type())
		return func(e *Exec, g *G, f *Frame) status {
			st := str(s.get(e, f))
			i := e.checkIndex(ix.get(e, f), li, int64(len(st)))
			f.regs[d] = Val{c: uint64(st[e.concInt(i)])}
			return stNext
		}
	}
	mt := x.X.Type().Underlying().(*types.Map)
	kt := mt.Key()
	z := c.p.layout(mt.Elem()).zero
	comma := x.CommaOk
	return func(e *Exec, g *G, f *Frame) status {
		var m *MapObj
		if v := s.get(e, f); v.o != nil {
			m = v.o.(*MapObj)
		}
		v, ok := e.mapGet(m, ix.get(e, f), kt)
		if !ok {
			v = z
		}
		if comma {
			f.regs[d] = Val{x: []Val{v, {c: b2u(ok)}}}
		} else {
			f.regs[d] = v
		}
		return stNext
	}
}

// ---- types ----

func (p *Prog) tag(t types.Type) *TypeTag {
	if v, ok := p.tagBy.Load(t); ok {
		return v.(*TypeTag)
	}
	t0 := t
	t = types.Unalias(t)
	key := typeHasher.Hash(t)
	p.tagMu.Lock()
	defer p.tagMu.Unlock()
	for _, c := range p.tags[key] {
		if types.Identical(c.t, t) {
			p.tagBy.Store(t0, c)
			return c
		}
	}
	p.ntags++
	tg := &TypeTag{t: t, id: p.ntags}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Chan, *types.Map, *types.Signature:
		tg.ptrLike = true
	case *types.Basic:
		tg.ptrLike = t.Underlying().(*types.Basic).Kind() == types.UnsafePointer
	}
	p.tags[key] = append(p.tags[key], tg)
	p.tagBy.Store(t0, tg)
	return tg
}

type implKey struct {
	tag *TypeTag
	it  types.Type
}

func (p *Prog) implements(tg *TypeTag, it types.Type) bool {
	k := implKey{tg, it}
	if v, ok := p.impls.Load(k); ok {
		return v.(bool)
	}
	r := types.Implements(tg.t, it.Underlying().(*types.Interface))
	p.impls.Store(k, r)
	return r
}

func (c *compiler) typeAssert(x *ssa.TypeAssert) runFn {
	d, s := c.fi.reg[x], c.op(x.X)
	at := x.AssertedType
	_, isI := at.Underlying().(*types.Interface)
	var tag *TypeTag
	if !isI {
		tag = c.p.tag(at)
	}
	z := c.p.layout(at).zero
	comma := x.CommaOk
	p := c.p
	return func(e *Exec, g *G, f *Frame) status {
		v := s.get(e, f)
		ok := false
		var r Val
		if v.o != nil {
			tg := v.o.(*TypeTag)
			if isI {
				if p.implements(tg, at) {
					ok, r = true, v
				}
			} else if tg == tag {
				ok, r = true, v.x[0]
			}
		}
		if !ok {
			if !comma {
				have := "nil"
				if v.o != nil {
					have = v.o.(*TypeTag).t.String()
				}
				e.goPanicErr(fmt.Sprintf("interface conversion: interface is %s, not %s", have, at))
			}
			r = z
		}
		if comma {
			f.regs[d] = Val{x: []Val{r, {c: b2u(ok)}}}
		} else {
			f.regs[d] = r
		}
		return stNext
	}
}

func (e *Exec) method(tg *TypeTag, m *types.Func) *ssa.Function {
	k := mkey{tg, m}
	if fn, ok := e.mcache[k]; ok {
		return fn
	}
	e.p.methMu.Lock()
	fn := e.p.ssa.LookupMethod(tg.t, m.Pkg(), m.Name())
	e.p.methMu.Unlock()
	e.mcache[k] = fn
	return fn
}

// ---- calls ----

type callCtx struct {
	args []Val
	call *ssa.CallCommon
	fn   *ssa.Function
	dst  int
	pos  token.Pos
}

func (c *compiler) callOps(cc *ssa.CallCommon) (*opnd, []*opnd) {
	var args []*opnd
	for _, a := range cc.Args {
		args = append(args, c.op(a))
	}
	return c.op(cc.Value), args
}

// resolveCall turns a call's callee value into a closure and full argument list.
func (e *Exec) resolveCall(cc *ssa.CallCommon, fn Val, args []Val) (*Closure, []Val) {
	if cc.IsInvoke() {
		if fn.o == nil {
			e.goPanicRuntime("invalid memory address or nil pointer dereference")
		}
		tg := fn.o.(*TypeTag)
		m := e.method(tg, cc.Method)
		if m == nil {
			e.abort("unsupported", "method "+cc.Method.FullName()+" not found on "+tg.t.String())
		}
		return e.p.closureOf(m), append([]Val{fn.x[0]}, args...)
	}
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		return &Closure{native: func(e *Exec, g *G, as []Val) (Val, bool) {
			return e.builtinVals(g, bi, cc, as), true
		}}, args
	}
	if fn.o == nil {
		return nil, args
	}
	return fn.o.(*Closure), args
}

func (c *compiler) call(x *ssa.Call) runFn {
	d := c.fi.reg[x]
	cc := &x.Call
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		return c.builtin(x, bi, d)
	}
	fnop, args := c.callOps(cc)
	if sf, ok := cc.Value.(*ssa.Function); ok {
		// static call
		if visFns[fnKey(sf)] {
			c.vis = true
		}
		if i := c.p.intr[fnKey(sf)]; i != nil {
			return func(e *Exec, g *G, f *Frame) status {
				ctx := &callCtx{args: make([]Val, len(args)), call: cc, fn: sf, dst: d}
				for i, a := range args {
					ctx.args[i] = a.get(e, f)
				}
				v, st := i(e, g, f, ctx)
				if st == stNext {
					f.regs[d] = v
				} else if st == stJump {
					f.pc++
				}
				return st
			}
		}
		clo := c.p.closureOf(sf)
		return func(e *Exec, g *G, f *Frame) status {
			as := make([]Val, len(args))
			for i, a := range args {
				as[i] = a.get(e, f)
			}
			f.pc++
			return e.pushCall(g, clo, as, d)
		}
	}
	return func(e *Exec, g *G, f *Frame) status {
		fn := fnop.get(e, f)
		as := make([]Val, 0, len(args)+1)
		if cc.IsInvoke() {
			if fn.o == nil {
				e.goPanicRuntime("invalid memory address or nil pointer dereference")
			}
			as = append(as, fn.x[0])
		}
		for _, a := range args {
			as = append(as, a.get(e, f))
		}
		var clo *Closure
		if cc.IsInvoke() {
			tg := fn.o.(*TypeTag)
			m := e.method(tg, cc.Method)
			if m == nil {
				e.abort("unsupported", "method "+cc.Method.FullName()+" not found on "+tg.t.String())
			}
			clo = e.p.closureOf(m)
		} else {
			if fn.o == nil {
				e.goPanicRuntime("invalid memory address or nil pointer dereference")
			}
			clo = fn.o.(*Closure)
		}
		f.pc++
		st := e.pushCall(g, clo, as, d)
		if st == stBlock || st == stSpin {
			f.pc--
		}
		return st
	}
}

// pushCall starts a call; the result goes to register dst of the calling frame
// (whose pc already points behind the call). Intrinsics complete immediately.
func (e *Exec) pushCall(g *G, clo *Closure, args []Val, dst int) status {
	sync := e.sync
	e.sync = false
	if clo == nil {
		e.goPanicRuntime("invalid memory address or nil pointer dereference")
	}
	var caller *Frame
	if len(g.frames) > 0 {
		caller = g.frames[len(g.frames)-1]
	}
	if clo.native != nil {
		v, _ := clo.native(e, g, args)
		if caller != nil && dst >= 0 {
			caller.regs[dst] = v
		}
		return stJump
	}
	if !sync && clo.fn.Synthetic == "package initializer" && caller != nil && caller.fi.fn.Synthetic == "package initializer" {
		return stJump // imports are initialised on demand
	}
	fi := e.p.info(clo.fn)
	if fi.intr != nil {
		ctx := &callCtx{args: args, fn: clo.fn, dst: dst}
		v, st := fi.intr(e, g, caller, ctx)
		if st == stNext {
			if caller != nil && dst >= 0 {
				caller.regs[dst] = v
			}
			return stJump
		}
		return st
	}
	if len(fi.fn.Blocks) == 0 {
		e.abort("unsupported", "call of "+fi.name+" (no body)")
	}
	if len(g.frames) > 2000 {
		e.violate("panic", "stack overflow (2000 nested calls)")
	}
	nf := &Frame{fi: fi, regs: make([]Val, fi.nregs), dst: dst}
	copy(nf.regs, args)
	for i, b := range clo.bind {
		nf.regs[len(fi.fn.Params)+i] = b
	}
	g.frames = append(g.frames, nf)
	if fi.repo && e.initing == 0 {
		e.st.Funcs[fi.name]++
	}
	return stJump
}

func (e *Exec) doReturn(g *G, f *Frame, v Val) {
	g.frames = g.frames[:len(g.frames)-1]
	if f.stop {
		f.result = v
		e.nestedDone = true
		e.nestedRes = v
		return
	}
	if f.onRet != nil {
		f.onRet(e, g, v)
	}
	if len(g.frames) == 0 {
		g.done = true
		e.gDone(g)
		return
	}
	c := g.frames[len(g.frames)-1]
	if f.isDefer {
		if c.pan != nil {
			if c.pan.recovered {
				e.dropPanic(g, c.pan)
				c.pan = nil
				c.recov = true
			}
			e.continueUnwind(g)
		} else if c.recov {
			e.continueUnwind(g)
		}
		return
	}
	if f.dst >= 0 {
		c.regs[f.dst] = v
	}
}

func (e *Exec) dropPanic(g *G, p *panicRec) {
	for i := len(g.panics) - 1; i >= 0; i-- {
		if g.panics[i] == p {
			g.panics = append(g.panics[:i], g.panics[i+1:]...)
			return
		}
	}
}

func (e *Exec) runDeferred(g *G, f *Frame, d deferred) {
	n := len(g.frames)
	if bi, ok := d.call.Value.(*ssa.Builtin); ok && !d.call.IsInvoke() {
		e.builtinVals(g, bi, d.call, d.args)
		if f.pan != nil || f.recov {
			e.continueUnwind(g)
		}
		return
	}
	clo, args := e.resolveCall(d.call, d.fn, d.args)
	st := e.pushCall(g, clo, args, -1)
	if st == stBlock {
		if f.pan != nil || f.recov {
			e.abort("unsupported", "deferred call blocks while panicking")
		}
		f.defers = append(f.defers, d)
		return
	}
	if len(g.frames) > n {
		g.frames[len(g.frames)-1].isDefer = true
		return
	}
	if f.pan != nil || f.recov {
		e.continueUnwind(g)
	}
}

func (e *Exec) startPanic(g *G, p goPanic) {
	rec := &panicRec{v: p.v, runtime: p.runtime, where: e.where()}
	g.panics = append(g.panics, rec)
	f := g.frames[len(g.frames)-1]
	if f.pan != nil { // a panic while unwinding this frame (native deferred call)
		e.dropPanic(g, f.pan)
	}
	f.pan = rec
	f.recov = false
	e.continueUnwind(g)
}

func (e *Exec) continueUnwind(g *G) {
	for {
		if len(g.frames) == 0 {
			g.done = true
			e.gDone(g)
			return
		}
		f := g.frames[len(g.frames)-1]
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			e.runDeferred(g, f, d)
			return
		}
		if f.recov {
			f.recov = false
			if rb := f.fi.fn.Recover; rb != nil {
				f.prev, f.blk, f.pc = -1, rb.Index, 0
				return
			}
			// no named results: return zero values
			res := f.fi.fn.Signature.Results()
			var v Val
			if res.Len() == 1 {
				v = e.p.layout(res.At(0).Type()).zero
			} else if res.Len() > 1 {
				v = e.p.layout(res).zero
			}
			e.doReturn(g, f, v)
			return
		}
		rec := f.pan
		if rec == nil {
			return
		}
		g.frames = g.frames[:len(g.frames)-1]
		if f.stop || len(g.frames) == 0 {
			e.uncaught(g, rec)
			return
		}
		c := g.frames[len(g.frames)-1]
		if f.isDefer && c.pan != nil {
			e.dropPanic(g, c.pan)
		}
		c.pan = rec
		c.recov = false
	}
}

func (e *Exec) panicText(rec *panicRec) string {
	if rec.runtime != "" {
		return "runtime error: " + rec.runtime
	}
	return e.showVal(rec.v)
}

func (e *Exec) showVal(v Val) string {
	if v.o == nil {
		return "nil"
	}
	tg, ok := v.o.(*TypeTag)
	if !ok {
		return "?"
	}
	if isString(tg.t) {
		return str(v.x[0])
	}
	if b, ok := tg.t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && v.x[0].t == nil {
		return fmt.Sprint(int64(v.x[0].c))
	}
	if s, ok := e.errText(v); ok {
		return s
	}
	return tg.t.String()
}

func (e *Exec) uncaught(g *G, rec *panicRec) {
	var m []uint64
	msg := "panic: " + e.panicText(rec)
	if e.replaying() {
		e.abort("violated", msg)
	}
	if e.haveMod {
		m = e.model
	} else {
		r, mm := e.checkSat()
		if r == Unsat {
			e.abort("infeasible", "")
		}
		m = mm
	}
	e.st.Asserts++
	v := &Violation{Kind: "panic", Msg: msg, Where: rec.where, Inputs: e.inputsOf(m)}
	e.reportV(v, nil)
	e.abort("violated", msg)
}

// goPanicRuntime raises a run-time error panic of the program under analysis.
func (e *Exec) goPanicRuntime(msg string) { panic(goPanic{runtime: msg}) }
func (e *Exec) goPanicErr(msg string)     { panic(goPanic{runtime: msg}) }

// ---- builtins ----

func (c *compiler) builtin(x *ssa.Call, bi *ssa.Builtin, d int) runFn {
	cc := &x.Call
	switch bi.Name() {
	case "Sizeof", "Alignof":
		l := c.p.layout(cc.Args[0].Type())
		v := Val{c: uint64(l.size)}
		if bi.Name() == "Alignof" {
			v.c = uint64(c.p.sizes.Alignof(cc.Args[0].Type()))
		}
		return func(e *Exec, g *G, f *Frame) status { f.regs[d] = v; return stNext }
	case "Offsetof":
		off := int64(-1)
		switch a := cc.Args[0].(type) {
		case *ssa.UnOp:
			if fa, ok := a.X.(*ssa.FieldAddr); ok {
				off = c.p.layout(fa.X.Type().Underlying().(*types.Pointer).Elem()).offs[fa.Field]
			}
		case *ssa.Field:
			off = c.p.layout(a.X.Type()).offs[a.Field]
		}
		if off < 0 {
			panic("Offsetof form in " + c.fi.name)
		}
		return func(e *Exec, g *G, f *Frame) status { f.regs[d] = Val{c: uint64(off)}; return stNext }
	case "recover":
		return func(e *Exec, g *G, f *Frame) status {
			f.regs[d] = e.doRecover(g, f)
			return stNext
		}
	case "len", "cap":
		isLen := bi.Name() == "len"
		a := c.op(cc.Args[0])
		l := c.p.layout(cc.Args[0].Type())
		return func(e *Exec, g *G, f *Frame) status {
			f.regs[d] = e.lenCap(a.get(e, f), l, isLen)
			return stNext
		}
	}
	var args []*opnd
	for _, a := range cc.Args {
		args = append(args, c.op(a))
	}
	if bi.Name() == "close" {
		c.vis = true
	}
	return func(e *Exec, g *G, f *Frame) status {
		as := make([]Val, len(args))
		for i, a := range args {
			as[i] = a.get(e, f)
		}
		f.regs[d] = e.builtinVals(g, bi, cc, as)
		return stNext
	}
}

func (e *Exec) lenCap(v Val, l *Layout, isLen bool) Val {
	switch l.kind {
	case lkString:
		return Val{c: uint64(len(str(v)))}
	case lkSlice:
		if len(v.x) < 2 {
			return Val{}
		}
		if isLen {
			return v.x[0]
		}
		return v.x[1]
	case lkArray:
		return Val{c: uint64(l.n)}
	case lkPtr:
		at := l.typ.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		return Val{c: uint64(at.Len())}
	case lkFunc:
		switch m := v.o.(type) {
		case *MapObj:
			return Val{c: uint64(m.live)}
		case *ChanObj:
			if isLen {
				return Val{c: uint64(len(m.buf))}
			}
			return Val{c: uint64(m.cap)}
		}
		return Val{}
	}
	panic("lenCap")
}

func (e *Exec) doRecover(g *G, f *Frame) Val {
	if !f.isDefer || len(g.frames) < 2 {
		return Val{}
	}
	c := g.frames[len(g.frames)-2]
	if c.pan == nil || c.pan.recovered {
		return Val{}
	}
	c.pan.recovered = true
	if c.pan.runtime != "" {
		return e.runtimeErr(c.pan.runtime)
	}
	return c.pan.v
}

func (e *Exec) builtinVals(g *G, bi *ssa.Builtin, cc *ssa.CallCommon, as []Val) Val {
	switch bi.Name() {
	case "append":
		return e.appendSlice(as[0], as[1], cc)
	case "copy":
		return e.copySlice(as[0], as[1], cc)
	case "delete":
		var m *MapObj
		if as[0].o != nil {
			m = as[0].o.(*MapObj)
		}
		e.mapDelete(m, as[1], cc.Args[0].Type().Underlying().(*types.Map).Key())
		return Val{}
	case "clear":
		switch t := cc.Args[0].Type().Underlying().(type) {
		case *types.Map:
			if m, ok := as[0].o.(*MapObj); ok {
				m.keys = map[string]int{}
				for i := range m.ents {
					m.ents[i].ok = false
				}
				m.live = 0
			}
		case *types.Slice:
			n := sliceLen(e, as[0]) * e.p.layout(t.Elem()).size
			if n > 0 {
				o, off := e.resolve(Val{o: as[0].o, t: as[0].t, c: as[0].c}, n, true)
				e.access(o, off, n, true)
				e.clearRange(o, off, n)
			}
		}
		return Val{}
	case "min", "max":
		r := as[0]
		l := e.p.layout(cc.Args[0].Type())
		for _, v := range as[1:] {
			r = e.minmax(r, v, l, bi.Name() == "max")
		}
		return r
	case "close":
		e.chanClose(as[0])
		return Val{}
	case "print", "println":
		return Val{}
	case "panic":
		panic(goPanic{v: as[0]})
	case "Add":
		return e.ptrAdd(as[0], e.widen(as[1], e.p.layout(cc.Args[1].Type())))
	case "Slice":
		n := e.concInt(e.widen(as[1], e.p.layout(cc.Args[1].Type())))
		es := e.p.layout(cc.Args[0].Type().Underlying().(*types.Pointer).Elem()).size
		if n < 0 || es > 0 && n > (1<<47)/es {
			e.goPanicRuntime("unsafe.Slice: len out of range")
		}
		if as[0].o == nil && as[0].t == nil && as[0].c == 0 {
			if n > 0 {
				e.goPanicRuntime("unsafe.Slice: ptr is nil and len is not zero")
			}
			return Val{x: []Val{{}, {}}}
		}
		r := as[0]
		r.x = []Val{{c: uint64(n)}, {c: uint64(n)}}
		return r
	case "SliceData":
		return Val{o: as[0].o, t: as[0].t, c: as[0].c}
	case "String":
		if e.concInt(as[1]) == 0 {
			return Val{}
		}
		return e.stringFrom(as[0], as[1])
	case "StringData":
		b := e.bytesVal([]byte(str(as[0])))
		b.o.(*Obj).readon = true
		return Val{o: b.o}
	case "len", "cap":
		return e.lenCap(as[0], e.p.layout(cc.Args[0].Type()), bi.Name() == "len")
	case "recover":
		return Val{}
	case "ssa:wrapnilchk":
		if as[0].o == nil && as[0].c == 0 && as[0].t == nil {
			e.goPanicRuntime("invalid memory address or nil pointer dereference")
		}
		return as[0]
	}
	e.abort("unsupported", "builtin "+bi.Name())
	return Val{}
}

func (e *Exec) minmax(a, b Val, l *Layout, max bool) Val {
	if l.kind == lkString {
		if (str(a) < str(b)) == max {
			return b
		}
		return a
	}
	if l.float {
		if a.t == nil && b.t == nil {
			op := OpFMin
			if max {
				op = OpFMax
			}
			return Val{c: evalOp(op, l.w, l.w, 0, a.c, b.c, 0)}
		}
		return e.fromTerm(e.tb.FMinMax(e.term(a, l.w), e.term(b, l.w), max))
	}
	op := OpULt
	if l.signed {
		op = OpSLt
	}
	x, y := e.term(a, l.w), e.term(b, l.w)
	if max {
		return e.fromTerm(e.tb.Ite(e.tb.Bin(op, x, y), y, x))
	}
	return e.fromTerm(e.tb.Ite(e.tb.Bin(op, x, y), x, y))
}

func slicePtr(v Val) Val { return Val{o: v.o, t: v.t, c: v.c} }

func (e *Exec) copySlice(dst, src Val, cc *ssa.CallCommon) Val {
	es := e.p.layout(cc.Args[0].Type().Underlying().(*types.Slice).Elem()).size
	n := sliceLen(e, dst)
	if isString(cc.Args[1].Type()) {
		s := str(src)
		if int64(len(s)) < n {
			n = int64(len(s))
		}
		if n > 0 {
			e.memmove(slicePtr(dst), slicePtr(e.bytesVal([]byte(s[:n]))), n)
		}
		return Val{c: uint64(n)}
	}
	if m := sliceLen(e, src); m < n {
		n = m
	}
	if n > 0 && es > 0 {
		e.memmove(slicePtr(dst), slicePtr(src), n*es)
	}
	return Val{c: uint64(n)}
}

var sizeClasses = []int64{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundUpSize(n int64) int64 {
	for _, s := range sizeClasses {
		if n <= s {
			return s
		}
	}
	return (n + 8191) &^ 8191
}

func (e *Exec) appendSlice(a, b Val, cc *ssa.CallCommon) Val {
	el := e.p.layout(cc.Args[0].Type().Underlying().(*types.Slice).Elem())
	var n int64
	if len(cc.Args) > 1 && isString(cc.Args[1].Type()) {
		s := str(b)
		b = e.bytesVal([]byte(s))
	}
	n = sliceLen(e, b)
	la, ca := sliceLen(e, a), sliceCap(e, a)
	if n == 0 {
		if len(a.x) < 2 {
			a.x = []Val{{}, {}}
		}
		return a
	}
	if la+n <= ca {
		if el.size > 0 {
			e.memmove(e.ptrAdd(slicePtr(a), Val{c: uint64(la * el.size)}), slicePtr(b), n*el.size)
		}
		return Val{o: a.o, t: a.t, c: a.c, x: []Val{{c: uint64(la + n)}, {c: uint64(ca)}}}
	}
	nl := la + n
	nc := nl
	if dbl := ca + ca; nl <= dbl {
		if ca < 256 {
			nc = dbl
		} else {
			nc = ca
			for nc < nl {
				nc += (nc + 3*256) >> 2
			}
		}
	}
	if el.size > 0 {
		nc = roundUpSize(nc*el.size) / el.size
	}
	o := e.newObj(nc*el.size, "slice of "+el.typ.String())
	p := Val{o: o}
	if el.size > 0 {
		if la > 0 {
			e.memmove(p, slicePtr(a), la*el.size)
		}
		e.memmove(e.ptrAdd(p, Val{c: uint64(la * el.size)}), slicePtr(b), n*el.size)
	}
	p.x = []Val{{c: uint64(nl)}, {c: uint64(nc)}}
	return p
}

// ---- run loop ----

func (e *Exec) newG(parent *G) *G {
	g := &G{id: len(e.gs)}
	e.gs = append(e.gs, g)
	if e.race != nil {
		e.race.fork(parent, g)
	}
	return g
}

// callSync runs fn to completion on the current goroutine (no scheduling).
func (e *Exec) callSync(fn *ssa.Function, args []Val) Val {
	g := e.cur
	saved := e.nested
	e.nested = true
	defer func() { e.nested = saved }()
	var own bool
	if g == nil {
		g = &G{id: -1}
		own = true
	}
	_ = own
	save := e.cur
	e.cur = g
	defer func() { e.cur = save }()
	n := len(g.frames)
	e.sync = true
	st := e.pushCall(g, e.p.closureOf(fn), args, -1)
	if len(g.frames) == n {
		_ = st
		return Val{}
	}
	g.frames[n].stop = true
	e.nestedDone = false
	for !e.nestedDone {
		e.stepG(g, n)
		if g.ready != nil {
			e.abort("unsupported", "blocking operation in an initialiser")
		}
	}
	e.nestedDone = false
	r := e.nestedRes
	e.nestedRes = Val{}
	return r
}

// stepG runs instructions of g until it blocks, yields, ends, or (nested) returns to depth.
func (e *Exec) stepG(g *G, depth int) {
	defer func() {
		if r := recover(); r != nil {
			if p, ok := r.(goPanic); ok {
				if len(g.frames) == 0 {
					e.abort("unsupported", "panic outside of any frame: "+p.runtime)
				}
				e.startPanic(g, p)
				return
			}
			panic(r)
		}
	}()
	for len(g.frames) > depth {
		f := g.frames[len(g.frames)-1]
		blk := f.fi.blocks[f.blk]
		for {
			in := &blk[f.pc]
			e.steps++
			if e.steps&0x3ff == 0 {
				e.tick()
			}
			if in.vis && e.explore >= 0 && !e.nested {
				if !f.spun && e.schedPoint(g) {
					f.spun = true
					return
				}
				f.spun = false
			}
			st := in.run(e, g, f)
			if st == stNext {
				f.pc++
				continue
			}
			if st == stBlock {
				f.spun = true
				return
			}
			if st == stSpin {
				return
			}
			break
		}
		if e.nestedDone && depth > 0 || e.nestedDone && e.nested {
			return
		}
	}
}

func (e *Exec) tick() {
	if e.steps > e.cfg.MaxSteps {
		e.abort("steps", e.where())
	}
	if e.x != nil && e.x.expired() {
		e.abort("stop", "")
	}
}

func (e *Exec) gDone(g *G) {
	if e.race != nil {
		e.race.end(g)
	}
}

// schedPoint decides whether to preempt g before a visible operation.
func (e *Exec) schedPoint(g *G) bool {
	if e.explore == 0 || g.id < 0 {
		return false
	}
	var others []*G
	for _, h := range e.gs {
		if h != g && !h.done && (h.ready == nil || h.ready()) {
			others = append(others, h)
		}
	}
	if len(others) == 0 {
		return false
	}
	k := e.schedChoice(len(others) + 1)
	if k == 0 {
		return false
	}
	e.explore--
	e.next = others[k-1]
	return true
}

// schedChoice is a symbolic scheduling decision in [0,n).
func (e *Exec) schedChoice(n int) int {
	if n == 1 {
		return 0
	}
	e.nsched++
	return int(e.pickFresh("sched:", 8, uint64(n-1)))
}

func (e *Exec) newVar(name string, w uint8) *Term {
	k := e.inputs[name]
	e.inputs[name] = k + 1
	t := e.tb.Var(fmt.Sprintf("%s#%d/%d", name, k, w), w)
	e.invars = append(e.invars, t)
	return t
}

func (e *Exec) runMain() (end pathEnd) {
	end = pathEnd{"ok", ""}
	defer func() {
		if r := recover(); r != nil {
			if pe, ok := r.(pathEnd); ok {
				end = pe
				return
			}
			msg := fmt.Sprintf("engine failure: %v at %s", r, e.where())
			if os.Getenv("SYM_DEBUG") != "" {
				panic(msg)
			}
			end = pathEnd{"unsupported", msg}
		}
	}()
	main := e.newG(nil)
	e.cur = main
	for _, p := range e.p.eager {
		e.initPkg(p)
	}
	e.pushCall(main, e.p.closureOf(e.p.harness), nil, -1)
	for !main.done {
		e.tick()
		g := e.pick(main)
		e.cur = g
		e.stepG(g, 0)
	}
	if e.race != nil {
		e.raceCheck()
	}
	return
}

func (e *Exec) pick(main *G) *G {
	if e.next != nil {
		g := e.next
		e.next = nil
		g.ready = nil
		return g
	}
	if e.cur != nil && !e.cur.done && e.cur.ready == nil {
		return e.cur
	}
	var run []*G
	for _, g := range e.gs {
		if !g.done && (g.ready == nil || g.ready()) {
			run = append(run, g)
		}
	}
	if len(run) == 0 {
		s := ""
		for _, g := range e.gs {
			if !g.done {
				s += fmt.Sprintf(" [g%d: %s]", g.id, g.why)
			}
		}
		e.violate("deadlock", "all goroutines are asleep - deadlock"+s)
	}
	i := 0
	if e.explore >= 0 && len(run) > 1 {
		i = e.schedChoice(len(run))
	}
	g := run[i]
	g.ready = nil
	return g
}

func (e *Exec) block(g *G, why string, ready func() bool) status {
	g.ready = ready
	g.why = why
	return stBlock
}

// ---- channels ----

func (e *Exec) chanSend(g *G, cv, v Val) status {
	if cv.o == nil {
		return e.block(g, "send on nil channel", func() bool { return false })
	}
	ch := cv.o.(*ChanObj)
	if g.chDone {
		g.chDone = false
		if !g.chOK {
			e.goPanicErr("send on closed channel")
		}
		return stNext
	}
	if ch.closed {
		e.goPanicErr("send on closed channel")
	}
	if w := popWaiter(&ch.recvq); w != nil {
		w.g.chVal, w.g.chOK, w.g.chDone, w.g.chSel = v, true, true, w.sel
		w.g.ready = nil
		e.hb(g, w.g)
		return stNext
	}
	if len(ch.buf) < ch.cap {
		ch.buf = append(ch.buf, v)
		e.hbChan(g, ch, true)
		return stNext
	}
	dead := false
	ch.sendq = append(ch.sendq, &waiter{g: g, val: v, dead: &dead})
	return e.block(g, "chan send", func() bool { return false })
}

func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !*w.dead {
			*w.dead = true
			return w
		}
	}
	return nil
}

func (e *Exec) chanRecv(g *G, cv Val, z Val) (Val, bool, status) {
	if cv.o == nil {
		return Val{}, false, e.block(g, "receive on nil channel", func() bool { return false })
	}
	ch := cv.o.(*ChanObj)
	if g.chDone {
		g.chDone = false
		if !g.chOK {
			return z, false, stNext
		}
		return g.chVal, true, stNext
	}
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = append([]Val{}, ch.buf[1:]...)
		if w := popWaiter(&ch.sendq); w != nil {
			ch.buf = append(ch.buf, w.val)
			w.g.chOK, w.g.chDone, w.g.chSel = true, true, w.sel
			w.g.ready = nil
		}
		e.hbChan(g, ch, false)
		return v, true, stNext
	}
	if w := popWaiter(&ch.sendq); w != nil {
		w.g.chOK, w.g.chDone, w.g.chSel = true, true, w.sel
		w.g.ready = nil
		e.hb(w.g, g)
		return w.val, true, stNext
	}
	if ch.closed {
		e.hbChan(g, ch, false)
		return z, false, stNext
	}
	dead := false
	ch.recvq = append(ch.recvq, &waiter{g: g, dead: &dead})
	return Val{}, false, e.block(g, "chan receive", func() bool { return false })
}

func (e *Exec) chanClose(cv Val) {
	if cv.o == nil {
		e.goPanicErr("close of nil channel")
	}
	ch := cv.o.(*ChanObj)
	if ch.closed {
		e.goPanicErr("close of closed channel")
	}
	ch.closed = true
	e.hbChan(e.cur, ch, true)
	for {
		w := popWaiter(&ch.recvq)
		if w == nil {
			break
		}
		w.g.chVal, w.g.chOK, w.g.chDone, w.g.chSel = Val{}, false, true, w.sel
		w.g.ready = nil
	}
	for {
		w := popWaiter(&ch.sendq)
		if w == nil {
			break
		}
		w.g.chOK, w.g.chDone, w.g.chSel = false, true, w.sel
		w.g.ready = nil
	}
}

func (c *compiler) selectIns(x *ssa.Select) runFn {
	d := c.fi.reg[x]
	type st struct {
		ch, v *opnd
		send  bool
		z     Val
	}
	var sts []st
	nrecv := 0
	for _, s := range x.States {
		t := st{ch: c.op(s.Chan), send: s.Dir == types.SendOnly}
		if t.send {
			t.v = c.op(s.Send)
		} else {
			t.z = c.p.layout(s.Chan.Type().Underlying().(*types.Chan).Elem()).zero
			nrecv++
		}
		sts = append(sts, t)
	}
	blocking := x.Blocking
	return func(e *Exec, g *G, f *Frame) status {
		res := func(i int, v Val, ok bool) status {
			r := []Val{{c: uint64(i)}, {c: b2u(ok)}}
			for k, s := range sts {
				if !s.send {
					if k == i {
						r = append(r, v)
					} else {
						r = append(r, s.z)
					}
				}
			}
			f.regs[d] = Val{x: r}
			return stNext
		}
		if g.chDone {
			g.chDone = false
			i := g.chSel
			if sts[i].send {
				if !g.chOK {
					e.goPanicErr("send on closed channel")
				}
				return res(i, Val{}, false)
			}
			if !g.chOK {
				return res(i, sts[i].z, false)
			}
			return res(i, g.chVal, true)
		}
		var ready []int
		for i, s := range sts {
			cv := s.ch.get(e, f)
			if cv.o == nil {
				continue
			}
			ch := cv.o.(*ChanObj)
			if s.send {
				if ch.closed || len(ch.buf) < ch.cap || hasWaiter(ch.recvq) {
					ready = append(ready, i)
				}
			} else if len(ch.buf) > 0 || ch.closed || hasWaiter(ch.sendq) {
				ready = append(ready, i)
			}
		}
		if len(ready) > 0 {
			i := ready[e.schedChoice(len(ready))]
			cv := sts[i].ch.get(e, f)
			if sts[i].send {
				e.chanSend(g, cv, sts[i].v.get(e, f))
				return res(i, Val{}, false)
			}
			v, ok, _ := e.chanRecv(g, cv, sts[i].z)
			return res(i, v, ok)
		}
		if !blocking {
			return res(-1, Val{}, false)
		}
		dead := new(bool)
		for i, s := range sts {
			cv := s.ch.get(e, f)
			if cv.o == nil {
				continue
			}
			ch := cv.o.(*ChanObj)
			w := &waiter{g: g, sel: i, dead: dead}
			if s.send {
				w.val = s.v.get(e, f)
				ch.sendq = append(ch.sendq, w)
			} else {
				ch.recvq = append(ch.recvq, w)
			}
		}
		return e.block(g, "select", func() bool { return false })
	}
}

func hasWaiter(q []*waiter) bool {
	for _, w := range q {
		if !*w.dead {
			return true
		}
	}
	return false
}

var _ = math.Pi

var typeHasher = typeutil.MakeHasher()
