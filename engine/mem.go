package main

// Values and the byte-addressed memory model.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Val is a run-time value.
//
//	integers, floats (bits), bools: t (symbolic) or c (concrete)
//	pointers / unsafe.Pointer / uintptr derived from pointers: o=*Obj, offset in t or c
//	strings: o=string;  func: o=*Closure;  map: o=*MapObj;  chan: o=*ChanObj
//	slice: o=*Obj, offset in t/c, x=[len,cap]
//	interface: o=*TypeTag, x=[data];  struct/array/tuple: x
type Val struct {
	t *Term
	c uint64
	o any
	x []Val
}

type TypeTag struct {
	t        types.Type // canonical
	id       int
	ptrLike  bool
	hashable bool
}

type Closure struct {
	fn     *ssa.Function
	bind   []Val
	native func(e *Exec, g *G, args []Val) (Val, bool)
	recv   bool
}

type Box struct{ v Val }

type MapObj struct {
	id     int
	keys   map[string]int
	ents   []mapEnt
	live   int
	shadow *Obj
}
type mapEnt struct {
	k, v Val
	ok   bool
}

type ChanObj struct {
	id     int
	cap    int
	buf    []Val
	closed bool
	sendq  []*waiter
	recvq  []*waiter
	ck     []int // vector clock (unused in value semantics)
}

// Obj is a memory object.
type Obj struct {
	id     int
	size   int64
	name   string
	readon bool
	freed  string // non-empty: reason why the memory is gone
	global bool
	mapped *Inode // mmap of this file
	hidx   int
	local  bool

	big   bool
	head  []uint8 // 0 empty(zero), n: a cell of n bytes starts here, 0x80|d: continuation, d bytes after the start
	v4    []Val
	un    map[int64]Val
	bhead map[int64]uint8
	bv    map[int64]Val
}

const bigLimit = 1 << 18

func (o *Obj) init() {
	if o.size > bigLimit {
		o.big = true
		o.bhead = map[int64]uint8{}
		o.bv = map[int64]Val{}
	}
}

func (o *Obj) getHead(off int64) uint8 {
	if o.big {
		return o.bhead[off]
	}
	if o.head == nil || off >= int64(len(o.head)) || off < 0 {
		return 0
	}
	return o.head[off]
}

func (o *Obj) setHead(off int64, h uint8) {
	if o.big {
		if h == 0 {
			delete(o.bhead, off)
		} else {
			o.bhead[off] = h
		}
		return
	}
	if o.head == nil {
		o.head = make([]uint8, o.size)
	}
	o.head[off] = h
}

func (o *Obj) getVal(off int64) Val {
	if o.big {
		return o.bv[off]
	}
	if off&3 == 0 {
		return o.v4[off>>2]
	}
	return o.un[off]
}

func (o *Obj) setVal(off int64, v Val) {
	if o.big {
		o.bv[off] = v
		return
	}
	if off&3 == 0 {
		if o.v4 == nil {
			o.v4 = make([]Val, (o.size+3)/4)
		}
		o.v4[off>>2] = v
		return
	}
	if o.un == nil {
		o.un = map[int64]Val{}
	}
	o.un[off] = v
}

// clearRange makes [off,off+n) empty, splitting cells that straddle the borders.
func (e *Exec) clearRange(o *Obj, off, n int64) {
	if o.head == nil && !o.big {
		return
	}
	if o.big && n > 4096 && int64(len(o.bhead)) < n {
		// sparse: walk existing heads
		e.splitAt(o, off)
		e.splitAt(o, off+n)
		for k := range o.bhead {
			if k >= off && k < off+n {
				delete(o.bhead, k)
				delete(o.bv, k)
			}
		}
		return
	}
	e.splitAt(o, off)
	e.splitAt(o, off+n)
	for i := off; i < off+n; i++ {
		if o.getHead(i) != 0 {
			o.setHead(i, 0)
			if o.big {
				delete(o.bv, i)
			}
		}
	}
}

// splitAt makes sure no cell straddles offset off.
func (e *Exec) splitAt(o *Obj, off int64) {
	if off < 0 || off >= o.size {
		return
	}
	h := o.getHead(off)
	if h&0x80 == 0 {
		return
	}
	start := off - int64(h&0x7f)
	sz := int64(o.getHead(start))
	v := o.getVal(start)
	// break into bytes
	t := e.scalarBits(v, uint8(sz*8))
	for i := int64(0); i < sz; i++ {
		var b Val
		if t == nil {
			b = Val{c: (v.c >> uint(8*i)) & 0xff}
		} else {
			b = e.fromTerm(e.tb.Extract(t, uint8(8*i+7), uint8(8*i)))
		}
		o.setHead(start+i, 1)
		o.setVal(start+i, b)
	}
}

// scalarBits returns the bit-vector term of a scalar cell (nil if concrete, in v.c).
func (e *Exec) scalarBits(v Val, w uint8) *Term {
	if v.o != nil {
		switch ob := v.o.(type) {
		case *Obj:
			base := e.base(ob)
			if v.t != nil {
				return e.tb.Bin(OpAdd, v.t, e.tb.Const(64, base))
			}
			return e.tb.Const(64, base+v.c)
		}
		e.abort("unsupported", fmt.Sprintf("bit-level access to a non-scalar cell (%T)", v.o))
	}
	if v.t != nil {
		if v.t.w == 0 {
			return e.tb.BoolToBV(v.t, w)
		}
		if v.t.w < w {
			return e.tb.ZExt(v.t, w)
		}
		return v.t
	}
	return nil
}

func (e *Exec) fromTerm(t *Term) Val {
	if t.isConst() {
		return Val{c: t.val}
	}
	return Val{t: t}
}

const objShift = 40

func (e *Exec) objID(o *Obj) int {
	if o.id < 0 {
		o.id = len(e.objs)
		e.objs = append(e.objs, o)
	}
	return o.id
}

func (e *Exec) base(o *Obj) uint64 { return uint64(e.objID(o)+1) << objShift }

func (e *Exec) newObj(size int64, name string) *Obj {
	o := &Obj{id: -1, size: size, name: name}
	o.init()
	return o
}

// ptrFromInt turns a raw address into an object reference when it points into one.
func (e *Exec) ptrFromInt(v Val) Val {
	if v.o != nil {
		return v
	}
	if v.t != nil {
		// symbolic raw address: look for the shape const-base + offset
		if v.t.op == OpAdd && v.t.b.isConst() {
			id := int(v.t.b.val>>objShift) - 1
			if id >= 0 && id < len(e.objs) {
				return Val{o: e.objs[id], t: e.tb.Bin(OpSub, v.t, e.tb.Const(64, e.base(e.objs[id])))}
			}
		}
		v = Val{c: e.concretize(v.t)}
	}
	id := int(v.c>>objShift) - 1
	if id >= 0 && id < len(e.objs) {
		return Val{o: e.objs[id], c: v.c - e.base(e.objs[id])}
	}
	return v
}

type memErr struct{ msg string }

// checkAccess validates [off,off+n) of the object p points to; returns the
// object (redirected for mappings) and the concrete offset.
func (e *Exec) resolve(p Val, n int64, write bool) (*Obj, int64) {
	if p.o == nil {
		if p.t != nil {
			e.violate("segv", "access through an invalid (symbolic, null based) address")
		}
		if p.c < 4096 {
			e.goPanicRuntime("invalid memory address or nil pointer dereference")
		}
		q := e.ptrFromInt(p)
		if q.o == nil {
			e.violate("segv", fmt.Sprintf("access of %d bytes at invalid address %#x", n, p.c))
		}
		p = q
	}
	o, ok := p.o.(*Obj)
	if !ok {
		if _, isBox := p.o.(*Box); isBox {
			e.abort("unsupported", "raw access to a boxed interface value")
		}
		e.abort("unsupported", fmt.Sprintf("memory access through %T", p.o))
	}
	var off int64
	if p.t != nil {
		// all accesses must be inside the object
		tb := e.tb
		if n > o.size {
			e.violate("oob", fmt.Sprintf("access of %d bytes in %s of %d bytes", n, o.name, o.size))
		}
		in := tb.Bin(OpULe, p.t, tb.Const(64, uint64(o.size-n)))
		e.check(in, "oob", fmt.Sprintf("access of %d bytes outside %s (%d bytes) at symbolic offset", n, o.name, o.size))
		off = int64(e.concretize(p.t))
	} else {
		off = int64(p.c)
	}
	if o.freed != "" {
		e.violate("use-after-free", fmt.Sprintf("access to %s: %s", o.name, o.freed))
	}
	if off < 0 || n > o.size || off > o.size-n {
		e.violate("oob", fmt.Sprintf("access of %d bytes at offset %d outside %s (%d bytes)", n, off, o.name, o.size))
	}
	if write && o.readon {
		e.violate("segv", fmt.Sprintf("write to read-only memory %s", o.name))
	}
	if o.mapped != nil {
		ino := o.mapped
		lim := (ino.size + 4095) &^ 4095
		if off+n > lim {
			e.violate("sigbus", fmt.Sprintf("access to the mapping of %s at offset %d beyond its end (file was truncated to %d bytes)", ino.path, off, ino.size))
		}
		return ino.obj, off
	}
	return o, off
}

func (e *Exec) loadCell(o *Obj, off int64, size int64) Val {
	h := o.getHead(off)
	if int64(h) == size {
		return o.getVal(off)
	}
	if h == 0 {
		all := true
		for i := int64(1); i < size; i++ {
			if o.getHead(off+i) != 0 {
				all = false
				break
			}
		}
		if all {
			return Val{}
		}
	}
	if size > 8 {
		e.abort("unsupported", fmt.Sprintf("mismatched wide load of %d bytes in %s+%d", size, o.name, off))
	}
	// assemble byte-wise
	var acc *Term
	var conc uint64
	isConc := true
	for i := int64(0); i < size; i++ {
		bt, bc := e.byteAt(o, off+i)
		if isConc && bt == nil {
			conc |= bc << uint(8*i)
			continue
		}
		if isConc {
			if i > 0 {
				acc = e.tb.Const(uint8(8*i), conc)
			}
			isConc = false
		}
		if bt == nil {
			bt = e.tb.Const(8, bc)
		}
		if acc == nil {
			acc = bt
		} else {
			acc = e.tb.Concat(bt, acc)
		}
	}
	if isConc {
		return Val{c: conc}
	}
	return e.fromTerm(acc)
}

func (e *Exec) byteAt(o *Obj, off int64) (*Term, uint64) {
	h := o.getHead(off)
	if h == 0 {
		return nil, 0
	}
	d := int64(0)
	if h&0x80 != 0 {
		d = int64(h & 0x7f)
	}
	start := off - d
	sz := o.getHead(start)
	v := o.getVal(start)
	t := e.scalarBits(v, sz*8)
	if t == nil {
		return nil, (v.c >> uint(8*d)) & 0xff
	}
	x := e.tb.Extract(t, uint8(8*d+7), uint8(8*d))
	if x.isConst() {
		return nil, x.val
	}
	return x, 0
}

func (e *Exec) storeCell(o *Obj, off int64, size int64, v Val) {
	h := o.getHead(off)
	if int64(h) == size {
		o.setVal(off, v)
		return
	}
	e.clearRange(o, off, size)
	if v.t == nil && v.o == nil && v.c == 0 && v.x == nil {
		return
	}
	o.setHead(off, uint8(size))
	for i := int64(1); i < size; i++ {
		o.setHead(off+i, 0x80|uint8(i))
	}
	o.setVal(off, v)
}

// memmove copies n bytes.
func (e *Exec) memmove(dst Val, src Val, n int64) {
	if n == 0 {
		return
	}
	do, doff := e.resolve(dst, n, true)
	so, soff := e.resolve(src, n, false)
	e.access(so, soff, n, false)
	e.access(do, doff, n, true)
	if so == do && soff == doff {
		return
	}
	type cp struct {
		off  int64
		size uint8
		v    Val
	}
	var cells []cp
	if so.big && n > 4096 && int64(len(so.bhead)) < n {
		e.splitAt(so, soff)
		e.splitAt(so, soff+n)
		for k, h := range so.bhead {
			if k >= soff && k < soff+n && h&0x80 == 0 && h != 0 {
				cells = append(cells, cp{k - soff, h, so.getVal(k)})
			}
		}
	} else if so.head != nil || so.big {
		e.splitAt(so, soff)
		e.splitAt(so, soff+n)
		for i := int64(0); i < n; {
			h := so.getHead(soff + i)
			if h == 0 {
				i++
				continue
			}
			cells = append(cells, cp{i, h, so.getVal(soff + i)})
			i += int64(h)
		}
	}
	e.clearRange(do, doff, n)
	for _, c := range cells {
		do.setHead(doff+c.off, c.size)
		for i := uint8(1); i < c.size; i++ {
			do.setHead(doff+c.off+int64(i), 0x80|i)
		}
		do.setVal(doff+c.off, c.v)
	}
}

// ---- typed loads and stores ----

type layKind uint8

const (
	lkInt layKind = iota
	lkBool
	lkPtr
	lkString
	lkFunc // func, map, chan: opaque 8 byte reference
	lkSlice
	lkIface
	lkStruct
	lkArray
	lkTuple
)

type Layout struct {
	kind   layKind
	size   int64
	signed bool
	float  bool
	w      uint8
	fields []*Layout
	offs   []int64
	elem   *Layout
	n      int64
	typ    types.Type
	zero   Val
}

func (p *Prog) layout(t types.Type) *Layout {
	if l, ok := p.layouts.Load(t); ok {
		return l.(*Layout)
	}
	l := p.mkLayout(t)
	p.layouts.Store(t, l)
	return l
}

func (p *Prog) mkLayout(t types.Type) *Layout {
	l := &Layout{typ: t}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.UntypedNil {
			l.size = 8
		} else {
			u = types.Default(u).(*types.Basic)
			l.size = p.sizes.Sizeof(u)
		}
		info := u.Info()
		switch {
		case info&types.IsBoolean != 0:
			l.kind = lkBool
			l.size = 1
		case info&types.IsString != 0:
			l.kind = lkString
		case u.Kind() == types.UnsafePointer:
			l.kind = lkPtr
		case u.Kind() == types.UntypedNil:
			l.kind = lkPtr
		default:
			l.kind = lkInt
			l.w = uint8(l.size * 8)
			l.signed = info&types.IsUnsigned == 0 && info&types.IsInteger != 0
			l.float = info&types.IsFloat != 0
			if info&types.IsComplex != 0 {
				l.kind = lkStruct
				l.fields = []*Layout{}
			}
		}
	case *types.Pointer:
		l.kind, l.size = lkPtr, 8
	case *types.Signature, *types.Map, *types.Chan:
		l.kind, l.size = lkFunc, 8
	case *types.Slice:
		l.kind, l.size = lkSlice, 24
	case *types.Interface:
		l.kind, l.size = lkIface, 16
	case *types.Struct:
		l.kind = lkStruct
		l.size = p.sizes.Sizeof(u)
		fs := make([]*types.Var, u.NumFields())
		for i := range fs {
			fs[i] = u.Field(i)
		}
		l.offs = p.sizes.Offsetsof(fs)
		for _, f := range fs {
			l.fields = append(l.fields, p.layout(f.Type()))
		}
		z := make([]Val, len(fs))
		for i, f := range l.fields {
			z[i] = f.zero
		}
		l.zero = Val{x: z}
	case *types.Array:
		l.kind = lkArray
		l.elem = p.layout(u.Elem())
		l.n = u.Len()
		if es := p.sizes.Sizeof(u.Elem()); es > 0 && l.n > (1<<55)/es {
			l.size = 1 << 55
		} else {
			l.size = es * l.n
		}
		if l.n <= 1<<16 {
			z := make([]Val, l.n)
			for i := range z {
				z[i] = l.elem.zero
			}
			l.zero = Val{x: z}
		}
	case *types.Tuple:
		l.kind = lkTuple
		for i := 0; i < u.Len(); i++ {
			l.fields = append(l.fields, p.layout(u.At(i).Type()))
		}
		z := make([]Val, len(l.fields))
		for i, f := range l.fields {
			z[i] = f.zero
		}
		l.zero = Val{x: z}
	case *types.TypeParam:
		panic("layout of a type parameter " + t.String())
	default:
		panic(fmt.Sprintf("layout %T", u))
	}
	if l.kind == lkSlice {
		l.zero = Val{x: []Val{{}, {}}}
	}
	return l
}

func (e *Exec) load(p Val, l *Layout) Val {
	if l.size == 0 {
		if p.o == nil && p.c == 0 && p.t == nil {
			e.goPanicRuntime("invalid memory address or nil pointer dereference")
		}
		return l.zero
	}
	o, off := e.resolve(p, l.size, false)
	e.access(o, off, l.size, false)
	return e.loadAt(o, off, l)
}

func (e *Exec) loadAt(o *Obj, off int64, l *Layout) Val {
	switch l.kind {
	case lkInt:
		v := e.loadCell(o, off, l.size)
		if v.t != nil && v.t.w != l.w && v.o == nil {
			if v.t.w == 0 {
				return Val{t: e.tb.BoolToBV(v.t, l.w)}
			}
			panic("loadAt width")
		}
		return v
	case lkBool:
		v := e.loadCell(o, off, 1)
		if v.t != nil && v.t.w != 0 {
			return e.fromTerm(e.tb.Not(e.tb.Eq(v.t, e.tb.Const(8, 0))))
		}
		if v.t == nil && v.c != 0 {
			v.c = 1
		}
		return v
	case lkPtr:
		v := e.loadCell(o, off, 8)
		if v.o == nil && (v.c != 0 || v.t != nil) {
			return e.ptrFromInt(v)
		}
		return v
	case lkFunc:
		return e.loadCell(o, off, 8)
	case lkString:
		h := o.getHead(off)
		if h == 8 {
			// (data,len) pair written as two words
			p := e.loadCell(o, off, 8)
			n := e.loadCell(o, off+8, 8)
			return e.stringFrom(p, n)
		}
		return e.loadCell(o, off, 16)
	case lkSlice:
		p := e.loadCell(o, off, 8)
		if p.o == nil && p.c != 0 {
			p = e.ptrFromInt(p)
		}
		return Val{o: p.o, t: p.t, c: p.c, x: []Val{e.loadCell(o, off+8, 8), e.loadCell(o, off+16, 8)}}
	case lkIface:
		tg := e.loadCell(o, off, 8)
		if tg.o == nil {
			return Val{}
		}
		d := e.loadCell(o, off+8, 8)
		if tag, ok := tg.o.(*TypeTag); ok {
			if bx, ok := d.o.(*Box); ok {
				d = bx.v
			}
			return Val{o: tag, x: []Val{d}}
		}
		e.abort("unsupported", "interface punning")
	case lkStruct:
		if len(l.fields) == 1 {
			return Val{x: []Val{e.loadAt(o, off+l.offs[0], l.fields[0])}}
		}
		x := make([]Val, len(l.fields))
		for i, f := range l.fields {
			if f.size == 0 {
				x[i] = f.zero
				continue
			}
			x[i] = e.loadAt(o, off+l.offs[i], f)
		}
		return Val{x: x}
	case lkArray:
		x := make([]Val, l.n)
		for i := range x {
			x[i] = e.loadAt(o, off+int64(i)*l.elem.size, l.elem)
		}
		return Val{x: x}
	}
	panic("loadAt")
}

func (e *Exec) store(p Val, v Val, l *Layout) {
	if l.size == 0 {
		if p.o == nil && p.c == 0 && p.t == nil {
			e.goPanicRuntime("invalid memory address or nil pointer dereference")
		}
		return
	}
	o, off := e.resolve(p, l.size, true)
	e.access(o, off, l.size, true)
	e.storeAt(o, off, v, l)
}

func (e *Exec) storeAt(o *Obj, off int64, v Val, l *Layout) {
	switch l.kind {
	case lkInt:
		if v.t != nil && v.t.w != l.w && v.o == nil {
			panic(fmt.Sprintf("store width %d into %d", v.t.w, l.w))
		}
		e.storeCell(o, off, l.size, v)
	case lkBool:
		e.storeCell(o, off, 1, v)
	case lkPtr, lkFunc:
		e.storeCell(o, off, 8, v)
	case lkString:
		e.storeCell(o, off, 16, v)
	case lkSlice:
		e.storeCell(o, off, 8, Val{o: v.o, t: v.t, c: v.c})
		if len(v.x) == 2 {
			e.storeCell(o, off+8, 8, v.x[0])
			e.storeCell(o, off+16, 8, v.x[1])
		} else {
			e.storeCell(o, off+8, 8, Val{})
			e.storeCell(o, off+16, 8, Val{})
		}
	case lkIface:
		if v.o == nil {
			e.storeCell(o, off, 8, Val{})
			e.storeCell(o, off+8, 8, Val{})
			return
		}
		tag := v.o.(*TypeTag)
		e.storeCell(o, off, 8, Val{o: tag})
		if tag.ptrLike {
			e.storeCell(o, off+8, 8, v.x[0])
		} else {
			e.storeCell(o, off+8, 8, Val{o: &Box{v.x[0]}})
		}
	case lkStruct:
		if len(v.x) != len(l.fields) {
			panic(fmt.Sprintf("store struct %s: %d fields vs %d", l.typ, len(v.x), len(l.fields)))
		}
		for i, f := range l.fields {
			if f.size > 0 {
				e.storeAt(o, off+l.offs[i], v.x[i], f)
			}
		}
	case lkArray:
		if v.x == nil && l.n > 1<<16 {
			e.clearRange(o, off, l.size)
			return
		}
		for i := range v.x {
			e.storeAt(o, off+int64(i)*l.elem.size, v.x[i], l.elem)
		}
	default:
		panic("storeAt")
	}
}

func (e *Exec) stringFrom(p, n Val) Val {
	ln := e.concInt(n)
	if ln == 0 {
		return Val{}
	}
	buf := make([]byte, ln)
	for i := range buf {
		q := e.ptrAdd(p, Val{c: uint64(i)})
		o, off := e.resolve(q, 1, false)
		t, c := e.byteAt(o, off)
		if t != nil {
			c = e.concretize(t)
		}
		buf[i] = byte(c)
	}
	return Val{o: string(buf)}
}

func (e *Exec) ptrAdd(p Val, d Val) Val {
	if p.t == nil && d.t == nil {
		p.c += d.c
		return p
	}
	a := p.t
	if a == nil {
		a = e.tb.Const(64, p.c)
	}
	b := d.t
	if b == nil {
		b = e.tb.Const(64, d.c)
	}
	s := e.tb.Bin(OpAdd, a, b)
	if s.isConst() {
		return Val{o: p.o, c: s.val}
	}
	return Val{o: p.o, t: s}
}

func str(v Val) string {
	if v.o == nil {
		return ""
	}
	return v.o.(string)
}
