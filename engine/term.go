package main

// Hash-consed term DAG: booleans (w==0) and bit-vectors (w in 1..64). Floating
// point values are bit-vectors (their IEEE-754 bit pattern); floating point
// operations are explicit operators over those bit patterns.

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot
	OpAnd
	OpOr
	OpIte
	OpEq
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpShl
	OpLShr
	OpAShr
	OpULt
	OpULe
	OpSLt
	OpSLe
	OpConcat
	OpExtract // val = hi<<8|lo
	OpZExt
	OpSExt
	OpFAdd
	OpFSub
	OpFMul
	OpFDiv
	OpFSqrt
	OpFLt
	OpFLe
	OpFEq
	OpF2F // float -> float, w is the target width
	OpS2F // signed int -> float
	OpU2F // unsigned int -> float
	OpF2S // float -> signed int (truncating), amd64 semantics when concrete
	OpF2U
	OpFFloor
	OpFCeil
	OpFTrunc
	OpFPow // always uninterpreted
	OpFMin
	OpFMax
)

var opNames = map[Op]string{OpNot: "not", OpAnd: "and", OpOr: "or", OpIte: "ite", OpEq: "=", OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul",
	OpUDiv: "bvudiv", OpURem: "bvurem", OpSDiv: "bvsdiv", OpSRem: "bvsrem", OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor",
	OpShl: "bvshl", OpLShr: "bvlshr", OpAShr: "bvashr", OpULt: "bvult", OpULe: "bvule", OpSLt: "bvslt", OpSLe: "bvsle", OpConcat: "concat",
	OpFAdd: "fadd", OpFSub: "fsub", OpFMul: "fmul", OpFDiv: "fdiv", OpFSqrt: "fsqrt", OpFLt: "flt", OpFLe: "fle", OpFEq: "feq",
	OpF2F: "f2f", OpS2F: "s2f", OpU2F: "u2f", OpF2S: "f2s", OpF2U: "f2u", OpFFloor: "ffloor", OpFCeil: "fceil", OpFTrunc: "ftrunc", OpFPow: "fpow",
	OpFMin: "fmin", OpFMax: "fmax"}

type Term struct {
	op      Op
	w       uint8
	fp      bool // contains an arithmetic FP operator somewhere below
	a, b, c *Term
	val     uint64
	name    string
	id      int32
	ev      uint64
	evStamp int64
	emitted int8 // 1: UF-mode define emitted
	lemma   int32
}

type tkey struct {
	op      Op
	w       uint8
	a, b, c int32
	val     uint64
	name    string
}

type TB struct {
	tab     map[tkey]*Term
	next    int32
	stamp   int64
	True    *Term
	False   *Term
	vars    []*Term // by var index (val)
	varBy   map[string]*Term
	varSets map[*Term]varset
}

func NewTB() *TB {
	tb := &TB{tab: map[tkey]*Term{}, varBy: map[string]*Term{}, varSets: map[*Term]varset{}}
	tb.True = tb.mk(OpConst, 0, 1, nil, nil, nil)
	tb.False = tb.mk(OpConst, 0, 0, nil, nil, nil)
	return tb
}

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func (tb *TB) mk(op Op, w uint8, val uint64, a, b, c *Term) *Term {
	k := tkey{op, w, tid(a), tid(b), tid(c), val, ""}
	if t, ok := tb.tab[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, val: val, a: a, b: b, c: c, id: tb.next}
	if op >= OpFAdd && op != OpFLt && op != OpFLe && op != OpFEq {
		t.fp = true
	}
	if a != nil && a.fp || b != nil && b.fp || c != nil && c.fp {
		t.fp = true
	}
	tb.next++
	tb.tab[k] = t
	return t
}

func (tb *TB) Var(name string, w uint8) *Term {
	if t, ok := tb.varBy[name]; ok {
		if t.w != w {
			panic(fmt.Sprintf("var %s redeclared with other width", name))
		}
		return t
	}
	t := &Term{op: OpVar, w: w, name: name, id: tb.next, val: uint64(len(tb.vars))}
	tb.next++
	tb.vars = append(tb.vars, t)
	tb.varBy[name] = t
	return t
}

func mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func (tb *TB) Const(w uint8, v uint64) *Term {
	return tb.mk(OpConst, w, v&mask(w), nil, nil, nil)
}
func (tb *TB) Bool(b bool) *Term {
	if b {
		return tb.True
	}
	return tb.False
}

func (t *Term) isConst() bool { return t.op == OpConst }

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func f32(v uint64) float32 { return math.Float32frombits(uint32(v)) }
func f64(v uint64) float64 { return math.Float64frombits(v) }
func u32f(f float32) uint64 {
	return uint64(math.Float32bits(f))
}
func u64f(f float64) uint64 { return math.Float64bits(f) }

func toF(v uint64, w uint8) float64 {
	if w == 32 {
		return float64(f32(v))
	}
	return f64(v)
}
func fromF(f float64, w uint8) uint64 {
	if w == 32 {
		return u32f(float32(f))
	}
	return u64f(f)
}

// evalOp computes the operator concretely. wa is the width of the first operand.
func evalOp(op Op, w, wa uint8, val, a, b, c uint64) uint64 {
	m := mask(w)
	switch op {
	case OpNot:
		return a ^ 1
	case OpAnd:
		return a & b
	case OpOr:
		return a | b
	case OpIte:
		if a != 0 {
			return b
		}
		return c
	case OpEq:
		return b2u(a == b)
	case OpAdd:
		return (a + b) & m
	case OpSub:
		return (a - b) & m
	case OpMul:
		return (a * b) & m
	case OpUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OpURem:
		if b == 0 {
			return a
		}
		return a % b
	case OpSDiv:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OpSRem:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OpBAnd:
		return a & b
	case OpBOr:
		return a | b
	case OpBXor:
		return a ^ b
	case OpShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OpLShr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OpAShr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sext(a, w)>>b) & m
	case OpULt:
		return b2u(a < b)
	case OpULe:
		return b2u(a <= b)
	case OpSLt:
		return b2u(sext(a, wa) < sext(b, wa))
	case OpSLe:
		return b2u(sext(a, wa) <= sext(b, wa))
	case OpExtract:
		hi, lo := val>>8, val&255
		return (a >> lo) & mask(uint8(hi-lo+1))
	case OpZExt:
		return a
	case OpSExt:
		return uint64(sext(a, wa)) & m
	case OpFAdd:
		if w == 32 {
			return u32f(f32(a) + f32(b))
		}
		return u64f(f64(a) + f64(b))
	case OpFSub:
		if w == 32 {
			return u32f(f32(a) - f32(b))
		}
		return u64f(f64(a) - f64(b))
	case OpFMul:
		if w == 32 {
			return u32f(f32(a) * f32(b))
		}
		return u64f(f64(a) * f64(b))
	case OpFDiv:
		if w == 32 {
			return u32f(f32(a) / f32(b))
		}
		return u64f(f64(a) / f64(b))
	case OpFSqrt:
		return fromF(math.Sqrt(toF(a, w)), w)
	case OpFLt:
		return b2u(toF(a, wa) < toF(b, wa))
	case OpFLe:
		return b2u(toF(a, wa) <= toF(b, wa))
	case OpFEq:
		return b2u(toF(a, wa) == toF(b, wa))
	case OpF2F:
		if wa == w {
			return a
		}
		return fromF(toF(a, wa), w)
	case OpS2F:
		x := sext(a, wa)
		if w == 32 {
			return u32f(float32(x))
		}
		return u64f(float64(x))
	case OpU2F:
		if w == 32 {
			return u32f(float32(a))
		}
		return u64f(float64(a))
	case OpF2S:
		return uint64(int64(toF(a, wa))) & m
	case OpF2U:
		f := toF(a, wa)
		if w == 64 {
			return uint64(f)
		}
		return uint64(int64(f)) & m
	case OpFFloor:
		return fromF(math.Floor(toF(a, w)), w)
	case OpFCeil:
		return fromF(math.Ceil(toF(a, w)), w)
	case OpFTrunc:
		return fromF(math.Trunc(toF(a, w)), w)
	case OpFPow:
		return fromF(math.Pow(toF(a, w), toF(b, w)), w)
	case OpFMin:
		return fromF(math.Min(toF(a, w), toF(b, w)), w)
	case OpFMax:
		return fromF(math.Max(toF(a, w), toF(b, w)), w)
	}
	panic("evalOp " + fmt.Sprint(op))
}

// Eval evaluates t under the assignment of variables (index -> value).
func (tb *TB) Eval(t *Term, model []uint64) uint64 {
	if t.op == OpConst {
		return t.val
	}
	if t.evStamp == tb.stamp {
		return t.ev
	}
	var r uint64
	if t.op == OpVar {
		if int(t.val) < len(model) {
			r = model[t.val] & mask(t.w)
		}
	} else if t.op == OpIte {
		if tb.Eval(t.a, model) != 0 {
			r = tb.Eval(t.b, model)
		} else {
			r = tb.Eval(t.c, model)
		}
	} else if t.op == OpConcat {
		r = tb.Eval(t.a, model)<<t.b.w | tb.Eval(t.b, model)
	} else {
		var a, b, c uint64
		var wa uint8
		if t.a != nil {
			a = tb.Eval(t.a, model)
			wa = t.a.w
		}
		if t.b != nil {
			b = tb.Eval(t.b, model)
		}
		if t.c != nil {
			c = tb.Eval(t.c, model)
		}
		r = evalOp(t.op, t.w, wa, t.val, a, b, c)
	}
	t.ev = r
	t.evStamp = tb.stamp
	return r
}

// NewModel must be called whenever the model passed to Eval changes.
func (tb *TB) NewModel() { tb.stamp++ }

func (tb *TB) Not(a *Term) *Term {
	if a.isConst() {
		return tb.Bool(a.val == 0)
	}
	if a.op == OpNot {
		return a.a
	}
	return tb.mk(OpNot, 0, 0, a, nil, nil)
}

func (tb *TB) And(a, b *Term) *Term {
	if a.isConst() {
		if a.val == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.val == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if a.op == OpNot && a.a == b || b.op == OpNot && b.a == a {
		return tb.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tb.mk(OpAnd, 0, 0, a, b, nil)
}

func (tb *TB) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.val != 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.val != 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if a.op == OpNot && a.a == b || b.op == OpNot && b.a == a {
		return tb.True
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tb.mk(OpOr, 0, 0, a, b, nil)
}

func (tb *TB) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.val != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		return tb.Or(tb.And(c, a), tb.And(tb.Not(c), b))
	}
	if c.op == OpNot {
		return tb.Ite(c.a, b, a)
	}
	return tb.mk(OpIte, a.w, 0, c, a, b)
}

func (tb *TB) Eq(a, b *Term) *Term {
	if a == b {
		return tb.True
	}
	if a.isConst() && b.isConst() {
		return tb.Bool(a.val == b.val)
	}
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val != 0 {
				return a
			}
			return tb.Not(a)
		}
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		switch a.op {
		case OpF2F:
			// widening is injective on everything but NaN
			if b.w == 64 && a.a.w == 32 {
				if x, ok := narrow(b.val); ok {
					return tb.Eq(a.a, tb.Const(32, x))
				}
				if f := math.Float64frombits(b.val); f == f {
					return tb.False
				}
			}
		case OpBXor:
			if a.b.isConst() {
				return tb.Eq(a.a, tb.Const(a.w, a.b.val^b.val))
			}
		case OpAdd:
			if a.b.isConst() {
				return tb.Eq(a.a, tb.Const(a.w, b.val-a.b.val))
			}
		case OpZExt:
			if b.val > mask(a.a.w) {
				return tb.False
			}
			return tb.Eq(a.a, tb.Const(a.a.w, b.val))
		case OpSExt:
			if uint64(sext(b.val&mask(a.a.w), a.a.w))&mask(a.w) != b.val {
				return tb.False
			}
			return tb.Eq(a.a, tb.Const(a.a.w, b.val))
		case OpIte:
			if a.b.isConst() && a.c.isConst() {
				return tb.Ite(a.a, tb.Bool(a.b.val == b.val), tb.Bool(a.c.val == b.val))
			}
		}
	}
	if b.isConst() && a.w > 0 {
		if z, o := knownBits(a, 0); z&b.val != 0 || o&^b.val != 0 {
			return tb.False
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tb.mk(OpEq, 0, 0, a, b, nil)
}

func isCommut(op Op) bool {
	switch op {
	case OpAdd, OpMul, OpBAnd, OpBOr, OpBXor, OpFAdd, OpFMul, OpFEq:
		return true
	}
	return false
}

// Bin builds a same-width binary operator (or comparison, giving a bool).
func (tb *TB) Bin(op Op, a, b *Term) *Term {
	w := a.w
	switch op {
	case OpULt, OpULe, OpSLt, OpSLe, OpFLt, OpFLe, OpFEq:
		w = 0
	}
	if a.w != b.w {
		panic(fmt.Sprintf("width mismatch %s %d %d: %s %s", opNames[op], a.w, b.w, a, b))
	}
	if a.isConst() && b.isConst() {
		return tb.Const(w, evalOp(op, w, a.w, 0, a.val, b.val, 0))
	}
	if isCommut(op) && (a.isConst() || (!b.isConst() && a.id > b.id)) {
		a, b = b, a
	}
	m := mask(a.w)
	switch op {
	case OpAdd:
		if b.isConst() {
			if b.val == 0 {
				return a
			}
			if a.op == OpAdd && a.b.isConst() {
				return tb.Bin(OpAdd, a.a, tb.Const(w, a.b.val+b.val))
			}
		}
	case OpSub:
		if a == b {
			return tb.Const(w, 0)
		}
		if b.isConst() {
			return tb.Bin(OpAdd, a, tb.Const(w, -b.val))
		}
		if a.op == OpAdd && a.a == b {
			return a.b
		}
		if a.op == OpAdd && a.b == b {
			return a.a
		}
		if a.op == OpAdd && b.op == OpAdd && a.a == b.a && a.b.isConst() && b.b.isConst() {
			return tb.Const(w, a.b.val-b.b.val)
		}
	case OpMul:
		if b.isConst() {
			switch b.val {
			case 0:
				return b
			case 1:
				return a
			}
			if a.op == OpMul && a.b.isConst() {
				return tb.Bin(OpMul, a.a, tb.Const(w, a.b.val*b.val))
			}
		}
	case OpUDiv, OpSDiv:
		if b.isConst() && b.val == 1 {
			return a
		}
	case OpBAnd:
		if a == b {
			return a
		}
		if b.isConst() {
			if b.val == 0 {
				return b
			}
			if b.val == m {
				return a
			}
		}
	case OpBOr:
		if a == b {
			return a
		}
		if b.isConst() {
			if b.val == 0 {
				return a
			}
			if b.val == m {
				return b
			}
		}
	case OpBXor:
		if a == b {
			return tb.Const(w, 0)
		}
		if b.isConst() {
			if b.val == 0 {
				return a
			}
			if a.op == OpBXor && a.b.isConst() {
				return tb.Bin(OpBXor, a.a, tb.Const(w, a.b.val^b.val))
			}
		}
	case OpFAdd:
		for i := 0; i < 2; i++ {
			if zeroMag(b) && !b.isConst() { // x + ±0
				return tb.Ite(tb.Eq(a, tb.Const(w, 1<<(w-1))), b, a)
			}
			if b.op == OpIte && (zeroMag(b.b) || zeroMag(b.c)) {
				return tb.Ite(b.a, tb.Bin(op, a, b.b), tb.Bin(op, a, b.c))
			}
			a, b = b, a
		}
		if b.isConst() && b.val == 1<<(w-1) { // x + -0
			return a
		}
		if b.isConst() && b.val == 0 {
			return tb.noNegZero(a)
		}
	case OpFSub:
		if a.isConst() && a.val<<(65-w) != 0 && zeroMag(b) { // nonzero - ±0
			return a
		}
		if a.isConst() && b.op == OpIte && (zeroMag(b.b) || zeroMag(b.c)) {
			return tb.Ite(b.a, tb.Bin(op, a, b.b), tb.Bin(op, a, b.c))
		}
		if b.isConst() && b.val == 0 {
			return a
		}
		if b.isConst() && b.val == 1<<(w-1) {
			return tb.noNegZero(a)
		}
	case OpFMul, OpFDiv:
		if b.isConst() && b.val == oneBits(w) {
			return a
		}
		if op == OpFDiv && a.isConst() && a.val<<(65-w) == 0 { // 0 / x: a zero, or not a number
			abs := tb.Bin(OpBAnd, b, tb.Const(w, m>>1))
			z := tb.Bin(OpBXor, tb.Bin(OpBAnd, b, tb.Const(w, 1<<(w-1))), a)
			nan := tb.Ite(tb.Eq(abs, tb.Const(w, 0)), tb.Const(w, evalOp(OpFDiv, w, w, 0, 0, 0, 0)), b)
			return tb.Ite(tb.And(tb.Bin(OpULe, abs, tb.Const(w, infBits(w))), tb.Not(tb.Eq(abs, tb.Const(w, 0)))), z, nan)
		}
		if op == OpFMul && b.isConst() && b.val<<(65-w) == 0 { // x * 0: a zero, or not a number
			inf := tb.Const(w, infBits(w))
			abs := tb.Bin(OpBAnd, a, tb.Const(w, m>>1))
			z := tb.Bin(OpBXor, tb.Bin(OpBAnd, a, tb.Const(w, 1<<(w-1))), b)
			nan := tb.Ite(tb.Eq(abs, inf), tb.Const(w, evalOp(OpFMul, w, w, 0, infBits(w), 0, 0)), a)
			return tb.Ite(tb.Bin(OpULt, abs, inf), z, nan)
		}
	case OpShl, OpLShr, OpAShr:
		if b.isConst() {
			if b.val == 0 {
				return a
			}
			if op != OpAShr && b.val >= uint64(w) {
				return tb.Const(w, 0)
			}
		}
	case OpULt:
		if a == b {
			return tb.False
		}
		if b.isConst() && b.val == 0 {
			return tb.False
		}
		if a.isConst() && a.val == m {
			return tb.False
		}
		if a.op == OpURem && a.b == b { // x urem n < n exactly if n != 0
			return tb.Not(tb.Eq(b, tb.Const(b.w, 0)))
		}
		if a.op == OpURem && a.b.isConst() && b.isConst() && a.b.val != 0 && b.val >= a.b.val {
			return tb.True
		}
		if a.op == OpExtract && a.val&255 == 0 && a.a.op == OpURem && a.a.b.isConst() && b.isConst() &&
			a.a.b.val != 0 && a.a.b.val-1 <= mask(a.w) && b.val >= a.a.b.val {
			return tb.True
		}
		if a.isConst() && b.op == OpZExt && a.val > mask(b.a.w) {
			return tb.False
		}
		if b.isConst() && a.op == OpZExt && b.val > mask(a.a.w) {
			return tb.True
		}
	case OpULe:
		if a == b {
			return tb.True
		}
		if a.isConst() && a.val == 0 {
			return tb.True
		}
		if b.isConst() && b.val == m {
			return tb.True
		}
		return tb.Not(tb.Bin(OpULt, b, a))
	case OpSLt:
		if a == b {
			return tb.False
		}
		if a.op == OpZExt && a.w > a.a.w && b.isConst() && sext(b.val, b.w) <= 0 {
			return tb.False
		}
	case OpSLe:
		if a == b {
			return tb.True
		}
		return tb.Not(tb.Bin(OpSLt, b, a))
	case OpFLt:
		if a == b {
			return tb.False
		}
		if r := tb.fcmp(op, a, b); r != nil {
			return r
		}
	case OpFLe, OpFEq:
		if r := tb.fcmp(op, a, b); r != nil {
			return r
		}
	}
	return tb.mk(op, w, 0, a, b, nil)
}

func fnegOf(t *Term) *Term {
	if t.op == OpBXor && t.b.isConst() && t.b.val == 1<<(t.w-1) {
		return t.a
	}
	return nil
}

// narrow gives the float32 with exactly the value of the float64 x, if there is one.
func narrow(x uint64) (uint64, bool) {
	f := math.Float64frombits(x)
	if f != f {
		return 0, false
	}
	n := float32(f)
	return uint64(math.Float32bits(n)), float64(n) == f
}

// fcmp simplifies float comparisons.
func (tb *TB) fcmp(op Op, a, b *Term) *Term {
	// both are widened float32
	wide := func(t *Term) *Term {
		if t.w != 64 {
			return nil
		}
		if t.op == OpF2F {
			return t.a
		}
		if t.isConst() {
			if x, ok := narrow(t.val); ok {
				return tb.Const(32, x)
			}
		}
		return nil
	}
	if x, y := wide(a), wide(b); x != nil && y != nil {
		return tb.Bin(op, x, y)
	}
	neg := func(t *Term) *Term {
		if t.isConst() {
			return tb.FNeg(t)
		}
		return fnegOf(t)
	}
	if x, y := neg(a), neg(b); x != nil && y != nil && (fnegOf(a) != nil || fnegOf(b) != nil) {
		if op == OpFEq {
			return tb.Bin(op, x, y)
		}
		return tb.Bin(op, y, x)
	}
	em := expMask(a.w)
	nz := func(t *Term) bool {
		z, o := knownBits(t, 0)
		return o&(mask(t.w)>>1) != 0 && z&em != 0
	}
	zero := func(t *Term) bool { return t.isConst() && t.val&(mask(t.w)>>1) == 0 }
	if op == OpFEq && (zero(a) && nz(b) || zero(b) && nz(a)) {
		return tb.False
	}
	// infinite constants against terms known to be finite
	fin := func(t *Term) bool { z, _ := knownBits(t, 0); return z&em != 0 }
	inf := func(t *Term) int {
		if !t.isConst() || t.val&(mask(t.w)>>1) != em {
			return 0
		}
		if t.val>>(t.w-1) != 0 {
			return -1
		}
		return 1
	}
	if i := inf(b); i != 0 && fin(a) {
		return tb.Bool(op != OpFEq && i > 0)
	}
	if i := inf(a); i != 0 && fin(b) {
		return tb.Bool(op != OpFEq && i < 0)
	}
	return nil
}

func (tb *TB) Un(op Op, w uint8, a *Term) *Term {
	if a.isConst() {
		return tb.Const(w, evalOp(op, w, a.w, 0, a.val, 0, 0))
	}
	switch op {
	case OpF2F:
		if a.w == w {
			return a
		}
		if w == 32 && a.op == OpF2F && a.a.w == 32 {
			return a.a
		}
		if w == 32 && a.op == OpIte && (a.b.isConst() || a.b.op == OpF2F || a.b.op == OpIte) && (a.c.isConst() || a.c.op == OpF2F || a.c.op == OpIte) {
			return tb.Ite(a.a, tb.Un(op, w, a.b), tb.Un(op, w, a.c))
		}
		if w == 32 {
			// 53 >= 2*24+2 bits: rounding twice gives what rounding once gives
			switch a.op {
			case OpFAdd, OpFSub, OpFMul:
				if x, y := tb.narrow(a.a), tb.narrow(a.b); x != nil && y != nil {
					return tb.Bin(a.op, x, y)
				}
			case OpFSqrt:
				if x := tb.narrow(a.a); x != nil {
					return tb.Un(OpFSqrt, 32, x)
				}
			}
		}
	}
	return tb.mk(op, w, 0, a, nil, nil)
}

// narrow returns the 32 bit term a 64 bit float has been widened from.
func (tb *TB) narrow(t *Term) *Term {
	if t.isConst() {
		if v := evalOp(OpF2F, 32, 64, 0, t.val, 0, 0); evalOp(OpF2F, 64, 32, 0, v, 0, 0) == t.val {
			return tb.Const(32, v)
		}
		return nil
	}
	if t.op == OpF2F && t.a.w == 32 {
		return t.a
	}
	return nil
}

func (tb *TB) Extract(a *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if w == a.w {
		return a
	}
	if a.isConst() {
		return tb.Const(w, a.val>>lo)
	}
	switch a.op {
	case OpExtract:
		l := uint8(a.val & 255)
		return tb.Extract(a.a, hi+l, lo+l)
	case OpConcat:
		bw := a.b.w
		if hi < bw {
			return tb.Extract(a.b, hi, lo)
		}
		if lo >= bw {
			return tb.Extract(a.a, hi-bw, lo-bw)
		}
	case OpZExt:
		if hi < a.a.w {
			return tb.Extract(a.a, hi, lo)
		}
		if lo >= a.a.w {
			return tb.Const(w, 0)
		}
		if lo == 0 {
			return tb.ZExt(a.a, w)
		}
	case OpSExt:
		if hi < a.a.w {
			return tb.Extract(a.a, hi, lo)
		}
	case OpAdd, OpSub, OpMul, OpBAnd, OpBOr, OpBXor:
		if lo == 0 {
			return tb.Bin(a.op, tb.Extract(a.a, hi, 0), tb.Extract(a.b, hi, 0))
		}
	case OpIte:
		if a.b.isConst() && a.c.isConst() {
			return tb.Ite(a.a, tb.Const(w, a.b.val>>lo), tb.Const(w, a.c.val>>lo))
		}
	}
	return tb.mk(OpExtract, w, uint64(hi)<<8|uint64(lo), a, nil, nil)
}

func (tb *TB) Concat(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tb.Const(a.w+b.w, a.val<<b.w|b.val)
	}
	if a.isConst() && a.val == 0 {
		return tb.ZExt(b, a.w+b.w)
	}
	if a.op == OpExtract && b.op == OpExtract && a.a == b.a && a.val&255 == (b.val>>8)+1 {
		return tb.Extract(a.a, uint8(a.val>>8), uint8(b.val&255))
	}
	return tb.mk(OpConcat, a.w+b.w, 0, a, b, nil)
}

func (tb *TB) ZExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return tb.Const(w, a.val)
	}
	if a.op == OpZExt {
		return tb.ZExt(a.a, w)
	}
	return tb.mk(OpZExt, w, 0, a, nil, nil)
}

func (tb *TB) SExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return tb.Const(w, uint64(sext(a.val, a.w)))
	}
	if a.op == OpZExt {
		return tb.ZExt(a.a, w)
	}
	if a.op == OpSExt {
		return tb.SExt(a.a, w)
	}
	return tb.mk(OpSExt, w, 0, a, nil, nil)
}

// BoolToBV gives 1/0 of width w.
func (tb *TB) BoolToBV(a *Term, w uint8) *Term {
	return tb.Ite(a, tb.Const(w, 1), tb.Const(w, 0))
}

func (tb *TB) IsNaN(a *Term) *Term {
	var exp, frac uint64
	if a.w == 32 {
		exp, frac = 0x7f800000, 0x7fffffff
	} else {
		exp, frac = 0x7ff0000000000000, 0x7fffffffffffffff
	}
	if a.op == OpF2F {
		return tb.IsNaN(a.a)
	}
	if z, _ := knownBits(a, 0); z&exp != 0 {
		return tb.False
	}
	return tb.Bin(OpULt, tb.Const(a.w, exp), tb.Bin(OpBAnd, a, tb.Const(a.w, frac)))
}

func (tb *TB) IsFinite(a *Term) *Term {
	var exp, frac uint64
	if a.w == 32 {
		exp, frac = 0x7f800000, 0x7fffffff
	} else {
		exp, frac = 0x7ff0000000000000, 0x7fffffffffffffff
	}
	if z, _ := knownBits(a, 0); z&exp != 0 {
		return tb.True
	}
	return tb.Bin(OpULt, tb.Bin(OpBAnd, a, tb.Const(a.w, frac)), tb.Const(a.w, exp))
}

func (tb *TB) FNeg(a *Term) *Term {
	return tb.Bin(OpBXor, a, tb.Const(a.w, uint64(1)<<(a.w-1)))
}
func (tb *TB) FAbs(a *Term) *Term {
	return tb.Bin(OpBAnd, a, tb.Const(a.w, mask(a.w)>>1))
}

// FMinMax expands math.Min / math.Max precisely over the bits.
func (tb *TB) FMinMax(a, b *Term, max bool) *Term {
	if a.isConst() && b.isConst() {
		op := OpFMin
		if max {
			op = OpFMax
		}
		return tb.Const(a.w, evalOp(op, a.w, a.w, 0, a.val, b.val, 0))
	}
	w := a.w
	var inf, nan uint64 = 0x7ff0000000000000, 0x7ff8000000000001
	if w == 32 {
		inf, nan = 0x7f800000, 0x7fc00000
	}
	if !max {
		inf |= 1 << (w - 1)
	}
	infT := tb.Const(w, inf)
	isinf := tb.Or(tb.Eq(a, infT), tb.Eq(b, infT))
	isnan := tb.Or(tb.IsNaN(a), tb.IsNaN(b))
	zeroA := tb.Bin(OpFEq, a, tb.Const(w, 0))
	zeroB := tb.Bin(OpFEq, b, tb.Const(w, 0))
	var zr *Term
	lt := tb.Bin(OpFLt, a, b)
	var ord *Term
	if max {
		zr = tb.Bin(OpBAnd, a, b)
		ord = tb.Ite(lt, b, a)
	} else {
		zr = tb.Bin(OpBOr, a, b)
		ord = tb.Ite(lt, a, b)
	}
	r := tb.Ite(tb.And(zeroA, zeroB), zr, ord)
	r = tb.Ite(isnan, tb.Const(w, nan), r)
	return tb.Ite(isinf, infT, r)
}

func (t *Term) String() string {
	var sb strings.Builder
	t.str(&sb, 0)
	return sb.String()
}

func (t *Term) str(sb *strings.Builder, d int) {
	if d > 8 {
		sb.WriteString("..")
		return
	}
	switch t.op {
	case OpConst:
		if t.w == 0 {
			fmt.Fprint(sb, t.val != 0)
		} else {
			fmt.Fprintf(sb, "%d:%d", sext(t.val, t.w), t.w)
		}
	case OpVar:
		sb.WriteString(t.name)
	default:
		n := opNames[t.op]
		if t.op == OpExtract {
			n = fmt.Sprintf("ext[%d:%d]", t.val>>8, t.val&255)
		} else if t.op == OpZExt {
			n = fmt.Sprintf("zx%d", t.w)
		} else if t.op == OpSExt {
			n = fmt.Sprintf("sx%d", t.w)
		}
		sb.WriteString("(" + n)
		for _, x := range []*Term{t.a, t.b, t.c} {
			if x != nil {
				sb.WriteByte(' ')
				x.str(sb, d+1)
			}
		}
		sb.WriteByte(')')
	}
}

var _ = bits.Len

func oneBits(w uint8) uint64 {
	if w == 32 {
		return 0x3f800000
	}
	return 0x3ff0000000000000
}

func infBits(w uint8) uint64 {
	if w == 32 {
		return 0x7f800000
	}
	return 0x7ff0000000000000
}

// neverNegZero is true for terms that cannot be -0.
func neverNegZero(t *Term, depth int) bool {
	switch {
	case t.isConst():
		return t.val != 1<<(t.w-1)
	case depth == 0:
		return false
	case t.op == OpFAdd: // only -0 + -0 is -0
		return neverNegZero(t.a, depth-1) || neverNegZero(t.b, depth-1)
	case t.op == OpFMul:
		return t.a == t.b
	case t.op == OpIte:
		if t.a.op == OpEq && t.a.b.isConst() && t.a.b.val == 1<<(t.w-1) && t.a.a == t.c || t.a.op == OpEq && t.a.a.isConst() && t.a.a.val == 1<<(t.w-1) && t.a.b == t.c {
			return neverNegZero(t.b, depth-1)
		}
		return neverNegZero(t.b, depth-1) && neverNegZero(t.c, depth-1)
	}
	return false
}

// noNegZero is t + 0.
func (tb *TB) noNegZero(t *Term) *Term {
	if neverNegZero(t, 4) {
		return t
	}
	return tb.Ite(tb.Eq(t, tb.Const(t.w, 1<<(t.w-1))), tb.Const(t.w, 0), t)
}

// zeroMag is true for terms known to be 0 or -0.
func zeroMag(t *Term) bool {
	z, _ := knownBits(t, 0)
	m := mask(t.w) >> 1
	return z&m == m
}
