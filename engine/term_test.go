package main

import (
	"math/rand"
	"testing"
)

// Simplified terms evaluate like the plain operators.
func TestSimplify(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	special := []uint64{0, 1, 2, 0x80000000, 0x7f800000, 0xff800000, 0x3f800000, 0x7fc00000, 0x40000000, 0xffffffff, 0x7ff0000000000000, 0xfff0000000000000, 0x3ff0000000000000, 0x8000000000000000, 0x7ff8000000000000}
	for round := 0; round < 20000; round++ {
		tb := NewTB()
		type tv struct {
			t *Term
			v uint64
		}
		var pool []tv
		model := []uint64{}
		rv := func(w uint8) uint64 {
			if r.Intn(2) == 0 {
				return special[r.Intn(len(special))] & mask(w)
			}
			return r.Uint64() & mask(w)
		}
		for i, w := range []uint8{8, 32, 32, 64, 0} {
			v := tb.Var(string(rune('a'+i)), w)
			x := rv(w)
			if w == 0 {
				x &= 1
			}
			for len(model) <= int(v.val) {
				model = append(model, 0)
			}
			model[v.val] = x
			pool = append(pool, tv{v, x})
			if w > 0 {
				y := rv(w)
				pool = append(pool, tv{tb.Const(w, y), y})
			}
		}
		for n := 0; n < 25; n++ {
			a := pool[r.Intn(len(pool))]
			var same []tv
			for _, p := range pool {
				if p.t.w == a.t.w {
					same = append(same, p)
				}
			}
			b, c := same[r.Intn(len(same))], same[r.Intn(len(same))]
			var res tv
			w := a.t.w
			if w == 0 {
				switch r.Intn(4) {
				case 0:
					res = tv{tb.Not(a.t), 1 - a.v}
				case 1:
					res = tv{tb.And(a.t, b.t), a.v & b.v}
				case 2:
					res = tv{tb.Or(a.t, b.t), a.v | b.v}
				case 3:
					o := pool[r.Intn(len(pool))]
					for o.t.w == 0 {
						o = pool[r.Intn(len(pool))]
					}
					var s2 []tv
					for _, p := range pool {
						if p.t.w == o.t.w {
							s2 = append(s2, p)
						}
					}
					q := s2[r.Intn(len(s2))]
					v := q.v
					if a.v != 0 {
						v = o.v
					}
					res = tv{tb.Ite(a.t, o.t, q.t), v}
				}
			} else {
				isF := w == 32 || w == 64
				switch r.Intn(7) {
				case 0, 1:
					ops := []Op{OpAdd, OpSub, OpMul, OpBAnd, OpBOr, OpBXor, OpULt, OpULe, OpSLt, OpSLe, OpShl, OpLShr, OpUDiv, OpURem}
					op := ops[r.Intn(len(ops))]
					ww := w
					if op >= OpULt && op <= OpSLe {
						ww = 0
					}
					if (op == OpUDiv || op == OpURem) && b.v == 0 {
						continue
					}
					res = tv{tb.Bin(op, a.t, b.t), evalOp(op, ww, w, 0, a.v, b.v, 0)}
				case 2:
					if !isF {
						continue
					}
					ops := []Op{OpFLt, OpFLe, OpFEq}
					op := ops[r.Intn(3)]
					res = tv{tb.Bin(op, a.t, b.t), evalOp(op, 0, w, 0, a.v, b.v, 0)}
				case 3:
					res = tv{tb.Eq(a.t, b.t), b2u(a.v == b.v)}
				case 4:
					if !isF {
						res = tv{tb.ZExt(a.t, 32), a.v}
						break
					}
					if r.Intn(2) == 0 {
						res = tv{tb.FNeg(a.t), a.v ^ 1<<(w-1)}
					} else {
						mx := r.Intn(2) == 0
						op := OpFMin
						if mx {
							op = OpFMax
						}
						res = tv{tb.FMinMax(a.t, b.t, mx), evalOp(op, w, w, 0, a.v, b.v, 0)}
					}
				case 5:
					if !isF {
						continue
					}
					w2 := uint8(96) - w
					// quieting of signalling NaNs is not modelled
					v := evalOp(OpF2F, w2, w, 0, a.v, 0, 0)
					if w == 32 {
						if a.v&0x7fffffff > 0x7f800000 {
							continue
						}
					}
					res = tv{tb.Un(OpF2F, w2, a.t), v}
				case 6:
					if !isF {
						continue
					}
					em := expMask(w)
					res = tv{tb.IsNaN(a.t), b2u(a.v&(mask(w)>>1) > em)}
					if r.Intn(2) == 0 {
						res = tv{tb.IsFinite(a.t), b2u(a.v&(mask(w)>>1) < em)}
					}
				}
			}
			if res.t == nil {
				continue
			}
			_ = c
			tb.NewModel()
			if got := tb.Eval(res.t, model); got != res.v {
				t.Fatalf("%s: %x want %x", res.t, got, res.v)
			}
			z, o := uint64(0), uint64(0)
			if res.t.w > 0 {
				z, o = knownBits(res.t, 0)
			}
			if z&res.v != 0 || o&^res.v != 0 {
				t.Fatalf("known bits of %s", res.t)
			}
			pool = append(pool, res)
		}
	}
}
