package main

// A small theory of total preorders in front of the solver: float comparisons of
// terms that cannot be NaN. Most branch queries while sorting or searching are
// refuted by transitivity alone; everything else goes to the SMT solver. With
// SYM_ORDCHECK=1 every refutation is repeated with the solver.

type ordEdge struct {
	to     *Term
	strict bool
}

type orderTheory struct {
	tb     *TB
	pcset  map[*Term]bool
	adj    map[*Term][]ordEdge // a -> b: a <= b (or a < b)
	done   int                 // path constraints taken over
	nonnan map[*Term]bool
	consts []*Term
	hits   int
}

func newOrder(tb *TB, pcset map[*Term]bool) *orderTheory {
	return &orderTheory{tb: tb, pcset: pcset, adj: map[*Term][]ordEdge{}, nonnan: map[*Term]bool{}}
}

// knownBits returns bits known to be zero and bits known to be one.
func knownBits(t *Term, depth int) (zero, one uint64) {
	m := mask(t.w)
	if depth > 12 {
		return 0, 0
	}
	switch t.op {
	case OpConst:
		return ^t.val & m, t.val & m
	case OpZExt:
		z, o := knownBits(t.a, depth+1)
		return z | m&^mask(t.a.w), o
	case OpConcat:
		z1, o1 := knownBits(t.a, depth+1)
		z2, o2 := knownBits(t.b, depth+1)
		return z1<<t.b.w | z2, o1<<t.b.w | o2
	case OpBOr:
		z1, o1 := knownBits(t.a, depth+1)
		z2, o2 := knownBits(t.b, depth+1)
		return z1 & z2, o1 | o2
	case OpBAnd:
		z1, o1 := knownBits(t.a, depth+1)
		z2, o2 := knownBits(t.b, depth+1)
		return z1 | z2, o1 & o2
	case OpBXor:
		z1, o1 := knownBits(t.a, depth+1)
		z2, o2 := knownBits(t.b, depth+1)
		return z1&z2 | o1&o2, z1&o2 | o1&z2
	case OpShl:
		if t.b.isConst() && t.b.val < uint64(t.w) {
			z, o := knownBits(t.a, depth+1)
			return (z<<t.b.val | mask(uint8(t.b.val))) & m, o << t.b.val & m
		}
	case OpIte:
		z1, o1 := knownBits(t.b, depth+1)
		z2, o2 := knownBits(t.c, depth+1)
		return z1 & z2, o1 & o2
	}
	return 0, 0
}

func expMask(w uint8) uint64 {
	if w == 32 {
		return 0x7f800000
	}
	return 0x7ff0000000000000
}

// finite tells whether t is neither NaN nor infinite on every assignment of the path.
func (o *orderTheory) finite(t *Term) bool {
	if t.isConst() {
		return t.val&expMask(t.w) != expMask(t.w)
	}
	if o.pcset[o.tb.IsFinite(t)] {
		return true
	}
	z, _ := knownBits(t, 0)
	return z&expMask(t.w) != 0
}

func (o *orderTheory) notNaN(t *Term, depth int) bool {
	if o.nonnan[t] {
		return true
	}
	r := false
	switch {
	case t.isConst():
		r = t.val&(expMask(t.w)|expMask(t.w)>>1|mask(t.w)>>1) <= expMask(t.w)
	case o.finite(t):
		r = true
	case t.op == OpFAdd || t.op == OpFSub:
		r = o.finite(t.a) && o.finite(t.b)
	case t.op == OpBXor && t.b.isConst() && t.b.val == 1<<(t.w-1):
		r = depth < 4 && o.notNaN(t.a, depth+1)
	case o.pcset[o.tb.Not(o.tb.IsNaN(t))]:
		r = true
	}
	if r {
		o.nonnan[t] = true
	}
	return r
}

func (o *orderTheory) node(t *Term) {
	if !t.isConst() {
		return
	}
	for _, c := range o.consts {
		if c == t {
			return
		}
	}
	for _, c := range o.consts {
		if c.w != t.w {
			continue
		}
		switch {
		case evalOp(OpFLt, 0, t.w, 0, c.val, t.val, 0) != 0:
			o.raw(c, t, true)
		case evalOp(OpFLt, 0, t.w, 0, t.val, c.val, 0) != 0:
			o.raw(t, c, true)
		default:
			o.raw(t, c, false)
			o.raw(c, t, false)
		}
	}
	o.consts = append(o.consts, t)
}

func (o *orderTheory) raw(a, b *Term, strict bool) {
	o.adj[a] = append(o.adj[a], ordEdge{b, strict})
}

// neg is -t, with -(-t) = t.
func (o *orderTheory) neg(t *Term) *Term {
	if t.op == OpBXor && t.b.isConst() && t.b.val == 1<<(t.w-1) {
		return t.a
	}
	return o.tb.FNeg(t)
}

func (o *orderTheory) edge(a, b *Term, strict bool) {
	na, nb := o.neg(a), o.neg(b)
	for _, t := range []*Term{a, b, na, nb} {
		o.node(t)
	}
	o.raw(a, b, strict)
	o.raw(nb, na, strict)
}

// facts are the order facts (a<=b or a<b) a literal implies; usable is false for other literals.
func (o *orderTheory) facts(t *Term) (a, b *Term, strict, both, ok bool) {
	neg := false
	if t.op == OpNot {
		neg = true
		t = t.a
	}
	switch t.op {
	case OpFLt:
		if !neg {
			o.nonnan[t.a], o.nonnan[t.b] = true, true
			return t.a, t.b, true, false, true
		}
		if o.notNaN(t.a, 0) && o.notNaN(t.b, 0) {
			return t.b, t.a, false, false, true
		}
	case OpFLe:
		if !neg {
			o.nonnan[t.a], o.nonnan[t.b] = true, true
			return t.a, t.b, false, false, true
		}
		if o.notNaN(t.a, 0) && o.notNaN(t.b, 0) {
			return t.b, t.a, true, false, true
		}
	case OpFEq:
		if !neg {
			o.nonnan[t.a], o.nonnan[t.b] = true, true
			return t.a, t.b, false, true, true
		}
	case OpEq:
		if !neg && (t.a.w == 32 || t.a.w == 64) && o.notNaN(t.a, 0) && o.notNaN(t.b, 0) {
			return t.a, t.b, false, true, true
		}
	}
	return nil, nil, false, false, false
}

func (o *orderTheory) sync(pc []*Term) {
	for ; o.done < len(pc); o.done++ {
		if a, b, strict, both, ok := o.facts(pc[o.done]); ok {
			o.edge(a, b, strict)
			if both {
				o.edge(b, a, false)
			}
		}
	}
}

// path: is there a path from a to b, and is there one with a strict edge?
func (o *orderTheory) path(a, b *Term) (any, strict bool) {
	o.node(a)
	o.node(b)
	type st struct {
		t *Term
		s bool
	}
	seen := map[st]bool{{a, false}: true}
	q := []st{{a, false}}
	for len(q) > 0 {
		x := q[len(q)-1]
		q = q[:len(q)-1]
		if x.t == b {
			any = true
			if x.s {
				return true, true
			}
		}
		for _, e := range o.adj[x.t] {
			y := st{e.to, x.s || e.strict}
			if !seen[y] {
				seen[y] = true
				q = append(q, y)
			}
		}
	}
	return
}

// refutes tells whether t contradicts the order facts of the path.
func (o *orderTheory) refutes(t *Term, depth int) bool {
	if o.pcset[o.tb.Not(t)] {
		return true
	}
	if depth > 40 {
		return false
	}
	n := t
	if t.op == OpNot {
		n = t.a
	}
	switch {
	case t.op == OpAnd:
		return o.refutes(t.a, depth+1) || o.refutes(t.b, depth+1)
	case t.op == OpOr:
		return o.refutes(t.a, depth+1) && o.refutes(t.b, depth+1)
	case t.op == OpNot && n.op == OpAnd:
		return o.refutes(o.tb.Not(n.a), depth+1) && o.refutes(o.tb.Not(n.b), depth+1)
	case t.op == OpNot && n.op == OpOr:
		return o.refutes(o.tb.Not(n.a), depth+1) || o.refutes(o.tb.Not(n.b), depth+1)
	}
	switch n.op {
	case OpFLt, OpFLe, OpFEq:
		if !o.notNaN(n.a, 0) || !o.notNaN(n.b, 0) {
			return false
		}
		if t.op == OpNot && n.op == OpFEq {
			// refuted if a <= b and b <= a
			x, _ := o.path(n.a, n.b)
			if !x {
				return false
			}
			y, _ := o.path(n.b, n.a)
			return y
		}
		a, b, strict, both, ok := o.facts(t)
		if !ok {
			return false
		}
		r, s := o.path(b, a)
		if r && (s || strict) {
			return true
		}
		if both {
			_, s := o.path(a, b)
			return s
		}
	}
	return false
}
