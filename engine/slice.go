package main

import (
	"fmt"
	"os"
	"slices"
)

var dbgQ = os.Getenv("SYM_Q") != ""

// Independence slicing: a query only needs the path constraints that share variables
// with it (transitively); the rest of the path keeps its known assignment.

type varset []uint64 // bit set over variable indexes

func (v varset) or(o varset) varset {
	n := max(len(v), len(o))
	r := make(varset, n)
	copy(r, v)
	for i, x := range o {
		r[i] |= x
	}
	return r
}

func (v varset) meets(o varset) bool {
	for i := 0; i < len(v) && i < len(o); i++ {
		if v[i]&o[i] != 0 {
			return true
		}
	}
	return false
}

func (v varset) has(i uint64) bool { return int(i/64) < len(v) && v[i/64]>>(i%64)&1 != 0 }

// varsOf is the set of variables of t.
func (tb *TB) varsOf(t *Term) varset {
	if t == nil || t.op == OpConst {
		return nil
	}
	if v, ok := tb.varSets[t]; ok {
		return v
	}
	var v varset
	if t.op == OpVar {
		v = make(varset, t.val/64+1)
		v[t.val/64] |= 1 << (t.val % 64)
	} else {
		v = tb.varsOf(t.a)
		for _, x := range []*Term{t.b, t.c} {
			o := tb.varsOf(x)
			if len(o) > 0 {
				if len(v) == 0 {
					v = o
				} else {
					v = v.or(o)
				}
			}
		}
	}
	tb.varSets[t] = v
	return v
}

// slice returns the path constraints relevant for extra and their variables.
func (e *Exec) slice(extra []*Term) ([]*Term, varset) {
	var vs varset
	for _, t := range extra {
		vs = vs.or(e.tb.varsOf(t))
	}
	in := make([]bool, len(e.pc))
	for grown := true; grown; {
		grown = false
		for i, t := range e.pc {
			if !in[i] {
				if v := e.tb.varsOf(t); v.meets(vs) {
					in[i] = true
					vs = vs.or(v)
					grown = true
				}
			}
		}
	}
	var r []*Term
	for i, t := range e.pc {
		if in[i] {
			r = append(r, t)
		}
	}
	return r, vs
}

// sliced decides pc /\ extra given that e.model satisfies pc.
func (e *Exec) sliced(extra []*Term) (SatResult, []uint64) {
	pc, vs := e.slice(extra)
	key := make([]byte, 0, 4*(len(pc)+len(extra)))
	for _, l := range [][]*Term{pc, extra} {
		ids := make([]int32, len(l))
		for i, t := range l {
			ids[i] = t.id
		}
		slices.Sort(ids)
		for _, x := range ids {
			key = append(key, byte(x), byte(x>>8), byte(x>>16), byte(x>>24))
		}
		key = append(key, 255)
	}
	if c, ok := e.solver.cache[string(key)]; ok && !noSlice {
		e.solver.stats.Cached++
		if c == nil {
			return Unsat, nil
		}
		m := make([]uint64, len(e.tb.vars))
		copy(m, e.model)
		for i, x := range c {
			if vs.has(uint64(i)) {
				m[i] = x
			}
		}
		return Sat, m
	}
	if !noWitness {
		if m := e.witness(pc, extra, vs); m != nil {
			e.solver.stats.Witness++
			return Sat, m
		}
	}
	var vars []*Term
	for _, v := range e.invars {
		if vs.has(v.val) {
			vars = append(vars, v)
		}
	}
	r, m := e.solver.Check(nil, append(append([]*Term{}, pc...), extra...), vars)
	if dbgQ {
		fmt.Fprintln(os.Stderr, "QUERY", r, extra, "SLICE", pc)
	}
	switch {
	case len(e.solver.cache) > 1<<18:
		e.solver.cache = nil
		fallthrough
	case e.solver.cache == nil:
		e.solver.cache = map[string][]uint64{}
	}
	if r == Unsat {
		e.solver.cache[string(key)] = nil
	}
	if r == Sat && m != nil {
		e.solver.cache[string(key)] = append([]uint64{}, m...)
		for i := range m {
			if !vs.has(uint64(i)) && i < len(e.model) {
				m[i] = e.model[i]
			}
		}
	}
	return r, m
}

// witness looks for an assignment that satisfies pc and extra and differs from the
// current one in a single variable. A witness is checked by evaluation, hence no
// solver is needed to know that the query is satisfiable.
func (e *Exec) witness(pc, extra []*Term, vs varset) []uint64 {
	ev := varset(nil)
	for _, t := range extra {
		ev = ev.or(e.tb.varsOf(t))
	}
	m := make([]uint64, len(e.tb.vars))
	copy(m, e.model)
	defer e.tb.NewModel()
	tries := 0
	for k := len(e.invars) - 1; k >= 0; k-- {
		v := e.invars[k]
		if !ev.has(v.val) {
			continue
		}
		// the constraints that mention v
		var own []*Term
		own = append(own, extra...)
		for _, t := range pc {
			if e.tb.varsOf(t).has(v.val) {
				own = append(own, t)
			}
		}
		old := m[v.val]
		try := func(x uint64) bool {
			m[v.val] = x & mask(v.w)
			e.tb.NewModel()
			for _, t := range own {
				if e.tb.Eval(t, m) == 0 {
					return false
				}
			}
			return true
		}
		if v.w <= 8 {
			for d := uint64(1); d <= mask(v.w); d++ {
				if try(old + d) {
					return m
				}
			}
		} else {
			for _, o := range e.invars {
				if !vs.has(o.val) || o.w != v.w || o == v {
					continue
				}
				for _, d := range [3]uint64{0, 1, ^uint64(0)} {
					if try(m[o.val] + d) {
						return m
					}
				}
			}
			for _, x := range [...]uint64{old + 1, old - 1, 0, 1, 2, old ^ 1<<(v.w-1)} {
				if try(x) {
					return m
				}
			}
		}
		m[v.val] = old
		if tries++; tries > 6 {
			break
		}
	}
	return nil
}
