package main

// Predictive data race analysis: the accesses of one execution are grouped into
// segments between synchronisation events; the solver decides whether two
// conflicting segments can overlap in some reordering that respects program
// order, fork/join and mutual exclusion.

import (
	"fmt"
	"go/token"
)

type evKind uint8

const (
	evStart evKind = iota
	evFork
	evAcq
	evRel
	evDone
	evWait
	evAtomic
	evEnd
	evSend
	evRecv
)

type event struct {
	id   int
	g    int
	kind evKind
	k    lockKey
	wr   bool
	peer int
	ch   *ChanObj
	acc  map[accKey]*accInfo // accesses after this event
	held []heldLock
}

type heldLock struct {
	k  lockKey
	wr bool
}

type accKey struct {
	o   *Obj
	off int64
}

type accInfo struct {
	write bool
	pos   string
}

type raceState struct {
	e     *Exec
	evs   []*event
	cur   map[int]*event
	held  map[int][]heldLock
	edges [][2]int // must happen-before between event ids
	dones map[lockKey][]int
	atom  map[lockKey]int
	chs   map[*ChanObj][]int
	first map[int]int
	byG   map[int][]*event
}

func newRace(e *Exec) *raceState {
	r := &raceState{e: e, cur: map[int]*event{}, held: map[int][]heldLock{}, dones: map[lockKey][]int{}, atom: map[lockKey]int{}, chs: map[*ChanObj][]int{}, first: map[int]int{}, byG: map[int][]*event{}}
	r.add(e.cur.id, evStart, lockKey{}, false)
	return r
}

func (r *raceState) add(g int, k evKind, lk lockKey, wr bool) *event {
	ev := &event{id: len(r.evs), g: g, kind: k, k: lk, wr: wr, peer: -1}
	r.evs = append(r.evs, ev)
	r.byG[g] = append(r.byG[g], ev)
	r.cur[g] = ev
	ev.held = append([]heldLock{}, r.held[g]...)
	return ev
}

func (r *raceState) fork(p, c *G) {
	if p == nil {
		return
	}
	a := r.add(p.id, evFork, lockKey{}, false)
	b := r.add(c.id, evStart, lockKey{}, false)
	r.edges = append(r.edges, [2]int{a.id, b.id})
}

func (r *raceState) end(g *G) { r.add(g.id, evEnd, lockKey{}, false) }

func (e *Exec) syncEvent(g *G, k evKind, lk lockKey, wr bool) {
	r := e.race
	if r == nil || e.nested {
		return
	}
	switch k {
	case evAcq:
		r.held[g.id] = append(r.held[g.id], heldLock{lk, wr})
		r.add(g.id, k, lk, wr)
	case evRel:
		h := r.held[g.id]
		for i := len(h) - 1; i >= 0; i-- {
			if h[i].k == lk {
				r.held[g.id] = append(append([]heldLock{}, h[:i]...), h[i+1:]...)
				break
			}
		}
		r.add(g.id, k, lk, wr)
	case evDone:
		ev := r.add(g.id, k, lk, wr)
		r.dones[lk] = append(r.dones[lk], ev.id)
	case evWait:
		ev := r.add(g.id, k, lk, wr)
		for _, d := range r.dones[lk] {
			r.edges = append(r.edges, [2]int{d, ev.id})
		}
	case evAtomic:
		ev := r.add(g.id, k, lk, wr)
		if p, ok := r.atom[lk]; ok {
			r.edges = append(r.edges, [2]int{p, ev.id})
		}
		r.atom[lk] = ev.id
	}
}

func (e *Exec) hb(a, b *G) {
	r := e.race
	if r == nil {
		return
	}
	x := r.add(a.id, evSend, lockKey{}, false)
	y := r.add(b.id, evRecv, lockKey{}, false)
	r.edges = append(r.edges, [2]int{x.id, y.id})
}

func (e *Exec) hbChan(g *G, ch *ChanObj, rel bool) {
	r := e.race
	if r == nil || g == nil {
		return
	}
	if rel {
		x := r.add(g.id, evSend, lockKey{}, false)
		r.chs[ch] = append(r.chs[ch], x.id)
		return
	}
	y := r.add(g.id, evRecv, lockKey{}, false)
	if q := r.chs[ch]; len(q) > 0 {
		r.edges = append(r.edges, [2]int{q[0], y.id})
		if len(q) > 1 || !ch.closed {
			r.chs[ch] = q[1:]
		}
	}
}

// access records a memory access.
func (e *Exec) access(o *Obj, off, n int64, write bool) {
	if e.race == nil || o.local || e.nested {
		return
	}
	e.race.access(o, off, n, write)
}

func (e *Exec) accessMap(m *MapObj, write bool) {
	if e.race == nil || e.nested {
		return
	}
	if m.shadow == nil {
		m.shadow = &Obj{name: "map", size: 8, id: -1}
	}
	e.race.access(m.shadow, 0, 1, write)
}

func (r *raceState) access(o *Obj, off, n int64, write bool) {
	e := r.e
	if e.cur == nil || e.cur.id < 0 {
		return
	}
	ev := r.cur[e.cur.id]
	if ev == nil {
		ev = r.add(e.cur.id, evStart, lockKey{}, false)
	}
	if ev.acc == nil {
		ev.acc = map[accKey]*accInfo{}
	}
	if n > 4096 {
		n = 4096
	}
	var pos string
	for b := off >> 2; b <= (off+n-1)>>2; b++ {
		k := accKey{o, b}
		a := ev.acc[k]
		if a == nil {
			if pos == "" {
				pos = r.pos()
			}
			ev.acc[k] = &accInfo{write, pos}
		} else if write && !a.write {
			if pos == "" {
				pos = r.pos()
			}
			a.write = true
			a.pos = pos
		}
	}
}

func (r *raceState) pos() string {
	f := r.e.cur.frames[len(r.e.cur.frames)-1]
	p := r.e.p.ssa.Fset.Position(f.curPos())
	if p == (token.Position{}) {
		return f.fi.name
	}
	return fmt.Sprintf("%s:%d", shortFile(p.Filename), p.Line)
}

// raceCheck asks the solver for overlapping conflicting segments.
func (e *Exec) raceCheck() {
	r := e.race
	e.race = nil
	n := len(r.evs)
	e.st.RaceEvents += n
	// fork/join reachability
	succ := make([][]int, n)
	for _, l := range r.byG {
		for i := 0; i+1 < len(l); i++ {
			succ[l[i].id] = append(succ[l[i].id], l[i+1].id)
		}
	}
	for _, ed := range r.edges {
		succ[ed[0]] = append(succ[ed[0]], ed[1])
	}
	reach := make([][]bool, n)
	for i := range reach {
		reach[i] = make([]bool, n)
		st := []int{i}
		for len(st) > 0 {
			x := st[len(st)-1]
			st = st[:len(st)-1]
			for _, y := range succ[x] {
				if !reach[i][y] {
					reach[i][y] = true
					st = append(st, y)
				}
			}
		}
	}
	next := func(ev *event) int {
		l := r.byG[ev.g]
		for i, x := range l {
			if x == ev && i+1 < len(l) {
				return l[i+1].id
			}
		}
		return -1
	}
	type cand struct {
		a, b       *event
		what, p, q string
	}
	seen := map[string]int{}
	type ref struct {
		ev *event
		a  *accInfo
	}
	byLoc := map[accKey][]ref{}
	for _, ev := range r.evs {
		for k, a := range ev.acc {
			byLoc[k] = append(byLoc[k], ref{ev, a})
		}
	}
	var cands []cand
	for k, rs := range byLoc {
		multi := false
		for _, x := range rs[1:] {
			if x.ev.g != rs[0].ev.g {
				multi = true
			}
		}
		if !multi {
			continue
		}
		for i, x := range rs {
			for _, y := range rs[i+1:] {
				if x.ev.g == y.ev.g || !(x.a.write || y.a.write) {
					continue
				}
				// ordered by program order / fork / join
				if nx := next(x.ev); nx >= 0 && (nx == y.ev.id || reach[nx][y.ev.id]) {
					continue
				}
				if ny := next(y.ev); ny >= 0 && (ny == x.ev.id || reach[ny][x.ev.id]) {
					continue
				}
				common := false
				for _, h := range x.ev.held {
					for _, g := range y.ev.held {
						if h.k == g.k && (h.wr || g.wr) {
							common = true
						}
					}
				}
				if common {
					continue
				}
				p, q := x.a.pos, y.a.pos
				if q < p {
					p, q = q, p
				}
				key := p + "|" + q
				if seen[key] >= 3 {
					continue
				}
				seen[key]++
				cands = append(cands, cand{x.ev, y.ev, k.o.name, p, q})
			}
		}
	}
	if len(cands) == 0 {
		e.st.Asserts++
		// still let the solver confirm that the recorded constraints are consistent
		e.orderQuery(r, nil, nil, 0, 0)
		return
	}
	done := map[string]bool{}
	for _, c := range cands {
		key := c.p + "|" + c.q
		if done[key] {
			continue
		}
		na, nb := next(c.a), next(c.b)
		if e.orderQuery(r, c.a, c.b, na, nb) {
			done[key] = true
			e.st.Asserts++
			var m []uint64
			if e.haveMod {
				m = e.model
			}
			v := &Violation{Kind: "race", Msg: fmt.Sprintf("data race on %s: %s / %s", c.what, c.p, c.q), Where: "race", Inputs: e.inputsOf(m)}
			e.reportV(v, nil)
		} else {
			e.st.Asserts++
		}
	}
}

func (e *Exec) orderQuery(r *raceState, a, b *event, na, nb int) bool {
	tb := e.tb
	n := len(r.evs)
	w := uint8(12)
	if n > 4000 {
		w = 16
	}
	ov := make([]*Term, n)
	for i := range ov {
		ov[i] = tb.Var(fmt.Sprintf("ord:%d:%d", w, i), w)
	}
	lt := func(x, y int) *Term { return tb.Bin(OpULt, ov[x], ov[y]) }
	var cs []*Term
	for _, l := range r.byG {
		for i := 0; i+1 < len(l); i++ {
			cs = append(cs, lt(l[i].id, l[i+1].id))
		}
	}
	for _, ed := range r.edges {
		cs = append(cs, lt(ed[0], ed[1]))
	}
	// critical sections
	type sect struct {
		k        lockKey
		wr       bool
		acq, rel int
		g        int
	}
	secs := map[lockKey][]sect{}
	for _, l := range r.byG {
		open := map[lockKey][]*event{}
		for _, ev := range l {
			switch ev.kind {
			case evAcq:
				open[ev.k] = append(open[ev.k], ev)
			case evRel:
				if o := open[ev.k]; len(o) > 0 {
					x := o[len(o)-1]
					open[ev.k] = o[:len(o)-1]
					secs[ev.k] = append(secs[ev.k], sect{ev.k, x.wr, x.id, ev.id, ev.g})
				}
			}
		}
	}
	for _, ss := range secs {
		for i, x := range ss {
			for _, y := range ss[i+1:] {
				if x.g != y.g && (x.wr || y.wr) {
					cs = append(cs, tb.Or(lt(x.rel, y.acq), lt(y.rel, x.acq)))
				}
			}
		}
	}
	if a != nil {
		if nb >= 0 {
			cs = append(cs, lt(a.id, nb))
		}
		if na >= 0 {
			cs = append(cs, lt(b.id, na))
		}
	}
	e.st.RaceQueries++
	res, _ := e.solver.Check(nil, cs, nil)
	if a == nil {
		return false
	}
	return res == Sat
}
