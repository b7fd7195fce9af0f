package h

import (
	"math"

	"vh/sym"

	"github.com/mariotoffia/goannoy/interfaces"
	"github.com/mariotoffia/goannoy/sort"
)

// ---- priority queue and pairs ----

// before is the order of pairs: by the first component, then by the second.
func before(a, b pair) bool {
	return sym.Or(a.First < b.First, sym.And(a.First == b.First, a.Second < b.Second))
}

// bag is a queue without any order.
type bag []pair

// take removes what the queue has popped and asserts that nothing in the bag comes before.
func (b *bag) take(p *pair) {
	sym.Assert(p != nil, "a queue that is not empty yields nothing")
	for _, x := range *b {
		sym.Assert(sym.Not(before(x, *p)), "the queue yields a pair although another one comes first")
	}
	for i, x := range *b {
		if sym.And(eqf(x.First, p.First), x.Second == p.Second) {
			*b = append((*b)[:i:i], (*b)[i+1:]...)
			return
		}
	}
	sym.Assert(false, "the queue yields a pair that is not in it")
}

func (b *bag) looks(q *sort.PriorityQueue[float32, uint32]) {
	sym.Assert(q.Len() == len(*b), "the queue holds another number of pairs")
	sym.Assert(q.Empty() == (len(*b) == 0), "empty")
	if len(*b) == 0 {
		sym.Assert(q.Top() == nil, "an empty queue has a top")
		return
	}
	t := q.Top()
	sym.Assert(t != nil, "a queue that is not empty yields nothing")
	for _, x := range *b {
		sym.Assert(sym.Not(before(x, *t)), "the top of the queue is not the first pair")
	}
	sym.Assert(q.Top() == t && q.Len() == len(*b), "looking changes the queue")
}

func anyPair(key func(string) float32) pair {
	return pair{First: key("key"), Second: sym.U32("id")}
}

func number(name string) float32 {
	f := sym.F32(name)
	sym.Assume(sym.Not(sym.IsNaN32(f)))
	return f
}

// C16Drain: any pairs go in, they come out in order.
func C16Drain() {
	n := sym.Pick("n", 0, 4)
	q, b := sort.NewPriorityQueue[float32, uint32](), bag{}
	for i := 0; i < n; i++ {
		p := anyPair(number)
		q.Push(p.First, p.Second)
		b = append(b, p)
	}
	for i := 0; i < n; i++ {
		b.looks(q)
		t := q.Top()
		p := q.Pop()
		sym.Assert(p == t, "the top is not what is popped")
		b.take(p)
	}
	b.looks(q)
	sym.Cover("drained")
}

// C16Ops: pushing and popping in any order.
func C16Ops() { ops(6) }

// C16OpsDeep: longer histories.
func C16OpsDeep() { ops(8) }

func ops(steps int) {
	q, b := sort.NewPriorityQueue[float32, uint32](), bag{}
	for i := 0; i < steps; i++ {
		if len(b) == 0 || len(b) < 4 && sym.Bool("push") {
			p := pair{First: ordm("key"), Second: uint32(sym.U8("id"))}
			q.Push(p.First, p.Second)
			b = append(b, p)
		} else {
			b.take(q.Pop())
		}
		sym.Assert(q.Len() == len(b) && q.Empty() == (len(b) == 0), "the queue holds another number of pairs")
	}
	b.looks(q)
}

// C16Many: a larger queue of given keys with two arbitrary ones, infinities included.
func C16Many() {
	n := sym.Pick("n", 1, 5)*5 + 2
	q := sort.NewPriorityQueue[float32, uint32]()
	b := bag{}
	for i := 0; i < n; i++ {
		p := pair{First: float32((i * 7) % n), Second: uint32((i * 3) % n)}
		if i == n/2 || i == n-1 {
			p.First = number("key")
		}
		if i == 3 {
			p.First = float32(math.Inf(1))
		}
		q.Push(p.First, p.Second)
		b = append(b, p)
		if i%4 == 3 {
			b.take(q.Pop())
		}
	}
	for len(b) > 0 {
		b.take(q.Pop())
	}
	sym.Assert(q.Empty(), "the queue is not empty at the end")
}

// C16NaN: whatever the keys are, nothing is lost.
func C16NaN() {
	n := sym.Pick("n", 1, 4)
	q := sort.NewPriorityQueue[float32, uint32]()
	keys := make([]float32, n)
	for i := range keys {
		keys[i] = sym.F32("key")
		q.Push(keys[i], uint32(i))
	}
	seen := make([]bool, n)
	for i := 0; i < n; i++ {
		sym.Assert(q.Len() == n-i, "the queue loses pairs")
		p := q.Pop()
		sym.Assert(int(p.Second) < n && !seen[p.Second], "the queue loses or duplicates a pair")
		seen[p.Second] = true
		sym.Assert(eqf(p.First, keys[p.Second]), "the queue changes a pair")
	}
	sym.Assert(q.Empty() && q.Top() == nil, "the queue is not empty at the end")
}

// C16Apart: queues do not share anything, and pairs that have been popped stay as they are.
func C16Apart() {
	a, b := sort.NewPriorityQueue[float32, uint32](), sort.NewPriorityQueue[float32, uint32]()
	x, y := anyPair(number), anyPair(number)
	a.Push(x.First, x.Second)
	b.Push(y.First, y.Second)
	p := a.Pop()
	sym.Assert(a.Empty() && b.Len() == 1, "queues share pairs")
	a.Push(y.First, y.Second)
	a.Push(1, 1)
	b.Push(x.First, x.Second)
	a.Pop()
	sym.Assert(eqf(p.First, x.First) && p.Second == x.Second, "a popped pair changes")
}

// C16Wide: other types.
func C16Wide() {
	q := sort.NewPriorityQueue[float64, uint64]()
	n := sym.Pick("n", 1, 3)
	type wide struct {
		k float64
		i uint64
	}
	var all []wide
	for i := 0; i < n; i++ {
		w := wide{sym.F64("key"), sym.U64("id")}
		sym.Assume(sym.Not(sym.IsNaN64(w.k)))
		all = append(all, w)
		q.Push(w.k, w.i)
	}
	var last *interfaces.Pair[float64, uint64]
	for i := 0; i < n; i++ {
		p := q.Pop()
		in := false
		for _, w := range all {
			in = sym.Or(in, sym.And(w.k == p.First, w.i == p.Second))
		}
		sym.Assert(in, "the queue yields a pair that is not in it")
		if last != nil {
			sym.Assert(sym.Or(last.First < p.First, sym.And(last.First == p.First, last.Second <= p.Second)), "pairs are not ascending")
		}
		last = p
	}
	w := sort.NewPriorityQueue[string, int]()
	for i, s := range []string{"b", "a", "c", "", "ab", "b"} {
		w.Push(s, -i)
	}
	for _, s := range []string{"", "a", "ab", "b", "b", "c"} {
		sym.Assert(w.Pop().First == s, "words are not ascending")
	}
}

// C16Less: the order of pairs, for all bit patterns.
func C16Less() {
	a, b, c := anyPair(sym.F32), anyPair(sym.F32), anyPair(sym.F32)
	s := pairs{&a, &b, &c}
	ab, bc, ac := a.Less(&b), b.Less(&c), a.Less(&c)
	sym.Assert(ab == before(a, b), "pairs are ordered by the first component, then by the second")
	sym.Assert(s.Less(0, 1) == ab && s.Less(1, 2) == bc && s.Less(0, 2) == ac, "the order of pairs in a slice is another one")
	sym.Assert(!a.Less(&a), "a pair comes before itself")
	sym.Assert(!(ab && b.Less(&a)), "two pairs come before one another")
	sym.Assert(!(ab && bc) || ac, "the order of pairs is not transitive")
}

// C16Pairs: pairs as a stack, and what they contain.
func C16Pairs() {
	var s pairs
	sym.Assert(s.Len() == 0 && s.Top() == nil, "no pairs")
	n := sym.Pick("n", 0, 3)
	var o []*pair
	for i := 0; i < n; i++ {
		p := anyPair(sym.F32)
		s.Push(&p)
		o = append(o, &p)
		sym.Assert(s.Len() == i+1 && s[i] == &p && s.Top() == o[0], "pushing appends")
	}
	f, id := sym.F32("f"), sym.U32("i")
	hasF, hasI := false, false
	for _, p := range o {
		hasF, hasI = sym.Or(hasF, p.First == f), sym.Or(hasI, p.Second == id)
	}
	sym.Assert(s.ContainsFirst(f) == hasF, "contains first")
	sym.Assert(s.ContainsSecond(id) == hasI, "contains second")
	if n > 1 {
		i, j := sym.Pick("i", 0, n-1), sym.Pick("j", 0, n-1)
		s.Swap(i, j)
		o[i], o[j] = o[j], o[i]
	}
	for i := n - 1; i >= 0; i-- {
		for j := 0; j <= i; j++ {
			sym.Assert(s[j] == o[j], "swapping moves other pairs")
		}
		sym.Assert(s.Pop().(*pair) == o[i] && s.Len() == i, "popping removes the last pair")
	}
}
