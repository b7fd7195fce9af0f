package h

import (
	"math"
	"unsafe"

	"vh/sym"

	"github.com/mariotoffia/goannoy/distance/angular"
	"github.com/mariotoffia/goannoy/distance/dotproduct"
	"github.com/mariotoffia/goannoy/interfaces"
)

// ---- sides, margins and priorities ----

// once is a random generator with one arbitrary side to give.
type once struct {
	interfaces.Random[uint32]
	side interfaces.Side
	n    int
}

func (o *once) NextSide() interfaces.Side { o.n++; return o.side }

// guarded is a node with a vector that ends at an inaccessible page.
func guarded(d dist, v []float32) node {
	n := d.MapNodeToMemory(sym.GuardAlloc(int(d.NodeSize())), 0)
	n.SetVector(v)
	return n
}

// gvec is a vector that ends at an inaccessible page.
func gvec(v []float32) []float32 {
	g := unsafe.Slice((*float32)(sym.GuardAlloc(4*len(v))), len(v))
	copy(g, v)
	return g
}

func metric(n uint32) dist { return metricOf(n, sym.Pick("metric", 0, 1)) }

func metricOf(n uint32, m int) dist {
	if m == 0 {
		return angular.Distance[float32, uint32](n)
	}
	return dotproduct.Distance[float32, uint32](n)
}

// C21Margin: the margin is the dot product with the hyperplane.
func C21Margin() {
	n := sym.Pick("n", 1, 4)
	m := sym.Pick("metric", 0, 1)
	d := metricOf(uint32(n), m)
	p, y := vec(n, moderate), vec(n, moderate)
	nd := guarded(d, p)
	g := gvec(y)
	want := product(p, y)
	if m == 1 {
		want += 0 // the extra dimension of a hyperplane
	}
	sym.Assert(near(d.Margin(nd, g), want), "the margin is not the dot product with the hyperplane")
	sym.Assert(sameBits(nd.GetVector(uint32(n)), p) && sameBits(g, y), "the margin changes a vector")
}

// C21Side: the side is that of the margin, whatever the vectors are; only without any margin is it random.
func C21Side() {
	n := sym.Pick("n", 1, 4)
	d := metric(uint32(n))
	nd := guarded(d, anyVec(n))
	y := gvec(anyVec(n))
	m := d.Margin(nd, y)
	r := &once{side: interfaces.SideLeft}
	if sym.Bool("random") {
		r.side = interfaces.SideRight
	}
	s := d.Side(nd, y, r)
	sym.Assert(s == interfaces.SideLeft || s == interfaces.SideRight, "neither side")
	sym.Assert(sym.Implies(m > 0, s == interfaces.SideRight), "an item before the hyperplane is not on the right")
	sym.Assert(sym.Implies(m < 0, s == interfaces.SideLeft), "an item behind the hyperplane is not on the left")
	sym.Assert(sym.Implies(sym.Or(m > 0, m < 0), r.n == 0), "a side that is decided is drawn")
	if m == 0 {
		sym.Assert(r.n == 1 && s == r.side, "an item on the hyperplane does not go to a random side")
	}
}

// C21SideValue: given vectors; the plane's own norm, count and children do not matter.
func C21SideValue() {
	d := metric(2)
	p, y := points[sym.Pick("p", 0, len(points)-1)], points[sym.Pick("y", 0, len(points)-1)]
	nd := guarded(d, p)
	nd.SetNumberOfDescendants(sym.U32("n"))
	nd.SetChildren([]uint32{sym.U32("c"), sym.U32("c")})
	dot := float64(p[0])*float64(y[0]) + float64(p[1])*float64(y[1])
	r := &once{side: interfaces.SideRight}
	s := d.Side(nd, gvec(y), r)
	want := interfaces.SideRight
	if dot < 0 {
		want = interfaces.SideLeft
	}
	sym.Assert(s == want, "the side")
	sym.Assert(float64(d.Margin(nd, gvec(y))) == dot, "the margin")
}

// C21Queue: the priority of a child is the smaller of its parent's and the margin on its side.
func C21Queue() {
	d := metric(1)
	x, m := number("distance"), number("margin")
	l, r := d.PQDistance(x, m, interfaces.SideLeft), d.PQDistance(x, m, interfaces.SideRight)
	sym.Assert(r == sym.IteF32(x < m, x, m), "the priority of the right child")
	sym.Assert(l == sym.IteF32(x < -m, x, -m), "the priority of the left child")
	sym.Assert(sym.And(l <= x, r <= x), "a child has a greater priority than its parent")
	sym.Assert(sym.Implies(m > 0, r >= l), "the child on the far side comes first")
	sym.Assert(sym.Implies(m < 0, l >= r), "the child on the far side comes first")
}

// C21Start: a root has a greater priority than anything else.
func C21Start() {
	d := metric(1)
	m := number("margin")
	x := d.PQInitialValue()
	sym.Assert(x >= m, "a node has a greater priority than a root")
	sym.Assert(d.PQDistance(x, m, interfaces.SideRight) == m, "the priority of the right child of a root")
	sym.Assert(d.PQDistance(x, m, interfaces.SideLeft) == -m, "the priority of the left child of a root")
}

// C21Wide: the other types.
func C21Wide() {
	var d interfaces.Distance[float64, uint64] = angular.Distance[float64, uint64](2)
	if sym.Pick("metric", 0, 1) == 1 {
		d = dotproduct.Distance[float64, uint64](2)
	}
	n := d.MapNodeToMemory(sym.GuardAlloc(int(d.NodeSize())), 0)
	p, y := points[sym.Pick("p", 0, len(points)-1)], points[sym.Pick("y", 0, len(points)-1)]
	n.SetVector([]float64{float64(p[0]), float64(p[1])})
	v := []float64{float64(y[0]), float64(y[1])}
	dot := v[0]*float64(p[0]) + v[1]*float64(p[1])
	sym.Assert(d.Margin(n, v) == dot, "the margin")
	if dot != 0 {
		s := d.Side(n, v, nil)
		sym.Assert((s == interfaces.SideRight) == (dot > 0), "the side")
	}
	x, m := sym.F64("x"), sym.F64("m")
	sym.Assume(sym.Not(sym.Or(sym.IsNaN64(x), sym.IsNaN64(m))))
	sym.Assert(d.PQDistance(x, m, interfaces.SideRight) == sym.IteF64(x < m, x, m), "the priority of the right child")
	sym.Assert(d.PQDistance(x, m, interfaces.SideLeft) == sym.IteF64(x < -m, x, -m), "the priority of the left child")
	sym.Assert(d.PQInitialValue() == math.Inf(1), "a node has a greater priority than a root")
}

// C21Long: every element of long vectors counts once.
func C21Long() {
	n := long()
	at := sym.Pick("at", 0, n-1)
	d := metric(uint32(n))
	f, g := moderate("x"), moderate("y")
	nd, y := guarded(d, zeros(n, at, f)), gvec(spike(n, at, g))
	sym.Assert(near(d.Margin(nd, y), f*g), "the margin is not the dot product with the hyperplane")
	r := &once{side: interfaces.SideLeft}
	s := d.Side(nd, y, r)
	sym.Assert(sym.Implies(sym.And(f > 0, g > 0), s == interfaces.SideRight), "an item before the hyperplane is not on the right")
	sym.Assert(sym.Implies(sym.And(f > 0, g < 0), s == interfaces.SideLeft), "an item behind the hyperplane is not on the left")
	sym.Assert(r.n == 0 || f == 0 || g == 0, "a side that is decided is drawn")
}
