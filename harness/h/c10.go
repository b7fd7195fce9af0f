package h

import (
	"math"

	"vh/sym"

	"github.com/mariotoffia/goannoy/distance/angular"
	"github.com/mariotoffia/goannoy/index"
	"github.com/mariotoffia/goannoy/index/policy"
)

// ---- the angular distance ----

func angDist(d dist, x, y []float32) float32 {
	return d.NormalizedDistance(d.Distance(refNode(d, x), refNode(d, y)))
}

func vec(n int, f func(string) float32) []float32 {
	v := make([]float32, n)
	for i := range v {
		v[i] = f("x")
	}
	return v
}

// C10Symmetric: any two finite vectors, up to 3 elements.
func C10Symmetric() {
	n := sym.Pick("n", 1, 3)
	d := angular.Distance[float32, uint32](uint32(n))
	x, y := vec(n, finite), vec(n, finite)
	sym.Assert(eqf(d.Distance(refNode(d, x), refNode(d, y)), d.Distance(refNode(d, y), refNode(d, x))), "the distance is not symmetric")
}

// C10NoNaN: finite vectors of up to 3 elements whose norms neither overflow nor vanish.
func C10NoNaN() {
	n := sym.Pick("n", 1, 3)
	d := angular.Distance[float32, uint32](uint32(n))
	r := angDist(d, vec(n, moderate), vec(n, moderate))
	sym.Assert(r == r, "a distance is not a number")
	sym.Assert(r >= 0, "a negative distance")
	sym.Assert(r < 1<<30, "an infinite distance")
}

// C10Cached: the cached norm of a node makes no difference.
func C10Cached() {
	n := sym.Pick("n", 1, 3)
	d := angular.Distance[float32, uint32](uint32(n))
	x, y := vec(n, moderate), vec(n, moderate)
	a, b := refNode(d, x), refNode(d, y)
	want := d.Distance(a, b)
	which := sym.Pick("which", 1, 3)
	if which&1 != 0 {
		a.SetNorm(0)
	}
	if which&2 != 0 {
		b.SetNorm(0)
	}
	sym.Assert(eqf(d.Distance(a, b), want), "the distance depends on whether the norm is cached")
}

var points = [][]float32{{0, 0}, {1, 0}, {0, -1}, {1, 1}, {-2, 1}, {3, 7}, {-5, -5}, {0.5, 0}, {-0.25, 6}, {100, -30}}

// C10Reference: the distance is 2-2cos, its square root when normalised; rounding as in
// the obvious implementation (solver) or, where it differs, up to a thousandth (replay).
func C10Reference() {
	n := sym.Pick("n", 1, 4)
	d := angular.Distance[float32, uint32](uint32(n))
	x, y := vec(n, moderate), vec(n, moderate)
	var pp, qq, pq float32
	for i := range x {
		pp += x[i] * x[i]
		qq += y[i] * y[i]
		pq += x[i] * y[i]
	}
	want := float32(2)
	if pp != 0 && pp*qq > 0 {
		want = 2.0 - 2.0*pq/float32(math.Sqrt(float64(pp*qq)))
	}
	got := d.Distance(refNode(d, x), refNode(d, y))
	sym.Assert(near(got, want), "the distance is not that of the angle")
	nor := float32(math.Sqrt(math.Max(float64(got), 0)))
	sym.Assert(near(d.NormalizedDistance(got), nor), "the normalised distance")
}

// near: equal, both not a number, or within a thousandth (relative for large values).
func near(a, b float32) bool {
	if sym.Or(math.Float32bits(a) == math.Float32bits(b), eqf(a, b)) {
		return true
	}
	t := float32(0.001)
	if m := float32(math.Abs(float64(b))) / 1024; m > t {
		t = m
	}
	return sym.And(a-b <= t, b-a <= t)
}

// C10Value: given vectors against the definition in higher precision.
func C10Value() {
	d := angular.Distance[float32, uint32](2)
	x, y := points[sym.Pick("x", 0, len(points)-1)], points[sym.Pick("y", 0, len(points)-1)]
	r := float64(angDist(d, x, y))
	dot := float64(x[0])*float64(y[0]) + float64(x[1])*float64(y[1])
	pp := float64(x[0])*float64(x[0]) + float64(x[1])*float64(x[1])
	qq := float64(y[0])*float64(y[0]) + float64(y[1])*float64(y[1])
	want := math.Sqrt(2)
	if pp > 0 && qq > 0 {
		want = math.Sqrt(math.Max(0, 2-2*dot/math.Sqrt(pp*qq)))
	}
	sym.Assert(math.Abs(r-want) < 0.001, "the distance is not that of the angle")
}

// C10Index: the index reports these distances for its items, built or loaded.
func C10Index() {
	d := angular.Distance[float32, uint32](2)
	idx := index.New[float32, uint32](&srnd{}, d, policy.SingleWorker(), &galloc{}, ialloc("alloc"), nil, false, 0)
	n := 4
	vs := make([][]float32, n)
	for i := range vs {
		vs[i] = vec(2, moderate)
		idx.AddItem(uint32(i), clone(vs[i]))
	}
	st := sym.Pick("state", 0, 2)
	if st > 0 {
		idx.Build(1, 1)
	}
	if st > 1 {
		sym.Assert(idx.Save(sym.TempDir()+"/d.ann") == nil, "save")
	}
	i, j := sym.Pick("i", 0, n-1), sym.Pick("j", 0, n-1)
	g := idx.GetDistance(uint32(i), uint32(j))
	sym.Assert(near(g, angDist(d, vs[i], vs[j])), "the distance of two items")
	sym.Assert(eqf(g, idx.GetDistance(uint32(j), uint32(i))), "the distance of items is not symmetric")
}

// C10Monotone: normalising keeps the order.
func C10Monotone() {
	d := angular.Distance[float32, uint32](1)
	a, b := moderate("a"), moderate("b")
	sym.Assume(a <= b)
	sym.Assert(d.NormalizedDistance(a) <= d.NormalizedDistance(b), "normalising changes the order")
	sym.Assert(d.NormalizedDistance(a) >= 0, "negative distance")
}

// C10Long: every element of long vectors counts once.
func C10Long() {
	n := long()
	at := sym.Pick("at", 0, n-1)
	d := angular.Distance[float32, uint32](uint32(n))
	f, g := moderate("x"), moderate("y")
	x, y := zeros(n, at, f), spike(n, (at+sym.Pick("other", 0, 1))%n, g)
	a, b := refNode(d, x), refNode(d, y)
	sym.Assert(near(a.GetNorm(), f*f), "the norm of a node")
	want := float32(2)
	if pp, qq := product(x, x), product(y, y); pp != 0 && pp*qq > 0 {
		want = 2.0 - 2.0*product(x, y)/float32(math.Sqrt(float64(pp*qq)))
	}
	sym.Assert(near(d.Distance(a, b), want), "the distance is not that of the angle")
}
