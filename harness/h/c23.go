package h

import (
	"math"
	"unsafe"

	"vh/sym"

	"github.com/mariotoffia/goannoy/distance/angular"
	"github.com/mariotoffia/goannoy/interfaces"
	"github.com/mariotoffia/goannoy/utils"
	"github.com/mariotoffia/goannoy/vector"
)

// ---- vectors and helpers ----

// C23Dot: both dot products are the sum of the products, for any length up to that of the vectors.
func C23Dot() {
	n := sym.Pick("n", 0, 4)
	x, y := gvec(vec(n+1, moderate)[:n]), gvec(vec(n+1, moderate)[:n])
	k := sym.Pick("k", 0, n)
	want := product(x[:k], y[:k])
	got := vector.Dot(x, y, uint32(k))
	sym.Assert(near(got, want), "the dot product")
	sym.Assert(near(vector.Dot(x, y, uint64(k)), want), "the dot product")
	if n > 0 {
		sym.Assert(near(vector.DotUnsafe(&x[0], &y[0], uint32(k)), want), "the dot product by pointers")
		sym.Assert(near(vector.DotUnsafe(&x[0], &y[0], uint64(k)), want), "the dot product by pointers")
	}
}

// C23Same: the two dot products are the same, for every bit pattern.
func C23Same() {
	n := sym.Pick("n", 1, 4)
	x, y := gvec(anyVec(n)), gvec(anyVec(n))
	a, b := vector.Dot(x, y, uint32(n)), vector.DotUnsafe(&x[0], &y[0], uint32(n))
	sym.Assert(sym.Or(near(a, b), sym.Or(a != a, b != b)), "the dot product by pointers is another one")
}

// C23Norm: the root of the sum of squares.
func C23Norm() {
	n := sym.Pick("n", 1, 4)
	x := gvec(vec(n, moderate))
	sym.Assert(near(vector.GetNorm(x, uint32(n)), norm(x)), "the norm")
	sym.Assert(near(vector.GetNormUnsafe(&x[0], uint32(n)), norm(x)), "the norm by pointer")
}

// C23Distances: the squared Euclidean and the Manhattan distance.
func C23Distances() {
	n := sym.Pick("n", 0, 4)
	x, y := gvec(vec(n+1, moderate)[:n]), gvec(vec(n+1, moderate)[:n])
	var e, m float32
	for i := range x {
		d := x[i] - y[i]
		e += d * d
		if d < 0 {
			d = -d
		}
		m += d
	}
	sym.Assert(near(vector.EuclideanDistance(x, y, uint32(n)), e), "the Euclidean distance")
	sym.Assert(near(vector.ManhattanDistance(x, y, uint32(n)), m), "the Manhattan distance")
}

// C23Wide: double precision, given vectors.
func C23Wide() {
	p, q := points[sym.Pick("p", 0, len(points)-1)], points[sym.Pick("q", 0, len(points)-1)]
	x, y := []float64{float64(p[0]), float64(p[1])}, []float64{float64(q[0]), float64(q[1])}
	dot := x[0]*y[0] + x[1]*y[1]
	sym.Assert(vector.Dot(x, y, uint64(2)) == dot && vector.DotUnsafe(&x[0], &y[0], uint64(2)) == dot, "the dot product")
	sym.Assert(vector.Dot(x, y, uint64(1)) == x[0]*y[0], "the dot product of the first elements")
	l := math.Sqrt(x[0]*x[0] + x[1]*x[1])
	sym.Assert(vector.GetNorm(x, uint32(2)) == l && vector.GetNormUnsafe(&x[0], uint64(2)) == l, "the norm")
	a, b := x[0]-y[0], x[1]-y[1]
	sym.Assert(vector.EuclideanDistance(x, y, uint64(2)) == a*a+b*b, "the Euclidean distance")
	sym.Assert(vector.ManhattanDistance(x, y, uint32(2)) == math.Abs(a)+math.Abs(b), "the Manhattan distance")
}

// C23Abs: the absolute value, for every bit pattern.
func C23Abs() {
	x, y := sym.F32("x"), sym.F64("y")
	a, b := vector.Abs(x), vector.Abs(y)
	sym.Assert(sym.Or(sym.And(a >= 0, sym.Or(a == x, a == -x)), sym.And(a != a, x != x)), "the absolute value")
	sym.Assert(sym.Or(sym.And(b >= 0, sym.Or(b == y, b == -y)), sym.And(b != b, y != y)), "the absolute value")
}

// C23Max: the greater of two.
func C23Max() {
	a, b := sym.U32("a"), sym.U32("b")
	m := utils.Max(a, b)
	sym.Assert(sym.And(sym.And(m >= a, m >= b), sym.Or(m == a, m == b)), "the greater of two")
	c, d := sym.U64("c"), sym.U64("d")
	n := utils.Max(c, d)
	sym.Assert(sym.And(sym.And(n >= c, n >= d), sym.Or(n == c, n == d)), "the greater of two")
}

// C23Intersection: of two arbitrary sets of numbers, in ascending order.
func C23Intersection() { intersect(sym.Pick("n", 0, 3), sym.Pick("m", 0, 3), false) }

// C23IntersectionDeep: larger ones.
func C23IntersectionDeep() { intersect(3, 4, true) }

func set(n int, small bool) []uint32 {
	s := make([]uint32, n)
	for i := range s {
		s[i] = sym.U32("e")
		if small {
			sym.Assume(s[i] < 16)
		}
		for j := 0; j < i; j++ {
			sym.Assume(s[i] != s[j])
		}
	}
	return s
}

func has(s []uint32, x uint32) bool {
	r := false
	for _, y := range s {
		r = sym.Or(r, x == y)
	}
	return r
}

func intersect(n, m int, small bool) {
	a, b := set(n, small), set(m, small)
	oa, ob := append([]uint32(nil), a...), append([]uint32(nil), b...)
	r := utils.Intersection(a, b)
	for i, x := range r {
		sym.Assert(sym.And(has(oa, x), has(ob, x)), "an element that is not in both")
		if i > 0 {
			sym.Assert(r[i-1] < x, "the intersection is not ascending")
		}
	}
	for _, x := range oa {
		sym.Assert(sym.Implies(has(ob, x), has(r, x)), "a common element is missing")
		sym.Assert(has(a, x), "an element of a set is lost")
	}
	for _, x := range ob {
		sym.Assert(has(b, x), "an element of a set is lost")
	}
}

// C23Multi: of two lists with repetitions: as often as in both.
func C23Multi() {
	n, m := sym.Pick("n", 0, 3), sym.Pick("m", 0, 3)
	a, b := make([]uint32, n), make([]uint32, m)
	var ca, cb [3]int
	for i := range a {
		a[i] = uint32(sym.Pick("a", 0, 2))
		ca[a[i]]++
	}
	for i := range b {
		b[i] = uint32(sym.Pick("b", 0, 2))
		cb[b[i]]++
	}
	r := utils.Intersection(a, b)
	k := 0
	for v := range ca {
		c := ca[v]
		if cb[v] < c {
			c = cb[v]
		}
		for ; c > 0; c-- {
			sym.Assert(k < len(r) && r[k] == uint32(v), "an element of both is not in the intersection as often")
			k++
		}
	}
	sym.Assert(k == len(r), "the intersection holds too much")
}

// C23Round: to the nearest whole number, halves up.
func C23Round() {
	x := []float64{0, 0.4, 0.5, 1.49, 1.5, 2.5, -0.4, -0.5, -0.6, -1.5, 1e15, 12345.678}[sym.Pick("x", 0, 11)]
	r := utils.Round(x)
	sym.Assert(r == math.Floor(r) && r-x <= 0.5 && x-r < 0.5, "a number is not rounded to the nearest")
	p := sym.Pick("places", 0, 4)
	s := []float64{1, 10, 100, 1000, 10000}[p]
	q := utils.RoundPlus(x, p)
	sym.Assert(math.Abs(q-x) <= 0.5/s*1.0001 && math.Abs(q*s-math.Floor(q*s+0.5)) < 1e-3*math.Max(1, math.Abs(q)/1e9), "a number is not rounded to so many places")
}

// C23Copy: copying a node copies all of it and nothing beside it, whatever it contains.
func C23Copy() {
	vl := sym.Pick("vl", 1, 6)
	d := metric(uint32(vl))
	size := int(d.NodeSize())
	mem := sym.GuardAlloc(3 * size)
	b := unsafe.Slice((*byte)(mem), 3*size)
	for i := range b {
		b[i] = sym.U8("byte")
	}
	was := append([]byte(nil), b...)
	from, to := sym.Pick("from", 0, 2), sym.Pick("to", 0, 2)
	utils.CopyNode[float32, uint32](d.MapNodeToMemory(mem, uint32(to)), d.MapNodeToMemory(mem, uint32(from)), d.NodeSize())
	for i := 0; i < 3; i++ {
		src := i
		if i == to {
			src = from
		}
		sym.Assert(sameImage(b[i*size:(i+1)*size], was[src*size:(src+1)*size]), "a copy differs from the node, or another node changes")
	}
}

// C23CopyWide: other types, between different blocks of memory.
func C23CopyWide() {
	vl := uint64(sym.Pick("vl", 1, 3))
	d := interfaces.Distance[float64, uint64](angular.Distance[float64, uint64](vl))
	size := int(d.NodeSize())
	p, q := sym.GuardAlloc(size), sym.GuardAlloc(size)
	a, b := unsafe.Slice((*byte)(p), size), unsafe.Slice((*byte)(q), size)
	for i := range a {
		a[i] = sym.U8("byte")
	}
	utils.CopyNode[float64, uint64](d.MapNodeToMemory(q, 0), d.MapNodeToMemory(p, 0), d.NodeSize())
	sym.Assert(sameImage(a, b), "a copy differs from the node")
	sym.Assert(utils.GetPtr[float64, uint64](d.MapNodeToMemory(p, 0)) == p, "the address of a node")
}

// C23Long: every element of a long vector counts once and those beyond the length do not.
func C23Long() {
	n := long()
	at := sym.Pick("at", 0, n-1)
	f, g := moderate("x"), moderate("y")
	x, y := gvec(zeros(n, at, f)), gvec(spike(n, at, g))
	k := uint32(n)
	sym.Assert(near(vector.Dot(x, y, k), f*g), "the dot product")
	sym.Assert(near(vector.DotUnsafe(&x[0], &y[0], k), f*g), "the dot product by pointers")
	sym.Assert(near(vector.GetNorm(x, k), norm([]float32{f})), "the norm")
	sym.Assert(near(vector.GetNormUnsafe(&x[0], k), norm([]float32{f})), "the norm by pointer")
	z := gvec(make([]float32, n))
	sym.Assert(near(vector.EuclideanDistance(x, z, k), f*f), "the Euclidean distance")
	sym.Assert(near(vector.ManhattanDistance(x, z, k), sym.IteF32(f < 0, -f, f)), "the Manhattan distance")
	l := uint32(at)
	sym.Assert(vector.Dot(x, y, l) == 0 && vector.DotUnsafe(&x[0], &y[0], l) == 0, "elements beyond the length count")
	sym.Assert(vector.GetNorm(x, l) == 0 && vector.GetNormUnsafe(&x[0], l) == 0, "elements beyond the length count")
	sym.Assert(vector.EuclideanDistance(x, z, l) == 0 && vector.ManhattanDistance(x, z, l) == 0, "elements beyond the length count")
}

// C23LongSame: the two dot products agree on every bit pattern, long vectors.
func C23LongSame() {
	n := long()
	x, y := gvec(anyVec(n)), gvec(anyVec(n))
	a, b := vector.Dot(x, y, uint32(n)), vector.DotUnsafe(&x[0], &y[0], uint32(n))
	sym.Assert(sym.Or(near(a, b), sym.Or(a != a, b != b)), "the dot product by pointers is another one")
}
