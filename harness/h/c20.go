package h

import (
	"math"
	"unsafe"

	"vh/sym"

	"github.com/mariotoffia/goannoy/distance/dotproduct"
	"github.com/mariotoffia/goannoy/index"
	"github.com/mariotoffia/goannoy/index/policy"
	"github.com/mariotoffia/goannoy/interfaces"
)

// ---- the dot product distance ----

// product is the dot product as one computes it.
func product(x, y []float32) float32 {
	var s float32
	for i := range x {
		s += x[i] * y[i]
	}
	return s
}

// C20Reference: the distance is the negated dot product, the normalised one the dot product.
func C20Reference() {
	n := sym.Pick("n", 1, 4)
	d := dotproduct.Distance[float32, uint32](uint32(n))
	x, y := vec(n, moderate), vec(n, moderate)
	a, b := refNode(d, x), refNode(d, y)
	got := d.Distance(a, b)
	sym.Assert(near(got, -product(x, y)), "the distance is not the negated dot product")
	sym.Assert(eqf(got, d.Distance(b, a)), "the distance is not symmetric")
	sym.Assert(near(d.NormalizedDistance(got), product(x, y)), "the normalised distance is not the dot product")
	sym.Assert(sameBits(a.GetVector(uint32(n)), x) && sameBits(b.GetVector(uint32(n)), y), "measuring changes the vectors")
}

// C20Negate: normalising negates, whatever the distance is.
func C20Negate() {
	d := dotproduct.Distance[float32, uint32](1)
	x := sym.F32("x")
	y := d.NormalizedDistance(x)
	sym.Assert(eqf(y, -x), "the normalised distance is not the negated distance")
	e := dotproduct.Distance[float64, uint64](1)
	z := sym.F64("z")
	w := e.NormalizedDistance(z)
	sym.Assert(sym.Or(w == -z, sym.And(w != w, z != z)), "the normalised distance is not the negated distance")
}

// C20Value: given vectors, all types.
func C20Value() {
	x, y := points[sym.Pick("x", 0, len(points)-1)], points[sym.Pick("y", 0, len(points)-1)]
	want := float64(x[0])*float64(y[0]) + float64(x[1])*float64(y[1])
	d := dotproduct.Distance[float32, uint32](2)
	sym.Assert(float64(d.Distance(refNode(d, x), refNode(d, y))) == -want, "the distance is not the negated dot product")
	e := dotproduct.Distance[float64, uint64](2)
	m, k := make([]byte, e.NodeSize()), make([]byte, e.NodeSize())
	a, b := e.MapNodeToMemory(unsafe.Pointer(&m[0]), 0), e.MapNodeToMemory(unsafe.Pointer(&k[0]), 0)
	a.SetVector([]float64{float64(x[0]), float64(x[1])})
	b.SetVector([]float64{float64(y[0]), float64(y[1])})
	sym.Assert(e.Distance(a, b) == -want, "the distance is not the negated dot product")
}

func dotIndex(vl uint32) index32 {
	return index.New[float32, uint32](&srnd{}, dotproduct.Distance[float32, uint32](vl), policy.SingleWorker(), &galloc{}, ialloc("alloc"), nil, false, 0)
}

// C20Index: an index reports the dot products of its items, added, built or loaded.
func C20Index() {
	const vl, n = 2, 3
	idx := dotIndex(vl)
	vs := make([][]float32, n)
	for i := range vs {
		vs[i] = vec(vl, moderate)
		idx.AddItem(uint32(i), clone(vs[i]))
	}
	st := sym.Pick("state", 0, 2)
	if st > 0 {
		idx.Build(1, 1)
	}
	if st > 1 {
		sym.Assert(idx.Save(sym.TempDir()+"/d.ann") == nil, "save")
	}
	i, j := sym.Pick("i", 0, n-1), sym.Pick("j", 0, n-1)
	g := idx.GetDistance(uint32(i), uint32(j))
	sym.Assert(near(g, product(vs[i], vs[j])), "the distance of two items is not their dot product")
	for i := range vs {
		sym.Assert(sameBits(idx.GetItem(uint32(i)), vs[i]), "an item changes")
	}
}

// greatest asserts that the search returns the items of the greatest dot products, greatest first.
func greatest(idx index32, vs [][]float32, q []float32, ids []uint32, dd []float32, k int) {
	want := k
	if want > len(vs) {
		want = len(vs)
	}
	sym.Assert(len(ids) == want && len(dd) == want, "an exhaustive search returns another number of items")
	in := make([]bool, len(vs))
	for i, id := range ids {
		sym.Assert(int(id) < len(vs) && !in[id], "a result is no item or appears twice")
		in[id] = true
		sym.Assert(near(dd[i], product(q, vs[id])), "a result's distance is not its dot product with the query")
		if i > 0 {
			sym.Assert(sym.Not(dd[i-1] < dd[i]), "results are not in order of their dot products")
		}
	}
	if want == 0 {
		return
	}
	for j := range vs {
		if !in[j] {
			p := product(q, vs[j])
			sym.Assert(sym.Or(sym.Not(dd[want-1] < p), near(p, dd[want-1])), "an item of a greater dot product is missing")
		}
	}
}

// C20Search: exhaustive searches for an arbitrary vector among arbitrary items.
func C20Search() { dotSearch(1, sym.Pick("n", 1, 2)) }

// C20SearchDeep: more items, longer vectors.
func C20SearchDeep() { dotSearch(uint32(sym.Pick("vl", 1, 2)), sym.Pick("n", 2, 3)) }

func dotSearch(vl uint32, n int) {
	idx := dotIndex(vl)
	vs := make([][]float32, n)
	for i := range vs {
		vs[i] = vec(int(vl), moderate)
		if i == 2 {
			vs[i] = clone([]float32{-2, 3}[:vl])
		}
		idx.AddItem(uint32(i), clone(vs[i]))
	}
	idx.Build(1, 1)
	q := vec(int(vl), moderate)
	for _, v := range vs {
		p := product(q, v)
		sym.Assume(p == p) // true of moderate vectors
	}
	k := sym.Pick("k", 1, n)
	ids, dd := idx.GetNnsByVector(clone(q), k, 1000, idx.CreateContext())
	greatest(idx, vs, q, ids, dd, k)
}

// C20Given: split trees of given items, any query among given ones, built or loaded.
func C20Given() {
	idx := dotIndex(2)
	for i, p := range points {
		idx.AddItem(uint32(i), clone(p))
	}
	idx.Build(sym.Pick("trees", 1, 2), 1)
	if sym.Pick("saved", 0, 1) == 1 {
		sym.Assert(idx.Save(sym.TempDir()+"/d.ann") == nil, "save")
	}
	q := points[sym.Pick("q", 1, len(points)-1)]
	k := sym.Pick("k", 0, 11)
	ids, dd := idx.GetNnsByVector(clone(q), k, 1000, idx.CreateContext())
	greatest(idx, points, q, ids, dd, k)
}

// C20Factor: preparing gives every item an extra dimension so that all have the norm of the longest; vectors stay.
func C20Factor() {
	vl := sym.Pick("vl", 1, 2)
	n := sym.Pick("n", 1, 3)
	d := dotproduct.Distance[float32, uint32](uint32(vl))
	size := int(d.NodeSize())
	mem := sym.GuardAlloc(n * size)
	vs := make([][]float32, n)
	for i := range vs {
		vs[i] = vec(vl, moderate)
		nd := d.MapNodeToMemory(mem, uint32(i))
		nd.SetNumberOfDescendants(1)
		nd.SetVector(vs[i])
	}
	d.PreProcess(mem, uint32(n))
	zero := make([]float32, vl)
	var longest float32
	for _, v := range vs {
		s := float32(math.Sqrt(float64(product(v, v))))
		longest = sym.IteF32(s > longest, s, longest)
	}
	for i, v := range vs {
		nd := d.MapNodeToMemory(mem, uint32(i))
		sym.Assert(nd.GetNumberOfDescendants() == 1 && sameBits(nd.GetVector(uint32(vl)), v), "preparing changes an item")
		s := float32(math.Sqrt(float64(product(v, v))))
		diff := float32(math.Pow(float64(longest), 2)) - float32(math.Pow(float64(s), 2))
		f := float32(0)
		if diff >= 0 {
			f = float32(math.Sqrt(float64(diff)))
		}
		// the margin for nothing is the square of the extra dimension
		sym.Assert(near(d.Margin(nd, zero), product(v, zero)+f*f), "the extra dimension does not make up for the missing length")
	}
}

// C20FactorValue: given vectors in higher precision, wide types, also none at all and vectors that are not numbers.
func C20FactorValue() {
	d := dotproduct.Distance[float64, uint64](2)
	size := int(d.NodeSize())
	first, n := sym.Pick("first", 0, len(points)-1), sym.Pick("n", 0, 4)
	if first+n > len(points) {
		return
	}
	mem := sym.GuardAlloc(n*size + 1)
	longest := 0.0
	for i := 0; i < n; i++ {
		nd := d.MapNodeToMemory(mem, uint64(i))
		x, y := float64(points[first+i][0]), float64(points[first+i][1])
		nd.SetVector([]float64{x, y})
		longest = math.Max(longest, x*x+y*y)
	}
	d.PreProcess(mem, uint64(n))
	for i := 0; i < n; i++ {
		nd := d.MapNodeToMemory(mem, uint64(i))
		x, y := float64(points[first+i][0]), float64(points[first+i][1])
		got := d.Margin(nd, []float64{0, 0})
		sym.Assert(math.Abs(got-(longest-x*x-y*y)) < 1e-6, "the extra dimension does not make up for the missing length")
		v := nd.GetVector(2)
		sym.Assert(v[0] == x && v[1] == y, "preparing changes an item")
	}
}

var _ interfaces.Node[float32, uint32]

// C20Long: every element of long vectors counts once.
func C20Long() {
	n := long()
	at := sym.Pick("at", 0, n-1)
	d := dotproduct.Distance[float32, uint32](uint32(n))
	f, g := moderate("x"), moderate("y")
	a, b := refNode(d, zeros(n, at, f)), refNode(d, spike(n, at, g))
	sym.Assert(near(d.Distance(a, b), -(f*g)), "the distance is not the negated dot product")
	sym.Assert(near(d.Distance(b, a), -(f*g)), "the distance is not the negated dot product")
}
