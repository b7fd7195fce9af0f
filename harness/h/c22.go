package h

import (
	"math"
	"unsafe"

	"vh/sym"

	"github.com/mariotoffia/goannoy/distance"
	"github.com/mariotoffia/goannoy/distance/angular"
	"github.com/mariotoffia/goannoy/interfaces"
)

// ---- splits ----

// draws is a random generator whose first indexes are arbitrary; after that it goes round,
// or yields one index only.
type draws struct {
	interfaces.Random[uint32]
	first int
	only  int
	n     int
	got   []uint32
}

func (d *draws) NextIndex(n uint32) uint32 {
	sym.Assert(n > 0, "an index is drawn out of none")
	d.n++
	i := uint32(d.n) % n
	switch {
	case d.n <= d.first:
		i = uint32(sym.Pick("draw", 0, int(n)-1))
	case d.only >= 0:
		i = uint32(d.only)
	}
	d.got = append(d.got, i)
	return i
}

// crowd puts items into guarded memory that ends with the last of them.
func crowd(d dist, vs [][]float32) ([]node, []byte) {
	size := int(d.NodeSize())
	mem := sym.GuardAlloc(len(vs) * size)
	ns := make([]node, len(vs))
	for i, v := range vs {
		ns[i] = d.MapNodeToMemory(mem, uint32(i))
		ns[i].SetNumberOfDescendants(1)
		ns[i].SetVector(v)
		d.InitNode(ns[i])
	}
	return ns, unsafe.Slice((*byte)(mem), len(vs)*size)
}

func norm(v []float32) float32 { return float32(math.Sqrt(float64(product(v, v)))) }

func scaled(v []float32) []float32 {
	w := clone(v)
	if n := norm(v); n > 0 {
		for i := range w {
			w[i] /= n
		}
	}
	return w
}

// C22Normalize: a normalised vector is the vector divided by its norm, that of no length is kept.
func C22Normalize() {
	n := sym.Pick("n", 1, 3)
	d := metric(uint32(n))
	v := vec(n, moderate)
	nd := guarded(d, v)
	nd.SetNumberOfDescendants(7)
	d.Normalize(nd)
	w := scaled(v)
	for i, x := range nd.GetVector(uint32(n)) {
		sym.Assert(near(x, w[i]), "normalising is not a division by the norm")
	}
	sym.Assert(nd.GetNumberOfDescendants() == 7, "normalising changes the count of a node")
}

// C22NormalizeValue: given vectors.
func C22NormalizeValue() {
	d := metric(2)
	p := points[sym.Pick("p", 0, len(points)-1)]
	nd := guarded(d, p)
	d.Normalize(nd)
	v := nd.GetVector(2)
	l := math.Hypot(float64(v[0]), float64(v[1]))
	if p[0] == 0 && p[1] == 0 {
		sym.Assert(l == 0, "a vector of no length gets one")
		return
	}
	sym.Assert(math.Abs(l-1) < 1e-3, "a normalised vector has another length than one")
	k := math.Hypot(float64(p[0]), float64(p[1]))
	sym.Assert(math.Abs(float64(v[0])-float64(p[0])/k) < 1e-3 && math.Abs(float64(v[1])-float64(p[1])/k) < 1e-3, "normalising changes the direction")
}

// C22Any: whatever the items are (not numbers, too), a split changes none of them, nothing beside its
// node's vector, and stays within the memory.
func C22Any() {
	vl := sym.Pick("vl", 1, 2)
	n := sym.Pick("n", 2, 3)
	d := metric(uint32(vl))
	vs := make([][]float32, n)
	for i := range vs {
		vs[i] = anyVec(vl)
	}
	ns, mem := crowd(d, append(vs, make([]float32, vl)))
	was := append([]byte(nil), mem...)
	plane := d.MapNodeToMemory(sym.GuardAlloc(int(d.NodeSize())), 0)
	plane.SetNumberOfDescendants(5)
	// after some draws only the item of no length is drawn, it moves nothing
	r := &draws{first: 2, only: n}
	d.CreateSplit(ns, d.NodeSize(), r, plane)
	sym.Assert(sameImage(mem, was), "a split changes an item")
	sym.Assert(plane.GetNumberOfDescendants() == 5, "a split changes its node's count")
}

// C22Move: also when centroids move.
func C22Move() {
	d := metric(1)
	vs := [][]float32{anyVec(1), {3}, {0}}
	ns, mem := crowd(d, vs)
	was := append([]byte(nil), mem...)
	plane := d.MapNodeToMemory(sym.GuardAlloc(int(d.NodeSize())), 0)
	r := &draws{first: 3, only: 2}
	d.CreateSplit(ns, d.NodeSize(), r, plane)
	sym.Assert(sameImage(mem, was), "a split changes an item")
}

// C22Plane: without any movement the plane lies half way between the two normalised items that are drawn.
func C22Plane() {
	vl := sym.Pick("vl", 1, 2)
	d := metric(uint32(vl))
	vs := [][]float32{vec(vl, moderate), vec(vl, moderate), make([]float32, vl)}
	ns, _ := crowd(d, vs)
	plane := d.MapNodeToMemory(sym.GuardAlloc(int(d.NodeSize())), 0)
	r := &draws{first: 2, only: 2}
	d.CreateSplit(ns, d.NodeSize(), r, plane)
	i, j := r.got[0], r.got[1]
	if j >= i {
		j++
	}
	a, b := scaled(vs[i]), scaled(vs[j])
	w := make([]float32, vl)
	for k := range w {
		w[k] = a[k] - b[k]
	}
	w = scaled(w)
	for k, x := range plane.GetVector(uint32(vl)) {
		sym.Assert(near(x, w[k]), "the plane is not half way between the items")
	}
}

var (
	west = [][]float32{{-4, 1}, {-5, 0}, {-3, -0.5}}
	east = [][]float32{{6, 1}, {2, -0.5}, {4, 0.25}}
)

// C22Separates: two groups of items in opposite directions are separated, whichever two different
// items of the two groups are drawn first, and whatever is drawn next.
func C22Separates() {
	d := metric(2)
	var vs [][]float32
	k := sym.Pick("k", 1, 3)
	for i := 0; i < k; i++ {
		vs = append(vs, west[i], east[i])
	}
	ns, _ := crowd(d, vs)
	r := &draws{first: 3, only: -1}
	plane := d.MapNodeToMemory(sym.GuardAlloc(int(d.NodeSize())), 0)
	d.CreateSplit(ns, d.NodeSize(), r, plane)
	i, j := r.got[0], r.got[1]
	if j >= i {
		j++
	}
	v := plane.GetVector(2)
	l := math.Hypot(float64(v[0]), float64(v[1]))
	sym.Assert(math.Abs(l-1) < 1e-3, "the plane is not normalised")
	if i&1 == j&1 {
		return // both of the same group
	}
	for a := range vs {
		s := d.Side(plane, vs[a], nil)
		sym.Assert((s == interfaces.SideRight) == (a&1 == int(i&1)), "two groups of items are not separated")
	}
	sym.Cover("separated")
}

// C22Same: equal items have no plane between them.
func C22Same() {
	d := metric(2)
	n := sym.Pick("n", 2, 4)
	p := points[sym.Pick("p", 0, len(points)-1)]
	var vs [][]float32
	for i := 0; i < n; i++ {
		vs = append(vs, p)
	}
	ns, _ := crowd(d, vs)
	plane := d.MapNodeToMemory(sym.GuardAlloc(int(d.NodeSize())), 0)
	d.CreateSplit(ns, d.NodeSize(), &draws{first: 3, only: -1}, plane)
	v := plane.GetVector(2)
	sym.Assert(v[0] == v[0] && v[1] == v[1], "a plane that is not a number")
}

// C22Two: of two items two different ones are drawn, and their plane separates them.
func C22Two() {
	d := metric(2)
	x, y := points[sym.Pick("x", 1, len(points)-1)], points[sym.Pick("y", 1, len(points)-1)]
	ns, _ := crowd(d, [][]float32{x, y})
	plane := d.MapNodeToMemory(sym.GuardAlloc(int(d.NodeSize())), 0)
	r := &draws{first: 4, only: -1}
	d.CreateSplit(ns, d.NodeSize(), r, plane)
	if float64(x[0])*float64(y[1]) == float64(x[1])*float64(y[0]) {
		return // parallel
	}
	s, t := d.Side(plane, x, nil), d.Side(plane, y, nil)
	sym.Assert(s != t, "two items of different directions are not separated")
	sym.Assert((s == interfaces.SideRight) == (r.got[0] == 0), "the first item is not on the right")
}

// C22Means: two groups by their places, not their directions, also when nothing is normalised.
func C22Means() {
	d := angular.Distance[float32, uint32](2)
	vs := [][]float32{west[0], east[0], west[1], east[1], {0, 0}}
	ns, mem := crowd(d, vs)
	was := append([]byte(nil), mem...)
	p := d.MapNodeToMemory(sym.GuardAlloc(int(d.NodeSize())), 0)
	q := d.MapNodeToMemory(sym.GuardAlloc(int(d.NodeSize())), 0)
	cosine := sym.Pick("cosine", 0, 1) == 1
	r := &draws{first: 3, only: -1}
	distance.TwoMeans[float32, uint32](ns, 2, r, cosine, p, q, d)
	sym.Assert(sameImage(mem, was), "a split changes an item")
	i, j := r.got[0], r.got[1]
	if j >= i {
		j++
	}
	if i == 4 || j == 4 || i&1 == j&1 {
		return
	}
	a, b := p.GetVector(2), q.GetVector(2)
	sym.Assert((a[0] > 0) == (i&1 == 1) && (b[0] > 0) == (j&1 == 1), "a centroid is not where its group is")
	sym.Assert(len(r.got) >= 2, "draws")
}

// C22Long: all elements of long vectors are normalised.
func C22Long() {
	n := long()
	at := sym.Pick("at", 0, n-1)
	d := metric(uint32(n))
	f := moderate("x")
	v := zeros(n, at, f)
	nd := guarded(d, v)
	d.Normalize(nd)
	for i, x := range nd.GetVector(uint32(n)) {
		w := float32(0)
		if i == at {
			w = scaled([]float32{f})[0]
		}
		sym.Assert(near(x, w), "normalising is not a division by the norm")
	}
}

// C22LongSplit: all elements of long vectors make up the plane.
func C22LongSplit() {
	n := long()
	d := metric(uint32(n))
	a, b := make([]float32, n), make([]float32, n)
	for i := range a {
		a[i], b[i] = float32(i%5)-2, float32(i*i%7)-3
	}
	ns, _ := crowd(d, [][]float32{a, b})
	m := d.MapNodeToMemory(sym.GuardAlloc(int(d.NodeSize())), 0)
	d.CreateSplit(ns, d.NodeSize(), &draws{first: 2, only: -1}, m)
	v := m.GetVector(uint32(n))
	pa, pb := product(v, a), product(v, b)
	sym.Assert(sym.Or(sym.And(pa > 0, pb < 0), sym.And(pa < 0, pb > 0)), "two items are not separated")
	l := product(v, v)
	sym.Assert(near(l, 1), "the plane is not normalised")
}
