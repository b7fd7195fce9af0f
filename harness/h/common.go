package h

import (
	"math"
	"unsafe"

	"vh/sym"

	"github.com/mariotoffia/goannoy/distance/angular"
	"github.com/mariotoffia/goannoy/index"
	"github.com/mariotoffia/goannoy/index/memory"
	"github.com/mariotoffia/goannoy/index/policy"
	"github.com/mariotoffia/goannoy/interfaces"
)

type (
	node    = interfaces.Node[float32, uint32]
	rnd32   = interfaces.Random[uint32]
	dist    = interfaces.Distance[float32, uint32]
	index32 = interfaces.AnnoyIndex[float32, uint32]
)

// ndist is a distance whose split decisions, margins and distances are arbitrary:
// the hyperplane of a split node is one symbolic margin, the side an item goes to
// is a symbolic choice and the distance of an item to any query is the first
// element of its vector. Everything else is the real angular implementation.
type ndist struct {
	dist
	// sides yields the side of the next item
	sides func() interfaces.Side
	// margins yields the margin of the next split
	margins func() float32
}

func (d *ndist) CreateSplit(children []node, nodeSize uint32, r rnd32, m node) {
	v := m.GetVector(d.VectorLength())
	v[0] = d.margins()
}

func (d *ndist) Side(m node, v []float32, r rnd32) interfaces.Side { return d.sides() }

func (d *ndist) Margin(n node, y []float32) float32 { return n.GetVector(d.VectorLength())[0] }

func (d *ndist) Distance(x, y node) float32 { return y.GetVector(d.VectorLength())[0] }

func (d *ndist) NormalizedDistance(x float32) float32 { return x }

// symSides yields symbolic sides for the first n decisions, alternating ones after that.
func symSides(n int) func() interfaces.Side {
	k := 0
	return func() interfaces.Side {
		k++
		if k > n {
			return interfaces.Side(k & 1)
		}
		if sym.Bool("side") {
			return interfaces.SideRight
		}
		return interfaces.SideLeft
	}
}

// finite is a symbolic float that is neither NaN nor infinite.
func finite(name string) float32 {
	f := sym.F32(name)
	sym.Assume(sym.IsFinite32(f))
	return f
}

// ordf is a symbolic positive float from a domain of 256 values, enough for every
// order (with ties) of a few of them.
func ordf(name string) float32 {
	return math.Float32frombits(0x40000000 | uint32(sym.U8(name))<<18)
}

// ordm is a symbolic float of either sign from a domain of 256 values.
func ordm(name string) float32 {
	b := uint32(sym.U8(name))
	return math.Float32frombits(0x40000000 | (b&0x7f)<<18 | (b>>7)<<31)
}

// srnd is a random generator with scripted sides: symbolic for the first draws, then
// alternating so that randomised splits end.
type srnd struct {
	n    int
	seed uint32
}

func (r *srnd) Next() uint32 { r.n++; return uint32(r.n) }
func (r *srnd) NextSide() interfaces.Side {
	r.n++
	return interfaces.Side(r.n & 1)
}
func (r *srnd) NextIndex(n uint32) uint32 { r.n++; return uint32(r.n) % n }
func (r *srnd) SetSeed(s uint32)          { r.seed = s }
func (r *srnd) GetSeed() uint32           { return r.seed }
func (r *srnd) CloneAndReset() rnd32      { return &srnd{seed: r.seed} }

// galloc is a build allocator on guarded memory: blocks end at an inaccessible
// page and the previous block becomes inaccessible as soon as it is replaced.
type galloc struct {
	p  unsafe.Pointer
	n  int
	sz []int
}

func (a *galloc) Reallocate(n int) unsafe.Pointer {
	if a.p != nil && n < a.n {
		return a.p
	}
	q := sym.GuardAlloc(n)
	if a.p != nil {
		copy(unsafe.Slice((*byte)(q), n), unsafe.Slice((*byte)(a.p), a.n))
		sym.GuardFree(a.p)
	}
	a.p, a.n = q, n
	return q
}

func (a *galloc) Free() {
	if a.p != nil {
		sym.GuardFree(a.p)
	}
	a.p, a.n = nil, 0
}

// nd returns the arbitrary distance and an index that uses it on guarded memory.
func nd(vl uint32, draws int, alloc interfaces.IndexAllocator) (*ndist, *galloc, index32) {
	d := &ndist{dist: angular.Distance[float32, uint32](vl), sides: symSides(draws), margins: func() float32 { return ordm("margin") }}
	a := &galloc{}
	if alloc == nil {
		alloc = memory.MmapIndexAllocator()
	}
	return d, a, index.New[float32, uint32](&srnd{}, d, policy.SingleWorker(), a, alloc, nil, false, 0)
}

// forest is a decoded index file.
type forest struct {
	d     dist
	p     unsafe.Pointer
	n     int // nodes
	items int
	trees int
	k     int
	has   []bool // the ids that have been added; nil for all
}

// count is the number of items.
func (f *forest) count() int {
	if f.has == nil {
		return f.items
	}
	n := 0
	for _, h := range f.has {
		if h {
			n++
		}
	}
	return n
}

func (f *forest) node(i int) node { return f.d.MapNodeToMemory(f.p, uint32(i)) }

// leaf returns the items of a leaf. A leaf that is a root has room for every id up to
// the largest; the rest of it is empty.
func (f *forest) leaf(nd node) []uint32 {
	ch := nd.GetChildren()
	if k := f.count(); f.has != nil && len(ch) > k {
		for _, c := range ch[k:] {
			sym.Assert(c == 0, "a leaf refers to an item that has not been added")
		}
		return ch[:k]
	}
	return ch
}

// walk visits the tree below i and returns the number of items in it; seen counts
// how often each node has been reached.
func (f *forest) walk(i int, root bool, seen []int, depth int) int {
	sym.Assert(i >= 0 && i < f.n, "a tree refers to a node outside of the index")
	sym.Assert(depth <= f.n, "a tree is cyclic")
	seen[i]++
	nd := f.node(i)
	k := int(nd.GetNumberOfDescendants())
	if i < f.items && !root {
		sym.Assert(k == 1, "a tree refers to an item that has not been added")
		return 1
	}
	if k <= f.k {
		ch := nd.GetChildren()
		got := 0
		if root {
			k = f.count()
			ch = f.leaf(nd)
		}
		for _, c := range ch[:k] {
			sym.Assert(int(c) < f.items, "a leaf refers to something that is no item")
			seen[c]++
			sym.Assert(f.node(int(c)).GetNumberOfDescendants() == 1, "a leaf refers to an item that has not been added")
			got++
		}
		sym.Assert(got == k, "number of items in a leaf")
		return k
	}
	ch := unsafe.Slice(nd.GetRawChildren(), 2)
	if root && f.count() == 1 && f.node(int(ch[1])).GetNumberOfDescendants() == 0 {
		// the only item and a place without one
		return f.walk(int(ch[0]), false, seen, depth+1)
	}
	l := f.walk(int(ch[0]), false, seen, depth+1)
	r := f.walk(int(ch[1]), false, seen, depth+1)
	sym.Assert(l > 0 && r > 0, "a split with an empty side")
	if !root {
		sym.Assert(l+r == k, "descendant count of a split node")
	}
	return l + r
}

// checkForest asserts that the file behind p with n nodes holds trees complete trees
// over the items whose ids are 0..items-1 (all of them added).
func (f *forest) check() {
	sym.Assert(f.n >= f.items+2*f.trees, "the file is too short for the trees")
	first := f.n - f.trees // copies of the roots
	total := make([]int, f.n)
	for t := first; t < f.n; t++ {
		sym.Assert(int(f.node(t).GetNumberOfDescendants()) == f.items, "descendant count of a root")
		seen := make([]int, f.n)
		got := f.walk(t, true, seen, 0)
		sym.Assert(got == f.count(), "a tree does not hold every item")
		for i := 0; i < f.items; i++ {
			sym.Assert(seen[i] == 1 || f.has != nil && !f.has[i] && seen[i] == 0, "an item is not exactly once in every tree")
		}
		for i := f.items; i < f.n; i++ {
			total[i] += seen[i]
		}
		// the original of the root
		orig := 0
		for i := f.items; i < first; i++ {
			if sameNode(f, i, t) {
				orig++
			}
		}
		sym.Assert(orig >= 1, "a root copy without an original")
	}
	for i := f.items; i < f.n; i++ {
		sym.Assert(total[i] <= 1, "a node is shared between trees")
	}
}

// sameNode compares descendants and children of two inner nodes.
func sameNode(f *forest, i, j int) bool {
	a, b := f.node(i), f.node(j)
	if a.GetNumberOfDescendants() != b.GetNumberOfDescendants() {
		return false
	}
	k := int(a.GetNumberOfDescendants())
	if k > f.k {
		k = 2
	}
	x, y := unsafe.Slice(a.GetRawChildren(), k), unsafe.Slice(b.GetRawChildren(), k)
	for c := range x {
		if x[c] != y[c] {
			return false
		}
	}
	same := true
	if int(a.GetNumberOfDescendants()) > f.k {
		v, w := a.GetVector(f.d.VectorLength()), b.GetVector(f.d.VectorLength())
		for c := range v {
			same = sym.And(same, eqf(v[c], w[c]))
		}
	}
	return same
}

func le32(a, b float32) bool { return sym.Not(b < a) }

func eqf(a, b float32) bool { return sym.Or(a == b, sym.And(a != a, b != b)) }
