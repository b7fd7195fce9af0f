package h

import (
	"unsafe"

	"vh/sym"

	"github.com/mariotoffia/goannoy/distance/angular"
	"github.com/mariotoffia/goannoy/distance/dotproduct"
	"github.com/mariotoffia/goannoy/index"
	"github.com/mariotoffia/goannoy/index/memory"
	"github.com/mariotoffia/goannoy/index/policy"
	"github.com/mariotoffia/goannoy/interfaces"
)

// ---- the place of nodes ----

func pointer[TV interfaces.VectorType, TIX interfaces.IndexTypes](n interfaces.Node[TV, TIX]) uintptr {
	return (*[2]uintptr)(unsafe.Pointer(&n))[1]
}

// layout: where nodes lie, for any vector length and any ids.
func layout[TV interfaces.VectorType, TIX interfaces.IndexTypes](mk func(TIX) interfaces.Distance[TV, TIX]) {
	vl := []int{1, 2, 3, 7, 100, 1000, 4096, 1<<20 - 1}[sym.Pick("vl", 0, 7)]
	d := mk(TIX(vl))
	sym.Assert(d.VectorLength() == TIX(vl), "vector length")
	size := uint64(d.NodeSize())
	sym.Assert(size >= uint64(vl)*uint64(unsafe.Sizeof(TV(0))) && size < 1<<25, "a node is too small for its vector")
	mem := sym.GuardAlloc(64)
	base := uint64(uintptr(mem))
	i := TIX(sym.U32("i"))
	a := uint64(pointer[TV, TIX](d.MapNodeToMemory(mem, 0)))
	b := uint64(pointer[TV, TIX](d.MapNodeToMemory(mem, i)))
	c := uint64(pointer[TV, TIX](d.MapNodeToMemory(mem, i+1)))
	sym.Assert(a == base, "the first node is at the start of the storage")
	sym.Assume(i+1 != 0)
	sym.Assert(b-base == uint64(i)*size, "a node is not where its id says")
	sym.Assert(c-base == uint64(i+1)*size, "a node is not where its id says")
}

// C17Layout: both metrics and every type.
func C17Layout() {
	switch sym.Pick("metric", 0, 7) {
	case 0:
		layout(func(v uint32) interfaces.Distance[float32, uint32] { return angular.Distance[float32](v) })
	case 1:
		layout(func(v uint32) interfaces.Distance[float64, uint32] { return angular.Distance[float64](v) })
	case 2:
		layout(func(v uint64) interfaces.Distance[float32, uint64] { return angular.Distance[float32](v) })
	case 3:
		layout(func(v uint64) interfaces.Distance[float64, uint64] { return angular.Distance[float64](v) })
	case 4:
		layout(func(v uint32) interfaces.Distance[float32, uint32] { return dotproduct.Distance[float32](v) })
	case 5:
		layout(func(v uint32) interfaces.Distance[float64, uint32] { return dotproduct.Distance[float64](v) })
	case 6:
		layout(func(v uint64) interfaces.Distance[float32, uint64] { return dotproduct.Distance[float32](v) })
	default:
		layout(func(v uint64) interfaces.Distance[float64, uint64] { return dotproduct.Distance[float64](v) })
	}
}

// inside: the parts of a node lie within it and only those overlap that may.
func inside[TV interfaces.VectorType, TIX interfaces.IndexTypes](mk func(TIX) interfaces.Distance[TV, TIX]) {
	vl := sym.Pick("vl", 1, 9)
	d := mk(TIX(vl))
	size := int(d.NodeSize())
	mem := sym.GuardAlloc(3 * size)
	all := unsafe.Slice((*byte)(mem), 3*size)
	for i := range all {
		all[i] = 0xA5
	}
	n := d.MapNodeToMemory(mem, 1)
	others := func() {
		for i := 0; i < size; i++ {
			sym.Assert(all[i] == 0xA5 && all[2*size+i] == 0xA5, "writing to a node changes another one")
		}
	}
	k := int(d.MaxNumChildren())
	sym.Assert(k >= 2, "a node has room for two children")
	// an item: a count, a vector, a norm
	v := make([]TV, vl)
	for i := range v {
		v[i] = TV(i + 1)
	}
	n.SetNumberOfDescendants(1)
	n.SetVector(v)
	n.SetNorm(77)
	others()
	sym.Assert(n.GetNumberOfDescendants() == 1, "an item's vector or norm overwrites its count")
	sym.Assert(n.GetNorm() == 77 || d.VectorLength() == 0, "an item's norm")
	w := n.GetVector(TIX(vl))
	sym.Assert(len(w) == vl && &w[0] == n.GetRawVector(), "the vector of an item")
	for i := range w {
		sym.Assert(w[i] == TV(i+1), "an item's norm or count overwrites its vector")
	}
	// a split: a count, two children, a vector
	n.SetNumberOfDescendants(TIX(k + 1))
	n.SetVector(v)
	n.SetChildren([]TIX{5, 6})
	others()
	r := unsafe.Slice(n.GetRawChildren(), 2)
	sym.Assert(n.GetNumberOfDescendants() == TIX(k+1) && r[0] == 5 && r[1] == 6, "a split's parts overwrite each other")
	for i, x := range n.GetVector(TIX(vl)) {
		sym.Assert(x == TV(i+1), "a split's children overwrite its vector")
	}
	// a leaf: a count and as many children as fit
	c := make([]TIX, k)
	for i := range c {
		c[i] = TIX(100 + i)
	}
	n.SetNumberOfDescendants(TIX(k))
	n.SetChildren(c)
	others()
	g := n.GetChildren()
	sym.Assert(len(g) == k && n.GetNumberOfDescendants() == TIX(k), "a leaf's children overwrite its count")
	for i := range g {
		sym.Assert(g[i] == TIX(100+i), "a leaf's children")
	}
	n.SetNumberOfDescendants(0)
	sym.Assert(len(n.GetChildren()) == 0, "a node without descendants has children")
}

// C17Inside: both metrics and every type.
func C17Inside() {
	switch sym.Pick("metric", 0, 7) {
	case 0:
		inside(func(v uint32) interfaces.Distance[float32, uint32] { return angular.Distance[float32](v) })
	case 1:
		inside(func(v uint32) interfaces.Distance[float64, uint32] { return angular.Distance[float64](v) })
	case 2:
		inside(func(v uint64) interfaces.Distance[float32, uint64] { return angular.Distance[float32](v) })
	case 3:
		inside(func(v uint64) interfaces.Distance[float64, uint64] { return angular.Distance[float64](v) })
	case 4:
		inside(func(v uint32) interfaces.Distance[float32, uint32] { return dotproduct.Distance[float32](v) })
	case 5:
		inside(func(v uint32) interfaces.Distance[float64, uint32] { return dotproduct.Distance[float64](v) })
	case 6:
		inside(func(v uint64) interfaces.Distance[float32, uint64] { return dotproduct.Distance[float32](v) })
	default:
		inside(func(v uint64) interfaces.Distance[float64, uint64] { return dotproduct.Distance[float64](v) })
	}
}

// book is a build allocator that only keeps the books: its memory is never touched.
type book struct {
	p    unsafe.Pointer
	size int
	n    int
}

func (b *book) Reallocate(n int) unsafe.Pointer {
	sym.Assert(n >= 0 && n < 1<<60, "an absurd size is asked for")
	b.n++
	if n > b.size {
		b.size = n
	}
	return b.p
}

func (b *book) Free() { b.size = 0 }

// fits: node i of the given size lies within so many bytes.
func fits(i uint32, node, size int) bool {
	n := int(i + 1)                               // no id is the greatest one
	return sym.Or(n*node == size, n <= size/node) // the first is simple, the second is enough
}

// fdist checks that every node lies within the storage and keeps them elsewhere.
type fdist struct {
	dist
	size  func() int
	mem   unsafe.Pointer
	small func(i uint32) unsafe.Pointer
}

func (d *fdist) MapNodeToMemory(mem unsafe.Pointer, i uint32) node {
	if mem != d.mem {
		return d.dist.MapNodeToMemory(mem, i)
	}
	sym.Assert(fits(i, int(d.NodeSize()), d.size()), "a node lies outside of the storage")
	return d.dist.MapNodeToMemory(d.small(i), 0)
}

// C17Add: adding items with any ids asks for enough storage, also beyond 4 GiB.
func C17Add() {
	vl := uint32(sym.Pick("vl", 1, 3))
	if vl == 3 {
		vl = 1021 // 4096 bytes
	}
	b := &book{p: sym.GuardAlloc(8)}
	real := angular.Distance[float32, uint32](vl)
	one := sym.GuardAlloc(int(real.NodeSize()))
	d := &fdist{dist: real, size: func() int { return b.size }, mem: b.p, small: func(uint32) unsafe.Pointer { return one }}
	idx := index.New[float32, uint32](&srnd{}, d, policy.SingleWorker(), b, memory.MmapIndexAllocator(), nil, false, uint32(sym.Pick("hint", 0, 1))*1000)
	v := make([]float32, vl)
	for i := sym.Pick("first", 0, 1); i < 2; i++ {
		id := sym.U32("id")
		sym.Assume(id < 1<<32-1)
		if i == 0 {
			id = []uint32{0, 7, 999, 178956970, 1<<31 - 1, 1<<32 - 2}[sym.Pick("id0", 0, 5)]
		}
		v[0] = float32(i)
		idx.AddItem(id, v)
		sym.Assert(fits(id, int(real.NodeSize()), b.size), "the storage is too small for the item")
		sym.Assert(idx.GetItem(id)[0] == float32(i), "the item that has been added")
	}
}

// C17Few: adding ascending ids does not reallocate every time.
func C17Few() {
	b := &book{p: sym.GuardAlloc(8)}
	real := angular.Distance[float32, uint32](1)
	one := sym.GuardAlloc(int(real.NodeSize()))
	d := &fdist{dist: real, size: func() int { return b.size }, mem: b.p, small: func(uint32) unsafe.Pointer { return one }}
	idx := index.New[float32, uint32](&srnd{}, d, policy.SingleWorker(), b, memory.MmapIndexAllocator(), nil, false, 0)
	for i := uint32(0); i < 300; i++ {
		idx.AddItem(i, []float32{1})
	}
	sym.Assert(b.n < 40 && b.size < 10*300*int(real.NodeSize()), "the storage grows too often or too much")
}

// big is a loaded file of any size whose content is never touched.
type big struct {
	p unsafe.Pointer
	n int64
}

func (b *big) Open(string) (interfaces.AllocatedIndex, error) { return b, nil }
func (b *big) Get(string) (interfaces.AllocatedIndex, bool)   { return b, true }
func (b *big) Close() error                                   { return nil }
func (b *big) Ptr() unsafe.Pointer                            { return b.p }
func (b *big) Size() int64                                    { return b.n }

// C17Load: a file of several GiB is loaded as a whole: the nodes at its end are its roots.
func C17Load() {
	vl := uint32(1 << 23) // 32 MiB each
	real := angular.Distance[float32, uint32](vl)
	n := sym.Pick("nodes", 0, 3)
	n = []int{100, 128, 129, 300}[n]
	b := &big{p: sym.GuardAlloc(8), n: int64(n) * int64(real.NodeSize())}
	// items 0..n-4 and a tree: a leaf of all of them, that root and its copy
	item, root := sym.GuardAlloc(64), sym.GuardAlloc(12+4*n)
	k := n - 2
	in := angular.Distance[float32, uint32](1).MapNodeToMemory(item, 0)
	in.SetNumberOfDescendants(1)
	in.SetVector([]float32{3})
	rn := angular.Distance[float32, uint32](1).MapNodeToMemory(root, 0)
	rn.SetNumberOfDescendants(uint32(k))
	ch := make([]uint32, k)
	for i := range ch {
		ch[i] = uint32(i)
	}
	rn.SetChildren(ch)
	touched := uint32(0)
	d := &fdist{dist: &flat{real}, size: func() int { return int(b.n) }, mem: b.p, small: func(i uint32) unsafe.Pointer {
		if i > touched {
			touched = i
		}
		if int(i) < k {
			return item
		}
		return root
	}}
	idx := index.New[float32, uint32](&srnd{}, d, policy.SingleWorker(), &galloc{}, b, nil, false, 0)
	sym.Assert(idx.Load("x") == nil, "load")
	sym.Assert(int(touched) == n-1, "the end of the file has not been read")
	ids, _ := idx.GetNnsByItem(uint32(k-1), n, n, idx.CreateContext())
	sym.Assert(len(ids) == k, "a search of a large index misses items")
}

// flat keeps the real size of nodes but vectors of one element.
type flat struct{ dist }

func (f *flat) VectorLength() uint32       { return 1 }
func (f *flat) Distance(x, y node) float32 { return x.GetVector(1)[0] - y.GetVector(1)[0] }
func (f *flat) InitNode(n node)            {}
