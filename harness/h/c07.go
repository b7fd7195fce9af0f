package h

import (
	"unsafe"

	"vh/sym"

	"github.com/mariotoffia/goannoy/index"
	"github.com/mariotoffia/goannoy/index/memory"
	"github.com/mariotoffia/goannoy/index/policy"
)

// ---- searches only read ----

// sameHits asserts that two searches agree.
func sameHits(a []uint32, da []float32, b []uint32, db []float32) {
	sym.Assert(len(a) == len(b) && len(da) == len(db), "the same search yields another number of results")
	for i := range a {
		sym.Assert(a[i] == b[i], "the same search yields other items")
		sym.Assert(eqf(da[i], db[i]), "the same search yields other distances")
	}
}

// reader runs one of the read-only operations of the index.
func reader(idx index32, op, n, k, b int, q []float32, ctx any) {
	switch op {
	case 0:
		idx.GetNnsByVector(q, k, b, ctx)
	case 1:
		idx.GetNnsByItem(uint32(n-1), k, b, ctx)
	case 2:
		idx.GetDistance(0, uint32(n-1))
	case 3:
		idx.GetItem(0)
		idx.CreateContext()
		idx.VectorLength()
	}
}

// C07Memory: searches of a built index in write protected memory; the bytes stay as
// they are and so does the query.
func C07Memory() {
	_, a, idx := nd(1, 2, nil)
	n := sym.Pick("n", 1, 5)
	for i := 0; i < n; i++ {
		idx.AddItem(uint32(i), []float32{float32(i * 3 % 4)})
	}
	idx.Build(sym.Pick("trees", 1, 2), 1)
	ctx := idx.CreateContext()
	before := append([]byte(nil), unsafe.Slice((*byte)(a.p), a.n)...)
	sym.GuardReadOnly(a.p, true)
	q := []float32{finite("q")}
	reader(idx, sym.Pick("op", 0, 3), n, sym.Pick("k", 1, 2)*2, sym.Pick("budget", -1, 1)*10, q, ctx)
	sym.GuardReadOnly(a.p, false)
	sym.Assert(sym.MemEq(a.p, unsafe.Pointer(&before[0]), a.n), "a search changed the index")
}

// C07File: searches of a loaded index leave the file and the items alone.
func C07File() {
	_, _, idx := nd(1, 2, nil)
	n := sym.Pick("n", 3, 5)
	for i := 0; i < n; i++ {
		idx.AddItem(uint32(i), []float32{float32(i * 3 % 4)})
	}
	idx.Build(sym.Pick("trees", 1, 2), 1)
	p := sym.TempDir() + "/r.ann"
	sym.Assert(idx.Save(p) == nil, "save")
	al := memory.FileIndexMemoryAllocator()
	_, _, o := nd(1, 0, al)
	sym.Assert(o.Load(p) == nil, "load")
	m, ok := al.Get(p)
	sym.Assert(ok, "the loaded file is known to its allocator")
	sz := int(m.Size())
	before := append([]byte(nil), unsafe.Slice((*byte)(m.Ptr()), sz)...)
	q := []float32{finite("q")}
	x := idx
	if sym.Pick("file", 0, 1) == 1 {
		x = o
	}
	op := sym.Pick("op", 0, 3)
	reader(x, op, n, 2, sym.Pick("budget", -1, 1)*10, q, x.CreateContext())
	sym.Assert(sym.MemEq(m.Ptr(), unsafe.Pointer(&before[0]), sz), "a search changed the loaded index")
	f, err := memory.FileIndexMemoryAllocator().Open(p)
	sym.Assert(err == nil && int(f.Size()) == sz, "a search changed the size of the file")
	sym.Assert(sym.MemEq(f.Ptr(), unsafe.Pointer(&before[0]), sz), "a search changed the file")
}

// C07Query: the caller's query is left alone.
func C07Query() {
	d, _, idx := nd(3, 2, nil)
	_ = d
	n := sym.Pick("n", 3, 6)
	for i := 0; i < n; i++ {
		idx.AddItem(uint32(i), []float32{float32(i), 1, 2})
	}
	idx.Build(1, 1)
	q := anyVec(3)
	c := clone(q)
	idx.GetNnsByVector(q, 2, 10, idx.CreateContext())
	sym.Assert(sameBits(q, c), "a search changed the query")
}

// C07Context: a context that has been used before makes no difference, whatever it has
// been used for.
func C07Context() {
	_, _, idx := nd(1, 2, nil)
	n := 4
	items(idx, 1, n)
	idx.Build(1, 1)
	used := idx.CreateContext()
	idx.GetNnsByVector([]float32{7}, sym.Pick("k0", 1, 2)*2, sym.Pick("b0", 0, 1)*8+1, used)
	k, b := sym.Pick("k", 0, 1)*2+1, sym.Int("budget", -1, 5)
	i1, d1 := idx.GetNnsByVector([]float32{0}, k, b, used)
	i2, d2 := idx.GetNnsByVector([]float32{0}, k, b, idx.CreateContext())
	sameHits(i1, d1, i2, d2)
}

// C07Results: what a search returned does not change with later ones.
func C07Results() {
	_, _, idx := nd(1, 1, nil)
	n := sym.Pick("n", 3, 4)
	items(idx, 1, n)
	idx.Build(1, 1)
	c := idx.CreateContext()
	i1, d1 := idx.GetNnsByVector([]float32{0}, 3, 4, c)
	i2, d2 := append([]uint32(nil), i1...), clone(d1)
	idx.GetNnsByVector([]float32{7}, sym.Pick("k", 1, 4), sym.Int("budget", -1, 9), c)
	idx.GetNnsByItem(1, 2, -1, c)
	sameHits(i1, d1, i2, d2)
}

// C07ByItem: searching by item is searching by its vector.
func C07ByItem() {
	_, _, idx := nd(1, 2, nil)
	n := sym.Pick("n", 1, 4)
	items(idx, 1, n)
	idx.Build(1, 1)
	it := uint32(sym.Pick("item", 0, n-1))
	k, b := 2, sym.Int("budget", -1, 6)
	i1, d1 := idx.GetNnsByItem(it, k, b, idx.CreateContext())
	i2, d2 := idx.GetNnsByVector(clone(idx.GetItem(it)), k, b, idx.CreateContext())
	sameHits(i1, d1, i2, d2)
}

// C07Loaded: an index and the file it has been saved to answer alike.
func C07Loaded() {
	_, _, idx := nd(1, 2, nil)
	n := sym.Pick("n", 1, 4)
	items(idx, 1, n)
	idx.Build(sym.Pick("trees", 1, 2), 1)
	k, b := sym.Pick("k", 1, 2), sym.Pick("budget", -1, 4)*3
	i0, d0 := idx.GetNnsByVector([]float32{0}, k, b, idx.CreateContext())
	p := sym.TempDir() + "/r.ann"
	sym.Assert(idx.Save(p) == nil, "save")
	i1, d1 := idx.GetNnsByVector([]float32{0}, k, b, idx.CreateContext())
	_, _, o := nd(1, 0, memory.FileIndexMemoryAllocator())
	sym.Assert(o.Load(p) == nil, "load")
	i2, d2 := o.GetNnsByVector([]float32{0}, k, b, o.CreateContext())
	sameHits(i1, d1, i2, d2)
	if b > 8 { // an exhaustive search does not depend on the order of the trees
		sameHits(i0, d0, i1, d1)
	}
}

// C07Sides: whatever the plane of a split says about the query, a search does not draw
// random numbers (they belong to building).
func C07Sides() {
	r := &srnd{seed: 3}
	d, _, _ := nd(1, 3, nil)
	idx := index.New[float32, uint32](r, d, policy.SingleWorker(), &galloc{}, memory.MmapIndexAllocator(), nil, false, 0)
	n := 5
	d.margins = func() float32 { return float32(sym.Pick("margin", -1, 1)) }
	items(idx, 1, n)
	idx.Build(1, 1)
	at := r.n
	idx.GetNnsByVector([]float32{0}, 2, sym.Int("budget", -1, 6), idx.CreateContext())
	sym.Assert(r.n == at && r.seed == 3, "a search draws random numbers")
}
