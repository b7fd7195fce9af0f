package h

import (
	"vh/sym"

	"github.com/mariotoffia/goannoy/distance/angular"
	"github.com/mariotoffia/goannoy/index"
	"github.com/mariotoffia/goannoy/index/memory"
	"github.com/mariotoffia/goannoy/index/policy"
)

// ---- searches never leave their memory ----

// C06Built: any k and budget against an index that has been built but not saved.
func C06Built() {
	_, _, idx := nd(1, 3, nil)
	n := sym.Pick("n", 1, 4)
	for i := 0; i < n; i++ {
		idx.AddItem(uint32(i), []float32{float32(i)})
	}
	idx.Build(sym.Pick("trees", 1, 2), 1)
	k := sym.Int("k", -2, 6)
	ids, dd := idx.GetNnsByVector([]float32{0}, k, sym.Int("budget", -3, 12), idx.CreateContext())
	within(ids, dd, n, k)
}

// C06Loaded: the same for a loaded index.
func C06Loaded() {
	_, _, idx := nd(2, 2, nil)
	n := sym.Pick("n", 1, 5)
	for i := 0; i < n; i++ {
		idx.AddItem(uint32(i), []float32{float32(i), 0})
	}
	idx.Build(sym.Pick("trees", 1, 2), 1)
	p := sym.TempDir() + "/l.ann"
	sym.Assert(idx.Save(p) == nil, "save")
	k := sym.Int("k", -2, 6)
	var o index32
	if sym.Pick("alloc", 0, 1) == 0 {
		_, _, o = nd(2, 0, memory.FileIndexMemoryAllocator())
	} else {
		_, _, o = nd(2, 0, memory.MmapIndexAllocator())
	}
	sym.Assert(o.Load(p) == nil, "load")
	ids, dd := o.GetNnsByVector([]float32{0, 0}, k, sym.Int("budget", -3, 12), o.CreateContext())
	within(ids, dd, n, k)
}

// C06Gaps: ids with gaps.
func C06Gaps() {
	vl := uint32(sym.Pick("vl", 1, 2))
	_, _, idx := nd(vl, 1, nil)
	_, has := gaps(idx, vl, 3)
	idx.Build(sym.Pick("trees", 1, 2), 1)
	if p := sym.TempDir() + "/l.ann"; sym.Pick("save", 0, 1) == 1 {
		sym.Assert(idx.Save(p) == nil, "save")
	}
	k := sym.Pick("k", 0, 2)*3 - 2
	ids, dd := idx.GetNnsByVector(make([]float32, vl), k, sym.Pick("budget", 0, 4)*3-1, idx.CreateContext())
	within(ids, dd, len(has), k)
	for _, i := range ids {
		sym.Assert(has[i], "an id that was never added is returned")
	}
}

// C06Huge: enormous k and budgets.
func C06Huge() {
	_, _, idx := nd(1, 2, nil)
	n := sym.Pick("n", 1, 4)
	for i := 0; i < n; i++ {
		idx.AddItem(uint32(i), []float32{float32(i)})
	}
	idx.Build(2, 1)
	k := sym.Int("k", 5, 1<<40)
	b := sym.Int("budget", -1, 1<<62)
	ids, dd := idx.GetNnsByVector([]float32{0}, k, b, idx.CreateContext())
	within(ids, dd, n, k)
}

// C06Context: contexts of other indexes, or made before the index was built.
func C06Context() {
	_, _, small := nd(1, 0, nil)
	small.AddItem(0, []float32{1})
	_, _, idx := nd(1, 2, nil)
	n := sym.Pick("n", 3, 4)
	c0 := idx.CreateContext()
	for i := 0; i < n; i++ {
		idx.AddItem(uint32(i), []float32{float32(i)})
	}
	c1 := idx.CreateContext()
	trees := sym.Pick("trees", 1, 2)
	idx.Build(trees, 1)
	small.Build(1, 1)
	k := sym.Pick("k", 0, 1)*2 + 1
	b := sym.Int("budget", -1, 9)
	for _, c := range []any{c0, c1, small.CreateContext(), idx.CreateContext()}[sym.Pick("ctx", 0, 3):][:1] {
		ids, dd := idx.GetNnsByVector([]float32{0}, k, b, c)
		within(ids, dd, n, k)
		ids, dd = idx.GetNnsByVector([]float32{0}, k, 100, c)
		within(ids, dd, n, k)
	}
}

// C06NaN: distances that are not ordered.
func C06NaN() {
	_, _, idx := nd(1, 0, nil)
	n := 4
	for i := 0; i < n; i++ {
		idx.AddItem(uint32(i), []float32{ordn("dist")})
	}
	idx.Build(1, 1)
	k := sym.Pick("k", 1, 5)
	ids, dd := idx.GetNnsByVector([]float32{0}, k, 100, idx.CreateContext())
	within(ids, dd, n, k)
	for i := range ids {
		for j := 0; j < i; j++ {
			sym.Assert(ids[i] != ids[j], "an item is returned twice")
		}
	}
}

// C06Bits: any bit pattern as query, real metric.
func C06Bits() {
	d := angular.Distance[float32, uint32](2)
	idx := index.New[float32, uint32](&srnd{}, d, policy.SingleWorker(),
		&galloc{}, memory.MmapIndexAllocator(), nil, false, 0)
	vs := [][]float32{{1, 0}, {0, 1}, {-1, 0.5}, {0.25, -3}}
	for i, v := range vs {
		idx.AddItem(uint32(i), clone(v))
	}
	idx.Build(1, 1)
	if sym.Pick("save", 0, 1) == 1 {
		sym.Assert(idx.Save(sym.TempDir()+"/b.ann") == nil, "save")
	}
	q := []float32{sym.F32("q"), sym.F32("q")}
	k := sym.Pick("k", 1, 3) * 2
	ids, dd := idx.GetNnsByVector(clone(q), k, sym.Pick("budget", 0, 1)*98+2, idx.CreateContext())
	within(ids, dd, len(vs), k)
}

// C06Items: items of any bit pattern, real metric; small enough for a leaf.
func C06Items() {
	d := angular.Distance[float32, uint32](2)
	idx := index.New[float32, uint32](&srnd{}, d, policy.SingleWorker(),
		&galloc{}, memory.MmapIndexAllocator(), nil, false, 0)
	n := sym.Pick("n", 1, 2)
	for i := 0; i < n; i++ {
		idx.AddItem(uint32(i), []float32{sym.F32("v"), sym.F32("v")})
	}
	idx.Build(1, 1)
	it := uint32(sym.Pick("item", 0, 1))
	sym.Assume(int(it) < n)
	ids, dd := idx.GetNnsByItem(it, 2, 100, idx.CreateContext())
	within(ids, dd, n, 2)
}

// C06Length: queries of the wrong length are rejected and nothing else happens.
func C06Length() {
	_, _, idx := nd(4, 1, nil)
	n := sym.Pick("n", 1, 5)
	for i := 0; i < n; i++ {
		idx.AddItem(uint32(i), []float32{float32(i), 0, 0, 0})
	}
	idx.Build(1, 1)
	if sym.Pick("save", 0, 1) == 1 {
		sym.Assert(idx.Save(sym.TempDir()+"/n.ann") == nil, "save")
	}
	c := idx.CreateContext()
	l := sym.Pick("length", 0, 7)
	q := make([]float32, l)
	bad := panics(func() { idx.GetNnsByVector(q, 2, 10, c) })
	sym.Assert(bad == (l != 4), "queries of the wrong length are rejected, others are not")
	ids, _ := idx.GetNnsByVector(make([]float32, 4), n, 100, c)
	sym.Assert(len(ids) == n, "the index is usable after a rejected query")
}

// C06Empty: an index without items.
func C06Empty() {
	_, _, idx := nd(1, 0, nil)
	idx.Build(sym.Pick("trees", 1, 3), 1)
	k := sym.Int("k", 0, 3)
	ids, dd := idx.GetNnsByVector([]float32{0}, k, sym.Int("budget", -1, 5), idx.CreateContext())
	sym.Assert(len(ids) == 0 && len(dd) == 0, "results from an empty index")
}

// C06Many: more candidates than the simple selection handles.
func C06Many() {
	d, _, idx := nd(1, 0, nil)
	d.margins = func() float32 { return 1 }
	if sym.Bool("margin") {
		d.margins = func() float32 { return -1 }
	}
	n := 25
	for i := 0; i < n; i++ {
		idx.AddItem(uint32(i), []float32{float32((i * 7) % n)})
	}
	idx.Build(sym.Pick("trees", 1, 2), 1)
	k := []int{-1, 0, 1, 19, 21, 24, 25, 26, 60}[sym.Pick("k", 0, 8)]
	ids, dd := idx.GetNnsByVector([]float32{0}, k, []int{-1, 20, 22, 70}[sym.Pick("budget", 0, 3)], idx.CreateContext())
	within(ids, dd, n, k)
}
