package h

import (
	"unsafe"

	"vh/sym"

	"github.com/mariotoffia/goannoy/builder"
	"github.com/mariotoffia/goannoy/distance/angular"
	"github.com/mariotoffia/goannoy/distance/dotproduct"
	"github.com/mariotoffia/goannoy/index"
	"github.com/mariotoffia/goannoy/index/memory"
	"github.com/mariotoffia/goannoy/index/policy"
	"github.com/mariotoffia/goannoy/interfaces"
	"github.com/mariotoffia/goannoy/random"
)

// ---- save and load ----

// ialloc picks one of the allocators for loaded indexes.
func ialloc(name string) interfaces.IndexAllocator {
	if sym.Pick(name, 0, 1) == 0 {
		return memory.FileIndexMemoryAllocator()
	}
	return memory.MmapIndexAllocator()
}

// image is the content of a file.
func image(path string) []byte {
	f, err := memory.FileIndexMemoryAllocator().Open(path)
	sym.Assert(err == nil, "the saved index can be opened")
	if f.Size() == 0 {
		return nil
	}
	return append([]byte(nil), unsafe.Slice((*byte)(f.Ptr()), int(f.Size()))...)
}

func sameImage(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	return len(a) == 0 || sym.MemEq(unsafe.Pointer(&a[0]), unsafe.Pointer(&b[0]), len(a))
}

// exhaust is the answer of an exhaustive search.
func exhaust(idx index32, vl, k int) ([]uint32, []float32) {
	return idx.GetNnsByVector(make([]float32, vl), k, 1<<30, idx.CreateContext())
}

func roundTrip(vl uint32, n, trees, draws int, any bool) {
	_, _, idx := nd(vl, draws, ialloc("alloc"))
	ds := items(idx, vl, n, any)
	idx.Build(trees, 1)
	p := sym.TempDir() + "/i.ann"
	sym.Assert(idx.Save(p) == nil, "save")
	_, _, o := nd(vl, 0, ialloc("alloc2"))
	sym.Assert(o.Load(p) == nil, "load")
	for i := 0; i < n; i++ {
		sym.Assert(sameBits(o.GetItem(uint32(i)), idx.GetItem(uint32(i))), "an item differs after loading")
		sym.Assert(o.GetItem(uint32(i))[0] == ds[i], "an item differs after loading")
	}
	i1, d1 := exhaust(idx, int(vl), n+1)
	i2, d2 := exhaust(o, int(vl), n+1)
	sym.Assert(len(i1) == n, "an exhaustive search of the saved index finds every item")
	sameHits(i1, d1, i2, d2)
	for i := range i1 {
		sym.Assert(d1[i] == ds[i1[i]], "a distance is wrong")
	}
	// the roots are the same: the default budget depends on the number of trees
	i1, d1 = idx.GetNnsByVector(make([]float32, vl), 1, -1, idx.CreateContext())
	i2, d2 = o.GetNnsByVector(make([]float32, vl), 1, -1, o.CreateContext())
	sameHits(i1, d1, i2, d2)
	// saving what has been loaded yields the same file
	b := image(p)
	p2 := sym.TempDir() + "/copy.ann"
	sym.Assert(o.Save(p2) == nil, "saving a loaded index")
	sym.Assert(sameImage(b, image(p2)), "a saved copy differs")
	sym.Assert(sameImage(b, image(p)), "the original file changed")
	idx.Close()
	o.Close()
	sym.Cover("round trip")
}

// C08Small: 1..4 items, one or two trees; both allocators.
func C08Small() { roundTrip(1, sym.Pick("n", 1, 3), sym.Pick("trees", 1, 2), 0, true) }

// C08Split: a split tree over 4 items.
func C08Split() { roundTrip(1, 4, 1, 4, true) }

// C08Splits: several split trees.
func C08Splits() { roundTrip(1, sym.Pick("n", 4, 5), sym.Pick("trees", 2, 3), 1, false) }

// C08Trees: the number of trees survives: with k=1 and the default budget as many
// leaves are inspected as there are trees.
func C08Trees() {
	d := dist(angular.Distance[float32, uint32](1))
	_, _, idx := nd(1, 1, nil)
	n := sym.Pick("n", 2, 4)
	for i := 0; i < n; i++ {
		idx.AddItem(uint32(i), []float32{float32(i + 1)})
	}
	trees := sym.Pick("trees", 1, 3)
	idx.Build(trees, 1)
	p := sym.TempDir() + "/i.ann"
	sym.Assert(idx.Save(p) == nil, "save")
	f := openForest(d, p, n, trees)
	f.check()
	nodes := f.n
	// every node of the file belongs to a tree
	seen := make([]int, nodes)
	for t := nodes - trees; t < nodes; t++ {
		f.walk(t, true, seen, 0)
	}
	reach := 0
	for i := 0; i < nodes; i++ {
		if seen[i] > 0 {
			reach++
		}
	}
	sym.Assert(reach == nodes-trees, "the file holds nodes no tree refers to, except for the roots")
	_, _, o := nd(1, 0, ialloc("alloc"))
	sym.Assert(o.Load(p) == nil, "load")
	k := 1
	in := f.bestFirst(k*trees, func(nd node) float32 { return nd.GetVector(1)[0] })
	ids, _ := o.GetNnsByVector([]float32{0}, n, trees, o.CreateContext())
	sym.Assert(len(ids) == len(in), "a loaded index searches other nodes than its trees hold")
}

// C08Reuse: one index object builds, saves, loads other files and comes back.
func C08Reuse() {
	_, _, a := nd(1, 2, ialloc("alloc"))
	na := sym.Pick("n", 1, 4)
	da := items(a, 1, na, true)
	a.Build(1, 1)
	pa := sym.TempDir() + "/a.ann"
	sym.Assert(a.Save(pa) == nil, "save a")
	_, _, b := nd(1, 0, ialloc("alloc2"))
	db := items(b, 1, 2, false)
	b.Build(2, 1)
	pb := sym.TempDir() + "/b.ann"
	sym.Assert(b.Save(pb) == nil, "save b")
	// a loads the other one and then its own file
	sym.Assert(a.Load(pb) == nil, "load b")
	ids, dd := exhaust(a, 1, 9)
	sound(ids, dd, db, 9)
	exact(ids, dd, db, 9)
	sym.Assert(a.Load(pa) == nil, "load a")
	ids, dd = exhaust(a, 1, 9)
	sound(ids, dd, da, 9)
	exact(ids, dd, da, 9)
	ids, dd = exhaust(b, 1, 9)
	sound(ids, dd, db, 9)
	exact(ids, dd, db, 9)
}

// C08Same: several loads of one file, also by one allocator, are independent.
func C08Same() {
	_, _, a := nd(1, 1, nil)
	n := sym.Pick("n", 2, 4)
	ds := items(a, 1, n)
	a.Build(1, 1)
	p := sym.TempDir() + "/a.ann"
	sym.Assert(a.Save(p) == nil, "save")
	al := ialloc("alloc")
	_, _, x := nd(1, 0, al)
	_, _, y := nd(1, 0, al)
	sym.Assert(x.Load(p) == nil, "load x")
	sym.Assert(y.Load(p) == nil, "load y")
	switch sym.Pick("then", 0, 3) {
	case 0:
		sym.Assert(x.Close() == nil, "close")
	case 1:
		sym.Assert(x.Load(p) == nil, "load again")
	case 2:
		a.Close()
		x.Close()
	case 3:
		sym.Assert(x.Save(p) == nil, "save over it")
	}
	ids, dd := exhaust(y, 1, 9)
	sound(ids, dd, ds, 9)
	exact(ids, dd, ds, 9)
}

// C08Over: saving another index over a file that others have loaded.
func C08Over() {
	_, _, a := nd(1, 1, ialloc("alloc"))
	da := items(a, 1, sym.Pick("n", 1, 2)*2)
	a.Build(1, 1)
	p := sym.TempDir() + "/a.ann"
	sym.Assert(a.Save(p) == nil, "save")
	_, _, o := nd(1, 0, ialloc("alloc2"))
	sym.Assert(o.Load(p) == nil, "load")
	_, _, b := nd(1, 0, ialloc("alloc"))
	db := items(b, 1, 4, false)
	b.Build(1, 1)
	sym.Assert(b.Save(p) == nil, "save over a loaded file")
	for _, x := range []index32{a, o} {
		ids, dd := exhaust(x, 1, 9)
		sound(ids, dd, da, 9)
		exact(ids, dd, da, 9)
	}
	sym.Assert(o.Load(p) == nil, "load the new file")
	for _, x := range []index32{b, o} {
		ids, dd := exhaust(x, 1, 9)
		sound(ids, dd, db, 9)
		exact(ids, dd, db, 9)
	}
}

// C08Dot: the dot product metric.
func C08Dot() {
	d := dotproduct.Distance[float32, uint32](2)
	mk := func() index32 {
		return index.New[float32, uint32](&srnd{}, d, policy.SingleWorker(), &galloc{}, ialloc("alloc"), nil, false, 0)
	}
	idx := mk()
	n := sym.Pick("n", 1, 9)
	for i := 0; i < n; i++ {
		idx.AddItem(uint32(i), []float32{float32(i) - 2, float32(i*i%5) - 1})
	}
	idx.Build(sym.Pick("trees", 1, 2), 1)
	p := sym.TempDir() + "/d.ann"
	sym.Assert(idx.Save(p) == nil, "save")
	o := mk()
	sym.Assert(o.Load(p) == nil, "load")
	q := []float32{1, 2}
	i1, d1 := idx.GetNnsByVector(q, n, 1<<30, idx.CreateContext())
	i2, d2 := o.GetNnsByVector(q, n, 1<<30, o.CreateContext())
	sym.Assert(len(i1) == n, "every item is found")
	sameHits(i1, d1, i2, d2)
}

// C08Wide: 64 bit ids and vectors with the default configuration.
func C08Wide() {
	mk := func() interfaces.AnnoyIndex[float64, uint64] {
		b := builder.Index[float64, uint64]().AngularDistance(2).Random(random.NewKiss64Random(5))
		if sym.Pick("alloc", 0, 1) == 1 {
			b = b.GCMemoryIndexAllocator()
		}
		return b.Build()
	}
	idx := mk()
	n := sym.Pick("n", 1, 8)
	for i := 0; i < n; i++ {
		idx.AddItem(uint64(i), []float64{float64(i) - 2.5, float64(i*i%5) - 1})
	}
	idx.Build(sym.Pick("trees", 1, 2), 1)
	p := sym.TempDir() + "/w.ann"
	sym.Assert(idx.Save(p) == nil, "save")
	o := mk()
	sym.Assert(o.Load(p) == nil, "load")
	q := []float64{1, 2}
	i1, d1 := idx.GetNnsByVector(q, n, 1<<30, idx.CreateContext())
	i2, d2 := o.GetNnsByVector(q, n, 1<<30, o.CreateContext())
	sym.Assert(len(i1) == n && len(i2) == n, "every item is found")
	for i := range i1 {
		sym.Assert(i1[i] == i2[i] && d1[i] == d2[i], "a loaded index answers differently")
		if i > 0 {
			sym.Assert(d1[i-1] <= d1[i], "distances are not ascending")
		}
	}
}
