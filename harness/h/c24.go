package h

import (
	"vh/sym"

	"github.com/mariotoffia/goannoy/builder"
	"github.com/mariotoffia/goannoy/interfaces"
	"github.com/mariotoffia/goannoy/random"
	"github.com/mariotoffia/goannoy/sort"
)

// ---- configurations ----

// counted is a sorter that counts its calls.
type counted[TV interfaces.VectorType, TIX interfaces.IndexTypes] struct {
	interfaces.SorterFunctions[TV, TIX]
	ids, part int
}

func newCounted[TV interfaces.VectorType, TIX interfaces.IndexTypes]() *counted[TV, TIX] {
	c := &counted[TV, TIX]{}
	c.SortSliceFunc = func(s []TIX) { c.ids++; sort.SortSlice2(s) }
	c.SortPairsFunc = sort.SortPairs[TV, TIX]
	c.PartialSortSliceFunc = func(s interfaces.Pairs[TV, TIX], b, m, e int) { c.part++; sort.PartialSortSlice2(s, b, m, e) }
	return c
}

// config builds an index of the given or of picked options.
func config[TV interfaces.VectorType, TIX interfaces.IndexTypes](mk func(int) interfaces.Random[TIX]) (interfaces.AnnoyIndex[TV, TIX], *counted[TV, TIX]) {
	b := builder.Index[TV, TIX]()
	if sym.Pick("first", 0, 1) == 0 {
		b = b.AngularDistance(2)
	}
	switch sym.Pick("policy", 0, 2) {
	case 1:
		b = b.SingleWorkerPolicy()
	case 2:
		b = b.UseMultiWorkerPolicy()
	}
	switch sym.Pick("files", 0, 2) {
	case 1:
		b = b.MmapIndexAllocator()
	case 2:
		b = b.GCMemoryIndexAllocator()
	}
	b = b.IndexNumHint([]int{-1, 0, 1, 50}[sym.Pick("hint", 0, 3)])
	if k := sym.Pick("random", 0, 2); k > 0 {
		b = b.Random(mk(k))
	}
	var c *counted[TV, TIX]
	if sym.Pick("sorter", 0, 1) == 1 {
		c = newCounted[TV, TIX]()
		b = b.UseSorter(c)
	}
	return b.AngularDistance(2).Build(), c
}

// serves asserts that the index does what an index is for, before and after saving.
func serves[TV interfaces.VectorType, TIX interfaces.IndexTypes](idx interfaces.AnnoyIndex[TV, TIX], c *counted[TV, TIX], n int) {
	for i := 0; i < n; i++ {
		idx.AddItem(TIX(i), []TV{TV(points[i+1][0]), TV(points[i+1][1])})
	}
	idx.Build(2, 2)
	look := func() {
		sym.Assert(idx.VectorLength() == 2, "the vector length")
		ids, dd := idx.GetNnsByVector([]TV{1, 0}, n, 1000, idx.CreateContext())
		sym.Assert(len(ids) == n && len(dd) == n, "an exhaustive search misses items")
		seen := make([]bool, n)
		for i, id := range ids {
			sym.Assert(int(id) < n && !seen[id], "a result is no item or appears twice")
			seen[id] = true
			sym.Assert(i == 0 || dd[i-1] <= dd[i], "distances are not ascending")
			v := idx.GetItem(id)
			sym.Assert(v[0] == TV(points[id+1][0]) && v[1] == TV(points[id+1][1]), "an item")
		}
		ids, dd = idx.GetNnsByItem(0, 1, 1000, idx.CreateContext())
		sym.Assert(len(ids) == 1 && dd[0] < 0.01, "an item is not its own nearest neighbour")
	}
	look()
	if c != nil {
		sym.Assert(c.ids == 2 && c.part == 2, "the sorter is not used")
	}
	sym.Assert(idx.Save(sym.TempDir()+"/c.ann") == nil, "save")
	look()
	sym.Assert(idx.Close() == nil, "close")
}

// C24Options: any options, in single precision.
func C24Options() {
	idx, c := config[float32, uint32](func(k int) interfaces.Random[uint32] {
		if k == 1 {
			return random.NewKiss32Random(uint32(5))
		}
		return random.NewKiss32Random(uint32(1<<32 - 1))
	})
	serves(idx, c, 5)
}

// C24Wide: any options, other types.
func C24Wide() {
	rnd64 := func(k int) interfaces.Random[uint64] {
		if k == 1 {
			return random.NewKiss64Random(uint64(5))
		}
		return random.NewKiss64Random(uint64(1<<64 - 1))
	}
	switch sym.Pick("types", 0, 2) {
	case 0:
		idx, c := config[float64, uint64](rnd64)
		serves(idx, c, 6)
	case 1:
		idx, c := config[float32, uint64](rnd64)
		serves(idx, c, 5)
	default:
		idx, c := config[float64, uint32](func(k int) interfaces.Random[uint32] {
			return random.NewKiss32Random(uint32(k))
		})
		serves(idx, c, 5)
	}
}

// C24Same: policy, hint, files and sorter do not change what is built and found; items are arbitrary.
func C24Same() {
	// a plain index and one with options
	a := builder.Index[float32, uint32]().AngularDistance(1).Build()
	bl := builder.Index[float32, uint32]().AngularDistance(1)
	if sym.Pick("policy", 0, 1) == 1 {
		bl = bl.UseMultiWorkerPolicy()
	}
	if sym.Pick("files", 0, 1) == 1 {
		bl = bl.GCMemoryIndexAllocator()
	}
	if sym.Pick("hint", 0, 1) == 1 {
		bl = bl.IndexNumHint(9)
	}
	b := bl.Build()
	n := sym.Pick("n", 1, 3)
	for i := 0; i < n; i++ {
		v := vec(1, moderate)
		a.AddItem(uint32(i), clone(v))
		b.AddItem(uint32(i), clone(v))
	}
	a.Build(2, 1)
	b.Build(2, 1)
	pa, pb := sym.TempDir()+"/a.ann", sym.TempDir()+"/b.ann"
	sym.Assert(a.Save(pa) == nil && b.Save(pb) == nil, "save")
	sym.Assert(sameImage(image(pa), image(pb)), "an option changes the trees")
	for i := 0; i < n; i++ {
		sym.Assert(sameBits(a.GetItem(uint32(i)), b.GetItem(uint32(i))), "an option changes an item")
	}
	sym.Assert(a.Close() == nil && b.Close() == nil, "close")
}

// C24Twice: indexes of the same builder have nothing to do with each other.
func C24Twice() {
	b := builder.Index[float32, uint32]().AngularDistance(2).IndexNumHint(sym.Pick("hint", 0, 1) * 9)
	if sym.Pick("files", 0, 1) == 1 {
		b = b.GCMemoryIndexAllocator()
	}
	x, y := b.Build(), b.Build()
	n := sym.Pick("n", 1, 5)
	var vx, vy [][]float32
	for i := 0; i < n; i++ {
		vx, vy = append(vx, vec(2, finite)), append(vy, vec(2, finite))
		x.AddItem(uint32(i), clone(vx[i]))
		y.AddItem(uint32(i), clone(vy[i]))
	}
	same := func(idx index32, vs [][]float32) {
		for i, v := range vs {
			sym.Assert(sameBits(idx.GetItem(uint32(i)), v), "an item is that of another index")
		}
	}
	same(x, vx)
	same(y, vy)
	switch sym.Pick("then", 0, 2) {
	case 0:
		sym.Assert(x.Close() == nil, "close")
		same(y, vy)
		x.AddItem(0, []float32{1, 2})
		same(y, vy)
	case 1:
		if n > 3 {
			return
		}
		x.Build(1, 1)
		sym.Assert(x.Save(sym.TempDir()+"/x.ann") == nil, "save")
		same(x, vx)
		same(y, vy)
		sym.Assert(x.Close() == nil, "close")
		same(y, vy)
	default:
		y.AddItem(uint32(n)+7, []float32{1, 2})
		same(x, vx)
		same(y, vy)
	}
}

// C24Verbose: talking changes nothing.
func C24Verbose() {
	n := sym.Pick("n", 1, 9)
	multi := sym.Pick("multi", 0, 1) == 1
	mk := func(verbose bool, name string) []byte {
		b := builder.Index[float32, uint32]().AngularDistance(2)
		if multi {
			b = b.UseMultiWorkerPolicy()
		}
		if verbose {
			b = b.VerboseLogging()
		}
		idx := b.Build()
		for i := 0; i < n; i++ {
			idx.AddItem(uint32(i), clone(points[i]))
		}
		idx.Build(2, 1)
		p := sym.TempDir() + "/" + name
		sym.Assert(idx.Save(p) == nil, "save")
		ids, _ := idx.GetNnsByItem(0, n, 100, idx.CreateContext())
		sym.Assert(len(ids) == n, "an exhaustive search misses items")
		sym.Assert(idx.Close() == nil, "close")
		return image(p)
	}
	sym.Assert(sameImage(mk(false, "q"), mk(true, "v")), "talking changes the index")
}

// C24Readme: the example of the documentation.
func C24Readme() {
	idx := builder.Index[float32, uint32]().AngularDistance(3).UseMultiWorkerPolicy().MmapIndexAllocator().Build()
	for i := uint32(0); i < 3; i++ {
		v := []float32{0, 0, 0}
		v[2-i] = 1
		idx.AddItem(i, v)
	}
	idx.Build([]int{10, 1, -1}[sym.Pick("trees", 0, 2)], []int{-1, 0, 1, 2}[sym.Pick("workers", 0, 3)])
	for round := 0; round < 3; round++ {
		ids, dd := idx.GetNnsByVector([]float32{3, 2, 1}, 3, -1, idx.CreateContext())
		sym.Assert(len(ids) == 3 && len(dd) == 3 && ids[0] == 2 && ids[1] == 1 && ids[2] == 0, "the example yields other results")
		switch round {
		case 0:
			sym.Assert(idx.Save(sym.TempDir()+"/test.ann") == nil, "save")
		case 1:
			sym.Assert(idx.Load(sym.TempDir()+"/test.ann") == nil, "load")
		}
	}
	sym.Assert(idx.Close() == nil, "close")
}
