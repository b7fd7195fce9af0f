package h

import (
	"math"
	"vh/sym"

	"github.com/mariotoffia/goannoy/distance/angular"
	"github.com/mariotoffia/goannoy/index"
	"github.com/mariotoffia/goannoy/index/memory"
	"github.com/mariotoffia/goannoy/index/policy"
)

// ---- exhaustive search ----

func exhaustive(vl uint32, n, trees, draws int) {
	_, _, idx := nd(vl, draws, nil)
	ds := items(idx, vl, n)
	idx.Build(trees, 1)
	k := sym.Pick("k", 0, n+1)
	ids, dd := idx.GetNnsByVector(make([]float32, vl), k, 1<<30, idx.CreateContext())
	sound(ids, dd, ds, k)
	exact(ids, dd, ds, k)
	sym.Cover("exhaustive")
}

// C04Tree4: 4 items, every tree shape, every order of the distances.
func C04Tree4() { exhaustive(1, 4, 1, 4) }

// C04Small: 1..4 items in up to 3 trees.
func C04Small() { exhaustive(2, sym.Pick("n", 1, 4), sym.Pick("trees", 1, 3), 2) }

// C04Five: 5 items in a leaf, every order.
func C04Five() { exhaustive(4, 5, 1, 0) }

// C04Many: the path for more than 20 candidates; three distances are arbitrary.
func C04Many() {
	d, _, idx := nd(1, 0, nil)
	d.margins = func() float32 { return 1 }
	n := 24
	ds := make([]float32, n)
	for i := range ds {
		ds[i] = math.Float32frombits(0x40000000 | uint32((i*7)%n*10)<<18)
		if i == 11 || i == 22 {
			ds[i] = ordf("dist")
		}
		idx.AddItem(uint32(i), []float32{ds[i]})
	}
	idx.Build(sym.Pick("trees", 1, 2), 1)
	k := sym.Pick("k", 0, 2)*9 + 2
	ids, dd := idx.GetNnsByVector([]float32{0}, k, 1<<30, idx.CreateContext())
	sound(ids, dd, ds, k)
	exact(ids, dd, ds, k)
}

// C04Loaded: the same after saving and loading.
func C04Loaded() {
	_, _, idx := nd(1, 2, nil)
	n := sym.Pick("n", 1, 4)
	ds := items(idx, 1, n)
	idx.Build(sym.Pick("trees", 1, 2), 1)
	p := sym.TempDir() + "/x.ann"
	sym.Assert(idx.Save(p) == nil, "save")
	_, _, o := nd(1, 2, memory.FileIndexMemoryAllocator())
	sym.Assert(o.Load(p) == nil, "load")
	k := sym.Pick("k", 1, 4)
	ids, dd := o.GetNnsByVector([]float32{0}, k, 1<<30, o.CreateContext())
	sound(ids, dd, ds, k)
	exact(ids, dd, ds, k)
}

// C04Gaps: ids with gaps; built, saved and loaded.
func C04Gaps() {
	vl := uint32(sym.Pick("vl", 1, 2))
	_, _, idx := nd(vl, 1, nil)
	ds, has := gaps(idx, vl, 3)
	trees := sym.Pick("trees", 1, 2)
	idx.Build(trees, 1)
	if p := sym.TempDir() + "/x.ann"; sym.Pick("save", 0, 1) == 1 {
		sym.Assert(idx.Save(p) == nil, "save")
	}
	k := sym.Pick("k", 1, 4)
	ids, dd := idx.GetNnsByVector(make([]float32, vl), k, 1<<30, idx.CreateContext())
	sound(ids, dd, ds, k)
	in := map[int]bool{}
	for i, h := range has {
		if h {
			in[i] = true
		}
	}
	inspected(ids, dd, ds, in, k)
}

// C04Angular: an exhaustive search with the real metric is a linear scan.
func C04Angular() {
	d := angular.Distance[float32, uint32](2)
	idx := index.New[float32, uint32](&srnd{}, d, policy.SingleWorker(),
		&galloc{}, memory.MmapIndexAllocator(), nil, false, 0)
	n := 14
	for i := 0; i < n; i++ {
		idx.AddItem(uint32(i), []float32{float32(i%5) - 2.5, float32((i*i)%7) - 2})
	}
	idx.Build(sym.Pick("trees", 1, 2), 1)
	it := uint32(sym.Pick("item", 0, n-1))
	ds := make([]float32, n)
	for i := range ds {
		ds[i] = idx.GetDistance(it, uint32(i))
	}
	k := sym.Pick("k", 1, n)
	ids, dd := idx.GetNnsByItem(it, k, 1<<30, idx.CreateContext())
	sound(ids, dd, ds, k)
	exact(ids, dd, ds, k)
}
