package h

import (
	"vh/sym"

	"github.com/mariotoffia/goannoy/distance/angular"
	"github.com/mariotoffia/goannoy/index"
	"github.com/mariotoffia/goannoy/index/memory"
	"github.com/mariotoffia/goannoy/index/policy"
)

func forestOf(n, trees, draws int) {
	d, _, idx := nd(1, draws, nil)
	for i := 0; i < n; i++ {
		idx.AddItem(uint32(i), []float32{float32(i)})
	}
	idx.Build(trees, 1)
	p := sym.TempDir() + "/f.ann"
	sym.Assert(idx.Save(p) == nil, "save")
	f := openForest(d, p, n, trees)
	f.check()
	sym.Cover("forest")
	idx.Close()
}

// C02Forest4: one tree over 4 items for every outcome of the splits.
func C02Forest4() { forestOf(4, 1, 12) }

// C02Forest7: one tree over 5..7 items.
func C02Forest7() { forestOf(sym.Pick("n", 5, 7), 1, 9) }

// C02Forest12: deeper trees.
func C02Forest12() { forestOf(sym.Pick("n", 8, 12), 1, 12) }

// C02ForestTrees: 2..3 trees over 1..4 items.
func C02ForestTrees() { forestOf(sym.Pick("n", 1, 4), sym.Pick("trees", 2, 3), 9) }

// C02Gaps: ids with gaps, in leaves and splits.
func C02Gaps() {
	vl := uint32(sym.Pick("vl", 1, 2))
	d, _, idx := nd(vl, 3, nil)
	_, has := gaps(idx, vl, 4)
	trees := sym.Pick("trees", 1, 2)
	idx.Build(trees, 1)
	p := sym.TempDir() + "/f.ann"
	sym.Assert(idx.Save(p) == nil, "save")
	f := openForest(d, p, len(has), trees)
	f.has = has
	f.check()
}

// C02ForestAngular: trees of the real metric.
func C02ForestAngular() {
	d := angular.Distance[float32, uint32](3)
	r := &srnd{seed: uint32(sym.Pick("seed", 1, 4))}
	idx := index.New[float32, uint32](r, d, policy.SingleWorker(), &galloc{}, memory.MmapIndexAllocator(), nil, false, 0)
	for i := 0; i < 24; i++ {
		idx.AddItem(uint32(i), []float32{float32(i%5) - 2, float32(i%7) - 3, float32(i % 3)})
	}
	idx.Build(2, 1)
	p := sym.TempDir() + "/f.ann"
	sym.Assert(idx.Save(p) == nil, "save")
	openForest(d, p, 24, 2).check()
}
