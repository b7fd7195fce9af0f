package h

import (
	"vh/sym"

	"github.com/mariotoffia/goannoy/distance/angular"
	"github.com/mariotoffia/goannoy/index"
	"github.com/mariotoffia/goannoy/index/memory"
	"github.com/mariotoffia/goannoy/index/policy"
)

// ---- searching ----

func searchND(n, trees, draws int, kmax, bmax int) {
	_, _, idx := nd(1, draws, nil)
	ds := items(idx, 1, n)
	idx.Build(trees, 1)
	ctx := idx.CreateContext()
	k := sym.Int("k", 0, kmax)
	b := sym.Int("budget", -1, bmax)
	ids, dd := idx.GetNnsByVector(query(1), k, b, ctx)
	sound(ids, dd, ds, k)
	sym.Cover("search")
}

// C03Search4: every k and budget, 4 items in one tree.
func C03Search4() { searchND(4, 1, 4, 5, 9) }

// C03Trees: two trees over 1..3 items.
func C03Trees() { searchND(sym.Pick("n", 1, 3), 2, 4, 4, 9) }

// C03TwoTrees4: two split trees over 4 items.
func C03TwoTrees4() { searchND(4, 2, 2, 3, 8) }

// C03Gaps: ids with gaps.
func C03Gaps() {
	_, _, idx := nd(1, 2, nil)
	ds := make([]float32, 7)
	has := make([]bool, 7)
	n := 0
	for i := 0; i < 7; i++ {
		if i == 6 || i != 2 && sym.Bool("present") {
			ds[i] = ordf("dist")
			has[i] = true
			n++
			idx.AddItem(uint32(i), []float32{ds[i]})
		}
	}
	sym.Assume(n <= 3)
	idx.Build(sym.Pick("trees", 1, 2), 1)
	save := sym.Pick("save", 0, 1) == 1
	if save {
		sym.Assert(idx.Save(sym.TempDir()+"/g.ann") == nil, "save")
	}
	ids, dd := idx.GetNnsByVector([]float32{1}, 9, 1000, idx.CreateContext())
	sound(ids, dd, ds, 9)
	for _, i := range ids {
		sym.Assert(has[i], "an id that was never added is returned")
	}
	sym.Assert(len(ids) == n, "an item is missing from an exhaustive search")
}

// C03Angular: results of the real metric agree with the distance of the two items.
func C03Angular() {
	idx := index.New[float32, uint32](&srnd{}, angular.Distance[float32, uint32](2), policy.SingleWorker(),
		&galloc{}, memory.MmapIndexAllocator(), nil, false, 0)
	n := 9
	for i := 0; i < n; i++ {
		idx.AddItem(uint32(i), []float32{float32(i) - 3.5, float32((i*i)%7) - 2})
	}
	idx.Build(2, 1)
	it := uint32(sym.Pick("item", 0, n-1))
	k := sym.Int("k", 0, n+1)
	ids, dd := idx.GetNnsByItem(it, k, sym.Int("budget", -1, 40), idx.CreateContext())
	ds := make([]float32, n)
	for i := range ds {
		ds[i] = idx.GetDistance(it, uint32(i))
	}
	sound(ids, dd, ds, k)
}

// C03AngularQuery: an arbitrary query vector; distances agree with the metric.
func C03AngularQuery() {
	d := angular.Distance[float32, uint32](2)
	idx := index.New[float32, uint32](&srnd{}, d, policy.SingleWorker(),
		&galloc{}, memory.MmapIndexAllocator(), nil, false, 0)
	vs := [][]float32{{1, 0}, {0, 1}, {-1, 0.5}, {0.25, -3}}
	for i, v := range vs {
		idx.AddItem(uint32(i), clone(v))
	}
	idx.Build(1, 1)
	q := []float32{moderate("q"), moderate("q")}
	k := sym.Pick("k", 1, 2)
	ids, dd := idx.GetNnsByVector(clone(q), k, 100, idx.CreateContext())
	sym.Assert(len(ids) == k && len(dd) == k, "number of results")
	for i := range ids {
		want := d.NormalizedDistance(d.Distance(refNode(d, q), refNode(d, vs[ids[i]])))
		sym.Assert(eqf(dd[i], want), "a distance is wrong")
	}
}
