package h

import (
	"math"

	"vh/sym"

	"github.com/mariotoffia/goannoy/distance/angular"
	"github.com/mariotoffia/goannoy/index"
	"github.com/mariotoffia/goannoy/index/memory"
	"github.com/mariotoffia/goannoy/index/policy"
)

// ---- order of the search ----

// bestFirst returns the items a best-first search of the forest inspects: always the
// node with the largest priority, until budget items have been seen or nothing is left.
// margin yields the signed distance of the query to the plane of a node. Different
// nodes are assumed to have different priorities.
func (f *forest) bestFirst(budget int, margin func(n node) float32) map[int]bool {
	type ent struct {
		p float32
		i int
	}
	var q []ent
	for t := f.n - f.trees; t < f.n; t++ {
		q = append(q, ent{float32(math.Inf(1)), t})
	}
	got := map[int]bool{}
	seen := 0
	for seen < budget && len(q) > 0 {
		b := 0
		for i := 1; i < len(q); i++ {
			if !math.IsInf(float64(q[i].p), 1) {
				sym.Assume(q[i].p != q[b].p)
			}
			if q[b].p < q[i].p {
				b = i
			}
		}
		e := q[b]
		q = append(q[:b:b], q[b+1:]...)
		nd := f.node(e.i)
		k := int(nd.GetNumberOfDescendants())
		switch {
		case e.i < f.items:
			if f.has == nil || f.has[e.i] {
				got[e.i] = true
				seen++
			}
		case k <= f.k:
			for _, c := range f.leaf(nd) {
				got[int(c)] = true
				seen++
			}
		default:
			m := margin(nd)
			sym.Assume(sym.IsFinite32(m))
			l, r := -m, m
			if e.p < l {
				l = e.p
			}
			if e.p < r {
				r = e.p
			}
			ch := nd.GetChildren()
			q = append(q, ent{l, int(ch[0])}, ent{r, int(ch[1])})
		}
	}
	return got
}

// inspected asserts that ids are the k nearest of the inspected items.
func inspected(ids []uint32, dd []float32, ds []float32, in map[int]bool, k int) {
	want := len(in)
	if k < want {
		want = k
	}
	sym.Assert(len(ids) == want, "a search returns another number of items than it has inspected")
	res := map[int]bool{}
	for i, id := range ids {
		sym.Assert(in[int(id)], "a result is not among the items that are most promising")
		sym.Assert(dd[i] == ds[id], "a distance is wrong")
		res[int(id)] = true
	}
	if len(ids) == 0 {
		return
	}
	last := dd[len(dd)-1]
	for i := range ds {
		if in[i] && !res[i] {
			sym.Assert(le32(last, ds[i]), "a nearer inspected item is missing")
		}
	}
}

func bestFirst(n, trees, draws, kmax int, simpleDist bool) {
	d, _, idx := nd(1, draws, nil)
	ds := make([]float32, n)
	for i := range ds {
		ds[i] = float32(n - i)
		if !simpleDist {
			ds[i] = ordf("dist")
		}
		idx.AddItem(uint32(i), []float32{ds[i]})
	}
	idx.Build(trees, 1)
	p := sym.TempDir() + "/b.ann"
	sym.Assert(idx.Save(p) == nil, "save")
	f := openForest(d, p, n, trees)
	k := sym.Pick("k", 1, kmax)
	b := sym.Pick("budget", -1, n)
	ids, dd := idx.GetNnsByVector([]float32{0}, k, b, idx.CreateContext())
	if b == -1 {
		b = k * trees
	}
	in := f.bestFirst(b, func(nd node) float32 { return nd.GetVector(1)[0] })
	inspected(ids, dd, ds, in, k)
	sym.Cover("best first")
}

// C05Tree4: one tree over 4 items, every shape, margin and budget.
func C05Tree4() { bestFirst(4, 1, 4, 3, true) }

// C05Tree5: one tree over 5 or 6 items.
func C05Tree5() { bestFirst(sym.Pick("n", 5, 6), 1, 1, 4, true) }

// C05Trees: two trees.
func C05Trees() { bestFirst(4, 2, 1, 3, true) }

// C05Dist: arbitrary distances of the inspected items.
func C05Dist() { bestFirst(4, 1, 1, 2, false) }

// C05Gaps: ids with gaps.
func C05Gaps() {
	d, _, idx := nd(1, 1, nil)
	ds, has := gaps(idx, 1, 3, true)
	trees := sym.Pick("trees", 1, 2)
	idx.Build(trees, 1)
	p := sym.TempDir() + "/b.ann"
	sym.Assert(idx.Save(p) == nil, "save")
	f := openForest(d, p, len(ds), trees)
	f.has = has
	k := sym.Pick("k", 1, 2)
	b := sym.Pick("budget", -1, 4)
	ids, dd := idx.GetNnsByVector([]float32{0}, k, b, idx.CreateContext())
	if b == -1 {
		b = k * trees
	}
	inspected(ids, dd, ds, f.bestFirst(b, func(nd node) float32 { return nd.GetVector(1)[0] }), k)
}

// C05Query: an arbitrary query against trees of the real metric.
func C05Query() {
	d := angular.Distance[float32, uint32](2)
	idx := index.New[float32, uint32](&srnd{}, d, policy.SingleWorker(),
		&galloc{}, memory.MmapIndexAllocator(), nil, false, 0)
	n := 6
	vs := [][]float32{{1, 0}, {0, 1}, {-1, 0.5}, {0.25, -3}, {2, 3}, {-2, -2}}
	for i, v := range vs {
		idx.AddItem(uint32(i), clone(v))
	}
	idx.Build(1, 1)
	p := sym.TempDir() + "/b.ann"
	sym.Assert(idx.Save(p) == nil, "save")
	f := openForest(d, p, n, 1)
	q := []float32{moderate("q"), moderate("q")}
	b := sym.Pick("budget", 1, 3)
	ids, dd := idx.GetNnsByVector(clone(q), n, b, idx.CreateContext())
	in := f.bestFirst(b, func(nd node) float32 { return d.Margin(nd, q) })
	sym.Assert(len(ids) == len(in), "a search returns another number of items than it has inspected")
	for i, id := range ids {
		sym.Assert(in[int(id)], "a result is not among the items that are most promising")
		want := d.NormalizedDistance(d.Distance(refNode(d, q), refNode(d, vs[id])))
		sym.Assert(eqf(dd[i], want), "a distance is wrong")
	}
}

// C05Self: an indexed item is its own nearest neighbour whatever the budget.
func C05Self() {
	d := angular.Distance[float32, uint32](3)
	idx := index.New[float32, uint32](&srnd{n: sym.Pick("seed", 0, 1)}, d, policy.SingleWorker(),
		&galloc{}, memory.MmapIndexAllocator(), nil, false, 0)
	n := 12
	for i := 0; i < n; i++ {
		a := float64(i) * 0.9
		idx.AddItem(uint32(i), []float32{float32(math.Cos(a)), float32(math.Sin(a)), float32(i%5) - 1.7})
	}
	trees := sym.Pick("trees", 1, 2)
	idx.Build(trees, 1)
	if trees == 2 {
		sym.Assert(idx.Save(sym.TempDir()+"/s.ann") == nil, "save")
	}
	it := uint32(sym.Pick("item", 0, n-1))
	ids, dd := idx.GetNnsByItem(it, sym.Pick("k", 1, 2), sym.Int("budget", 1, 12), idx.CreateContext())
	sym.Assert(len(ids) > 0 && ids[0] == it, "an indexed item does not find itself")
	sym.Assert(dd[0] < 0.01, "distance of an item to itself")
}

// C05Lone: an item that a tree keeps directly below a split is found.
func C05Lone() {
	d, _, idx := nd(1, 6, nil)
	n := sym.Pick("n", 4, 5)
	for i := 0; i < n; i++ {
		idx.AddItem(uint32(i), []float32{float32(i)})
	}
	idx.Build(1, 1)
	p := sym.TempDir() + "/l.ann"
	sym.Assert(idx.Save(p) == nil, "save")
	f := openForest(d, p, n, 1)
	ids, _ := idx.GetNnsByVector([]float32{0}, n, 1, idx.CreateContext())
	in := f.bestFirst(1, func(nd node) float32 { return nd.GetVector(1)[0] })
	sym.Assert(len(ids) == len(in), "number of inspected items")
	for _, i := range ids {
		sym.Assert(in[int(i)], "the most promising leaf is not searched first")
	}
}

// leaves yields the leaves of a tree, each with the least margin on its way.
func (f *forest) leaves(i int, p float32, out func(items []uint32, p float32)) {
	nd := f.node(i)
	k := int(nd.GetNumberOfDescendants())
	switch {
	case i < f.items:
		out([]uint32{uint32(i)}, p)
	case k <= f.k:
		out(f.leaf(nd), p)
	default:
		m := nd.GetVector(1)[0]
		ch := nd.GetChildren()
		f.leaves(int(ch[0]), sym.IteF32(p < -m, p, -m), out)
		f.leaves(int(ch[1]), sym.IteF32(p < m, p, m), out)
	}
}

// upperSet: the items that are inspected are those of the leaves with the greatest
// priorities, the least margin on the way to them, however deep they are; ties in any order.
func upperSet(n, draws int) {
	d, _, idx := nd(1, draws, nil)
	upperSetOf(idx, d, n, -1)
}

// upperSetOf asks for the given budget, or any if it is negative.
func upperSetOf(idx index32, d dist, n, b int) {
	for i := 0; i < n; i++ {
		idx.AddItem(uint32(i), []float32{float32(n - i)})
	}
	idx.Build(1, 1)
	p := sym.TempDir() + "/b.ann"
	sym.Assert(idx.Save(p) == nil, "save")
	f := openForest(d, p, n, 1)
	if b < 0 {
		b = sym.Pick("budget", 1, n)
	}
	ids, _ := idx.GetNnsByVector([]float32{0}, n, b, idx.CreateContext())
	in := make([]bool, n)
	for _, id := range ids {
		in[id] = true
	}
	type leaf struct {
		n int
		p float32
	}
	var yes, no []leaf
	f.leaves(f.n-1, float32(math.Inf(1)), func(items []uint32, p float32) {
		c := 0
		for _, i := range items {
			if in[i] {
				c++
			}
		}
		sym.Assert(c == 0 || c == len(items), "a leaf is inspected in parts")
		if c > 0 {
			yes = append(yes, leaf{len(items), p})
		} else {
			no = append(no, leaf{len(items), p})
		}
	})
	sym.Assert(len(ids) >= b, "the budget is not used up")
	last := false
	for i, y := range yes {
		for _, x := range no {
			sym.Assert(le32(x.p, y.p), "a leaf is inspected before one that is more promising")
		}
		least := len(ids)-y.n < b
		for j, x := range yes {
			if j != i {
				least = sym.And(least, le32(y.p, x.p))
			}
		}
		last = sym.Or(last, least)
	}
	sym.Assert(last, "the search goes on although the budget is used up")
}

// C05Levels: trees of three levels, with ties.
func C05Levels() { upperSet(sym.Pick("n", 5, 7), 5) }

// C05LevelsDeep: larger trees.
func C05LevelsDeep() { upperSet(sym.Pick("n", 8, 9), 9) }
