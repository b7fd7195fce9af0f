package h

import (
	"sync"

	"vh/sym"

	"github.com/mariotoffia/goannoy/builder"
	"github.com/mariotoffia/goannoy/index/policy"
	"github.com/mariotoffia/goannoy/interfaces"
)

// ---- several workers: the forest ----

func parallel(n, trees, workers, preempt int) {
	d, idx := many(uint32(sym.Pick("seed", 0, 1)), &galloc{})
	for i := 0; i < n; i++ {
		idx.AddItem(uint32(i), []float32{float32(i)})
	}
	sym.Explore(preempt)
	idx.Build(trees, workers)
	sym.Explore(0)
	for i := 0; i < n; i++ {
		sym.Assert(idx.GetItem(uint32(i))[0] == float32(i), "an item changed")
	}
	p := sym.TempDir() + "/f.ann"
	sym.Assert(idx.Save(p) == nil, "save")
	f := openForest(d, p, n, trees)
	f.check()
	f.full()
	sym.Cover("parallel")
}

// full asserts that every node belongs to a tree: no worker's node is lost.
func (f *forest) full() {
	seen := make([]int, f.n)
	for t := f.n - f.trees; t < f.n; t++ {
		f.walk(t, true, seen, 0)
	}
	orig := 0
	for i := f.items; i < f.n-f.trees; i++ {
		if seen[i] == 0 {
			orig++
		}
	}
	sym.Assert(orig == f.trees, "a node belongs to no tree")
}

// C12Leaf: leaves only; three preemptions anywhere.
func C12Leaf() { parallel(sym.Pick("n", 1, 2), 2, 2, 3) }

// C12Split: split trees; two preemptions and any order of workers.
func C12Split() { parallel(4, 2, 2, 2) }

// C12SplitDeep: more preemptions.
func C12SplitDeep() { parallel(4, 2, 2, 4) }

// C12Three: three workers.
func C12Three() { parallel(sym.Pick("n", 3, 4), 3, 3, 1) }

// C12ThreeDeep: three workers, more preemptions.
func C12ThreeDeep() { parallel(sym.Pick("n", 3, 5), 3, 3, 2) }

// C12Uneven: the trees do not divide evenly among the workers, or there are more workers
// than trees.
func C12Uneven() { parallel(3, sym.Pick("trees", 1, 4), sym.Pick("workers", 1, 3), 1) }

// C12UnevenDeep: with more preemptions.
func C12UnevenDeep() { parallel(3, sym.Pick("trees", 1, 4), sym.Pick("workers", 1, 3), 3) }

// count counts what the policy hands to the workers.
type count struct {
	mu     sync.Mutex
	trees  int
	seen   map[int]int
	active int
}

func (c *count) ThreadBuild(trees, worker int, p interfaces.AnnoyIndexBuildPolicy) {
	c.mu.Lock()
	c.trees += trees
	c.seen[worker]++
	c.active++
	c.mu.Unlock()
	sym.Yield()
	p.LockNNodes()
	p.LockNodes()
	p.UnlockNodes()
	p.UnlockNNodes()
	p.LockSharedNodes()
	p.UnlockSharedNodes()
	p.LockRoots()
	p.UnlockRoots()
	c.mu.Lock()
	c.active--
	c.mu.Unlock()
}

// C12Shares: the trees are shared out completely; every worker has its own number, all
// are done when the policy returns.
func C12Shares() {
	procs := sym.Pick("procs", 1, 3)
	sym.MaxProcs(procs)
	c := &count{seen: map[int]int{}}
	trees, workers := sym.Pick("trees", 0, 9), sym.Pick("workers", -1, 7)
	p := policy.MultiWorker()
	p.Build(c, trees, workers)
	sym.Assert(c.active == 0, "a worker is still running")
	sym.Assert(c.trees == trees, "the workers build another number of trees")
	for w, k := range c.seen {
		sym.Assert(k == 1 && w >= 0, "workers share a number")
	}
	if workers > 0 {
		sym.Assert(len(c.seen) == workers, "another number of workers")
	} else {
		sym.Assert(len(c.seen) >= 1, "no worker")
	}
	// the locks are free again
	c2 := &count{seen: map[int]int{}}
	p.Build(c2, 1, 1)
	sym.Assert(c2.trees == 1 && c2.active == 0, "a policy cannot be used again")
}

// C12Single: one worker does everything, whatever number of workers is asked for.
func C12Single() {
	c := &count{seen: map[int]int{}}
	trees := sym.Int("trees", -1, 1000)
	policy.SingleWorker().Build(c, trees, sym.Int("workers", -1, 100))
	sym.Assert(c.trees == trees && len(c.seen) == 1 && c.seen[0] == 1 && c.active == 0, "the single worker builds every tree")
}

// C12Auto: without a number of trees, building stops at about twice as many nodes as items.
func C12Auto() {
	d, idx := many(uint32(sym.Pick("seed", 0, 2)), &galloc{})
	n := sym.Pick("n", 1, 6)
	for i := 0; i < n; i++ {
		idx.AddItem(uint32(i), []float32{float32(i)})
	}
	w := sym.Pick("workers", -1, 3)
	sym.Explore(0)
	idx.Build(-1, w)
	p := sym.TempDir() + "/f.ann"
	sym.Assert(idx.Save(p) == nil, "save")
	f := openForest(d, p, n, 0)
	// the roots, originals and copies, have as many descendants as there are items
	for i := n; i < f.n; i++ {
		if int(f.node(i).GetNumberOfDescendants()) == n {
			f.trees++
		}
	}
	sym.Assert(f.trees >= 2 && f.trees%2 == 0, "originals and copies of the roots")
	f.trees /= 2
	if n <= f.k && w > 0 { // one node each
		sym.Assert(f.trees >= n && f.trees < n+w, "the number of trees of one node each")
	}
	sym.Assert(f.n-f.trees >= 2*n, "building stopped too early")
	f.check()
}

// C12Single worker build for the default policies of the builder.
func C12Builder() {
	b := builder.Index[float32, uint32]().AngularDistance(2)
	switch sym.Pick("policy", 0, 2) {
	case 1:
		b = b.UseMultiWorkerPolicy()
	case 2:
		b = b.SingleWorkerPolicy()
	}
	idx := b.Build()
	n := 9
	for i, v := range ring(n) {
		idx.AddItem(uint32(i), v)
	}
	trees := sym.Pick("trees", 1, 4)
	sym.Explore(0)
	idx.Build(trees, sym.Pick("workers", -1, 4))
	p := sym.TempDir() + "/f.ann"
	sym.Assert(idx.Save(p) == nil, "save")
	d, _ := realIdx(2, &srnd{}, nil)
	f := openForest(d, p, n, trees)
	f.check()
	f.full()
}
