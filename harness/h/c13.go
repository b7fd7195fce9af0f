package h

import (
	"fmt"
	"math"
	"sort"
	"unsafe"

	"vh/sym"

	"github.com/mariotoffia/goannoy/builder"
	"github.com/mariotoffia/goannoy/distance/angular"
	"github.com/mariotoffia/goannoy/index"
	"github.com/mariotoffia/goannoy/index/memory"
	"github.com/mariotoffia/goannoy/index/policy"
	"github.com/mariotoffia/goannoy/interfaces"
	"github.com/mariotoffia/goannoy/random"
)

// ---- builds are reproducible ----

// shape describes the tree below node i; equal trees have equal shapes.
func (f *forest) shape(i int, root bool) string {
	if i < f.items && !root {
		return fmt.Sprint("i", i)
	}
	nd := f.node(i)
	k := int(nd.GetNumberOfDescendants())
	if k <= f.k {
		s := "["
		for _, c := range nd.GetChildren()[:k] {
			s += fmt.Sprint(c, ",")
		}
		return s + "]"
	}
	ch := unsafe.Slice(nd.GetRawChildren(), 2)
	s := fmt.Sprint("(", k)
	for _, x := range nd.GetVector(f.d.VectorLength()) {
		s += fmt.Sprint(" ", math.Float32bits(x))
	}
	return s + ":" + f.shape(int(ch[0]), false) + f.shape(int(ch[1]), false) + ")"
}

// shapes are the shapes of all trees, sorted.
func (f *forest) shapes() []string {
	var s []string
	for t := f.n - f.trees; t < f.n; t++ {
		s = append(s, f.shape(t, true))
	}
	sort.Strings(s)
	return s
}

func sameShapes(a, b []string) {
	sym.Assert(len(a) == len(b), "another number of trees")
	for i := range a {
		sym.Assert(a[i] == b[i], "the same build yields other trees")
	}
}

// built adds n items, builds, saves to the file and returns its forest.
func built(d dist, idx index32, n, trees, workers int, file string, preempt int) *forest {
	for i := 0; i < n; i++ {
		idx.AddItem(uint32(i), []float32{float32(i)})
	}
	if preempt >= 0 {
		sym.Explore(preempt)
	}
	idx.Build(trees, workers)
	sym.Explore(-1)
	p := sym.TempDir() + "/" + file
	sym.Assert(idx.Save(p) == nil, "save")
	return openForest(d, p, n, trees)
}

// seedDist shows the seed of the generator in the split planes.
type seedDist struct{ cdist }

func (d *seedDist) CreateSplit(children []node, nodeSize uint32, r rnd32, m node) {
	m.GetVector(d.VectorLength())[0] = float32(r.GetSeed())
}

func taped(seed uint32, t *tape, p interfaces.AnnoyIndexBuildPolicy) (dist, *trnd, index32) {
	d := &seedDist{cdist{angular.Distance[float32, uint32](1)}}
	r := &trnd{crnd{seed: seed}, t}
	return d, r, index.New[float32, uint32](r, d, p, &galloc{}, memory.MmapIndexAllocator(), nil, false, 0)
}

// C13Same: the same items, seed and trees yield the same file, whatever the generator draws.
func C13Same() {
	t := &tape{m: map[uint64]interfaces.Side{}, max: 10}
	n, trees := sym.Pick("n", 1, 5), sym.Pick("trees", 1, 2)
	d, r, a := taped(5, t, policy.SingleWorker())
	built(d, a, n, trees, 1, "a.ann", -1)
	sym.Assert(r.n == 0 && r.seed == 5, "building uses up the caller's generator")
	_, _, b := taped(5, t, policy.SingleWorker())
	built(d, b, n, trees, sym.Pick("workers", 1, 2), "b.ann", -1)
	sym.Assert(sameImage(image(sym.TempDir()+"/a.ann"), image(sym.TempDir()+"/b.ann")), "the same build yields another file")
	// and once more with the first index
	a.Close()
	built(d, a, n, trees, 1, "c.ann", -1)
	sym.Assert(sameImage(image(sym.TempDir()+"/a.ann"), image(sym.TempDir()+"/c.ann")), "building again yields another file")
}

// C13Policy: one worker of the policy for several is as good as the policy for one.
func C13Policy() {
	t := &tape{m: map[uint64]interfaces.Side{}, max: 6}
	n, trees := sym.Pick("n", 1, 5), sym.Pick("trees", 1, 2)
	d, _, a := taped(5, t, policy.SingleWorker())
	built(d, a, n, trees, 1, "a.ann", -1)
	_, _, b := taped(5, t, multi())
	built(d, b, n, trees, sym.Pick("workers", 0, 1), "b.ann", -1)
	sym.Assert(sameImage(image(sym.TempDir()+"/a.ann"), image(sym.TempDir()+"/b.ann")), "the policies build different trees")
}

// C13Schedules: several workers yield the same trees on every schedule.
func C13Schedules() {
	n, trees, workers := 4, sym.Pick("trees", 2, 3), 2
	d, a := many(1, &galloc{})
	b := built(d, a, n, trees, workers, "a.ann", -1).shapes()
	d, c := many(1, &galloc{})
	sameShapes(b, built(d, c, n, trees, workers, "c.ann", 1).shapes())
}

// C13SchedulesDeep: the same with more preemptions, items and workers.
func C13SchedulesDeep() {
	n, trees, workers := sym.Pick("n", 4, 5), 3, sym.Pick("workers", 2, 3)
	d, a := many(1, &galloc{})
	b := built(d, a, n, trees, workers, "a.ann", -1).shapes()
	d, c := many(1, &galloc{})
	sameShapes(b, built(d, c, n, trees, workers, "c.ann", 2).shapes())
}

// C13Workers: every worker has a generator of its own, derived from the seed.
func C13Workers() {
	t := &tape{m: map[uint64]interfaces.Side{}, max: 0}
	seed := uint32(sym.Pick("seed", 0, 2)) * 1000
	w := sym.Pick("workers", 1, 4)
	d, r, idx := taped(seed, t, multi())
	f := built(d, idx, 5, w, w, "w.ann", 0)
	seen := map[float32]bool{}
	first := false
	for i := f.n - f.trees; i < f.n; i++ {
		v := f.node(i).GetVector(1)[0]
		sym.Assert(!seen[v], "two workers draw the same numbers")
		seen[v] = true
		first = first || v == float32(seed)
	}
	sym.Assert(first, "the given seed is not used")
	sym.Assert(r.n == 0 && r.seed == seed, "building uses up the caller's generator")
}

// C13Builder: the default configurations with real generators and the real metric.
func C13Builder() {
	n, trees := 9, sym.Pick("trees", 1, 2)
	seed := []uint32{0, 1, 77, 1 << 31}[sym.Pick("seed", 0, 3)]
	multi := sym.Pick("policy", 0, 1) == 1
	kind := sym.Pick("random", 0, 1)
	d := angular.Distance[float32, uint32](2)
	var want []string
	for k := 0; k < 3; k++ {
		b := builder.Index[float32, uint32]().AngularDistance(2)
		r := random.NewKiss32Random(seed)
		if kind == 1 {
			b = b.Random(r)
		}
		if k == 1 {
			b = b.IndexNumHint(4)
		}
		if k == 2 {
			b = b.GCMemoryIndexAllocator()
		}
		if multi {
			b = b.UseMultiWorkerPolicy()
		}
		idx := b.Build()
		for i, v := range ring(n) {
			idx.AddItem(uint32(i), v)
		}
		idx.Build(trees, 2)
		sym.Assert(r.Next() == random.NewKiss32Random(seed).Next(), "building uses up the caller's generator")
		p := sym.TempDir() + "/x.ann"
		sym.Assert(idx.Save(p) == nil, "save")
		s := openForest(d, p, n, trees).shapes()
		if k > 0 {
			sameShapes(want, s)
		}
		want = s
	}
}
