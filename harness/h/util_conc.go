package h

import (
	"math"
	"strconv"
	"sync"
	"unsafe"

	"vh/sym"

	"github.com/mariotoffia/goannoy/distance/angular"
	"github.com/mariotoffia/goannoy/index"
	"github.com/mariotoffia/goannoy/index/memory"
	"github.com/mariotoffia/goannoy/index/policy"
	"github.com/mariotoffia/goannoy/interfaces"
)

// ---- several workers ----

// jitter is a build policy that delays its locks in native replays; everything else is
// done by the real policy.
type jitter struct {
	interfaces.AnnoyIndexBuildPolicy
}

func multi() interfaces.AnnoyIndexBuildPolicy { return &jitter{policy.MultiWorker()} }

type jitterBuilder struct {
	b interfaces.AnnoyIndexBuilder
	p *jitter
}

func (j *jitterBuilder) ThreadBuild(trees, worker int, p interfaces.AnnoyIndexBuildPolicy) {
	sym.Yield()
	j.b.ThreadBuild(trees, worker, j.p)
}

func (j *jitter) Build(b interfaces.AnnoyIndexBuilder, trees, workers int) {
	j.AnnoyIndexBuildPolicy.Build(&jitterBuilder{b, j}, trees, workers)
}

func (j *jitter) LockNNodes()   { sym.Yield(); j.AnnoyIndexBuildPolicy.LockNNodes(); sym.Yield() }
func (j *jitter) UnlockNNodes() { sym.Yield(); j.AnnoyIndexBuildPolicy.UnlockNNodes(); sym.Yield() }
func (j *jitter) LockNodes()    { sym.Yield(); j.AnnoyIndexBuildPolicy.LockNodes(); sym.Yield() }
func (j *jitter) UnlockNodes()  { sym.Yield(); j.AnnoyIndexBuildPolicy.UnlockNodes(); sym.Yield() }
func (j *jitter) LockSharedNodes() {
	sym.Yield()
	j.AnnoyIndexBuildPolicy.LockSharedNodes()
	sym.Yield()
}
func (j *jitter) UnlockSharedNodes() {
	sym.Yield()
	j.AnnoyIndexBuildPolicy.UnlockSharedNodes()
	sym.Yield()
}
func (j *jitter) LockRoots()   { sym.Yield(); j.AnnoyIndexBuildPolicy.LockRoots(); sym.Yield() }
func (j *jitter) UnlockRoots() { sym.Yield(); j.AnnoyIndexBuildPolicy.UnlockRoots(); sym.Yield() }

// crnd is a generator whose draws depend on its seed and the number of draws only.
type crnd struct{ seed, n uint32 }

func (r *crnd) Next() uint32 {
	r.n++
	x := (r.seed*31 + r.n) * 2654435761
	return x ^ x>>13
}
func (r *crnd) NextSide() interfaces.Side { return interfaces.Side(r.Next() >> 7 & 1) }
func (r *crnd) NextIndex(n uint32) uint32 { return r.Next() % n }
func (r *crnd) SetSeed(s uint32)          { r.seed, r.n = s, 0 }
func (r *crnd) GetSeed() uint32           { return r.seed }
func (r *crnd) CloneAndReset() rnd32      { return &crnd{seed: r.seed} }

// tape yields arbitrary draws that depend on the seed and the number of the draw only.
type tape struct {
	mu  sync.Mutex
	m   map[uint64]interfaces.Side
	max uint32
}

func (t *tape) at(seed, n uint32) interfaces.Side {
	if n > t.max {
		return interfaces.Side((n + seed) & 1)
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	k := uint64(seed)<<32 | uint64(n)
	s, ok := t.m[k]
	if !ok {
		if sym.Bool("side-" + strconv.Itoa(int(seed)) + "-" + strconv.Itoa(int(n))) {
			s = 1
		}
		t.m[k] = s
	}
	return s
}

// trnd is a generator that plays a tape.
type trnd struct {
	crnd
	t *tape
}

func (r *trnd) NextSide() interfaces.Side { r.n++; return r.t.at(r.seed, r.n) }
func (r *trnd) CloneAndReset() rnd32      { return &trnd{crnd{seed: r.seed}, r.t} }

// cdist is a metric whose splits depend on the generator of the worker only; it yields
// natively where a worker reads the nodes.
type cdist struct{ dist }

func (d *cdist) CreateSplit(children []node, nodeSize uint32, r rnd32, m node) {
	sym.Yield()
	m.GetVector(d.VectorLength())[0] = float32(int32(r.Next()%64) - 32)
}

func (d *cdist) Side(m node, v []float32, r rnd32) interfaces.Side { return r.NextSide() }

func (d *cdist) Margin(n node, y []float32) float32 { return n.GetVector(d.VectorLength())[0] }

func (d *cdist) Distance(x, y node) float32 { return y.GetVector(d.VectorLength())[0] }

func (d *cdist) NormalizedDistance(x float32) float32 { return x }

// jalloc yields around the real build allocator.
type jalloc struct{ interfaces.BuildIndexAllocator }

func (a *jalloc) Reallocate(n int) unsafe.Pointer {
	sym.Yield()
	p := a.BuildIndexAllocator.Reallocate(n)
	sym.Yield()
	return p
}

// many returns an index for several workers and its metric.
func many(seed uint32, alloc interfaces.BuildIndexAllocator) (dist, index32) {
	d := &cdist{angular.Distance[float32, uint32](1)}
	return d, index.New[float32, uint32](&crnd{seed: seed}, d, multi(), &jalloc{alloc}, memory.MmapIndexAllocator(), nil, false, 0)
}

// real returns an index of the angular metric.
func realIdx(vl uint32, r rnd32, p interfaces.AnnoyIndexBuildPolicy) (dist, index32) {
	d := angular.Distance[float32, uint32](vl)
	return d, index.New[float32, uint32](r, d, p, memory.GoGCIndexAllocator(), memory.MmapIndexAllocator(), nil, false, 0)
}

// ring is n vectors around the origin.
func ring(n int) [][]float32 {
	vs := make([][]float32, n)
	for i := range vs {
		a := float64(i) * 0.9
		vs[i] = []float32{float32(math.Cos(a)), float32(math.Sin(a))}
	}
	return vs
}
