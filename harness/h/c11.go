package h

import (
	"sync"

	"vh/sym"

	"github.com/mariotoffia/goannoy/builder"
	"github.com/mariotoffia/goannoy/distance/angular"
	"github.com/mariotoffia/goannoy/distance/dotproduct"
	"github.com/mariotoffia/goannoy/index"
	"github.com/mariotoffia/goannoy/index/memory"
	"github.com/mariotoffia/goannoy/index/policy"
	"github.com/mariotoffia/goannoy/random"
)

// ---- data races ----

// C11Build: several workers build over storage that grows.
func C11Build() {
	sym.TrackRaces()
	_, idx := many(uint32(sym.Pick("seed", 0, 2)), &galloc{})
	n := sym.Pick("n", 1, 6)
	for i := 0; i < n; i++ {
		idx.AddItem(uint32(i), []float32{float32(i)})
	}
	trees := []int{-1, 1, 2, 3, 5}[sym.Pick("trees", 0, 4)]
	idx.Build(trees, sym.Pick("workers", 2, 3))
	sym.Cover("built")
}

// C11Allocator: the same with the real build allocator.
func C11Allocator() {
	sym.TrackRaces()
	_, idx := many(1, memory.GoGCIndexAllocator())
	n := sym.Pick("n", 3, 5)
	for i := 0; i < n; i++ {
		idx.AddItem(uint32(i), []float32{float32(i)})
	}
	idx.Build(3, 2)
}

// C11Angular: the default configuration.
func C11Angular() {
	sym.TrackRaces()
	idx := builder.Index[float32, uint32]().AngularDistance(2).UseMultiWorkerPolicy().Build()
	n := sym.Pick("n", 3, 9)
	for i, v := range ring(n) {
		idx.AddItem(uint32(i), v)
	}
	idx.Build(2, sym.Pick("workers", 2, 3))
}

// C11Dot: the dot product metric.
func C11Dot() {
	sym.TrackRaces()
	d := dotproduct.Distance[float32, uint32](2)
	idx := index.New[float32, uint32](random.NewKiss32Random(uint32(7)), d, policy.MultiWorker(), memory.GoGCIndexAllocator(), memory.MmapIndexAllocator(), nil, false, 0)
	for i, v := range ring(8) {
		idx.AddItem(uint32(i), v)
	}
	idx.Build(2, 2)
}

// C11Search: searches, lookups and new contexts on one index at the same time, each
// search with its own context.
func C11Search() {
	var idx index32
	var n int
	if sym.Pick("real", 0, 1) == 0 {
		_, _, idx = nd(1, 0, ialloc("alloc"))
		n = 6
		items(idx, 1, n, false)
	} else {
		_, idx = realIdx(1, random.NewKiss32Random(uint32(1)), policy.SingleWorker())
		n = 8
		for i := 0; i < n; i++ {
			idx.AddItem(uint32(i), []float32{float32(i) - 3.5})
		}
	}
	idx.Build(2, 1)
	if sym.Pick("save", 0, 1) == 1 {
		sym.Assert(idx.Save(sym.TempDir()+"/s.ann") == nil, "save")
	}
	sym.TrackRaces()
	ops := [2]int{sym.Pick("op", 0, 3), sym.Pick("op", 0, 3)}
	var wg sync.WaitGroup
	wg.Add(2)
	for i := 0; i < 2; i++ {
		go func(op int) {
			defer wg.Done()
			q := []float32{0.5}
			reader(idx, op, n, 2, []int{-1, 100}[op&1], q, idx.CreateContext())
		}(ops[i])
	}
	wg.Wait()
}

// C11SearchDot: the same for the dot product metric.
func C11SearchDot() {
	d := dotproduct.Distance[float32, uint32](2)
	idx := index.New[float32, uint32](&srnd{}, d, policy.SingleWorker(), &galloc{}, memory.FileIndexMemoryAllocator(), nil, false, 0)
	for i, v := range ring(9) {
		idx.AddItem(uint32(i), v)
	}
	idx.Build(1, 1)
	sym.Assert(idx.Save(sym.TempDir()+"/s.ann") == nil, "save")
	sym.TrackRaces()
	var wg sync.WaitGroup
	wg.Add(2)
	for i := 0; i < 2; i++ {
		go func(i int) {
			defer wg.Done()
			c := idx.CreateContext()
			idx.GetNnsByVector([]float32{1, 2}, 3, -1, c)
			idx.GetNnsByItem(uint32(i), 3, 100, c)
			idx.GetDistance(0, 3)
		}(i)
	}
	wg.Wait()
}

// C11Apart: indexes of their own share nothing, whatever is done to them.
func C11Apart() {
	sym.TrackRaces()
	var wg sync.WaitGroup
	wg.Add(2)
	k := sym.Pick("kind", 0, 3)
	for w := 0; w < 2; w++ {
		p := sym.TempDir() + "/" + string(rune('a'+w)) + ".ann"
		go func(p string) {
			defer wg.Done()
			var idx index32
			switch k {
			case 0:
				idx = builder.Index[float32, uint32]().AngularDistance(2).Build()
			case 1:
				idx = builder.Index[float32, uint32]().AngularDistance(2).GCMemoryIndexAllocator().IndexNumHint(3).SingleWorkerPolicy().Build()
			case 2:
				idx = index.New[float32, uint32](random.NewKiss32Random(uint32(3)), dotproduct.Distance[float32, uint32](2),
					policy.SingleWorker(), memory.GoGCIndexAllocator(), memory.MmapIndexAllocator(), nil, false, 0)
			case 3:
				idx = index.New[float32, uint32](random.NewKiss32Random(uint32(9)), angular.Distance[float32, uint32](2),
					policy.SingleWorker(), memory.GoGCIndexAllocator(), memory.FileIndexMemoryAllocator(), nil, false, 0)
			}
			for i, v := range ring(8) {
				idx.AddItem(uint32(i), v)
			}
			idx.Build(1, 1)
			sym.Assert(idx.Save(p) == nil, "save")
			idx.GetNnsByVector([]float32{1, 2}, 3, -1, idx.CreateContext())
			idx.GetDistance(0, 1)
			sym.Assert(idx.Close() == nil, "close")
		}(p)
	}
	wg.Wait()
}

// C11Shared: indexes of the same builder, or with the same file allocator, at the same time.
func C11Shared() {
	k, rounds := sym.Pick("kind", 0, 3), sym.Pick("rounds", 1, 2)
	al := ialloc("alloc")
	b := builder.Index[float32, uint32]().AngularDistance(2)
	switch k {
	case 1:
		b = b.UseMultiWorkerPolicy().GCMemoryIndexAllocator()
	case 2:
		b = b.SingleWorkerPolicy().MmapIndexAllocator().IndexNumHint(5)
	}
	var idxs [2]index32
	for w := range idxs {
		idxs[w] = b.Build()
		if k == 3 {
			idxs[w] = index.New[float32, uint32](random.NewKiss32Random(uint32(9)), angular.Distance[float32, uint32](2),
				policy.SingleWorker(), memory.GoGCIndexAllocator(), al, nil, false, 0)
		}
	}
	sym.TrackRaces()
	var wg sync.WaitGroup
	wg.Add(2)
	for w, idx := range idxs {
		p := sym.TempDir() + "/" + string(rune('a'+w)) + ".ann"
		go func(w int, idx index32) {
			defer wg.Done()
			for r := 0; r < rounds; r++ {
				for i, v := range ring(4 + w) {
					idx.AddItem(uint32(i), []float32{v[0] + float32(w), v[1]})
				}
				idx.Build(1, 1)
				sym.Assert(idx.Save(p) == nil, "save")
				sym.Assert(idx.GetItem(1)[0] == ring(4 + w)[1][0]+float32(w), "an item is that of another index")
				ids, _ := idx.GetNnsByItem(1, 9, 100, idx.CreateContext())
				sym.Assert(len(ids) == 4+w, "an index finds the items of another one")
				sym.Assert(idx.Close() == nil, "close")
			}
		}(w, idx)
	}
	wg.Wait()
}
