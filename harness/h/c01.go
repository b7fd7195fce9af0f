package h

import (
	"math"

	"vh/sym"

	"github.com/mariotoffia/goannoy/builder"
	"github.com/mariotoffia/goannoy/distance/angular"
	"github.com/mariotoffia/goannoy/distance/dotproduct"
	"github.com/mariotoffia/goannoy/index"
	"github.com/mariotoffia/goannoy/index/memory"
	"github.com/mariotoffia/goannoy/index/policy"
	"github.com/mariotoffia/goannoy/interfaces"
	"github.com/mariotoffia/goannoy/random"
)

// ---- item store ----

// store is the reference model: what every id should hold.
type store struct {
	vl int
	m  map[int][]float32
	hi int
}

func (s *store) add(idx index32, id int) {
	v := anyVec(s.vl)
	s.m[id] = clone(v)
	idx.AddItem(uint32(id), v)
	if id+1 > s.hi {
		s.hi = id + 1
	}
}

func (s *store) verify(idx index32, when string) {
	for id := 0; id < s.hi; id++ {
		if w, ok := s.m[id]; ok {
			sym.Assert(sameBits(idx.GetItem(uint32(id)), w), "item changed "+when)
		}
	}
}

// lifecycle checks the items after each stage.
func (s *store) lifecycle(idx index32, fresh func() index32, trees int) {
	s.verify(idx, "while adding")
	idx.Build(trees, 1)
	s.verify(idx, "by building")
	p := sym.TempDir() + "/i.ann"
	sym.Assert(idx.Save(p) == nil, "save")
	s.verify(idx, "by saving")
	sym.Assert(idx.VectorLength() == uint32(s.vl), "vector length")
	o := fresh()
	sym.Assert(o.Load(p) == nil, "load")
	s.verify(o, "by loading")
	idx.Close()
	s.verify(o, "by closing another index")
	o.Close()
	sym.Cover("lifecycle")
}

// C01Sequences: any sequence of up to 4 additions with ids 0..5 in any order, with
// gaps and repetitions; arbitrary vectors (including NaN and infinities).
func C01Sequences() {
	_, _, idx := nd(4, 4, nil)
	s := &store{vl: 4, m: map[int][]float32{}}
	n := sym.Pick("n", 1, 4)
	for i := 0; i < n; i++ {
		s.add(idx, sym.Pick("id", 0, 5))
	}
	s.lifecycle(idx, func() index32 { _, _, o := nd(4, 4, nil); return o }, 1)
}

// C01Growth: additions far apart make the storage grow.
func C01Growth() {
	_, _, idx := nd(2, 0, nil)
	s := &store{vl: 2, m: map[int][]float32{}}
	s.add(idx, 0)
	s.add(idx, sym.Pick("gap", 1, 60))
	s.add(idx, sym.Pick("far", 0, 3)*40)
	s.verify(idx, "by growing")
	s.add(idx, 130)
	s.verify(idx, "by growing")
}

// C01Many: one item after the other, the storage grows repeatedly.
func C01Many() {
	_, _, idx := nd(2, 4, nil)
	s := &store{vl: 2, m: map[int][]float32{}}
	n := sym.Pick("n", 12, 20)
	for i := 0; i < n; i++ {
		s.add(idx, i)
	}
	s.add(idx, sym.Pick("again", 0, 11))
	s.lifecycle(idx, func() index32 { _, _, o := nd(2, 4, memory.FileIndexMemoryAllocator()); return o }, 2)
}

// C01Builder: the default configuration with its own allocators and a size hint.
func C01Builder() {
	mk := func() index32 {
		b := builder.Index[float32, uint32]().AngularDistance(5).IndexNumHint(sym.Pick("hint", 0, 3) * 3)
		if sym.Pick("alloc", 0, 1) == 1 {
			b = b.GCMemoryIndexAllocator()
		}
		return b.Build()
	}
	idx := mk()
	s := &store{vl: 5, m: map[int][]float32{}}
	n := sym.Pick("n", 1, 6)
	for i := 0; i < n; i++ {
		s.add(idx, i)
	}
	s.lifecycle(idx, mk, sym.Pick("trees", 1, 3))
}

// C01Own: the index keeps its own copy of a vector, and additions leave the caller's
// vectors alone.
func C01Own() {
	_, _, idx := nd(3, 0, nil)
	a, b := anyVec(3), anyVec(3)
	ca, cb := clone(a), clone(b)
	idx.AddItem(0, a)
	idx.AddItem(1, b)
	sym.Assert(sameBits(a, ca), "the caller's vector was changed")
	sym.Assert(sameBits(b, cb), "the caller's vector was changed")
	sym.Assert(sameBits(idx.GetItem(0), ca), "first item")
	sym.Assert(sameBits(idx.GetItem(1), cb), "second item")
}

// C01Wide: float64 vectors and 64 bit ids.
func C01Wide() {
	d := angular.Distance[float64, uint64](4)
	mk := func() interfaces.AnnoyIndex[float64, uint64] {
		return index.New[float64, uint64](random.NewKiss64Random(1), d, policy.SingleWorker(),
			memory.GoGCIndexAllocator(), memory.MmapIndexAllocator(), nil, false, 0)
	}
	idx := mk()
	n := sym.Pick("n", 1, 5)
	var vs [][]float64
	for i := 0; i < n; i++ {
		v := make([]float64, 4)
		for j := range v {
			v[j] = sym.F64("v")
		}
		vs = append(vs, append([]float64(nil), v...))
		idx.AddItem(uint64(i), v)
	}
	ver := func(x interfaces.AnnoyIndex[float64, uint64]) {
		for i, v := range vs {
			g := x.GetItem(uint64(i))
			sym.Assert(len(g) == 4, "length")
			for j := range v {
				sym.Assert(math.Float64bits(g[j]) == math.Float64bits(v[j]), "float64 item changed")
			}
		}
	}
	ver(idx)
	idx.Build(2, 1)
	ver(idx)
	p := sym.TempDir() + "/w.ann"
	sym.Assert(idx.Save(p) == nil, "save")
	ver(idx)
	o := mk()
	sym.Assert(o.Load(p) == nil, "load")
	ver(o)
}

// C01Dot: the dot product metric keeps the vectors as they are, too.
func C01Dot() {
	d := dotproduct.Distance[float32, uint32](3)
	mk := func() index32 {
		return index.New[float32, uint32](random.NewKiss32Random(uint32(1)), d, policy.SingleWorker(),
			&galloc{}, memory.MmapIndexAllocator(), nil, false, 0)
	}
	idx := mk()
	s := &store{vl: 3, m: map[int][]float32{}}
	n := sym.Pick("n", 1, 4)
	for i := 0; i < n; i++ {
		v := []float32{finite("v"), finite("v"), finite("v")}
		s.m[i] = clone(v)
		idx.AddItem(uint32(i), v)
		s.hi = i + 1
	}
	s.lifecycle(idx, mk, 1)
}

// C01Angular: splitting with the real metric leaves the items alone.
func C01Angular() {
	idx := builder.Index[float32, uint32]().AngularDistance(2).Build()
	vs := map[int][]float32{}
	for i := 0; i < 12; i++ {
		v := []float32{float32(i%4) - 1.5, float32(i%5) - 2}
		vs[i] = clone(v)
		idx.AddItem(uint32(i), v)
	}
	idx.Build(sym.Pick("trees", 1, 3), 1)
	for i := 0; i < 12; i++ {
		sym.Assert(sameBits(idx.GetItem(uint32(i)), vs[i]), "item changed by building")
	}
	p := sym.TempDir() + "/a.ann"
	sym.Assert(idx.Save(p) == nil, "save")
	for i := 0; i < 12; i++ {
		sym.Assert(sameBits(idx.GetItem(uint32(i)), vs[i]), "item changed by saving")
	}
}

// C01Long: long vectors.
func C01Long() {
	n := long()
	_, _, idx := nd(uint32(n), 0, nil)
	s := &store{vl: n, m: map[int][]float32{}}
	for i := 0; i < 3; i++ {
		s.add(idx, i)
	}
	s.lifecycle(idx, func() index32 { _, _, o := nd(uint32(n), 0, nil); return o }, 1)
}
