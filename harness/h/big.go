package h

import (
	"math"
	"unsafe"

	"vh/sym"

	"github.com/mariotoffia/goannoy/builder"
	"github.com/mariotoffia/goannoy/distance/angular"
	"github.com/mariotoffia/goannoy/distance/dotproduct"
	"github.com/mariotoffia/goannoy/index"
	"github.com/mariotoffia/goannoy/index/memory"
	"github.com/mariotoffia/goannoy/index/policy"
	"github.com/mariotoffia/goannoy/interfaces"
	"github.com/mariotoffia/goannoy/random"
	"github.com/mariotoffia/goannoy/sort"
	"github.com/mariotoffia/goannoy/vector"
)

// ---- the same properties for a few hundred items ----
//
// Most items are given; arbitrary are a few places where it matters: one distance, one
// margin, the seed, where a split becomes lopsided.

// lcg is a sequence of numbers in [0,1).
func lcg(seed uint32) func() float32 {
	return func() float32 {
		seed = seed*1664525 + 1013904223
		return float32(seed>>8) / (1 << 24)
	}
}

// cloud is n vectors of vl elements around the origin.
func cloud(n, vl int, seed uint32) [][]float32 {
	r := lcg(seed)
	vs := make([][]float32, n)
	for i := range vs {
		vs[i] = make([]float32, vl)
		for j := range vs[i] {
			vs[i][j] = r()*8 - 4
		}
	}
	return vs
}

// scaleIndex is an index of the real metric with the default generator.
func scaleIndex(vs [][]float32, seed uint32) (dist, index32) {
	d := angular.Distance[float32, uint32](uint32(len(vs[0])))
	idx := index.New[float32, uint32](random.NewKiss32Random(seed), d, policy.SingleWorker(),
		&galloc{}, memory.MmapIndexAllocator(), nil, false, 0)
	for i, v := range vs {
		idx.AddItem(uint32(i), clone(v))
	}
	return d, idx
}

// givenDist adds n items of given distances but for one that is arbitrary.
func givenDist(idx index32, n, any int) []float32 {
	ds := make([]float32, n)
	for i := range ds {
		ds[i] = math.Float32frombits(0x40000000 + uint32((i*7)%n)<<17)
		if i == any {
			ds[i] = ordf("dist")
		}
		idx.AddItem(uint32(i), []float32{ds[i]})
	}
	return ds
}

// C01Scale: hundreds of items and far ids.
func C01Scale() {
	_, _, idx := nd(2, 0, nil)
	s := &store{vl: 2, m: map[int][]float32{}}
	for i := 0; i < 150; i++ {
		s.add(idx, (i*7)%150)
	}
	s.add(idx, sym.Pick("far", 0, 2)*700+300)
	s.add(idx, sym.Pick("again", 0, 3)*49)
	s.lifecycle(idx, func() index32 { _, _, o := nd(2, 0, memory.FileIndexMemoryAllocator()); return o }, 1)
}

// C02Scale: forests of the real metric over hundreds of items.
func C02Scale() {
	n := []int{128, 257, 300}[sym.Pick("n", 0, 2)]
	trees := sym.Pick("trees", 0, 1)*2 + 1
	d, idx := scaleIndex(cloud(n, 4, uint32(sym.Pick("cloud", 1, 2))), uint32(sym.Pick("seed", 0, 2)))
	idx.Build(trees, 1)
	p := sym.TempDir() + "/f.ann"
	sym.Assert(idx.Save(p) == nil, "save")
	openForest(d, p, n, trees).check()
}

// C02ScaleSame: hundreds of equal items.
func C02ScaleSame() {
	n := 260
	vs := make([][]float32, n)
	few := sym.Pick("few", 0, 1) * 8
	for i := range vs {
		vs[i] = []float32{1, 2, 3}
		if i < few {
			vs[i] = []float32{float32(-i), 1, 0}
		}
	}
	d, idx := scaleIndex(vs, uint32(sym.Pick("seed", 0, 1)))
	idx.Build(2, 1)
	p := sym.TempDir() + "/f.ann"
	sym.Assert(idx.Save(p) == nil, "save")
	openForest(d, p, n, 2).check()
}

// C02ScaleSides: lopsided splits of hundreds of items, around the ratio that is too lopsided.
func C02ScaleSides() {
	n := 300
	d, _, idx := nd(1, 0, nil)
	cut := []int{0, 1, 14, 15, 16, 100, 299}[sym.Pick("cut", 0, 6)]
	tries := sym.Pick("tries", 1, 4)
	k := 0
	alt := symSides(0)
	d.sides = func() interfaces.Side {
		k++
		if k > n*tries {
			return alt()
		}
		if (k-1)%n < cut {
			return interfaces.SideRight
		}
		return interfaces.SideLeft
	}
	for i := 0; i < n; i++ {
		idx.AddItem(uint32(i), []float32{float32(i)})
	}
	idx.Build(1, 1)
	p := sym.TempDir() + "/f.ann"
	sym.Assert(idx.Save(p) == nil, "save")
	openForest(d, p, n, 1).check()
}

// C03Scale: limited searches of hundreds of items in several trees.
func C03Scale() {
	vs := cloud(150, 3, 7)
	d, idx := scaleIndex(vs, uint32(sym.Pick("seed", 0, 1)))
	idx.Build(4, 1)
	q := []float32{1, -2, 0.5}
	ds := make([]float32, len(vs))
	for i := range ds {
		ds[i] = d.NormalizedDistance(d.Distance(refNode(d, q), refNode(d, vs[i])))
	}
	k := []int{1, 21, 160}[sym.Pick("k", 0, 2)]
	b := []int{-1, 1, 100, 5000}[sym.Pick("budget", 0, 3)]
	ids, dd := idx.GetNnsByVector(clone(q), k, b, idx.CreateContext())
	sound(ids, dd, ds, k)
	sym.Assert(len(ids) > 0, "a search finds nothing")
}

// C04Scale: exhaustive searches of hundreds of items, one distance is arbitrary.
func C04Scale() {
	d, _, idx := nd(1, 0, nil)
	m := lcg(5)
	d.margins = func() float32 { return m()*8 - 4 }
	n := 150
	ds := givenDist(idx, n, 87)
	idx.Build(sym.Pick("trees", 1, 2), 1)
	if sym.Pick("save", 0, 1) == 1 {
		sym.Assert(idx.Save(sym.TempDir()+"/s.ann") == nil, "save")
	}
	k := []int{1, 60, 151}[sym.Pick("k", 0, 2)]
	ids, dd := idx.GetNnsByVector([]float32{0}, k, 1<<30, idx.CreateContext())
	sound(ids, dd, ds, k)
	exact(ids, dd, ds, k)
}

// C05Scale: the order of a limited search in a tree of many levels; one margin is arbitrary.
func C05Scale() {
	d, _, idx := nd(1, 0, nil)
	r, k := lcg(3), 0
	any := sym.Pick("any", 0, 3) * 5
	d.margins = func() float32 {
		k++
		if k == any {
			return ordm("margin")
		}
		return r()*8 - 4
	}
	upperSetOf(idx, d, 130, []int{1, 9, 50, 129}[sym.Pick("budget", 0, 3)])
}

// C06Scale: counts and budgets around and beyond hundreds of items.
func C06Scale() {
	vs := cloud(150, 2, 5)
	_, idx := scaleIndex(vs, 3)
	idx.Build(3, 1)
	if sym.Pick("save", 0, 1) == 1 {
		sym.Assert(idx.Save(sym.TempDir()+"/s.ann") == nil, "save")
	}
	k := []int{149, 150, 151, 451, 1 << 20}[sym.Pick("k", 0, 4)]
	b := []int{-1, 451, 1 << 40}[sym.Pick("budget", 0, 2)]
	ids, dd := idx.GetNnsByVector([]float32{1, 1}, k, b, idx.CreateContext())
	sym.Assert(len(ids) == len(dd) && len(ids) <= k, "number of results")
	for _, i := range ids {
		sym.Assert(int(i) < len(vs), "a result is no item")
	}
}

// C07Scale: a context used for large searches makes no difference to later ones.
func C07Scale() {
	_, idx := scaleIndex(cloud(180, 3, 9), 1)
	idx.Build(3, 1)
	c := idx.CreateContext()
	k0 := []int{1, 100, 400}[sym.Pick("k0", 0, 2)]
	i0, d0 := idx.GetNnsByVector([]float32{1, 2, 3}, k0, []int{-1, 1000}[sym.Pick("b0", 0, 1)], c)
	j0, e0 := append([]uint32(nil), i0...), clone(d0)
	k := []int{3, 150}[sym.Pick("k", 0, 1)]
	b := []int{-1, 1000}[sym.Pick("budget", 0, 1)]
	i1, d1 := idx.GetNnsByVector([]float32{-1, 2, 0}, k, b, c)
	i2, d2 := idx.GetNnsByVector([]float32{-1, 2, 0}, k, b, idx.CreateContext())
	sameHits(i1, d1, i2, d2)
	sameHits(i0, d0, j0, e0)
}

// C08Scale: saving and loading of hundreds of items.
func C08Scale() {
	vs := cloud(200, 3, 6)
	trees := sym.Pick("trees", 1, 3)
	d, idx := scaleIndex(vs, uint32(sym.Pick("seed", 0, 1)))
	idx.Build(trees, 1)
	p := sym.TempDir() + "/i.ann"
	sym.Assert(idx.Save(p) == nil, "save")
	o := index.New[float32, uint32](random.NewKiss32Random(uint32(1)), d, policy.SingleWorker(),
		&galloc{}, ialloc("alloc"), nil, false, 0)
	sym.Assert(o.Load(p) == nil, "load")
	for i, v := range vs {
		sym.Assert(sameBits(o.GetItem(uint32(i)), v), "an item differs after loading")
	}
	for _, b := range []int{-1, 30, 1 << 30} {
		i1, d1 := idx.GetNnsByVector([]float32{1, -1, 0.5}, 25, b, idx.CreateContext())
		i2, d2 := o.GetNnsByVector([]float32{1, -1, 0.5}, 25, b, o.CreateContext())
		sameHits(i1, d1, i2, d2)
	}
	p2 := sym.TempDir() + "/copy.ann"
	sym.Assert(o.Save(p2) == nil, "saving a loaded index")
	sym.Assert(sameImage(image(p), image(p2)), "a saved copy differs")
}

// C09Scale: running out of space while saving a larger file.
func C09Scale() {
	_, idx := scaleIndex(cloud(200, 3, 2), 1)
	idx.Build(2, 1)
	want, wd := exhaust(idx, 3, 10)
	p := sym.TempDir() + "/l.ann"
	sym.FileLimit([]int{0, 1, 4095, 4096, 4097, 5599}[sym.Pick("limit", 0, 5)])
	sym.Assert(idx.Save(p) != nil, "a save that runs out of space is not reported")
	sym.FileLimit(-1)
	got, gd := exhaust(idx, 3, 10)
	sameHits(want, wd, got, gd)
	sym.Assert(idx.Save(p) == nil, "save")
	got, gd = exhaust(idx, 3, 10)
	sameHits(want, wd, got, gd)
	sym.Assert(idx.Close() == nil, "close")
}

// C12Scale: many trees for many workers.
func C12Scale() {
	parallel(12, []int{7, 16, 20}[sym.Pick("trees", 0, 2)], sym.Pick("workers", 1, 3)*3-1, -1)
}

// C13Scale: two builds over hundreds of items.
func C13Scale() {
	vs := cloud(120, 3, uint32(sym.Pick("cloud", 1, 2)))
	seed := uint32(sym.Pick("seed", 0, 1))
	save := func(file string) []byte {
		_, idx := scaleIndex(vs, seed)
		idx.Build(3, 1)
		p := sym.TempDir() + "/" + file
		sym.Assert(idx.Save(p) == nil, "save")
		return image(p)
	}
	sym.Assert(sameImage(save("a.ann"), save("b.ann")), "the same build yields another file")
}

// C15Scale: hundreds of pairs, one key is arbitrary.
func C15Scale() {
	n := 260
	s := make(pairs, n)
	for i := range s {
		s[i] = &pair{First: math.Float32frombits(0x40000000 + uint32((i*7)%n)<<17), Second: uint32(i)}
	}
	s[100].First = ordf("key")
	f := part1
	if sym.Pick("heap", 0, 1) == 1 {
		f = part2
	}
	partial(s, 0, []int{1, 20, 255, 260}[sym.Pick("middle", 0, 3)], n, f)
}

// C16Scale: a queue of hundreds of pairs.
func C16Scale() {
	n := 300
	q := sort.NewPriorityQueue[float32, uint32]()
	b := bag{}
	for i := 0; i < n; i++ {
		p := pair{First: float32((i * 7) % n), Second: uint32((i * 3) % n)}
		if i == 150 {
			p.First = float32(sym.U8("key"))
		}
		q.Push(p.First, p.Second)
		b = append(b, p)
		if i%9 == 8 {
			b.take(q.Pop())
		}
	}
	sym.Assert(q.Len() == len(b), "the length of the queue")
	for k := 0; k < 40; k++ {
		b.take(q.Pop())
	}
}

// C19Scale: sizes around pages.
func C19Scale() {
	a := memory.GoGCIndexAllocator()
	sizes := []int{1, 4095, 4096, 4097, 65536, 1 << 20}
	var shadow []byte
	size := 0
	at := []int{0, 4094, 4095, 4096, 65535}
	for i := 0; i < 3; i++ {
		n := sizes[sym.Pick("size", 0, 5)]
		p := a.Reallocate(n)
		if n > size {
			b := make([]byte, n)
			copy(b, shadow)
			shadow, size = b, n
		}
		m := unsafe.Slice((*byte)(p), size)
		sym.Assert(sym.MemEq(p, unsafe.Pointer(&shadow[0]), size), "memory that has been kept changes, or new memory is not zero")
		for _, j := range append(at, size-1) {
			if j < size {
				m[j] = sym.U8("byte")
				shadow[j] = m[j]
			}
		}
	}
	a.Free()
}

// C20Scale: an exhaustive search of hundreds of items ranks by dot product.
func C20Scale() {
	vs := cloud(200, 3, 4)
	d := dotproduct.Distance[float32, uint32](3)
	idx := index.New[float32, uint32](random.NewKiss32Random(uint32(1)), d, policy.SingleWorker(),
		&galloc{}, memory.MmapIndexAllocator(), nil, false, 0)
	for i, v := range vs {
		idx.AddItem(uint32(i), clone(v))
	}
	idx.Build(sym.Pick("trees", 1, 2), 1)
	q := []float32{0.5, -1, 2}
	k := []int{1, 20, 199, 200}[sym.Pick("k", 0, 3)]
	ids, dd := idx.GetNnsByVector(clone(q), k, 1<<30, idx.CreateContext())
	sym.Assert(len(ids) == k, "an exhaustive search misses items")
	in := make([]bool, len(vs))
	for i, id := range ids {
		sym.Assert(!in[id], "an item is returned twice")
		in[id] = true
		sym.Assert(near(dd[i], product(vs[id], q)), "a search reports something that is not the dot product")
		sym.Assert(i == 0 || dd[i-1] >= dd[i], "dot products are not descending")
	}
	for i, v := range vs {
		if !in[i] {
			sym.Assert(product(v, q) <= dd[k-1]+1e-3, "a greater dot product is missing")
		}
		sym.Assert(sameBits(idx.GetItem(uint32(i)), v), "a vector changes")
	}
}

// C22Scale: a split of hundreds of items in two opposite groups.
func C22Scale() {
	d := metric(2)
	r := lcg(1)
	var vs [][]float32
	n := []int{201, 256, 300}[sym.Pick("n", 0, 2)]
	for i := 0; i < n; i++ {
		x := 1 + r()*3
		if i&1 == 0 {
			x = -x
		}
		vs = append(vs, []float32{x, r() - 0.5})
	}
	ns, mem := crowd(d, vs)
	was := append([]byte(nil), mem...)
	g := &draws{only: -1, n: sym.Pick("start", 0, 4) * 60}
	plane := d.MapNodeToMemory(sym.GuardAlloc(int(d.NodeSize())), 0)
	d.CreateSplit(ns, d.NodeSize(), g, plane)
	sym.Assert(sameImage(mem, was), "a split changes an item")
	v := plane.GetVector(2)
	l := math.Hypot(float64(v[0]), float64(v[1]))
	sym.Assert(math.Abs(l-1) < 1e-3, "the plane is not normalised")
	i, j := g.got[0], g.got[1]
	if j >= i {
		j++
	}
	sym.Assert(i != j, "one item is drawn twice")
	if i&1 != j&1 {
		for k := range vs {
			right := product(v, vs[k]) > 0
			sym.Assert(right == (uint32(k)&1 == i&1), "a split does not separate opposite items")
		}
	}
}

// C23Scale: vectors of a thousand elements.
func C23Scale() {
	n := []int{64, 100, 129, 256, 1000}[sym.Pick("n", 0, 4)]
	at := []int{0, 7, n / 2, n - 2, n - 1}[sym.Pick("at", 0, 4)]
	f, g := moderate("x"), moderate("y")
	x, y := gvec(zeros(n, at, f)), gvec(spike(n, at, g))
	k := uint32(n)
	sym.Assert(near(vector.Dot(x, y, k), f*g), "the dot product")
	sym.Assert(near(vector.DotUnsafe(&x[0], &y[0], k), f*g), "the dot product by pointers")
	sym.Assert(near(vector.GetNorm(x, k), norm([]float32{f})), "the norm")
	sym.Assert(near(vector.GetNormUnsafe(&x[0], k), norm([]float32{f})), "the norm by pointer")
	z := gvec(make([]float32, n))
	sym.Assert(near(vector.EuclideanDistance(x, z, k), f*f), "the Euclidean distance")
	sym.Assert(near(vector.ManhattanDistance(x, z, k), sym.IteF32(f < 0, -f, f)), "the Manhattan distance")
}

// C24Scale: default configurations with hundreds of items of many elements.
func C24Scale() {
	b := builder.Index[float32, uint32]().AngularDistance(16).IndexNumHint([]int{0, 100, 500}[sym.Pick("hint", 0, 2)])
	if sym.Pick("alloc", 0, 1) == 1 {
		b = b.GCMemoryIndexAllocator()
	}
	idx := b.Build()
	n := 200
	vs := cloud(n, 16, 11)
	for i, v := range vs {
		idx.AddItem(uint32(i), clone(v))
	}
	idx.Build(3, 3)
	look := func() {
		ids, dd := idx.GetNnsByVector(vs[3], n, 1<<30, idx.CreateContext())
		sym.Assert(len(ids) == n && len(dd) == n, "an exhaustive search misses items")
		seen := make([]bool, n)
		for _, id := range ids {
			sym.Assert(int(id) < n && !seen[id], "a result is no item or appears twice")
			seen[id] = true
		}
		for i, v := range vs {
			sym.Assert(sameBits(idx.GetItem(uint32(i)), v), "an item")
		}
	}
	look()
	p := sym.TempDir() + "/c.ann"
	sym.Assert(idx.Save(p) == nil, "save")
	look()
	sym.Assert(idx.Close() == nil, "close")
}
