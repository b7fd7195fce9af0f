package h

import (
	"math"
	"unsafe"
	"vh/sym"

	"github.com/mariotoffia/goannoy/index/memory"
)

func sameBits(a, b []float32) bool {
	ok := len(a) == len(b)
	if !ok {
		return false
	}
	for i := range a {
		ok = sym.And(ok, math.Float32bits(a[i]) == math.Float32bits(b[i]))
	}
	return ok
}

func anyVec(n int) []float32 {
	v := make([]float32, n)
	for i := range v {
		v[i] = sym.F32("v")
	}
	return v
}

func clone(v []float32) []float32 { return append([]float32(nil), v...) }

// openForest decodes a saved index.
func openForest(d dist, path string, items, trees int) *forest {
	a, err := memory.FileIndexMemoryAllocator().Open(path)
	sym.Assert(err == nil, "the saved index can be opened")
	sym.Assert(a.Size()%int64(d.NodeSize()) == 0, "the file holds whole nodes")
	return &forest{d: d, p: a.Ptr(), n: int(a.Size() / int64(d.NodeSize())), items: items, trees: trees, k: int(d.MaxNumChildren())}
}

// items adds n items; the distance of item i to every query is ds[i], arbitrary unless
// any is given and false.
func items(idx index32, vl uint32, n int, any ...bool) []float32 {
	ds := make([]float32, n)
	for i := range ds {
		if len(any) > 0 && !any[0] {
			ds[i] = math.Float32frombits(0x40000000 | uint32((i*5+2)%n*10)<<18)
		} else {
			ds[i] = ordf("dist")
		}
		v := make([]float32, vl)
		v[0] = ds[i]
		idx.AddItem(uint32(i), v)
	}
	return ds
}

// gaps adds items whose ids have gaps between or before them.
func gaps(idx index32, vl uint32, most int, three ...bool) (ds []float32, has []bool) {
	lists := [][]uint32{{2}, {7}, {1}, {0, 2}, {1, 6}, {0, 7}, {1, 2}, {3, 5, 6}, {0, 1, 6}, {0, 3, 4}, {1, 2, 4, 7}}
	for len(lists[len(lists)-1]) > most {
		lists = lists[:len(lists)-1]
	}
	if len(three) > 0 {
		lists = lists[7:]
	}
	l := lists[sym.Pick("ids", 0, len(lists)-1)]
	last := l[len(l)-1]
	ds, has = make([]float32, last+1), make([]bool, last+1)
	for _, i := range l {
		has[i] = true
		ds[i] = float32(10 - i)
		if len(three) == 0 {
			ds[i] = ordf("dist")
		}
		v := make([]float32, vl)
		v[0] = ds[i]
		idx.AddItem(i, v)
	}
	return
}

// sound asserts what must hold of every search result.
func sound(ids []uint32, dd []float32, ds []float32, k int) {
	sym.Assert(len(ids) == len(dd), "as many distances as ids")
	sym.Assert(len(ids) <= k || len(ids) == 0, "more results than asked for")
	for i := range ids {
		sym.Assert(int(ids[i]) < len(ds), "a result is no item")
		sym.Assert(dd[i] == ds[ids[i]], "a distance is wrong")
		if i > 0 {
			sym.Assert(le32(dd[i-1], dd[i]), "distances are not ascending")
		}
		for j := 0; j < i; j++ {
			sym.Assert(ids[i] != ids[j], "an item is returned twice")
		}
	}
}

// exact asserts that ids/dd are the k nearest of all items.
func exact(ids []uint32, dd []float32, ds []float32, k int) {
	want := k
	if want > len(ds) {
		want = len(ds)
	}
	if want < 0 {
		want = 0
	}
	sym.Assert(len(ids) == want, "an exhaustive search returns as many items as asked for")
	in := make([]bool, len(ds))
	for _, i := range ids {
		in[i] = true
	}
	if len(ids) == 0 {
		return
	}
	last := dd[len(dd)-1]
	for i := range ds {
		if !in[i] {
			sym.Assert(le32(last, ds[i]), "an exhaustive search missed a nearer item")
		}
	}
}

func query(vl int) []float32 {
	v := make([]float32, vl)
	for i := range v {
		v[i] = finite("q")
	}
	return v
}

// ref is a node holding v, as a search prepares it.
func refNode(d dist, v []float32) node {
	mem := make([]byte, d.NodeSize())
	n := d.MapNodeToMemory(unsafe.Pointer(&mem[0]), 0)
	n.SetVector(v)
	d.InitNode(n)
	return n
}

// moderate is a float that is 0 or of magnitude 2^-10..2^10.
func moderate(name string) float32 {
	f := sym.F32(name)
	a := sym.IteF32(f < 0, -f, f)
	sym.Assume(sym.Or(f == 0, sym.And(a >= 1.0/1024, a <= 1024)))
	return f
}

// ordn is ordf or NaN.
func ordn(name string) float32 {
	b := sym.U8(name)
	return sym.IteF32(b == 255, float32(math.NaN()), math.Float32frombits(0x40000000|uint32(b)<<18))
}

func within(ids []uint32, dd []float32, n, k int) {
	sym.Assert(len(ids) == len(dd), "as many distances as ids")
	sym.Assert(len(ids) <= n, "more results than items")
	sym.Assert(k < 0 && len(ids) == 0 || len(ids) <= k, "more results than asked for")
	for i := range ids {
		sym.Assert(int(ids[i]) < n, "a result is no item")
	}
}

func panics(f func()) (p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	f()
	return
}

// long picks a length beyond those that are arbitrary.
func long() int {
	n := sym.Pick("n", 5, 20)
	if n > 17 {
		n = []int{32, 33, 47}[n-18]
	}
	return n
}

// spike is a vector of given numbers with an arbitrary one at one place.
func spike(n, at int, f float32) (v []float32) {
	v = make([]float32, n)
	for i := range v {
		v[i] = float32(i%4) - 1
	}
	v[at] = f
	return
}

// zeros is a vector of zeros with an arbitrary number at one place.
func zeros(n, at int, f float32) []float32 {
	v := make([]float32, n)
	v[at] = f
	return v
}
