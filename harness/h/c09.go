package h

import (
	"os"
	"unsafe"

	"vh/sym"

	"github.com/mariotoffia/goannoy/distance/angular"
	"github.com/mariotoffia/goannoy/index"
	"github.com/mariotoffia/goannoy/index/memory"
	"github.com/mariotoffia/goannoy/index/policy"
)

// ---- failing saves and loads ----

// intact asserts that the index still answers an exhaustive search for ds.
func intact(idx index32, vl int, ds []float32) {
	ids, dd := exhaust(idx, vl, len(ds)+1)
	sound(ids, dd, ds, len(ds)+1)
	exact(ids, dd, ds, len(ds)+1)
	for i := range ds {
		sym.Assert(idx.GetItem(uint32(i))[0] == ds[i], "an item changed")
	}
}

func noLeak(h, m int) {
	sym.Assert(sym.OpenHandles() == h, "file handles leak")
	sym.Assert(sym.OpenMappings() == m, "mappings leak")
}

// C09Limit: the disk is full after any number of bytes.
func C09Limit() {
	_, _, idx := nd(1, 2, ialloc("alloc"))
	n := sym.Pick("n", 1, 2)*3 - 2
	ds := items(idx, 1, n, false)
	idx.Build(1, 1)
	p := sym.TempDir() + "/f.ann"
	// the size of the file
	sym.Assert(idx.Save(p) == nil, "save")
	size := sym.FileSize(p)
	fresh := sym.Pick("fresh", 0, 1) == 1
	if fresh {
		idx.Close()
		_, _, idx = nd(1, 2, ialloc("alloc2"))
		ds = items(idx, 1, n, false)
		idx.Build(1, 1)
		sym.Assert(os.Remove(p) == nil, "remove")
	}
	q := sym.TempDir() + "/g.ann"
	h, m := sym.OpenHandles(), sym.OpenMappings()
	limit := sym.Pick("limit", 0, 160)
	sym.Assume(limit <= size)
	sym.FileLimit(limit)
	err := idx.Save(q)
	sym.FileLimit(-1)
	if limit >= size && fresh {
		// the tree may have another shape and size
		return
	}
	if limit >= size {
		sym.Assert(err == nil, "saving fails although there is enough room")
		intact(idx, 1, ds)
		return
	}
	if fresh && err == nil {
		sym.Assert(sym.FileSize(q) <= limit, "more bytes than fit")
		return
	}
	sym.Assert(err != nil, "a failed save is not reported")
	noLeak(h, m)
	intact(idx, 1, ds)
	sym.Assert(idx.Save(q) == nil, "saving again")
	intact(idx, 1, ds)
	_, _, o := nd(1, 0, nil)
	sym.Assert(o.Load(q) == nil, "load")
	intact(o, 1, ds)
}

// C09Places: paths that cannot be written.
func C09Places() {
	_, _, idx := nd(1, 1, ialloc("alloc"))
	n := sym.Pick("n", 1, 4)
	ds := items(idx, 1, n, false)
	idx.Build(1, 1)
	if sym.Pick("saved", 0, 1) == 1 {
		sym.Assert(idx.Save(sym.TempDir()+"/ok.ann") == nil, "save")
	}
	dir := sym.TempDir() + "/dir"
	sym.Assert(os.Mkdir(dir, 0755) == nil, "mkdir")
	sym.Assert(os.WriteFile(dir+"/x", []byte{1}, 0644) == nil, "write")
	p := []string{sym.TempDir() + "/none/f.ann", dir, dir + "/x/f.ann"}[sym.Pick("place", 0, 2)]
	h, m := sym.OpenHandles(), sym.OpenMappings()
	sym.Assert(idx.Save(p) != nil, "a failed save is not reported")
	noLeak(h, m)
	sym.Assert(sym.FileSize(dir+"/x") == 1, "a failed save removed something else")
	intact(idx, 1, ds)
	sym.Assert(idx.Save(sym.TempDir()+"/ok2.ann") == nil, "save elsewhere")
	intact(idx, 1, ds)
}

// C09Load: files that cannot be loaded; whatever the index held before is released.
func C09Load() {
	_, _, idx := nd(1, 1, ialloc("alloc"))
	n := sym.Pick("n", 1, 4)
	items(idx, 1, n, false)
	p := sym.TempDir() + "/ok.ann"
	st := sym.Pick("state", 0, 2)
	if st > 0 {
		idx.Build(1, 1)
	}
	if st > 1 {
		sym.Assert(idx.Save(p) == nil, "save")
	}
	bad := sym.TempDir() + "/bad.ann"
	switch sym.Pick("bad", 0, 3) {
	case 0:
	case 1:
		sym.Assert(os.Mkdir(bad, 0755) == nil, "mkdir")
	case 2:
		// no whole number of nodes
		sz := sym.Pick("size", 1, 47)
		sym.Assume(sz%16 != 0)
		b := make([]byte, sz)
		for i := range b {
			b[i] = sym.U8("byte")
		}
		sym.Assert(os.WriteFile(bad, b, 0644) == nil, "write")
	case 3:
		bad = sym.TempDir() + "/none/bad.ann"
	}
	sym.Assert(idx.Load(bad) != nil, "a failed load is not reported")
	noLeak(0, 0)
	sym.Assert(idx.Save(sym.TempDir()+"/s.ann") != nil, "an index that failed to load is not built")
	sym.Assert(sym.FileSize(sym.TempDir()+"/s.ann") == -1, "a file has been saved")
	// it can be used anew
	if st > 1 {
		sym.Assert(idx.Load(p) == nil, "load")
	} else {
		items(idx, 1, n, false)
		idx.Build(1, 1)
	}
	ids, _ := exhaust(idx, 1, n+1)
	sym.Assert(len(ids) == n, "the index is usable after a failed load")
}

// C09Empty: an empty file.
func C09Empty() {
	_, _, idx := nd(1, 0, ialloc("alloc"))
	p := sym.TempDir() + "/e.ann"
	sym.Assert(os.WriteFile(p, nil, 0644) == nil, "write")
	if err := idx.Load(p); err == nil {
		ids, dd := idx.GetNnsByVector([]float32{1}, 3, sym.Pick("budget", -1, 3), idx.CreateContext())
		sym.Assert(len(ids) == 0 && len(dd) == 0, "results from an empty file")
	}
	idx.Close()
	noLeak(0, 0)
}

// C09Self: saving over the file the index has been loaded from, with the disk full or not.
func C09Self() {
	_, _, idx := nd(1, 2, ialloc("alloc"))
	n := sym.Pick("n", 1, 4)
	ds := items(idx, 1, n, false)
	idx.Build(1, 1)
	p := sym.TempDir() + "/f.ann"
	sym.Assert(idx.Save(p) == nil, "save")
	before := image(p)
	limit := sym.Pick("limit", -1, 3)
	if limit >= 0 {
		sym.FileLimit(limit * 16)
	}
	err := idx.Save(p)
	sym.FileLimit(-1)
	if limit < 0 {
		sym.Assert(err == nil, "saving over the loaded file")
		sym.Assert(sameImage(before, image(p)), "saving over the loaded file changed it")
	} else if len(before) > limit*16 {
		sym.Assert(err != nil, "a failed save is not reported")
	}
	intact(idx, 1, ds)
	idx.Close()
	noLeak(0, 0)
}

// C09Close: everything is released, however often an index is loaded and closed.
func C09Close() {
	_, _, idx := nd(1, 1, ialloc("alloc"))
	n := sym.Pick("n", 1, 4)
	items(idx, 1, n, false)
	idx.Build(1, 1)
	p := sym.TempDir() + "/f.ann"
	sym.Assert(idx.Save(p) == nil, "save")
	k := sym.Pick("again", 0, 3)
	for i := 0; i < k; i++ {
		if sym.Pick("how", 0, 1) == 0 {
			sym.Assert(idx.Load(p) == nil, "load")
		} else {
			sym.Assert(idx.Save(p) == nil, "save")
		}
		sym.Assert(sym.OpenHandles() <= 1 && sym.OpenMappings() <= 1, "a loaded index holds more than its file")
	}
	sym.Assert(idx.Close() == nil, "close")
	noLeak(0, 0)
	sym.Assert(idx.Close() == nil, "close again")
	noLeak(0, 0)
}

// C09Bytes: every byte of the nodes is written and read, real metric.
func C09Bytes() {
	d := angular.Distance[float32, uint32](4)
	_, a, _ := nd(4, 0, nil)
	idx := index.New[float32, uint32](&srnd{}, d, policy.SingleWorker(), a, memory.MmapIndexAllocator(), nil, false, 0)
	n := sym.Pick("n", 1, 4)
	for i := 0; i < n; i++ {
		idx.AddItem(uint32(i), anyVec(4))
	}
	idx.Build(1, 1)
	sz := (n + 2) * int(d.NodeSize())
	before := append([]byte(nil), unsafe.Slice((*byte)(a.p), sz)...)
	p := sym.TempDir() + "/f.ann"
	sym.Assert(idx.Save(p) == nil, "save")
	b := image(p)
	sym.Assert(len(b) == sz, "size of the file")
	sym.Assert(sym.MemEq(unsafe.Pointer(&b[0]), unsafe.Pointer(&before[0]), sz), "the file differs from the index")
}
