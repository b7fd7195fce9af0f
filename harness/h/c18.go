package h

import (
	"vh/sym"

	"github.com/mariotoffia/goannoy/distance/angular"
	"github.com/mariotoffia/goannoy/index"
	"github.com/mariotoffia/goannoy/index/memory"
	"github.com/mariotoffia/goannoy/index/policy"
)

// ---- the life of an index ----

// life is an index and what it is expected to be.
type life struct {
	d      dist
	a      *galloc
	idx    index32
	ds     []float32
	built  bool
	loaded bool
	file   []float32 // the items in the file
	is     bool      // there is a file
	path   string
	odd    string // a file that is no index
	next   float32
	h, m   int
}

func newLife(vl uint32) *life {
	l := &life{}
	d, a, idx := nd(vl, 0, ialloc("alloc"))
	l.d, l.a, l.idx = d, a, idx
	l.path = sym.TempDir() + "/i.ann"
	// a file that is no index: that of another vector length
	l.odd = sym.TempDir() + "/odd.ann"
	o := index.New[float32, uint32](&srnd{}, angular.Distance[float32, uint32](vl+2), policy.SingleWorker(), &galloc{}, memory.FileIndexMemoryAllocator(), nil, false, 0)
	o.AddItem(0, make([]float32, vl+2))
	o.Build(2, 1)
	sym.Assert(o.Save(l.odd) == nil, "save")
	sym.Assert(o.Close() == nil, "close")
	l.h, l.m = sym.OpenHandles(), sym.OpenMappings()
	return l
}

// gone: the index has been closed.
func (l *life) gone() { l.ds, l.built, l.loaded = nil, false, false }

// step does one thing and asserts its outcome; false if it is not allowed.
func (l *life) step(op int) bool {
	vl := l.d.VectorLength()
	add := func(n int) bool {
		v := make([]float32, n)
		v[0] = 2 + l.next
		l.next++
		return panics(func() { l.idx.AddItem(uint32(len(l.ds)), v) })
	}
	switch op {
	case 0: // an item
		if l.built && !l.loaded {
			return false
		}
		p := add(int(vl))
		sym.Assert(p == l.loaded, "items can be added to any but a loaded index")
		if !p {
			l.ds = append(l.ds, 1+l.next)
		}
	case 1: // a vector of the wrong length
		sym.Assert(add(int(vl)+1), "a vector of the wrong length is accepted")
	case 2:
		p := panics(func() { l.idx.Build(2, 1) })
		sym.Assert(p == (l.built || l.loaded), "an index is built exactly once and never after loading")
		l.built = true
	case 3:
		err := l.idx.Save(l.path)
		sym.Assert((err == nil) == l.built, "exactly the built indexes can be saved")
		if err == nil {
			l.is, l.file = true, append([]float32(nil), l.ds...)
			l.loaded = true
		}
	case 4:
		err := l.idx.Save(sym.TempDir() + "/nowhere/i.ann")
		sym.Assert(err != nil, "an index is saved where there is no folder")
	case 5:
		err := l.idx.Load(l.path)
		sym.Assert((err == nil) == l.is, "loading fails without a file only")
		l.gone()
		if err == nil {
			l.ds = append([]float32(nil), l.file...)
			l.built, l.loaded = true, true
		}
	case 6:
		sym.Assert(l.idx.Load(l.odd) != nil, "a file with half nodes is loaded")
		l.gone()
	default:
		sym.Assert(l.idx.Close() == nil, "close")
		l.gone()
		sym.Assert(l.a.p == nil, "a closed index keeps its memory")
	}
	return true
}

// check asserts that the index answers as it should.
func (l *life) check() {
	vl := int(l.d.VectorLength())
	k := len(l.ds) + 1
	ids, dd := exhaust(l.idx, vl, k)
	if !l.built {
		sym.Assert(len(ids) == 0 && len(dd) == 0, "an index that is not built finds something")
	} else {
		sound(ids, dd, l.ds, k)
		exact(ids, dd, l.ds, k)
	}
	for i, x := range l.ds {
		v := l.idx.GetItem(uint32(i))
		sym.Assert(len(v) == vl && v[0] == x, "an item is another one")
		sym.Assert(l.idx.GetDistance(0, uint32(i)) == x, "a distance is another one")
	}
	sym.Assert(int(l.idx.VectorLength()) == vl, "the vector length")
	if !l.loaded {
		noLeak(l.h, l.m)
	} else {
		sym.Assert(l.a.p == nil, "a loaded index keeps the memory it was built in")
		sym.Assert(sym.OpenHandles() <= l.h+1 && sym.OpenMappings() <= l.m+1, "a loaded index keeps more than one file open")
	}
}

func lives(vl uint32, from, steps int) {
	l := newLife(vl)
	if from > 0 {
		for i := 0; i < from; i++ {
			l.step(0)
		}
		l.step(2)
		if sym.Pick("saved", 0, 1) == 1 {
			l.step(3)
		}
	}
	for i := 0; i < steps; i++ {
		if !l.step(sym.Pick("op", 0, 7)) {
			return
		}
		l.check()
	}
	sym.Assert(l.idx.Close() == nil, "close")
	noLeak(l.h, l.m)
	sym.Assert(l.a.p == nil, "a closed index keeps its memory")
	sym.Cover("life")
}

// C18Fresh: whatever is done to a new index.
func C18Fresh() { lives(1, 0, 4) }

// C18Built: whatever is done to an index of a leaf or a split.
func C18Built() { lives(1, 1+sym.Pick("n", 0, 1)*4, 3) }

// C18FreshDeep: longer lives.
func C18FreshDeep() { lives(1, 0, 5) }

// C18BuiltDeep: longer lives.
func C18BuiltDeep() { lives(1, 5, 4) }
