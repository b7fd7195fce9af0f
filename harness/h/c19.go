package h

import (
	"os"
	"unsafe"

	"vh/sym"

	"github.com/mariotoffia/goannoy/index/memory"
	"github.com/mariotoffia/goannoy/interfaces"
)

// ---- allocators ----

// C19Grow: a build allocator keeps what has been written, whatever sizes are asked for.
func C19Grow() { grow(4, 6) }

// C19GrowDeep: more sizes.
func C19GrowDeep() { grow(5, 8) }

func grow(steps, most int) {
	a := memory.GoGCIndexAllocator()
	var shadow []byte
	for i := 0; i < steps; i++ {
		n := sym.Pick("size", -1, most) * 3
		if n < 0 {
			a.Free()
			shadow = nil
			continue
		}
		if n == 0 {
			n = 1
		}
		p := a.Reallocate(n)
		sym.Assert(p != nil, "no memory")
		for len(shadow) < n {
			shadow = append(shadow, 0)
		}
		b := unsafe.Slice((*byte)(p), len(shadow))
		for j := range b {
			sym.Assert(b[j] == shadow[j], "memory that has been kept changes, or new memory is not zero")
		}
		// any new content, at the ends and somewhere between
		for _, j := range []int{0, len(b) / 2, len(b) - 1} {
			b[j] = sym.U8("byte")
			shadow[j] = b[j]
		}
	}
	a.Free()
	b := unsafe.Slice((*byte)(a.Reallocate(8)), 8)
	for _, x := range b {
		sym.Assert(x == 0, "new memory is not zero")
	}
}

// C19Apart: two build allocators share nothing, and memory handed out before a growth is still valid.
func C19Apart() {
	a, b := memory.GoGCIndexAllocator(), memory.GoGCIndexAllocator()
	p := (*uint64)(a.Reallocate(8))
	q := (*uint64)(b.Reallocate(8))
	x, y := sym.U64("x"), sym.U64("y")
	*p, *q = x, y
	sym.Assert(*p == x && *q == y, "two allocators share memory")
	r := (*uint64)(a.Reallocate(64))
	sym.Assert(*r == x && *p == x, "growing loses what has been written")
	b.Free()
	sym.Assert(*r == x, "freeing one allocator affects the other")
	a.Free()
	a.Free()
}

// C19Same: asking for less than there is changes nothing.
func C19Same() {
	a := memory.GoGCIndexAllocator()
	n := sym.Pick("n", 2, 6)
	p := a.Reallocate(n)
	sym.Assert(a.Reallocate(sym.Pick("less", 1, n-1)) == p, "asking for less moves the memory")
}

type opened struct {
	a    interfaces.AllocatedIndex
	name int
	ver  int
}

// stores: opening, finding and closing files in any order.
func stores(steps int) {
	al := ialloc("alloc")
	dir := sym.TempDir()
	names := []string{dir + "/a", dir + "/b"}
	content := [][]byte{nil, nil}
	vers := map[int][]byte{}
	ver := []int{0, 0}
	write := func(i, n int) {
		b := make([]byte, n)
		for j := range b {
			b[j] = byte(16*i + ver[i] + j*3)
		}
		b[0] = sym.U8("byte")
		os.Remove(names[i])
		sym.Assert(os.WriteFile(names[i], b, 0o600) == nil, "write")
		content[i] = b
		ver[i]++
		vers[i*100+ver[i]] = b
	}
	write(0, 5)
	h, m := sym.OpenHandles(), sym.OpenMappings()
	var open []*opened
	latest := []*opened{nil, nil}
	for s := 0; s < steps; s++ {
		op := sym.Pick("op", 0, 4)
		switch {
		case op < 2: // open
			i := op
			a, err := al.Open(names[i])
			sym.Assert((err == nil) == (content[i] != nil), "exactly the files that exist can be opened")
			if err != nil {
				sym.Assert(a == nil || isNil(a), "a file that is not there is opened")
				break
			}
			o := &opened{a, i, i*100 + ver[i]}
			open = append(open, o)
			latest[i] = o
		case op == 2: // close the oldest
			if len(open) == 0 {
				return
			}
			o := open[0]
			open = open[1:]
			sym.Assert(o.a.Close() == nil, "close")
			if latest[o.name] == o {
				latest[o.name] = nil
			}
		case op == 3: // close the newest
			if len(open) < 2 {
				return
			}
			o := open[len(open)-1]
			open = open[:len(open)-1]
			sym.Assert(o.a.Close() == nil, "close")
			if latest[o.name] == o {
				latest[o.name] = nil
			}
		default: // a new version or the first one
			i := 0
			if content[1] == nil {
				i = 1
			}
			write(i, 4+ver[i])
		}
		for i, n := range names {
			a, ok := al.Get(n)
			sym.Assert(ok == (latest[i] != nil), "exactly the files that are open are found")
			if ok {
				sym.Assert(a == latest[i].a, "what was opened last is found")
			}
		}
		for _, o := range open {
			b := vers[o.ver]
			sym.Assert(o.a.Size() == int64(len(b)), "the size of a file")
			g := unsafe.Slice((*byte)(o.a.Ptr()), len(b))
			for j := range b {
				sym.Assert(g[j] == b[j], "the content of a file")
			}
		}
		sym.Assert(sym.OpenHandles() <= h+len(open) && sym.OpenMappings() <= m+len(open), "handles or mappings leak")
	}
	for _, o := range open {
		sym.Assert(o.a.Close() == nil, "close")
		sym.Assert(o.a.Close() == nil, "closing twice")
	}
	noLeak(h, m)
	for _, n := range names {
		_, ok := al.Get(n)
		sym.Assert(!ok, "a closed file is found")
	}
	sym.Cover("stores")
}

func isNil(a interfaces.AllocatedIndex) bool { return (*[2]uintptr)(unsafe.Pointer(&a))[1] == 0 }

// C19Files: any order of opening, rewriting and closing two files.
func C19Files() { stores(4) }

// C19FilesDeep: longer.
func C19FilesDeep() { stores(6) }

// C19Absent: nothing is found in a new allocator, and files that cannot be opened leave no trace.
func C19Absent() {
	al := ialloc("alloc")
	dir := sym.TempDir()
	_, ok := al.Get(dir + "/a")
	sym.Assert(!ok, "a file that has not been opened is found")
	h, m := sym.OpenHandles(), sym.OpenMappings()
	p := []string{dir + "/a", dir + "/no/a", dir, ""}[sym.Pick("path", 0, 3)]
	_, err := al.Open(p)
	sym.Assert(err != nil, "a file that is not there is opened")
	_, ok = al.Get(p)
	sym.Assert(!ok, "a file that could not be opened is found")
	noLeak(h, m)
}

// C19Bytes: every byte of a file is found at its place.
func C19Bytes() {
	al := ialloc("alloc")
	n := sym.Pick("n", 1, 20)
	b := make([]byte, n)
	for i := range b {
		b[i] = sym.U8("byte")
	}
	p := sym.TempDir() + "/a"
	sym.Assert(os.WriteFile(p, b, 0o600) == nil, "write")
	a, err := al.Open(p)
	sym.Assert(err == nil && a.Size() == int64(n), "open")
	sym.Assert(sameImage(unsafe.Slice((*byte)(a.Ptr()), n), b), "the content of a file")
	sym.Assert(a.Close() == nil, "close")
}

// C19Two: two allocators do not know of each other's files.
func C19Two() {
	x, y := ialloc("x"), ialloc("y")
	p := sym.TempDir() + "/a"
	b := []byte{1, 2, sym.U8("byte")}
	sym.Assert(os.WriteFile(p, b, 0o600) == nil, "write")
	a, err := x.Open(p)
	sym.Assert(err == nil, "open")
	_, ok := y.Get(p)
	sym.Assert(!ok, "an allocator finds the file of another one")
	c, err := y.Open(p)
	sym.Assert(err == nil && a.Close() == nil, "open and close")
	g, ok := y.Get(p)
	sym.Assert(ok && g == c && sameImage(unsafe.Slice((*byte)(c.Ptr()), 3), b), "closing a file affects another allocator")
	_, ok = x.Get(p)
	sym.Assert(!ok, "a closed file is found")
	sym.Assert(c.Close() == nil, "close")
}
