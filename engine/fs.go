package main

// File system and memory mapping model.

import (
	"fmt"
	"go/types"
	"path/filepath"
	"strings"
)

type Inode struct {
	obj  *Obj
	size int64
	path string
	dir  bool
}

type Handle struct {
	ino    *Inode
	path   string
	off    int64
	rd, wr bool
	app    bool
	closed bool
	fd     int
}

type FS struct {
	files   map[string]*Inode
	handles []*Handle
	byObj   map[*Obj]*Handle
	limit   int64
	maps    int
	ntmp    int
}

func newFS() *FS {
	return &FS{files: map[string]*Inode{"/scratch": {path: "/scratch", dir: true}, "/": {path: "/", dir: true}}, byObj: map[*Obj]*Handle{}, limit: -1}
}

func clean(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = "/scratch/" + p
	}
	return filepath.Clean(p)
}

func (e *Exec) fsGrow(ino *Inode, n int64) {
	if ino.obj == nil || ino.obj.size < n {
		c := n
		if ino.obj != nil && c < 2*ino.obj.size && c < 1<<20 {
			c = 2 * ino.obj.size
		}
		no := e.newObj(c, "file "+ino.path)
		if ino.obj != nil && ino.size > 0 {
			sz := ino.size
			if sz > ino.obj.size {
				sz = ino.obj.size
			}
			e.memmoveRaw(no, 0, ino.obj, 0, sz)
		}
		ino.obj = no
	}
	if n > ino.size {
		ino.size = n
	}
}

const (
	oWRONLY = 1
	oRDWR   = 2
	oCREATE = 0x40
	oEXCL   = 0x80
	oTRUNC  = 0x200
	oAPPEND = 0x400
)

func (e *Exec) fsOpen(op, path string, flags int64) (Val, Val) {
	fs := e.fs
	p := clean(path)
	if path == "" {
		return Val{}, e.pathError("open", path, 2)
	}
	dir := fs.files[filepath.Dir(p)]
	if dir == nil {
		return Val{}, e.pathError("open", path, 2)
	}
	if !dir.dir {
		return Val{}, e.pathError("open", path, 20)
	}
	ino := fs.files[p]
	if ino == nil {
		if flags&oCREATE == 0 {
			return Val{}, e.pathError("open", path, 2)
		}
		ino = &Inode{path: p}
		fs.files[p] = ino
	} else {
		if flags&oCREATE != 0 && flags&oEXCL != 0 {
			return Val{}, e.pathError("open", path, 17)
		}
		if ino.dir && flags&3 != 0 {
			return Val{}, e.pathError("open", path, 21)
		}
	}
	if flags&oTRUNC != 0 && !ino.dir {
		ino.size = 0
		ino.obj = nil
	}
	h := &Handle{ino: ino, path: path, fd: len(fs.handles) + 3}
	h.rd = flags&3 == 0 || flags&3 == oRDWR
	h.wr = flags&3 == oWRONLY || flags&3 == oRDWR
	h.app = flags&oAPPEND != 0
	fs.handles = append(fs.handles, h)
	fp, _ := e.newStruct("os", "File", nil)
	fs.byObj[fp.o.(*Obj)] = h
	return fp, Val{}
}

func (e *Exec) handle(p Val) *Handle {
	if p.o == nil {
		return nil
	}
	o, ok := p.o.(*Obj)
	if !ok {
		return nil
	}
	return e.fs.byObj[o]
}

func two(a, b Val) Val { return Val{x: []Val{a, b}} }

func (e *Exec) errInvalid() Val {
	return e.globalVal("io/fs", "ErrInvalid")
}

func (e *Exec) errClosed(op, path string) Val {
	p, t := e.newStruct("io/fs", "PathError", map[string]Val{"Op": mkStr(op), "Path": mkStr(path), "Err": e.globalVal("io/fs", "ErrClosed")})
	return Val{o: e.p.tag(types.NewPointer(t)), x: []Val{p}}
}

func (e *Exec) fsWrite(h *Handle, b Val, at int64) (int64, Val) {
	n := sliceLen(e, b)
	if !h.wr {
		return 0, e.pathError("write", h.path, 9)
	}
	if n == 0 {
		return 0, Val{}
	}
	w := n
	if e.fs.limit >= 0 && at+n > e.fs.limit {
		w = e.fs.limit - at
		if w < 0 {
			w = 0
		}
	}
	if w > 0 {
		e.fsGrow(h.ino, at+w)
		e.memmove(Val{o: h.ino.obj, c: uint64(at)}, slicePtr(b), w)
	}
	if w < n {
		return w, e.pathError("write", h.path, 27)
	}
	return w, Val{}
}

func (e *Exec) fsRead(h *Handle, b Val, at int64) int64 {
	n := sliceLen(e, b)
	if at >= h.ino.size {
		return 0
	}
	if at+n > h.ino.size {
		n = h.ino.size - at
	}
	if n > 0 {
		e.fsGrow(h.ino, h.ino.size)
		e.memmove(slicePtr(b), Val{o: h.ino.obj, c: uint64(at)}, n)
	}
	return n
}

func (e *Exec) memmoveRaw(d *Obj, doff int64, s *Obj, soff, n int64) {
	r := e.race
	e.race = nil
	e.memmove(Val{o: d, c: uint64(doff)}, Val{o: s, c: uint64(soff)}, n)
	e.race = r
}

func (e *Exec) fileInfo(path string, ino *Inode) Val {
	f := map[string]Val{"name": mkStr(filepath.Base(path)), "size": {c: uint64(ino.size)}}
	if ino.dir {
		f["size"] = Val{c: 4096}
		f["mode"] = Val{c: 1<<31 | 0755}
	} else {
		f["mode"] = Val{c: 0644}
	}
	p, t := e.newStruct("os", "fileStat", f)
	return Val{o: e.p.tag(types.NewPointer(t)), x: []Val{p}}
}

func (p *Prog) osIntrinsics(m map[string]Intrinsic) {
	S := func(n string, fn func(e *Exec, a []Val) Val) { m[n] = pure(fn) }
	S("os.Create", func(e *Exec, a []Val) Val {
		return two(e.fsOpen("open", str(a[0]), oRDWR|oCREATE|oTRUNC))
	})
	S("os.Open", func(e *Exec, a []Val) Val { return two(e.fsOpen("open", str(a[0]), 0)) })
	S("os.OpenFile", func(e *Exec, a []Val) Val { return two(e.fsOpen("open", str(a[0]), e.concInt(a[1]))) })
	S("os.CreateTemp", func(e *Exec, a []Val) Val {
		dir := str(a[0])
		if dir == "" {
			dir = "/scratch"
		}
		e.fs.ntmp++
		nm := str(a[1])
		if strings.Contains(nm, "*") {
			nm = strings.Replace(nm, "*", fmt.Sprint(1000+e.fs.ntmp), 1)
		} else {
			nm += fmt.Sprint(1000 + e.fs.ntmp)
		}
		return two(e.fsOpen("open", filepath.Join(dir, nm), oRDWR|oCREATE|oEXCL))
	})
	S("os.Remove", func(e *Exec, a []Val) Val {
		q := clean(str(a[0]))
		if e.fs.files[q] == nil {
			if d := e.fs.files[filepath.Dir(q)]; d != nil && !d.dir {
				return e.pathError("remove", str(a[0]), 20)
			}
			return e.pathError("remove", str(a[0]), 2)
		}
		if e.fs.files[q].dir {
			for k := range e.fs.files {
				if strings.HasPrefix(k, q+"/") {
					return e.pathError("remove", str(a[0]), 39)
				}
			}
		}
		delete(e.fs.files, q)
		return Val{}
	})
	S("os.Mkdir", func(e *Exec, a []Val) Val {
		q := clean(str(a[0]))
		if e.fs.files[q] != nil {
			return e.pathError("mkdir", str(a[0]), 17)
		}
		e.fs.files[q] = &Inode{path: q, dir: true}
		return Val{}
	})
	S("os.MkdirAll", func(e *Exec, a []Val) Val {
		for q := clean(str(a[0])); q != "/"; q = filepath.Dir(q) {
			if e.fs.files[q] == nil {
				e.fs.files[q] = &Inode{path: q, dir: true}
			}
		}
		return Val{}
	})
	S("os.Truncate", func(e *Exec, a []Val) Val {
		ino := e.fs.files[clean(str(a[0]))]
		if ino == nil {
			return e.pathError("truncate", str(a[0]), 2)
		}
		e.fsTrunc(ino, e.concInt(a[1]))
		return Val{}
	})
	S("os.Rename", func(e *Exec, a []Val) Val {
		q, r := clean(str(a[0])), clean(str(a[1]))
		ino := e.fs.files[q]
		bad := 0
		if ino == nil {
			bad = 2
		} else if d := e.fs.files[filepath.Dir(r)]; d == nil {
			bad = 2
		} else if t := e.fs.files[r]; t != nil && t.dir && !ino.dir {
			bad = 21
		}
		if bad != 0 {
			return e.pathError("rename", str(a[0]), bad)
		}
		delete(e.fs.files, q)
		e.fs.files[r] = ino
		return Val{}
	})
	stat := func(e *Exec, a []Val) Val {
		ino := e.fs.files[clean(str(a[0]))]
		if ino == nil {
			return two(Val{}, e.pathError("stat", str(a[0]), 2))
		}
		return two(e.fileInfo(str(a[0]), ino), Val{})
	}
	S("os.Stat", stat)
	S("os.Lstat", stat)
	S("os.WriteFile", func(e *Exec, a []Val) Val {
		f, err := e.fsOpen("open", str(a[0]), oWRONLY|oCREATE|oTRUNC)
		if err.o != nil {
			return err
		}
		h := e.handle(f)
		_, err = e.fsWrite(h, a[1], 0)
		h.closed = true
		return err
	})
	S("os.ReadFile", func(e *Exec, a []Val) Val {
		f, err := e.fsOpen("open", str(a[0]), 0)
		if err.o != nil {
			return two(Val{x: []Val{{}, {}}}, err)
		}
		h := e.handle(f)
		h.closed = true
		if h.ino.dir {
			return two(Val{x: []Val{{}, {}}}, e.pathError("read", str(a[0]), 21))
		}
		n := Val{c: uint64(h.ino.size)}
		c := Val{c: uint64(h.ino.size + 512)}
		b := Val{o: e.newObj(h.ino.size+512, "file contents"), x: []Val{n, c}}
		e.fsRead(h, b, 0)
		return two(b, Val{})
	})
	F := func(n string, fn func(e *Exec, h *Handle, a []Val) Val, tuple bool, op string) {
		m["(*os.File)."+n] = pure(func(e *Exec, a []Val) Val {
			h := e.handle(a[0])
			if h == nil {
				if a[0].o == nil {
					if tuple {
						return two(Val{}, e.errInvalid())
					}
					return e.errInvalid()
				}
				e.abort("unsupported", "unknown file object")
			}
			if h.closed {
				if tuple {
					return two(Val{}, e.errClosed(op, h.path))
				}
				return e.errClosed(op, h.path)
			}
			return fn(e, h, a)
		})
	}
	F("Write", func(e *Exec, h *Handle, a []Val) Val {
		at := h.off
		if h.app {
			at = h.ino.size
		}
		n, err := e.fsWrite(h, a[1], at)
		h.off = at + n
		return two(Val{c: uint64(n)}, err)
	}, true, "write")
	F("WriteString", func(e *Exec, h *Handle, a []Val) Val {
		n, err := e.fsWrite(h, e.bytesVal([]byte(str(a[1]))), h.off)
		h.off += n
		return two(Val{c: uint64(n)}, err)
	}, true, "write")
	F("WriteAt", func(e *Exec, h *Handle, a []Val) Val {
		n, err := e.fsWrite(h, a[1], e.concInt(a[2]))
		return two(Val{c: uint64(n)}, err)
	}, true, "write")
	F("Read", func(e *Exec, h *Handle, a []Val) Val {
		if h.ino.dir {
			return two(Val{}, e.pathError("read", h.path, 21))
		}
		if sliceLen(e, a[1]) == 0 {
			return two(Val{}, Val{})
		}
		n := e.fsRead(h, a[1], h.off)
		h.off += n
		if n == 0 {
			return two(Val{}, e.globalVal("io", "EOF"))
		}
		return two(Val{c: uint64(n)}, Val{})
	}, true, "read")
	F("ReadAt", func(e *Exec, h *Handle, a []Val) Val {
		n := e.fsRead(h, a[1], e.concInt(a[2]))
		if n < sliceLen(e, a[1]) {
			return two(Val{c: uint64(n)}, e.globalVal("io", "EOF"))
		}
		return two(Val{c: uint64(n)}, Val{})
	}, true, "read")
	F("Seek", func(e *Exec, h *Handle, a []Val) Val {
		o := e.concInt(a[1])
		switch e.concInt(a[2]) {
		case 1:
			o += h.off
		case 2:
			o += h.ino.size
		}
		if o < 0 {
			return two(Val{}, e.pathError("seek", h.path, 22))
		}
		h.off = o
		return two(Val{c: uint64(o)}, Val{})
	}, true, "seek")
	F("Stat", func(e *Exec, h *Handle, a []Val) Val { return two(e.fileInfo(h.path, h.ino), Val{}) }, true, "stat")
	F("Close", func(e *Exec, h *Handle, a []Val) Val { h.closed = true; return Val{} }, false, "close")
	F("Sync", func(e *Exec, h *Handle, a []Val) Val { return Val{} }, false, "sync")
	F("Chmod", func(e *Exec, h *Handle, a []Val) Val { return Val{} }, false, "chmod")
	F("Truncate", func(e *Exec, h *Handle, a []Val) Val {
		e.fsTrunc(h.ino, e.concInt(a[1]))
		return Val{}
	}, false, "truncate")
	m["os.Chmod"] = pure(func(e *Exec, a []Val) Val { return Val{} })
	m["(*os.File).Fd"] = pure(func(e *Exec, a []Val) Val {
		h := e.handle(a[0])
		if h == nil || h.closed {
			return Val{c: ^uint64(0)}
		}
		return Val{c: uint64(h.fd)}
	})
	m["(*os.File).Name"] = pure(func(e *Exec, a []Val) Val {
		if h := e.handle(a[0]); h != nil {
			return mkStr(h.path)
		}
		return Val{}
	})
	m["syscall.Mmap"] = pure(func(e *Exec, a []Val) Val {
		fd := e.concInt(a[0])
		off, n, prot := e.concInt(a[1]), e.concInt(a[2]), e.concInt(a[3])
		nilS := Val{x: []Val{{}, {}}}
		if n <= 0 || off&4095 != 0 {
			return two(nilS, e.errno(22))
		}
		i := fd - 3
		if i < 0 || i >= int64(len(e.fs.handles)) || e.fs.handles[i].closed {
			return two(nilS, e.errno(9))
		}
		h := e.fs.handles[i]
		if h.ino.dir {
			return two(nilS, e.errno(19))
		}
		if prot&2 != 0 && !h.wr && e.concInt(a[4])&1 != 0 {
			return two(nilS, e.errno(13))
		}
		o := e.newObj(n, "mapping of "+h.path)
		o.readon = prot&2 == 0
		if off != 0 {
			e.abort("unsupported", "mmap at an offset")
		}
		if e.concInt(a[4])&1 != 0 {
			o.mapped = h.ino
		} else {
			// private mapping: a copy (later changes of the file are not modelled)
			sz := h.ino.size
			if sz > n {
				sz = n
			}
			if sz > 0 {
				e.fsGrow(h.ino, h.ino.size)
				e.memmoveRaw(o, 0, h.ino.obj, 0, sz)
			}
		}
		e.fs.maps++
		o.hidx = 1
		return two(Val{o: o, x: []Val{{c: uint64(n)}, {c: uint64(n)}}}, Val{})
	})
	m["syscall.Munmap"] = pure(func(e *Exec, a []Val) Val {
		o, ok := a[0].o.(*Obj)
		if !ok || o.hidx != 1 || o.freed != "" || sliceCap(e, a[0]) != o.size || a[0].c != 0 {
			return e.errno(22)
		}
		o.freed = "the file was unmapped"
		e.fs.maps--
		return Val{}
	})
	m["syscall.Madvise"] = pure(func(e *Exec, a []Val) Val { return Val{} })
}

func (e *Exec) fsTrunc(ino *Inode, n int64) {
	if n < ino.size {
		if ino.obj != nil && n < ino.obj.size {
			e.clearRange(ino.obj, n, ino.obj.size-n)
		}
		ino.size = n
	} else {
		e.fsGrow(ino, n)
	}
}
