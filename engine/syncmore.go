package main

// Models of sync.Cond, sync.Map and the rest of sync/atomic.

import "go/types"

type condWaiter struct {
	g        *G
	signaled bool
}

var anyType = types.NewInterfaceType(nil, nil)

func (p *Prog) syncMore(m map[string]Intrinsic) {
	vis := func(n string, i Intrinsic) { m[n] = i; visFns[n] = true }

	// ---- sync.Cond ----
	locker := func(e *Exec, p Val, t types.Type, name string) (Intrinsic, Val) {
		st := t.Underlying().(*types.Struct)
		l := e.p.layout(t)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() != "L" {
				continue
			}
			v := e.load(e.ptrAdd(p, Val{c: uint64(l.offs[i])}), l.fields[i])
			if v.o == nil {
				e.goPanicRuntime("invalid memory address or nil pointer dereference")
			}
			tg := v.o.(*TypeTag)
			if in := m["("+tg.t.String()+")."+name]; in != nil {
				return in, v.x[0]
			}
			if tg.t.String() == "*sync.rlocker" {
				if in := m["(*sync.RWMutex).R"+name]; in != nil {
					return in, v.x[0]
				}
			}
			e.abort("unsupported", "sync.Cond over "+tg.t.String())
		}
		panic("sync.Cond without L")
	}
	condT := func(c *callCtx) types.Type {
		return c.fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem()
	}
	vis("(*sync.Cond).Wait", func(e *Exec, g *G, f *Frame, c *callCtx) (Val, status) {
		s, k := e.lock(c.args[0])
		t := condT(c)
		var w *condWaiter
		for _, x := range s.waiters {
			if x.g == g {
				w = x
			}
		}
		if w == nil {
			un, lv := locker(e, c.args[0], t, "Unlock")
			w = &condWaiter{g: g}
			s.waiters = append(s.waiters, w)
			un(e, g, f, &callCtx{args: []Val{lv}, fn: c.fn, dst: -1})
			return Val{}, e.block(g, "Cond.Wait", func() bool { return w.signaled })
		}
		if !w.signaled {
			return Val{}, e.block(g, "Cond.Wait", func() bool { return w.signaled })
		}
		lk, lv := locker(e, c.args[0], t, "Lock")
		if _, st := lk(e, g, f, &callCtx{args: []Val{lv}, fn: c.fn, dst: -1}); st == stBlock {
			return Val{}, st
		}
		for i, x := range s.waiters {
			if x == w {
				s.waiters = append(append([]*condWaiter{}, s.waiters[:i]...), s.waiters[i+1:]...)
				break
			}
		}
		_ = k
		return Val{}, stNext
	})
	wake := func(all bool) Intrinsic {
		return func(e *Exec, g *G, f *Frame, c *callCtx) (Val, status) {
			s, _ := e.lock(c.args[0])
			for _, w := range s.waiters {
				if !w.signaled {
					w.signaled = true
					e.hb(g, w.g)
					if !all {
						break
					}
				}
			}
			return Val{}, stNext
		}
	}
	vis("(*sync.Cond).Signal", wake(false))
	vis("(*sync.Cond).Broadcast", wake(true))

	// ---- sync.Map: every operation is atomic ----
	// a mark in memory tells a used object from one that was overwritten with its zero value
	ml := &Layout{kind: lkInt, size: 8, w: 64}
	fresh := func(e *Exec, k lockKey) bool {
		if v := e.loadAt(k.o, k.off, ml); v.t == nil && v.o == nil && v.c == 0 {
			e.storeAt(k.o, k.off, Val{c: 1}, ml)
			return true
		}
		return false
	}
	smap := func(e *Exec, g *G, p Val) *MapObj {
		s, k := e.lock(p)
		if fresh(e, k) || s.m == nil {
			e.nmaps++
			s.m = &MapObj{id: e.nmaps, keys: map[string]int{}}
		}
		e.syncEvent(g, evAtomic, k, true)
		return s.m
	}
	get := func(e *Exec, sm *MapObj, k Val) (Val, bool) {
		if i, ok := sm.keys[e.mapKey(k, anyType)]; ok {
			return sm.ents[i].v, true
		}
		return Val{}, false
	}
	set := func(e *Exec, sm *MapObj, k, v Val) {
		ks := e.mapKey(k, anyType)
		if i, ok := sm.keys[ks]; ok {
			sm.ents[i].v = v
			return
		}
		sm.keys[ks] = len(sm.ents)
		sm.ents = append(sm.ents, mapEnt{k, v, true})
		sm.live++
	}
	del := func(e *Exec, sm *MapObj, k Val) {
		ks := e.mapKey(k, anyType)
		if i, ok := sm.keys[ks]; ok {
			sm.ents[i].ok = false
			delete(sm.keys, ks)
			sm.live--
		}
	}
	two := func(v Val, ok bool) Val { return Val{x: []Val{v, cbool(ok)}} }
	op := func(name string, fn func(e *Exec, sm *MapObj, a []Val) Val) {
		vis("(*sync.Map)."+name, func(e *Exec, g *G, f *Frame, c *callCtx) (Val, status) {
			return fn(e, smap(e, g, c.args[0]), c.args[1:]), stNext
		})
	}
	op("Load", func(e *Exec, sm *MapObj, a []Val) Val { return two(get(e, sm, a[0])) })
	op("Store", func(e *Exec, sm *MapObj, a []Val) Val { set(e, sm, a[0], a[1]); return Val{} })
	op("Clear", func(e *Exec, sm *MapObj, a []Val) Val {
		sm.keys, sm.ents, sm.live = map[string]int{}, nil, 0
		return Val{}
	})
	op("LoadOrStore", func(e *Exec, sm *MapObj, a []Val) Val {
		if v, ok := get(e, sm, a[0]); ok {
			return two(v, true)
		}
		set(e, sm, a[0], a[1])
		return two(a[1], false)
	})
	op("LoadAndDelete", func(e *Exec, sm *MapObj, a []Val) Val {
		v, ok := get(e, sm, a[0])
		del(e, sm, a[0])
		return two(v, ok)
	})
	op("Delete", func(e *Exec, sm *MapObj, a []Val) Val { del(e, sm, a[0]); return Val{} })
	op("Swap", func(e *Exec, sm *MapObj, a []Val) Val {
		v, ok := get(e, sm, a[0])
		set(e, sm, a[0], a[1])
		return two(v, ok)
	})
	op("CompareAndSwap", func(e *Exec, sm *MapObj, a []Val) Val {
		v, ok := get(e, sm, a[0])
		if !ok || !e.branch(e.equal(v, a[1], anyType, anyType)) {
			return cbool(false)
		}
		set(e, sm, a[0], a[2])
		return cbool(true)
	})
	op("CompareAndDelete", func(e *Exec, sm *MapObj, a []Val) Val {
		v, ok := get(e, sm, a[0])
		if !ok || !e.branch(e.equal(v, a[1], anyType, anyType)) {
			return cbool(false)
		}
		del(e, sm, a[0])
		return cbool(true)
	})
	vis("(*sync.Map).Range", func(e *Exec, g *G, f *Frame, c *callCtx) (Val, status) {
		sm := smap(e, g, c.args[0])
		fv := c.args[1]
		if fv.o == nil {
			if sm.live == 0 {
				return Val{}, stNext
			}
			e.goPanicRuntime("invalid memory address or nil pointer dereference")
		}
		var step func(i int) bool
		step = func(i int) bool {
			for ; i < len(sm.ents); i++ {
				if !sm.ents[i].ok {
					continue
				}
				n := len(g.frames)
				e.pushCall(g, fv.o.(*Closure), []Val{sm.ents[i].k, sm.ents[i].v}, -1)
				if len(g.frames) == n {
					e.abort("unsupported", "sync.Map.Range over a native function")
				}
				next := i + 1
				g.frames[n].onRet = func(e *Exec, g *G, v Val) {
					if e.branch(e.boolTerm(v)) {
						step(next)
					}
				}
				return true
			}
			return false
		}
		if step(0) {
			return Val{}, stJump
		}
		return Val{}, stNext
	})

	// ---- the rest of sync/atomic ----
	pl := &Layout{kind: lkPtr, size: 8}
	ptr := func(name string, fn func(e *Exec, o *Obj, off int64, a []Val) Val) {
		vis("sync/atomic."+name, func(e *Exec, g *G, f *Frame, c *callCtx) (Val, status) {
			o, off := e.resolve(c.args[0], 8, true)
			e.syncEvent(g, evAtomic, lockKey{o, off}, true)
			return fn(e, o, off, c.args), stNext
		})
	}
	ptr("SwapPointer", func(e *Exec, o *Obj, off int64, a []Val) Val {
		old := e.loadAt(o, off, pl)
		e.storeAt(o, off, a[1], pl)
		return old
	})
	ptr("CompareAndSwapPointer", func(e *Exec, o *Obj, off int64, a []Val) Val {
		t := types.Typ[types.UnsafePointer]
		if !e.branch(e.equal(e.loadAt(o, off, pl), a[1], t, t)) {
			return cbool(false)
		}
		e.storeAt(o, off, a[2], pl)
		return cbool(true)
	})
	visFns["sync/atomic.LoadPointer"] = true
	visFns["sync/atomic.StorePointer"] = true
	for _, k := range []string{"Load", "Store", "Swap", "CompareAndSwap"} {
		visFns["(*sync/atomic.Pointer[T])."+k] = true
		visFns["(*sync/atomic.Bool)."+k] = true
	}
	bitop := func(op Op, w uint8) Intrinsic {
		l := &Layout{kind: lkInt, size: int64(w / 8), w: w}
		return func(e *Exec, g *G, f *Frame, c *callCtx) (Val, status) {
			o, off := e.resolve(c.args[0], l.size, true)
			e.syncEvent(g, evAtomic, lockKey{o, off}, true)
			old := e.loadAt(o, off, l)
			e.storeAt(o, off, e.fromTerm(e.tb.Bin(op, e.term(old, w), e.term(c.args[1], w))), l)
			return old, stNext
		}
	}
	for _, t := range []struct {
		n string
		w uint8
	}{{"Int32", 32}, {"Uint32", 32}, {"Int64", 64}, {"Uint64", 64}, {"Uintptr", 64}} {
		vis("sync/atomic.And"+t.n, bitop(OpBAnd, t.w))
		vis("sync/atomic.Or"+t.n, bitop(OpBOr, t.w))
		visFns["(*sync/atomic."+t.n+").And"] = true
		visFns["(*sync/atomic."+t.n+").Or"] = true
	}
	// atomic.Value: the interface is kept in the lock's state
	av := func(name string, fn func(e *Exec, s *lockState, a []Val) Val) {
		vis("(*sync/atomic.Value)."+name, func(e *Exec, g *G, f *Frame, c *callCtx) (Val, status) {
			s, k := e.lock(c.args[0])
			e.syncEvent(g, evAtomic, k, true)
			if fresh(e, k) {
				s.val = Val{}
			}
			if len(c.args) > 1 {
				nv := c.args[len(c.args)-1]
				if nv.o == nil {
					panic(goPanic{v: e.strErr("sync/atomic: " + map[string]string{"Store": "store", "Swap": "swap", "CompareAndSwap": "compare and swap"}[name] + " of nil value into Value")})
				}
				if s.val.o != nil && s.val.o != nv.o {
					panic(goPanic{v: e.strErr("sync/atomic: " + map[string]string{"Store": "store", "Swap": "swap", "CompareAndSwap": "compare and swap"}[name] + " of inconsistently typed value into Value")})
				}
			}
			return fn(e, s, c.args[1:]), stNext
		})
	}
	av("Load", func(e *Exec, s *lockState, a []Val) Val { return s.val })
	av("Store", func(e *Exec, s *lockState, a []Val) Val { s.val = a[0]; return Val{} })
	av("Swap", func(e *Exec, s *lockState, a []Val) Val { o := s.val; s.val = a[0]; return o })
	av("CompareAndSwap", func(e *Exec, s *lockState, a []Val) Val {
		if !e.branch(e.equal(s.val, a[0], anyType, anyType)) {
			return cbool(false)
		}
		s.val = a[1]
		return cbool(true)
	})
	visFns["(*sync.Mutex).TryLock"] = true
	visFns["(*sync.RWMutex).TryLock"] = true
	visFns["(*sync.RWMutex).TryRLock"] = true
	visFns["(*sync.Once).Do"] = true
}
