package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) step(st *State, f *Frame, in ssa.Instruction) {
	set := func(v ssa.Value, x Value) {
		f.regs[f.fi.reg[v]] = x
		f.pc++
	}
	switch x := in.(type) {
	case *ssa.DebugRef:
		f.pc++
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		id := e.allocType(st, x, t)
		set(x, Ptr{id, e.c0})
	case *ssa.BinOp:
		set(x, e.binop(st, x.Op, x.X.Type(), x.Y.Type(), e.val(f, x.X), e.val(f, x.Y)))
	case *ssa.UnOp:
		e.unop(st, f, x)
	case *ssa.ChangeType:
		set(x, e.val(f, x.X))
	case *ssa.Convert:
		set(x, e.convert(st, x, x.X.Type(), x.Type(), e.val(f, x.X)))
	case *ssa.MultiConvert:
		unsup("multiconvert")
	case *ssa.ChangeInterface:
		set(x, e.val(f, x.X))
	case *ssa.MakeInterface:
		set(x, IfaceV{x.X.Type(), e.val(f, x.X)})
	case *ssa.MakeClosure:
		env := make([]Value, len(x.Bindings))
		for i, b := range x.Bindings {
			env[i] = e.val(f, b)
		}
		set(x, FuncV{fn: x.Fn.(*ssa.Function), env: env})
	case *ssa.MakeSlice:
		el := x.Type().Underlying().(*types.Slice).Elem()
		ln := e.toInt64(x.Len.Type(), e.term(st, e.val(f, x.Len)))
		cp := e.toInt64(x.Cap.Type(), e.term(st, e.val(f, x.Cap)))
		set(x, e.makeSlice(st, x, el, ln, cp))
	case *ssa.MakeMap:
		id := e.newObjID(st, x)
		st.heap.put(st.tok, id, &Obj{owner: st.tok, kind: KMap, m: &MapObj{typ: x.Type().Underlying().(*types.Map)}})
		set(x, MapV{id})
	case *ssa.MakeChan:
		sz := e.toInt64(x.Size.Type(), e.term(st, e.val(f, x.Size)))
		e.require(st, e.tb.Sle(e.c0, sz), "makechan: size out of range")
		n := int(e.conc(st, sz))
		id := e.newObjID(st, x)
		st.heap.put(st.tok, id, &Obj{owner: st.tok, kind: KChan, ch: &ChanObj{cap: n, elem: x.Type().Underlying().(*types.Chan).Elem()}})
		set(x, ChanV{id})
	case *ssa.Slice:
		set(x, e.slice(st, f, x))
	case *ssa.SliceToArrayPointer:
		s := e.one(st, e.val(f, x.X)).(SliceV)
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		e.require(st, e.tb.Sle(e.tb.Int(int(n)), e.tb.Sub(s.hi, s.lo)), "cannot convert slice to array pointer: length too short")
		set(x, Ptr{s.obj, e.elemOff(s, s.lo)})
	case *ssa.FieldAddr:
		p := e.ptr(st, e.val(f, x.X))
		s := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		set(x, Ptr{p.obj, e.tb.Add(p.off, e.tb.Int(e.fieldOff(s, x.Field)))})
	case *ssa.Field:
		v := e.val(f, x.X)
		if u, ok := v.(UnionV); ok {
			set(x, e.mapUnion(st, u, func(v Value) Value { return v.(StructV)[x.Field] }))
			return
		}
		set(x, v.(StructV)[x.Field])
	case *ssa.IndexAddr:
		set(x, e.indexAddr(st, f, x))
	case *ssa.Index:
		set(x, e.index(st, f, x))
	case *ssa.Lookup:
		set(x, e.lookup(st, f, x))
	case *ssa.MapUpdate:
		mv := e.one(st, e.val(f, x.Map)).(MapV)
		if mv.obj == 0 {
			e.panicNow("assignment to entry in nil map")
		}
		e.mapWrite(st, mv, e.val(f, x.Key), e.val(f, x.Value))
		f.pc++
	case *ssa.Range:
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			set(x, e.rangeInit(st, e.oneStr(st, e.val(f, x.X))))
			break
		}
		set(x, e.rangeInit(st, e.one(st, e.val(f, x.X))))
	case *ssa.Next:
		e.next(st, f, x)
	case *ssa.TypeAssert:
		e.typeAssert(st, f, x)
	case *ssa.Extract:
		v := e.val(f, x.Tuple)
		if u, ok := v.(UnionV); ok {
			set(x, e.mapUnion(st, u, func(v Value) Value { return v.(TupleV)[x.Index] }))
			return
		}
		set(x, v.(TupleV)[x.Index])
	case *ssa.Store:
		t := x.Addr.Type().Underlying().(*types.Pointer).Elem()
		e.store(st, t, e.val(f, x.Addr), e.val(f, x.Val))
		f.pc++
	case *ssa.If:
		e.branch(st, f, x)
	case *ssa.Jump:
		e.jump(f, 0)
	case *ssa.Return:
		var r Value
		switch len(x.Results) {
		case 0:
			r = TupleV{}
		case 1:
			r = e.val(f, x.Results[0])
		default:
			t := make(TupleV, len(x.Results))
			for i, v := range x.Results {
				t[i] = e.val(f, v)
			}
			r = t
		}
		e.doReturn(st, f, r)
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			defer func() {
				// a split while calling: put it back
				if r := recover(); r != nil {
					f.defers = append(f.defers, d)
					panic(r)
				}
			}()
			e.callDeferred(st, f, d)
			return
		}
		f.pc++
	case *ssa.Panic:
		e.startPanic(st, e.val(f, x.X))
	case *ssa.Call:
		fv, args := e.callee(st, f, &x.Call)
		e.enter(st, f, x, fv, args, x.Call.Signature())
	case *ssa.Go:
		fv, args := e.callee(st, f, &x.Call)
		e.spawn(st, f, fv, args)
		f.pc++
	case *ssa.Defer:
		fv, args := e.callee(st, f, &x.Call)
		if fn := fv.(FuncV); fn.fn == nil && fn.bi == "" {
			unsup("defer of nil func")
		}
		if x.DeferStack != nil {
			unsup("defer stack")
		}
		f.defers = append(f.defers, deferred{fn: fv, args: args})
		f.pc++
	case *ssa.Send:
		e.chanSend(st, f, x)
	case *ssa.Select:
		e.selectOp(st, f, x)
	default:
		unsup("instruction %T", in)
	}
}

func (e *Engine) panicNow(msg string) { panic(checkSig{e.tb.False, msg}) }

func (e *Engine) mapUnion(st *State, u UnionV, fn func(Value) Value) Value {
	var alts []Alt
	for _, a := range u.alts {
		if e.truth(st, a.g) < 0 {
			continue
		}
		v := fn(a.v)
		if w, ok := v.(UnionV); ok {
			for _, b := range w.alts {
				alts = append(alts, Alt{e.tb.And2(a.g, b.g), b.v})
			}
			continue
		}
		alts = append(alts, Alt{a.g, v})
	}
	return e.mkUnion(alts)
}

func (e *Engine) term(st *State, v Value) *Term {
	v = e.one(st, v)
	t, ok := v.(*Term)
	if !ok {
		unsup("number or bool expected, got %s", valStr(v))
	}
	return t
}

func (e *Engine) ptr(st *State, v Value) Ptr {
	v = e.one(st, v)
	p, ok := v.(Ptr)
	if !ok {
		if o, ok := v.(OpaqueV); ok {
			unsup("pointer into %s", o.tag)
		}
		unsup("pointer expected, got %s", valStr(v))
	}
	if p.obj == 0 {
		e.panicNow("invalid memory address or nil pointer dereference")
	}
	return p
}

func (e *Engine) toInt64(t types.Type, x *Term) *Term {
	w, signed, _ := intInfo(t)
	if w == 64 {
		return x
	}
	if signed {
		return e.tb.SExt(x, 64)
	}
	return e.tb.ZExt(x, 64)
}

// ---- control

func (e *Engine) jump(f *Frame, succ int) {
	b := f.fi.fn.Blocks[f.block]
	to := b.Succs[succ]
	n := f.fi.nphi[to.Index]
	if n > 0 {
		k := -1
		// the edge index: parallel edges between the same blocks are disambiguated by order
		cnt := 0
		for i := 0; i < succ; i++ {
			if b.Succs[i] == to {
				cnt++
			}
		}
		for i, p := range to.Preds {
			if p == b {
				if cnt == 0 {
					k = i
					break
				}
				cnt--
			}
		}
		var buf [16]Value
		vals := buf[:0]
		for i := 0; i < n; i++ {
			phi := to.Instrs[i].(*ssa.Phi)
			ev := phi.Edges[k]
			vals = append(vals, e.val(f, ev))
		}
		for i := 0; i < n; i++ {
			f.regs[f.fi.reg[to.Instrs[i].(*ssa.Phi)]] = vals[i]
		}
	}
	f.prev = f.block
	f.block = to.Index
	f.pc = n
}

func (e *Engine) branch(st *State, f *Frame, x *ssa.If) {
	c := e.term(st, e.val(f, x.Cond))
	switch e.truth(st, c) {
	case 1:
		e.jump(f, 0)
		return
	case -1:
		e.jump(f, 1)
		return
	}
	panic(splitSig{guards: []*Term{c, e.tb.Not(c)}})
}

// ---- memory

// candidate offsets of a symbolic cell offset within an object
func (e *Engine) offsets(st *State, off *Term, n int) []vsEnt {
	if off.isConst() {
		return []vsEnt{{off.val, e.tb.True}}
	}
	vs := e.tb.ToVS(off, maxVS)
	if vs == nil {
		if n > maxVS*4 {
			unsup("symbolic index into %d cells", n)
		}
		var r []vsEnt
		for i := 0; i < n; i++ {
			g := e.tb.Eq(off, e.tb.Int(i))
			if !g.isFalse() {
				r = append(r, vsEnt{uint64(i), g})
			}
		}
		return r
	}
	var r []vsEnt
	for _, x := range e.tb.entries(vs) {
		if int64(x.c) >= 0 && int(x.c) < n && e.truth(st, x.g) >= 0 {
			r = append(r, x)
		}
	}
	return r
}

func (e *Engine) load(st *State, t types.Type, addr Value) Value {
	if u, ok := addr.(UnionV); ok {
		// a nil alternative must be split off
		for _, a := range u.alts {
			if p, ok := a.v.(Ptr); !ok || p.obj == 0 {
				addr = e.one(st, addr)
				return e.load(st, t, addr)
			}
		}
		return e.mapUnion(st, u, func(v Value) Value { return e.load(st, t, v) })
	}
	p := e.ptr(st, addr)
	return e.loadAt(st, t, p.obj, p.off)
}

func (e *Engine) loadAt(st *State, t types.Type, obj int32, off *Term) Value {
	o := st.obj(obj)
	if o.kind != KCells {
		unsup("load from object kind %d", o.kind)
	}
	n := e.size(t)
	if st.multi {
		e.access(st, obj, off, n, false)
		o = st.obj(obj)
	}
	if off.isConst() {
		base := int(int64(off.val))
		if base < 0 || base+n > o.vec.n {
			panic(engineErr(fmt.Sprintf("load of %s out of object (%d+%d of %d)", t, base, n, o.vec.n)))
		}
		switch t.Underlying().(type) {
		case *types.Struct, *types.Array:
			v, _ := e.unflat(t, o.vec.get, base)
			return v
		}
		return o.vec.get(base)
	}
	cand := e.offsets(st, off, o.vec.n-n+1)
	return e.muxVals(st, cand, func(c int) Value {
		switch t.Underlying().(type) {
		case *types.Struct, *types.Array:
			v, _ := e.unflat(t, o.vec.get, c)
			return v
		}
		return o.vec.get(c)
	})
}

func (e *Engine) muxVals(st *State, cand []vsEnt, get func(c int) Value) Value {
	if len(cand) == 0 {
		panic(deadSig{})
	}
	if len(cand) == 1 {
		return get(int(cand[0].c))
	}
	// value sets and constants: combine by constant
	allVS := true
	var w uint8
	vals := make([]Value, len(cand))
	for i, c := range cand {
		vals[i] = get(int(c.c))
		t, ok := vals[i].(*Term)
		if !ok || t.w == 0 || !isVS(t) {
			allVS = false
		} else {
			w = t.w
		}
	}
	if allVS {
		ents := []vsEnt{}
		for i, c := range cand {
			for _, x := range e.tb.entries(vals[i].(*Term)) {
				ents = append(ents, vsEnt{x.c, e.tb.And2(c.g, x.g)})
			}
		}
		return e.tb.mkVS(w, ents)
	}
	// group equal values
	type grp struct {
		v  Value
		gs []*Term
	}
	var groups []*grp
	byTerm := map[*Term]*grp{}
	for i, c := range cand {
		if t, ok := vals[i].(*Term); ok {
			if g := byTerm[t]; g != nil {
				g.gs = append(g.gs, c.g)
				continue
			}
			g := &grp{t, []*Term{c.g}}
			byTerm[t] = g
			groups = append(groups, g)
			continue
		}
		done := false
		for _, g := range groups {
			if e.sameVal(g.v, vals[i]) {
				g.gs = append(g.gs, c.g)
				done = true
				break
			}
		}
		if !done {
			groups = append(groups, &grp{vals[i], []*Term{c.g}})
		}
	}
	if len(groups) == 1 {
		return groups[0].v
	}
	acc := groups[len(groups)-1].v
	if _, ok := acc.(*Term); ok {
		for i := len(groups) - 2; i >= 0; i-- {
			acc = e.mergeVal(e.tb.Or(groups[i].gs...), groups[i].v, acc)
		}
		return acc
	}
	var alts []Alt
	for _, g := range groups {
		gd := e.tb.Or(g.gs...)
		if u, ok := g.v.(UnionV); ok {
			for _, a := range u.alts {
				alts = append(alts, Alt{e.tb.And2(gd, a.g), a.v})
			}
		} else {
			alts = append(alts, Alt{gd, g.v})
		}
	}
	return e.mkUnion(alts)
}

func (e *Engine) store(st *State, t types.Type, addr Value, v Value) {
	if u, ok := addr.(UnionV); ok {
		for _, a := range u.alts {
			if p, ok := a.v.(Ptr); !ok || p.obj == 0 {
				addr = e.one(st, addr)
				e.store(st, t, addr, v)
				return
			}
		}
		for _, a := range u.alts {
			if e.truth(st, a.g) < 0 {
				continue
			}
			p := a.v.(Ptr)
			old := e.loadAt(st, t, p.obj, p.off)
			e.storeAt(st, t, p.obj, p.off, e.mergeVal(a.g, v, old))
		}
		return
	}
	p := e.ptr(st, addr)
	e.storeAt(st, t, p.obj, p.off, v)
}

func (e *Engine) storeAt(st *State, t types.Type, obj int32, off *Term, v Value) {
	n := e.size(t)
	if st.multi {
		e.access(st, obj, off, n, true)
	}
	var cells []Value
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		cells = e.flat(t, v, make([]Value, 0, n))
	}
	o0 := st.obj(obj)
	if o0.kind != KCells {
		unsup("store to object kind %d", o0.kind)
	}
	if off.isConst() {
		base := int(int64(off.val))
		if base < 0 || base+n > o0.vec.n {
			panic(engineErr(fmt.Sprintf("store of %s out of object (%d+%d of %d)", t, base, n, o0.vec.n)))
		}
		o := st.wobj(obj)
		if cells == nil {
			if n == 1 {
				o.vec.set(st.tok, base, v)
			}
			return
		}
		for i, c := range cells {
			o.vec.set(st.tok, base+i, c)
		}
		return
	}
	cand := e.offsets(st, off, o0.vec.n-n+1)
	if cells == nil {
		cells = []Value{v}
	}
	type w struct {
		i int
		v Value
	}
	var ws []w
	for _, c := range cand {
		for i, x := range cells {
			k := int(c.c) + i
			ws = append(ws, w{k, e.mergeVal(c.g, x, o0.vec.get(k))})
		}
	}
	o := st.wobj(obj)
	for _, x := range ws {
		o.vec.set(st.tok, x.i, x.v)
	}
}

// ---- slices

const maxAlloc = 1 << 19

func (e *Engine) makeSlice(st *State, in interface{}, elem types.Type, ln, cp *Term) Value {
	es := e.size(elem)
	lim := uint64(1) << 47
	if es > 0 {
		lim /= uint64(e.byteSize(elem))
	}
	e.require(st, e.tb.Ule(ln, e.tb.Const(64, lim)), "makeslice: len out of range")
	if cp != ln {
		e.require(st, e.tb.And2(e.tb.Ule(ln, cp), e.tb.Ule(cp, e.tb.Const(64, lim))), "makeslice: cap out of range")
	}
	if cp.hi > maxAlloc {
		small := e.tb.Ule(cp, e.tb.Int(maxAlloc))
		if !e.concBool(st, small) {
			unsup("allocation of more than %d elements", maxAlloc)
		}
	}
	n := int(min(cp.hi, maxAlloc))
	id := e.allocElems(st, in, elem, n)
	return SliceV{id, 0, int32(es), e.c0, ln, cp}
}

func (e *Engine) byteSize(t types.Type) int64 {
	n := e.L.sizes.Sizeof(t)
	if n < 1 {
		return 1
	}
	return n
}

func (e *Engine) elemOff(s SliceV, i *Term) *Term {
	o := i
	if s.esz != 1 {
		o = e.tb.bin(OpMul, i, e.tb.Int(int(s.esz)))
	}
	return e.tb.Add(o, e.tb.Int(int(s.base)))
}

func (e *Engine) indexAddr(st *State, f *Frame, x *ssa.IndexAddr) Value {
	idx := e.toInt64(x.Index.Type(), e.term(st, e.val(f, x.Index)))
	switch t := x.X.Type().Underlying().(type) {
	case *types.Slice:
		v := e.val(f, x.X)
		if u, ok := v.(UnionV); ok {
			// all alternatives with an in-range index: keep the union
			okAll := e.tb.True
			for _, a := range u.alts {
				if e.truth(st, a.g) < 0 {
					continue
				}
				s := a.v.(SliceV)
				okAll = e.tb.And2(okAll, e.tb.Implies(a.g, e.inRange(idx, e.tb.Sub(s.hi, s.lo))))
			}
			e.require(st, okAll, "index out of range")
			return e.mapUnion(st, u, func(v Value) Value {
				s := v.(SliceV)
				if s.obj == 0 {
					return Ptr{0, e.c0}
				}
				return Ptr{s.obj, e.elemOff(s, e.tb.Add(s.lo, idx))}
			})
		}
		s := v.(SliceV)
		e.require(st, e.inRange(idx, e.tb.Sub(s.hi, s.lo)), "index out of range")
		return Ptr{s.obj, e.elemOff(s, e.tb.Add(s.lo, idx))}
	case *types.Pointer:
		a := t.Elem().Underlying().(*types.Array)
		p := e.ptr(st, e.val(f, x.X))
		e.require(st, e.inRange(idx, e.tb.Int(int(a.Len()))), "index out of range")
		o := idx
		if n := e.size(a.Elem()); n != 1 {
			o = e.tb.bin(OpMul, idx, e.tb.Int(n))
		}
		return Ptr{p.obj, e.tb.Add(p.off, o)}
	}
	unsup("indexaddr of %s", x.X.Type())
	return nil
}

func (e *Engine) inRange(i, n *Term) *Term {
	return e.tb.Ult(i, n)
}

func (e *Engine) index(st *State, f *Frame, x *ssa.Index) Value {
	idx := e.toInt64(x.Index.Type(), e.term(st, e.val(f, x.Index)))
	switch t := x.X.Type().Underlying().(type) {
	case *types.Array:
		e.require(st, e.inRange(idx, e.tb.Int(int(t.Len()))), "index out of range")
		arr := e.one(st, e.val(f, x.X)).(ArrayV)
		return e.muxVals(st, e.offsets(st, idx, len(arr)), func(c int) Value { return arr[c] })
	case *types.Basic:
		return e.strIndex(st, e.val(f, x.X), idx)
	}
	unsup("index of %s", x.X.Type())
	return nil
}

func (e *Engine) slice(st *State, f *Frame, x *ssa.Slice) Value {
	tb := e.tb
	get := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return e.toInt64(v.Type(), e.term(st, e.val(f, v)))
	}
	lo, hi, mx := get(x.Low), get(x.High), get(x.Max)
	if lo == nil {
		lo = e.c0
	}
	const msg = "slice bounds out of range"
	switch t := x.X.Type().Underlying().(type) {
	case *types.Basic:
		v := e.val(f, x.X)
		return e.strSlice(st, v, lo, hi)
	case *types.Slice:
		v := e.one(st, e.val(f, x.X))
		s := v.(SliceV)
		cp := tb.Sub(s.max, s.lo)
		if hi == nil {
			hi = tb.Sub(s.hi, s.lo)
		}
		if mx == nil {
			mx = cp
		} else {
			e.require(st, tb.Ule(mx, cp), msg)
		}
		e.require(st, tb.Ule(hi, mx), msg)
		e.require(st, tb.Ule(lo, hi), msg)
		if s.obj == 0 {
			return s
		}
		if v := st.obj(s.obj).vec; v != nil && v.n > 4*maxVS {
			// too large for symbolic positions, unless the path condition decides them
			lo, hi = e.known(st, lo), e.known(st, hi)
		}
		return SliceV{s.obj, s.base, s.esz, tb.Add(s.lo, lo), tb.Add(s.lo, hi), tb.Add(s.lo, mx)}
	case *types.Pointer:
		a := t.Elem().Underlying().(*types.Array)
		p := e.ptr(st, e.val(f, x.X))
		n := tb.Int(int(a.Len()))
		if hi == nil {
			hi = n
		}
		if mx == nil {
			mx = n
		} else {
			e.require(st, tb.Ule(mx, n), msg)
		}
		e.require(st, tb.Ule(hi, mx), msg)
		e.require(st, tb.Ule(lo, hi), msg)
		base := e.conc(st, p.off)
		return SliceV{p.obj, int32(base), int32(e.size(a.Elem())), lo, hi, mx}
	}
	unsup("slice of %s", x.X.Type())
	return nil
}

// known gives the value of a term if the path condition allows just one.
func (e *Engine) known(st *State, t *Term) *Term {
	if t.op == OpConst {
		return t
	}
	c := e.tb.Const(t.w, e.tb.Eval(t, st.model))
	if e.truth(st, e.tb.Eq(t, c)) == 1 {
		return c
	}
	return t
}

// maxOf: greatest possible value of a length term.
func (e *Engine) maxOf(st *State, t *Term) int {
	if t.hi > maxAlloc {
		// bounded by the path condition?
		if !e.concBool(st, e.tb.Ule(t, e.tb.Int(maxAlloc))) {
			unsup("length above %d", maxAlloc)
		}
		return e.tightMax(st, t, maxAlloc)
	}
	return int(t.hi)
}

func (e *Engine) tightMax(st *State, t *Term, hi int) int {
	lo := int(e.tb.Eval(t, st.model))
	for lo < hi {
		mid := lo + (hi-lo)/2
		if lo == mid || hi-lo > 64 {
			mid = min(hi-1, max(lo, min(mid, lo*2+8)))
		}
		r, m := e.feasible(st, e.tb.Ult(e.tb.Int(mid), t))
		if r == Unsat {
			hi = mid
		} else if r == Sat {
			lo = max(mid+1, int(e.tb.Eval(t, m)))
		} else {
			break
		}
	}
	return hi
}

// ---- arithmetic

func (e *Engine) binop(st *State, op token.Token, xt, yt types.Type, a, b Value) Value {
	tb := e.tb
	switch op {
	case token.EQL:
		return e.eqVals(st, xt, a, b)
	case token.NEQ:
		return tb.Not(e.eqVals(st, xt, a, b))
	}
	if w, signed, ok := intInfo(xt); ok {
		x, y := e.term(st, a), e.term(st, b)
		switch op {
		case token.ADD:
			return tb.Add(x, y)
		case token.SUB:
			return tb.Sub(x, y)
		case token.MUL:
			return tb.bin(OpMul, x, y)
		case token.QUO, token.REM:
			e.require(st, tb.Not(tb.Eq(y, tb.Const(w, 0))), "integer divide by zero")
			switch {
			case op == token.QUO && signed:
				return tb.bin(OpSDiv, x, y)
			case op == token.QUO:
				return tb.bin(OpUDiv, x, y)
			case signed:
				return tb.bin(OpSRem, x, y)
			}
			return tb.bin(OpURem, x, y)
		case token.AND:
			return tb.bin(OpBAnd, x, y)
		case token.OR:
			return tb.bin(OpBOr, x, y)
		case token.XOR:
			return tb.bin(OpBXor, x, y)
		case token.AND_NOT:
			return tb.bin(OpBAnd, x, tb.bin(OpBXor, y, tb.Const(w, maskOf(w))))
		case token.SHL, token.SHR:
			yw, ys, _ := intInfo(yt)
			if ys {
				e.require(st, tb.Sle(tb.Const(yw, 0), y), "negative shift amount")
			}
			if yw > w {
				y = tb.Ite(tb.Ult(y, tb.Const(yw, uint64(w))), y, tb.Const(yw, uint64(w)))
				y = tb.Extract(y, 0, w)
			} else if yw < w {
				y = tb.ZExt(y, w)
			}
			switch {
			case op == token.SHL:
				return tb.bin(OpShl, x, y)
			case signed:
				return tb.bin(OpAShr, x, y)
			}
			return tb.bin(OpLShr, x, y)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			if op == token.GTR || op == token.GEQ {
				x, y = y, x
			}
			if op == token.LSS || op == token.GTR {
				if signed {
					return tb.Slt(x, y)
				}
				return tb.Ult(x, y)
			}
			if signed {
				return tb.Sle(x, y)
			}
			return tb.Ule(x, y)
		}
	}
	switch {
	case isBool(xt):
		x, y := e.term(st, a), e.term(st, b)
		switch op {
		case token.AND, token.LAND:
			return tb.And2(x, y)
		case token.OR, token.LOR:
			return tb.Or(x, y)
		}
	case isString(xt):
		switch op {
		case token.ADD:
			return e.strConcat(st, e.oneStr(st, a), e.oneStr(st, b))
		case token.LSS:
			return e.strLess(st, e.oneStr(st, a), e.oneStr(st, b))
		case token.GTR:
			return e.strLess(st, e.oneStr(st, b), e.oneStr(st, a))
		case token.LEQ:
			return tb.Not(e.strLess(st, e.oneStr(st, b), e.oneStr(st, a)))
		case token.GEQ:
			return tb.Not(e.strLess(st, e.oneStr(st, a), e.oneStr(st, b)))
		}
	case isFloat(xt):
		x, y := float64(e.one(st, a).(FloatV)), float64(e.one(st, b).(FloatV))
		r := 0.0
		switch op {
		case token.ADD:
			r = x + y
		case token.SUB:
			r = x - y
		case token.MUL:
			r = x * y
		case token.QUO:
			r = x / y
		case token.LSS:
			return tb.Bool(x < y)
		case token.LEQ:
			return tb.Bool(x <= y)
		case token.GTR:
			return tb.Bool(x > y)
		case token.GEQ:
			return tb.Bool(x >= y)
		}
		if xt.Underlying().(*types.Basic).Kind() == types.Float32 {
			r = float64(float32(r))
		}
		return FloatV(r)
	case isComplex(xt):
		x, y := complex128(e.one(st, a).(ComplexV)), complex128(e.one(st, b).(ComplexV))
		switch op {
		case token.ADD:
			return ComplexV(x + y)
		case token.SUB:
			return ComplexV(x - y)
		case token.MUL:
			return ComplexV(x * y)
		case token.QUO:
			return ComplexV(x / y)
		}
	}
	unsup("binop %s on %s", op, xt)
	return nil
}

// eqVals: equality of two values of static type t.
func (e *Engine) eqVals(st *State, t types.Type, a, b Value) *Term {
	tb := e.tb
	if ua, ok := a.(UnionV); ok {
		var r []*Term
		for _, x := range ua.alts {
			if e.truth(st, x.g) < 0 {
				continue
			}
			r = append(r, tb.And2(x.g, e.eqVals(st, t, x.v, b)))
		}
		return tb.OrFold(r)
	}
	if _, ok := b.(UnionV); ok {
		return e.eqVals(st, t, b, a)
	}
	switch x := a.(type) {
	case *Term:
		return tb.Eq(x, b.(*Term))
	case StrV:
		return e.strEq(st, x, b.(StrV))
	case FloatV:
		return tb.Bool(x == b.(FloatV))
	case ComplexV:
		return tb.Bool(x == b.(ComplexV))
	case Ptr:
		y, ok := b.(Ptr)
		if !ok {
			return tb.False
		}
		if x.obj != y.obj {
			return tb.False
		}
		return tb.Eq(x.off, y.off)
	case MapV:
		return tb.Bool(x.obj == b.(MapV).obj)
	case ChanV:
		return tb.Bool(x.obj == b.(ChanV).obj)
	case SliceV: // only against nil
		y := b.(SliceV)
		return tb.Bool(x.obj == 0 && y.obj == 0)
	case FuncV:
		y := b.(FuncV)
		nx, ny := x.fn == nil && x.bi == "", y.fn == nil && y.bi == ""
		return tb.Bool(nx && ny)
	case IfaceV:
		y, ok := b.(IfaceV)
		if !ok {
			unsup("interface compared with %T", b)
		}
		if x.t == nil || y.t == nil {
			return tb.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return tb.False
		}
		if !types.Comparable(x.t) && !e.isEngineType(x.t) {
			e.panicNow("comparing uncomparable type " + x.t.String())
		}
		return e.eqVals(st, x.t, x.v, y.v)
	case StructV:
		y := b.(StructV)
		s := t.Underlying().(*types.Struct)
		r := tb.True
		for i := range x {
			if s.Field(i).Name() == "_" {
				continue
			}
			r = tb.And2(r, e.eqVals(st, s.Field(i).Type(), x[i], y[i]))
		}
		return r
	case ArrayV:
		y := b.(ArrayV)
		el := t.Underlying().(*types.Array).Elem()
		r := tb.True
		for i := range x {
			r = tb.And2(r, e.eqVals(st, el, x[i], y[i]))
		}
		return r
	case RTypeV:
		y, ok := b.(RTypeV)
		return tb.Bool(ok && types.Identical(x.t, y.t))
	case OpaqueV:
		return tb.Bool(a == b)
	}
	unsup("comparison of %T", a)
	return nil
}

func (e *Engine) unop(st *State, f *Frame, x *ssa.UnOp) {
	set := func(v Value) {
		f.regs[f.fi.reg[x]] = v
		f.pc++
	}
	switch x.Op {
	case token.MUL:
		set(e.load(st, x.Type(), e.val(f, x.X)))
	case token.ARROW:
		e.chanRecv(st, f, x)
	case token.NOT:
		set(e.tb.Not(e.term(st, e.val(f, x.X))))
	case token.SUB:
		v := e.one(st, e.val(f, x.X))
		switch y := v.(type) {
		case *Term:
			set(e.tb.Sub(e.tb.Const(y.w, 0), y))
		case FloatV:
			set(-y)
		case ComplexV:
			set(-y)
		}
	case token.XOR:
		y := e.term(st, e.val(f, x.X))
		set(e.tb.bin(OpBXor, y, e.tb.Const(y.w, maskOf(y.w))))
	default:
		unsup("unop %s", x.Op)
	}
}

func (e *Engine) convert(st *State, in interface{}, from, to types.Type, v Value) Value {
	tb := e.tb
	fw, fs, fi := intInfo(from)
	tw, _, ti := intInfo(to)
	if fi && ti {
		x := e.term(st, v)
		switch {
		case tw == fw:
			return x
		case tw < fw:
			return tb.Extract(x, 0, tw)
		case fs:
			return tb.SExt(x, tw)
		}
		return tb.ZExt(x, tw)
	}
	switch {
	case isString(to):
		if fi {
			x := e.toInt64(from, e.term(st, v))
			return e.runesToStr(st, []*Term{tb.Ite(tb.And2(tb.Sle(tb.Int(0), x), tb.Sle(x, tb.Int(0x10ffff))), tb.Extract(x, 0, 32), tb.Const(32, 0xfffd))})
		}
		switch u := from.Underlying().(type) {
		case *types.Slice:
			if w, _, _ := intInfo(u.Elem()); w == 8 {
				if un, ok := v.(UnionV); ok {
					return e.mapUnion(st, un, func(x Value) Value { return e.bytesToStr(st, x.(SliceV)) })
				}
				return e.bytesToStr(st, v.(SliceV))
			}
			s := e.one(st, v).(SliceV)
			n := int(e.conc(st, tb.Sub(s.hi, s.lo)))
			var r []*Term
			for i := 0; i < n; i++ {
				r = append(r, e.term(st, e.loadAt(st, u.Elem(), s.obj, e.elemOff(s, tb.Add(s.lo, tb.Int(i))))))
			}
			return e.runesToStr(st, r)
		case *types.Basic:
			return v
		}
	case isString(from):
		if s, ok := to.Underlying().(*types.Slice); ok {
			if w, _, _ := intInfo(s.Elem()); w == 8 {
				return e.strToBytes(st, in, e.oneStr(st, v), s.Elem())
			}
			str := e.oneStr(st, v)
			if str.vec != nil {
				n := e.conc(st, e.strLen(str))
				var rs []*Term
				for i := uint64(0); i < n; {
					r, w := e.decodeRune(st, str, tb.Const(64, i))
					rs = append(rs, r)
					i += e.conc(st, w)
				}
				id := e.allocElems(st, in, s.Elem(), len(rs))
				o := st.wobj(id)
				for i, r := range rs {
					o.vec.set(st.tok, i, r)
				}
				k := tb.Int(len(rs))
				return SliceV{id, 0, 1, e.c0, k, k}
			}
			rs := []rune(str.s)
			id := e.allocElems(st, in, s.Elem(), len(rs))
			o := st.wobj(id)
			for i, r := range rs {
				o.vec.set(st.tok, i, tb.Const(32, uint64(r)))
			}
			n := tb.Int(len(rs))
			return SliceV{id, 0, 1, e.c0, n, n}
		}
	}
	if isFloat(to) {
		r := 0.0
		switch {
		case isFloat(from):
			r = float64(e.one(st, v).(FloatV))
		case fi:
			c := e.conc(st, e.term(st, v))
			if fs {
				r = float64(sx(c, fw))
			} else {
				r = float64(c)
			}
		default:
			unsup("convert %s to %s", from, to)
		}
		if to.Underlying().(*types.Basic).Kind() == types.Float32 {
			r = float64(float32(r))
		}
		return FloatV(r)
	}
	if isFloat(from) && ti {
		x := float64(e.one(st, v).(FloatV))
		_, ts, _ := intInfo(to)
		if ts {
			return tb.Const(tw, uint64(int64(x)))
		}
		return tb.Const(tw, uint64(x))
	}
	if isComplex(from) && isComplex(to) {
		return v
	}
	fb, _ := from.Underlying().(*types.Basic)
	tbs, _ := to.Underlying().(*types.Basic)
	_, fp := from.Underlying().(*types.Pointer)
	_, tp := to.Underlying().(*types.Pointer)
	if (fp || fb != nil && fb.Kind() == types.UnsafePointer) && (tp || tbs != nil && tbs.Kind() == types.UnsafePointer) {
		return v // representation checked at the access
	}
	if fb != nil && fb.Kind() == types.UnsafePointer && ti {
		p := e.one(st, v)
		if q, ok := p.(Ptr); ok {
			return tb.Add(tb.Const(64, uint64(q.obj)<<32), q.off)
		}
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	unsup("convert %s to %s", from, to)
	return nil
}

var _ = math.Pi

// ---- maps

func (e *Engine) keyEq(st *State, t types.Type, a, b Value) *Term {
	return e.eqVals(st, t, a, b)
}

func (e *Engine) hashable(st *State, k Value) {
	if i, ok := k.(IfaceV); ok && i.t != nil && !types.Comparable(i.t) {
		e.panicNow("hash of unhashable type " + i.t.String())
	}
}

func (e *Engine) mapFind(st *State, mv MapV, k Value) ([]mapEnt, []*Term) {
	o := st.obj(mv.obj)
	var es []mapEnt
	var gs []*Term
	kt := o.m.typ.Key()
	e.hashable(st, k)
	for _, x := range o.m.ents {
		q := e.keyEq(st, kt, x.k, k)
		if q.isFalse() {
			continue
		}
		g := e.tb.And2(x.g, q)
		if g.isFalse() || e.truth(st, g) < 0 {
			continue
		}
		es = append(es, x)
		gs = append(gs, g)
	}
	return es, gs
}

func (e *Engine) mapGet(st *State, mt *types.Map, mv MapV, k Value) (Value, *Term) {
	z := e.zero(mt.Elem())
	if mv.obj == 0 {
		e.hashable(st, k)
		return z, e.tb.False
	}
	if st.multi {
		e.access(st, mv.obj, e.c0, 1, false)
	}
	es, gs := e.mapFind(st, mv, k)
	if len(es) == 0 {
		return z, e.tb.False
	}
	found := e.tb.Or(gs...)
	if len(es) == 1 && gs[0].isTrue() {
		return es[0].v, e.tb.True
	}
	var acc Value = z
	for i := range es {
		acc = e.mergeVal(gs[i], es[i].v, acc)
	}
	return acc, found
}

func (e *Engine) lookup(st *State, f *Frame, x *ssa.Lookup) Value {
	mt, ok := x.X.Type().Underlying().(*types.Map)
	if !ok {
		idx := e.toInt64(x.Index.Type(), e.term(st, e.val(f, x.Index)))
		return e.strIndex(st, e.val(f, x.X), idx)
	}
	mv := e.one(st, e.val(f, x.X)).(MapV)
	v, found := e.mapGet(st, mt, mv, e.val(f, x.Index))
	if x.CommaOk {
		return TupleV{v, found}
	}
	return v
}

func (e *Engine) mapWrite(st *State, mv MapV, k, v Value) {
	if st.multi {
		e.access(st, mv.obj, e.c0, 1, true)
	}
	o0 := st.obj(mv.obj)
	e.hashable(st, k)
	kt := o0.m.typ.Key()
	var qs []*Term
	for _, x := range o0.m.ents {
		qs = append(qs, e.keyEq(st, kt, x.k, k))
	}
	o := st.wobj(mv.obj)
	none := e.tb.True
	for i, q := range qs {
		x := &o.m.ents[i]
		g := e.tb.And2(x.g, q)
		if q.isFalse() || g.isFalse() {
			continue
		}
		x.v = e.mergeVal(g, v, x.v)
		none = e.tb.And2(none, e.tb.Not(g))
	}
	if none.isFalse() || e.truth(st, none) < 0 {
		return
	}
	// reuse a dead entry with the same key
	for i := range o.m.ents {
		if qs[i].isTrue() && o.m.ents[i].g.isFalse() {
			o.m.ents[i] = mapEnt{k, v, none}
			return
		}
	}
	o.m.ents = append(o.m.ents, mapEnt{k, v, none})
}

func (e *Engine) mapDelete(st *State, mv MapV, k Value) {
	if mv.obj == 0 {
		return
	}
	if st.multi {
		e.access(st, mv.obj, e.c0, 1, true)
	}
	o0 := st.obj(mv.obj)
	kt := o0.m.typ.Key()
	var qs []*Term
	for _, x := range o0.m.ents {
		qs = append(qs, e.keyEq(st, kt, x.k, k))
	}
	o := st.wobj(mv.obj)
	out := o.m.ents[:0]
	for i, x := range o.m.ents {
		x.g = e.tb.And2(x.g, e.tb.Not(qs[i]))
		if !x.g.isFalse() {
			out = append(out, x)
		}
	}
	o.m.ents = out
}

func (e *Engine) mapLen(st *State, mv MapV) *Term {
	if mv.obj == 0 {
		return e.c0
	}
	n := e.c0
	for _, x := range st.obj(mv.obj).m.ents {
		n = e.tb.Add(n, e.tb.Ite(x.g, e.tb.Int(1), e.c0))
	}
	return n
}

func (e *Engine) rangeInit(st *State, v Value) Value {
	switch x := v.(type) {
	case StrV:
		return IterV{str: x, pos: e.c0, isStr: true}
	case MapV:
		it := IterV{pos: e.c0, obj: x.obj}
		if x.obj != 0 {
			if st.multi {
				e.access(st, x.obj, e.c0, 1, false)
			}
			it.ents = append([]mapEnt(nil), st.obj(x.obj).m.ents...)
		}
		return it
	}
	unsup("range over %T", v)
	return nil
}

func (e *Engine) next(st *State, f *Frame, x *ssa.Next) {
	tb := e.tb
	ireg := f.fi.reg[x.Iter]
	it := e.one(st, f.regs[ireg]).(IterV)
	if it.isStr {
		n := e.strLen(it.str)
		done := tb.Not(tb.Slt(it.pos, n))
		if e.concBool(st, done) {
			f.regs[f.fi.reg[x]] = TupleV{tb.False, e.c0, tb.Const(32, 0)}
			f.pc++
			return
		}
		r, sz := e.decodeRune(st, it.str, it.pos)
		old := it.pos
		it.pos = tb.Add(it.pos, sz)
		f.regs[ireg] = it
		f.regs[f.fi.reg[x]] = TupleV{tb.True, old, r}
		f.pc++
		return
	}
	tt := x.Type().(*types.Tuple)
	chosen := 0
	done := func() {
		if chosen > 0 {
			n := map[string]int{"maporder": chosen}
			for k, v := range st.cnt {
				n[k] += v
			}
			st.cnt = n
			st.addLog(lgSched, "map order", nil) // natively this takes several runs
		}
	}
	for {
		if len(it.ents) == 0 {
			done()
			f.regs[f.fi.reg[x]] = TupleV{tb.False, e.zeroOrNil(tt.At(1).Type()), e.zeroOrNil(tt.At(2).Type())}
			f.regs[ireg] = it
			f.pc++
			return
		}
		// drop entries known to be absent or deleted meanwhile
		pick := 0
		if len(it.ents) > 1 && len(it.ents) <= 4 && !st.quiet {
			ch := e.tb.Var(8, fmt.Sprintf("maporder#%d/%d", st.cnt["maporder"]+chosen, len(it.ents)), 0, uint64(len(it.ents)-1))
			pick = int(e.conc(st, ch))
			chosen++
		}
		en := it.ents[pick]
		// current presence and value
		g, v := tb.False, en.v
		for _, cur := range st.obj(it.obj).m.ents {
			if e.sameVal(cur.k, en.k) {
				g, v = cur.g, cur.v
				break
			}
		}
		rest := append(append([]mapEnt(nil), it.ents[:pick]...), it.ents[pick+1:]...)
		switch {
		case g.isFalse() || e.truth(st, g) < 0:
			it.ents = rest
			continue
		case e.truth(st, g) == 0:
			panic(splitSig{guards: []*Term{g, tb.Not(g)}})
		}
		done()
		it.ents = rest
		f.regs[ireg] = it
		f.regs[f.fi.reg[x]] = TupleV{tb.True, en.k, v}
		f.pc++
		return
	}
}

func (e *Engine) zeroOrNil(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return e.tb.False
	}
	return e.zero(t)
}

// choice: a symbolic choice variable 0..n-1, named by how often this kind of choice was made on the path.
func (e *Engine) choice(st *State, kind string, n int) *Term {
	return e.tb.Var(8, fmt.Sprintf("%s#%d/%d", kind, st.cnt[kind], n), 0, uint64(n-1))
}

func (e *Engine) choiceDone(st *State, kind string) {
	if st.cnt == nil {
		st.cnt = map[string]int{}
	}
	st.cnt[kind]++
}

// ---- type assertions

func (e *Engine) typeAssert(st *State, f *Frame, x *ssa.TypeAssert) {
	v := e.one(st, e.val(f, x.X))
	i, ok := v.(IfaceV)
	if !ok {
		panic(engineErr(fmt.Sprintf("typeassert of %T", v)))
	}
	okk := false
	var res Value
	if i.t != nil {
		if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			okk = e.implements(i.t, it)
			res = i
		} else {
			okk = types.Identical(i.t, x.AssertedType)
			res = i.v
		}
	}
	if x.CommaOk {
		if !okk {
			res = e.zero(x.AssertedType)
		}
		f.regs[f.fi.reg[x]] = TupleV{res, e.tb.Bool(okk)}
		f.pc++
		return
	}
	if !okk {
		e.panicNow("interface conversion: not " + x.AssertedType.String())
	}
	f.regs[f.fi.reg[x]] = res
	f.pc++
}

func (e *Engine) implements(t types.Type, it *types.Interface) bool {
	if e.isEngineType(t) {
		return true
	}
	return types.Implements(t, it)
}

// runesToStr: the UTF-8 text of the runes; the widths are told apart.
func (e *Engine) runesToStr(st *State, rs []*Term) StrV {
	tb := e.tb
	c := func(v uint64) *Term { return tb.Const(32, v) }
	konst := true
	var text []rune
	var bytes []*Term
	for _, r := range rs {
		if r.isConst() {
			text = append(text, rune(int32(r.val)))
		} else {
			konst = false
		}
		bad := tb.Or(tb.Ult(c(0x10ffff), r), tb.And2(tb.Ule(c(0xd800), r), tb.Ule(r, c(0xdfff))))
		r = tb.Ite(bad, c(0xfffd), r)
		w := tb.Ite(tb.Ult(r, c(0x80)), tb.Int(1), tb.Ite(tb.Ult(r, c(0x800)), tb.Int(2), tb.Ite(tb.Ult(r, c(0x10000)), tb.Int(3), tb.Int(4))))
		n := int(e.conc(st, w))
		if n == 1 {
			bytes = append(bytes, tb.Extract(r, 0, 8))
			continue
		}
		lead := []uint64{0, 0, 0xc0, 0xe0, 0xf0}[n]
		for i := 0; i < n; i++ {
			x := tb.bin(OpLShr, r, c(uint64(6*(n-1-i))))
			if i == 0 {
				x = tb.bin(OpBOr, x, c(lead))
			} else {
				x = tb.bin(OpBOr, tb.bin(OpBAnd, x, c(0x3f)), c(0x80))
			}
			bytes = append(bytes, tb.Extract(x, 0, 8))
		}
	}
	if konst {
		return StrV{s: string(text)}
	}
	v := newVec(len(bytes), tb.Const(8, 0))
	for i, b := range bytes {
		v.set(st.tok, i, b)
	}
	return StrV{vec: v, off: e.c0, end: tb.Int(len(bytes))}
}
