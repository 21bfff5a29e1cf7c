package main

import (
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Model of package reflect: a reflect.Value is its real struct with the first field holding
// a ReflV; a reflect.Type is an interface value holding an RTypeV.

func (e *Engine) rtypePtr() types.Type {
	if e.rtypeT == nil {
		e.rtypeT = types.NewPointer(e.L.pkgOf["reflect"].Pkg.Scope().Lookup("rtype").Type())
		e.rlitT = e.L.pkgOf["internal/reflectlite"].Pkg.Scope().Lookup("rtype").Type()
	}
	return e.rtypeT
}

func (e *Engine) isEngineType(t types.Type) bool {
	if e.rtypeT == nil {
		e.rtypePtr()
	}
	return types.Identical(t, e.rtypeT) || types.Identical(t, e.rlitT)
}

func (e *Engine) mkType(t types.Type) Value {
	if t == nil {
		return IfaceV{}
	}
	return IfaceV{e.rtypePtr(), RTypeV{t}}
}

func (e *Engine) mkVal(r ReflV) Value {
	s := e.zero(e.L.pkgOf["reflect"].Pkg.Scope().Lookup("Value").Type()).(StructV)
	s[0] = r
	return s
}

func (e *Engine) refl(st *State, v Value) ReflV {
	v = e.one(st, v)
	s, ok := v.(StructV)
	if !ok {
		unsup("reflect.Value %T", v)
	}
	switch r := e.one(st, s[0]).(type) {
	case ReflV:
		return r
	}
	return ReflV{}
}

// get: the value a ReflV stands for.
func (e *Engine) rget(st *State, r ReflV) Value {
	if r.addr != nil {
		return e.load(st, r.t, *r.addr)
	}
	return r.v
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return reflect.Bool
		case types.Int, types.UntypedInt:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32, types.UntypedRune:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64, types.UntypedFloat:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String, types.UntypedString:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Ptr
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Chan:
		return reflect.Chan
	case *types.Struct:
		return reflect.Struct
	case *types.Interface:
		return reflect.Interface
	case *types.Signature:
		return reflect.Func
	}
	return reflect.Invalid
}

func typString(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// mkErr builds a *reflect.ValueError panic.
func (e *Engine) valueError(st *State, c *callCtx, method string, k reflect.Kind) {
	t := e.L.pkgOf["reflect"].Pkg.Scope().Lookup("ValueError").Type()
	id := e.newObjID(st, c.key())
	o := &Obj{owner: st.tok, kind: KCells, typ: t, vec: newVec(2, nil)}
	o.vec.set(st.tok, 0, StrV{s: method})
	o.vec.set(st.tok, 1, e.tb.Int(int(k)))
	st.heap.put(st.tok, id, o)
	panic(goPanic{IfaceV{types.NewPointer(t), Ptr{id, e.c0}}})
}

func (e *Engine) strPanic(msg string) {
	panic(goPanic{IfaceV{types.Typ[types.String], StrV{s: msg}}})
}

// goPanic makes the current instruction panic with a Go value.
type goPanic struct{ v Value }

func (e *Engine) typeArg(st *State, v Value) types.Type {
	v = e.one(st, v)
	if i, ok := v.(IfaceV); ok {
		if i.t == nil {
			return nil
		}
		v = e.one(st, i.v)
	}
	r, ok := v.(RTypeV)
	if !ok {
		unsup("reflect.Type %T", v)
	}
	return r.t
}

func (e *Engine) structField(st *State, c *callCtx, s *types.Struct, i int) Value {
	sft := e.L.pkgOf["reflect"].Pkg.Scope().Lookup("StructField").Type()
	sf := e.zero(sft).(StructV)
	us := sft.Underlying().(*types.Struct)
	f := s.Field(i)
	for k := 0; k < us.NumFields(); k++ {
		switch us.Field(k).Name() {
		case "Name":
			sf[k] = StrV{s: f.Name()}
		case "PkgPath":
			if !f.Exported() && f.Pkg() != nil {
				sf[k] = StrV{s: f.Pkg().Path()}
			}
		case "Type":
			sf[k] = e.mkType(f.Type())
		case "Tag":
			sf[k] = StrV{s: s.Tag(i)}
		case "Anonymous":
			sf[k] = e.tb.Bool(f.Embedded())
		case "Offset":
			sf[k] = OpaqueV{"field offset"}
		}
	}
	return sf
}

// engineMethod: methods of reflect.Type.
func (e *Engine) engineMethod(st *State, c *callCtx, name string) Value {
	i := strings.LastIndex(name, ".")
	m := name[i+1:]
	t := e.typeArg(st, c.args[0])
	badKind := func(what string) {
		e.strPanic("reflect: " + what + " of invalid type " + typString(t))
	}
	switch m {
	case "Kind":
		return e.tb.Int(int(kindOf(t)))
	case "String":
		return StrV{s: typString(t)}
	case "Name":
		if n, ok := t.(*types.Named); ok {
			return StrV{s: n.Obj().Name()}
		}
		if b, ok := t.(*types.Basic); ok {
			return StrV{s: b.Name()}
		}
		return StrV{}
	case "PkgPath":
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return StrV{s: n.Obj().Pkg().Path()}
		}
		return StrV{}
	case "Elem":
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return e.mkType(u.Elem())
		case *types.Slice:
			return e.mkType(u.Elem())
		case *types.Array:
			return e.mkType(u.Elem())
		case *types.Map:
			return e.mkType(u.Elem())
		case *types.Chan:
			return e.mkType(u.Elem())
		}
		badKind("Elem")
	case "Key":
		if u, ok := t.Underlying().(*types.Map); ok {
			return e.mkType(u.Key())
		}
		badKind("Key")
	case "Len":
		if u, ok := t.Underlying().(*types.Array); ok {
			return e.tb.Int(int(u.Len()))
		}
		badKind("Len")
	case "NumField":
		if u, ok := t.Underlying().(*types.Struct); ok {
			return e.tb.Int(u.NumFields())
		}
		badKind("NumField")
	case "Field":
		u, ok := t.Underlying().(*types.Struct)
		if !ok {
			badKind("Field")
		}
		i := int(e.conc(st, e.term(st, c.args[1])))
		if i < 0 || i >= u.NumFields() {
			e.strPanic("reflect: Field index out of bounds")
		}
		return e.structField(st, c, u, i)
	case "NumMethod":
		ms := e.prog.MethodSets.MethodSet(t)
		if it, ok := t.Underlying().(*types.Interface); ok {
			return e.tb.Int(it.NumMethods())
		}
		k := 0
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Exported() {
				k++
			}
		}
		return e.tb.Int(k)
	case "Implements":
		u := e.typeArg(st, c.args[1])
		if u == nil {
			e.strPanic("reflect: nil type passed to Type.Implements")
		}
		it, ok := u.Underlying().(*types.Interface)
		if !ok {
			e.strPanic("reflect: non-interface type passed to Type.Implements")
		}
		return e.tb.Bool(types.Implements(t, it))
	case "AssignableTo":
		return e.tb.Bool(types.AssignableTo(t, e.typeArg(st, c.args[1])))
	case "ConvertibleTo":
		return e.tb.Bool(types.ConvertibleTo(t, e.typeArg(st, c.args[1])))
	case "Comparable":
		return e.tb.Bool(types.Comparable(t))
	case "Size":
		return e.tb.Int(int(e.L.sizes.Sizeof(t)))
	case "common", "Common":
		unsup("reflect.Type.%s", m)
	}
	unsup("reflect.Type.%s", m)
	return nil
}

func (e *Engine) ifaceOf(st *State, t types.Type, v Value) Value {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v
	}
	return IfaceV{t, v}
}

func initReflect(n map[string]nativeFn) {
	typeOf := func(e *Engine, st *State, c *callCtx) (Value, bool) {
		i, ok := e.one(st, c.args[0]).(IfaceV)
		if !ok {
			unsup("TypeOf")
		}
		return e.mkType(i.t), true
	}
	n["reflect.TypeOf"] = typeOf
	n["internal/reflectlite.TypeOf"] = typeOf
	n["internal/reflectlite.Swapper"] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
		i := e.one(st, c.args[0]).(IfaceV)
		t := i.t.Underlying().(*types.Slice).Elem()
		return FuncV{bi: "engine:swapper", rv: []Value{e.one(st, i.v), RTypeV{t}}}, true
	}
	n["internal/reflectlite.ValueOf"] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
		unsup("reflectlite.ValueOf")
		return nil, true
	}
	ptrTo := func(e *Engine, st *State, c *callCtx) (Value, bool) {
		return e.mkType(types.NewPointer(e.typeArg(st, c.args[0]))), true
	}
	n["reflect.PtrTo"] = ptrTo
	n["reflect.PointerTo"] = ptrTo
	n["reflect.SliceOf"] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
		return e.mkType(types.NewSlice(e.typeArg(st, c.args[0]))), true
	}
	n["reflect.ValueOf"] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
		i, ok := e.one(st, c.args[0]).(IfaceV)
		if !ok {
			unsup("ValueOf")
		}
		if i.t == nil {
			return e.mkVal(ReflV{}), true
		}
		return e.mkVal(ReflV{t: i.t, v: i.v}), true
	}
	n["reflect.Zero"] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
		t := e.typeArg(st, c.args[0])
		return e.mkVal(ReflV{t: t, v: e.zero(t)}), true
	}
	n["reflect.New"] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
		t := e.typeArg(st, c.args[0])
		id := e.allocType(st, c.key(), t)
		return e.mkVal(ReflV{t: types.NewPointer(t), v: Ptr{id, e.c0}}), true
	}
	n["reflect.Indirect"] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
		r := e.refl(st, c.args[0])
		if r.t == nil || kindOf(r.t) != reflect.Ptr {
			return c.args[0], true
		}
		return e.relem(st, c, r), true
	}
	m := func(name string, f func(e *Engine, st *State, c *callCtx, r ReflV) Value) {
		n["(reflect.Value)."+name] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
			return f(e, st, c, e.refl(st, c.args[0])), true
		}
	}
	kind := func(r ReflV) reflect.Kind {
		if r.t == nil {
			return reflect.Invalid
		}
		return kindOf(r.t)
	}
	m("Kind", func(e *Engine, st *State, c *callCtx, r ReflV) Value { return e.tb.Int(int(kind(r))) })
	m("IsValid", func(e *Engine, st *State, c *callCtx, r ReflV) Value { return e.tb.Bool(r.t != nil) })
	m("Type", func(e *Engine, st *State, c *callCtx, r ReflV) Value {
		if r.t == nil {
			e.valueError(st, c, "reflect.Value.Type", reflect.Invalid)
		}
		return e.mkType(r.t)
	})
	m("CanInterface", func(e *Engine, st *State, c *callCtx, r ReflV) Value {
		if r.t == nil {
			e.valueError(st, c, "reflect.Value.CanInterface", reflect.Invalid)
		}
		return e.tb.Bool(!r.ro)
	})
	m("CanAddr", func(e *Engine, st *State, c *callCtx, r ReflV) Value { return e.tb.Bool(r.addr != nil) })
	m("CanSet", func(e *Engine, st *State, c *callCtx, r ReflV) Value { return e.tb.Bool(r.addr != nil && !r.ro) })
	m("Addr", func(e *Engine, st *State, c *callCtx, r ReflV) Value {
		if r.addr == nil {
			e.strPanic("reflect.Value.Addr of unaddressable value")
		}
		return e.mkVal(ReflV{t: types.NewPointer(r.t), v: *r.addr, ro: r.ro})
	})
	m("Interface", func(e *Engine, st *State, c *callCtx, r ReflV) Value {
		if r.t == nil {
			e.valueError(st, c, "reflect.Value.Interface", reflect.Invalid)
		}
		if r.ro {
			e.strPanic("reflect.Value.Interface: cannot return value obtained from unexported field or method")
		}
		return e.ifaceOf(st, r.t, e.rget(st, r))
	})
	m("IsNil", func(e *Engine, st *State, c *callCtx, r ReflV) Value {
		switch kind(r) {
		case reflect.Ptr, reflect.UnsafePointer, reflect.Map, reflect.Chan, reflect.Slice, reflect.Func, reflect.Interface:
			return e.isNil(st, e.rget(st, r))
		}
		e.valueError(st, c, "reflect.Value.IsNil", kind(r))
		return nil
	})
	m("IsZero", func(e *Engine, st *State, c *callCtx, r ReflV) Value {
		if r.t == nil {
			e.valueError(st, c, "reflect.Value.IsZero", reflect.Invalid)
		}
		switch kind(r) {
		case reflect.Ptr, reflect.UnsafePointer, reflect.Map, reflect.Chan, reflect.Slice, reflect.Func, reflect.Interface:
			return e.isNil(st, e.rget(st, r))
		case reflect.String:
			return e.tb.Eq(e.strLen(e.toStr(st, e.rget(st, r))), e.c0)
		}
		return e.eqVals(st, r.t, e.rget(st, r), e.zero(r.t))
	})
	m("Elem", func(e *Engine, st *State, c *callCtx, r ReflV) Value { return e.relem(st, c, r) })
	m("Len", func(e *Engine, st *State, c *callCtx, r ReflV) Value {
		switch kind(r) {
		case reflect.Slice, reflect.String, reflect.Map, reflect.Chan:
			return e.lenOf(st, e.one(st, e.rget(st, r)))
		case reflect.Array:
			return e.tb.Int(int(r.t.Underlying().(*types.Array).Len()))
		case reflect.Ptr:
			if a, ok := r.t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
				return e.tb.Int(int(a.Len()))
			}
		}
		e.valueError(st, c, "reflect.Value.Len", kind(r))
		return nil
	})
	m("NumField", func(e *Engine, st *State, c *callCtx, r ReflV) Value {
		if kind(r) != reflect.Struct {
			e.valueError(st, c, "reflect.Value.NumField", kind(r))
		}
		return e.tb.Int(r.t.Underlying().(*types.Struct).NumFields())
	})
	m("NumMethod", func(e *Engine, st *State, c *callCtx, r ReflV) Value {
		return e.engineMethod(st, &callCtx{args: []Value{e.mkType(r.t)}}, ".NumMethod")
	})
	m("Field", func(e *Engine, st *State, c *callCtx, r ReflV) Value {
		if kind(r) != reflect.Struct {
			e.valueError(st, c, "reflect.Value.Field", kind(r))
		}
		s := r.t.Underlying().(*types.Struct)
		i := int(e.conc(st, e.term(st, c.args[1])))
		if i < 0 || i >= s.NumFields() {
			e.strPanic("reflect: Field index out of range")
		}
		out := ReflV{t: s.Field(i).Type(), ro: r.ro || !s.Field(i).Exported()}
		if r.addr != nil {
			p := Ptr{r.addr.obj, e.tb.Add(r.addr.off, e.tb.Int(e.fieldOff(s, i)))}
			out.addr = &p
		} else {
			out.v = e.one(st, r.v).(StructV)[i]
		}
		return e.mkVal(out)
	})
	m("Index", func(e *Engine, st *State, c *callCtx, r ReflV) Value {
		idx := e.term(st, c.args[1])
		switch kind(r) {
		case reflect.Slice:
			s := e.one(st, e.rget(st, r)).(SliceV)
			ok := e.inRange(idx, e.tb.Sub(s.hi, s.lo))
			if !e.concBool(st, ok) {
				e.strPanic("reflect: slice index out of range")
			}
			p := Ptr{s.obj, e.elemOff(s, e.tb.Add(s.lo, idx))}
			return e.mkVal(ReflV{t: r.t.Underlying().(*types.Slice).Elem(), addr: &p, ro: r.ro})
		case reflect.Array:
			a := r.t.Underlying().(*types.Array)
			i := int(e.conc(st, idx))
			if i < 0 || i >= int(a.Len()) {
				e.strPanic("reflect: array index out of range")
			}
			if r.addr != nil {
				p := Ptr{r.addr.obj, e.tb.Add(r.addr.off, e.tb.Int(i*e.size(a.Elem())))}
				return e.mkVal(ReflV{t: a.Elem(), addr: &p, ro: r.ro})
			}
			return e.mkVal(ReflV{t: a.Elem(), v: e.one(st, r.v).(ArrayV)[i], ro: r.ro})
		case reflect.String:
			return e.mkVal(ReflV{t: types.Typ[types.Uint8], v: e.strIndex(st, e.rget(st, r), idx), ro: r.ro})
		}
		e.valueError(st, c, "reflect.Value.Index", kind(r))
		return nil
	})
	m("String", func(e *Engine, st *State, c *callCtx, r ReflV) Value {
		switch kind(r) {
		case reflect.String:
			return e.rget(st, r)
		case reflect.Invalid:
			return StrV{s: "<invalid Value>"}
		}
		return StrV{s: "<" + typString(r.t) + " Value>"}
	})
	m("Bool", func(e *Engine, st *State, c *callCtx, r ReflV) Value {
		if kind(r) != reflect.Bool {
			e.valueError(st, c, "reflect.Value.Bool", kind(r))
		}
		return e.rget(st, r)
	})
	m("Int", func(e *Engine, st *State, c *callCtx, r ReflV) Value {
		w, signed, ok := uint8(0), false, false
		if r.t != nil {
			w, signed, ok = intInfo(r.t)
		}
		if !ok || !signed {
			e.valueError(st, c, "reflect.Value.Int", kind(r))
		}
		t := e.term(st, e.rget(st, r))
		if w < 64 {
			t = e.tb.SExt(t, 64)
		}
		return t
	})
	m("Uint", func(e *Engine, st *State, c *callCtx, r ReflV) Value {
		w, signed, ok := uint8(0), false, false
		if r.t != nil {
			w, signed, ok = intInfo(r.t)
		}
		if !ok || signed {
			e.valueError(st, c, "reflect.Value.Uint", kind(r))
		}
		t := e.term(st, e.rget(st, r))
		if w < 64 {
			t = e.tb.ZExt(t, 64)
		}
		return t
	})
	m("Float", func(e *Engine, st *State, c *callCtx, r ReflV) Value {
		if k := kind(r); k != reflect.Float32 && k != reflect.Float64 {
			e.valueError(st, c, "reflect.Value.Float", kind(r))
		}
		return e.rget(st, r)
	})
	m("Complex", func(e *Engine, st *State, c *callCtx, r ReflV) Value { return e.rget(st, r) })
	m("Bytes", func(e *Engine, st *State, c *callCtx, r ReflV) Value { return e.rget(st, r) })
	m("MapKeys", func(e *Engine, st *State, c *callCtx, r ReflV) Value {
		if kind(r) != reflect.Map {
			e.valueError(st, c, "reflect.Value.MapKeys", kind(r))
		}
		mt := r.t.Underlying().(*types.Map)
		mv := e.one(st, e.rget(st, r)).(MapV)
		var ents []mapEnt
		if mv.obj != 0 {
			ents = st.obj(mv.obj).m.ents
		}
		// entries that may be absent are decided one way or the other
		var keys []Value
		for _, en := range ents {
			if e.concBool(st, en.g) {
				keys = append(keys, e.mkVal(ReflV{t: mt.Key(), v: en.k, ro: r.ro}))
			}
		}
		// the order of the keys is arbitrary: reversed or not
		if len(keys) > 1 {
			ch := e.pick(st, "mapkeys", 2)
			e.choiceDone(st, "mapkeys")
			if ch == 1 {
				for i, j := 0, len(keys)-1; i < j; i, j = i+1, j-1 {
					keys[i], keys[j] = keys[j], keys[i]
				}
			}
		}
		vt := e.L.pkgOf["reflect"].Pkg.Scope().Lookup("Value").Type()
		id := e.allocElems(st, c.key(), vt, len(keys))
		o := st.wobj(id)
		es := e.size(vt)
		for i, k := range keys {
			for j, cell := range e.flat(vt, k, nil) {
				o.vec.set(st.tok, i*es+j, cell)
			}
		}
		ln := e.tb.Int(len(keys))
		return SliceV{id, 0, int32(es), e.c0, ln, ln}
	})
	m("MapIndex", func(e *Engine, st *State, c *callCtx, r ReflV) Value {
		if kind(r) != reflect.Map {
			e.valueError(st, c, "reflect.Value.MapIndex", kind(r))
		}
		mt := r.t.Underlying().(*types.Map)
		k := e.refl(st, c.args[1])
		v, ok := e.mapGet(st, mt, e.one(st, e.rget(st, r)).(MapV), e.rget(st, k))
		if !e.concBool(st, ok) {
			return e.mkVal(ReflV{})
		}
		return e.mkVal(ReflV{t: mt.Elem(), v: v, ro: r.ro || k.ro})
	})
	m("Pointer", func(e *Engine, st *State, c *callCtx, r ReflV) Value {
		unsup("reflect.Value.Pointer")
		return nil
	})
	m("CanInt", func(e *Engine, st *State, c *callCtx, r ReflV) Value {
		k := kind(r)
		return e.tb.Bool(k >= reflect.Int && k <= reflect.Int64)
	})
	m("CanUint", func(e *Engine, st *State, c *callCtx, r ReflV) Value {
		k := kind(r)
		return e.tb.Bool(k >= reflect.Uint && k <= reflect.Uintptr)
	})
	m("CanFloat", func(e *Engine, st *State, c *callCtx, r ReflV) Value {
		k := kind(r)
		return e.tb.Bool(k == reflect.Float32 || k == reflect.Float64)
	})
	set := func(name string) {
		n["(reflect.Value)."+name] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
			r := e.refl(st, c.args[0])
			if r.addr == nil || r.ro {
				e.strPanic("reflect: reflect.Value." + name + " using unaddressable value")
			}
			v := c.args[1]
			if name == "Set" {
				v = e.rget(st, e.refl(st, v))
			}
			e.store(st, r.t, *r.addr, v)
			return voidV, true
		}
	}
	for _, s := range []string{"Set", "SetString", "SetBool", "SetFloat"} {
		set(s)
	}
}

func (e *Engine) isNil(st *State, v Value) *Term {
	v = e.one(st, v)
	switch x := v.(type) {
	case Ptr:
		return e.tb.Bool(x.obj == 0)
	case SliceV:
		return e.tb.Bool(x.obj == 0)
	case MapV:
		return e.tb.Bool(x.obj == 0)
	case ChanV:
		return e.tb.Bool(x.obj == 0)
	case IfaceV:
		return e.tb.Bool(x.t == nil)
	case FuncV:
		return e.tb.Bool(x.fn == nil && x.bi == "")
	}
	unsup("IsNil of %T", v)
	return nil
}

func (e *Engine) relem(st *State, c *callCtx, r ReflV) Value {
	if r.t != nil {
		switch u := r.t.Underlying().(type) {
		case *types.Interface:
			i := e.one(st, e.rget(st, r)).(IfaceV)
			if i.t == nil {
				return e.mkVal(ReflV{})
			}
			return e.mkVal(ReflV{t: i.t, v: i.v, ro: r.ro})
		case *types.Pointer:
			p := e.one(st, e.rget(st, r)).(Ptr)
			if p.obj == 0 {
				return e.mkVal(ReflV{})
			}
			return e.mkVal(ReflV{t: u.Elem(), addr: &p, ro: r.ro})
		}
		e.valueError(st, c, "reflect.Value.Elem", kindOf(r.t))
	}
	e.valueError(st, c, "reflect.Value.Elem", reflect.Invalid)
	return nil
}

var _ = (*ssa.Function)(nil)
