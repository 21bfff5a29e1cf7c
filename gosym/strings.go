package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) strLen(s StrV) *Term {
	if s.vec == nil {
		return e.tb.Int(len(s.s))
	}
	return e.tb.Sub(s.end, s.off)
}

// strMax: upper bound of the length.
func (e *Engine) strMax(s StrV) int {
	if s.vec == nil {
		return len(s.s)
	}
	l := e.strLen(s)
	m := int(min(l.hi, uint64(s.vec.n)))
	// end bounded by the vector, off from below
	if hi := int(min(s.end.hi, uint64(s.vec.n))) - int(min(s.off.lo, uint64(s.vec.n))); hi < m {
		m = hi
	}
	return m
}

// strCell: byte i (concrete) of the string; only meaningful when i < len.
func (e *Engine) strCell(s StrV, i int) *Term {
	if s.vec == nil {
		if i >= len(s.s) {
			return e.tb.Const(8, 0)
		}
		return e.tb.Const(8, uint64(s.s[i]))
	}
	return e.vecByte(s.vec, e.tb.Add(s.off, e.tb.Int(i)))
}

// vecByte: cell at a possibly symbolic position (0 when outside).
func (e *Engine) vecByte(v *Vec, pos *Term) *Term {
	if pos.isConst() {
		if int64(pos.val) < 0 || pos.val >= uint64(v.n) {
			return e.tb.Const(8, 0)
		}
		return v.get(int(pos.val)).(*Term)
	}
	vs := e.tb.ToVS(pos, maxVS)
	var ents []vsEnt
	if vs != nil {
		ents = e.tb.entries(vs)
	} else {
		if v.n > maxVS*4 {
			if os.Getenv("GOSYM_POS") != "" {
				fmt.Fprintf(os.Stderr, "position %v\n", pos)
			}
			unsup("symbolic position in %d bytes", v.n)
		}
		for i := 0; i < v.n; i++ {
			ents = append(ents, vsEnt{uint64(i), e.tb.Eq(pos, e.tb.Int(i))})
		}
	}
	var in []vsEnt
	for _, x := range ents {
		if x.c < uint64(v.n) && !x.g.isFalse() {
			in = append(in, x)
		}
	}
	if len(in) == 0 {
		return e.tb.Const(8, 0)
	}
	return e.muxBytes(in, func(c int) *Term { return v.get(c).(*Term) })
}

func (e *Engine) muxBytes(cand []vsEnt, get func(c int) *Term) *Term {
	type grp struct {
		v  *Term
		gs []*Term
	}
	var groups []*grp
	by := map[*Term]*grp{}
	for _, c := range cand {
		t := get(int(c.c))
		if g := by[t]; g != nil {
			g.gs = append(g.gs, c.g)
			continue
		}
		g := &grp{t, []*Term{c.g}}
		by[t] = g
		groups = append(groups, g)
	}
	acc := groups[len(groups)-1].v
	for i := len(groups) - 2; i >= 0; i-- {
		acc = e.tb.Ite(e.tb.Or(groups[i].gs...), groups[i].v, acc)
	}
	return acc
}

// strConst: the concrete value if the string is known.
func (e *Engine) strConst(s StrV) (string, bool) {
	if s.vec == nil {
		return s.s, true
	}
	if !s.off.isConst() || !s.end.isConst() {
		return "", false
	}
	var b strings.Builder
	for i := s.off.val; i < s.end.val; i++ {
		c := s.vec.get(int(i)).(*Term)
		if !c.isConst() {
			return "", false
		}
		b.WriteByte(byte(c.val))
	}
	return b.String(), true
}

func (e *Engine) norm(s StrV) StrV {
	if s.vec == nil {
		return s
	}
	if c, ok := e.strConst(s); ok {
		return StrV{s: c}
	}
	return s
}

func (e *Engine) strIndex(st *State, v Value, idx *Term) Value {
	if u, ok := v.(UnionV); ok {
		okAll := e.tb.True
		for _, a := range u.alts {
			if e.truth(st, a.g) >= 0 {
				okAll = e.tb.And2(okAll, e.tb.Implies(a.g, e.inRange(idx, e.strLen(a.v.(StrV)))))
			}
		}
		e.require(st, okAll, "index out of range")
		return e.mapUnion(st, u, func(v Value) Value { return e.strAt(v.(StrV), idx) })
	}
	s := v.(StrV)
	e.require(st, e.inRange(idx, e.strLen(s)), "index out of range")
	return e.strAt(s, idx)
}

func (e *Engine) strAt(s StrV, idx *Term) *Term {
	if s.vec == nil {
		if idx.isConst() {
			if idx.val < uint64(len(s.s)) {
				return e.tb.Const(8, uint64(s.s[idx.val]))
			}
			return e.tb.Const(8, 0)
		}
		if len(s.s) == 0 {
			return e.tb.Const(8, 0)
		}
		return e.vecByte(e.strVec(s.s), idx)
	}
	return e.vecByte(s.vec, e.tb.Add(s.off, idx))
}

func (e *Engine) strVec(s string) *Vec {
	v := newVec(len(s), e.tb.Const(8, 0))
	tok := new(otok)
	for i := 0; i < len(s); i++ {
		v.set(tok, i, e.tb.Const(8, uint64(s[i])))
	}
	return v
}

func (e *Engine) asVec(s StrV) StrV {
	if s.vec != nil {
		return s
	}
	return StrV{vec: e.strVec(s.s), off: e.c0, end: e.tb.Int(len(s.s))}
}

func (e *Engine) strSlice(st *State, v Value, lo, hi *Term) Value {
	s := e.oneStr(st, v)
	n := e.strLen(s)
	if hi == nil {
		hi = n
	}
	e.require(st, e.tb.Ule(hi, n), "slice bounds out of range")
	e.require(st, e.tb.Ule(lo, hi), "slice bounds out of range")
	return e.substr(s, lo, hi)
}

func (e *Engine) substr(s StrV, lo, hi *Term) StrV {
	if s.vec == nil && lo.isConst() && hi.isConst() {
		return StrV{s: s.s[lo.val:hi.val]}
	}
	s = e.asVec(s)
	return e.norm(StrV{vec: s.vec, off: e.tb.Add(s.off, lo), end: e.tb.Add(s.off, hi)})
}

func (e *Engine) strConcat(st *State, a, b StrV) StrV {
	if a.vec == nil && b.vec == nil {
		return StrV{s: a.s + b.s}
	}
	ma, mb := e.strMax(a), e.strMax(b)
	if mb == 0 {
		return a
	}
	if ma == 0 {
		return b
	}
	la, lb := e.strLen(a), e.strLen(b)
	if !la.isConst() && e.tb.ToVS(la, maxVS) == nil {
		la = e.tb.Int(int(e.conc(st, la)))
	}
	v := newVec(ma+mb, e.tb.Const(8, 0))
	tok := new(otok)
	for i := 0; i < ma; i++ {
		v.set(tok, i, e.strCell(a, i))
	}
	e.placeBytes(v, tok, la, lb, mb, func(k int) *Term { return e.strCell(b, k) })
	return e.norm(StrV{vec: v, off: e.c0, end: e.tb.Add(la, lb)})
}

// placeBytes writes get(0..n-1) (k < n, k < maxn) at position start (possibly symbolic) of a vector.
func (e *Engine) placeBytes(v *Vec, tok *otok, start, n *Term, maxn int, get func(k int) *Term) {
	tb := e.tb
	if start.isConst() {
		s := int(start.val)
		for k := 0; k < maxn && s+k < v.n; k++ {
			g := tb.Ult(tb.Int(k), n)
			if g.isFalse() {
				break
			}
			v.set(tok, s+k, tb.Ite(g, get(k), v.get(s+k).(*Term)))
		}
		return
	}
	vs := tb.ToVS(start, maxVS)
	if vs == nil {
		unsup("write at an unbounded position")
	}
	ents := tb.entries(vs)
	vals := make([]*Term, maxn)
	for k := range vals {
		vals[k] = get(k)
	}
	inn := make([]*Term, maxn)
	for k := range inn {
		inn[k] = tb.Ult(tb.Int(k), n)
	}
	lo, hi := v.n, -1
	for _, x := range ents {
		if x.c >= uint64(v.n) {
			continue
		}
		lo = min(lo, int(x.c))
		hi = max(hi, min(v.n, int(x.c)+maxn)-1)
	}
	for j := lo; j <= hi; j++ {
		old := v.get(j).(*Term)
		// group starts by the value they put here
		type grp struct {
			v  *Term
			gs []*Term
		}
		var groups []*grp
		by := map[*Term]*grp{}
		for _, x := range ents {
			k := j - int(x.c)
			if k < 0 || k >= maxn || x.c >= uint64(v.n) {
				continue
			}
			g := tb.And2(x.g, inn[k])
			if g.isFalse() || vals[k] == old {
				continue
			}
			if q := by[vals[k]]; q != nil {
				q.gs = append(q.gs, g)
				continue
			}
			q := &grp{vals[k], []*Term{g}}
			by[vals[k]] = q
			groups = append(groups, q)
		}
		acc := old
		for _, q := range groups {
			acc = tb.Ite(tb.Or(q.gs...), q.v, acc)
		}
		if acc != old {
			v.set(tok, j, acc)
		}
	}
}

func (e *Engine) strEq(st *State, a, b StrV) *Term {
	tb := e.tb
	if a.vec == nil && b.vec == nil {
		return tb.Bool(a.s == b.s)
	}
	if a == b {
		return tb.True
	}
	la, lb := e.strLen(a), e.strLen(b)
	r := tb.Eq(la, lb)
	if r.isFalse() {
		return r
	}
	n := min(e.strMax(a), e.strMax(b))
	cs := []*Term{r}
	for i := 0; i < n; i++ {
		in := tb.And2(tb.Ult(tb.Int(i), la), tb.Ult(tb.Int(i), lb))
		if in.isFalse() {
			break
		}
		// under equal lengths one bound is enough
		g := tb.Ult(tb.Int(i), la)
		if b.vec == nil || lb.isConst() {
			g = tb.Ult(tb.Int(i), lb)
		}
		q := tb.Eq(e.strCell(a, i), e.strCell(b, i))
		c := tb.Implies(g, q)
		if c.isFalse() {
			return c
		}
		cs = append(cs, c)
	}
	return tb.And(cs...)
}

func (e *Engine) strLess(st *State, a, b StrV) *Term {
	tb := e.tb
	if a.vec == nil && b.vec == nil {
		return tb.Bool(a.s < b.s)
	}
	la, lb := e.strLen(a), e.strLen(b)
	n := max(e.strMax(a), e.strMax(b))
	// from the last position backwards
	res := tb.False
	for i := n; i >= 0; i-- {
		ia, ib := tb.Ult(tb.Int(i), la), tb.Ult(tb.Int(i), lb)
		ca, cb := e.strCell(a, i), e.strCell(b, i)
		both := tb.And2(ia, ib)
		lt := tb.Or(tb.Ult(ca, cb), tb.And2(tb.Eq(ca, cb), res))
		// a ended: less iff b continues
		res = tb.IteB(both, lt, tb.And2(tb.Not(ia), ib))
	}
	return res
}

// snapshotVec shares the cells of an object; later writes copy.
func (e *Engine) snapshotVec(st *State, obj int32) *Vec {
	o := st.obj(obj)
	v := o.vec.clone()
	st.tok = new(otok)
	return v
}

func (e *Engine) bytesToStr(st *State, s SliceV) StrV {
	if s.obj == 0 {
		return StrV{}
	}
	if s.esz != 1 {
		unsup("string of wide elements")
	}
	n := e.tb.Sub(s.hi, s.lo)
	if n.isConst() && n.val == 0 {
		return StrV{}
	}
	o := st.obj(s.obj)
	if o.kind != KCells {
		unsup("bytes of object kind")
	}
	if st.multi {
		e.accessRange(st, s, e.maxOf(st, n), n, false)
	}
	base := e.tb.Int(int(s.base))
	w := StrV{vec: o.vec, off: e.tb.Add(base, s.lo), end: e.tb.Add(base, s.hi)}
	if c, ok := e.strConst(w); ok {
		return StrV{s: c}
	}
	if s.lo.isConst() && o.vec.n > 4096 {
		// copy the possible window only
		m := e.maxOf(st, n)
		v := newVec(m, e.tb.Const(8, 0))
		tok := new(otok)
		for i := 0; i < m; i++ {
			v.set(tok, i, o.vec.get(int(s.base)+int(s.lo.val)+i))
		}
		return StrV{vec: v, off: e.c0, end: n}
	}
	w.vec = e.snapshotVec(st, s.obj)
	return w
}

func (e *Engine) strToBytes(st *State, in interface{}, s StrV, elem types.Type) Value {
	if s.vec == nil {
		id := e.allocElems(st, in, elem, max(roundupsize(len(s.s)), 0))
		o := st.wobj(id)
		for i := 0; i < len(s.s); i++ {
			o.vec.set(st.tok, i, e.tb.Const(8, uint64(s.s[i])))
		}
		n := e.tb.Int(len(s.s))
		return SliceV{id, 0, 1, e.c0, n, e.tb.Int(max(roundupsize(len(s.s)), len(s.s)))}
	}
	m := e.strMax(s)
	n := e.strLen(s)
	id := e.allocElems(st, in, elem, roundupsize(m))
	o := st.wobj(id)
	e.placeBytes(o.vec, st.tok, e.c0, n, m, func(k int) *Term { return e.strCell(s, k) })
	return SliceV{id, 0, 1, e.c0, n, e.capFor(n, m)}
}

// capFor: capacity Go gives to a fresh byte array holding n bytes.
func (e *Engine) capFor(n *Term, m int) *Term {
	if n.isConst() {
		return e.tb.Int(roundupsize(int(n.val)))
	}
	if vs := e.tb.ToVS(n, maxVS); vs != nil {
		return e.tb.vsMap(vs, 64, func(a uint64) uint64 { return uint64(roundupsize(int(a))) })
	}
	// not tracked exactly: the length itself
	return n
}

// ---- utf8

// decodeRune: rune and width at pos (pos < len).
func (e *Engine) decodeRune(st *State, s StrV, pos *Term) (*Term, *Term) {
	tb := e.tb
	n := e.strLen(s)
	var c [4]*Term
	for i := range c {
		c[i] = e.strAtOr0(s, tb.Add(pos, tb.Int(i)), n)
	}
	return e.utf8Dec(c, func(i int) *Term { return tb.Slt(tb.Add(pos, tb.Int(i)), n) })
}

func (e *Engine) strAtOr0(s StrV, idx, n *Term) *Term {
	tb := e.tb
	in := tb.Ult(idx, n)
	if in.isFalse() {
		return tb.Const(8, 0)
	}
	return tb.Ite(in, e.strAt(s, idx), tb.Const(8, 0))
}

func (e *Engine) utf8Dec(c [4]*Term, in func(i int) *Term) (*Term, *Term) {
	tb := e.tb
	b8 := func(v int) *Term { return tb.Const(8, uint64(v)) }
	between := func(x *Term, lo, hi int) *Term { return tb.And2(tb.Ule(b8(lo), x), tb.Ule(x, b8(hi))) }
	ascii := tb.Ult(c[0], b8(0x80))
	one, rerr := tb.Int(1), tb.Const(32, 0xfffd)
	z := func(x *Term) *Term { return tb.ZExt(x, 32) }
	if ascii.isTrue() {
		return z(c[0]), one
	}
	k := func(x *Term) *Term { return z(tb.bin(OpBAnd, x, b8(0x3f))) }
	shl := func(x *Term, n int) *Term { return tb.bin(OpShl, x, tb.Const(32, uint64(n))) }
	or := func(x, y *Term) *Term { return tb.bin(OpBOr, x, y) }
	cont := func(i int) *Term { return between(c[i], 0x80, 0xbf) }
	two := tb.And(between(c[0], 0xc2, 0xdf), in(1), cont(1))
	lo3 := tb.And(tb.Implies(tb.Eq(c[0], b8(0xe0)), tb.Ule(b8(0xa0), c[1])), tb.Implies(tb.Eq(c[0], b8(0xed)), tb.Ule(c[1], b8(0x9f))))
	three := tb.And(between(c[0], 0xe0, 0xef), in(2), cont(1), cont(2), lo3)
	lo4 := tb.And(tb.Implies(tb.Eq(c[0], b8(0xf0)), tb.Ule(b8(0x90), c[1])), tb.Implies(tb.Eq(c[0], b8(0xf4)), tb.Ule(c[1], b8(0x8f))))
	four := tb.And(between(c[0], 0xf0, 0xf4), in(3), cont(1), cont(2), cont(3), lo4)
	r2 := or(shl(z(tb.bin(OpBAnd, c[0], b8(0x1f))), 6), k(c[1]))
	r3 := or(or(shl(z(tb.bin(OpBAnd, c[0], b8(0x0f))), 12), shl(k(c[1]), 6)), k(c[2]))
	r4 := or(or(or(shl(z(tb.bin(OpBAnd, c[0], b8(0x07))), 18), shl(k(c[1]), 12)), shl(k(c[2]), 6)), k(c[3]))
	r := tb.Ite(ascii, z(c[0]), tb.Ite(two, r2, tb.Ite(three, r3, tb.Ite(four, r4, rerr))))
	w := tb.Ite(ascii, one, tb.Ite(two, tb.Int(2), tb.Ite(three, tb.Int(3), tb.Ite(four, tb.Int(4), one))))
	return r, w
}

// ---- builtins

func (e *Engine) builtin(st *State, f *Frame, c *callCtx) Value {
	tb := e.tb
	switch c.name {
	case "len":
		return e.lenOf(st, c.args[0])
	case "cap":
		return e.capOf(st, c.args[0])
	case "append":
		return e.appendOp(st, f, c)
	case "copy":
		return e.copyOp(st, c)
	case "delete":
		e.mapDelete(st, e.one(st, c.args[0]).(MapV), c.args[1])
		return TupleV{}
	case "panic":
		e.startPanic(st, c.args[0])
		return noResult
	case "recover":
		return e.recoverOp(st)
	case "print", "println":
		return TupleV{}
	case "close":
		return e.chanClose(st, c.args[0])
	case "min", "max":
		acc := c.args[0]
		if _, ok := acc.(*Term); !ok {
			if fa, ok := acc.(FloatV); ok {
				for _, a := range c.args[1:] {
					if c.name == "min" {
						fa = min(fa, a.(FloatV))
					} else {
						fa = max(fa, a.(FloatV))
					}
				}
				return fa
			}
			unsup("%s of %T", c.name, acc)
		}
		_, signed, _ := intInfo(c.sig.Params().At(0).Type())
		r := e.term(st, acc)
		for _, a := range c.args[1:] {
			y := e.term(st, a)
			var lt *Term
			if signed {
				lt = tb.Slt(y, r)
			} else {
				lt = tb.Ult(y, r)
			}
			if c.name == "max" {
				if signed {
					lt = tb.Slt(r, y)
				} else {
					lt = tb.Ult(r, y)
				}
			}
			r = tb.Ite(lt, y, r)
		}
		return r
	case "clear":
		switch x := e.one(st, c.args[0]).(type) {
		case MapV:
			if x.obj != 0 {
				st.wobj(x.obj).m.ents = nil
			}
		case SliceV:
			el := c.sig.Params().At(0).Type().Underlying().(*types.Slice).Elem()
			n := int(e.conc(st, tb.Sub(x.hi, x.lo)))
			for i := 0; i < n; i++ {
				e.storeAt(st, el, x.obj, e.elemOff(x, tb.Add(x.lo, tb.Int(i))), e.zero(el))
			}
		}
		return TupleV{}
	case "ssa:wrapnilchk":
		p := e.one(st, c.args[0])
		if q, ok := p.(Ptr); ok && q.obj == 0 {
			e.panicNow("value method called using nil pointer")
		}
		return p
	case "String": // unsafe.String
		p := e.one(st, c.args[0]).(Ptr)
		n := e.term(st, c.args[1])
		if p.obj == 0 {
			return StrV{}
		}
		return e.bytesToStr(st, SliceV{p.obj, 0, 1, p.off, tb.Add(p.off, n), tb.Add(p.off, n)})
	case "Slice":
		p := e.one(st, c.args[0]).(Ptr)
		n := e.toInt64(c.sig.Params().At(1).Type(), e.term(st, c.args[1]))
		el := c.sig.Params().At(0).Type().Underlying().(*types.Pointer).Elem()
		es := e.size(el)
		if p.obj == 0 {
			return e.nilSlice(el)
		}
		base := e.conc(st, p.off)
		return SliceV{p.obj, int32(base), int32(es), e.c0, n, n}
	case "SliceData":
		s := e.one(st, c.args[0]).(SliceV)
		return Ptr{s.obj, e.elemOff(s, s.lo)}
	case "StringData":
		s := e.oneStr(st, c.args[0])
		return e.strData(st, s)
	case "Add":
		p := e.one(st, c.args[0]).(Ptr)
		return Ptr{p.obj, tb.Add(p.off, e.term(st, c.args[1]))}
	case "real":
		return FloatV(real(complex128(e.one(st, c.args[0]).(ComplexV))))
	case "imag":
		return FloatV(imag(complex128(e.one(st, c.args[0]).(ComplexV))))
	case "complex":
		return ComplexV(complex(float64(e.one(st, c.args[0]).(FloatV)), float64(e.one(st, c.args[1]).(FloatV))))
	}
	unsup("builtin %s", c.name)
	return nil
}

// strData: a pointer to (a copy of) the bytes of a string.
func (e *Engine) strData(st *State, s StrV) Ptr {
	s = e.asVec(s)
	id := e.newObjID(st, "strdata")
	st.heap.put(st.tok, id, &Obj{owner: st.tok, kind: KCells, vec: s.vec.clone(), typ: types.Typ[types.Uint8]})
	return Ptr{id, s.off}
}

func (e *Engine) lenOf(st *State, v Value) Value {
	switch x := v.(type) {
	case UnionV:
		return e.mapUnion(st, x, func(v Value) Value { return e.lenOf(st, v) })
	case StrV:
		return e.strLen(x)
	case SliceV:
		return e.tb.Sub(x.hi, x.lo)
	case MapV:
		return e.mapLen(st, x)
	case ChanV:
		if x.obj == 0 {
			return e.c0
		}
		return e.tb.Int(len(st.obj(x.obj).ch.buf))
	case ArrayV:
		return e.tb.Int(len(x))
	case Ptr:
		unsup("len of pointer to array")
	}
	unsup("len of %T", v)
	return nil
}

func (e *Engine) capOf(st *State, v Value) Value {
	switch x := v.(type) {
	case UnionV:
		return e.mapUnion(st, x, func(v Value) Value { return e.capOf(st, v) })
	case SliceV:
		return e.tb.Sub(x.max, x.lo)
	case ChanV:
		if x.obj == 0 {
			return e.c0
		}
		return e.tb.Int(st.obj(x.obj).ch.cap)
	}
	unsup("cap of %T", v)
	return nil
}

func (e *Engine) recoverOp(st *State) Value {
	g := st.g()
	n := len(g.frames)
	if n < 2 || len(g.panics) == 0 {
		return IfaceV{}
	}
	f := g.frames[n-1]
	p := g.frames[n-2]
	if !f.isDefer || !p.unwind || p.recov {
		return IfaceV{}
	}
	v := g.panics[len(g.panics)-1]
	g.panics = g.panics[:len(g.panics)-1]
	if p.owner != st.tok {
		c := *p
		c.owner = st.tok
		c.regs = append([]Value(nil), p.regs...)
		c.defers = append([]deferred(nil), p.defers...)
		g.frames[n-2] = &c
		p = &c
	}
	p.recov = true
	return v
}

// sources of cells for copy and append
type cellSrc struct {
	n    *Term
	maxn int
	get  func(k int) Value // flattened cell k (k = element*esz + part)
}

func (e *Engine) source(st *State, v Value, esz int) cellSrc {
	switch x := e.one(st, v).(type) {
	case StrV:
		return cellSrc{e.strLen(x), e.strMax(x), func(k int) Value { return e.strCell(x, k) }}
	case SliceV:
		n := e.tb.Sub(x.hi, x.lo)
		if x.obj == 0 {
			return cellSrc{e.c0, 0, nil}
		}
		m := e.maxOf(st, n)
		if x.lo.isConst() {
			o := st.obj(x.obj)
			if c := (o.vec.n-int(x.base))/max(esz, 1) - int(x.lo.val); c < m {
				m = c
			}
		}
		if st.multi {
			e.accessRange(st, x, m, n, false)
		}
		o := st.obj(x.obj)
		vec := o.vec
		if x.lo.isConst() {
			b := int(x.base) + int(x.lo.val)*esz
			return cellSrc{n, m, func(k int) Value { return vec.get(b + k) }}
		}
		return cellSrc{n, m, func(k int) Value {
			off := e.tb.Add(e.elemOff(x, x.lo), e.tb.Int(k))
			if esz == 1 && x.base == 0 {
				if _, ok := vec.zero.(*Term); ok {
					return e.vecCell(st, vec, off)
				}
			}
			return e.muxVals(st, inSlice(vec, x, e.offsets(st, off, vec.n)), func(c int) Value { return vec.get(c) })
		}}
	}
	unsup("copy source %T", v)
	return cellSrc{}
}

// inSlice leaves out the positions of an object that cannot belong to the slice x, which may be an array inside a struct.
func inSlice(vec *Vec, x SliceV, c []vsEnt) []vsEnt {
	if x.base == 0 && x.esz == 1 && !x.max.isConst() {
		return c
	}
	var r []vsEnt
	first, isTerm := vec.get(int(x.base)).(*Term)
	for _, p := range c {
		if int64(p.c) < int64(x.base) || x.max.isConst() && int64(p.c) >= int64(x.base)+int64(x.max.val)*int64(x.esz) {
			continue
		}
		if t, ok := vec.get(int(p.c)).(*Term); x.esz == 1 && (ok != isTerm || ok && t.w != first.w) {
			continue
		}
		r = append(r, p)
	}
	if len(r) == 0 {
		return c
	}
	return r
}

func (e *Engine) vecCell(st *State, vec *Vec, off *Term) Value {
	if vs := e.tb.ToVS(off, maxVS); vs != nil {
		any := false
		for _, x := range e.tb.entries(vs) {
			if x.c < uint64(vec.n) {
				any = true
			}
		}
		if !any {
			return vec.zero
		}
	}
	c := e.offsets(st, off, vec.n)
	if len(c) == 0 {
		return vec.zero
	}
	return e.muxVals(st, c, func(c int) Value { return vec.get(c) })
}

// write n elements of src to the object at element position start
func (e *Engine) writeCells(st *State, dst SliceV, start *Term, src cellSrc) {
	if src.maxn == 0 {
		return
	}
	tb := e.tb
	esz := int(dst.esz)
	if esz == 0 {
		return
	}
	if st.multi {
		e.accessRange(st, SliceV{dst.obj, dst.base, dst.esz, start, tb.Add(start, src.n), dst.max}, src.maxn, src.n, true)
	}
	// read everything first (source and destination may overlap)
	vals := make([]Value, src.maxn*esz)
	for k := range vals {
		vals[k] = src.get(k)
	}
	if start.isConst() {
		o0 := st.obj(dst.obj)
		b := int(dst.base) + int(start.val)*esz
		type w struct {
			i int
			v Value
		}
		ws := make([]w, 0, len(vals))
		for k := range vals {
			g := tb.Ult(tb.Int(k/esz), src.n)
			if g.isFalse() {
				break
			}
			if b+k >= o0.vec.n {
				break
			}
			if g.isTrue() {
				ws = append(ws, w{b + k, vals[k]})
			} else {
				ws = append(ws, w{b + k, e.mergeVal(g, vals[k], o0.vec.get(b+k))})
			}
		}
		o := st.wobj(dst.obj)
		for _, x := range ws {
			o.vec.set(st.tok, x.i, x.v)
		}
		return
	}
	if esz == 1 && tb.ToVS(start, maxVS) != nil {
		allT := true
		for _, v := range vals {
			if t, ok := v.(*Term); !ok || t.w == 0 {
				allT = false
			}
		}
		if allT {
			o := st.wobj(dst.obj)
			e.placeBytes(o.vec, st.tok, tb.Add(start, tb.Int(int(dst.base))), src.n, src.maxn, func(k int) *Term { return vals[k].(*Term) })
			return
		}
	}
	p := e.conc(st, start)
	e.writeCells(st, dst, tb.Const(64, p), cellSrc{src.n, src.maxn, func(k int) Value { return vals[k] }})
}

func (e *Engine) copyOp(st *State, c *callCtx) Value {
	tb := e.tb
	d := e.one(st, c.args[0]).(SliceV)
	src := e.source(st, c.args[1], int(d.esz))
	dn := tb.Sub(d.hi, d.lo)
	n := tb.Ite(tb.Ult(src.n, dn), src.n, dn)
	if d.obj == 0 || src.maxn == 0 {
		return tb.Int(0)
	}
	m := src.maxn
	if dn.hi < uint64(m) {
		m = int(dn.hi)
	}
	e.writeCells(st, d, d.lo, cellSrc{n, m, src.get})
	return n
}

func (e *Engine) appendOp(st *State, f *Frame, c *callCtx) Value {
	tb := e.tb
	var elem types.Type
	if s, ok := c.sig.Params().At(0).Type().Underlying().(*types.Slice); ok {
		elem = s.Elem()
	} else {
		unsup("append to %s", c.sig.Params().At(0).Type())
	}
	esz := e.size(elem)
	s := e.one(st, c.args[0]).(SliceV)
	src := e.source(st, c.args[1], esz)
	oldLen := tb.Sub(s.hi, s.lo)
	if src.maxn == 0 || src.n.isConst() && src.n.val == 0 {
		return s
	}
	newLen := tb.Add(oldLen, src.n)
	if s.obj == 0 {
		// a nil slice stays nil when nothing is added
		if !src.n.isConst() && !e.concBool(st, tb.Ult(e.c0, src.n)) {
			return s
		}
	}
	cp := tb.Sub(s.max, s.lo)
	fits := tb.Ule(newLen, cp)
	if s.obj != 0 && e.concBool(st, fits) {
		e.writeCells(st, s, s.hi, src)
		return SliceV{s.obj, s.base, s.esz, s.lo, tb.Add(s.hi, src.n), s.max}
	}
	// grow
	eb := int(e.L.sizes.Sizeof(elem))
	var newCap *Term
	oldM := e.maxOf(st, oldLen)
	m := oldM + src.maxn
	capMax := 0
	if newLen.isConst() && cp.isConst() {
		newCap = tb.Int(growCap(int(newLen.val), int(cp.val), eb))
		capMax = int(newCap.val)
	} else {
		vl := tb.ToVS(newLen, maxVS)
		vc := tb.ToVS(cp, maxVS)
		if vl == nil || vc == nil {
			nl := e.conc(st, newLen)
			oc := e.conc(st, cp)
			newCap = tb.Int(growCap(int(nl), int(oc), eb))
			capMax = int(newCap.val)
		} else {
			r := tb.vsBin(vl, vc, 64, func(a, c uint64) uint64 { return uint64(growCap(int(a), int(c), eb)) })
			if r == nil {
				nl := e.conc(st, newLen)
				r = tb.Int(growCap(int(nl), int(e.conc(st, cp)), eb))
			}
			newCap = r
			capMax = int(r.hi)
		}
	}
	if capMax < m {
		m = capMax
	}
	if capMax > 1<<22 {
		unsup("append grows to %d", capMax)
	}
	var key interface{} = c.instr
	if c.instr == nil {
		key = "append"
	}
	old := e.source(st, s, esz)
	id := e.allocElems(st, key, elem, capMax)
	ns := SliceV{id, 0, int32(esz), e.c0, newLen, newCap}
	if s.obj != 0 {
		e.writeCells(st, ns, e.c0, old)
	}
	e.writeCells(st, ns, oldLen, src)
	return ns
}

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(n int) int {
	if n <= 32768 {
		for _, c := range sizeClasses {
			if c >= n {
				return c
			}
		}
	}
	return (n + 8191) / 8192 * 8192
}

func growCap(newLen, oldCap, esz int) int {
	nc := oldCap
	dbl := nc + nc
	if newLen > dbl {
		nc = newLen
	} else if oldCap < 256 {
		nc = dbl
	} else {
		for nc < newLen {
			nc += (nc + 3*256) / 4
		}
	}
	if esz == 0 {
		return newLen
	}
	return roundupsize(nc*esz) / esz
}

var _ = fmt.Sprint
var _ ssa.Value

// ---- unions of strings

const (
	unionStrMax = 12 // larger unions of strings become one symbolic string
	splitStrMax = 4  // operations split over at most this many alternatives
)

// foldStr turns alternatives that are all strings into one symbolic string.
func (e *Engine) foldStr(alts []Alt) (StrV, bool) {
	n := 0
	for _, a := range alts {
		s, ok := a.v.(StrV)
		if !ok || s.vec != nil && !s.off.isConst() {
			return StrV{}, false
		}
		n = max(n, e.strMax(s))
	}
	if n > 400 {
		return StrV{}, false
	}
	if n == 0 {
		return StrV{}, true
	}
	tb := e.tb
	v := newVec(n, tb.Const(8, 0))
	tok := new(otok)
	for i := 0; i < n; i++ {
		var consts []vsEnt
		type alt struct {
			g *Term
			t *Term
		}
		var syms []alt
		for _, a := range alts {
			s := a.v.(StrV)
			if i >= e.strMax(s) {
				continue
			}
			c := e.strCell(s, i)
			if c.isConst() {
				consts = append(consts, vsEnt{c.val, a.g})
				continue
			}
			syms = append(syms, alt{a.g, c})
		}
		var acc *Term
		if len(consts) > 0 {
			acc = tb.mkVS(8, consts)
		}
		for _, s := range syms {
			if acc == nil {
				acc = s.t
			} else {
				acc = tb.Ite(s.g, s.t, acc)
			}
		}
		v.set(tok, i, acc)
	}
	var lens []vsEnt
	var end *Term
	for _, a := range alts {
		l := e.strLen(a.v.(StrV))
		if l.isConst() {
			lens = append(lens, vsEnt{l.val, a.g})
		}
	}
	if len(lens) > 0 {
		end = tb.mkVS(64, lens)
	}
	for _, a := range alts {
		l := e.strLen(a.v.(StrV))
		if l.isConst() {
			continue
		}
		if end == nil {
			end = l
		} else {
			end = tb.Ite(a.g, l, end)
		}
	}
	return StrV{vec: v, off: e.c0, end: end}, true
}

// oneStr resolves a value to one string, symbolic if there are many alternatives.
func (e *Engine) oneStr(st *State, v Value) StrV {
	u, ok := v.(UnionV)
	if !ok {
		return v.(StrV)
	}
	var live []Alt
	for _, a := range u.alts {
		switch e.truth(st, a.g) {
		case 1:
			return a.v.(StrV)
		case -1:
		default:
			live = append(live, a)
		}
	}
	if len(live) > splitStrMax {
		if s, ok := e.foldStr(live); ok {
			return s
		}
	}
	return e.one(st, v).(StrV)
}
