package main

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strings"
)

// Terms: hash-consed boolean / bit-vector expressions with local simplification.
// Boolean structure is kept as n-ary And + Not. Integers with a small set of possible
// constants are kept as value sets (OpVS): one guard per constant (one-hot).

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpVS
	OpNot
	OpAnd
	OpEq
	OpUlt
	OpSlt
	OpIte
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpShl
	OpLShr
	OpAShr
	OpZExt
	OpSExt
	OpExtract
	OpUMulHi
)

type Term struct {
	op     Op
	w      uint8 // 0 = bool
	id     int32
	val    uint64 // const value; extract: low bit
	lo, hi uint64 // unsigned bounds (bit-vectors)
	args   []*Term
	consts []uint64 // VS
	name   string
	nneg   *Term // cached negation
	vars   int   // size hint
}

func (t *Term) isConst() bool { return t.op == OpConst }
func (t *Term) isTrue() bool  { return t.op == OpConst && t.w == 0 && t.val == 1 }
func (t *Term) isFalse() bool { return t.op == OpConst && t.w == 0 && t.val == 0 }

const maxVS = 520

type tkey struct {
	op      Op
	w       uint8
	a, b, c int32
	val     uint64
}

type TB struct {
	terms  []*Term
	tab    map[tkey]*Term
	ntab   map[string]*Term
	True   *Term
	False  *Term
	vars   []*Term
	varTab map[string]*Term
	evVal  []uint64
	evGen  []uint32
	gen    uint32
}

func newTB() *TB {
	b := &TB{tab: map[tkey]*Term{}, ntab: map[string]*Term{}, varTab: map[string]*Term{}}
	b.False = b.mk(&Term{op: OpConst, w: 0, val: 0}, tkey{op: OpConst, w: 0, val: 0})
	b.True = b.mk(&Term{op: OpConst, w: 0, val: 1}, tkey{op: OpConst, w: 0, val: 1})
	return b
}

func (b *TB) mk(t *Term, k tkey) *Term {
	if x, ok := b.tab[k]; ok {
		return x
	}
	t.id = int32(len(b.terms))
	b.terms = append(b.terms, t)
	b.tab[k] = t
	return t
}

func maskOf(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func (b *TB) Const(w uint8, v uint64) *Term {
	v &= maskOf(w)
	if w == 0 {
		if v&1 == 1 {
			return b.True
		}
		return b.False
	}
	k := tkey{op: OpConst, w: w, val: v}
	if x, ok := b.tab[k]; ok {
		return x
	}
	return b.mk(&Term{op: OpConst, w: w, val: v, lo: v, hi: v}, k)
}
func (b *TB) Int(v int) *Term { return b.Const(64, uint64(int64(v))) }
func (b *TB) Bool(v bool) *Term {
	if v {
		return b.True
	}
	return b.False
}

func (b *TB) Var(w uint8, name string, lo, hi uint64) *Term {
	if t, ok := b.varTab[name]; ok {
		if t.w != w {
			panic("var width clash " + name)
		}
		return t
	}
	t := &Term{op: OpVar, w: w, name: name, lo: lo, hi: hi}
	t.id = int32(len(b.terms))
	b.terms = append(b.terms, t)
	b.vars = append(b.vars, t)
	b.varTab[name] = t
	return t
}

// ---- booleans

func (b *TB) Not(x *Term) *Term {
	if x.op == OpConst {
		return b.Bool(x.val == 0)
	}
	if x.op == OpNot {
		return x.args[0]
	}
	if x.nneg != nil {
		return x.nneg
	}
	t := b.mk(&Term{op: OpNot, args: []*Term{x}}, tkey{op: OpNot, a: x.id})
	x.nneg = t
	t.nneg = x
	return t
}

const andFlat = 14

func (b *TB) And2(x, y *Term) *Term {
	if x == y {
		return x
	}
	if x.isFalse() || y.isFalse() {
		return b.False
	}
	if x.isTrue() {
		return y
	}
	if y.isTrue() {
		return x
	}
	return b.And(x, y)
}

func addAnd(out []*Term, x *Term, budget int) []*Term {
	if x.op == OpAnd && len(x.args) <= budget {
		return append(out, x.args...)
	}
	return append(out, x)
}

func (b *TB) And(xs ...*Term) *Term {
	args := make([]*Term, 0, len(xs)+4)
	for _, x := range xs {
		if x.isFalse() {
			return b.False
		}
		if x.isTrue() {
			continue
		}
		args = addAnd(args, x, andFlat)
	}
	return b.andArgs(args)
}

func (b *TB) andArgs(args []*Term) *Term {
	if len(args) == 0 {
		return b.True
	}
	if len(args) == 1 {
		return args[0]
	}
	sort.Slice(args, func(i, j int) bool { return args[i].id < args[j].id })
	o := args[:0]
	var prev *Term
	for _, a := range args {
		if a == prev {
			continue
		}
		if a.isFalse() {
			return b.False
		}
		if a.isTrue() {
			continue
		}
		prev = a
		o = append(o, a)
	}
	args = o
	has := func(t *Term) bool {
		i := sort.Search(len(args), func(i int) bool { return args[i].id >= t.id })
		return i < len(args) && args[i] == t
	}
	// contradictions
	changed := false
	for _, a := range args {
		if a.op == OpNot {
			if has(a.args[0]) {
				return b.False
			}
		}
	}
	// equalities with constants
	for i, a := range args {
		if a.op == OpEq && a.args[1].op == OpConst {
			for j, c := range args {
				if j == i {
					continue
				}
				d, neg := c, false
				if d.op == OpNot {
					d, neg = d.args[0], true
				}
				if d.op == OpEq && d.args[0] == a.args[0] && d.args[1].op == OpConst && d != a {
					if !neg {
						return b.False
					}
					args[j] = b.True // implied
					changed = true
				} else if (d.op == OpUlt || d.op == OpSlt) && (d.args[0] == a.args[0] && d.args[1].op == OpConst || d.args[1] == a.args[0] && d.args[0].op == OpConst) {
					x, y := d.args[0], d.args[1]
					if x == a.args[0] {
						x = a.args[1]
					} else {
						y = a.args[1]
					}
					var r bool
					if d.op == OpUlt {
						r = x.val < y.val
					} else {
						r = sx(x.val, x.w) < sx(y.val, y.w)
					}
					if r == neg {
						return b.False
					}
					args[j] = b.True
					changed = true
				}
			}
		}
	}
	if changed {
		return b.andArgs(append([]*Term(nil), args...))
	}
	// clause simplification: Not(And(ys))
	for i, a := range args {
		if a.op == OpNot && a.args[0].op == OpAnd && len(a.args[0].args) <= andFlat {
			in := a.args[0].args
			drop := false
			cnt := 0
			for _, y := range in {
				if has(y) {
					cnt++
				} else if y.nneg != nil && has(y.nneg) {
					drop = true
					break
				}
			}
			if drop {
				n := append([]*Term(nil), args[:i]...)
				n = append(n, args[i+1:]...)
				return b.andArgs(n)
			}
			if cnt > 0 {
				rest := make([]*Term, 0, len(in)-cnt)
				for _, y := range in {
					if !has(y) {
						rest = append(rest, y)
					}
				}
				n := append([]*Term(nil), args[:i]...)
				n = append(n, args[i+1:]...)
				n = addAnd(n, b.Not(b.andArgs(rest)), andFlat)
				return b.andArgs(n)
			}
		}
	}
	// pairwise resolution: not(and(X,y)) & not(and(X,not y)) => not(and X)   (only for small binary clauses)
	if len(args) <= 4 {
		for i := 0; i < len(args); i++ {
			for j := i + 1; j < len(args); j++ {
				p, q := args[i], args[j]
				if p.op != OpNot || q.op != OpNot {
					continue
				}
				if r := b.resolve(p.args[0], q.args[0]); r != nil {
					n := make([]*Term, 0, len(args))
					for k, a := range args {
						if k != i && k != j {
							n = append(n, a)
						}
					}
					n = addAnd(n, b.Not(r), andFlat)
					return b.andArgs(n)
				}
			}
		}
	}
	if len(args) == 1 {
		return args[0]
	}
	if len(args) == 0 {
		return b.True
	}
	if len(args) <= 3 {
		k := tkey{op: OpAnd, a: args[0].id, b: args[1].id, c: -1}
		if len(args) == 3 {
			k.c = args[2].id
		}
		if x, ok := b.tab[k]; ok {
			return x
		}
		return b.mk(&Term{op: OpAnd, args: append([]*Term(nil), args...)}, k)
	}
	return b.mkn(&Term{op: OpAnd}, args, nil)
}

// resolve p=and(X,y), q=and(X,not y) -> and(X)
func (b *TB) resolve(p, q *Term) *Term {
	pa, qa := p.args, q.args
	if p.op != OpAnd {
		pa = []*Term{p}
	}
	if q.op != OpAnd {
		qa = []*Term{q}
	}
	if len(pa) != len(qa) || len(pa) > 10 {
		return nil
	}
	var odd *Term
	for _, x := range pa {
		f := false
		for _, y := range qa {
			if x == y {
				f = true
				break
			}
		}
		if !f {
			if odd != nil {
				return nil
			}
			odd = x
		}
	}
	if odd == nil {
		return p
	}
	neg := b.Not(odd)
	for _, y := range qa {
		if y == neg {
			rest := make([]*Term, 0, len(pa)-1)
			for _, x := range pa {
				if x != odd {
					rest = append(rest, x)
				}
			}
			return b.andArgs(rest)
		}
	}
	return nil
}

func (b *TB) mkn(t *Term, args []*Term, consts []uint64) *Term {
	var sb strings.Builder
	sb.Grow(len(args)*5 + len(consts)*9 + 4)
	sb.WriteByte(byte(t.op))
	sb.WriteByte(t.w)
	for _, a := range args {
		sb.WriteByte(byte(a.id))
		sb.WriteByte(byte(a.id >> 8))
		sb.WriteByte(byte(a.id >> 16))
		sb.WriteByte(byte(a.id >> 24))
	}
	for _, c := range consts {
		for i := 0; i < 8; i++ {
			sb.WriteByte(byte(c >> (8 * i)))
		}
	}
	k := sb.String()
	if x, ok := b.ntab[k]; ok {
		return x
	}
	t.args = append([]*Term(nil), args...)
	t.consts = append([]uint64(nil), consts...)
	t.id = int32(len(b.terms))
	b.terms = append(b.terms, t)
	b.ntab[k] = t
	return t
}

func (b *TB) Or(xs ...*Term) *Term {
	if len(xs) == 0 {
		return b.False
	}
	if len(xs) == 1 {
		return xs[0]
	}
	n := make([]*Term, len(xs))
	for i, x := range xs {
		n[i] = b.Not(x)
	}
	return b.Not(b.And(n...))
}

// OrFold builds a right-nested or so that suffixes are shared.
func (b *TB) OrFold(xs []*Term) *Term {
	r := b.False
	for i := len(xs) - 1; i >= 0; i-- {
		r = b.Or(xs[i], r)
	}
	return r
}

func (b *TB) Implies(x, y *Term) *Term { return b.Not(b.And2(x, b.Not(y))) }
func (b *TB) Iff(x, y *Term) *Term {
	return b.IteB(x, y, b.Not(y))
}

func (b *TB) IteB(c, x, y *Term) *Term {
	if c.isTrue() {
		return x
	}
	if c.isFalse() {
		return y
	}
	if x == y {
		return x
	}
	if x.isConst() || y.isConst() || c == x || c == y {
		if x.isTrue() || c == x {
			return b.Or(c, y)
		}
		if x.isFalse() {
			return b.And2(b.Not(c), y)
		}
		if y.isTrue() {
			return b.Or(b.Not(c), x)
		}
		return b.And2(c, x)
	}
	// (c & x) | (!c & y)
	return b.Not(b.And2(b.Not(b.And2(c, x)), b.Not(b.And2(b.Not(c), y))))
}

// ---- value sets

type vsEnt struct {
	c uint64
	g *Term
}

func (b *TB) entries(t *Term) []vsEnt {
	switch t.op {
	case OpConst:
		return []vsEnt{{t.val, b.True}}
	case OpVS:
		r := make([]vsEnt, len(t.consts))
		for i := range t.consts {
			r[i] = vsEnt{t.consts[i], t.args[i]}
		}
		return r
	}
	return nil
}

func isVS(t *Term) bool { return t.op == OpVS || t.op == OpConst }

// mkVS builds a value set from entries (guards must be exclusive); merges equal constants.
func (b *TB) mkVS(w uint8, ents []vsEnt) *Term {
	m := make(map[uint64]*Term, len(ents))
	keys := make([]uint64, 0, len(ents))
	for _, e := range ents {
		if e.g.isFalse() {
			continue
		}
		c := e.c & maskOf(w)
		if g, ok := m[c]; ok {
			m[c] = b.Or(g, e.g)
		} else {
			m[c] = e.g
			keys = append(keys, c)
		}
	}
	if len(keys) == 0 {
		return b.Const(w, 0) // unreachable value
	}
	for _, c := range keys {
		if m[c].isTrue() {
			return b.Const(w, c)
		}
	}
	if len(keys) == 1 {
		return b.Const(w, keys[0])
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
	if w == 0 {
		return m[1]
	}
	args := make([]*Term, len(keys))
	for i, c := range keys {
		args[i] = m[c]
	}
	return b.mkn(&Term{op: OpVS, w: w, lo: keys[0], hi: keys[len(keys)-1]}, args, keys)
}

// SmallVS turns a term with a known small range into a value set.
func (b *TB) ToVS(t *Term, limit int) *Term {
	if isVS(t) {
		return t
	}
	if t.w == 0 {
		return nil
	}
	if (t.op == OpMul || t.op == OpAdd || t.op == OpShl) && t.args[1].isConst() {
		if v := b.ToVS(t.args[0], limit); v != nil {
			return b.vsMap(v, t.w, func(a uint64) uint64 { return evalBin(t.op, a, t.args[1].val, t.w) })
		}
	}
	if t.hi-t.lo >= uint64(limit) {
		return nil
	}
	ents := make([]vsEnt, 0, t.hi-t.lo+1)
	for c := t.lo; ; c++ {
		ents = append(ents, vsEnt{c, b.Eq(t, b.Const(t.w, c))})
		if c == t.hi {
			break
		}
	}
	return b.mkVS(t.w, ents)
}

func (b *TB) vsMap(t *Term, w uint8, f func(uint64) uint64) *Term {
	ents := b.entries(t)
	for i := range ents {
		ents[i].c = f(ents[i].c) & maskOf(w)
	}
	if w == 0 {
		var gs []*Term
		for _, e := range ents {
			if e.c == 1 {
				gs = append(gs, e.g)
			}
		}
		return b.orSmart(gs, ents, func(e vsEnt) bool { return e.c == 1 })
	}
	return b.mkVS(w, ents)
}

// orSmart: disjunction of the selected guards, or the negated disjunction of the others when fewer
// (guards of a value set are exclusive and exhaustive).
func (b *TB) orSmart(_ []*Term, ents []vsEnt, sel func(vsEnt) bool) *Term {
	var in, out []*Term
	for _, e := range ents {
		if sel(e) {
			in = append(in, e.g)
		} else {
			out = append(out, e.g)
		}
	}
	if len(out) == 0 {
		return b.True
	}
	if len(in) == 0 {
		return b.False
	}
	if len(in) <= len(out) {
		return b.OrFold(in)
	}
	return b.Not(b.OrFold(out))
}

func (b *TB) vsBin(x, y *Term, w uint8, f func(a, c uint64) uint64) *Term {
	ex, ey := b.entries(x), b.entries(y)
	if len(ex)*len(ey) > 6000 {
		return nil
	}
	// identical guard families combine on the diagonal
	if len(ex) > 1 && len(ey) > 1 {
		diag := true
		idx := map[*Term]int{}
		for i, e := range ey {
			idx[e.g] = i
		}
		for _, e := range ex {
			if _, ok := idx[e.g]; !ok {
				diag = false
				break
			}
		}
		if diag && len(ex) == len(ey) {
			out := make([]vsEnt, 0, len(ex))
			for _, e := range ex {
				out = append(out, vsEnt{f(e.c, ey[idx[e.g]].c), e.g})
			}
			if w == 0 {
				return b.orSmart(nil, out, func(e vsEnt) bool { return e.c == 1 })
			}
			return b.mkVS(w, out)
		}
	}
	if w == 0 {
		var ors []*Term
		for _, e := range ex {
			g := b.orSmart(nil, ey, func(q vsEnt) bool { return f(e.c, q.c) == 1 })
			ors = append(ors, b.And2(e.g, g))
		}
		return b.OrFold(ors)
	}
	dom := map[uint64][]*Term{}
	var keys []uint64
	for _, e := range ex {
		for _, q := range ey {
			g := b.And2(e.g, q.g)
			if g.isFalse() {
				continue
			}
			c := f(e.c, q.c) & maskOf(w)
			if _, ok := dom[c]; !ok {
				keys = append(keys, c)
				if len(keys) > maxVS {
					return nil
				}
			}
			dom[c] = append(dom[c], g)
		}
	}
	out := make([]vsEnt, 0, len(keys))
	for _, c := range keys {
		out = append(out, vsEnt{c, b.Or(dom[c]...)})
	}
	return b.mkVS(w, out)
}

// ---- comparisons

func (b *TB) Eq(x, y *Term) *Term {
	if x == y {
		return b.True
	}
	if x.w != y.w {
		panic(fmt.Sprintf("Eq width %d %d", x.w, y.w))
	}
	if x.w == 0 {
		return b.Iff(x, y)
	}
	if x.isConst() && y.isConst() {
		return b.Bool(x.val == y.val)
	}
	if x.isConst() {
		x, y = y, x
	}
	if x.lo > y.hi || y.lo > x.hi {
		return b.False
	}
	if y.isConst() {
		switch x.op {
		case OpVS:
			for i, c := range x.consts {
				if c == y.val {
					return x.args[i]
				}
			}
			return b.False
		case OpZExt:
			if y.val > maskOf(x.args[0].w) {
				return b.False
			}
			return b.Eq(x.args[0], b.Const(x.args[0].w, y.val))
		case OpSExt:
			in := x.args[0]
			if uint64(sx(y.val&maskOf(in.w), in.w))&maskOf(x.w) != y.val {
				return b.False
			}
			return b.Eq(in, b.Const(in.w, y.val))
		case OpIte:
			if x.args[1].isConst() || x.args[2].isConst() {
				return b.IteB(x.args[0], b.Eq(x.args[1], y), b.Eq(x.args[2], y))
			}
		case OpAdd:
			if x.args[1].isConst() {
				return b.Eq(x.args[0], b.Const(x.w, y.val-x.args[1].val))
			}
		case OpExtract:
			if in := x.args[0]; x.val == 0 && in.hi <= maskOf(x.w) {
				return b.Eq(in, b.Const(in.w, y.val))
			}
		case OpMul, OpShl:
			if k := x.args[1]; k.isConst() {
				if x.op == OpShl {
					if k.val >= uint64(x.w) {
						break
					}
					k = b.Const(x.w, 1<<k.val)
				}
				if h, l := bits.Mul64(x.args[0].hi, k.val); h == 0 && l <= maskOf(x.w) && k.val > 0 {
					if y.val%k.val != 0 {
						return b.False
					}
					return b.Eq(x.args[0], b.Const(x.w, y.val/k.val))
				}
			}
		}
	} else if x.op == OpVS && y.op == OpVS {
		if r := b.vsBin(x, y, 0, func(a, c uint64) uint64 {
			if a == c {
				return 1
			}
			return 0
		}); r != nil {
			return r
		}
	} else if x.op == OpVS && len(x.consts) <= 64 || y.op == OpVS && len(y.consts) <= 64 {
		if y.op == OpVS {
			x, y = y, x
		}
		var ors []*Term
		for i, c := range x.consts {
			ors = append(ors, b.And2(x.args[i], b.Eq(y, b.Const(y.w, c))))
		}
		return b.OrFold(ors)
	}
	if x.op == OpZExt && y.op == OpZExt && x.args[0].w == y.args[0].w {
		return b.Eq(x.args[0], y.args[0])
	}
	switch linCmp(x, y) {
	case 1:
		return b.True
	case -1:
		return b.False
	}
	if !y.isConst() && x.id > y.id {
		x, y = y, x
	}
	k := tkey{op: OpEq, a: x.id, b: y.id}
	if t, ok := b.tab[k]; ok {
		return t
	}
	return b.mk(&Term{op: OpEq, args: []*Term{x, y}}, k)
}

func (b *TB) Ult(x, y *Term) *Term {
	if x.w != y.w {
		panic("Ult width")
	}
	if x == y {
		return b.False
	}
	if x.isConst() && y.isConst() {
		return b.Bool(x.val < y.val)
	}
	if x.hi < y.lo {
		return b.True
	}
	if x.lo >= y.hi {
		return b.False
	}
	f := func(a, c uint64) uint64 {
		if a < c {
			return 1
		}
		return 0
	}
	if isVS(x) && isVS(y) {
		if r := b.vsBin(x, y, 0, f); r != nil {
			return r
		}
	}
	if y.isConst() && y.val == 1 {
		return b.Eq(x, b.Const(x.w, 0))
	}
	if x.op == OpZExt && y.op == OpZExt && x.args[0].w == y.args[0].w {
		return b.Ult(x.args[0], y.args[0])
	}
	if x.op == OpZExt && y.isConst() {
		in := x.args[0]
		if y.val > maskOf(in.w) {
			return b.True
		}
		return b.Ult(in, b.Const(in.w, y.val))
	}
	if y.op == OpZExt && x.isConst() {
		in := y.args[0]
		if x.val >= maskOf(in.w) {
			return b.False
		}
		return b.Ult(b.Const(in.w, x.val), in)
	}
	if (x.op == OpVS && len(x.consts) <= 64 || y.op == OpVS && len(y.consts) <= 64) && !(x.op == OpVS && y.op == OpVS) {
		var ors []*Term
		if x.op == OpVS {
			for i, c := range x.consts {
				ors = append(ors, b.And2(x.args[i], b.Ult(b.Const(x.w, c), y)))
			}
		} else {
			for i, c := range y.consts {
				ors = append(ors, b.And2(y.args[i], b.Ult(x, b.Const(x.w, c))))
			}
		}
		return b.OrFold(ors)
	}
	if x.op == OpIte && y.isConst() && (x.args[1].isConst() || x.args[2].isConst()) {
		return b.IteB(x.args[0], b.Ult(x.args[1], y), b.Ult(x.args[2], y))
	}
	if y.op == OpIte && x.isConst() && (y.args[1].isConst() || y.args[2].isConst()) {
		return b.IteB(y.args[0], b.Ult(x, y.args[1]), b.Ult(x, y.args[2]))
	}
	k := tkey{op: OpUlt, a: x.id, b: y.id}
	if t, ok := b.tab[k]; ok {
		return t
	}
	return b.mk(&Term{op: OpUlt, args: []*Term{x, y}}, k)
}

func (b *TB) Slt(x, y *Term) *Term {
	if x.w != y.w {
		panic("Slt width")
	}
	if x == y {
		return b.False
	}
	w := x.w
	if x.isConst() && y.isConst() {
		return b.Bool(sx(x.val, w) < sx(y.val, w))
	}
	f := func(a, c uint64) uint64 {
		if sx(a, w) < sx(c, w) {
			return 1
		}
		return 0
	}
	if isVS(x) && isVS(y) {
		if r := b.vsBin(x, y, 0, f); r != nil {
			return r
		}
	}
	top := uint64(1) << (w - 1)
	if x.hi < top && y.hi < top {
		return b.Ult(x, y)
	}
	if x.lo >= top && y.hi < top {
		return b.True
	}
	if y.lo >= top && x.hi < top {
		return b.False
	}
	if (x.op == OpVS && len(x.consts) <= 64 || y.op == OpVS && len(y.consts) <= 64) && !(x.op == OpVS && y.op == OpVS) {
		var ors []*Term
		if x.op == OpVS {
			for i, c := range x.consts {
				ors = append(ors, b.And2(x.args[i], b.Slt(b.Const(x.w, c), y)))
			}
		} else {
			for i, c := range y.consts {
				ors = append(ors, b.And2(y.args[i], b.Slt(x, b.Const(x.w, c))))
			}
		}
		return b.OrFold(ors)
	}
	if x.op == OpIte && y.isConst() && (x.args[1].isConst() || x.args[2].isConst()) {
		return b.IteB(x.args[0], b.Slt(x.args[1], y), b.Slt(x.args[2], y))
	}
	if y.op == OpIte && x.isConst() && (y.args[1].isConst() || y.args[2].isConst()) {
		return b.IteB(y.args[0], b.Slt(x, y.args[1]), b.Slt(x, y.args[2]))
	}
	k := tkey{op: OpSlt, a: x.id, b: y.id}
	if t, ok := b.tab[k]; ok {
		return t
	}
	return b.mk(&Term{op: OpSlt, args: []*Term{x, y}}, k)
}
func (b *TB) Ule(x, y *Term) *Term { return b.Not(b.Ult(y, x)) }
func (b *TB) Sle(x, y *Term) *Term { return b.Not(b.Slt(y, x)) }

// ---- bit-vectors

func (b *TB) Ite(c, x, y *Term) *Term {
	if x.w == 0 {
		return b.IteB(c, x, y)
	}
	if c.isTrue() || x == y {
		return x
	}
	if c.isFalse() {
		return y
	}
	if isVS(x) && isVS(y) {
		ex, ey := b.entries(x), b.entries(y)
		if len(ex)+len(ey) <= 2*maxVS {
			m := map[uint64]*Term{}
			my := map[uint64]*Term{}
			var keys []uint64
			for _, e := range ex {
				m[e.c] = e.g
				keys = append(keys, e.c)
			}
			for _, e := range ey {
				if _, ok := m[e.c]; !ok {
					keys = append(keys, e.c)
				}
				my[e.c] = e.g
			}
			if len(keys) <= maxVS {
				out := make([]vsEnt, 0, len(keys))
				for _, k := range keys {
					gx, ok := m[k]
					if !ok {
						gx = b.False
					}
					gy, ok := my[k]
					if !ok {
						gy = b.False
					}
					out = append(out, vsEnt{k, b.IteB(c, gx, gy)})
				}
				return b.mkVS(x.w, out)
			}
		}
	}
	if c.op == OpNot {
		c, x, y = c.args[0], y, x
	}
	if x.op == OpIte && x.args[0] == c {
		x = x.args[1]
	}
	if y.op == OpIte && y.args[0] == c {
		y = y.args[2]
	}
	if x == y {
		return x
	}
	k := tkey{op: OpIte, w: x.w, a: c.id, b: x.id, c: y.id}
	if t, ok := b.tab[k]; ok {
		return t
	}
	return b.mk(&Term{op: OpIte, w: x.w, args: []*Term{c, x, y}, lo: min(x.lo, y.lo), hi: max(x.hi, y.hi)}, k)
}

func (b *TB) bin(op Op, x, y *Term) *Term {
	if x.w != y.w {
		panic(fmt.Sprintf("bin width %d: %d %d", op, x.w, y.w))
	}
	w := x.w
	m := maskOf(w)
	f := func(a, c uint64) uint64 { return evalBin(op, a, c, w) }
	if x.isConst() && y.isConst() {
		return b.Const(w, f(x.val, y.val))
	}
	comm := op == OpAdd || op == OpMul || op == OpBAnd || op == OpBOr || op == OpBXor
	if comm && (x.isConst() || !y.isConst() && x.id > y.id) {
		x, y = y, x
	}
	// identities
	if y.isConst() {
		switch op {
		case OpAdd, OpSub, OpBOr, OpBXor, OpShl, OpLShr, OpAShr:
			if y.val == 0 {
				return x
			}
		case OpMul:
			if y.val == 1 {
				return x
			}
			if y.val == 0 {
				return y
			}
		case OpUDiv, OpSDiv:
			if y.val == 1 {
				return x
			}
		case OpURem:
			if y.val == 1 {
				return b.Const(w, 0)
			}
			if y.val != 0 && x.hi < y.val {
				return x
			}
		case OpBAnd:
			if y.val == 0 {
				return y
			}
			if y.val == m {
				return x
			}
			// mask covering the range
			if y.val&(y.val+1) == 0 && x.hi <= y.val {
				return x
			}
		}
	}
	if x == y {
		switch op {
		case OpSub, OpBXor:
			return b.Const(w, 0)
		case OpBAnd, OpBOr:
			return x
		}
	}
	if isVS(x) && isVS(y) {
		if r := b.vsBin(x, y, w, f); r != nil {
			return r
		}
	}
	if x.isConst() && x.val == 0 && (op == OpShl || op == OpLShr || op == OpAShr || op == OpUDiv || op == OpURem) && !(op == OpUDiv || op == OpURem) {
		return x
	}
	switch op {
	case OpSub:
		if y.isConst() {
			return b.bin(OpAdd, x, b.Const(w, -y.val))
		}
		if x.op == OpAdd && x.args[1] == y {
			return x.args[0]
		}
		if x.op == OpAdd && x.args[0] == y {
			return x.args[1]
		}
		if x.op == OpAdd {
			if r := b.linSub(x, y); r != nil {
				return r
			}
		}
	case OpAdd:
		if y.isConst() && x.op == OpAdd && x.args[1].isConst() {
			return b.bin(OpAdd, x.args[0], b.Const(w, x.args[1].val+y.val))
		}
		if w == 64 && !y.isConst() { // constants last
			if x.op == OpAdd && x.args[1].isConst() {
				return b.bin(OpAdd, b.bin(OpAdd, x.args[0], y), x.args[1])
			}
			if y.op == OpAdd && y.args[1].isConst() {
				return b.bin(OpAdd, b.bin(OpAdd, x, y.args[0]), y.args[1])
			}
		}
		if x.op == OpSub && x.args[1] == y {
			return x.args[0]
		}
		if y.op == OpSub && y.args[1] == x {
			return y.args[0]
		}
		if y.isConst() && x.op == OpIte && (x.args[1].isConst() || x.args[2].isConst()) {
			return b.Ite(x.args[0], b.bin(op, x.args[1], y), b.bin(op, x.args[2], y))
		}
	case OpSDiv, OpSRem:
		top := uint64(1) << (w - 1)
		if x.hi < top && y.hi < top {
			if op == OpSDiv {
				return b.bin(OpUDiv, x, y)
			}
			return b.bin(OpURem, x, y)
		}
	case OpUDiv:
		if y.isConst() && y.val != 0 && y.val&(y.val-1) == 0 {
			if r := b.linDiv(op, x, y.val); r != nil {
				return r
			}
			return b.bin(OpLShr, x, b.Const(w, uint64(bits.TrailingZeros64(y.val))))
		}
	case OpURem:
		if y.isConst() && y.val != 0 && y.val&(y.val-1) == 0 {
			if r := b.linDiv(op, x, y.val); r != nil {
				return r
			}
			return b.bin(OpBAnd, x, b.Const(w, y.val-1))
		}
	case OpMul:
		if y.isConst() && y.val&(y.val-1) == 0 {
			return b.bin(OpShl, x, b.Const(w, uint64(bits.TrailingZeros64(y.val))))
		}
	}
	// small domain against constant: compute pointwise when x has a tiny range
	if y.isConst() && x.w > 8 && x.hi-x.lo < 64 && (op == OpUDiv || op == OpURem) {
		if v := b.ToVS(x, 64); v != nil {
			return b.vsMap(v, w, func(a uint64) uint64 { return f(a, y.val) })
		}
	}
	// linear operands: divide term by term
	if y.isConst() && y.val != 0 && (op == OpUDiv || op == OpURem) {
		if r := b.linDiv(op, x, y.val); r != nil {
			return r
		}
	}
	// few quotients: compare instead of dividing
	if (op == OpUDiv || op == OpURem) && y.isConst() && y.val != 0 && x.hi/y.val-x.lo/y.val <= 4 {
		var r *Term
		for q := x.lo / y.val; ; q++ {
			v := b.Const(w, q)
			if op == OpURem {
				v = b.Sub(x, b.Const(w, q*y.val))
				if x.lo < q*y.val || x.hi >= q*y.val+y.val { // tighten: only used inside its range
					v = b.bin(OpBAnd, v, b.Const(w, uint64(1)<<bits.Len64(y.val-1)-1))
				}
			}
			if r == nil {
				r = v
			} else {
				r = b.Ite(b.Ult(x, b.Const(w, q*y.val)), r, v)
			}
			if q == x.hi/y.val {
				return r
			}
		}
	}
	// small operands: compute in fewer bits
	if op == OpUDiv && y.lo > 0 || op == OpURem && y.lo > 0 || op == OpMul {
		top := max(x.hi, y.hi)
		if op == OpMul {
			h, l := bits.Mul64(x.hi, y.hi)
			top = l
			if h != 0 {
				top = math.MaxUint64
			}
			top = max(top, x.hi, y.hi)
		}
		for _, nw := range []uint8{8, 16, 32} {
			if nw < w && top <= maskOf(nw) {
				return b.ZExt(b.bin(op, b.Extract(x, 0, nw), b.Extract(y, 0, nw)), w)
			}
		}
	}
	// bounds
	lo, hi := uint64(0), m
	switch op {
	case OpAdd:
		if y.isConst() && sx(y.val, w) < 0 && y.hi > m/2 {
			d := -y.val & m
			if x.lo >= d {
				lo, hi = x.lo-d, x.hi-d
			}
		} else if s, c := bits.Add64(x.hi, y.hi, 0); c == 0 && s <= m {
			lo, hi = x.lo+y.lo, s
		}
	case OpSub:
		if x.lo >= y.hi {
			lo, hi = x.lo-y.hi, x.hi-y.lo
		}
	case OpMul:
		if h, l := bits.Mul64(x.hi, y.hi); h == 0 && l <= m {
			lo, hi = x.lo*y.lo, l
		}
	case OpBAnd:
		hi = min(x.hi, y.hi)
	case OpBOr, OpBXor:
		n := bits.Len64(x.hi | y.hi)
		if n < 64 {
			hi = min(m, (uint64(1)<<n)-1)
		}
		if op == OpBOr {
			lo = max(x.lo, y.lo)
		}
	case OpUDiv:
		if y.isConst() && y.val != 0 {
			lo, hi = x.lo/y.val, x.hi/y.val
		} else if y.lo > 0 {
			hi = x.hi / y.lo
			lo = x.lo / y.hi
		}
	case OpURem:
		if y.isConst() && y.val != 0 {
			hi = min(x.hi, y.val-1)
		} else if y.lo > 0 {
			hi = min(x.hi, y.hi-1)
		}
	case OpLShr:
		hi = x.hi
		if y.isConst() && y.val < uint64(w) {
			lo, hi = x.lo>>y.val, x.hi>>y.val
		}
	case OpShl:
		if y.isConst() && y.val < uint64(w) {
			if bits.Len64(x.hi)+int(y.val) <= int(w) {
				lo, hi = x.lo<<y.val, x.hi<<y.val
			}
		}
	case OpUMulHi:
		h, _ := bits.Mul64(x.hi, y.hi)
		hi = h
		h, _ = bits.Mul64(x.lo, y.lo)
		lo = h
	}
	if lo == hi {
		return b.Const(w, lo)
	}
	k := tkey{op: op, w: w, a: x.id, b: y.id}
	if t, ok := b.tab[k]; ok {
		return t
	}
	return b.mk(&Term{op: op, w: w, args: []*Term{x, y}, lo: lo, hi: hi}, k)
}

func (b *TB) Add(x, y *Term) *Term { return b.bin(OpAdd, x, y) }
func (b *TB) Sub(x, y *Term) *Term { return b.bin(OpSub, x, y) }

func evalBin(op Op, x, y uint64, w uint8) uint64 {
	m := maskOf(w)
	switch op {
	case OpAdd:
		return (x + y) & m
	case OpSub:
		return (x - y) & m
	case OpMul:
		return (x * y) & m
	case OpUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OpURem:
		if y == 0 {
			return x
		}
		return x % y
	case OpSDiv:
		a, c := sx(x, w), sx(y, w)
		if c == 0 {
			if a < 0 {
				return 1
			}
			return m
		}
		if c == -1 {
			return uint64(-a) & m
		}
		return uint64(a/c) & m
	case OpSRem:
		a, c := sx(x, w), sx(y, w)
		if c == 0 {
			return x
		}
		if c == -1 {
			return 0
		}
		return uint64(a%c) & m
	case OpBAnd:
		return x & y
	case OpBOr:
		return x | y
	case OpBXor:
		return x ^ y
	case OpShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OpLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OpAShr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sx(x, w)>>y) & m
	case OpUMulHi:
		h, _ := bits.Mul64(x, y)
		return h
	}
	panic("evalBin")
}

func (b *TB) ZExt(x *Term, w uint8) *Term {
	if x.w == w {
		return x
	}
	if x.w > w {
		panic("zext")
	}
	if isVS(x) {
		return b.vsMap(x, w, func(a uint64) uint64 { return a })
	}
	if x.op == OpZExt {
		return b.ZExt(x.args[0], w)
	}
	k := tkey{op: OpZExt, w: w, a: x.id}
	return b.mk(&Term{op: OpZExt, w: w, args: []*Term{x}, lo: x.lo, hi: x.hi}, k)
}

func (b *TB) SExt(x *Term, w uint8) *Term {
	if x.w == w {
		return x
	}
	if isVS(x) {
		ow := x.w
		return b.vsMap(x, w, func(a uint64) uint64 { return uint64(sx(a, ow)) })
	}
	if x.hi < uint64(1)<<(x.w-1) {
		return b.ZExt(x, w)
	}
	k := tkey{op: OpSExt, w: w, a: x.id}
	return b.mk(&Term{op: OpSExt, w: w, args: []*Term{x}, lo: 0, hi: maskOf(w)}, k)
}

// Extract the low w bits starting at bit lo.
func (b *TB) Extract(x *Term, lo uint8, w uint8) *Term {
	if lo == 0 && x.w == w {
		return x
	}
	if isVS(x) {
		return b.vsMap(x, w, func(a uint64) uint64 { return a >> lo })
	}
	if lo == 0 && (x.op == OpZExt || x.op == OpSExt) {
		in := x.args[0]
		if in.w == w {
			return in
		}
		if in.w > w {
			return b.Extract(in, 0, w)
		}
		if x.op == OpZExt {
			return b.ZExt(in, w)
		}
		return b.SExt(in, w)
	}
	if x.op == OpIte && (x.args[1].isConst() || x.args[2].isConst()) {
		return b.Ite(x.args[0], b.Extract(x.args[1], lo, w), b.Extract(x.args[2], lo, w))
	}
	if lo == 0 && x.op == OpAdd && x.args[1].isConst() {
		return b.bin(OpAdd, b.Extract(x.args[0], 0, w), b.Const(w, x.args[1].val))
	}
	l, h := uint64(0), maskOf(w)
	if lo == 0 && x.hi <= h {
		l, h = x.lo, x.hi
	}
	k := tkey{op: OpExtract, w: w, a: x.id, val: uint64(lo)}
	return b.mk(&Term{op: OpExtract, w: w, args: []*Term{x}, val: uint64(lo), lo: l, hi: h}, k)
}

// ---- evaluation under a model (missing variables = their low bound)

type Model map[*Term]uint64

func (b *TB) newEval() {
	b.gen++
	if len(b.evVal) < len(b.terms) {
		n := len(b.terms) + len(b.terms)/2 + 1024
		v := make([]uint64, n)
		copy(v, b.evVal)
		g := make([]uint32, n)
		copy(g, b.evGen)
		b.evVal, b.evGen = v, g
	}
}

func (b *TB) Eval(t *Term, m Model) uint64 {
	b.newEval()
	return b.eval(t, m)
}

func (b *TB) eval(t *Term, m Model) uint64 {
	if t.op == OpConst {
		return t.val
	}
	if b.evGen[t.id] == b.gen {
		return b.evVal[t.id]
	}
	var r uint64
	switch t.op {
	case OpVar:
		v, ok := m[t]
		if !ok {
			v = t.lo
		}
		r = v
	case OpNot:
		r = 1 - b.eval(t.args[0], m)
	case OpAnd:
		r = 1
		for _, a := range t.args {
			if b.eval(a, m) == 0 {
				r = 0
				break
			}
		}
	case OpEq:
		if b.eval(t.args[0], m) == b.eval(t.args[1], m) {
			r = 1
		}
	case OpUlt:
		if b.eval(t.args[0], m) < b.eval(t.args[1], m) {
			r = 1
		}
	case OpSlt:
		w := t.args[0].w
		if sx(b.eval(t.args[0], m), w) < sx(b.eval(t.args[1], m), w) {
			r = 1
		}
	case OpIte:
		if b.eval(t.args[0], m) == 1 {
			r = b.eval(t.args[1], m)
		} else {
			r = b.eval(t.args[2], m)
		}
	case OpVS:
		r = t.consts[len(t.consts)-1]
		for i, g := range t.args {
			if b.eval(g, m) == 1 {
				r = t.consts[i]
				break
			}
		}
	case OpZExt:
		r = b.eval(t.args[0], m)
	case OpSExt:
		r = uint64(sx(b.eval(t.args[0], m), t.args[0].w)) & maskOf(t.w)
	case OpExtract:
		r = (b.eval(t.args[0], m) >> t.val) & maskOf(t.w)
	default:
		r = evalBin(t.op, b.eval(t.args[0], m), b.eval(t.args[1], m), t.w)
	}
	b.evVal[t.id] = r
	b.evGen[t.id] = b.gen
	return r
}

func (t *Term) String() string {
	return termStr(t, 4)
}

func termStr(t *Term, d int) string {
	if t == nil {
		return "<nil>"
	}
	switch t.op {
	case OpConst:
		if t.w == 0 {
			return fmt.Sprint(t.val == 1)
		}
		return fmt.Sprint(sx(t.val, t.w))
	case OpVar:
		return t.name
	}
	if d == 0 {
		return fmt.Sprintf("#%d", t.id)
	}
	names := map[Op]string{OpVS: "vs", OpNot: "not", OpAnd: "and", OpEq: "=", OpUlt: "u<", OpSlt: "s<", OpIte: "ite", OpAdd: "+", OpSub: "-", OpMul: "*", OpUDiv: "u/", OpURem: "u%", OpSDiv: "s/", OpSRem: "s%", OpBAnd: "&", OpBOr: "|", OpBXor: "^", OpShl: "<<", OpLShr: ">>", OpAShr: "a>>", OpZExt: "zx", OpSExt: "sx", OpExtract: "ex", OpUMulHi: "mulhi"}
	s := "(" + names[t.op]
	for i, a := range t.args {
		if i > 8 {
			s += " ..."
			break
		}
		s += " "
		if t.op == OpVS {
			s += fmt.Sprintf("%d:", int64(t.consts[i]))
		}
		s += termStr(a, d-1)
	}
	return s + ")"
}
