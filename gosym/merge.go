package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type mergeFail struct{ why string }

func (e *Engine) mergeAll(ss []*State) []*State {
	if len(ss) <= 1 {
		return ss
	}
	var out []*State
	for _, s := range ss {
		done := false
		for i := len(out) - 1; i >= 0 && !done; i-- {
			if m := e.merge2(out[i], s); m != nil {
				out[i] = m
				done = true
			}
		}
		if !done {
			out = append(out, s)
		}
	}
	return out
}

type merger struct {
	e    *Engine
	d    *Term // a's side
	tok  *otok
	a, b *State
	n    *State
}

func (e *Engine) merge2(a, b *State) (res *State) {
	if a == b {
		return a
	}
	defer func() {
		if r := recover(); r != nil {
			if mf, ok := r.(mergeFail); ok {
				e.stats.MergeFail++
				e.dbg["mergefail "+mf.why]++
				res = nil
				return
			}
			panic(r)
		}
	}()
	if !e.compat(a, b) {
		e.stats.MergeFail++
		e.dbg["mergefail control"]++
		return nil
	}
	pc, d := e.mergePC(a, b)
	n := a.clone()
	b.tok = new(otok)
	n.pc = pc
	m := &merger{e: e, d: d, tok: n.tok, a: a, b: b, n: n}
	m.frames()
	m.heap()
	m.log()
	n.sites.root = mergeCT(n.tok, a.sites.root, b.sites.root, cDepth)
	for k, v := range b.cnt {
		if v > n.cnt[k] {
			if n.cnt == nil {
				n.cnt = map[string]int{}
			}
			n.cnt[k] = v
		}
	}
	n.npre = min(a.npre, b.npre)
	n.steps = max(a.steps, b.steps)
	n.multi = a.multi || b.multi
	e.stats.Merges++
	return n
}

func (e *Engine) compat(a, b *State) bool {
	if len(a.gs) != len(b.gs) || a.hit != b.hit || len(a.stops) != len(b.stops) || a.nsched != b.nsched || a.shards != b.shards || a.shard != b.shard || a.quiet != b.quiet || a.atEnd != b.atEnd {
		return false
	}
	if a.clock != b.clock || e.preempt >= 0 && a.npre != b.npre {
		return false
	}
	if (a.cur != b.cur || a.resume != b.resume) && (e.preempt >= 0 || len(a.stops) > 0) {
		return false
	}
	for i := range a.stops {
		if a.stops[i] != b.stops[i] {
			return false
		}
	}
	for i, g := range a.gs {
		h := b.gs[i]
		if len(g.frames) != len(h.frames) || len(g.panics) != len(h.panics) || g.passed != h.passed || g.choice != h.choice || g.started != h.started || g.atomic != h.atomic || g.sim != h.sim || g.wake != h.wake {
			return false
		}
		if !g.vc.eq(h.vc) {
			return false
		}
		for k, f := range g.frames {
			o := h.frames[k]
			if f == o {
				continue
			}
			if f.fi != o.fi || f.block != o.block || f.pc != o.pc || f.isDefer != o.isDefer || f.discard != o.discard || f.unwind != o.unwind || f.recov != o.recov || len(f.defers) != len(o.defers) || len(f.env) != len(o.env) {
				return false
			}
		}
	}
	return true
}

func (e *Engine) mergePC(a, b *State) (*PC, *Term) {
	x, y := a.pc, b.pc
	var sa, sb []*Term
	dep := func(p *PC) int {
		if p == nil {
			return 0
		}
		return p.depth
	}
	for x != y {
		if dep(x) >= dep(y) {
			if !x.implied {
				sa = append(sa, x.t)
			}
			x = x.up
		} else {
			if !y.implied {
				sb = append(sb, y.t)
			}
			y = y.up
		}
	}
	// literals that are common to both sides
	inB := map[*Term]bool{}
	for _, t := range sb {
		inB[t] = true
	}
	common := map[*Term]bool{}
	var d *Term
	for i := len(sa) - 1; i >= 0; i-- { // oldest first
		t := sa[i]
		if inB[t] {
			common[t] = true
		}
		if d == nil && inB[e.tb.Not(t)] {
			d = t
		}
	}
	ca, cb := e.tb.And(filterOut(sa, common)...), e.tb.And(filterOut(sb, common)...)
	if d == nil {
		d = ca
	}
	st := &State{pc: x}
	for i := len(sa) - 1; i >= 0; i-- {
		if common[sa[i]] {
			st.addPC(sa[i])
		}
	}
	st.addPC(e.tb.Or(ca, cb))
	return st.pc, d
}

func filterOut(ts []*Term, m map[*Term]bool) []*Term {
	var r []*Term
	for _, t := range ts {
		if !m[t] {
			r = append(r, t)
		}
	}
	return r
}

func (m *merger) frames() {
	for i := range m.n.gs {
		g := m.n.gs[i]
		ga, gb := m.a.gs[i], m.b.gs[i]
		for k := range g.panics {
			g.panics[k] = m.val(ga.panics[k], gb.panics[k])
		}
		for k := range g.frames {
			fa, fb := ga.frames[k], gb.frames[k]
			if fa == fb {
				continue
			}
			nf := *fa
			nf.owner = m.tok
			nf.regs = append([]Value(nil), fa.regs...)
			live := fa.fi.liveAt(fa.block, fa.pc)
			top := k == len(g.frames)-1
			rec := fa.fi.recoverUses()
			for r := range nf.regs {
				if fa.regs[r] == nil && fb.regs[r] == nil {
					continue
				}
				if !live[r] && !rec[r] {
					nf.regs[r] = nil
					continue
				}
				x, y := fa.regs[r], fb.regs[r]
				if x == nil || y == nil {
					// the result of the pending call of a lower frame, or not yet defined on one side
					if !top || !live[r] {
						nf.regs[r] = nil
						continue
					}
					panic(mergeFail{"undef reg " + fa.fi.name})
				}
				nf.regs[r] = m.val(x, y)
			}
			if len(fa.env) > 0 {
				nf.env = make([]Value, len(fa.env))
				for j := range nf.env {
					nf.env[j] = m.val(fa.env[j], fb.env[j])
				}
			}
			nf.defers = append([]deferred(nil), fa.defers...)
			for j := range nf.defers {
				x, y := fa.defers[j], fb.defers[j]
				if len(x.args) != len(y.args) || !sameFn(x.fn, y.fn) {
					panic(mergeFail{"defers"})
				}
				nf.defers[j].fn = m.val(x.fn, y.fn)
				nf.defers[j].args = make([]Value, len(x.args))
				for q := range x.args {
					nf.defers[j].args[q] = m.val(x.args[q], y.args[q])
				}
			}
			g.frames[k] = &nf
		}
	}
}

func sameFn(a, b Value) bool {
	x, ok := a.(FuncV)
	y, ok2 := b.(FuncV)
	return ok && ok2 && x.fn == y.fn && x.bi == y.bi && len(x.env) == len(y.env) && len(x.rv) == len(y.rv)
}

func (m *merger) log() {
	a, b := m.a.log, m.b.log
	if a == b {
		m.n.log = a
		return
	}
	cnt := func(l *logNode) int {
		if l == nil {
			return 0
		}
		return l.n
	}
	var sa, sb []*logNode
	for a != b {
		if cnt(a) >= cnt(b) {
			sa = append(sa, a)
			a = a.up
		} else {
			sb = append(sb, b)
			b = b.up
		}
	}
	tb := m.e.tb
	res := a
	add := func(l *logNode, g *Term) {
		ng := g
		if l.g != nil {
			ng = tb.And2(g, l.g)
		}
		res = &logNode{up: res, kind: l.kind, label: l.label, v: l.v, g: ng, n: cnt(res) + 1}
	}
	// same shape: merge values pairwise
	same := len(sa) == len(sb)
	for i := 0; same && i < len(sa); i++ {
		same = sa[i].kind == sb[i].kind && sa[i].label == sb[i].label && sa[i].g == sb[i].g
	}
	if same {
		for i := len(sa) - 1; i >= 0; i-- {
			l := sa[i]
			res = &logNode{up: res, kind: l.kind, label: l.label, v: m.val(l.v, sb[i].v), g: l.g, n: cnt(res) + 1}
		}
	} else {
		for i := len(sa) - 1; i >= 0; i-- {
			add(sa[i], m.d)
		}
		nd := tb.Not(m.d)
		for i := len(sb) - 1; i >= 0; i-- {
			add(sb[i], nd)
		}
	}
	m.n.log = res
}

// ---- heap

func (m *merger) heap() {
	a, b := &m.a.heap, &m.b.heap
	for a.depth < b.depth {
		r := &tnode{owner: m.tok}
		r.kids[0] = a.root
		a = &Heap{root: r, depth: a.depth + 1}
	}
	for b.depth < a.depth {
		r := &tnode{owner: m.tok}
		r.kids[0] = b.root
		b = &Heap{root: r, depth: b.depth + 1}
	}
	m.n.heap.depth = a.depth
	m.n.heap.root = m.node(a.root, b.root, a.depth)
}

func (m *merger) node(a, b *tnode, d int) *tnode {
	if a == b || b == nil {
		return a
	}
	if a == nil {
		return b
	}
	n := &tnode{owner: m.tok}
	if d == 0 {
		n.objs = new([trieW]*Obj)
		for i := range n.objs {
			var x, y *Obj
			if a.objs != nil {
				x = a.objs[i]
			}
			if b.objs != nil {
				y = b.objs[i]
			}
			n.objs[i] = m.obj(x, y)
		}
		return n
	}
	for i := range n.kids {
		n.kids[i] = m.node(a.kids[i], b.kids[i], d-1)
	}
	return n
}

func (m *merger) obj(x, y *Obj) *Obj {
	if x == y || y == nil {
		return x
	}
	if x == nil {
		return y
	}
	if x.kind != y.kind {
		panic(mergeFail{"object kind"})
	}
	n := *x
	n.owner = m.tok
	if !clocksEq(x.clocks, y.clocks) {
		panic(mergeFail{"clock"})
	}
	if x.sh != y.sh {
		n.sh = m.shadow(x.sh, y.sh)
	}
	switch x.kind {
	case KCells:
		n.vec = m.vec(x.vec, y.vec)
	case KMap:
		n.m = m.mapObj(x.m, y.m)
	case KChan:
		if len(x.ch.buf) != len(y.ch.buf) || x.ch.closed != y.ch.closed || x.ch.cap != y.ch.cap || !x.ch.clVC.eq(y.ch.clVC) {
			panic(mergeFail{"chan"})
		}
		c := *x.ch
		c.buf = make([]Value, len(x.ch.buf))
		for i := range c.buf {
			c.buf[i] = m.val(x.ch.buf[i], y.ch.buf[i])
			if !x.ch.vcs[i].eq(y.ch.vcs[i]) {
				panic(mergeFail{"chan clock"})
			}
		}
		n.ch = &c
	}
	return &n
}

func (m *merger) shadow(x, y *Vec) *Vec {
	if x == nil {
		return y
	}
	if y == nil {
		return x
	}
	// keep the later information of either side
	n := x.clone()
	for i := 0; i < min(x.n, y.n); i++ {
		p, q := x.get(i), y.get(i)
		if p == q {
			continue
		}
		n.set(m.tok, i, mergeShadow(p, q))
	}
	return n
}

func (m *merger) vec(x, y *Vec) *Vec {
	if x == y {
		return x
	}
	if x.n < y.n {
		z := x.clone()
		z.n = y.n
		for len(z.pages) < len(y.pages) {
			z.pages = append(z.pages, nil)
		}
		x = z
	} else if y.n < x.n {
		z := y.clone()
		z.n = x.n
		for len(z.pages) < len(x.pages) {
			z.pages = append(z.pages, nil)
		}
		y = z
	}
	n := &Vec{n: x.n, pages: make([]*page, len(x.pages)), zero: x.zero}
	for i := range x.pages {
		p, q := x.pages[i], y.pages[i]
		if p == q {
			n.pages[i] = p
			continue
		}
		np := &page{owner: m.tok}
		for k := 0; k < pageSize; k++ {
			var u, v Value = x.zero, y.zero
			if p != nil {
				u = p.v[k]
			}
			if q != nil {
				v = q.v[k]
			}
			switch {
			case u == nil:
				np.v[k] = v
			case v == nil:
				np.v[k] = u
			default:
				np.v[k] = m.val(u, v)
			}
		}
		n.pages[i] = np
	}
	return n
}

func (m *merger) mapObj(x, y *MapObj) *MapObj {
	tb := m.e.tb
	n := &MapObj{typ: x.typ}
	used := make([]bool, len(y.ents))
	for _, a := range x.ents {
		f := false
		for j, b := range y.ents {
			if !used[j] && m.e.sameVal(a.k, b.k) {
				used[j] = true
				f = true
				n.ents = append(n.ents, mapEnt{a.k, m.val(a.v, b.v), tb.IteB(m.d, a.g, b.g)})
				break
			}
		}
		if !f {
			n.ents = append(n.ents, mapEnt{a.k, a.v, tb.And2(m.d, a.g)})
		}
	}
	for j, b := range y.ents {
		if !used[j] {
			n.ents = append(n.ents, mapEnt{b.k, b.v, tb.And2(tb.Not(m.d), b.g)})
		}
	}
	return n
}

// ---- values

func (m *merger) val(x, y Value) Value { return m.e.mergeVal(m.d, x, y) }

// sameVal: syntactically the same value.
func (e *Engine) sameVal(x, y Value) bool {
	switch a := x.(type) {
	case nil:
		return y == nil
	case *Term:
		b, ok := y.(*Term)
		return ok && a == b
	case StrV:
		b, ok := y.(StrV)
		return ok && a == b
	case Ptr:
		b, ok := y.(Ptr)
		return ok && a == b
	case SliceV:
		b, ok := y.(SliceV)
		return ok && a == b
	case MapV:
		b, ok := y.(MapV)
		return ok && a == b
	case ChanV:
		b, ok := y.(ChanV)
		return ok && a == b
	case FloatV:
		b, ok := y.(FloatV)
		return ok && (a == b)
	case ComplexV:
		b, ok := y.(ComplexV)
		return ok && a == b
	case IfaceV:
		b, ok := y.(IfaceV)
		return ok && (a.t == b.t || a.t != nil && b.t != nil && types.Identical(a.t, b.t)) && e.sameVal(a.v, b.v)
	case FuncV:
		b, ok := y.(FuncV)
		return ok && sameFn(a, b) && e.sameVals(a.env, b.env) && e.sameVals(a.rv, b.rv)
	case StructV:
		b, ok := y.(StructV)
		return ok && e.sameVals(a, b)
	case ArrayV:
		b, ok := y.(ArrayV)
		return ok && e.sameVals(a, b)
	case TupleV:
		b, ok := y.(TupleV)
		return ok && e.sameVals(a, b)
	case IterV:
		b, ok := y.(IterV)
		return ok && a.isStr == b.isStr && a.idx == b.idx && a.pos == b.pos && a.str == b.str && len(a.ents) == len(b.ents) && (len(a.ents) == 0 || &a.ents[0] == &b.ents[0])
	case RTypeV:
		b, ok := y.(RTypeV)
		return ok && types.Identical(a.t, b.t)
	case ReflV:
		b, ok := y.(ReflV)
		if !ok || (a.t == nil) != (b.t == nil) || a.t != nil && !types.Identical(a.t, b.t) || a.ro != b.ro || (a.addr == nil) != (b.addr == nil) {
			return false
		}
		if a.addr != nil {
			return *a.addr == *b.addr
		}
		return e.sameVal(a.v, b.v)
	case OpaqueV:
		b, ok := y.(OpaqueV)
		return ok && a == b
	case UnionV:
		b, ok := y.(UnionV)
		if !ok || len(a.alts) != len(b.alts) {
			return false
		}
		for i := range a.alts {
			if a.alts[i].g != b.alts[i].g || !e.sameVal(a.alts[i].v, b.alts[i].v) {
				return false
			}
		}
		return true
	}
	return false
}

func (e *Engine) sameVals(a, b []Value) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !e.sameVal(a[i], b[i]) {
			return false
		}
	}
	return true
}

// mergeVal: if d then x else y.
func (e *Engine) mergeVal(d *Term, x, y Value) Value {
	if d.isTrue() {
		return x
	}
	if d.isFalse() {
		return y
	}
	if a, ok := x.(*Term); ok {
		if b, ok := y.(*Term); ok {
			if a == b {
				return a
			}
			if a.w == b.w {
				return e.tb.Ite(d, a, b)
			}
			panic(mergeFail{"width"})
		}
	}
	if e.sameVal(x, y) {
		return x
	}
	_, ux := x.(UnionV)
	_, uy := y.(UnionV)
	if !ux && !uy {
		if v, ok := e.merge1(d, x, y); ok {
			return v
		}
		return UnionV{[]Alt{{d, x}, {e.tb.Not(d), y}}}
	}
	var alts []Alt
	add := func(g *Term, v Value) {
		if u, ok := v.(UnionV); ok {
			for _, a := range u.alts {
				alts = append(alts, Alt{e.tb.And2(g, a.g), a.v})
			}
			return
		}
		alts = append(alts, Alt{g, v})
	}
	add(d, x)
	add(e.tb.Not(d), y)
	return e.mkUnion(alts)
}

// mkUnion builds a value from exclusive alternatives, combining those of the same shape.
func (e *Engine) mkUnion(alts []Alt) Value {
	var out []Alt
	for _, a := range alts {
		if a.g.isFalse() {
			continue
		}
		if a.g.isTrue() {
			return a.v
		}
		done := false
		for i := range out {
			if e.sameVal(out[i].v, a.v) {
				out[i].g = e.tb.Or(out[i].g, a.g)
				done = true
				break
			}
			if v, ok := e.merge1(out[i].g, out[i].v, a.v); ok {
				out[i] = Alt{e.tb.Or(out[i].g, a.g), v}
				done = true
				break
			}
		}
		if !done {
			out = append(out, a)
		}
	}
	if len(out) == 0 {
		panic(deadSig{})
	}
	if len(out) == 1 {
		return out[0].v
	}
	if len(out) > unionStrMax {
		if s, ok := e.foldStr(out); ok {
			return s
		}
	}
	return UnionV{out}
}

// merge1 merges two values of the same shape without a union.
func (e *Engine) merge1(d *Term, x, y Value) (Value, bool) {
	switch a := x.(type) {
	case *Term:
		if b, ok := y.(*Term); ok && a.w == b.w {
			return e.tb.Ite(d, a, b), true
		}
	case StrV:
		b, ok := y.(StrV)
		if ok && a.vec != nil && a.vec == b.vec {
			return StrV{vec: a.vec, off: e.tb.Ite(d, a.off, b.off), end: e.tb.Ite(d, a.end, b.end)}, true
		}
		if ok {
			return e.mergeStr(d, a, b)
		}
	case Ptr:
		if b, ok := y.(Ptr); ok && a.obj == b.obj && a.obj != 0 {
			return Ptr{a.obj, e.tb.Ite(d, a.off, b.off)}, true
		}
	case SliceV:
		if b, ok := y.(SliceV); ok && a.obj == b.obj && a.base == b.base && a.esz == b.esz && a.obj != 0 {
			return SliceV{a.obj, a.base, a.esz, e.tb.Ite(d, a.lo, b.lo), e.tb.Ite(d, a.hi, b.hi), e.tb.Ite(d, a.max, b.max)}, true
		}
	case IfaceV:
		if b, ok := y.(IfaceV); ok && a.t != nil && b.t != nil && types.Identical(a.t, b.t) {
			if v, ok := e.merge1(d, a.v, b.v); ok {
				return IfaceV{a.t, v}, true
			}
		}
	case FuncV:
		if b, ok := y.(FuncV); ok && sameFn(a, b) && len(a.rv) == 0 {
			env := make([]Value, len(a.env))
			for i := range env {
				env[i] = e.mergeVal(d, a.env[i], b.env[i])
			}
			return FuncV{fn: a.fn, bi: a.bi, env: env}, true
		}
	case StructV:
		if b, ok := y.(StructV); ok && len(a) == len(b) {
			r := make(StructV, len(a))
			for i := range r {
				r[i] = e.mergeVal(d, a[i], b[i])
			}
			return r, true
		}
	case ArrayV:
		if b, ok := y.(ArrayV); ok && len(a) == len(b) {
			r := make(ArrayV, len(a))
			for i := range r {
				r[i] = e.mergeVal(d, a[i], b[i])
			}
			return r, true
		}
	case IterV:
		if b, ok := y.(IterV); ok && a.isStr && b.isStr && e.sameVal(a.str, b.str) {
			return IterV{str: a.str, pos: e.tb.Ite(d, a.pos, b.pos), isStr: true}, true
		}
	case TupleV:
		if b, ok := y.(TupleV); ok && len(a) == len(b) {
			r := make(TupleV, len(a))
			for i := range r {
				r[i] = e.mergeVal(d, a[i], b[i])
			}
			return r, true
		}
	}
	return nil, false
}

// mergeStr merges strings cell by cell when at least one is symbolic and both are short.
func (e *Engine) mergeStr(d *Term, a, b StrV) (Value, bool) {
	if a.vec == nil && b.vec == nil {
		return nil, false
	}
	if a.vec != nil && !a.off.isConst() || b.vec != nil && !b.off.isConst() {
		return nil, false
	}
	na, nb := e.strMax(a), e.strMax(b)
	if na > 96 || nb > 96 {
		return nil, false
	}
	if na == 0 || nb == 0 {
		// keep the window of the other one, empty
		if na == 0 && b.vec != nil {
			return StrV{vec: b.vec, off: b.off, end: e.tb.Ite(d, b.off, b.end)}, true
		}
		if nb == 0 && a.vec != nil {
			return StrV{vec: a.vec, off: a.off, end: e.tb.Ite(d, a.end, a.off)}, true
		}
		if na == 0 && nb == 0 {
			return StrV{}, true
		}
	}
	n := max(na, nb)
	v := newVec(n, e.tb.Const(8, 0))
	tok := new(otok)
	for i := 0; i < n; i++ {
		var x, y *Term
		if i < na {
			x = e.strCell(a, i)
		}
		if i < nb {
			y = e.strCell(b, i)
		}
		switch {
		case x == nil:
			v.set(tok, i, y)
		case y == nil:
			v.set(tok, i, x)
		default:
			v.set(tok, i, e.tb.Ite(d, x, y))
		}
	}
	return StrV{vec: v, off: e.c0, end: e.tb.Ite(d, e.strLen(a), e.strLen(b))}, true
}

var _ ssa.Value
