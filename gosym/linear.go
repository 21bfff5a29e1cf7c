package main

import "math/bits"

// Linear forms: sums of terms with constant coefficients.

type linTerm struct {
	t *Term
	k uint64
}

type linForm struct {
	ts []linTerm
	k0 uint64
	n0 uint64 // subtracted (exact forms)
	// subtracted constants stay inside the terms
	noNeg bool
}

func (l *linForm) add(t *Term, k uint64) {
	for i := range l.ts {
		if l.ts[i].t == t {
			l.ts[i].k += k
			return
		}
	}
	l.ts = append(l.ts, linTerm{t, k})
}

const maxLin = 48

// linear adds k*x to a linear form modulo 2^w. With exact, the sum must be one of integers: no part wraps, and the
// constant is below every value of the rest.
func linear(l *linForm, x *Term, k uint64, exact bool) bool {
	if len(l.ts) > maxLin {
		return false
	}
	if x.isConst() {
		l.k0 += k * x.val
		return true
	}
	switch x.op {
	case OpAdd:
		a, c := x.args[0], x.args[1]
		if m := maskOf(x.w); exact && c.isConst() && c.val > m/2 && !l.noNeg {
			if d := -c.val & m; a.lo >= d {
				l.n0 += k * d
				return linear(l, a, k, exact)
			}
		}
		if exact {
			if s, o := bits.Add64(a.hi, c.hi, 0); o != 0 || s > maskOf(x.w) {
				break
			}
		}
		return linear(l, a, k, exact) && linear(l, c, k, exact)
	case OpSub:
		if !exact {
			return linear(l, x.args[0], k, exact) && linear(l, x.args[1], -k, exact)
		}
	case OpMul:
		if a, c := x.args[0], x.args[1]; c.isConst() {
			if exact {
				if h, m := bits.Mul64(a.hi, c.val); h != 0 || m > maskOf(x.w) {
					break
				}
			}
			return linear(l, a, k*c.val, exact)
		}
	case OpShl:
		if a, c := x.args[0], x.args[1]; c.isConst() && c.val < uint64(x.w) {
			if exact && bits.Len64(a.hi)+int(c.val) > int(x.w) {
				break
			}
			return linear(l, a, k<<c.val, exact)
		}
	case OpExtract, OpZExt:
		in := x.args[0]
		if x.op == OpExtract && x.val == 0 && !exact {
			return linear(l, in, k, false)
		}
		if x.op == OpExtract && (x.val != 0 || in.hi > maskOf(x.w)) {
			break
		}
		n := linForm{noNeg: l.noNeg}
		if linear(&n, in, 1, true) {
			for _, y := range n.ts {
				l.add(y.t, k*y.k)
			}
			if exact {
				l.k0 += k * n.k0
				l.n0 += k * n.n0
			} else {
				l.k0 += k * (n.k0 - n.n0)
			}
			return true
		}
	}
	l.add(x, k)
	return true
}

// exactForm: a sum of non-negative integers.
func exactForm(x *Term) (linForm, bool) {
	l := linForm{}
	if !linear(&l, x, 1, true) {
		return l, false
	}
	if l.n0 > l.k0 {
		l = linForm{noNeg: true}
		if !linear(&l, x, 1, true) {
			return l, false
		}
	}
	l.k0 -= l.n0
	l.n0 = 0
	return l, true
}

// linDiv divides a linear form by a constant if the result is linear again: the parts that c does not divide stay
// between two multiples of c.
func (b *TB) linDiv(op Op, x *Term, c uint64) *Term {
	in := x
	for in.op == OpZExt || in.op == OpExtract && in.val == 0 {
		in = in.args[0]
	}
	if in.op != OpAdd && in.op != OpMul && in.op != OpShl {
		return nil
	}
	l, ok := exactForm(x)
	if !ok {
		return nil
	}
	var qs, rs []linTerm
	rlo, rhi := l.k0%c, l.k0%c
	for _, t := range l.ts {
		if t.k%c == 0 {
			qs = append(qs, linTerm{t.t, t.k / c})
			continue
		}
		// the multiple of c in the coefficient goes to the quotient
		h, m := bits.Mul64(t.k%c, t.t.hi)
		s, o := bits.Add64(rhi, m, 0)
		if h != 0 || o != 0 {
			return nil
		}
		rlo, rhi = rlo+t.k%c*t.t.lo, s
		if t.k >= c {
			qs = append(qs, linTerm{t.t, t.k / c})
		}
		rs = append(rs, linTerm{t.t, t.k % c})
	}
	if len(qs) == 0 && l.k0 < c || rlo/c != rhi/c {
		return nil
	}
	q0 := rlo / c
	if op == OpUDiv {
		return b.linSum(x.w, qs, l.k0/c+q0)
	}
	return b.linSum(x.w, rs, l.k0%c-q0*c)
}

func (b *TB) linSum(w uint8, ts []linTerm, k0 uint64) *Term {
	r := b.Const(w, k0)
	for _, t := range ts {
		r = b.bin(OpAdd, r, b.bin(OpMul, b.fit(t.t, w), b.Const(w, t.k)))
	}
	return r
}

// linSub subtracts linear forms if that leaves one.
func (b *TB) linSub(x, y *Term) *Term {
	l, ok := exactForm(x)
	m, ok2 := exactForm(y)
	if !ok || !ok2 || m.k0 > l.k0 {
		return nil
	}
next:
	for _, t := range m.ts {
		for i := range l.ts {
			if l.ts[i].t == t.t {
				if l.ts[i].k < t.k {
					return nil
				}
				l.ts[i].k -= t.k
				continue next
			}
		}
		return nil
	}
	ts := l.ts[:0]
	for _, t := range l.ts {
		if t.k != 0 {
			ts = append(ts, t)
		}
	}
	return b.linSum(x.w, ts, l.k0-m.k0)
}

// fit changes the width of a term whose value fits.
func (b *TB) fit(t *Term, w uint8) *Term {
	if t.w < w {
		return b.ZExt(t, w)
	}
	return b.Extract(t, 0, w)
}

// linCmp compares linear forms: 1 equal, -1 different, 0 not known.
func linCmp(x, y *Term) int {
	if !linOp(x) && !linOp(y) {
		return 0
	}
	l := linForm{}
	if !linear(&l, x, 1, false) || !linear(&l, y, ^uint64(0), false) {
		return 0
	}
	m := maskOf(x.w)
	for _, t := range l.ts {
		if t.k&m != 0 {
			return 0
		}
	}
	if l.k0&m == 0 {
		return 1
	}
	return -1
}

func linOp(t *Term) bool {
	return t.op == OpExtract && linOp(t.args[0]) || t.op == OpAdd || t.op == OpSub || t.op == OpMul || t.op == OpShl
}
