package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// FuncInfo caches per-function data: register numbering, immediate post-dominators, liveness.
type FuncInfo struct {
	fn             *ssa.Function
	name           string
	reg            map[ssa.Value]int
	nregs          int
	nphi           []int
	ipdom          []int // -1: function exit, -2: none (cannot reach exit)
	liveIn         []map[int]bool
	liveC          map[[2]int][]int
	inLoop         []bool
	instrs         int
	phiDef, phiUse []map[int]bool
	recUses        map[int]bool
	liveM          map[[2]int]map[int]bool
}

func (e *Engine) info(fn *ssa.Function) *FuncInfo {
	if fi, ok := e.infos[fn]; ok {
		return fi
	}
	e.ensureBuilt(fn)
	fi := &FuncInfo{fn: fn, name: fn.String(), reg: map[ssa.Value]int{}, liveC: map[[2]int][]int{}}
	for _, p := range fn.Params {
		fi.reg[p] = fi.nregs
		fi.nregs++
	}
	for _, p := range fn.FreeVars {
		fi.reg[p] = fi.nregs
		fi.nregs++
	}
	n := len(fn.Blocks)
	fi.nphi = make([]int, n)
	for i, b := range fn.Blocks {
		for _, in := range b.Instrs {
			fi.instrs++
			if _, ok := in.(*ssa.Phi); ok {
				fi.nphi[i]++
			}
			if v, ok := in.(ssa.Value); ok {
				fi.reg[v] = fi.nregs
				fi.nregs++
			}
		}
	}
	fi.computeIpdom()
	e.infos[fn] = fi
	return fi
}

func (fi *FuncInfo) computeIpdom() {
	n := len(fi.fn.Blocks)
	const exit = -1
	var virt []bool
	// reverse post-order of the reverse CFG from the virtual exit n
	succ := func(b int) []int {
		blk := fi.fn.Blocks[b]
		if len(blk.Succs) == 0 {
			return []int{n}
		}
		r := make([]int, len(blk.Succs))
		for i, s := range blk.Succs {
			r[i] = s.Index
		}
		if virt != nil && virt[b] {
			r = append(r, n)
		}
		return r
	}
	preds := make([][]int, n+1)
	for b := 0; b < n; b++ {
		// blocks ending in panic do not constrain the join
		if fi.isPanicBlock(b) {
			continue
		}
		for _, s := range succ(b) {
			preds[s] = append(preds[s], b)
		}
	}
	order := []int{}
	seen := make([]bool, n+1)
	var dfs func(int)
	dfs = func(x int) {
		seen[x] = true
		for _, p := range preds[x] {
			if !seen[p] {
				dfs(p)
			}
		}
		order = append(order, x)
	}
	dfs(n)
	// blocks that never reach the exit: let one block of each closed loop lead to it virtually
	real := append([]bool(nil), seen...)
	virt = make([]bool, n+1)
	for {
		h := -1
		for b := 0; b < n && h < 0; b++ {
			if seen[b] || fi.isPanicBlock(b) {
				continue
			}
			// b is on a cycle without exit?
			vis := make([]bool, n)
			var reach func(x int) bool
			reach = func(x int) bool {
				for _, s := range fi.fn.Blocks[x].Succs {
					if s.Index == b {
						return true
					}
					if !vis[s.Index] {
						vis[s.Index] = true
						if reach(s.Index) {
							return true
						}
					}
				}
				return false
			}
			if reach(b) {
				h = b
			}
		}
		if h < 0 {
			break
		}
		virt[h] = true
		preds[n] = append(preds[n], h)
		order = order[:0]
		for i := range seen {
			seen[i] = false
		}
		dfs(n)
	}
	num := make([]int, n+1)
	for i := range num {
		num[i] = -1
	}
	for i, x := range order {
		num[x] = i
	}
	idom := make([]int, n+1)
	for i := range idom {
		idom[i] = -1
	}
	idom[n] = n
	inter := func(a, b int) int {
		for a != b {
			for num[a] < num[b] {
				a = idom[a]
			}
			for num[b] < num[a] {
				b = idom[b]
			}
		}
		return a
	}
	for changed := true; changed; {
		changed = false
		for i := len(order) - 1; i >= 0; i-- {
			x := order[i]
			if x == n {
				continue
			}
			nd := -1
			for _, s := range succ(x) {
				if num[s] < 0 || idom[s] < 0 {
					continue
				}
				if nd < 0 {
					nd = s
				} else {
					nd = inter(nd, s)
				}
			}
			if nd >= 0 && idom[x] != nd {
				idom[x] = nd
				changed = true
			}
		}
	}
	fi.ipdom = make([]int, n)
	for b := 0; b < n; b++ {
		switch {
		case idom[b] < 0:
			fi.ipdom[b] = -2
		case idom[b] == n && real[b]:
			fi.ipdom[b] = exit
		case idom[b] == n:
			fi.ipdom[b] = -2
		default:
			fi.ipdom[b] = idom[b]
		}
	}
}

// recoverUses: registers read by the block run after a recovered panic.
func (fi *FuncInfo) recoverUses() map[int]bool {
	if fi.recUses == nil {
		fi.recUses = map[int]bool{}
		if rb := fi.fn.Recover; rb != nil {
			for _, in := range rb.Instrs {
				for _, op := range in.Operands(nil) {
					if *op == nil {
						continue
					}
					if r, ok := fi.reg[*op]; ok {
						fi.recUses[r] = true
					}
				}
			}
		}
	}
	return fi.recUses
}

func (fi *FuncInfo) isPanicBlock(b int) bool {
	blk := fi.fn.Blocks[b]
	if len(blk.Instrs) > 0 {
		if _, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Panic); ok {
			return true
		}
	}
	return false
}

func (fi *FuncInfo) computeLive() {
	n := len(fi.fn.Blocks)
	fi.liveIn = make([]map[int]bool, n)
	use := make([]map[int]bool, n)
	def := make([]map[int]bool, n)
	phiUse := make([]map[int]bool, n) // uses by phis of successors, per predecessor
	for i := range phiUse {
		phiUse[i] = map[int]bool{}
	}
	for i, b := range fi.fn.Blocks {
		u, d := map[int]bool{}, map[int]bool{}
		for _, in := range b.Instrs {
			if phi, ok := in.(*ssa.Phi); ok {
				for k, ev := range phi.Edges {
					if r, ok := fi.reg[ev]; ok {
						phiUse[b.Preds[k].Index][r] = true
					}
				}
				// phi results are live at the position after the phis; treat as uses satisfied before
				continue
			}
			for _, op := range in.Operands(nil) {
				if *op == nil {
					continue
				}
				if r, ok := fi.reg[*op]; ok && !d[r] {
					u[r] = true
				}
			}
			if v, ok := in.(ssa.Value); ok {
				d[fi.reg[v]] = true
			}
		}
		use[i], def[i] = u, d
		fi.liveIn[i] = map[int]bool{}
	}
	phiDef := make([]map[int]bool, n)
	for i, b := range fi.fn.Blocks {
		phiDef[i] = map[int]bool{}
		for _, in := range b.Instrs {
			if phi, ok := in.(*ssa.Phi); ok {
				phiDef[i][fi.reg[phi]] = true
			}
		}
	}
	// liveIn here = live right after the phis of the block
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			out := fi.liveOut(i, phiDef, phiUse)
			in := fi.liveIn[i]
			for r := range use[i] {
				if !in[r] {
					in[r] = true
					changed = true
				}
			}
			for r := range out {
				if !def[i][r] && !in[r] {
					in[r] = true
					changed = true
				}
			}
		}
	}
	fi.phiDef, fi.phiUse = phiDef, phiUse
}

func (fi *FuncInfo) liveOut(i int, phiDef, phiUse []map[int]bool) map[int]bool {
	out := map[int]bool{}
	for _, s := range fi.fn.Blocks[i].Succs {
		for r := range fi.liveIn[s.Index] {
			if !phiDef[s.Index][r] {
				out[r] = true
			}
		}
	}
	for r := range phiUse[i] {
		out[r] = true
	}
	return out
}

// liveAt: registers live before instruction pc of block b.
func (fi *FuncInfo) liveAt(b, pc int) map[int]bool {
	k := [2]int{b, pc}
	if m, ok := fi.liveM[k]; ok {
		return m
	}
	if fi.liveIn == nil {
		fi.computeLive()
		fi.liveM = map[[2]int]map[int]bool{}
	}
	live := fi.liveOut(b, fi.phiDef, fi.phiUse)
	ins := fi.fn.Blocks[b].Instrs
	for i := len(ins) - 1; i >= pc; i-- {
		in := ins[i]
		if v, ok := in.(ssa.Value); ok {
			delete(live, fi.reg[v])
		}
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		for _, op := range in.Operands(nil) {
			if *op == nil {
				continue
			}
			if r, ok := fi.reg[*op]; ok {
				live[r] = true
			}
		}
	}
	fi.liveM[k] = live
	return live
}

// ---- type layout

func (e *Engine) size(t types.Type) int {
	if n, ok := e.sizes[t]; ok {
		return n
	}
	n := 1
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n = 0
		for i := 0; i < u.NumFields(); i++ {
			n += e.size(u.Field(i).Type())
		}
	case *types.Array:
		n = int(u.Len()) * e.size(u.Elem())
	case *types.Tuple:
		n = 0
		for i := 0; i < u.Len(); i++ {
			n += e.size(u.At(i).Type())
		}
	}
	e.sizes[t] = n
	return n
}

func (e *Engine) fieldOff(st *types.Struct, i int) int {
	if a, ok := e.offs[st]; ok {
		return a[i]
	}
	a := make([]int, st.NumFields()+1)
	o := 0
	for k := 0; k < st.NumFields(); k++ {
		a[k] = o
		o += e.size(st.Field(k).Type())
	}
	a[st.NumFields()] = o
	e.offs[st] = a
	return a[i]
}

func intInfo(t types.Type) (w uint8, signed, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return
	}
	switch b.Kind() {
	case types.Int, types.Int64:
		return 64, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	case types.UntypedInt:
		return 64, true, true
	}
	return
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isComplex(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsComplex != 0
}

// zero value of a type as a register value
func (e *Engine) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := intInfo(t); ok {
			return e.tb.Const(w, 0)
		}
		switch {
		case u.Info()&types.IsBoolean != 0:
			return e.tb.False
		case u.Info()&types.IsString != 0:
			return StrV{}
		case u.Info()&types.IsFloat != 0:
			return FloatV(0)
		case u.Info()&types.IsComplex != 0:
			return ComplexV(0)
		case u.Kind() == types.UnsafePointer:
			return Ptr{0, e.c0}
		case u.Kind() == types.UntypedNil:
			return Ptr{0, e.c0}
		}
	case *types.Pointer:
		return Ptr{0, e.c0}
	case *types.Slice:
		return e.nilSlice(u.Elem())
	case *types.Interface:
		return IfaceV{}
	case *types.Signature:
		return FuncV{}
	case *types.Map:
		return MapV{0}
	case *types.Chan:
		return ChanV{0}
	case *types.Struct:
		s := make(StructV, u.NumFields())
		for i := range s {
			s[i] = e.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		s := make(ArrayV, u.Len())
		if len(s) > 0 {
			z := e.zero(u.Elem())
			for i := range s {
				s[i] = z
			}
		}
		return s
	case *types.Tuple:
		s := make(TupleV, u.Len())
		for i := range s {
			s[i] = e.zero(u.At(i).Type())
		}
		return s
	}
	unsup("zero of %s", t)
	return nil
}

func (e *Engine) nilSlice(elem types.Type) SliceV {
	return SliceV{0, 0, int32(e.size(elem)), e.c0, e.c0, e.c0}
}

// flatten a register value of type t into cells
func (e *Engine) flat(t types.Type, v Value, out []Value) []Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if un, ok := v.(UnionV); ok {
			return e.flatUnion(t, un, out)
		}
		s := v.(StructV)
		for i := range s {
			out = e.flat(u.Field(i).Type(), s[i], out)
		}
		return out
	case *types.Array:
		if un, ok := v.(UnionV); ok {
			return e.flatUnion(t, un, out)
		}
		for _, x := range v.(ArrayV) {
			out = e.flat(u.Elem(), x, out)
		}
		return out
	}
	return append(out, v)
}

func (e *Engine) flatUnion(t types.Type, un UnionV, out []Value) []Value {
	var acc []Value
	for i := len(un.alts) - 1; i >= 0; i-- {
		c := e.flat(t, un.alts[i].v, nil)
		if acc == nil {
			acc = c
			continue
		}
		for k := range c {
			acc[k] = e.mergeVal(un.alts[i].g, c[k], acc[k])
		}
	}
	return append(out, acc...)
}

func (e *Engine) unflat(t types.Type, get func(i int) Value, pos int) (Value, int) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := make(StructV, u.NumFields())
		for i := range s {
			s[i], pos = e.unflat(u.Field(i).Type(), get, pos)
		}
		return s, pos
	case *types.Array:
		s := make(ArrayV, u.Len())
		for i := range s {
			s[i], pos = e.unflat(u.Elem(), get, pos)
		}
		return s, pos
	}
	return get(pos), pos + 1
}
