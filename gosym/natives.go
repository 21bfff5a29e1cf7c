package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"
	"sync"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// Models of functions that have no Go body, that talk to the operating system, or whose
// execution instruction by instruction would only blow up the formulas.

var natives map[string]nativeFn

func nop(v Value) nativeFn {
	return func(e *Engine, st *State, c *callCtx) (Value, bool) { return v, true }
}

var voidV = TupleV{}

// toStr views a string or byte slice argument as a string of cells.
func (e *Engine) toStr(st *State, v Value) StrV {
	v = e.one(st, v)
	switch x := v.(type) {
	case StrV:
		return x
	case SliceV:
		return e.bytesToStr(st, x)
	case OpaqueV:
		unsup("content of %s", x.tag)
	}
	panic(engineErr(fmt.Sprintf("string expected, got %T", v)))
}

// firstIndex: index of the first position (of 0..max-1) for which p holds, or -1.
func (e *Engine) firstIndex(st *State, maxn int, p func(i int) *Term) *Term {
	tb := e.tb
	none := tb.True
	var ents []vsEnt
	for i := 0; i < maxn; i++ {
		h := e.under(st, p(i))
		if h.isFalse() {
			continue
		}
		ents = append(ents, vsEnt{uint64(i), tb.And2(none, h)})
		none = tb.And2(none, tb.Not(h))
		if none.isFalse() {
			break
		}
	}
	if !none.isFalse() {
		ents = append(ents, vsEnt{^uint64(0), none})
	}
	return tb.mkVS(64, ents)
}

func (e *Engine) lastIndex(st *State, maxn int, p func(i int) *Term) *Term {
	tb := e.tb
	none := tb.True
	var ents []vsEnt
	for i := maxn - 1; i >= 0; i-- {
		h := e.under(st, p(i))
		if h.isFalse() {
			continue
		}
		ents = append(ents, vsEnt{uint64(i), tb.And2(none, h)})
		none = tb.And2(none, tb.Not(h))
		if none.isFalse() {
			break
		}
	}
	if !none.isFalse() {
		ents = append(ents, vsEnt{^uint64(0), none})
	}
	return tb.mkVS(64, ents)
}

func (e *Engine) indexByte(st *State, s StrV, c *Term) *Term {
	n := e.strLen(s)
	m := e.strMax(s)
	return e.firstIndex(st, m, func(i int) *Term {
		return e.tb.And2(e.tb.Ult(e.tb.Int(i), n), e.tb.Eq(e.strCell(s, i), c))
	})
}

func (e *Engine) lastIndexByte(st *State, s StrV, c *Term) *Term {
	n := e.strLen(s)
	m := e.strMax(s)
	return e.lastIndex(st, m, func(i int) *Term {
		return e.tb.And2(e.tb.Ult(e.tb.Int(i), n), e.tb.Eq(e.strCell(s, i), c))
	})
}

func (e *Engine) indexStr(st *State, s, sep StrV) *Term {
	k := int(e.conc(st, e.strLen(sep)))
	n := e.strLen(s)
	m := e.strMax(s)
	if k == 0 {
		return e.c0
	}
	return e.firstIndex(st, m-k+1, func(i int) *Term {
		g := e.tb.Ule(e.tb.Int(i+k), n)
		for j := 0; j < k; j++ {
			g = e.tb.And2(g, e.tb.Eq(e.strCell(s, i+j), e.strCell(sep, j)))
		}
		return g
	})
}

func (e *Engine) countByte(st *State, s StrV, c *Term) *Term {
	n := e.strLen(s)
	m := e.strMax(s)
	acc := e.c0
	for i := 0; i < m; i++ {
		h := e.tb.And2(e.tb.Ult(e.tb.Int(i), n), e.tb.Eq(e.strCell(s, i), c))
		acc = e.tb.Ite(h, e.tb.Add(acc, e.tb.Int(1)), acc)
	}
	return acc
}

func (e *Engine) isSpaceRune(r *Term) *Term {
	tb := e.tb
	is := func(v int) *Term { return tb.Eq(r, tb.Const(32, uint64(v))) }
	rg := func(a, b int) *Term {
		return tb.And2(tb.Ule(tb.Const(32, uint64(a)), r), tb.Ule(r, tb.Const(32, uint64(b))))
	}
	return tb.Or(rg(9, 13), is(32), is(0x85), is(0xa0), is(0x1680), rg(0x2000, 0x200a), is(0x2028), is(0x2029), is(0x202f), is(0x205f), is(0x3000))
}

// decodeLast: the last rune of a string and its width.
func (e *Engine) decodeLast(st *State, s StrV) (*Term, *Term) {
	tb := e.tb
	n := e.strLen(s)
	at := func(k int) *Term { // k-th byte from the end, 1 = last
		return e.strAtOr0(s, tb.Sub(n, tb.Int(k)), n)
	}
	has := func(k int) *Term { return tb.Ule(tb.Int(k), n) }
	b8 := func(v int) *Term { return tb.Const(8, uint64(v)) }
	start := func(b *Term) *Term { return tb.Not(tb.Eq(tb.bin(OpBAnd, b, b8(0xc0)), b8(0x80))) }
	rerr := tb.Const(32, 0xfffd)
	last := at(1)
	ascii := tb.Ult(last, b8(0x80))
	r, w := rerr, tb.Int(1)
	if !ascii.isTrue() {
		for k := 4; k >= 2; k-- {
			// bytes n-k .. n-1
			var c [4]*Term
			for i := range c {
				if i < k {
					c[i] = at(k - i)
				} else {
					c[i] = b8(0)
				}
			}
			rk, wk := e.utf8Dec(c, func(i int) *Term { return tb.Bool(i < k) })
			full := tb.Eq(wk, tb.Int(k))
			cond := tb.And2(has(k), start(at(k)))
			r = tb.Ite(cond, tb.Ite(full, rk, rerr), r)
			w = tb.Ite(cond, tb.Ite(full, tb.Int(k), tb.Int(1)), w)
		}
	}
	r = tb.Ite(ascii, tb.ZExt(last, 32), r)
	w = tb.Ite(ascii, tb.Int(1), w)
	empty := tb.Eq(n, e.c0)
	return tb.Ite(empty, rerr, r), tb.Ite(empty, e.c0, w)
}

// opaqueErr: an error value whose text is not tracked.
func (e *Engine) opaqueErr(st *State, c *callCtx, tag string) Value {
	p := e.L.pkgOf["errors"]
	t := p.Pkg.Scope().Lookup("errorString").Type()
	id := e.newObjID(st, c.key())
	st.heap.put(st.tok, id, &Obj{owner: st.tok, kind: KCells, typ: t, vec: newVec(1, OpaqueV{tag})})
	return IfaceV{types.NewPointer(t), Ptr{id, e.c0}}
}

func (c *callCtx) key() interface{} {
	if c.instr == nil {
		return c.name
	}
	return c.instr
}

// allConcrete: a variadic ...interface{} argument holds only known plain values.
func (e *Engine) allConcrete(st *State, v Value) bool {
	s, ok := v.(SliceV)
	if !ok || !s.lo.isConst() || !s.hi.isConst() {
		return false
	}
	for i := s.lo.val; i < s.hi.val; i++ {
		i, ok := st.obj(s.obj).vec.get(int(s.base) + int(i)).(IfaceV)
		if !ok {
			return false
		}
		switch x := i.v.(type) {
		case *Term:
			if !x.isConst() {
				return false
			}
		case StrV:
			if _, ok := e.strConst(x); !ok {
				return false
			}
		case nil:
		default:
			return false
		}
	}
	return true
}

func two(a, b Value) Value { return TupleV{a, b} }

// now is the virtual clock: it stands still except in sleeps, like the clock of the native runs.
func (e *Engine) now(st *State) (*Term, *Term) {
	ns := clockBase + st.clock
	return e.tb.Int(int(ns / 1e9)), e.tb.Const(32, uint64(ns%1e9))
}

const clockBase int64 = 946684800123456789 // 2000-01-01T00:00:00.123456789Z

func init() {
	n := map[string]nativeFn{}
	natives = n
	alias := func(f nativeFn, names ...string) {
		for _, x := range names {
			n[x] = f
		}
	}
	// --- bytes and strings
	alias(func(e *Engine, st *State, c *callCtx) (Value, bool) {
		return e.indexByte(st, e.toStr(st, c.args[0]), e.term(st, c.args[1])), true
	}, "internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "bytes.IndexByte", "strings.IndexByte")
	alias(func(e *Engine, st *State, c *callCtx) (Value, bool) {
		return e.lastIndexByte(st, e.toStr(st, c.args[0]), e.term(st, c.args[1])), true
	}, "internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString", "bytes.LastIndexByte", "strings.LastIndexByte")
	alias(func(e *Engine, st *State, c *callCtx) (Value, bool) {
		return e.countByte(st, e.toStr(st, c.args[0]), e.term(st, c.args[1])), true
	}, "internal/bytealg.Count", "internal/bytealg.CountString")
	alias(func(e *Engine, st *State, c *callCtx) (Value, bool) {
		return e.indexStr(st, e.toStr(st, c.args[0]), e.toStr(st, c.args[1])), true
	}, "internal/bytealg.Index", "internal/bytealg.IndexString", "bytes.Index", "strings.Index")
	alias(func(e *Engine, st *State, c *callCtx) (Value, bool) {
		return e.strEq(st, e.toStr(st, c.args[0]), e.toStr(st, c.args[1])), true
	}, "internal/bytealg.Equal", "bytes.Equal")
	alias(func(e *Engine, st *State, c *callCtx) (Value, bool) {
		a, b := e.toStr(st, c.args[0]), e.toStr(st, c.args[1])
		lt, gt := e.strLess(st, a, b), e.strLess(st, b, a)
		return e.tb.Ite(lt, e.tb.Int(-1), e.tb.Ite(gt, e.tb.Int(1), e.c0)), true
	}, "internal/bytealg.Compare", "internal/bytealg.CompareString", "bytes.Compare", "strings.Compare", "runtime.cmpstring")
	n["internal/bytealg.MakeNoZero"] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
		t := e.term(st, c.args[0])
		return e.makeSlice(st, c.key(), types.Typ[types.Uint8], t, t), true
	}
	for name, f := range runeSets {
		n[name] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
			x := e.term(st, c.args[0])
			if x.isConst() {
				return e.tb.Bool(f(rune(int32(x.val)))), true
			}
			return e.runeTree(name, func(r rune) int32 {
				if f(r) {
					return 1
				}
				return 0
			}, x, func(d int32) *Term { return e.tb.Bool(d != 0) }), true
		}
	}
	for name, f := range runeMaps {
		n[name] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
			x := e.term(st, c.args[0])
			if x.isConst() {
				return e.tb.Const(32, uint64(uint32(f(rune(int32(x.val)))))), true
			}
			return e.runeTree(name, func(r rune) int32 { return f(r) - r }, x, func(d int32) *Term { return e.tb.Add(x, e.tb.Const(32, uint64(uint32(d)))) }), true
		}
	}
	n["unicode.IsSpace"] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
		return e.isSpaceRune(e.term(st, c.args[0])), true
	}
	alias(func(e *Engine, st *State, c *callCtx) (Value, bool) {
		s := e.toStr(st, c.args[0])
		empty := e.tb.Eq(e.strLen(s), e.c0)
		r, w := e.decodeRune(st, s, e.c0)
		return two(e.tb.Ite(empty, e.tb.Const(32, 0xfffd), r), e.tb.Ite(empty, e.c0, w)), true
	}, "unicode/utf8.DecodeRune", "unicode/utf8.DecodeRuneInString")
	alias(func(e *Engine, st *State, c *callCtx) (Value, bool) {
		r, w := e.decodeLast(st, e.toStr(st, c.args[0]))
		return two(r, w), true
	}, "unicode/utf8.DecodeLastRune", "unicode/utf8.DecodeLastRuneInString")

	// --- errors and formatting
	n["fmt.Errorf"] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
		f, ok := e.strConst(e.toStr(st, c.args[0]))
		if ok && !strings.Contains(f, "%w") {
			return e.opaqueErr(st, c, "text of fmt.Errorf("+f+")"), true
		}
		e.pushFrame(st, c.fn, c.args, nil)
		return nil, false
	}
	for _, q := range []string{"Quote", "QuoteToASCII"} {
		n["strconv."+q] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
			if _, ok := e.strConst(e.toStr(st, c.args[0])); ok || e.ownCaller(st, 1) {
				e.pushFrame(st, c.fn, c.args, nil)
				return nil, false
			}
			return OpaqueV{"strconv.Quote"}, true // in the text of errors of the library
		}
	}

	// --- package plumbing
	alias(func(e *Engine, st *State, c *callCtx) (Value, bool) { return c.args[0], true },
		"internal/abi.NoEscape", "internal/abi.Escape", "strings.noescape", "internal/abi.EscapeNonString", "internal/stringslite.Clone", "strings.Clone", "context.WithoutCancel")
	alias(nop(voidV), "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.GC", "internal/godebug.(*Setting).IncNonDefault",
		"(*internal/godebug.Setting).IncNonDefault", "internal/race.Acquire", "internal/race.Release", "internal/testlog.Open", "internal/testlog.Stat",
		"internal/testlog.Getenv", "os.runtime_beforeExit", "internal/synctest.Associate", "time.runtimeIsBubbled", "log.init")
	delete(n, "log.init")
	n["runtime.Gosched"] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
		if st.multi {
			e.visible(st)
		}
		return voidV, true
	}
	n["time.Sleep"] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
		if st.multi {
			e.visible(st)
		}
		g := st.g()
		if g.wake == 0 {
			g.wake = st.clock + e.duration(st, c.args[0])
		}
		st.clock = max(st.clock, g.wake)
		g.wake = 0
		return voidV, true
	}
	n["internal/godebug.New"] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
		id := e.newObjID(st, c.key())
		st.heap.put(st.tok, id, &Obj{owner: st.tok, kind: KCells, vec: newVec(8, OpaqueV{"godebug setting"})})
		return Ptr{id, e.c0}, true
	}
	n["(*internal/godebug.Setting).Value"] = nop(StrV{})
	n["(*internal/godebug.Setting).Name"] = nop(StrV{})
	n["internal/synctest.IsInBubble"] = func(e *Engine, st *State, c *callCtx) (Value, bool) { return e.tb.False, true }
	n["runtime.GOMAXPROCS"] = func(e *Engine, st *State, c *callCtx) (Value, bool) { return e.tb.Int(8), true }
	n["runtime.NumGoroutine"] = func(e *Engine, st *State, c *callCtx) (Value, bool) { return e.tb.Int(e.live(st)), true }
	n["runtime.Caller"] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
		k := int(e.conc(st, e.term(st, c.args[0])))
		fr := st.g().frames
		// wrappers do not count
		for i := len(fr) - 1; i >= 0; i-- {
			if fr[i].fi.fn.Synthetic != "" && !strings.HasPrefix(fr[i].fi.fn.Synthetic, "instance") {
				continue
			}
			if k == 0 {
				f := fr[i]
				p := e.prog.Fset.Position(f.instr().Pos())
				return TupleV{e.tb.Const(64, 1), StrV{s: p.Filename}, e.tb.Int(p.Line), e.tb.True}, true
			}
			k--
		}
		return TupleV{e.tb.Const(64, 0), StrV{}, e.c0, e.tb.False}, true
	}
	n["os.Getpid"] = func(e *Engine, st *State, c *callCtx) (Value, bool) { return e.tb.Int(4242), true }
	n["os.Hostname"] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
		return two(e.hostname(), IfaceV{}), true
	}
	n["os.runtime_args"] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
		return e.nilSlice(types.Typ[types.String]), true
	}
	n["os.Exit"] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
		e.report(st, "panic", "os.Exit called")
		panic(deadSig{})
	}

	// --- time
	n["time.now"] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
		s, ns := e.now(st)
		return TupleV{s, ns, e.tb.Int(0)}, true
	}
	n["time.runtimeNow"] = n["time.now"]
	n["time.Now"] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
		s, ns := e.now(st)
		e.pushFrame(st, e.L.pkgOf["time"].Func("Unix"), []Value{s, e.tb.ZExt(ns, 64)}, nil)
		return nil, false
	}
	// only in the text of parse errors
	n["time.quote"] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
		if s, ok := c.args[0].(StrV); ok {
			if _, ok := e.strConst(s); ok {
				return nil, false
			}
		}
		return StrV{s: "?"}, true
	}
	n["time.runtimeNano"] = func(e *Engine, st *State, c *callCtx) (Value, bool) { return e.tb.Int(int(st.clock) + 1), true }
	n["time.initLocal"] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
		g := e.L.pkgOf["time"].Var("localLoc")
		st.wobj(e.globals[g]).vec.set(st.tok, 0, StrV{s: "UTC"})
		return voidV, true
	}
	n["context.WithTimeout"] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
		return two(c.args[0], FuncV{bi: "engine:nop"}), true
	}

	// --- math on known values
	for name, f := range map[string]func(float64) float64{"Log": math.Log, "Floor": math.Floor, "Ceil": math.Ceil, "Log10": math.Log10, "Log2": math.Log2, "Trunc": math.Trunc, "Sqrt": math.Sqrt, "Abs": math.Abs, "Exp": math.Exp} {
		f := f
		n["math."+name] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
			x, ok := c.args[0].(FloatV)
			if !ok {
				unsup("math on symbolic values")
			}
			return FloatV(f(float64(x))), true
		}
	}
	n["strconv.AppendFloat"] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
		x, ok := c.args[1].(FloatV)
		if !ok {
			unsup("formatting a symbolic float")
		}
		k := func(i int) int { return int(int64(e.conc(st, e.term(st, c.args[i])))) }
		s := strconv.FormatFloat(float64(x), byte(k(2)), k(3), k(4))
		return e.appendOp(st, nil, &callCtx{sig: c.fn.Signature, args: []Value{c.args[0], StrV{s: s}}}), true
	}
	n["math.Float64bits"] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
		return e.tb.Const(64, math.Float64bits(float64(c.args[0].(FloatV)))), true
	}
	n["math.Float32bits"] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
		return e.tb.Const(32, uint64(math.Float32bits(float32(c.args[0].(FloatV))))), true
	}
	n["math.Float64frombits"] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
		return FloatV(math.Float64frombits(e.conc(st, e.term(st, c.args[0])))), true
	}
	n["internal/strconv.float64bits"], n["internal/strconv.float32bits"] = n["math.Float64bits"], n["math.Float32bits"]
	n["math.Float32frombits"] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
		return FloatV(math.Float32frombits(uint32(e.conc(st, e.term(st, c.args[0]))))), true
	}

	initSync(n)
	initSym(n)
	initReflect(n)
}

// ---- synchronisation

// takePart distributes m values over the parts of the harness, it tells if this part explores value i.
func (st *State) takePart(i, m int) bool {
	n := st.shards
	if m >= n {
		if i%n != st.shard {
			return false
		}
		st.shard, st.shards = 0, 1
		return true
	}
	// parts with part%m == i take this value, and divide the next choice
	if st.shard%m != i {
		return false
	}
	st.shards = (n - i + m - 1) / m
	st.shard /= m
	return true
}

func initSync(n map[string]nativeFn) {
	lock := func(e *Engine, st *State, c *callCtx) (Value, bool) {
		if e.cellIs0(st, c.args[0], 0) || st.multi || len(st.gs) == 1 {
			e.visible(st)
		}
		e.cellSet(st, c.args[0], 0, 1)
		e.acq(st, c.args[0], 0)
		return voidV, true
	}
	unlock := func(e *Engine, st *State, c *callCtx) (Value, bool) {
		if e.cellIs0(st, c.args[0], 0) {
			e.fatal(st, "sync: unlock of unlocked mutex")
		}
		e.rel(st, c.args[0], 0)
		e.cellSet(st, c.args[0], 0, 0)
		return voidV, true
	}
	trylock := func(e *Engine, st *State, c *callCtx) (Value, bool) {
		e.visible(st)
		if !e.cellIs0(st, c.args[0], 0) {
			return e.tb.False, true
		}
		e.cellSet(st, c.args[0], 0, 1)
		e.acq(st, c.args[0], 0)
		return e.tb.True, true
	}
	for _, p := range []string{"(*sync.Mutex).", "(*internal/sync.Mutex)."} {
		n[p+"Lock"] = lock
		n[p+"Unlock"] = unlock
		n[p+"TryLock"] = trylock
	}
	// RWMutex: cell 0 writer, cell 2 number of readers
	n["(*sync.RWMutex).Lock"] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
		e.visible(st)
		e.cellSet(st, c.args[0], 0, 1)
		e.acq(st, c.args[0], 0)
		e.acq(st, c.args[0], 2)
		return voidV, true
	}
	n["(*sync.RWMutex).Unlock"] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
		if e.cellIs0(st, c.args[0], 0) {
			e.fatal(st, "sync: Unlock of unlocked RWMutex")
		}
		e.rel(st, c.args[0], 0)
		e.cellSet(st, c.args[0], 0, 0)
		return voidV, true
	}
	n["(*sync.RWMutex).RLock"] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
		e.visible(st)
		r := e.conc(st, e.cellGet(st, c.args[0], 2))
		e.cellSet(st, c.args[0], 2, r+1)
		e.acq(st, c.args[0], 0)
		return voidV, true
	}
	n["(*sync.RWMutex).RUnlock"] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
		r := e.conc(st, e.cellGet(st, c.args[0], 2))
		if r == 0 {
			e.fatal(st, "sync: RUnlock of unlocked RWMutex")
		}
		e.rel(st, c.args[0], 2)
		e.cellSet(st, c.args[0], 2, r-1)
		return voidV, true
	}
	// WaitGroup: cell 0 counter
	wgAdd := func(e *Engine, st *State, p Value, d int64) {
		v := int64(e.conc(st, e.cellGet(st, p, 0))) + d
		if v < 0 {
			e.panicNow("sync: negative WaitGroup counter")
		}
		e.rel(st, p, 0)
		e.cellSet(st, p, 0, uint64(v))
	}
	n["(*sync.WaitGroup).Add"] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
		if st.multi {
			e.visible(st)
		}
		wgAdd(e, st, c.args[0], int64(e.conc(st, e.term(st, c.args[1]))))
		return voidV, true
	}
	n["(*sync.WaitGroup).Done"] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
		wgAdd(e, st, c.args[0], -1)
		return voidV, true
	}
	n["(*sync.WaitGroup).Wait"] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
		e.visible(st)
		e.acq(st, c.args[0], 0)
		return voidV, true
	}
	// sections of the models in stdmodel.go: the object's first cell carries the order between them
	enter := func(vis bool) nativeFn {
		return func(e *Engine, st *State, c *callCtx) (Value, bool) {
			if vis && st.multi {
				e.visible(st)
			}
			e.acq(st, e.one(st, c.args[0]).(IfaceV).v, 0)
			st.g().sim++
			return voidV, true
		}
	}
	leave := func(e *Engine, st *State, c *callCtx) (Value, bool) {
		e.rel(st, e.one(st, c.args[0]).(IfaceV).v, 0)
		st.g().sim--
		return voidV, true
	}
	n["sync.simEnter"], n["sync.simQuiet"], n["sync.simLeave"] = enter(true), enter(false), leave
	n["time.simEnter"], n["time.simLeave"] = enter(false), leave
	// pools of the library hand out new objects only
	n["sync.simKeep"] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
		return e.tb.Bool(e.ownCaller(st, 2)), true
	}
	n["sort.simLen"] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
		i := e.one(st, c.args[0]).(IfaceV)
		s, ok := e.one(st, i.v).(SliceV)
		if !ok {
			unsup("sort.Slice of %T", i.v)
		}
		return e.tb.Sub(s.hi, s.lo), true
	}
	n["errors.simSet"] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
		err := e.one(st, c.args[0]).(IfaceV)
		i := e.one(st, c.args[1]).(IfaceV)
		pt, ok := i.t.Underlying().(*types.Pointer)
		if !ok {
			e.panicNow("errors: target must be a non-nil pointer")
		}
		if it, ok := pt.Elem().Underlying().(*types.Interface); ok {
			if !e.implements(err.t, it) {
				return e.tb.False, true
			}
			e.store(st, pt.Elem(), e.ptr(st, i.v), err)
			return e.tb.True, true
		}
		if !types.Identical(err.t, pt.Elem()) {
			return e.tb.False, true
		}
		e.store(st, pt.Elem(), e.ptr(st, i.v), err.v)
		return e.tb.True, true
	}
	n["internal/poll.runtime_Semrelease"] = nop(voidV)

	// atomics
	elem := func(name string) types.Type {
		switch {
		case strings.HasSuffix(name, "Int32"):
			return types.Typ[types.Int32]
		case strings.HasSuffix(name, "Uint32"):
			return types.Typ[types.Uint32]
		case strings.HasSuffix(name, "Int64"):
			return types.Typ[types.Int64]
		case strings.HasSuffix(name, "Uint64"):
			return types.Typ[types.Uint64]
		case strings.HasSuffix(name, "Uintptr"):
			return types.Typ[types.Uintptr]
		case strings.HasSuffix(name, "Pointer"):
			return types.Typ[types.UnsafePointer]
		}
		return nil
	}
	for _, ty := range []string{"Int32", "Uint32", "Int64", "Uint64", "Uintptr", "Pointer"} {
		t := elem(ty)
		pre := func(e *Engine, st *State, c *callCtx) {
			if st.multi {
				e.visible(st)
			}
			e.ptr(st, c.args[0])
			st.g().atomic++
			e.acq(st, c.args[0], 0)
		}
		post := func(e *Engine, st *State, c *callCtx, wr bool) {
			if wr && st.multi {
				e.rel(st, c.args[0], 0)
			}
			st.g().atomic--
		}
		n["sync/atomic.Load"+ty] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
			pre(e, st, c)
			v := e.load(st, t, c.args[0])
			post(e, st, c, false)
			return v, true
		}
		n["sync/atomic.Store"+ty] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
			pre(e, st, c)
			e.store(st, t, c.args[0], c.args[1])
			post(e, st, c, true)
			return voidV, true
		}
		n["sync/atomic.Swap"+ty] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
			pre(e, st, c)
			v := e.load(st, t, c.args[0])
			e.store(st, t, c.args[0], c.args[1])
			post(e, st, c, true)
			return v, true
		}
		n["sync/atomic.CompareAndSwap"+ty] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
			pre(e, st, c)
			st.g().atomic--
			v := e.load(st, t, c.args[0])
			eq := e.eqVals(st, t, v, c.args[1])
			ok := e.concBool(st, eq)
			st.g().atomic++
			if ok {
				e.store(st, t, c.args[0], c.args[2])
			}
			post(e, st, c, ok)
			return e.tb.Bool(ok), true
		}
		if ty != "Pointer" {
			n["sync/atomic.Add"+ty] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
				pre(e, st, c)
				v := e.tb.Add(e.load(st, t, c.args[0]).(*Term), e.term(st, c.args[1]))
				e.store(st, t, c.args[0], v)
				post(e, st, c, true)
				return v, true
			}
			for _, op := range []struct {
				n string
				o Op
			}{{"And", OpBAnd}, {"Or", OpBOr}} {
				op := op
				n["sync/atomic."+op.n+ty] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
					pre(e, st, c)
					v := e.load(st, t, c.args[0]).(*Term)
					e.store(st, t, c.args[0], e.tb.bin(op.o, v, e.term(st, c.args[1])))
					post(e, st, c, true)
					return v, true
				}
			}
		}
	}
	anyT := types.NewInterfaceType(nil, nil)
	n["(*sync/atomic.Value).Load"] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
		if st.multi {
			e.visible(st)
		}
		e.acq(st, c.args[0], 0)
		st.g().atomic++
		v := e.load(st, anyT, c.args[0])
		st.g().atomic--
		return v, true
	}
	n["(*sync/atomic.Value).Store"] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
		if st.multi {
			e.visible(st)
		}
		st.g().atomic++
		e.store(st, anyT, c.args[0], c.args[1])
		st.g().atomic--
		e.rel(st, c.args[0], 0)
		return voidV, true
	}
}

// fatal: an error that cannot be recovered.
func (e *Engine) fatal(st *State, msg string) {
	e.report(st, "panic", "fatal error: "+msg)
	panic(deadSig{})
}

// ---- harness interface

func (e *Engine) symVar(name string, w uint8, lo, hi uint64) *Term {
	if t, ok := e.symtab[name]; ok {
		if t.w != w || t.lo != lo || t.hi != hi {
			unsup("input %s declared twice with different ranges", name)
		}
		return t
	}
	t := e.tb.Var(w, name, lo, hi)
	e.symtab[name] = t
	return t
}

func (e *Engine) constStrArg(st *State, v Value) string {
	s, ok := e.strConst(e.toStr(st, v))
	if !ok {
		panic(engineErr("constant string expected"))
	}
	return s
}

func (e *Engine) symBytes(st *State, c *callCtx, name string, n int, ln *Term, lo, hi uint64) SliceV {
	id := e.allocElems(st, c.key(), types.Typ[types.Uint8], n)
	o := st.wobj(id)
	for i := 0; i < n; i++ {
		o.vec.set(st.tok, i, e.symVar(fmt.Sprintf("%s[%d]", name, i), 8, lo, hi))
	}
	return SliceV{id, 0, 1, e.c0, ln, ln}
}

func (e *Engine) symStr(name string, n int, ln *Term, lo, hi uint64) StrV {
	v := newVec(n, e.tb.Const(8, 0))
	tok := new(otok)
	for i := 0; i < n; i++ {
		v.set(tok, i, e.symVar(fmt.Sprintf("%s[%d]", name, i), 8, lo, hi))
	}
	return StrV{vec: v, off: e.c0, end: ln}
}

func (e *Engine) hostname() Value {
	if e.symHost > 0 {
		for i := 0; i < e.symHost; i++ {
			e.symVar(fmt.Sprintf("env.hostname[%d]", i), 8, 1, 255)
		}
		ln := e.symVar("env.hostname.len", 64, 0, uint64(e.symHost))
		v := newVec(e.symHost, e.tb.Const(8, 0))
		tok := new(otok)
		for i := 0; i < e.symHost; i++ {
			v.set(tok, i, e.symtab[fmt.Sprintf("env.hostname[%d]", i)])
		}
		return StrV{vec: v, off: e.c0, end: ln}
	}
	return StrV{s: "verif.example"}
}

func initSym(n map[string]nativeFn) {
	p := symPkg + "."
	n[p+"Byte"] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
		return e.symVar(e.constStrArg(st, c.args[0]), 8, 0, 255), true
	}
	n[p+"Bool"] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
		v := e.symVar(e.constStrArg(st, c.args[0]), 8, 0, 1)
		return e.tb.Eq(v, e.tb.Const(8, 1)), true
	}
	n[p+"Int"] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
		lo, hi := int64(e.conc(st, e.term(st, c.args[1]))), int64(e.conc(st, e.term(st, c.args[2])))
		name := e.constStrArg(st, c.args[0])
		if lo >= 0 {
			v := e.symVar(name, 64, uint64(lo), uint64(hi))
			return v, true
		}
		v := e.symVar(name, 64, 0, uint64(hi-lo))
		return e.tb.Add(v, e.tb.Int(int(lo))), true
	}
	n[p+"Int64"] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
		return e.symVar(e.constStrArg(st, c.args[0]), 64, 0, ^uint64(0)), true
	}
	n[p+"Bytes"] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
		k := int(e.conc(st, e.term(st, c.args[1])))
		return e.symBytes(st, c, e.constStrArg(st, c.args[0]), k, e.tb.Int(k), 0, 255), true
	}
	n[p+"BytesUpTo"] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
		k := int(e.conc(st, e.term(st, c.args[1])))
		name := e.constStrArg(st, c.args[0])
		return e.symBytes(st, c, name, k, e.symVar(name+".len", 64, 0, uint64(k)), 0, 255), true
	}
	n[p+"String"] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
		k := int(e.conc(st, e.term(st, c.args[1])))
		return e.symStr(e.constStrArg(st, c.args[0]), k, e.tb.Int(k), 0, 255), true
	}
	n[p+"StringUpTo"] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
		k := int(e.conc(st, e.term(st, c.args[1])))
		name := e.constStrArg(st, c.args[0])
		return e.symStr(name, k, e.symVar(name+".len", 64, 0, uint64(k)), 0, 255), true
	}
	rng := func(e *Engine, st *State, c *callCtx) (string, int, uint64, uint64) {
		return e.constStrArg(st, c.args[0]), int(e.conc(st, e.term(st, c.args[1]))), e.conc(st, e.term(st, c.args[2])), e.conc(st, e.term(st, c.args[3]))
	}
	n[p+"BytesIn"] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
		name, k, lo, hi := rng(e, st, c)
		return e.symBytes(st, c, name, k, e.symVar(name+".len", 64, 0, uint64(k)), lo, hi), true
	}
	n[p+"StringIn"] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
		name, k, lo, hi := rng(e, st, c)
		return e.symStr(name, k, e.symVar(name+".len", 64, 0, uint64(k)), lo, hi), true
	}
	n[p+"Assume"] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
		if !e.assume(st, e.term(st, c.args[0])) {
			panic(deadSig{})
		}
		return voidV, true
	}
	n[p+"Assert"] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
		t := e.term(st, c.args[0])
		msg := e.constStrArg(st, c.args[1])
		e.asserts[msg]++
		if t.isTrue() {
			return voidV, true
		}
		neg := e.tb.Not(t)
		r, m := e.feasible(st, neg)
		switch r {
		case Sat:
			bad := st.clone()
			bad.addPC(neg)
			bad.model = m
			e.report(bad, "assert", msg)
		case Unknown:
			e.incompl["solver gave no answer for assertion: "+msg]++
		}
		if !e.assume(st, t) {
			panic(deadSig{})
		}
		return voidV, true
	}
	n[p+"Fail"] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
		e.report(st, "assert", e.constStrArg(st, c.args[0]))
		panic(deadSig{})
	}
	n[p+"Reach"] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
		e.reach[e.constStrArg(st, c.args[0])] = true
		return voidV, true
	}
	obs := func(e *Engine, st *State, c *callCtx) (Value, bool) {
		v := c.args[1]
		if s, ok := v.(SliceV); ok {
			v = e.bytesToStr(st, s)
		}
		st.addLog(lgObs, e.constStrArg(st, c.args[0]), v)
		return voidV, true
	}
	for _, k := range []string{"ObsInt", "ObsStr", "ObsBool"} {
		n[p+k] = obs
	}
	n[p+"Concrete"] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
		return e.tb.Const(64, e.conc(st, e.term(st, c.args[0]))), true
	}
	n[p+"Split"] = func(e *Engine, st *State, c *callCtx) (v Value, ok bool) {
		defer func() {
			if r := recover(); r != nil {
				if s, is := r.(splitSig); is {
					s.apart = true
					panic(s)
				}
				panic(r)
			}
		}()
		t := e.term(st, c.args[0])
		k := e.conc(st, t)
		if m := int64(t.hi - t.lo + 1); st.shards > 1 && m > 1 && m <= 4096 {
			if !st.takePart(int(k-t.lo), int(m)) {
				panic(deadSig{})
			}
		}
		return e.tb.Const(64, k), true
	}
	n[p+"Branch"] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
		return e.tb.Bool(e.concBool(st, e.term(st, c.args[0]))), true
	}
	n[p+"Bound"] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
		q, t := e.conc(st, e.term(st, c.args[1])), e.conc(st, e.term(st, c.args[2]))
		v := q
		if e.cfg.tier == "thorough" {
			v = t
		}
		e.bounds[e.constStrArg(st, c.args[0])] = fmt.Sprint(int64(v))
		return e.tb.Const(64, v), true
	}
	n[p+"Wait"] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
		e.visible(st)
		// what the others did until they blocked happened before
		g := st.g()
		for _, o := range st.gs {
			if o != g && o.vc != nil {
				g.acquire(o.release())
			}
		}
		return voidV, true
	}
	n[p+"Yield"] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
		if st.multi {
			e.visible(st)
		}
		return voidV, true
	}
	n[p+"Preempt"] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
		e.preempt = int(e.conc(st, e.term(st, c.args[0])))
		e.bounds["preemptive context switches"] = fmt.Sprint(e.preempt)
		return voidV, true
	}
	n[p+"MaxSched"] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
		e.maxSched = int(e.conc(st, e.term(st, c.args[0])))
		e.bounds["scheduling steps"] = fmt.Sprint(e.maxSched)
		return voidV, true
	}
	n[p+"NoRace"] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
		e.noRace = true
		return voidV, true
	}
	n[p+"SetNow"] = func(e *Engine, st *State, c *callCtx) (Value, bool) {
		sec := int64(e.conc(st, e.term(st, c.args[0])))
		if d := sec*1e9 + clockBase%1e9 - clockBase; d > st.clock {
			st.clock = d
		}
		return voidV, true
	}
	n[p+"Symbolic"] = func(e *Engine, st *State, c *callCtx) (Value, bool) { return e.tb.True, true }
	n[p+"NumGoroutine"] = func(e *Engine, st *State, c *callCtx) (Value, bool) { return e.tb.Int(e.live(st)), true }
}

func (e *Engine) engineFunc(st *State, c *callCtx, fn FuncV) Value {
	switch fn.bi {
	case "engine:nop":
		return voidV
	case "engine:swapper":
		s := fn.rv[0].(SliceV)
		t := fn.rv[1].(RTypeV).t
		i, j := e.term(st, c.args[0]), e.term(st, c.args[1])
		pi, pj := Ptr{s.obj, e.elemOff(s, e.tb.Add(s.lo, i))}, Ptr{s.obj, e.elemOff(s, e.tb.Add(s.lo, j))}
		a, b := e.load(st, t, pi), e.load(st, t, pj)
		e.store(st, t, pi, b)
		e.store(st, t, pj, a)
		return voidV
	}
	unsup("engine function %s", fn.bi)
	return nil
}

func isInitFn(fn *ssa.Function) bool {
	return fn.Name() == "init" && fn.Synthetic == "package initializer"
}

// duration of a sleep, at least one
func (e *Engine) duration(st *State, v Value) int64 {
	return max(1, min(int64(e.conc(st, e.term(st, v))), 1<<60))
}

// ownCaller tells if the frame n levels up belongs to the repository or the harness.
func (e *Engine) ownCaller(st *State, n int) bool {
	fr := st.g().frames
	k := len(fr) - n
	if k < 0 {
		return false
	}
	fn := fr[k].fi.fn
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn.Pkg != nil && ownPkg(fn.Pkg.Pkg.Path())
}

// ---- properties of runes

var runeSets = map[string]func(rune) bool{
	"unicode.IsPrint": unicode.IsPrint, "unicode.IsGraphic": unicode.IsGraphic, "unicode.IsControl": unicode.IsControl,
	"unicode.IsLetter": unicode.IsLetter, "unicode.IsDigit": unicode.IsDigit, "unicode.IsNumber": unicode.IsNumber,
	"unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower, "unicode.IsPunct": unicode.IsPunct,
	"unicode.IsSymbol": unicode.IsSymbol, "strconv.IsPrint": strconv.IsPrint, "strconv.IsGraphic": strconv.IsGraphic,
	"internal/strconv.IsPrint": strconv.IsPrint, "internal/strconv.IsGraphic": strconv.IsGraphic,
}

var runeMaps = map[string]func(rune) rune{"unicode.ToUpper": unicode.ToUpper, "unicode.ToLower": unicode.ToLower, "unicode.ToTitle": unicode.ToTitle}

type runePiece struct {
	lo uint32
	v  int32
}

var (
	runePieces = map[string][]runePiece{}
	runeMu     sync.Mutex
)

// runeTree: the value of a piecewise constant function of a rune, as a search tree.
func (e *Engine) runeTree(name string, f func(rune) int32, x *Term, leaf func(int32) *Term) *Term {
	runeMu.Lock()
	ps := runePieces[name]
	if ps == nil {
		for r := rune(0); r <= 0x110000; r++ {
			if v := f(r); len(ps) == 0 || ps[len(ps)-1].v != v {
				ps = append(ps, runePiece{uint32(r), v})
			}
		}
		// beyond, negative ones included
		runePieces[name] = ps
	}
	runeMu.Unlock()
	tb := e.tb
	var tree func(ps []runePiece) *Term
	tree = func(ps []runePiece) *Term {
		if len(ps) == 1 {
			return leaf(ps[0].v)
		}
		m := len(ps) / 2
		c := tb.Ult(x, tb.Const(32, uint64(ps[m].lo)))
		if c.isTrue() {
			return tree(ps[:m])
		}
		if c.isFalse() {
			return tree(ps[m:])
		}
		return tb.Ite(c, tree(ps[:m]), tree(ps[m:]))
	}
	return tree(ps)
}
