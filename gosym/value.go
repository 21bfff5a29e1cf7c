package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- values

type Value interface{}

type FloatV float64
type ComplexV complex128

// StrV is a string: concrete (vec == nil) or a window [off,end) of byte cells.
type StrV struct {
	s        string
	vec      *Vec
	off, end *Term
}

type Ptr struct {
	obj int32
	off *Term
}

type SliceV struct {
	obj         int32
	base, esz   int32
	lo, hi, max *Term
}

type IfaceV struct {
	t types.Type
	v Value
}

type FuncV struct {
	fn  *ssa.Function
	env []Value
	bi  string // engine-provided function
	rv  []Value
}

type MapV struct{ obj int32 }
type ChanV struct{ obj int32 }
type StructV []Value
type ArrayV []Value
type TupleV []Value

type Alt struct {
	g *Term
	v Value
}
type UnionV struct{ alts []Alt }

// RTypeV is a reflect.Type; ReflV a reflect.Value.
type RTypeV struct{ t types.Type }
type ReflV struct {
	t    types.Type // nil: invalid
	v    Value      // value, or
	addr *Ptr       // location (addressable)
	ro   bool
}

// OpaqueV is a value the engine does not look into.
type OpaqueV struct{ tag string }

// ---- ownership tokens, paged vectors

type otok struct{ _ byte }

const pageSize = 32

type page struct {
	owner *otok
	v     [pageSize]Value
}

type Vec struct {
	n     int
	pages []*page
	zero  Value // value of cells in nil pages
	own   *otok
}

func newVec(n int, zero Value) *Vec {
	return &Vec{n: n, pages: make([]*page, (n+pageSize-1)/pageSize), zero: zero}
}

func (v *Vec) get(i int) Value {
	p := v.pages[i/pageSize]
	if p == nil {
		return v.zero
	}
	return p.v[i%pageSize]
}

// set writes in place; the caller must own the Vec.
func (v *Vec) set(tok *otok, i int, x Value) {
	p := v.pages[i/pageSize]
	if p == nil {
		p = &page{owner: tok}
		for k := range p.v {
			p.v[k] = v.zero
		}
		v.pages[i/pageSize] = p
	} else if p.owner != tok || tok == nil {
		np := &page{owner: tok, v: p.v}
		p = np
		v.pages[i/pageSize] = p
	}
	p.v[i%pageSize] = x
}

func (v *Vec) clone() *Vec {
	return &Vec{n: v.n, pages: append([]*page(nil), v.pages...), zero: v.zero}
}

// ---- heap objects

type ObjKind uint8

const (
	KCells ObjKind = iota
	KMap
	KChan
)

type mapEnt struct {
	k, v Value
	g    *Term
}

type MapObj struct {
	ents []mapEnt
	typ  *types.Map
}

type ChanObj struct {
	cap    int
	buf    []Value
	closed bool
	elem   types.Type
	// happens-before clocks
	vcs   []VC // clocks of buffered sends
	clVC  VC
	rcvVC []VC // clocks of receives (for capacity edges)
}

// IterV is the state of a range loop over a string or map.
type IterV struct {
	str   StrV
	pos   *Term
	ents  []mapEnt
	idx   int
	isStr bool
	obj   int32
}

type Obj struct {
	owner  *otok
	kind   ObjKind
	vec    *Vec
	m      *MapObj
	ch     *ChanObj
	typ    types.Type
	site   string
	sh     *Vec  // race shadow
	clocks []clk // clocks released into this object (mutexes, atomics ...), by cell
}

// persistent radix trie id -> *Obj
const trieBits = 5
const trieW = 1 << trieBits

type tnode struct {
	owner *otok
	kids  [trieW]*tnode
	objs  *[trieW]*Obj
}

type Heap struct {
	root  *tnode
	depth int
}

func (h *Heap) get(id int32) *Obj {
	n := h.root
	for d := h.depth; d > 0 && n != nil; d-- {
		n = n.kids[(id>>(trieBits*d))&(trieW-1)]
	}
	if n == nil || int(id>>(trieBits*(h.depth+1))) != 0 || n.objs == nil {
		return nil
	}
	return n.objs[id&(trieW-1)]
}

func (h *Heap) put(tok *otok, id int32, o *Obj) {
	for h.root == nil || int(id>>(trieBits*(h.depth+1))) != 0 {
		if h.root == nil {
			h.root = &tnode{owner: tok}
			h.depth = 3
			continue
		}
		r := &tnode{owner: tok}
		r.kids[0] = h.root
		h.root = r
		h.depth++
	}
	pp := &h.root
	for d := h.depth; ; d-- {
		n := *pp
		if n == nil {
			n = &tnode{owner: tok}
			*pp = n
		} else if n.owner != tok {
			c := &tnode{owner: tok, kids: n.kids}
			if n.objs != nil {
				a := *n.objs
				c.objs = &a
			}
			n = c
			*pp = n
		}
		if d == 0 {
			if n.objs == nil {
				n.objs = new([trieW]*Obj)
			}
			n.objs[id&(trieW-1)] = o
			return
		}
		pp = &n.kids[(id>>(trieBits*d))&(trieW-1)]
	}
}

// ---- path conditions

type PC struct {
	up      *PC
	t       *Term
	depth   int
	implied bool
}

// ---- goroutines, frames, states

type deferred struct {
	fn   Value
	args []Value
	inv  *ssa.CallCommon
}

type Frame struct {
	owner   *otok
	fi      *FuncInfo
	block   int
	prev    int
	pc      int
	regs    []Value
	env     []Value
	defers  []deferred
	isDefer bool // a deferred call of the frame below
	discard bool // result is dropped on return
	unwind  bool // running deferred calls because of a panic
	recov   bool // the panic has been recovered, finishing the deferred calls
	after   afterKind
}

type afterKind uint8

const (
	afterNone afterKind = iota
)

type G struct {
	id      int
	frames  []*Frame
	panics  []Value
	vc      VC
	passed  bool // the scheduling point before the current instruction has been taken
	started bool
	choice  int // select case chosen by the scheduler (-1 none)
	atomic  int
	sim     int   // sections of the models in stdmodel.go
	wake    int64 // end of the sleep
	name    string
}

// VC is a vector clock indexed by goroutine.
type VC []int32

type Stop struct {
	id        int
	g         int
	depth     int // index of the frame
	block, pc int // block -1: return of the frame
}

type State struct {
	tok    *otok
	heap   Heap
	gs     []*G
	cur    int
	pc     *PC
	model  Model
	stops  []Stop
	hit    int // id of the stop reached, -1 top
	log    *logNode
	nsched int
	lane   uint64 // values kept apart so far
	clock  int64  // time passed in sleeps
	npre   int    // preemptions used
	shard  int    // part of the harness that this state still has to choose values for
	shards int
	resume int // goroutine (plus one) that was running before a new one was started up
	steps  int64
	sites  CTrie // allocation counters
	cnt    map[string]int
	multi  bool // more than one goroutine has existed
	quiet  bool // package initialisation
	atEnd  bool
}

type logKind uint8

const (
	lgObs logKind = iota
	lgSched
	lgPoint
)

type logNode struct {
	up    *logNode
	kind  logKind
	label string
	v     Value
	g     *Term // nil: always
	n     int
}

// CTrie is a persistent map int32 -> int32.
type cnode struct {
	owner *otok
	kids  [trieW]*cnode
	v     *[trieW]int32
}
type CTrie struct{ root *cnode }

const cDepth = 3

func (c *CTrie) get(id int32) int32 {
	n := c.root
	for d := cDepth; d > 0 && n != nil; d-- {
		n = n.kids[(id>>(trieBits*d))&(trieW-1)]
	}
	if n == nil || n.v == nil {
		return 0
	}
	return n.v[id&(trieW-1)]
}

func (c *CTrie) put(tok *otok, id, x int32) {
	if id>>(trieBits*(cDepth+1)) != 0 {
		panic(engineErr("too many allocation sites"))
	}
	pp := &c.root
	for d := cDepth; ; d-- {
		n := *pp
		if n == nil {
			n = &cnode{owner: tok}
			*pp = n
		} else if n.owner != tok {
			k := &cnode{owner: tok, kids: n.kids}
			if n.v != nil {
				a := *n.v
				k.v = &a
			}
			n = k
			*pp = n
		}
		if d == 0 {
			if n.v == nil {
				n.v = new([trieW]int32)
			}
			n.v[id&(trieW-1)] = x
			return
		}
		pp = &n.kids[(id>>(trieBits*d))&(trieW-1)]
	}
}

func mergeCT(tok *otok, a, b *cnode, d int) *cnode {
	if a == b || b == nil {
		return a
	}
	if a == nil {
		return b
	}
	n := &cnode{owner: tok}
	if d == 0 {
		n.v = new([trieW]int32)
		if a.v != nil {
			*n.v = *a.v
		}
		if b.v != nil {
			for i, x := range b.v {
				if x > n.v[i] {
					n.v[i] = x
				}
			}
		}
		return n
	}
	for i := range n.kids {
		n.kids[i] = mergeCT(tok, a.kids[i], b.kids[i], d-1)
	}
	return n
}

func (st *State) addLog(k logKind, label string, v Value) {
	n := 1
	if st.log != nil {
		n = st.log.n + 1
	}
	st.log = &logNode{up: st.log, kind: k, label: label, v: v, n: n}
}

func (st *State) g() *G { return st.gs[st.cur] }
func (st *State) top() *Frame {
	g := st.gs[st.cur]
	return g.frames[len(g.frames)-1]
}

// wframe returns the top frame, writable.
func (st *State) wframe() *Frame { return st.wframeOf(st.gs[st.cur]) }

func (st *State) wframeOf(g *G) *Frame {
	f := g.frames[len(g.frames)-1]
	if f.owner != st.tok {
		c := *f
		c.owner = st.tok
		c.regs = append([]Value(nil), f.regs...)
		c.defers = append([]deferred(nil), f.defers...)
		g.frames[len(g.frames)-1] = &c
		return &c
	}
	return f
}

func (st *State) clone() *State {
	n := *st
	st.tok = new(otok)
	n.tok = new(otok)
	n.gs = make([]*G, len(st.gs))
	for i, g := range st.gs {
		c := *g
		c.frames = append(make([]*Frame, 0, len(g.frames)+4), g.frames...)
		c.panics = append([]Value(nil), g.panics...)
		n.gs[i] = &c
	}
	n.stops = append([]Stop(nil), st.stops...)
	if st.cnt != nil {
		n.cnt = make(map[string]int, len(st.cnt))
		for k, v := range st.cnt {
			n.cnt[k] = v
		}
	}
	return &n
}

// vector clocks are immutable slices
func (v VC) at(i int) int32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}
func (v VC) inc(i int) VC {
	n := make(VC, max(len(v), i+1))
	copy(n, v)
	n[i]++
	return n
}
func (v VC) join(o VC) VC {
	le := true
	for i, x := range o {
		if x > v.at(i) {
			le = false
			break
		}
	}
	if le {
		return v
	}
	n := make(VC, max(len(v), len(o)))
	copy(n, v)
	for i, x := range o {
		if x > n[i] {
			n[i] = x
		}
	}
	return n
}
func (v VC) eq(o VC) bool {
	if len(v) == len(o) && (len(v) == 0 || &v[0] == &o[0]) {
		return true
	}
	for i := 0; i < len(v) || i < len(o); i++ {
		if v.at(i) != o.at(i) {
			return false
		}
	}
	return true
}

func (st *State) addPC(t *Term) {
	if t.isTrue() {
		return
	}
	if t.op == OpAnd {
		for _, a := range t.args {
			st.addPC(a)
		}
		return
	}
	d := 1
	if st.pc != nil {
		d = st.pc.depth + 1
	}
	st.pc = &PC{up: st.pc, t: t, depth: d}
}

func (st *State) addImplied(t *Term) {
	if t.isTrue() {
		return
	}
	if t.op == OpAnd {
		for _, a := range t.args {
			st.addImplied(a)
		}
		return
	}
	d := 1
	if st.pc != nil {
		d = st.pc.depth + 1
	}
	st.pc = &PC{up: st.pc, t: t, depth: d, implied: true}
}

func (st *State) pcList() []*Term {
	var r []*Term
	for p := st.pc; p != nil; p = p.up {
		if !p.implied {
			r = append(r, p.t)
		}
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

func (st *State) obj(id int32) *Obj {
	o := st.heap.get(id)
	if o == nil {
		panic(engineErr(fmt.Sprintf("no object %d", id)))
	}
	return o
}

// wobj returns a writable object.
func (st *State) wobj(id int32) *Obj {
	o := st.obj(id)
	if o.owner == st.tok {
		return o
	}
	c := *o
	c.owner = st.tok
	if o.vec != nil {
		c.vec = o.vec.clone()
	}
	if o.sh != nil {
		c.sh = o.sh.clone()
	}
	if o.m != nil {
		c.m = &MapObj{ents: append([]mapEnt(nil), o.m.ents...), typ: o.m.typ}
	}
	if o.ch != nil {
		x := *o.ch
		x.buf = append([]Value(nil), o.ch.buf...)
		x.vcs = append([]VC(nil), o.ch.vcs...)
		x.rcvVC = append([]VC(nil), o.ch.rcvVC...)
		c.ch = &x
	}
	st.heap.put(st.tok, id, &c)
	return &c
}

// ---- errors used as control flow inside one step

type engineErr string

func (e engineErr) Error() string { return string(e) }

type unsupported struct{ msg string }
type splitSig struct {
	guards []*Term
	apart  bool // the alternatives are not merged again
}
type deadSig struct{}
type yieldSig struct{}
type checkSig struct {
	ok  *Term
	msg string
}

func unsup(f string, a ...interface{}) {
	panic(unsupported{fmt.Sprintf(f, a...)})
}

// ---- debugging output

func valStr(v Value) string {
	switch x := v.(type) {
	case nil:
		return "<undef>"
	case *Term:
		return termStr(x, 2)
	case StrV:
		if x.vec == nil {
			return fmt.Sprintf("%q", x.s)
		}
		return fmt.Sprintf("str[%s:%s]", termStr(x.off, 1), termStr(x.end, 1))
	case Ptr:
		return fmt.Sprintf("&%d+%s", x.obj, termStr(x.off, 1))
	case SliceV:
		return fmt.Sprintf("slice(%d:%s:%s:%s)", x.obj, termStr(x.lo, 1), termStr(x.hi, 1), termStr(x.max, 1))
	case IfaceV:
		if x.t == nil {
			return "nil-iface"
		}
		return fmt.Sprintf("iface(%s %s)", x.t, valStr(x.v))
	case FuncV:
		if x.fn != nil {
			return "func " + x.fn.String()
		}
		return "func " + x.bi
	case StructV:
		s := []string{}
		for _, f := range x {
			s = append(s, valStr(f))
		}
		return "{" + strings.Join(s, ", ") + "}"
	case TupleV:
		s := []string{}
		for _, f := range x {
			s = append(s, valStr(f))
		}
		return "(" + strings.Join(s, ", ") + ")"
	case UnionV:
		s := []string{}
		for _, a := range x.alts {
			s = append(s, termStr(a.g, 1)+" => "+valStr(a.v))
		}
		return "union{" + strings.Join(s, "; ") + "}"
	}
	return fmt.Sprintf("%T %v", v, v)
}
