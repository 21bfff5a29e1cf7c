package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Engine struct {
	L       *Loaded
	prog    *ssa.Program
	tb      *TB
	sol     *Solver
	infos   map[*ssa.Function]*FuncInfo
	sizes   map[types.Type]int
	offs    map[*types.Struct][]int
	c0      *Term
	consts  map[*ssa.Const]Value
	sites   map[siteKey]int32
	siteOf  []siteKey
	objIDs  map[objKey]int32
	nobj    int32
	globals map[*ssa.Global]int32
	stopSeq int
	symtab  map[string]*Term
	mcache  map[mkey]*ssa.Function

	cfg           Config
	stats         Stats
	executed      map[*FuncInfo]bool
	viol          []*Violation
	violSeen      map[string]bool
	incompl       map[string]int
	notes         map[string]int
	reach         map[string]bool
	bounds        map[string]string
	asserts       map[string]int
	ended         []*State
	pool          []Model
	deadline      time.Time
	memEpoch      int64
	onViol        func(*Violation)
	tPC           *PC
	tFacts        map[*Term]bool
	tDom          map[int32]byteSet
	spent         map[string]time.Duration // solver time by place
	tables        map[*Term]byteSet
	tMemo         map[*Term]int8
	pending       map[int][]*State
	preempt       int
	maxSched      int
	aborted       bool
	noRace        bool
	natives       map[string]nativeFn
	trace         bool
	ieCache       map[string]types.Type
	opq           int
	dbg           map[string]int64
	chk           int
	rtypeT, rlitT types.Type
	symHost       int
	termVars      [][]int32
	shard, shards int // this engine explores one part of the values of the first sym.Split
	initNotes     []string
}

type mkey struct {
	t types.Type
	m string
}

type Config struct {
	tier string
	seed int64
}

type Stats struct {
	Steps, Forks, Merges, MergeFail, Paths, Yields, States, PanicPaths int64
	Repaired                                                           int64
	Infeasible                                                         int64
	Tables                                                             int64 // conjunctions over one small variable
}

func (s *Stats) add(o Stats) {
	s.Steps, s.Forks, s.Merges, s.MergeFail, s.Paths = s.Steps+o.Steps, s.Forks+o.Forks, s.Merges+o.Merges, s.MergeFail+o.MergeFail, s.Paths+o.Paths
	s.Yields, s.States, s.PanicPaths = s.Yields+o.Yields, s.States+o.States, s.PanicPaths+o.PanicPaths
	s.Repaired, s.Infeasible, s.Tables = s.Repaired+o.Repaired, s.Infeasible+o.Infeasible, s.Tables+o.Tables
}

type siteKey struct {
	g  int
	in interface{}
}
type objKey struct {
	site int32
	n    int32
}

type nativeFn func(e *Engine, st *State, c *callCtx) (Value, bool)

type evKind int

const (
	evNone evKind = iota
	evHit
	evYield
	evEnd
	evFork
)

type event struct {
	kind evKind
	alts []*State
	join *Stop
}

func newEngine(l *Loaded, cfg Config) *Engine {
	e := &Engine{
		L: l, prog: l.prog, tb: newTB(), infos: map[*ssa.Function]*FuncInfo{}, sizes: map[types.Type]int{},
		offs: map[*types.Struct][]int{}, consts: map[*ssa.Const]Value{}, sites: map[siteKey]int32{}, objIDs: map[objKey]int32{},
		globals: map[*ssa.Global]int32{}, symtab: map[string]*Term{}, mcache: map[mkey]*ssa.Function{}, cfg: cfg,
		executed: map[*FuncInfo]bool{}, violSeen: map[string]bool{}, incompl: map[string]int{}, notes: map[string]int{},
		reach: map[string]bool{}, bounds: map[string]string{}, asserts: map[string]int{}, pending: map[int][]*State{}, preempt: -1,
		natives: natives, ieCache: map[string]types.Type{}, dbg: map[string]int64{},
	}
	e.sol = newSolver(e.tb)
	e.c0 = e.tb.Int(0)
	e.nobj = 1
	return e
}

func (e *Engine) ensureBuilt(fn *ssa.Function) { e.L.ensureBuilt(fn) }

// ---- objects

func (e *Engine) siteID(g int, in interface{}) int32 {
	k := siteKey{g, in}
	if id, ok := e.sites[k]; ok {
		return id
	}
	id := int32(len(e.siteOf)) + 1
	e.siteOf = append(e.siteOf, k)
	e.sites[k] = id
	return id
}

// newObjID: identity of the n-th object allocated at a site by a goroutine along a path.
func (e *Engine) newObjID(st *State, in interface{}) int32 {
	s := e.siteID(st.cur, in)
	n := st.sites.get(s) + 1
	st.sites.put(st.tok, s, n)
	k := objKey{s, n}
	if id, ok := e.objIDs[k]; ok {
		return id
	}
	e.nobj++
	e.objIDs[k] = e.nobj
	return e.nobj
}

func (e *Engine) allocType(st *State, in interface{}, t types.Type) int32 {
	id := e.newObjID(st, in)
	n := e.size(t)
	o := &Obj{owner: st.tok, kind: KCells, typ: t}
	z, uniform := e.uniformZero(t)
	if uniform {
		o.vec = newVec(n, z)
	} else {
		cells := e.flat(t, e.zero(t), make([]Value, 0, n))
		o.vec = newVec(n, nil)
		for i, c := range cells {
			o.vec.set(st.tok, i, c)
		}
	}
	st.heap.put(st.tok, id, o)
	return id
}

// uniformZero: all cells of the type have the same zero value.
func (e *Engine) uniformZero(t types.Type) (Value, bool) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if u.NumFields() == 1 {
			return e.uniformZero(u.Field(0).Type())
		}
		return nil, false
	case *types.Array:
		return e.uniformZero(u.Elem())
	}
	return e.zero(t), true
}

func (e *Engine) allocElems(st *State, in interface{}, elem types.Type, n int) int32 {
	id := e.newObjID(st, in)
	o := &Obj{owner: st.tok, kind: KCells, typ: elem}
	es := e.size(elem)
	if z, ok := e.uniformZero(elem); ok {
		o.vec = newVec(n*es, z)
	} else {
		cells := e.flat(elem, e.zero(elem), nil)
		o.vec = newVec(n*es, nil)
		for i := 0; i < n; i++ {
			for k, c := range cells {
				o.vec.set(st.tok, i*es+k, c)
			}
		}
	}
	st.heap.put(st.tok, id, o)
	return id
}

// ---- truth and feasibility

func (e *Engine) truth(st *State, t *Term) int {
	if t.op == OpConst {
		if t.val == 1 {
			return 1
		}
		return -1
	}
	if e.tPC != st.pc || e.tMemo == nil {
		e.newFacts(st.pc)
	}
	return e.truth1(t)
}

// newFacts prepares the set of facts of a path condition.
func (e *Engine) newFacts(pc *PC) {
	n := 0
	p := pc
	for p != nil && p != e.tPC {
		p = p.up
		n++
	}
	if p == nil || e.tFacts == nil {
		e.tFacts = make(map[*Term]bool, n)
		e.tDom = map[int32]byteSet{}
	}
	for q := pc; q != p; q = q.up {
		e.tFacts[q.t] = true
		if v, ok := e.smallVar(q.t); ok {
			d, ok := e.tDom[v]
			if !ok {
				d = fullSet
			}
			x := e.table(q.t, v)
			for i := range d {
				d[i] &= x[i]
			}
			e.tDom[v] = d
		}
	}
	if p == nil && e.tPC != nil {
		// complete set was rebuilt above
	}
	e.tPC = pc
	e.tMemo = map[*Term]int8{}
}

func (e *Engine) truth1(t *Term) int {
	if t.op == OpConst {
		if t.val == 1 {
			return 1
		}
		return -1
	}
	if e.tFacts[t] {
		return 1
	}
	if t.nneg != nil && e.tFacts[t.nneg] {
		return -1
	}
	switch t.op {
	case OpAnd:
		if r, ok := e.tMemo[t]; ok {
			return int(r)
		}
		r := 1
		for _, a := range t.args {
			x := e.truth1(a)
			if x < r {
				r = x
			}
			if r < 0 {
				break
			}
		}
		e.tMemo[t] = int8(r)
		return r
	case OpNot:
		if t.args[0].op == OpAnd {
			return -e.truth1(t.args[0])
		}
	}
	if v, ok := e.smallVar(t); ok {
		if d, ok := e.tDom[v]; ok {
			x := e.table(t, v)
			some, all := false, true
			for i := range d {
				some = some || d[i]&x[i] != 0
				all = all && d[i]&^x[i] == 0
			}
			switch {
			case all:
				return 1
			case !some:
				return -1
			}
		}
		return 0
	}
	if r, ok := e.tMemo[t]; ok {
		return int(r)
	}
	r := e.byDomain(t)
	e.tMemo[t] = int8(r)
	return r
}

// byDomain decides a condition whose variables have few values left.
func (e *Engine) byDomain(t *Term) int {
	vs := e.varsOf(t)
	if len(vs) == 0 || len(vs) > 8 {
		return 0
	}
	n := 1
	vals := make([][]uint64, len(vs))
	for i, id := range vs {
		d, ok := e.tDom[id]
		if !ok {
			return 0
		}
		v := e.tb.terms[id]
		for x := v.lo; ; x++ {
			if d[(x-v.lo)>>6]>>((x-v.lo)&63)&1 == 1 {
				vals[i] = append(vals[i], x)
			}
			if x == v.hi {
				break
			}
		}
		n *= len(vals[i])
		if n == 0 || n > 128 {
			return 0
		}
	}
	m := make(Model, len(vs))
	yes, no := false, false
	for k := 0; k < n; k++ {
		r := k
		for i, id := range vs {
			m[e.tb.terms[id]] = vals[i][r%len(vals[i])]
			r /= len(vals[i])
		}
		if e.tb.Eval(t, m) == 1 {
			yes = true
		} else {
			no = true
		}
		if yes && no {
			return 0
		}
	}
	if yes {
		return 1
	}
	return -1
}

// byteSet is a set of values of a small variable.
type byteSet [4]uint64

var fullSet = byteSet{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}

// smallVar: the only variable of a condition, if it has at most 256 values.
func (e *Engine) smallVar(t *Term) (int32, bool) {
	vs := e.varsOf(t)
	if len(vs) != 1 {
		return 0, false
	}
	v := e.tb.terms[vs[0]]
	return vs[0], v.hi-v.lo < 256
}

// table: the values of its only variable for which a condition holds.
func (e *Engine) table(t *Term, id int32) byteSet {
	if x, ok := e.tables[t]; ok {
		return x
	}
	var x byteSet
	v := e.tb.terms[id]
	m := Model{}
	for i := v.lo; ; i++ {
		m[v] = i
		if e.tb.Eval(t, m) == 1 {
			x[(i-v.lo)>>6] |= 1 << ((i - v.lo) & 63)
		}
		if i == v.hi {
			break
		}
	}
	if e.tables == nil {
		e.tables = map[*Term]byteSet{}
	}
	e.tables[t] = x
	return x
}

// under simplifies a condition with what the path is known to satisfy.
func (e *Engine) under(st *State, t *Term) *Term {
	switch e.truth(st, t) {
	case 1:
		return e.tb.True
	case -1:
		return e.tb.False
	}
	return t
}

func (e *Engine) modelOK(st *State, m Model, extra *Term) bool {
	e.tb.newEval()
	if extra != nil && e.tb.eval(extra, m) != 1 {
		return false
	}
	for p := st.pc; p != nil; p = p.up {
		if e.tb.eval(p.t, m) != 1 {
			return false
		}
	}
	return true
}

// feasible decides satisfiability of the path condition with t.
func (e *Engine) feasible(st *State, t *Term) (Res, Model) {
	switch e.truth(st, t) {
	case 1:
		return Sat, st.model
	case -1:
		return Unsat, nil
	}
	if e.tb.Eval(t, st.model) == 1 {
		return Sat, st.model
	}
	for i := len(e.pool) - 1; i >= 0; i-- {
		if e.modelOK(st, e.pool[i], t) {
			return Sat, e.pool[i]
		}
	}
	e.checkTime()
	if m := e.repair(st, t); m != nil {
		e.stats.Repaired++
		return Sat, m
	}
	// only the conjuncts that share variables with t, transitively: the others hold in the current model
	part, vs := e.related(st.pcList(), t)
	if len(vs) == 1 {
		if v := e.tb.terms[vs[0]]; v.hi-v.lo < 256 {
			return e.oneVar(st, v, append(part, t))
		}
	}
	t0 := time.Now()
	r, m := e.sol.Check(append(part, t))
	if *flagV {
		if e.spent == nil {
			e.spent = map[string]time.Duration{}
		}
		e.spent[e.where(st)] += time.Since(t0)
	}
	if r == Sat {
		full := make(Model, len(st.model)+len(vs))
		for k, x := range st.model {
			full[k] = x
		}
		for _, id := range vs {
			v := e.tb.terms[id]
			full[v] = m[v]
		}
		m = full
		if !e.modelOK(st, m, t) {
			panic(engineErr("model does not satisfy the path condition: " + t.String()))
		}
		e.pool = append(e.pool, m)
		if len(e.pool) > 6 {
			e.pool = e.pool[1:]
		}
	}
	return r, m
}

// related returns the conjuncts that are connected to t by shared variables, and the variables involved.
func (e *Engine) related(pc []*Term, t *Term) (part []*Term, vars []int32) {
	in := map[int32]bool{}
	add := func(t *Term) {
		for _, v := range e.varsOf(t) {
			if !in[v] {
				in[v] = true
				vars = append(vars, v)
			}
		}
	}
	add(t)
	rest := pc
	for {
		var left []*Term
		for _, c := range rest {
			hit := false
			for _, v := range e.varsOf(c) {
				if in[v] {
					hit = true
					break
				}
			}
			if hit {
				part = append(part, c)
				add(c)
			} else {
				left = append(left, c)
			}
		}
		if len(left) == len(rest) {
			return
		}
		rest = left
	}
}

// varsOf: the variables of a term, sorted.
func (e *Engine) varsOf(t *Term) []int32 {
	if t.op == OpConst {
		return nil
	}
	if int(t.id) >= len(e.termVars) {
		n := make([][]int32, len(e.tb.terms)+1024)
		copy(n, e.termVars)
		e.termVars = n
	}
	if r := e.termVars[t.id]; r != nil {
		return r
	}
	var r []int32
	if t.op == OpVar {
		r = []int32{int32(t.id)}
	} else {
		for _, a := range t.args {
			r = mergeSorted(r, e.varsOf(a))
		}
	}
	if r == nil {
		r = []int32{}
	}
	e.termVars[t.id] = r
	return r
}

func mergeSorted(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	i := 0
	for _, x := range b { // is b contained in a?
		for i < len(a) && a[i] < x {
			i++
		}
		if i == len(a) || a[i] != x {
			goto merge
		}
	}
	return a
merge:
	out := make([]int32, 0, len(a)+len(b))
	i = 0
	for _, x := range b {
		for i < len(a) && a[i] < x {
			out = append(out, a[i])
			i++
		}
		if i < len(a) && a[i] == x {
			i++
		}
		out = append(out, x)
	}
	return append(out, a[i:]...)
}

// oneVar decides a conjunction over a single small variable by its truth table.
func (e *Engine) oneVar(st *State, v *Term, cs []*Term) (Res, Model) {
	e.stats.Tables++
	m := make(Model, 1)
	for x := v.lo; ; x++ {
		m[v] = x
		ok := true
		for _, c := range cs {
			if e.tb.Eval(c, m) != 1 {
				ok = false
				break
			}
		}
		if ok {
			full := make(Model, len(st.model)+1)
			for k, y := range st.model {
				full[k] = y
			}
			full[v] = x
			return Sat, full
		}
		if x == v.hi {
			return Unsat, nil
		}
	}
}

// repair looks for a model of pc and t that differs from the current one in one variable of t.
func (e *Engine) repair(st *State, t *Term) Model {
	vars, consts := e.support(t)
	if vars == nil {
		return nil
	}
	m := make(Model, len(st.model)+1)
	for k, x := range st.model {
		m[k] = x
	}
	for _, v := range vars {
		old, had := st.model[v]
		tried := map[uint64]bool{old: true}
		try := func(c uint64) Model {
			c &= maskOf(v.w)
			if tried[c] || c < v.lo || c > v.hi {
				return nil
			}
			tried[c] = true
			m[v] = c
			if e.modelOK(st, m, t) {
				return m
			}
			return nil
		}
		for _, c := range consts {
			for _, d := range [3]uint64{c, c + 1, c - 1} {
				if m := try(d); m != nil {
					return m
				}
			}
		}
		for _, c := range [4]uint64{v.lo, v.hi, 'x', ' '} {
			if m := try(c); m != nil {
				return m
			}
		}
		if had {
			m[v] = old
		} else {
			delete(m, v)
		}
	}
	return nil
}

// support: the variables and constants of a small term, nil if it is large.
func (e *Engine) support(t *Term) (vars []*Term, consts []uint64) {
	seen := map[*Term]bool{}
	big := false
	var rec func(t *Term)
	rec = func(t *Term) {
		if big || seen[t] {
			return
		}
		seen[t] = true
		if len(seen) > 60 {
			big = true
			return
		}
		switch t.op {
		case OpVar:
			vars = append(vars, t)
			if len(vars) > 3 {
				big = true
			}
			return
		case OpConst:
			if t.w > 0 {
				consts = append(consts, t.val)
			}
			return
		case OpVS:
			consts = append(consts, t.consts...)
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
	if big || len(consts) > 40 {
		return nil, nil
	}
	return vars, consts
}

type timeoutSig struct{}

// stopAll is set once a violation has been confirmed: the rest of the exploration cannot change the outcome.
var stopAll atomic.Bool

func (e *Engine) checkTime() {
	if !e.deadline.IsZero() && (stopAll.Load() || time.Now().After(e.deadline)) {
		panic(timeoutSig{})
	}
	if m := memoryLow.Load(); m != e.memEpoch {
		// memory runs out: what is explored at the moment is given up
		e.memEpoch = m
		if !e.deadline.IsZero() {
			e.incompl["memory limit reached"]++
			panic(timeoutSig{})
		}
	}
}

// memoryLow counts how often memory was about to run out.
var memoryLow atomic.Int64

func watchMemory() {
	for range time.Tick(time.Second) {
		b, err := os.ReadFile("/proc/meminfo")
		if err != nil {
			return
		}
		for _, l := range strings.Split(string(b), "\n") {
			var kb int
			if n, _ := fmt.Sscanf(l, "MemAvailable: %d kB", &kb); n == 1 && kb < 3<<20 {
				memoryLow.Add(1)
				time.Sleep(5 * time.Second)
				debug.FreeOSMemory()
			}
		}
	}
}

// assume adds t to the path; false if it becomes infeasible.
func (e *Engine) assume(st *State, t *Term) bool {
	r, m := e.feasible(st, t)
	if r == Unsat {
		return false
	}
	st.addPC(t)
	if r == Sat {
		st.model = m
	} else {
		e.incompl["solver gave no answer (branch kept)"]++
	}
	return true
}

// require: cond must hold for the instruction to proceed, else the Go program panics with msg.
func (e *Engine) require(st *State, cond *Term, msg string) {
	if cond.isTrue() {
		return
	}
	switch e.truth(st, cond) {
	case 1:
		return
	}
	panic(checkSig{cond, msg})
}

// one resolves a union to a single alternative, splitting the state if necessary.
func (e *Engine) one(st *State, v Value) Value {
	u, ok := v.(UnionV)
	if !ok {
		return v
	}
	var live []*Term
	var lv Value
	for _, a := range u.alts {
		switch e.truth(st, a.g) {
		case 1:
			return a.v
		case -1:
		default:
			live = append(live, a.g)
			lv = a.v
		}
	}
	if len(live) == 0 {
		panic(deadSig{})
	}
	if len(live) == 1 {
		return lv
	}
	panic(splitSig{guards: live})
}

// conc makes a term concrete, splitting over its possible values.
func (e *Engine) conc(st *State, t *Term) uint64 {
	if t.op == OpConst {
		return t.val
	}
	vs := e.tb.ToVS(t, 64)
	if vs == nil {
		// enumerate from the model
		v := e.tb.Eval(t, st.model)
		c := e.tb.Eq(t, e.tb.Const(t.w, v))
		switch e.truth(st, c) {
		case 1:
			return v
		}
		if t.w == 0 {
			panic(splitSig{guards: []*Term{t, e.tb.Not(t)}})
		}
		panic(splitSig{guards: []*Term{c, e.tb.Not(c)}})
	}
	if vs.op == OpConst {
		return vs.val
	}
	var live []*Term
	var lv uint64
	for i, g := range vs.args {
		switch e.truth(st, g) {
		case 1:
			return vs.consts[i]
		case -1:
		default:
			live = append(live, g)
			lv = vs.consts[i]
		}
	}
	if len(live) == 0 {
		panic(deadSig{})
	}
	if len(live) == 1 {
		return lv
	}
	panic(splitSig{guards: live})
}

func (e *Engine) concBool(st *State, t *Term) bool {
	switch e.truth(st, t) {
	case 1:
		return true
	case -1:
		return false
	}
	panic(splitSig{guards: []*Term{t, e.tb.Not(t)}})
}

// ---- running

func (e *Engine) run(st *State) []*State {
	var others []*State
	for {
		ev := e.advance(st)
		switch ev.kind {
		case evHit, evYield:
			return append(others, st)
		case evEnd:
			return others
		case evFork:
			e.stats.Forks++
			id := 0
			if ev.join != nil {
				e.stopSeq++
				id = e.stopSeq
				j := *ev.join
				j.id = id
				for _, a := range ev.alts {
					a.stops = append(a.stops, j)
				}
			}
			var arrived []*State
			for _, a := range ev.alts {
				for _, r := range e.run(a) {
					if id != 0 && r.hit == id {
						if n := len(r.stops); n == 0 || r.stops[n-1].id != id {
							panic(engineErr("stop stack"))
						}
						r.hit = 0
						r.stops = r.stops[:len(r.stops)-1]
						arrived = append(arrived, r)
					} else {
						others = append(others, r)
					}
				}
			}
			arrived = e.mergeAll(arrived)
			if len(arrived) == 0 {
				return others
			}
			for _, a := range arrived[1:] {
				others = append(others, e.run(a)...)
			}
			st = arrived[0]
		}
	}
}

func (e *Engine) advance(st *State) (ev event) {
	for n := 0; ; n++ {
		if n&255 == 0 {
			e.checkTime()
		}
		ev, again := e.advance1(st)
		if !again {
			return ev
		}
	}
}

// instrOf returns the current instruction.
func (f *Frame) instr() ssa.Instruction { return f.fi.fn.Blocks[f.block].Instrs[f.pc] }

func (e *Engine) advance1(st *State) (ev event, again bool) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		st.g().atomic = 0
		switch s := r.(type) {
		case goPanic:
			e.startPanic(st, s.v)
			again = true
		case splitSig:
			ev, again = e.doSplit(st, s)
		case checkSig:
			ev, again = e.doCheck(st, s)
		case yieldSig:
			ev, again = e.doYield(st)
		case deadSig:
			e.stats.Infeasible++
			ev, again = event{kind: evEnd}, false
		case unsupported:
			where := ""
			if len(st.g().frames) > 0 {
				where = e.where(st)
			}
			e.incompl["unsupported: "+s.msg+" at "+where]++
			if st.quiet {
				panic(initAbort{s.msg + " at " + where})
			}
			ev, again = event{kind: evEnd}, false
		case initAbort, timeoutSig:
			panic(r)
		default:
			// a failure of the engine ends this path without a verdict
			if !st.quiet {
				if !panicShown && *flagV {
					panicShown = true
					fmt.Fprintf(os.Stderr, "engine panic %v at %s\n%s\n%s\n", r, e.where(st), stackStr(st), debug.Stack())
				}
				e.incompl[fmt.Sprintf("internal: %v at %s", r, e.where(st))]++
				ev, again = event{kind: evEnd}, false
				return
			}
			if _, ok := r.(timeoutSig); !ok {
				if _, ok := r.(initAbort); !ok && !panicShown {
					panicShown = true
					fmt.Fprintf(os.Stderr, "engine panic %v at %s\n%s\n", r, e.where(st), stackStr(st))
				}
			}
			panic(r)
		}
	}()
	for {
		if st.hit != 0 {
			if st.hit < 0 {
				return event{kind: evYield}, false
			}
			return event{kind: evHit}, false
		}
		if st.atEnd {
			e.finish(st)
			return event{kind: evEnd}, false
		}
		g := st.g()
		if len(g.frames) == 0 {
			// goroutine finished
			if g.id == 0 {
				e.finish(st)
				return event{kind: evEnd}, false
			}
			return e.doYield(st)
		}
		f := st.wframe()
		if n := len(st.stops); n > 0 {
			s := &st.stops[n-1]
			if s.block == f.block && s.pc == f.pc && s.g == st.cur && s.depth == len(g.frames)-1 {
				st.hit = s.id
				return event{kind: evHit}, false
			}
		}
		if f.unwind {
			if e.continueUnwind(st, f) {
				continue
			}
			return event{kind: evEnd}, false
		}
		in := f.fi.fn.Blocks[f.block].Instrs[f.pc]
		e.stats.Steps++
		st.steps++
		if e.stats.Steps&0x3fff == 0 {
			e.checkTime()
		}
		if e.trace {
			fmt.Fprintf(os.Stderr, "%*s g%d %s b%d.%d %s\n", len(g.frames), "", st.cur, f.fi.name, f.block, f.pc, in)
		}
		e.step(st, f, in)
	}
}

var panicShown bool

type initAbort struct{ msg string }

func (e *Engine) where(st *State) string {
	g := st.g()
	if len(g.frames) == 0 {
		return "end"
	}
	f := st.top()
	blk := f.fi.fn.Blocks[f.block]
	s := f.fi.name
	if f.pc < len(blk.Instrs) {
		in := blk.Instrs[f.pc]
		pos := in.Pos()
		if pos == token.NoPos {
			for i := f.pc; i >= 0; i-- {
				if pos = blk.Instrs[i].Pos(); pos != token.NoPos {
					break
				}
			}
		}
		p := e.prog.Fset.Position(pos)
		s += fmt.Sprintf(" (%s:%d) [%s]", p.Filename, p.Line, in)
	}
	return s
}

func stackStr(st *State) string {
	s := ""
	g := st.g()
	for i := len(g.frames) - 1; i >= 0; i-- {
		f := g.frames[i]
		s += fmt.Sprintf("  %s b%d.%d\n", f.fi.name, f.block, f.pc)
	}
	return s
}

// joinAfter: the stop right after the current instruction (or the join of a branch).
func (e *Engine) joinAfter(st *State) *Stop {
	g := st.g()
	if len(g.frames) == 0 {
		return nil
	}
	f := st.top()
	if f.unwind {
		return nil
	}
	ins := f.fi.fn.Blocks[f.block].Instrs
	if f.pc == len(ins)-1 {
		switch ins[f.pc].(type) {
		case *ssa.If:
			return e.joinOf(st, f)
		}
		return nil
	}
	return &Stop{g: st.cur, depth: len(g.frames) - 1, block: f.block, pc: f.pc + 1}
}

func (e *Engine) joinOf(st *State, f *Frame) *Stop {
	j := f.fi.ipdom[f.block]
	d := len(st.g().frames) - 1
	switch j {
	case -2:
		return nil
	case -1:
		return &Stop{g: st.cur, depth: d, block: -1}
	}
	return &Stop{g: st.cur, depth: d, block: j, pc: f.fi.nphi[j]}
}

func (e *Engine) doSplit(st *State, sp splitSig) (event, bool) {
	guards := sp.guards
	var alts []*State
	var gs []*Term
	for _, g := range guards {
		r, m := e.feasible(st, g)
		if r == Unsat {
			continue
		}
		gs = append(gs, g)
		n := st.clone()
		n.addPC(g)
		if r == Sat {
			n.model = m
		} else {
			e.incompl["solver gave no answer (branch kept)"]++
		}
		alts = append(alts, n)
	}
	if len(alts) == 0 {
		e.stats.Infeasible++
		return event{kind: evEnd}, false
	}
	if len(alts) == 1 {
		st.addImplied(gs[0])
		return event{}, true
	}
	if sp.apart {
		for i, n := range alts {
			n.lane = (n.lane*1099511628211 + uint64(i+1)) ^ n.lane>>31
		}
		return event{kind: evFork, alts: alts}, false
	}
	return event{kind: evFork, alts: alts, join: e.joinAfter(st)}, false
}

func (e *Engine) doCheck(st *State, s checkSig) (event, bool) {
	nok := e.tb.Not(s.ok)
	r, m := e.feasible(st, nok)
	if r == Unsat {
		st.addImplied(s.ok)
		return event{}, true
	}
	r2, m2 := e.feasible(st, s.ok)
	if r2 == Unsat {
		st.addImplied(nok)
		e.startPanic(st, e.runtimeError(s.msg))
		return event{}, true
	}
	bad := st.clone()
	bad.addPC(nok)
	if r == Sat {
		bad.model = m
	} else {
		e.incompl["solver gave no answer (branch kept)"]++
	}
	good := st.clone()
	good.addPC(s.ok)
	if r2 == Sat {
		good.model = m2
	}
	e.startPanic(bad, e.runtimeError(s.msg))
	return event{kind: evFork, alts: []*State{good, bad}, join: e.joinAfter(st)}, false
}

// ---- values of operands

func (e *Engine) val(f *Frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Global:
		return Ptr{e.globalObj(x), e.c0}
	case *ssa.Function:
		return FuncV{fn: x}
	case *ssa.Builtin:
		return FuncV{bi: x.Name()}
	}
	i, ok := f.fi.reg[v]
	if !ok {
		panic(engineErr("no register for " + v.Name() + " in " + f.fi.name))
	}
	return f.regs[i]
}

func (e *Engine) constVal(c *ssa.Const) Value {
	if v, ok := e.consts[c]; ok {
		return v
	}
	v := e.mkConst(c)
	e.consts[c] = v
	return v
}

func (e *Engine) mkConst(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return e.zero(t)
	}
	if w, _, ok := intInfo(t); ok {
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return e.tb.Const(w, uint64(i))
		}
		u, _ := constant.Uint64Val(v)
		return e.tb.Const(w, u)
	}
	switch {
	case isBool(t):
		return e.tb.Bool(constant.BoolVal(c.Value))
	case isString(t):
		return StrV{s: constant.StringVal(c.Value)}
	case isFloat(t):
		fv, _ := constant.Float64Val(constant.ToFloat(c.Value))
		if t.Underlying().(*types.Basic).Kind() == types.Float32 {
			fv = float64(float32(fv))
		}
		return FloatV(fv)
	case isComplex(t):
		cv := constant.ToComplex(c.Value)
		re, _ := constant.Float64Val(constant.Real(cv))
		im, _ := constant.Float64Val(constant.Imag(cv))
		return ComplexV(complex(re, im))
	}
	unsup("constant %s of %s", c, t)
	return nil
}

func (e *Engine) globalObj(g *ssa.Global) int32 {
	id, ok := e.globals[g]
	if !ok {
		panic(engineErr("no global " + g.String()))
	}
	return id
}

// ---- calls

type callCtx struct {
	instr ssa.CallInstruction
	fn    *ssa.Function
	name  string
	args  []Value
	sig   *types.Signature
}

func (e *Engine) pushFrame(st *State, fn *ssa.Function, args, env []Value) *Frame {
	fi := e.info(fn)
	if len(fn.Blocks) == 0 {
		unsup("no body: %s", fi.name)
	}
	e.executed[fi] = true
	f := &Frame{owner: st.tok, fi: fi, regs: make([]Value, fi.nregs), env: env}
	copy(f.regs, args)
	copy(f.regs[len(fn.Params):], env)
	if len(args) != len(fn.Params) {
		panic(engineErr(fmt.Sprintf("%s: %d args for %d params", fi.name, len(args), len(fn.Params))))
	}
	g := st.g()
	g.frames = append(g.frames, f)
	if len(g.frames) > 4000 {
		unsup("stack too deep")
	}
	return f
}

// finishInstr stores the result of a call instruction of frame f and moves on.
func (e *Engine) setResult(st *State, f *Frame, v Value) {
	in := f.instr()
	if call, ok := in.(*ssa.Call); ok {
		f.regs[f.fi.reg[call]] = v
		f.pc++
		st.g().passed = false
		return
	}
	switch in.(type) {
	case *ssa.RunDefers:
		// stays on the instruction until no deferred call is left
	case *ssa.Go, *ssa.Defer:
		f.pc++
		st.g().passed = false
	}
}

// resolve the callee of a call
func (e *Engine) callee(st *State, f *Frame, c *ssa.CallCommon) (Value, []Value) {
	var args []Value
	if c.IsInvoke() {
		rv := e.one(st, e.val(f, c.Value))
		args = make([]Value, 0, len(c.Args)+1)
		switch r := rv.(type) {
		case IfaceV:
			if r.t == nil {
				e.require(st, e.tb.False, "invalid memory address or nil pointer dereference")
			}
			inner := r.v
			fn := e.method(r.t, c.Method)
			args = append(args, inner)
			for _, a := range c.Args {
				args = append(args, e.val(f, a))
			}
			if fn == nil {
				return FuncV{bi: "method:" + typeName(r.t) + "." + c.Method.Name()}, args
			}
			return FuncV{fn: fn}, args
		}
		panic(engineErr(fmt.Sprintf("invoke on %T", rv)))
	}
	fv := e.one(st, e.val(f, c.Value))
	for _, a := range c.Args {
		args = append(args, e.val(f, a))
	}
	return fv, args
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

func (e *Engine) method(t types.Type, m *types.Func) *ssa.Function {
	k := mkey{t, m.FullName()}
	if fn, ok := e.mcache[k]; ok {
		return fn
	}
	var fn *ssa.Function
	if !e.isEngineType(t) {
		fn = e.L.lookupMethod(t, m.Pkg(), m.Name())
	}
	e.mcache[k] = fn
	return fn
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil && o != fn {
		return o.String()
	}
	return fn.String()
}

// enter performs a call: pushes a frame or runs an intrinsic and stores its result.
func (e *Engine) enter(st *State, f *Frame, ci ssa.CallInstruction, fv Value, args []Value, sig *types.Signature) {
	fn, ok := fv.(FuncV)
	if !ok {
		panic(engineErr(fmt.Sprintf("call of %T", fv)))
	}
	if fn.fn == nil && fn.bi == "" {
		e.require(st, e.tb.False, "invalid memory address or nil pointer dereference")
	}
	if fn.fn != nil {
		name := fnName(fn.fn)
		if nf := e.native(name, fn.fn); nf != nil {
			cc := &callCtx{instr: ci, fn: fn.fn, name: name, args: args, sig: fn.fn.Signature}
			v, done := nf(e, st, cc)
			if done {
				e.setResult(st, st.wframe(), v)
			}
			return
		}
		e.pushFrame(st, fn.fn, args, fn.env)
		return
	}
	cc := &callCtx{instr: ci, name: fn.bi, args: args, sig: sig}
	if strings.HasPrefix(fn.bi, "method:") {
		v := e.engineMethod(st, cc, fn.bi[7:])
		e.setResult(st, st.wframe(), v)
		return
	}
	if strings.HasPrefix(fn.bi, "engine:") {
		v := e.engineFunc(st, cc, fn)
		e.setResult(st, st.wframe(), v)
		return
	}
	v := e.builtin(st, f, cc)
	if st.hit == 0 && v != noResult {
		e.setResult(st, st.wframe(), v)
	}
}

type noResultT struct{ _ int }

var noResult = &noResultT{}

func (e *Engine) native(name string, fn *ssa.Function) nativeFn {
	if nf, ok := e.natives[name]; ok {
		return nf
	}
	if isInitFn(fn) {
		return initNop
	}
	return nil
}

// dependencies are initialised by the engine, in order
func initNop(e *Engine, st *State, c *callCtx) (Value, bool) { return voidV, true }

// ---- panics

func (e *Engine) runtimeError(msg string) Value {
	return IfaceV{e.L.rtErrType, StrV{s: msg}}
}

func (e *Engine) startPanic(st *State, v Value) {
	g := st.g()
	g.panics = append(g.panics, v)
	f := st.wframe()
	f.unwind = true
	f.recov = false
}

func (e *Engine) popFrame(st *State) {
	g := st.g()
	d := len(g.frames) - 1
	for n := len(st.stops); n > 0; n = len(st.stops) {
		s := st.stops[n-1]
		if s.g == st.cur && s.depth >= d {
			st.stops = st.stops[:n-1]
			continue
		}
		break
	}
	g.frames = g.frames[:d]
}

// continueUnwind: the top frame is unwinding; run its next deferred call or leave it.
// Returns false when the state ends.
func (e *Engine) continueUnwind(st *State, f *Frame) bool {
	g := st.g()
	if n := len(f.defers); n > 0 {
		d := f.defers[n-1]
		f.defers = f.defers[:n-1]
		e.callDeferred(st, f, d)
		return true
	}
	if f.recov {
		f.unwind = false
		f.recov = false
		if rb := f.fi.fn.Recover; rb != nil {
			f.prev = f.block
			f.block = rb.Index
			f.pc = 0
			return true
		}
		e.doReturn(st, f, e.zeroResults(f.fi.fn.Signature))
		return true
	}
	// leave the frame
	isDefer := f.isDefer
	if len(g.frames) == 1 {
		e.uncaught(st, g.panics[len(g.panics)-1])
		return false
	}
	e.popFrame(st)
	nf := st.wframe()
	if isDefer && nf.unwind && !nf.recov && len(g.panics) >= 2 {
		// a deferred call panicked while unwinding: the older panic is replaced
		n := len(g.panics)
		g.panics[n-2] = g.panics[n-1]
		g.panics = g.panics[:n-1]
	}
	nf.unwind = true
	nf.recov = false
	return true
}

func (e *Engine) zeroResults(sig *types.Signature) Value {
	switch sig.Results().Len() {
	case 0:
		return TupleV{}
	case 1:
		return e.zero(sig.Results().At(0).Type())
	}
	return e.zero(sig.Results())
}

func (e *Engine) callDeferred(st *State, f *Frame, d deferred) {
	fn, ok := d.fn.(FuncV)
	if !ok {
		panic(engineErr("deferred callee"))
	}
	if fn.fn != nil {
		name := fnName(fn.fn)
		if nf := e.native(name, fn.fn); nf != nil {
			cc := &callCtx{fn: fn.fn, name: name, args: d.args, sig: fn.fn.Signature}
			if _, done := nf(e, st, cc); !done {
				unsup("deferred intrinsic %s", name)
			}
			st.g().passed = false
			return
		}
		nf := e.pushFrame(st, fn.fn, d.args, fn.env)
		nf.isDefer = true
		nf.discard = true
		return
	}
	if fn.bi == "" {
		panic(engineErr("deferred nil func"))
	}
	cc := &callCtx{name: fn.bi, args: d.args}
	if strings.HasPrefix(fn.bi, "method:") {
		e.engineMethod(st, cc, fn.bi[7:])
	} else if strings.HasPrefix(fn.bi, "engine:") {
		e.engineFunc(st, cc, fn)
	} else {
		e.builtin(st, f, cc)
	}
	st.g().passed = false
}

func (e *Engine) doReturn(st *State, f *Frame, res Value) {
	g := st.g()
	d := len(g.frames) - 1
	// stops inside this frame that were skipped
	ret := 0
	for n := len(st.stops); n > 0; n = len(st.stops) {
		s := st.stops[n-1]
		if s.g == st.cur && s.depth == d {
			if s.block == -1 {
				ret = s.id
				break
			}
			st.stops = st.stops[:n-1]
			continue
		}
		break
	}
	g.frames = g.frames[:d]
	if d > 0 {
		nf := st.wframe()
		if !f.discard {
			e.setResult(st, nf, res)
		}
	}
	if ret != 0 {
		st.hit = ret
	}
}

func (e *Engine) uncaught(st *State, v Value) {
	msg := "panic: " + e.panicText(st, v)
	e.stats.PanicPaths++
	e.report(st, "panic", msg)
}

func (e *Engine) panicText(st *State, v Value) string {
	if i, ok := v.(IfaceV); ok {
		s := ""
		switch x := i.v.(type) {
		case StrV:
			if x.vec == nil {
				s = x.s
			}
		}
		if i.t == nil {
			return "nil"
		}
		if i.t == e.L.rtErrType {
			return "runtime error: " + s
		}
		return fmt.Sprintf("%s %s", typeName(i.t), s)
	}
	return valStr(v)
}

// ---- path ends

func (e *Engine) finish(st *State) {
	e.stats.Paths++
	if !st.quiet {
		e.ended = append(e.ended, st)
		if len(e.ended) > 400 {
			// keep a spread sample
			k := e.ended[:0]
			for i, s := range e.ended {
				if i%2 == 0 {
					k = append(k, s)
				}
			}
			e.ended = k
		}
	} else {
		e.ended = append(e.ended, st)
	}
}

type Violation struct {
	Kind, Msg string
	Inputs    map[string]uint64
	Log       []LogEnt
	Where     string
	model     Model
	key       string
	Race      bool
	Confirmed bool
	native    natResult
	attempts  int
}

type LogEnt struct {
	Kind  string      `json:"kind"`
	Label string      `json:"label"`
	V     interface{} `json:"v,omitempty"`
}

func (e *Engine) report(st *State, kind, msg string) {
	key := kind + "|" + msg
	if st.quiet {
		panic(initAbort{msg + " " + stackStr(st)})
	}
	where := ""
	if len(st.g().frames) > 0 {
		where = e.where(st)
	}
	if e.violSeen[key+where] {
		return
	}
	r, m := e.sol.Check(st.pcList())
	if r != Sat {
		if r == Unknown {
			e.incompl["solver gave no answer for a violation"]++
		}
		return
	}
	e.violSeen[key+where] = true
	v := &Violation{Kind: kind, Msg: msg, Where: where + "\n" + stackStr(st), key: key}
	e.fillModel(st, m, v)
	e.viol = append(e.viol, v)
	if e.onViol != nil {
		e.onViol(v)
	}
}

func (e *Engine) fillModel(st *State, m Model, v *Violation) {
	v.Inputs = map[string]uint64{}
	v.model = m
	for name, t := range e.symtab {
		x, ok := m[t]
		if !ok {
			x = t.lo
		}
		v.Inputs[name] = x
	}
	v.Log = e.logUnder(st, m)
}

func (e *Engine) logUnder(st *State, m Model) []LogEnt {
	var out []LogEnt
	e.tb.newEval()
	for l := st.log; l != nil; l = l.up {
		if l.g != nil && e.tb.eval(l.g, m) != 1 {
			continue
		}
		k := map[logKind]string{lgObs: "obs", lgSched: "sched", lgPoint: "point"}[l.kind]
		le := LogEnt{Kind: k, Label: l.label}
		if l.v != nil {
			le.V = e.evalVal(st, l.v, m)
		}
		out = append(out, le)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// evalVal: value under a model, for display and comparison with a native run.
func (e *Engine) evalVal(st *State, v Value, m Model) interface{} {
	switch x := v.(type) {
	case *Term:
		r := e.tb.eval(x, m)
		if x.w == 0 {
			return r == 1
		}
		return fmt.Sprint(sx(r, x.w))
	case StrV:
		if x.vec == nil {
			return fmt.Sprintf("%x", x.s)
		}
		lo, hi := e.tb.eval(x.off, m), e.tb.eval(x.end, m)
		b := []byte{}
		for i := lo; i < hi; i++ {
			b = append(b, byte(e.tb.eval(x.vec.get(int(i)).(*Term), m)))
		}
		return fmt.Sprintf("%x", b)
	case UnionV:
		for _, a := range x.alts {
			if e.tb.eval(a.g, m) == 1 {
				return e.evalVal(st, a.v, m)
			}
		}
	}
	return nil
}

// ---- top level exploration over schedules

// States of different lanes (values that a harness keeps apart) are never merged; a lane is explored to the end
// before the next one.
func (e *Engine) explore(root []*State) {
	lanes := map[uint64]map[int][]*State{}
	var order []uint64
	add := func(ss []*State) {
		for _, s := range ss {
			s.hit = 0
			s.stops = nil
			l := lanes[s.lane]
			if l == nil {
				l = map[int][]*State{}
				lanes[s.lane] = l
				order = append(order, s.lane)
			}
			l[s.nsched] = append(l[s.nsched], s)
		}
	}
	for _, r := range root {
		add(e.run(r))
	}
	for len(order) > 0 {
		lane := order[len(order)-1]
		level := lanes[lane]
		if len(level) == 0 {
			delete(lanes, lane)
			order = order[:len(order)-1]
			continue
		}
		k := -1
		for n := range level {
			if k < 0 || n < k {
				k = n
			}
		}
		cur := e.mergeLevel(level[k])
		delete(level, k)
		for _, s := range cur {
			e.stats.States++
			for _, n := range e.schedule(s) {
				add(e.run(n))
			}
		}
	}
}

func (e *Engine) sig(st *State) string {
	var sb strings.Builder
	for _, g := range st.gs {
		fmt.Fprintf(&sb, "g%v%v:", g.vc, g.choice)
		for _, f := range g.frames {
			fmt.Fprintf(&sb, "%p.%d.%d.%v;", f.fi, f.block, f.pc, f.unwind)
		}
	}
	if e.preempt >= 0 {
		cur := st.cur
		if st.resume != 0 {
			cur = st.resume - 1
		}
		fmt.Fprintf(&sb, "c%d,%d", cur, st.npre)
	}
	return sb.String()
}

func (e *Engine) mergeLevel(ss []*State) []*State {
	groups := map[string][]*State{}
	var order []string
	for _, s := range ss {
		k := e.sig(s)
		if _, ok := groups[k]; !ok {
			order = append(order, k)
		}
		groups[k] = append(groups[k], s)
	}
	var out []*State
	for _, k := range order {
		out = append(out, e.mergeAll(groups[k])...)
	}
	return out
}
