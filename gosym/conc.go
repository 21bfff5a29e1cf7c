package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---- goroutines and scheduling

func (e *Engine) spawn(st *State, f *Frame, fv Value, args []Value) {
	fn, ok := fv.(FuncV)
	if !ok {
		unsup("go of %T", fv)
	}
	if fn.fn == nil && fn.bi == "" {
		e.panicNow("go of nil func value")
	}
	if fn.fn == nil || e.native(fnName(fn.fn), fn.fn) != nil {
		unsup("go of intrinsic")
	}
	id := len(st.gs)
	cur := st.cur
	pg := st.gs[cur]
	if pg.vc == nil {
		pg.vc = pg.vc.inc(cur)
	}
	g := &G{id: id, choice: -1}
	g.vc = pg.vc.inc(id)
	pg.vc = pg.vc.inc(cur)
	st.gs = append(st.gs, g)
	st.multi = true
	st.cur = id
	nf := e.pushFrame(st, fn.fn, args, fn.env)
	nf.discard = true
	st.cur = cur
}

// visible is called at the start of an operation other goroutines can see.
func (e *Engine) visible(st *State) {
	g := st.g()
	if g.passed {
		return
	}
	if len(st.gs) == 1 {
		if e.enabled(st, st.cur) {
			g.passed = true
			return
		}
	}
	panic(yieldSig{})
}

func (e *Engine) live(st *State) int {
	n := 0
	for _, g := range st.gs {
		if len(g.frames) > 0 {
			n++
		}
	}
	return n
}

func (e *Engine) enabledList(st *State) []int {
	var r []int
	for i, g := range st.gs {
		if len(g.frames) == 0 {
			continue
		}
		if e.enabled(st, i) {
			r = append(r, i)
		}
	}
	if len(r) == 0 {
		// goroutines waiting for everybody else to block
		for i, g := range st.gs {
			if len(g.frames) > 0 && e.pendingName(st, i) == symPkg+".Wait" {
				r = append(r, i)
			}
		}
	}
	if len(r) == 0 {
		// time passes: those wake up that sleep the shortest
		first := int64(0)
		for i, g := range st.gs {
			if len(g.frames) == 0 || e.pendingName(st, i) != "time.Sleep" {
				continue
			}
			if g.wake == 0 {
				f := e.topOf(st, i)
				g.wake = st.clock + e.duration(st, e.val(f, f.instr().(*ssa.Call).Call.Args[0]))
			}
			if len(r) == 0 || g.wake < first {
				r, first = r[:0], g.wake
			}
			if g.wake == first {
				r = append(r, i)
			}
		}
	}
	return r
}

// onlyEnabled tells if the current goroutine is known to be the only one that can run.
func (e *Engine) onlyEnabled(st *State) (only bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(splitSig); !ok {
				panic(r)
			}
			only = false // schedule follows the cases
		}
	}()
	en := e.enabledList(st)
	return len(en) == 1 && en[0] == st.cur
}

func (e *Engine) doYield(st *State) (event, bool) {
	g := st.g()
	if e.onlyEnabled(st) && len(g.frames) > 0 {
		g.passed = true
		return event{}, true
	}
	st.hit = -1
	st.stops = nil
	e.stats.Yields++
	return event{kind: evYield}, false
}

// schedule returns the states in which each enabled goroutine has been chosen to run.
func (e *Engine) schedule(st *State) (out []*State) {
	defer func() {
		if r := recover(); r != nil {
			switch s := r.(type) {
			case splitSig:
				ev, again := e.doSplit(st, s)
				if again {
					out = e.schedule(st)
					return
				}
				out = nil
				for _, a := range ev.alts {
					out = append(out, e.schedule(a)...)
				}
				return
			case checkSig, unsupported:
				e.incompl[fmt.Sprintf("unsupported at scheduling: %v", r)]++
				return
			}
			panic(r)
		}
	}()
	// a new goroutine first runs to its first visible operation: that commutes with everything
	for i, g := range st.gs {
		if !g.started && len(g.frames) > 0 {
			if st.resume == 0 {
				st.resume = st.cur + 1
			}
			st.cur = i
			ng := st.g()
			ng.started = true
			ng.passed = false
			st.hit = 0
			return []*State{st}
		}
	}
	if st.resume != 0 {
		st.cur = st.resume - 1
		st.resume = 0
	}
	en := e.enabledList(st)
	if len(en) == 0 {
		msg := "deadlock:"
		for i, g := range st.gs {
			if len(g.frames) > 0 {
				c := st.cur
				st.cur = i
				msg += fmt.Sprintf(" [goroutine %d blocked in %s]", i, st.top().fi.name)
				st.cur = c
			}
		}
		e.report(st, "deadlock", msg)
		return nil
	}
	if e.maxSched > 0 && st.nsched >= e.maxSched {
		e.notes[fmt.Sprintf("schedules cut at %d scheduling steps", e.maxSched)]++
		e.finish(st)
		return nil
	}
	curEnabled := false
	for _, i := range en {
		if i == st.cur {
			curEnabled = true
		}
	}
	var choose []int
	for _, i := range en {
		if e.preempt >= 0 && curEnabled && i != st.cur && st.npre >= e.preempt {
			e.notes[fmt.Sprintf("at most %d preemptive context switches", e.preempt)]++
			continue
		}
		choose = append(choose, i)
	}
	v := e.tb.Var(8, fmt.Sprintf("sched#%d", st.nsched), 0, 255)
	for j, i := range choose {
		n := st
		if len(choose) > 1 {
			n = st.clone()
			if n.shards > 1 && !n.takePart(j, len(choose)) {
				continue
			}
			c := e.tb.Eq(v, e.tb.Const(8, uint64(i)))
			n.addPC(c)
			m := Model{}
			for k, x := range n.model {
				m[k] = x
			}
			m[v] = uint64(i)
			n.model = m
		}
		if curEnabled && i != st.cur {
			n.npre++
		}
		n.cur = i
		n.nsched++
		n.addLog(lgSched, fmt.Sprintf("g%d %s", i, e.pendingText(n, i)), nil)
		n.g().passed = true
		n.hit = 0
		out = append(out, n)
	}
	return out
}

func (e *Engine) topOf(st *State, gi int) *Frame {
	g := st.gs[gi]
	return g.frames[len(g.frames)-1]
}

func (e *Engine) pendingName(st *State, gi int) string {
	f := e.topOf(st, gi)
	if f.unwind {
		return ""
	}
	if c, ok := f.instr().(*ssa.Call); ok {
		if fn := c.Call.StaticCallee(); fn != nil {
			return fnName(fn)
		}
	}
	return ""
}

func (e *Engine) pendingText(st *State, gi int) string {
	f := e.topOf(st, gi)
	if f.unwind {
		return "unwind"
	}
	in := f.instr()
	return fmt.Sprintf("%s: %s", f.fi.name, in)
}

// enabled: can the goroutine take its next step?
func (e *Engine) enabled(st *State, gi int) bool {
	f := e.topOf(st, gi)
	if f.unwind {
		return true
	}
	switch x := f.instr().(type) {
	case *ssa.Send:
		ch := e.chanOf(st, e.val(f, x.Chan))
		return e.canSend(st, gi, ch)
	case *ssa.UnOp:
		if x.Op.String() == "<-" {
			ch := e.chanOf(st, e.val(f, x.X))
			return e.canRecv(st, gi, ch)
		}
	case *ssa.Select:
		if !x.Blocking {
			return true
		}
		return len(e.readyCases(st, gi, f, x)) > 0
	case *ssa.Call:
		var name string
		var args []Value
		if x.Call.IsInvoke() {
			return true
		}
		fv := e.one(st, e.val(f, x.Call.Value))
		fn, ok := fv.(FuncV)
		if !ok || fn.fn == nil {
			return true
		}
		name = fnName(fn.fn)
		b := blockers[name]
		if b == nil {
			return true
		}
		for _, a := range x.Call.Args {
			args = append(args, e.val(f, a))
		}
		return b(e, st, gi, args)
	}
	return true
}

func (e *Engine) chanOf(st *State, v Value) int32 {
	return e.one(st, v).(ChanV).obj
}

func (e *Engine) canSend(st *State, gi int, ch int32) bool {
	if ch == 0 {
		return false
	}
	o := st.obj(ch).ch
	if o.closed || len(o.buf) < o.cap {
		return true
	}
	return o.cap == 0 && len(e.partners(st, gi, ch, false)) > 0
}

func (e *Engine) canRecv(st *State, gi int, ch int32) bool {
	if ch == 0 {
		return false
	}
	o := st.obj(ch).ch
	if o.closed || len(o.buf) > 0 {
		return true
	}
	return o.cap == 0 && len(e.partners(st, gi, ch, true)) > 0
}

type partner struct {
	g    int
	kase int // -1: plain operation
}

// partners: goroutines parked at the opposite operation on an unbuffered channel.
func (e *Engine) partners(st *State, gi int, ch int32, senders bool) []partner {
	var r []partner
	for i, g := range st.gs {
		if i == gi || len(g.frames) == 0 {
			continue
		}
		f := e.topOf(st, i)
		if f.unwind {
			continue
		}
		switch x := f.instr().(type) {
		case *ssa.Send:
			if senders && e.chanOf(st, e.val(f, x.Chan)) == ch {
				r = append(r, partner{i, -1})
			}
		case *ssa.UnOp:
			if !senders && x.Op.String() == "<-" && e.chanOf(st, e.val(f, x.X)) == ch {
				r = append(r, partner{i, -1})
			}
		case *ssa.Select:
			for k, s := range x.States {
				if (s.Dir == types.SendOnly) == senders && e.chanOf(st, e.val(f, s.Chan)) == ch {
					r = append(r, partner{i, k})
				}
			}
		}
	}
	return r
}

func (e *Engine) readyCases(st *State, gi int, f *Frame, x *ssa.Select) []int {
	var r []int
	for k, s := range x.States {
		ch := e.chanOf(st, e.val(f, s.Chan))
		if s.Dir == types.SendOnly && e.canSend(st, gi, ch) || s.Dir == types.RecvOnly && e.canRecv(st, gi, ch) {
			r = append(r, k)
		}
	}
	return r
}

// pick chooses one of n alternatives through a symbolic choice.
func (e *Engine) pick(st *State, kind string, n int) int {
	if n == 1 {
		return 0
	}
	return int(e.conc(st, e.choice(st, kind, n)))
}

func (g *G) acquire(vc VC) { g.vc = g.vc.join(vc) }

func (g *G) release() VC {
	v := g.vc
	g.vc = g.vc.inc(g.id)
	return v
}

// wfr: writable top frame of goroutine gi.
func (st *State) wfr(gi int) *Frame { return st.wframeOf(st.gs[gi]) }

// completeRecv finishes a parked receive of another goroutine.
func (e *Engine) completeRecv(st *State, p partner, v Value, ok *Term) {
	f := st.wfr(p.g)
	switch x := f.instr().(type) {
	case *ssa.UnOp:
		if x.CommaOk {
			f.regs[f.fi.reg[x]] = TupleV{v, ok}
		} else {
			f.regs[f.fi.reg[x]] = v
		}
	case *ssa.Select:
		f.regs[f.fi.reg[x]] = e.selectResult(x, p.kase, v, ok)
	}
	f.pc++
	// it runs to its next visible operation before anything else is chosen
	st.gs[p.g].passed = false
	st.gs[p.g].started = false
}

func (e *Engine) completeSend(st *State, p partner) Value {
	f := st.wfr(p.g)
	var v Value
	switch x := f.instr().(type) {
	case *ssa.Send:
		v = e.val(f, x.X)
	case *ssa.Select:
		v = e.val(f, x.States[p.kase].Send)
		f.regs[f.fi.reg[x]] = e.selectResult(x, p.kase, nil, e.tb.False)
	}
	f.pc++
	// it runs to its next visible operation before anything else is chosen
	st.gs[p.g].passed = false
	st.gs[p.g].started = false
	return v
}

func (e *Engine) selectResult(x *ssa.Select, kase int, v Value, ok *Term) Value {
	r := TupleV{e.tb.Int(kase), ok}
	for k, s := range x.States {
		if s.Dir == types.RecvOnly {
			if k == kase {
				r = append(r, v)
			} else {
				r = append(r, e.zero(s.Chan.Type().Underlying().(*types.Chan).Elem()))
			}
		}
	}
	return r
}

// doSend performs a send that can proceed (plain or select case).
func (e *Engine) doSend(st *State, ch int32, v Value, pi int) {
	g := st.g()
	o := st.obj(ch).ch
	if o.closed {
		e.panicNow("send on closed channel")
	}
	if o.cap == 0 {
		ps := e.partners(st, st.cur, ch, false)
		p := ps[pi]
		q := st.gs[p.g]
		vc := g.release()
		qvc := q.release()
		q.acquire(vc)
		g.acquire(qvc)
		e.completeRecv(st, p, v, e.tb.True)
		return
	}
	w := st.wobj(ch).ch
	if len(w.rcvVC) > 0 {
		g.acquire(w.rcvVC[0])
		w.rcvVC = w.rcvVC[1:]
	}
	w.buf = append(w.buf, v)
	w.vcs = append(w.vcs, g.release())
}

func (e *Engine) doRecv(st *State, ch int32, pi int) (Value, *Term) {
	g := st.g()
	o := st.obj(ch).ch
	if len(o.buf) > 0 {
		w := st.wobj(ch).ch
		v := w.buf[0]
		w.buf = w.buf[1:]
		g.acquire(w.vcs[0])
		w.vcs = w.vcs[1:]
		w.rcvVC = append(append([]VC(nil), w.rcvVC...), g.release())
		return v, e.tb.True
	}
	if o.closed {
		g.acquire(o.clVC)
		return e.zero(o.elem), e.tb.False
	}
	ps := e.partners(st, st.cur, ch, true)
	p := ps[pi]
	q := st.gs[p.g]
	vc := g.release()
	qvc := q.release()
	q.acquire(vc)
	g.acquire(qvc)
	return e.completeSend(st, p), e.tb.True
}

func (e *Engine) pickPartner(st *State, ch int32, senders bool) int {
	o := st.obj(ch).ch
	if o.cap > 0 || o.closed || len(o.buf) > 0 {
		return 0
	}
	n := len(e.partners(st, st.cur, ch, senders))
	p := e.pick(st, "partner", n)
	if n > 1 {
		e.choiceDone(st, "partner")
	}
	return p
}

func (e *Engine) chanSend(st *State, f *Frame, x *ssa.Send) {
	e.visible(st)
	ch := e.chanOf(st, e.val(f, x.Chan))
	v := e.val(f, x.X)
	if st.obj(ch).ch.closed {
		e.panicNow("send on closed channel")
	}
	pi := e.pickPartner(st, ch, false)
	e.doSend(st, ch, v, pi)
	f.pc++
	st.g().passed = false
}

func (e *Engine) chanRecv(st *State, f *Frame, x *ssa.UnOp) {
	e.visible(st)
	ch := e.chanOf(st, e.val(f, x.X))
	pi := e.pickPartner(st, ch, true)
	v, ok := e.doRecv(st, ch, pi)
	if x.CommaOk {
		f.regs[f.fi.reg[x]] = TupleV{v, ok}
	} else {
		f.regs[f.fi.reg[x]] = v
	}
	f.pc++
	st.g().passed = false
}

func (e *Engine) selectOp(st *State, f *Frame, x *ssa.Select) {
	e.visible(st)
	ready := e.readyCases(st, st.cur, f, x)
	if len(ready) == 0 {
		if x.Blocking {
			panic(engineErr("blocked select scheduled"))
		}
		f.regs[f.fi.reg[x]] = e.selectResult(x, -1, nil, e.tb.False)
		f.pc++
		st.g().passed = false
		return
	}
	k := ready[e.pick(st, "select", len(ready))]
	s := x.States[k]
	ch := e.chanOf(st, e.val(f, s.Chan))
	// partner choice needs no separate variable when there is one
	pn := 1
	o := st.obj(ch).ch
	if o.cap == 0 && !o.closed && len(o.buf) == 0 {
		pn = len(e.partners(st, st.cur, ch, s.Dir == types.RecvOnly))
	}
	pi := e.pick(st, "partner", pn)
	if s.Dir == types.SendOnly && o.closed {
		e.panicNow("send on closed channel")
	}
	if len(ready) > 1 {
		e.choiceDone(st, "select")
	}
	if pn > 1 {
		e.choiceDone(st, "partner")
	}
	if s.Dir == types.SendOnly {
		e.doSend(st, ch, e.val(f, s.Send), pi)
		f = st.wframe()
		f.regs[f.fi.reg[x]] = e.selectResult(x, k, nil, e.tb.False)
	} else {
		v, ok := e.doRecv(st, ch, pi)
		f = st.wframe()
		f.regs[f.fi.reg[x]] = e.selectResult(x, k, v, ok)
	}
	f.pc++
	st.g().passed = false
}

func (e *Engine) chanClose(st *State, v Value) Value {
	ch := e.chanOf(st, v)
	if ch == 0 {
		e.panicNow("close of nil channel")
	}
	e.visible(st)
	if st.obj(ch).ch.closed {
		e.panicNow("close of closed channel")
	}
	w := st.wobj(ch).ch
	w.closed = true
	w.clVC = st.g().release()
	// parked receivers and senders become enabled
	return TupleV{}
}

// ---- data races (vector clocks)

type shadow struct {
	wg, wc int32
	site   string
	r      VC
}

func mergeShadow(a, b Value) Value {
	x, ok := a.(*shadow)
	if !ok {
		return b
	}
	y, ok := b.(*shadow)
	if !ok {
		return a
	}
	n := *x
	if y.wc > n.wc {
		n.wg, n.wc, n.site = y.wg, y.wc, y.site
	}
	n.r = n.r.join(y.r)
	return &n
}

func (e *Engine) access(st *State, obj int32, off *Term, n int, write bool) {
	if e.noRace || st.gs[st.cur].atomic > 0 || st.gs[st.cur].sim > 0 {
		return
	}
	if off.isConst() {
		e.touch(st, obj, int(off.val), n, write)
		return
	}
	o := st.obj(obj)
	if o.kind != KCells {
		return
	}
	for _, c := range e.offsets(st, off, o.vec.n-n+1) {
		e.touch(st, obj, int(c.c), n, write)
	}
}

func (e *Engine) accessRange(st *State, s SliceV, maxn int, n *Term, write bool) {
	if e.noRace || s.obj == 0 || st.gs[st.cur].sim > 0 {
		return
	}
	if s.lo.isConst() && n.isConst() {
		e.touch(st, s.obj, int(s.base)+int(s.lo.val)*int(s.esz), int(n.val)*int(s.esz), write)
		return
	}
	if s.lo.isConst() {
		e.touch(st, s.obj, int(s.base)+int(s.lo.val)*int(s.esz), int(n.lo)*int(s.esz), write)
	}
}

func (e *Engine) touch(st *State, obj int32, base, n int, write bool) {
	if n <= 0 {
		return
	}
	g := st.g()
	o := st.obj(obj)
	size := 1
	if o.kind == KCells {
		size = o.vec.n
	}
	// fast path: nothing changes
	if o.sh != nil {
		same := true
		for i := base; i < base+n && i < size; i++ {
			s, _ := o.sh.get(i).(*shadow)
			if s == nil || !(s.wg == int32(g.id) && s.wc == g.vc.at(g.id) || !write && s.r.at(g.id) == g.vc.at(g.id)) {
				same = false
				break
			}
		}
		if same {
			return
		}
	}
	var race *shadow
	w := st.wobj(obj)
	if w.sh == nil {
		w.sh = newVec(size, nil)
	}
	if w.sh.n < size {
		v := newVec(size, nil)
		for i := 0; i < w.sh.n; i++ {
			v.set(st.tok, i, w.sh.get(i))
		}
		w.sh = v
	}
	site := ""
	for i := base; i < base+n && i < size; i++ {
		s, _ := w.sh.get(i).(*shadow)
		ns := shadow{wg: -1}
		if s != nil {
			ns = *s
			if s.wg >= 0 && int(s.wg) != g.id && s.wc > g.vc.at(int(s.wg)) {
				race = s
			}
			if write {
				for k, c := range s.r {
					if k != g.id && c > g.vc.at(k) {
						race = s
					}
				}
			}
		}
		if write {
			if site == "" {
				site = st.top().fi.name
			}
			ns.wg, ns.wc, ns.site = int32(g.id), g.vc.at(g.id), site
			ns.r = nil
		} else {
			r := make(VC, max(len(ns.r), g.id+1))
			copy(r, ns.r)
			r[g.id] = g.vc.at(g.id)
			ns.r = r
		}
		w.sh.set(st.tok, i, &ns)
	}
	if race != nil {
		kind := "read"
		if write {
			kind = "write"
		}
		e.report(st, "race", fmt.Sprintf("data race: %s in %s unordered with an access in %s", kind, st.top().fi.name, race.site))
	}
}

// ---- sync primitives

type blocker func(e *Engine, st *State, gi int, args []Value) bool

var blockers map[string]blocker

func init() {
	lockFree := func(e *Engine, st *State, gi int, args []Value) bool {
		return e.cellIs0(st, args[0], 0)
	}
	blockers = map[string]blocker{
		"(*sync.Mutex).Lock":          lockFree,
		"(*internal/sync.Mutex).Lock": lockFree,
		"(*sync.RWMutex).Lock": func(e *Engine, st *State, gi int, args []Value) bool {
			return e.cellIs0(st, args[0], 0) && e.cellIs0(st, args[0], 2)
		},
		"(*sync.RWMutex).RLock": lockFree,
		"(*sync.WaitGroup).Wait": func(e *Engine, st *State, gi int, args []Value) bool {
			return e.cellIs0(st, args[0], 0)
		},
		"time.Sleep":     func(e *Engine, st *State, gi int, args []Value) bool { return false },
		symPkg + ".Wait": func(e *Engine, st *State, gi int, args []Value) bool { return false },
	}
}

func (e *Engine) syncCell(st *State, p Value, k int) (int32, int) {
	q := e.one(st, p)
	a, ok := q.(Ptr)
	if !ok || a.obj == 0 {
		e.panicNow("invalid memory address or nil pointer dereference")
	}
	return a.obj, int(e.conc(st, a.off)) + k
}

func (e *Engine) cellIs0(st *State, p Value, k int) bool {
	q := e.one(st, p)
	a, ok := q.(Ptr)
	if !ok || a.obj == 0 {
		return true // panics when executed
	}
	o, i := e.syncCell(st, p, k)
	t := st.obj(o).vec.get(i).(*Term)
	return e.conc(st, t) == 0
}

func (e *Engine) cellGet(st *State, p Value, k int) *Term {
	o, i := e.syncCell(st, p, k)
	return st.obj(o).vec.get(i).(*Term)
}

func (e *Engine) cellSet(st *State, p Value, k int, v uint64) {
	o, i := e.syncCell(st, p, k)
	w := st.wobj(o)
	t := w.vec.get(i).(*Term)
	w.vec.set(st.tok, i, e.tb.Const(t.w, v))
}

func (o *Obj) clockOf(k int) VC {
	for _, c := range o.clocks {
		if c.k == k {
			return c.vc
		}
	}
	return nil
}

func (o *Obj) setClock(k int, v VC) {
	n := make([]clk, 0, len(o.clocks)+1)
	for _, c := range o.clocks {
		if c.k != k {
			n = append(n, c)
		}
	}
	o.clocks = append(n, clk{k, v})
}

type clk struct {
	k  int
	vc VC
}

func (e *Engine) acq(st *State, p Value, k int) {
	o, i := e.syncCell(st, p, k)
	st.g().acquire(st.obj(o).clockOf(i))
}

func (e *Engine) rel(st *State, p Value, k int) {
	o, i := e.syncCell(st, p, k)
	w := st.wobj(o)
	w.setClock(i, w.clockOf(i).join(st.g().release()))
}

func clocksEq(a, b []clk) bool {
	if len(a) != len(b) {
		return false
	}
	for _, x := range a {
		f := false
		for _, y := range b {
			if x.k == y.k && x.vc.eq(y.vc) {
				f = true
			}
		}
		if !f {
			return false
		}
	}
	return true
}
