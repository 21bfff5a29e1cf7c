package main

import (
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

// A few files of the standard library rest on the runtime in a way that cannot be executed. The executor
// (and only it: native runs use the real ones) sees them with the parts below in place.
//
//   - sync.Map, sync.Pool and sync.Cond are written with a map, a slice and channels; simEnter and simLeave
//     bracket a section that is atomic and ordered with the others on the same object
//   - timers are goroutines that sleep; time passes only when every other goroutine is blocked
//   - errors.As and sort.Slice use two operations of the engine instead of internal/reflectlite
func stdOverlay(env []string) map[string][]byte {
	cmd := exec.Command("go", "env", "GOROOT")
	cmd.Env = env
	b, err := cmd.Output()
	if err != nil {
		return nil
	}
	src := filepath.Join(strings.TrimSpace(string(b)), "src")
	out := map[string][]byte{}
	edit := func(file string, pairs ...string) {
		p := filepath.Join(src, file)
		b, err := os.ReadFile(p)
		if err != nil {
			return
		}
		s := string(b)
		for i := 0; i < len(pairs); i += 2 {
			from, to := pairs[i], pairs[i+1]
			if k := strings.Index(from, "…"); k >= 0 { // from … to
				a, z := from[:k], from[k+len("…"):]
				i := strings.Index(s, a)
				if i < 0 {
					return
				}
				j := strings.Index(s[i:], z)
				if j < 0 {
					return
				}
				s = s[:i] + to + s[i+j+len(z):]
				continue
			}
			if !strings.Contains(s, from) {
				return // another version of the library: not replaced
			}
			s = strings.ReplaceAll(s, from, to)
		}
		out[p] = []byte(s)
	}
	whole := func(file, text string) {
		p := filepath.Join(src, file)
		if _, err := os.Stat(p); err == nil {
			out[p] = []byte(text)
		}
	}
	whole("sync/map.go", simMap)
	whole("sync/pool.go", simPool)
	whole("sync/cond.go", simCond)
	edit("errors/wrap.go",
		"\tval := reflectlite.ValueOf(target)…\treturn as(err, target, val, targetType)\n", "\treturn simAs(err, target)\n",
		"var errorType =", simAs+"\nvar errorType =")
	edit("sort/slice.go",
		"\trv := reflectlite.ValueOf(x)\n", "",
		"rv.Len()", "simLen(x)",
		"func SliceIsSorted", "func simLen(x any) int { return 0 }\n\nfunc SliceIsSorted")
	edit("time/sleep.go",
		"func newTimer(when, period int64, f func(any, uintptr, int64), arg any, cp unsafe.Pointer) *Timer\n", simTimer,
		"func stopTimer(*Timer) bool\n", simStop,
		"func resetTimer(t *Timer, when, period int64) bool\n", simReset,
		"\tinitTimer bool\n", "\tinitTimer bool\n\tsim *simState\n")
	edit("time/tick.go", "\tinitTicker bool\n", "\tinitTicker bool\n\tsim *simState\n")
	return out
}

const simMap = `package sync

type Map struct {
	m map[any]any
}

func simEnter(p any) {}
func simLeave(p any) {}

func (m *Map) Load(key any) (value any, ok bool) {
	simEnter(m)
	value, ok = m.m[key]
	simLeave(m)
	return
}

func (m *Map) Store(key, value any) { m.Swap(key, value) }

func (m *Map) Clear() {
	simEnter(m)
	m.m = nil
	simLeave(m)
}

func (m *Map) LoadOrStore(key, value any) (actual any, loaded bool) {
	simEnter(m)
	actual, loaded = m.m[key]
	if !loaded {
		if m.m == nil {
			m.m = make(map[any]any)
		}
		m.m[key] = value
		actual = value
	}
	simLeave(m)
	return
}

func (m *Map) LoadAndDelete(key any) (value any, loaded bool) {
	simEnter(m)
	value, loaded = m.m[key]
	delete(m.m, key)
	simLeave(m)
	return
}

func (m *Map) Delete(key any) { m.LoadAndDelete(key) }

func (m *Map) Swap(key, value any) (previous any, loaded bool) {
	simEnter(m)
	previous, loaded = m.m[key]
	if m.m == nil {
		m.m = make(map[any]any)
	}
	m.m[key] = value
	simLeave(m)
	return
}

func (m *Map) CompareAndSwap(key, old, new any) (swapped bool) {
	simEnter(m)
	if v, ok := m.m[key]; ok && v == old {
		m.m[key] = new
		swapped = true
	}
	simLeave(m)
	return
}

func (m *Map) CompareAndDelete(key, old any) (deleted bool) {
	simEnter(m)
	if v, ok := m.m[key]; ok && v == old {
		delete(m.m, key)
		deleted = true
	}
	simLeave(m)
	return
}

func (m *Map) Range(f func(key, value any) bool) {
	simEnter(m)
	var ks, vs []any
	for k, v := range m.m {
		ks, vs = append(ks, k), append(vs, v)
	}
	simLeave(m)
	for i, k := range ks {
		if !f(k, vs[i]) {
			return
		}
	}
}
`

const simPool = `package sync

type Pool struct {
	noCopy noCopy
	items  []any
	New func() any
}

func simKeep() bool { return false }
func simQuiet(p any) {}

func (p *Pool) Put(x any) {
	if x == nil || !simKeep() {
		return
	}
	simQuiet(p)
	p.items = append(p.items, x)
	simLeave(p)
}

func (p *Pool) Get() any {
	var x any
	if simKeep() {
		simQuiet(p)
		if n := len(p.items); n > 0 {
			x = p.items[n-1]
			p.items = p.items[:n-1]
		}
		simLeave(p)
	}
	if x == nil && p.New != nil {
		x = p.New()
	}
	return x
}
`

const simCond = `package sync

type Cond struct {
	noCopy noCopy
	L Locker
	waiting []chan struct{}
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	w := make(chan struct{}, 1)
	simEnter(c)
	c.waiting = append(c.waiting, w)
	simLeave(c)
	c.L.Unlock()
	<-w
	c.L.Lock()
}

func (c *Cond) Signal() {
	var w chan struct{}
	simEnter(c)
	if len(c.waiting) > 0 {
		w = c.waiting[0]
		c.waiting = c.waiting[1:]
	}
	simLeave(c)
	if w != nil {
		w <- struct{}{}
	}
}

func (c *Cond) Broadcast() {
	simEnter(c)
	l := c.waiting
	c.waiting = nil
	simLeave(c)
	for _, w := range l {
		w <- struct{}{}
	}
}

type noCopy struct{}

func (*noCopy) Lock()   {}
func (*noCopy) Unlock() {}
`

const simAs = `
func simSet(err error, target any) bool { return false }

func simAs(err error, target any) bool {
	for {
		if simSet(err, target) {
			return true
		}
		if x, ok := err.(interface{ As(any) bool }); ok && x.As(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, err := range x.Unwrap() {
				if err == nil {
					continue
				}
				if simAs(err, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}
`

// a ticker ticks a few times only, so that a program which waits for ever is seen to do so
const simTimer = `
type simState struct {
	gen    int
	active bool
	f      func(any, uintptr, int64)
	arg    any
}

func simEnter(p any) {}
func simLeave(p any) {}

func newTimer(when, period int64, f func(any, uintptr, int64), arg any, cp unsafe.Pointer) *Timer {
	s := &simState{f: f, arg: arg}
	simStart(s, when-runtimeNano(), period)
	return &Timer{initTimer: true, sim: s}
}

func simStart(s *simState, d, period int64) {
	simEnter(s)
	s.gen++
	s.active = true
	gen := s.gen
	simLeave(s)
	go func() {
		for n := 0; n < 3; n++ {
			Sleep(Duration(d))
			simEnter(s)
			stop := s.gen != gen
			if period == 0 && !stop {
				s.active = false
			}
			simLeave(s)
			if stop {
				return
			}
			s.f(s.arg, 0, 0)
			if period == 0 {
				return
			}
			d = period
		}
	}()
}

func simDrain(s *simState) bool {
	simEnter(s)
	was := s.active
	s.active = false
	s.gen++
	simLeave(s)
	if c, ok := s.arg.(chan Time); ok {
		select {
		case <-c:
		default:
		}
	}
	return was
}
`

const simStop = `
func stopTimer(t *Timer) bool { return simDrain(t.sim) }
`

const simReset = `
func resetTimer(t *Timer, when, period int64) bool {
	was := simDrain(t.sim)
	simStart(t.sim, when-runtimeNano(), period)
	return was
}
`
