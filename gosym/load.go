package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const (
	harnessPath = "verif/harness"
	symPkg      = "verif/harness/sym"
	repoPath    = "github.com/nathanaelle/syslog5424/v2"
)

// Loaded is the program under analysis, shared by all engines.
type Loaded struct {
	prog      *ssa.Program
	sizes     types.Sizes
	order     []*ssa.Package // dependency order
	rtErrType types.Type
	harness   *ssa.Package
	mu        sync.Mutex
	pkgOf     map[string]*ssa.Package
}

func loadProgram(dir string, overlay map[string][]byte) (*Loaded, error) {
	env := []string{}
	for _, kv := range os.Environ() {
		if strings.HasPrefix(kv, "GOFLAGS=") || strings.HasPrefix(kv, "CGO_ENABLED=") || strings.HasPrefix(kv, "GO111MODULE=") || strings.HasPrefix(kv, "GOWORK=") {
			continue
		}
		env = append(env, kv)
	}
	env = append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "CGO_ENABLED=0", "GOWORK=off", "GO111MODULE=on", "GOTOOLCHAIN=local")
	all := stdOverlay(env)
	for k, v := range overlay {
		if all == nil {
			all = map[string][]byte{}
		}
		all[k] = v
	}
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax | packages.NeedModule,
		Dir:     dir,
		Env:     env,
		Overlay: all,
	}
	pkgs, err := packages.Load(cfg, harnessPath)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	l := &Loaded{prog: prog, sizes: types.SizesFor("gc", "amd64"), pkgOf: map[string]*ssa.Package{}}
	seen := map[*types.Package]bool{}
	var visit func(p *packages.Package)
	visit = func(p *packages.Package) {
		if p.Types == nil || seen[p.Types] {
			return
		}
		seen[p.Types] = true
		paths := make([]string, 0, len(p.Imports))
		for k := range p.Imports {
			paths = append(paths, k)
		}
		sort.Strings(paths)
		for _, k := range paths {
			visit(p.Imports[k])
		}
		if sp := prog.Package(p.Types); sp != nil {
			l.order = append(l.order, sp)
			l.pkgOf[p.Types.Path()] = sp
		}
	}
	for _, p := range pkgs {
		visit(p)
	}
	rt := l.pkgOf["runtime"]
	if rt == nil {
		return nil, fmt.Errorf("no runtime package")
	}
	l.rtErrType = rt.Pkg.Scope().Lookup("errorString").Type()
	l.harness = l.pkgOf[harnessPath]
	// the packages executed are built up front, so that concurrent engines only read
	return l, nil
}

func (l *Loaded) ensureBuilt(fn *ssa.Function) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if fn.Blocks != nil {
		return
	}
	p := fn
	for p.Parent() != nil {
		p = p.Parent()
	}
	if p.Pkg != nil {
		p.Pkg.Build()
	} else if o := p.Origin(); o != nil && o.Pkg != nil {
		o.Pkg.Build()
	}
}

func (l *Loaded) lookupMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	l.mu.Lock()
	defer l.mu.Unlock()
	sel := l.prog.MethodSets.MethodSet(t).Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return l.prog.MethodValue(sel)
}

// ---- package initialisation

// packages whose initialisation is not executed: their globals must not be read
// (except those set up by the engine).
var skipInit = map[string]bool{
	"runtime": true, "reflect": true, "internal/poll": true,
	"internal/godebug": true, "internal/reflectlite": true, "internal/abi": true,
	"internal/syscall/unix": true, "internal/testlog": true, "unique": true, "weak": true,
	"crypto": true, "runtime/cgo": true, "internal/bisect": true, "net/netip": true,
	"vendor/golang.org/x/net/dns/dnsmessage": true, "internal/godebugs": true,
	"internal/runtime/cgroup": true, "internal/runtime/maps": true, "internal/syscall/execenv": true,
	"internal/coverage/rtcov": true,
}

func skipPkg(path string) bool {
	return skipInit[path] || strings.HasPrefix(path, "internal/runtime/")
}

type poisonV struct{ what string }

// initState runs the package initialisers concretely and returns the state in which harnesses start.
func (e *Engine) initState() (*State, error) {
	st := &State{tok: new(otok), model: Model{}, quiet: true}
	st.gs = []*G{{id: 0, choice: -1, started: true}}
	for _, p := range e.L.order {
		skip := skipPkg(p.Pkg.Path())
		names := make([]string, 0, len(p.Members))
		for n := range p.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			g, ok := p.Members[n].(*ssa.Global)
			if !ok {
				continue
			}
			t := g.Type().(*types.Pointer).Elem()
			var id int32
			if skip {
				id = e.newObjID(st, g)
				st.heap.put(st.tok, id, &Obj{owner: st.tok, kind: KCells, typ: t, site: g.String(),
					vec: newVec(e.size(t), OpaqueV{"global " + g.String() + " of a package that is not initialised"})})
			} else {
				id = e.allocType(st, g, t)
			}
			e.globals[g] = id
		}
	}
	for _, p := range e.L.order {
		if skipPkg(p.Pkg.Path()) || ownPkg(p.Pkg.Path()) {
			continue
		}
		fn := p.Func("init")
		if fn == nil {
			continue
		}
		var err error
		if st, err = e.runInit(st, fn); err != nil {
			return nil, fmt.Errorf("init of %s: %v", p.Pkg.Path(), err)
		}
	}
	st.gs[0].frames = nil
	st.quiet = false
	st.steps = 0
	return st, nil
}

func (e *Engine) runInit(st *State, fn *ssa.Function) (res *State, err error) {
	st.gs[0].frames = nil
	st.gs[0].panics = nil
	e.pushFrame(st, fn, nil, nil)
	for tries := 0; ; tries++ {
		if tries > 200 {
			return nil, fmt.Errorf("too many failing initialisers")
		}
		done, next, failed := e.initSteps(st)
		if failed == "" {
			return done, nil
		}
		if strings.HasPrefix(fn.Pkg.Pkg.Path(), repoPath) || strings.HasPrefix(fn.Pkg.Pkg.Path(), harnessPath) {
			return nil, fmt.Errorf("%s", failed)
		}
		if next == nil {
			return nil, fmt.Errorf("%s", failed)
		}
		e.initNotes = append(e.initNotes, failed)
		st = next
	}
}

// initSteps executes an init function; each call it makes is run from a snapshot, to which
// it returns with an unusable result when the call cannot be executed.
func (e *Engine) initSteps(st *State) (done, next *State, failed string) {
	var snap *State
	defer func() {
		if r := recover(); r != nil {
			a, ok := r.(initAbort)
			if !ok {
				panic(r)
			}
			failed = a.msg
			if len(st.gs) == 1 && len(st.gs[0].frames) == 1 && !st.gs[0].frames[0].unwind {
				if _, ok := st.top().instr().(*ssa.Call); !ok {
					snap = st
				}
			}
			if snap == nil {
				next = nil
				return
			}
			f := snap.wframe()
			switch in := f.instr().(type) {
			case *ssa.Call:
			case *ssa.Store, *ssa.MapUpdate:
				f.pc++
				next = snap
				return
			case ssa.Value:
				f.regs[f.fi.reg[in]] = OpaqueV{"initialiser failed: " + a.msg}
				f.pc++
				next = snap
				return
			default:
				next = nil
				return
			}
			in := f.instr()
			var res Value = OpaqueV{"initialiser failed: " + a.msg}
			if c, ok := in.(*ssa.Call); ok {
				if tt, ok := c.Type().(*types.Tuple); ok {
					tv := TupleV{}
					for i := 0; i < tt.Len(); i++ {
						tv = append(tv, OpaqueV{"initialiser failed"})
					}
					res = tv
				}
			}
			e.setResult(snap, f, res)
			next = snap
		}
	}()
	for {
		if len(st.gs[0].frames) == 0 {
			return st, nil, ""
		}
		if len(st.gs) > 1 {
			panic(initAbort{"goroutine started by an initialiser"})
		}
		f := st.wframe()
		in := f.instr()
		if _, ok := in.(*ssa.Call); ok && len(st.gs[0].frames) == 1 {
			snap = st.clone()
		}
		func() {
			defer func() {
				switch r := recover().(type) {
				case nil:
				case unsupported:
					panic(initAbort{r.msg + " at " + e.where(st)})
				case splitSig, checkSig, yieldSig, deadSig, goPanic:
					panic(initAbort{fmt.Sprintf("%T %v at %s", r, r, e.where(st))})
				default:
					panic(r)
				}
			}()
			for {
				if f.unwind {
					panic(initAbort{"panic during initialisation at " + e.where(st)})
				}
				e.stats.Steps++
				e.step(st, f, f.instr())
				if st.hit != 0 {
					panic(initAbort{"stop"})
				}
				if len(st.gs[0].frames) == 0 {
					return
				}
				f = st.wframe()
				if len(st.gs[0].frames) == 1 {
					return
				}
			}
		}()
	}
}

// runHarness executes a harness function symbolically to the end.
func (e *Engine) runHarness(fn *ssa.Function) (err error) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case timeoutSig:
				e.incompl["time limit reached"]++
				e.aborted = true
			case engineErr:
				err = x
			default:
				// a failure of the engine is no verdict
				err = engineErr(fmt.Sprintf("%v", r))
				e.aborted = true
				fmt.Fprintf(os.Stderr, "gosym: internal failure: %v\n%s\n", r, debug.Stack())
			}
		}
	}()
	st, err := e.initState()
	if err != nil {
		return err
	}
	e.stats = Stats{}
	e.ended = nil
	e.pushFrame(st, fn, nil, nil).discard = true
	// the packages of the repository and the harness are initialised by ordinary execution
	for i := len(e.L.order) - 1; i >= 0; i-- {
		p := e.L.order[i]
		if !ownPkg(p.Pkg.Path()) {
			continue
		}
		if f := p.Func("init"); f != nil {
			e.pushFrame(st, f, nil, nil).discard = true
		}
	}
	st.shard, st.shards = e.shard, max(1, e.shards)
	e.explore([]*State{st})
	return nil
}

func ownPkg(path string) bool {
	return strings.HasPrefix(path, repoPath) || strings.HasPrefix(path, harnessPath)
}
