package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

var (
	flagHarness = flag.String("harness", "/verif/harness", "harness module")
	flagProp    = flag.String("prop", "", "property to check")
	flagRun     = flag.String("run", "", "only harness functions matching this expression")
	flagTier    = flag.String("tier", "quick", "quick or thorough")
	flagOut     = flag.String("out", "/verif/evidence", "evidence directory")
	flagKnown   = flag.String("known", "/verif/known-findings.txt", "known findings")
	flagTrace   = flag.Bool("trace", false, "print every instruction")
	flagV       = flag.Bool("v", false, "verbose")
	flagShards  = flag.Int("shards", 16, "parts that a harness with splits is divided into")
	flagPart    = flag.Int("part", -1, "only this part of each harness")
	flagMemProf = flag.String("memprofile", "", "write a heap profile every 5 s")
	flagJobs    = flag.Int("j", 8, "harnesses run in parallel")
	flagLimit   = flag.Int("limit", 0, "time limit per harness, seconds")
	flagSeed    = flag.Int64("seed", 1, "seed for sampling")
	flagNoNat   = flag.Bool("nonative", false, "no native validation")
	flagProfile = flag.String("cpuprofile", "", "write a CPU profile")
)

// HResult is the outcome of one harness.
type HResult struct {
	name      string
	e         *Engine
	err       error
	wall      time.Duration
	samples   []*Sample
	unreached []string
	shard     int
	shards    int
}

type Sample struct {
	Inputs map[string]uint64
	Log    []LogEnt
	Multi  bool
	Result string
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "sethost" {
		setHost(os.Args[2], os.Args[3:])
	}
	if len(os.Args) > 1 && os.Args[1] == "replay" {
		os.Exit(replayFile(os.Args[2:]))
	}
	flag.Parse()
	if *flagMemProf != "" {
		go func() {
			for {
				time.Sleep(5 * time.Second)
				if f, err := os.Create(*flagMemProf); err == nil {
					pprof.WriteHeapProfile(f)
					f.Close()
				}
			}
		}()
	}
	debug.SetMemoryLimit(18 << 30)
	go watchMemory()
	stop := startProfile(*flagProfile)
	code := run()
	stop()
	os.Exit(code)
}

func run() int {
	t0 := time.Now()
	var srcs map[string][]byte
	var err error
	if wantsShim(*flagHarness, *flagProp) {
		if srcs, err = shim("/repo"); err != nil {
			fmt.Fprintln(os.Stderr, "gosym:", err)
			return 2
		}
	}
	l, err := loadProgram(*flagHarness, srcs)
	if err != nil {
		fmt.Fprintln(os.Stderr, "gosym:", err)
		return 2
	}
	l.harness.Build()
	loadTime := time.Since(t0)
	var re *regexp.Regexp
	if *flagRun != "" {
		re = regexp.MustCompile(*flagRun)
	}
	var fns []*ssa.Function
	for n, m := range l.harness.Members {
		f, ok := m.(*ssa.Function)
		if !ok || !strings.HasPrefix(n, *flagProp+"_") && *flagProp != "" || re != nil && !re.MatchString(n) || *flagProp == "" && !harnessName.MatchString(n) {
			continue
		}
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Name() < fns[j].Name() })
	if len(fns) == 0 {
		fmt.Fprintln(os.Stderr, "gosym: no harness")
		return 2
	}
	limit := time.Duration(*flagLimit) * time.Second
	if limit == 0 {
		limit = 420 * time.Second
		if *flagTier == "thorough" {
			limit = 5400 * time.Second
		}
	}
	type job struct {
		f             *ssa.Function
		shard, shards int
	}
	var jobs []job
	for k := 0; k < max(1, *flagShards); k++ {
		for _, f := range fns {
			n := 1
			if *flagShards > 1 && hasSplit(f) {
				n = *flagShards
			}
			if k < n && (*flagPart < 0 || k == *flagPart) {
				jobs = append(jobs, job{f, k, n})
			}
		}
	}
	end := t0.Add(limit + limit*5/7) // 720 s in the quick tier
	res := make([]*HResult, len(jobs))
	queue := make(chan int, len(jobs))
	for i := range jobs {
		queue <- i
	}
	close(queue)
	var wg sync.WaitGroup
	var nat *native
	if !*flagNoNat {
		nat = newNative(srcs)
		defer nat.cleanup()
	}
	// the first violation that the compiled code confirms and that is not listed as known ends the exploration
	var mu, confirming sync.Mutex
	var first *Violation
	var firstIn string
	stopped := make(chan bool)
	known := readKnown(*flagKnown)
	early := func(f *ssa.Function, v *Violation) {
		if nat == nil || isKnown(known, f.Name(), v) {
			return
		}
		confirming.Lock()
		defer confirming.Unlock()
		if stopAll.Load() {
			return
		}
		v.native, v.attempts, v.Confirmed = nat.confirm(f.Name(), *flagTier, v)
		if v.Confirmed {
			mu.Lock()
			first, firstIn = v, f.Name()
			mu.Unlock()
			stopAll.Store(true)
			close(stopped)
		}
	}
	for k := 0; k < *flagJobs; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range queue {
				lim := limit
				if left := time.Until(end); left < lim {
					lim = left
				}
				if stopAll.Load() {
					continue
				}
				r := runOne(l, jobs[i].f, lim, jobs[i].shard, jobs[i].shards, early)
				mu.Lock()
				res[i] = r
				mu.Unlock()
			}
		}()
	}
	waited := make(chan bool)
	go func() { wg.Wait(); close(waited) }()
	select {
	case <-waited:
	case <-stopped:
		select {
		case <-waited:
		case <-time.After(20 * time.Second):
		}
	}
	exec := time.Since(t0)
	mu.Lock()
	var got []*HResult
	for _, r := range res {
		if r != nil {
			got = append(got, r)
		}
	}
	res = got
	if first != nil {
		// its own exploration may still be under way
		e := newEngine(l, Config{tier: *flagTier, seed: *flagSeed})
		e.sol.close()
		e.viol = []*Violation{first}
		seen := false
		for _, r := range res {
			for _, v := range r.e.viol {
				seen = seen || v == first
			}
		}
		if !seen {
			res = append(res, &HResult{name: firstIn, e: e, shards: 1})
		}
	}
	mu.Unlock()
	merged(res)
	code := conclude(fns, res, nat, t0, loadTime, exec)
	return code
}

var harnessName = regexp.MustCompile(`^C[0-9][0-9]_`)

func runOne(l *Loaded, f *ssa.Function, limit time.Duration, shard, shards int, early func(*ssa.Function, *Violation)) (r *HResult) {
	t0 := time.Now()
	e := newEngine(l, Config{tier: *flagTier, seed: *flagSeed})
	e.trace = *flagTrace
	e.deadline = t0.Add(limit)
	e.memEpoch = memoryLow.Load()
	if strings.Contains(f.Name(), "_symhost") {
		e.symHost = 4
		if *flagTier == "thorough" {
			e.symHost = 8
		}
		e.bounds["host name bytes"] = strconv.Itoa(e.symHost)
	}
	e.shard, e.shards = shard, shards
	e.onViol = func(v *Violation) { early(f, v) }
	r = &HResult{name: f.Name(), e: e, shard: shard, shards: shards}
	r.err = e.runHarness(f)
	e.deadline = time.Time{}
	for _, lab := range reachLabels(f) {
		if !e.reach[lab] {
			r.unreached = append(r.unreached, lab)
		}
	}
	if !stopAll.Load() {
		r.pickSamples()
	}
	e.ended = nil
	e.sol.close()
	r.wall = time.Since(t0)
	if *flagV {
		r.print()
	}
	return r
}

// hasSplit tells whether a harness splits on a value.
func hasSplit(f *ssa.Function) bool {
	found := false
	calls(f, func(c ssa.CallInstruction, callee *ssa.Function) {
		if callee.String() == symPkg+".Split" {
			found = true
		}
	})
	return found
}

// merged combines what the parts of a harness say.
func merged(res []*HResult) {
	reached := map[string]map[string]bool{}
	seen := map[string]bool{}
	confirmed := map[string]*Violation{}
	for _, r := range res {
		for _, v := range r.e.viol {
			if v.Confirmed {
				confirmed[r.name+" "+v.key] = v
			}
		}
	}
	for _, r := range res {
		if reached[r.name] == nil {
			reached[r.name] = map[string]bool{}
		}
		for k := range r.e.reach {
			reached[r.name][k] = true
		}
		var viol []*Violation
		for _, v := range r.e.viol {
			k := r.name + " " + v.key
			if c := confirmed[k]; c != nil && c != v {
				continue
			}
			if !seen[k] {
				seen[k] = true
				viol = append(viol, v)
			}
		}
		r.e.viol = viol
	}
	for _, r := range res {
		var u []string
		for _, l := range r.unreached {
			if !reached[r.name][l] && r.shard == 0 {
				u = append(u, l)
			}
		}
		r.unreached = u
	}
}

func (r *HResult) print() {
	e := r.e
	if r.shards > 1 {
		fmt.Printf("[%d/%d] ", r.shard, r.shards)
	}
	fmt.Printf("%s: %.1fs err=%v\n  %+v\n  solver %+v terms %d\n", r.name, r.wall.Seconds(), r.err, e.stats, e.sol.stats, len(e.sol.emitted))
	fmt.Println("  incomplete", e.incompl, "unreached", r.unreached, "notes", e.notes, "bounds", e.bounds, "dbg", e.dbg)
	for k, d := range e.spent {
		if d > time.Second {
			fmt.Printf("  site %6.1fs %s\n", d.Seconds(), k)
		}
	}
	for _, v := range e.viol {
		fmt.Printf("  VIOL %s %s\n   %v\n   %v\n   %s\n", v.Kind, v.Msg, v.Inputs, v.Log, v.Where)
	}
}

// reachLabels: the labels of sym.Reach calls in a harness and the functions nested in it.
func reachLabels(f *ssa.Function) []string {
	var out []string
	calls(f, func(c ssa.CallInstruction, callee *ssa.Function) {
		if callee.String() == symPkg+".Reach" {
			if k, ok := c.Common().Args[0].(*ssa.Const); ok {
				out = append(out, strings.Trim(k.Value.ExactString(), `"`))
			}
		}
	})
	return out
}

// calls visits the static calls of a harness and of the harness functions that it uses.
func calls(f *ssa.Function, fn func(c ssa.CallInstruction, callee *ssa.Function)) {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				callee := c.Common().StaticCallee()
				if callee == nil {
					continue
				}
				if callee.Pkg == f.Pkg && callee.Parent() == nil && callee.Name() != "init" {
					visit(callee)
				}
				fn(c, callee)
			}
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}
	visit(f)
}

// pickSamples solves some of the completed paths for concrete inputs.
func (r *HResult) pickSamples() {
	e := r.e
	if r.err != nil {
		return
	}
	want := 8
	if r.shards > 1 {
		want = 2
	}
	n := len(e.ended)
	if n == 0 {
		return
	}
	step := max(1, n/want)
	for i := 0; i < n && len(r.samples) < want; i += step {
		st := e.ended[i]
		var m Model
		func() {
			defer func() { recover() }()
			e.sol.fastMS = 4000
			old := e.sol.slow
			e.sol.slow = 5 * time.Second
			defer func() { e.sol.slow = old }()
			res, mm := e.sol.Check(st.pcList())
			if res == Sat {
				m = mm
			} else {
				m = st.model
			}
		}()
		if m == nil {
			m = st.model
		}
		if !e.modelOK(st, m, nil) {
			continue
		}
		v := &Violation{}
		e.fillModel(st, m, v)
		r.samples = append(r.samples, &Sample{Inputs: v.Inputs, Log: v.Log, Multi: len(st.gs) > 1})
	}
}

// known findings: lines "KNOWN <property> <harness> <regexp over kind|message>"
type knownFinding struct {
	prop, harness string
	re            *regexp.Regexp
	text          string
}

func readKnown(path string) []knownFinding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.SplitN(strings.TrimSpace(l), " :: ", 4)
		if len(f) == 4 && f[0] != "" && strings.HasPrefix(f[0], "known ") {
			out = append(out, knownFinding{strings.TrimPrefix(f[0], "known property="), f[1], regexp.MustCompile(f[2]), f[3]})
		}
	}
	return out
}

func isKnown(known []knownFinding, harness string, v *Violation) bool {
	for _, k := range known {
		if k.prop == *flagProp && k.harness == harness && k.re.MatchString(v.key) {
			return true
		}
	}
	return false
}

func replayDir() string { return filepath.Join(*flagOut, "replay") }
