package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/pprof"
	"strings"
	"sync"
	"syscall"
	"time"
)

// native builds and runs the harnesses natively against the real code.
type native struct {
	dir     string
	once    sync.Once
	err     error
	bin     string
	sonce   sync.Once
	serr    error
	sbin    string
	ronce   sync.Once
	rerr    error
	rbin    string
	noHost  bool
	hostErr string
	overlay string            // in place of net and os
	srcs    map[string][]byte // its sources
}

func startProfile(p string) func() {
	if p == "" {
		return func() {}
	}
	f, err := os.Create(p)
	if err != nil {
		panic(err)
	}
	pprof.StartCPUProfile(f)
	return pprof.StopCPUProfile
}

func newNative(srcs map[string][]byte) *native {
	d, err := os.MkdirTemp("", "gosym")
	if err != nil {
		return &native{err: err}
	}
	n := &native{dir: d, srcs: srcs}
	n.overlay, n.err = writeOverlay(srcs, d, "shim")
	go n.build()
	return n
}

func (n *native) cleanup() {
	n.build()
	if strings.HasPrefix(n.dir, os.TempDir()) {
		os.RemoveAll(n.dir)
	}
}

func goEnv(cgo string) []string {
	env := []string{}
	for _, kv := range os.Environ() {
		if strings.HasPrefix(kv, "GOFLAGS=") || strings.HasPrefix(kv, "CGO_ENABLED=") || strings.HasPrefix(kv, "GOWORK=") || strings.HasPrefix(kv, "GO111MODULE=") {
			continue
		}
		env = append(env, kv)
	}
	return append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off", "GO111MODULE=on", "GOTOOLCHAIN=local", "CGO_ENABLED="+cgo)
}

func (n *native) build() {
	n.once.Do(func() {
		if n.err != nil {
			return
		}
		n.bin = filepath.Join(n.dir, "replay.test")
		c := exec.Command("go", "test", "-c", "-vet=off", "-overlay", n.overlay, "-o", n.bin, "./replay")
		c.Dir = *flagHarness
		c.Env = goEnv("0")
		if out, err := c.CombinedOutput(); err != nil {
			n.err = fmt.Errorf("native build: %v\n%s", err, out)
		}
	})
}

func (n *native) buildRace() {
	n.ronce.Do(func() {
		n.rbin = filepath.Join(n.dir, "replay-race.test")
		c := exec.Command("go", "test", "-c", "-race", "-vet=off", "-overlay", n.overlay, "-o", n.rbin, "./replay")
		c.Dir = *flagHarness
		c.Env = goEnv("1")
		if out, err := c.CombinedOutput(); err != nil {
			n.rerr = fmt.Errorf("native race build: %v\n%s", err, out)
		}
	})
}

// buildSched builds the binary with yield points.
func (n *native) buildSched() {
	n.sonce.Do(func() {
		ov, err := instrument("/repo", n.dir, n.srcs)
		if err != nil {
			n.serr = err
			return
		}
		n.sbin = filepath.Join(n.dir, "replay-sched.test")
		c := exec.Command("go", "test", "-c", "-vet=off", "-overlay", ov, "-o", n.sbin, "./replay")
		c.Dir = *flagHarness
		c.Env = goEnv("0")
		if out, err := c.CombinedOutput(); err != nil {
			n.serr = fmt.Errorf("native build with yield points: %v\n%s", err, out)
		}
	})
}

type natResult struct {
	Status string // ok assert reject panic deadlock hang race error
	Msg    string
	Log    []struct{ Label, V string }
	Stderr string
}

func (n *native) exec(bin, harness, tier string, inputs map[string]uint64, limit time.Duration, extra ...string) natResult {
	f, err := os.CreateTemp(n.dir, "in")
	if err != nil {
		return natResult{Status: "error", Msg: err.Error()}
	}
	b, _ := json.Marshal(map[string]interface{}{"harness": harness, "tier": tier, "inputs": inputs})
	f.Write(b)
	f.Close()
	out := f.Name() + ".out"
	defer os.Remove(f.Name())
	defer os.Remove(out)
	args := []string{"-test.run", "^TestReplay$", "-test.timeout", "0"}
	host := "verif.example"
	if ln, ok := inputs["env.hostname.len"]; ok {
		hb := []byte{}
		for i := 0; i < int(ln); i++ {
			hb = append(hb, byte(inputs[fmt.Sprintf("env.hostname[%d]", i)]))
		}
		host = string(hb)
	}
	var c *exec.Cmd
	if !n.noHost {
		self, _ := os.Executable()
		c = exec.Command(self, append([]string{"sethost", fmt.Sprintf("%x", host), bin}, args...)...)
		c.SysProcAttr = &syscall.SysProcAttr{
			Cloneflags:  syscall.CLONE_NEWUSER | syscall.CLONE_NEWUTS,
			UidMappings: []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getuid(), Size: 1}},
			GidMappings: []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getgid(), Size: 1}},
			Setpgid:     true,
		}
	} else {
		c = exec.Command(bin, args...)
		c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	}
	c.Dir = n.dir
	c.Env = append(os.Environ(), "VERIF_REPLAY="+f.Name(), "VERIF_OUT="+out, "TZ=UTC")
	c.Env = append(c.Env, extra...)
	var buf bytes.Buffer
	c.Stdout = &buf
	c.Stderr = &buf
	if err := c.Start(); err != nil {
		if !n.noHost {
			n.noHost = true
			n.hostErr = err.Error()
			return n.exec(bin, harness, tier, inputs, limit, extra...)
		}
		return natResult{Status: "error", Msg: err.Error()}
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	hang := false
	select {
	case err = <-done:
	case <-time.After(limit):
		hang = true
		syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
		<-done
	}
	r := natResult{Stderr: tail(buf.String(), 6000)}
	if hang {
		r.Status = "hang"
		return r
	}
	if ob, e2 := os.ReadFile(out); e2 == nil {
		json.Unmarshal(ob, &r)
	}
	s := buf.String()
	switch {
	case strings.Contains(s, "WARNING: DATA RACE"):
		r.Status = "race"
	case r.Status == "ok" || r.Status == "assert" || r.Status == "reject":
	case strings.Contains(s, "deadlock: ") || strings.Contains(s, "all goroutines are asleep"):
		r.Status = "deadlock"
	case strings.Contains(s, "panic: ") || strings.Contains(s, "fatal error: "):
		r.Status = "panic"
		if i := strings.Index(s, "panic: "); i >= 0 {
			r.Msg = strings.SplitN(s[i:], "\n", 2)[0]
		}
	default:
		r.Status = "error"
		r.Msg = fmt.Sprint(err)
	}
	return r
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}

// setHost: helper process, sets the host name of its own UTS namespace.
func setHost(hexName string, argv []string) {
	var b []byte
	fmt.Sscanf(hexName, "%x", &b)
	syscall.Sethostname(b)
	err := syscall.Exec(argv[0], argv, os.Environ())
	fmt.Fprintln(os.Stderr, "exec:", err)
	os.Exit(125)
}

type replayDoc struct {
	Property string            `json:"property"`
	Harness  string            `json:"harness"`
	Tier     string            `json:"tier"`
	Kind     string            `json:"kind"`
	Msg      string            `json:"message"`
	Inputs   map[string]uint64 `json:"inputs"`
	Log      []LogEnt          `json:"log"`
	Where    string            `json:"where"`
	Native   string            `json:"native_result"`
	NatMsg   string            `json:"native_message"`
	Attempts int               `json:"native_attempts"`
}

// replayFile re-runs a reported counterexample.
func replayFile(args []string) int {
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var d replayDoc
	if err := json.Unmarshal(b, &d); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var srcs map[string][]byte
	if wantsShim(*flagHarness, strings.SplitN(d.Harness, "_", 2)[0]) {
		if srcs, err = shim("/repo"); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	n := newNative(srcs)
	defer n.cleanup()
	v := &Violation{Kind: d.Kind, Msg: d.Msg, Inputs: d.Inputs, Log: d.Log}
	r, k, ok := n.confirm(d.Harness, d.Tier, v)
	fmt.Printf("%s: %s %q\nnative: %s %s after %d runs (confirmed: %v)\n%s\n", d.Harness, d.Kind, d.Msg, r.Status, r.Msg, k, ok, r.Stderr)
	if ok {
		return 1
	}
	return 0
}

func matches(kind string, r natResult) bool {
	switch kind {
	case "assert":
		return r.Status == "assert" || r.Status == "panic"
	case "panic":
		return r.Status == "panic"
	case "deadlock":
		return r.Status == "deadlock" || r.Status == "hang"
	case "race":
		return r.Status == "race"
	}
	return false
}

// confirm reproduces a counterexample natively.
func (n *native) confirm(harness, tier string, v *Violation) (natResult, int, bool) {
	multi := v.Kind == "race" || v.Kind == "deadlock"
	for _, l := range v.Log {
		if l.Kind == "sched" {
			multi = true
		}
	}
	n.build()
	if n.err != nil {
		return natResult{Status: "error", Msg: n.err.Error()}, 0, false
	}
	bin := n.bin
	if v.Kind == "race" {
		n.buildRace()
		if n.rerr != nil {
			return natResult{Status: "error", Msg: n.rerr.Error()}, 0, false
		}
		bin = n.rbin
	}
	r := n.exec(bin, harness, tier, v.Inputs, 20*time.Second)
	if matches(v.Kind, r) {
		return r, 1, true
	}
	if !multi {
		return r, 1, false
	}
	if v.Kind != "race" {
		n.buildSched()
		if n.serr == nil {
			bin = n.sbin
		} else {
			fmt.Fprintln(os.Stderr, "gosym:", n.serr)
		}
	}
	return n.stress(bin, harness, tier, v)
}

// stress repeats a run until the violation shows.
func (n *native) stress(bin, harness, tier string, v *Violation) (natResult, int, bool) {
	var mu sync.Mutex
	var best natResult
	runs, found := 0, false
	end := time.Now().Add(40 * time.Second)
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; ; i++ {
				mu.Lock()
				stop := found || runs > 4000
				mu.Unlock()
				if stop || time.Now().After(end) {
					return
				}
				r := n.exec(bin, harness, tier, v.Inputs, 8*time.Second, fmt.Sprintf("VERIF_JITTER=%d", w*10000+i+1), fmt.Sprintf("GOMAXPROCS=%d", 1+w%2*(i%4)))
				mu.Lock()
				runs++
				if matches(v.Kind, r) && !found {
					found = true
					best = r
				} else if !found {
					best = r
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	return best, runs, found
}

// sameLog compares the observations of a native run with the predicted ones.
func sameLog(want []LogEnt, got []struct{ Label, V string }) (bool, string) {
	i := 0
	for _, w := range want {
		if w.Kind != "obs" {
			continue
		}
		if i >= len(got) {
			return false, fmt.Sprintf("%s is missing", w.Label)
		}
		g := got[i]
		i++
		if w.V == nil {
			continue
		}
		if g.Label != w.Label || g.V != fmt.Sprint(w.V) {
			return false, fmt.Sprintf("predicted %s=%v, got %s=%s", w.Label, w.V, g.Label, g.V)
		}
	}
	if i != len(got) {
		return false, "more observations than predicted"
	}
	return true, ""
}
