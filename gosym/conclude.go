package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

func conclude(fns []*ssa.Function, res []*HResult, nat *native, t0 time.Time, loadTime, execTime time.Duration) int {
	prop := *flagProp
	known := readKnown(*flagKnown)
	code := 0
	nviol := 0
	var lines []string
	validated, mismatched := 0, 0
	var mism []string
	// counterexamples
	os.MkdirAll(replayDir(), 0o755)
	var unconf []string
	for _, r := range res {
		if r.err != nil {
			fmt.Fprintf(os.Stderr, "gosym: %s: %v\n", r.name, r.err)
			r.e.incompl["engine error: "+r.err.Error()]++
		}
		for i, v := range r.e.viol {
			doc := replayDoc{prop, r.name, *flagTier, v.Kind, v.Msg, v.Inputs, v.Log, v.Where, "not run", "", 0}
			ok := false
			if nat != nil {
				nr, k, conf := v.native, v.attempts, v.Confirmed
				if !conf {
					if stopAll.Load() {
						continue // another one is confirmed already
					}
					nr, k, conf = nat.confirm(r.name, *flagTier, v)
				}
				doc.Native, doc.NatMsg, doc.Attempts = nr.Status, nr.Msg, k
				ok = conf
				if !conf && *flagV {
					fmt.Println(nr.Status, nr.Msg, nr.Stderr)
				}
			}
			path := filepath.Join(replayDir(), fmt.Sprintf("%s-%s-%d.json", prop, r.name, r.shard*100+i))
			b, _ := json.MarshalIndent(doc, "", " ")
			os.WriteFile(path, append(b, '\n'), 0o644)
			if !ok {
				unconf = append(unconf, fmt.Sprintf("%s: %s %q (native result: %s %s after %d runs) %s", r.name, v.Kind, v.Msg, doc.Native, doc.NatMsg, doc.Attempts, path))
				continue
			}
			kf := false
			for _, k := range known {
				if k.prop == prop && k.harness == r.name && k.re.MatchString(v.key) {
					lines = append(lines, fmt.Sprintf("KNOWN-FINDING: property=%s %s", prop, k.text))
					kf = true
					break
				}
			}
			if kf {
				continue
			}
			nviol++
			code = 1
			fmt.Printf("%s: %s: %s\n", r.name, v.Kind, v.Msg)
			lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", prop, path))
		}
	}
	// sampled paths against the real code
	if nat != nil && nviol == 0 {
		nat.build()
		if nat.err != nil {
			fmt.Fprintln(os.Stderr, "gosym:", nat.err)
			mism = append(mism, nat.err.Error())
		} else {
			type job struct {
				r *HResult
				s *Sample
			}
			var jobs []job
			for _, r := range res {
				for _, s := range r.samples {
					jobs = append(jobs, job{r, s})
				}
			}
			var mu sync.Mutex
			var wg sync.WaitGroup
			sem := make(chan bool, 8)
			for _, j := range jobs {
				wg.Add(1)
				go func() {
					defer wg.Done()
					sem <- true
					defer func() { <-sem }()
					nr := nat.exec(nat.bin, j.r.name, *flagTier, j.s.Inputs, 30*time.Second)
					mu.Lock()
					defer mu.Unlock()
					j.s.Result = nr.Status
					if nr.Status == "ok" {
						same, why := true, ""
						if !j.s.Multi {
							same, why = sameLog(j.s.Log, nr.Log)
						}
						if same {
							validated++
							return
						}
						nr.Msg = why
						j.s.Result = "differs: " + why
					}
					mismatched++
					if len(mism) < 10 {
						mism = append(mism, fmt.Sprintf("%s: %s %s on %v\n%s", j.r.name, nr.Status, nr.Msg, shortInputs(j.s.Inputs), tail(nr.Stderr, 1500)))
					}
				}()
			}
			wg.Wait()
		}
	}
	writeEvidence(fns, res, t0, loadTime, execTime, nviol, validated, mism, unconf, nat)
	for _, u := range unconf {
		fmt.Println("UNCONFIRMED", u)
	}
	for _, m := range mism {
		fmt.Println("MISMATCH", m)
	}
	inc := 0
	for _, r := range res {
		for k, n := range r.e.incompl {
			fmt.Printf("REDUCED %s: %s (%d)\n", r.name, k, n)
			inc++
		}
		if len(r.unreached) > 0 {
			fmt.Printf("UNREACHED %s: %v\n", r.name, r.unreached)
		}
	}
	for _, l := range lines {
		fmt.Println(l)
	}
	tot := SolverStats{}
	var paths int64
	for _, r := range res {
		tot.Queries += r.e.sol.stats.Queries
		tot.Time += r.e.sol.stats.Time
		paths += r.e.stats.Paths
	}
	fmt.Printf("%s %s: %d harnesses, %d queries (%.1fs solver), %d paths, %d validated natively, %d violations, %.1fs\n", prop, *flagTier, len(fns), tot.Queries, tot.Time.Seconds(), paths, validated, nviol, time.Since(t0).Seconds())
	return code
}

func sumCounts(a, b map[string]int) map[string]int {
	out := map[string]int{}
	for k, n := range a {
		out[k] += n
	}
	for k, n := range b {
		out[k] += n
	}
	return out
}

func union(a, b []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, s := range append(append([]string{}, a...), b...) {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	sort.Strings(out)
	return out
}

func shortInputs(in map[string]uint64) string {
	return strings.Join(inputList(in), " ")
}

// inputList renders inputs, byte arrays as quoted strings.
func inputList(in map[string]uint64) []string {
	arr := map[string][]int{}
	var out []string
	for k, v := range in {
		if i := strings.IndexByte(k, '['); i > 0 {
			var x int
			fmt.Sscanf(k[i:], "[%d]", &x)
			a := arr[k[:i]]
			for len(a) <= x {
				a = append(a, 0)
			}
			a[x] = int(v)
			arr[k[:i]] = a
			continue
		}
		out = append(out, fmt.Sprintf("%s=%d", k, int64(v)))
	}
	for k, a := range arr {
		n := len(a)
		if l, ok := in[k+".len"]; ok && int(l) < n {
			n = int(l)
		}
		b := []byte{}
		for _, x := range a[:n] {
			b = append(b, byte(x))
		}
		out = append(out, fmt.Sprintf("%s=%q", k, b))
	}
	sort.Strings(out)
	return out
}

func writeEvidence(fns []*ssa.Function, res []*HResult, t0 time.Time, loadTime, execTime time.Duration, nviol, validated int, mism, unconf []string, nat *native) {
	type H struct {
		Harness    string            `json:"harness"`
		Bounds     map[string]string `json:"bounds"`
		Stats      Stats             `json:"stats"`
		Queries    int               `json:"queries"`
		Unsat      int               `json:"unsat"`
		Sat        int               `json:"sat"`
		Unknown    int               `json:"unknown"`
		SolverS    float64           `json:"solver_s"`
		MaxQueryS  float64           `json:"longest_query_s"`
		WallS      float64           `json:"wall_s"`
		Terms      int               `json:"terms"`
		Asserts    map[string]int    `json:"assertions_decided"`
		Reached    []string          `json:"witnesses_reached"`
		Unreached  []string          `json:"witnesses_not_reached,omitempty"`
		Incomplete map[string]int    `json:"incomplete,omitempty"`
		Notes      map[string]int    `json:"notes,omitempty"`
		Violations []string          `json:"violations,omitempty"`
		Parts      int               `json:"parts"`
	}
	var hs []H
	fnset := map[string]int{}
	var states, trans int64
	var queries, unsat int
	var solver float64
	var samples []interface{}
	complete := true
	for _, r := range res {
		e := r.e
		h := H{Harness: r.name, Bounds: e.bounds, Stats: e.stats, Queries: e.sol.stats.Queries, Unsat: e.sol.stats.Unsat, Sat: e.sol.stats.Sat, Unknown: e.sol.stats.Unknown,
			SolverS: e.sol.stats.Time.Seconds(), MaxQueryS: e.sol.stats.Max.Seconds(), WallS: r.wall.Seconds(), Terms: len(e.sol.emitted), Asserts: e.asserts,
			Unreached: r.unreached, Incomplete: e.incompl, Notes: e.notes}
		for k := range e.reach {
			h.Reached = append(h.Reached, k)
		}
		sort.Strings(h.Reached)
		for _, v := range e.viol {
			h.Violations = append(h.Violations, v.Kind+": "+v.Msg)
		}
		if len(e.incompl) > 0 || r.err != nil {
			complete = false
		}
		if n := len(hs); n > 0 && hs[n-1].Harness == h.Harness {
			p := &hs[n-1]
			p.Stats.add(h.Stats)
			p.Queries, p.Unsat, p.Sat, p.Unknown, p.Terms = p.Queries+h.Queries, p.Unsat+h.Unsat, p.Sat+h.Sat, p.Unknown+h.Unknown, p.Terms+h.Terms
			p.SolverS, p.MaxQueryS, p.WallS = p.SolverS+h.SolverS, max(p.MaxQueryS, h.MaxQueryS), max(p.WallS, h.WallS)
			p.Asserts, p.Incomplete, p.Notes = sumCounts(p.Asserts, h.Asserts), sumCounts(p.Incomplete, h.Incomplete), sumCounts(p.Notes, h.Notes)
			p.Reached = union(p.Reached, h.Reached)
			p.Violations = append(p.Violations, h.Violations...)
			p.Parts++
		} else {
			h.Parts = 1
			hs = append(hs, h)
		}
		for fi := range e.executed {
			if fi.fn.Pkg != nil && strings.HasPrefix(fi.fn.Pkg.Pkg.Path(), harnessPath) {
				continue
			}
			fnset[fi.name] = fi.instrs
		}
		states += e.stats.Paths + e.stats.Forks + e.stats.States
		trans += e.stats.Steps
		queries += h.Queries
		unsat += h.Unsat
		solver += h.SolverS
		for i, s := range r.samples {
			if i < 3 {
				samples = append(samples, map[string]interface{}{"harness": r.name, "inputs": inputList(s.Inputs), "native": s.Result})
			}
		}
	}
	var own, std []string
	for f := range fnset {
		if strings.Contains(f, repoPath) {
			own = append(own, f)
		} else {
			std = append(std, f)
		}
	}
	sort.Strings(own)
	sort.Strings(std)
	if samples == nil {
		samples = []interface{}{}
	}
	doc := map[string]interface{}{
		"property": *flagProp, "tier": *flagTier, "seed": *flagSeed, "level": "model_checking",
		"wall_s":     time.Since(t0).Seconds(),
		"violations": nviol,
		"assumptions": []string{
			"bounds as listed per harness; inputs beyond them are not covered",
			"go/ssa of golang.org/x/tools v0.52.0 and the translation of its instructions to SMT terms (validated on sampled paths by native runs)",
			"models of functions without Go body and of sync, reflect, clocks and the network as listed in DESIGN.md",
			"answers of z3 (second solver cvc5 or z3 4.8 when the first gives up)",
			"concurrent code: sequentially consistent interleavings at synchronisation operations, data races reported separately",
		},
		"coverage": map[string]interface{}{
			"states": states, "transitions": trans, "traces_validated_against_impl": validated,
			"samples":                     samples,
			"functions_encoded":           own,
			"library_functions_encoded":   std,
			"queries_discharged":          queries,
			"queries_unsat":               unsat,
			"solver_s":                    solver,
			"load_s":                      loadTime.Seconds(),
			"complete_within_bounds":      complete,
			"harnesses":                   hs,
			"native_mismatches":           mism,
			"unconfirmed_counterexamples": unconf,
		},
	}
	os.MkdirAll(*flagOut, 0o755)
	b, err := json.MarshalIndent(doc, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return
	}
	name := *flagProp
	if name == "" {
		name = "all"
	}
	os.WriteFile(filepath.Join(*flagOut, name+".json"), append(b, '\n'), 0o644)
}
