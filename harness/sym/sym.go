// Package sym is the interface of the harnesses to the symbolic executor.
//
// Under the executor every function here is intercepted: inputs are symbolic
// variables, Assume restricts them, Assert is decided by the solver for all of
// their values. Natively the inputs come from a solver model (see Load), so
// that a counterexample or a sampled path runs against the real code.
package sym

import (
	"encoding/hex"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"sync"
	"time"
)

// Inputs of the run.
var (
	mu     sync.Mutex
	inputs = map[string]uint64{}
	tier   = "quick"

	// Log collects the observations.
	Log []Obs
	// Failed is called when an assertion does not hold.
	Failed = func(msg string) {
		fmt.Fprintln(os.Stderr, "ASSERTION FAILED: "+msg)
		os.Exit(3)
	}
	// Rejected is called when an assumption does not hold.
	Rejected = func() {
		fmt.Fprintln(os.Stderr, "ASSUMPTION NOT MET")
		os.Exit(4)
	}
	// Quiesce waits until every other goroutine is blocked.
	Quiesce = func() { time.Sleep(20 * time.Millisecond) }
)

// Obs is an observation.
type Obs struct {
	Label string
	V     string
}

// Load sets the inputs.
func Load(in map[string]uint64, t string) { inputs = in; tier = t }

func in(name string, lo uint64) uint64 {
	if v, ok := inputs[name]; ok {
		return v
	}
	return lo
}

// Symbolic tells whether the program is being executed symbolically.
func Symbolic() bool { return false }

// Byte is an arbitrary byte.
func Byte(name string) byte { return byte(in(name, 0)) }

// Bool is an arbitrary boolean.
func Bool(name string) bool { return in(name, 0) == 1 }

// Int is an arbitrary integer between lo and hi.
func Int(name string, lo, hi int) int {
	if lo >= 0 {
		return int(in(name, uint64(lo)))
	}
	return int(in(name, 0)) + lo
}

// Int64 is an arbitrary 64 bit integer.
func Int64(name string) int64 { return int64(in(name, 0)) }

// Bytes is an arbitrary byte slice of length n.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(in(name+"["+strconv.Itoa(i)+"]", 0))
	}
	return b
}

// BytesUpTo is an arbitrary byte slice of length 0..max.
func BytesUpTo(name string, max int) []byte {
	b := Bytes(name, int(in(name+".len", 0)))
	return b[:len(b):len(b)]
}

// String is an arbitrary string of length n.
func String(name string, n int) string { return string(Bytes(name, n)) }

// StringUpTo is an arbitrary string of length 0..max.
func StringUpTo(name string, max int) string { return string(BytesUpTo(name, max)) }

// BytesIn is an arbitrary byte slice of length 0..max with bytes between lo and hi.
func BytesIn(name string, max int, lo, hi byte) []byte {
	n := int(in(name+".len", 0))
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(in(name+"["+strconv.Itoa(i)+"]", uint64(lo)))
	}
	return b
}

// StringIn is an arbitrary string of length 0..max with bytes between lo and hi.
func StringIn(name string, max int, lo, hi byte) string { return string(BytesIn(name, max, lo, hi)) }

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		Rejected()
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		Failed(msg)
	}
}

// Fail is Assert(false, msg).
func Fail(msg string) { Failed(msg) }

// Reach records that this point can be reached.
func Reach(label string) {}

// Branch makes the executor follow both values of c separately.
func Branch(c bool) bool { return c }

// Concrete makes the executor follow each value of x separately.
func Concrete(x int) int { return x }

// Split is Concrete, and the paths are never merged again.
func Split(x int) int { return x }

// Bound is a bound of the exploration.
func Bound(name string, quick, thorough int) int {
	if tier == "thorough" {
		return thorough
	}
	return quick
}

func obs(label, v string) {
	mu.Lock()
	Log = append(Log, Obs{label, v})
	mu.Unlock()
}

// ObsInt, ObsStr and ObsBool record values that are compared between the symbolic
// execution and the native run.
func ObsInt(label string, v int)    { obs(label, strconv.Itoa(v)) }
func ObsStr(label string, v string) { obs(label, hex.EncodeToString([]byte(v))) }
func ObsBool(label string, v bool)  { obs(label, strconv.FormatBool(v)) }

// Wait returns when every other goroutine is blocked.
func Wait() { Quiesce() }

// Yield is a scheduling point.
func Yield() { runtime.Gosched() }

// Preempt bounds the number of preemptive context switches.
func Preempt(n int) {}

// MaxSched bounds the number of scheduling steps.
func MaxSched(n int) {}

// NoRace switches race detection off.
func NoRace() {}

// SetNow moves the clock forward to 123456789 nanoseconds after sec (seconds since the epoch).
func SetNow(sec int) {
	d := time.Until(time.Unix(int64(sec), 123456789))
	if d > 0 {
		time.Sleep(d)
	}
}
