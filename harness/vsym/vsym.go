// Package vsym declares the inputs and assertions of verification harnesses.
//
// Under the symbolic engine every function here is intercepted. This file is
// the native implementation: inputs come from a recorded assignment, so the
// same harness replays a solver model against the compiled code.
package vsym

import (
	"fmt"
	"strconv"
)

type stop struct{}
type infeasible struct{ msg string }

// State of the current native run.
var (
	Names  []string
	Vals   []int64
	Params map[string]int
	pos    int
	Fails  []string
	Obs    []string
)

func next(name string, lo, hi int64) int64 {
	if pos >= len(Vals) {
		// beyond the recorded inputs: any value in range
		pos++
		return lo
	}
	if Names[pos] != name {
		panic(infeasible{fmt.Sprintf("input %d is %q, recorded %q", pos, name, Names[pos])})
	}
	v := Vals[pos]
	pos++
	if v < lo || v > hi {
		panic(infeasible{fmt.Sprintf("input %q out of range", name)})
	}
	return v
}

// Byte is any byte.
func Byte(name string) byte { return byte(next(name, 0, 255)) }

// ByteIn is any byte of alphabet.
func ByteIn(name, alphabet string) byte {
	b := byte(next(name, 0, 255))
	for i := 0; i < len(alphabet); i++ {
		if alphabet[i] == b {
			return b
		}
	}
	if pos > len(Vals) {
		return alphabet[0]
	}
	panic(infeasible{"byte outside alphabet"})
}

// Bool is any truth value.
func Bool(name string) bool { return next(name, 0, 1) == 1 }

// Int is any integer in [lo,hi] (at most 256 values); it stays symbolic.
func Int(name string, lo, hi int) int { return int(next(name, int64(lo), int64(hi))) }

// Choice is any integer in [0,n); the engine forks over its values.
func Choice(name string, n int) int { return int(next(name, 0, int64(n-1))) }

// String is any string of n bytes.
func String(name string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next(fmt.Sprintf("%s[%d]", name, i), 0, 255))
	}
	return string(b)
}

// StringIn is any string of n bytes drawn from alphabet.
func StringIn(name string, n int, alphabet string) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = ByteIn(fmt.Sprintf("%s[%d]", name, i), alphabet)
	}
	return string(b)
}

// Assume restricts the inputs considered.
func Assume(b bool) {
	if !b {
		panic(infeasible{"assumption"})
	}
}

// Assert states the property.
func Assert(b bool, msg string) {
	if !b {
		Fail(msg)
	}
}

// Fail reports a violation.
func Fail(msg string) {
	Fails = append(Fails, msg)
	panic(stop{})
}

// Known marks that the current input belongs to a listed finding.
func Known(tag string) {}

// Stop ends the path.
func Stop() { panic(stop{}) }

// Observe records a value which must agree between the engine and the compiled code.
func Observe(name, v string) { Obs = append(Obs, name+"="+strconv.QuoteToASCII(v)) }

// Reach is a reachability witness.
func Reach(name string) {}

// Param is a bound set by the check.
func Param(name string, def int) int {
	if v, ok := Params[name]; ok {
		return v
	}
	return def
}

// Sched asks the engine to explore goroutine schedules.
func Sched() {}

// MapOrder asks the engine to explore map iteration orders.
func MapOrder(on bool) {}

// And and Or do not short-circuit.
func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }

// Symbolic tells whether the engine is running.
func Symbolic() bool { return false }

// Log prints during development.
func Log(s string) {}

// ExitHook is used by CatchExit natively.
type exitPanic struct{ code int }

// CatchExit runs f and reports whether it called os.Exit. Natively os.Exit
// cannot be caught: the runner reports the exit code of the process instead.
func CatchExit(f func()) (code int, exited bool) {
	f()
	return 0, false
}

// Cleanup holds what is to be done after a native run.
var Cleanup []func()

// Mains are programs the native runner can run as processes of their own.
var Mains map[string]func()

// Result of a native run.
type Result struct {
	Outcome string   `json:"outcome"`
	Msg     string   `json:"msg,omitempty"`
	Obs     []string `json:"obs,omitempty"`
}

// Run executes a harness on the recorded inputs.
func Run(h func()) (r Result) {
	pos, Fails, Obs = 0, nil, nil
	defer func() {
		switch x := recover().(type) {
		case nil:
			r.Outcome = "ok"
		case stop:
			r.Outcome = "ok"
			if len(Fails) > 0 {
				r.Outcome, r.Msg = "fail", Fails[0]
			}
		case infeasible:
			r.Outcome, r.Msg = "infeasible", x.msg
		default:
			r.Outcome, r.Msg = "panic", fmt.Sprint(x)
		}
		r.Obs = Obs
		for _, f := range Cleanup {
			f()
		}
		Cleanup = nil
	}()
	h()
	return
}
