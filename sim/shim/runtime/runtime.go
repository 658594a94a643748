// Package runtime replaces the standard package in instrumented code.
package runtime

import (
	rr "runtime"

	"verif/sim/vsim"
)

// Definitions of the standard package.
const (
	Compiler = rr.Compiler
	GOARCH   = rr.GOARCH
	GOOS     = rr.GOOS
)

type (
	// Error is the standard type.
	Error = rr.Error
	// Frame is the standard type.
	Frame = rr.Frame
	// Frames is the standard type.
	Frames = rr.Frames
	// Func is the standard type.
	Func = rr.Func
	// MemStats is the standard type.
	MemStats = rr.MemStats
	// TypeAssertionError is the standard type.
	TypeAssertionError = rr.TypeAssertionError
)

// Functions of the standard package.
var (
	Caller        = rr.Caller
	Callers       = rr.Callers
	CallersFrames = rr.CallersFrames
	FuncForPC     = rr.FuncForPC
	KeepAlive     = rr.KeepAlive
	ReadMemStats  = rr.ReadMemStats
	Stack         = rr.Stack
	Version       = rr.Version
	Goexit        = rr.Goexit
)

// Gosched is a scheduling point.
func Gosched() {
	if w := vsim.Active(); w != nil {
		w.YieldFair()
	}
}

// GC does nothing.
func GC() {}

// SetFinalizer does nothing: finalizers never run during an execution.
func SetFinalizer(obj, f any) {}

// GOMAXPROCS pretends eight processors.
func GOMAXPROCS(n int) int { return 8 }

// NumCPU pretends eight processors.
func NumCPU() int { return 8 }

// NumGoroutine counts the simulated goroutines.
func NumGoroutine() int {
	if w := vsim.W; w != nil {
		return w.LiveTasks()
	}
	return 1
}

// LockOSThread does nothing.
func LockOSThread() {}

// UnlockOSThread does nothing.
func UnlockOSThread() {}
