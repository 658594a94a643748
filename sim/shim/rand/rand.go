// Package rand replaces math/rand in instrumented code.
package rand

import (
	rr "math/rand"

	"verif/sim/vsim"
)

type (
	// Rand is the standard type.
	Rand = rr.Rand
	// Source is the standard type.
	Source = rr.Source
	// Source64 is the standard type.
	Source64 = rr.Source64
	// Zipf is the standard type.
	Zipf = rr.Zipf
)

// Constructors of the standard package.
var (
	New       = rr.New
	NewSource = rr.NewSource
	NewZipf   = rr.NewZipf
)

var def = rr.New(rr.NewSource(1))

func init() { vsim.OnReset("math/rand", func() { def = rr.New(rr.NewSource(1)) }) }

func g() *rr.Rand {
	if w := vsim.Active(); w != nil {
		w.Point(2)
	}
	return def
}

// Seed is the standard function.
func Seed(s int64) { g().Seed(s) }

// Int31n is the standard function.
func Int31n(n int32) int32 { return g().Int31n(n) }

// Int63n is the standard function.
func Int63n(n int64) int64 { return g().Int63n(n) }

// Intn is the standard function.
func Intn(n int) int { return g().Intn(n) }

// Perm is the standard function.
func Perm(n int) []int { return g().Perm(n) }

// Read is the standard function.
func Read(p []byte) (int, error) { return g().Read(p) }

// Shuffle is the standard function.
func Shuffle(n int, swap func(i, j int)) { g().Shuffle(n, swap) }

// ExpFloat64 is the standard function.
func ExpFloat64() float64 { return g().ExpFloat64() }

// Float32 is the standard function.
func Float32() float32 { return g().Float32() }

// Float64 is the standard function.
func Float64() float64 { return g().Float64() }

// Int is the standard function.
func Int() int { return g().Int() }

// Int31 is the standard function.
func Int31() int32 { return g().Int31() }

// Int63 is the standard function.
func Int63() int64 { return g().Int63() }

// NormFloat64 is the standard function.
func NormFloat64() float64 { return g().NormFloat64() }

// Uint32 is the standard function.
func Uint32() uint32 { return g().Uint32() }

// Uint64 is the standard function.
func Uint64() uint64 { return g().Uint64() }
