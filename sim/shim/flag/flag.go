// Package flag replaces flag in the instrumented commands: the command line is
// the one of the simulated process.
package flag

import (
	"flag"
	"time"

	"verif/sim/shim/os"
)

// The standard types and values.
type (
	FlagSet       = flag.FlagSet
	Flag          = flag.Flag
	Value         = flag.Value
	Getter        = flag.Getter
	ErrorHandling = flag.ErrorHandling
)

// The standard values.
const (
	ContinueOnError = flag.ContinueOnError
	ExitOnError     = flag.ExitOnError
	PanicOnError    = flag.PanicOnError
)

// The standard values.
var (
	ErrHelp     = flag.ErrHelp
	NewFlagSet  = flag.NewFlagSet
	CommandLine = flag.NewFlagSet("mmvdump", flag.ContinueOnError)
	Usage       = func() { CommandLine.Usage() }
)

// Reset is called when a simulated process starts.
func Reset() {
	CommandLine = flag.NewFlagSet("mmvdump", flag.ContinueOnError)
	CommandLine.SetOutput(os.Stderr)
}

// Parse parses the simulated command line.
func Parse() {
	var a []string
	if len(os.Args) > 1 {
		a = os.Args[1:]
	}
	switch err := CommandLine.Parse(a); err {
	case nil:
	case flag.ErrHelp:
		os.Exit(0)
	default:
		os.Exit(2)
	}
}

// The standard functions.
func Parsed() bool           { return CommandLine.Parsed() }
func Arg(i int) string       { return CommandLine.Arg(i) }
func Args() []string         { return CommandLine.Args() }
func NArg() int              { return CommandLine.NArg() }
func NFlag() int             { return CommandLine.NFlag() }
func PrintDefaults()         { CommandLine.PrintDefaults() }
func Lookup(n string) *Flag  { return CommandLine.Lookup(n) }
func Set(n, v string) error  { return CommandLine.Set(n, v) }
func Visit(f func(*Flag))    { CommandLine.Visit(f) }
func VisitAll(f func(*Flag)) { CommandLine.VisitAll(f) }

func Var(v Value, n, u string)                       { CommandLine.Var(v, n, u) }
func Bool(n string, v bool, u string) *bool          { return CommandLine.Bool(n, v, u) }
func BoolVar(p *bool, n string, v bool, u string)    { CommandLine.BoolVar(p, n, v, u) }
func Int(n string, v int, u string) *int             { return CommandLine.Int(n, v, u) }
func IntVar(p *int, n string, v int, u string)       { CommandLine.IntVar(p, n, v, u) }
func Int64(n string, v int64, u string) *int64       { return CommandLine.Int64(n, v, u) }
func Uint(n string, v uint, u string) *uint          { return CommandLine.Uint(n, v, u) }
func Uint64(n string, v uint64, u string) *uint64    { return CommandLine.Uint64(n, v, u) }
func Float64(n string, v float64, u string) *float64 { return CommandLine.Float64(n, v, u) }
func String(n, v, u string) *string                  { return CommandLine.String(n, v, u) }
func StringVar(p *string, n, v, u string)            { CommandLine.StringVar(p, n, v, u) }
func Duration(n string, v time.Duration, u string) *time.Duration {
	return CommandLine.Duration(n, v, u)
}
