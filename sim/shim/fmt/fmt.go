// Package fmt replaces fmt in instrumented code: printing goes to the
// simulated standard output.
package fmt

import (
	"fmt"
	"io"

	"verif/sim/shim/os"
)

// The standard types.
type (
	Formatter  = fmt.Formatter
	GoStringer = fmt.GoStringer
	ScanState  = fmt.ScanState
	Scanner    = fmt.Scanner
	State      = fmt.State
	Stringer   = fmt.Stringer
)

// The standard functions.
var (
	Append       = fmt.Append
	Appendf      = fmt.Appendf
	Appendln     = fmt.Appendln
	Errorf       = fmt.Errorf
	FormatString = fmt.FormatString
	Fprint       = fmt.Fprint
	Fprintf      = fmt.Fprintf
	Fprintln     = fmt.Fprintln
	Fscan        = fmt.Fscan
	Fscanf       = fmt.Fscanf
	Fscanln      = fmt.Fscanln
	Sprint       = fmt.Sprint
	Sprintf      = fmt.Sprintf
	Sprintln     = fmt.Sprintln
	Sscan        = fmt.Sscan
	Sscanf       = fmt.Sscanf
	Sscanln      = fmt.Sscanln
)

// Print is fmt.Print.
func Print(a ...any) (int, error) { return fmt.Fprint(os.Stdout, a...) }

// Printf is fmt.Printf.
func Printf(f string, a ...any) (int, error) { return fmt.Fprintf(os.Stdout, f, a...) }

// Println is fmt.Println.
func Println(a ...any) (int, error) { return fmt.Fprintln(os.Stdout, a...) }

// Scan is fmt.Scan.
func Scan(a ...any) (int, error) { return 0, io.EOF }

// Scanf is fmt.Scanf.
func Scanf(f string, a ...any) (int, error) { return 0, io.EOF }

// Scanln is fmt.Scanln.
func Scanln(a ...any) (int, error) { return 0, io.EOF }
