// Package ioutil replaces io/ioutil in instrumented code.
package ioutil

import (
	"io"

	"verif/sim/shim/os"
)

// The standard functions.
var (
	Discard   = io.Discard
	NopCloser = io.NopCloser
	ReadAll   = io.ReadAll
	ReadFile  = os.ReadFile
	WriteFile = os.WriteFile
	TempFile  = os.CreateTemp
	TempDir   = os.MkdirTemp
)

// ReadDir is the standard function.
func ReadDir(p string) ([]os.FileInfo, error) {
	l, err := os.ReadDir(p)
	var out []os.FileInfo
	for _, e := range l {
		i, ierr := e.Info()
		if ierr != nil {
			return nil, ierr
		}
		out = append(out, i)
	}
	return out, err
}
