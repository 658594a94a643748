// Package mmap replaces github.com/edsrzf/mmap-go in the simulated build.
package mmap

import (
	"errors"
	"syscall"

	"verif/sim/shim/os"
	"verif/sim/simfs"
	"verif/sim/vsim"
)

// Flags of the real package.
const (
	RDONLY = 0
	RDWR   = 1 << iota
	COPY
	EXEC
)

// ANON requests memory without a file.
const ANON = 1 << iota

// MMap represents a file mapped into memory.
type MMap []byte

// Map maps an entire file into memory.
func Map(f *os.File, prot, flags int) (MMap, error) { return MapRegion(f, -1, prot, flags, 0) }

// MapRegion maps part of a file into memory.
func MapRegion(f *os.File, length int, prot, flags int, offset int64) (MMap, error) {
	if offset%4096 != 0 {
		return nil, errors.New("offset parameter must be a multiple of the system's page size")
	}
	if vsim.Active() == nil {
		return nil, syscall.EIO
	}
	fs := simfs.Get()
	p, private := syscall.PROT_READ, false
	if prot&COPY != 0 {
		p |= syscall.PROT_WRITE
		private = true
	} else if prot&RDWR != 0 {
		p |= syscall.PROT_WRITE
	}
	if flags&ANON != 0 {
		if length <= 0 {
			return nil, errors.New("anonymous mapping requires non-zero length")
		}
		return fs.Mmap(nil, 0, length, p, true)
	}
	if length < 0 {
		fi, err := f.Stat()
		if err != nil {
			return nil, err
		}
		length = int(fi.Size())
	}
	return fs.Mmap(f.Handle(), offset, length, p, private)
}

// Lock does nothing.
func (m MMap) Lock() error { return nil }

// Unlock does nothing.
func (m MMap) Unlock() error { return nil }

// Flush synchronises the mapping.
func (m MMap) Flush() error {
	if w := vsim.Active(); w != nil {
		w.Point(41)
	}
	return nil
}

// Unmap deletes the mapping.
func (m *MMap) Unmap() error {
	if vsim.Active() == nil {
		return nil
	}
	err := simfs.Get().Munmap(*m)
	*m = nil
	return err
}
