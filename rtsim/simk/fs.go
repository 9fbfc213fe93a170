package simk

import (
	"io"
	"os"
	"syscall"
)

// FaultWrite decides the outcome of a file write made by the code under test:
// nil, or an error, and how many bytes still reach the file. Set by the driver.
var FaultWrite func(name string, n int) (keep int, err error)

// OnWrite reports a write that reached the simulated file system.
var OnWrite func(name string, data []byte, err error)

func WriteFile(name string, data []byte, perm os.FileMode) error {
	Y()
	if Race {
		return nil
	}
	keep := len(data)
	var err error
	if FaultWrite != nil {
		keep, err = FaultWrite(name, len(data))
	}
	Y()
	if OnWrite != nil {
		OnWrite(name, append([]byte(nil), data[:keep]...), err)
	}
	if err != nil {
		return &os.PathError{Op: "write", Path: name, Err: err}
	}
	return nil
}

func MkdirAll(name string, perm os.FileMode) error { Y(); return nil }
func Rename(a, b string) error                     { Y(); return &os.PathError{Op: "rename", Path: a, Err: syscall.ENOENT} }
func Remove(a string) error                        { Y(); return &os.PathError{Op: "remove", Path: a, Err: syscall.ENOENT} }

var Stderr io.Writer = io.Discard
