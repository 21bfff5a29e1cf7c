// Package fakeos stands in for package os in the repository when the checks of connections and
// listeners run: the standard streams and the files of local sockets are those of World.
package fakeos

import (
	"os"
)

// File is a standard stream.
type File struct {
	name   string
	Out    []string
	Closed int
}

// The standard streams.
var (
	Stdin  = &File{name: "/dev/stdin"}
	Stdout = &File{name: "/dev/stdout"}
	Stderr = &File{name: "/dev/stderr"}
)

// Reset makes the standard streams new ones.
func Reset() {
	Stdin, Stdout, Stderr = &File{name: "/dev/stdin"}, &File{name: "/dev/stdout"}, &File{name: "/dev/stderr"}
	Exists = nil
	Removed = nil
}

// Write see os.File
func (f *File) Write(b []byte) (int, error) {
	if f.Closed > 0 {
		return 0, os.ErrClosed
	}
	f.Out = append(f.Out, string(b))
	return len(b), nil
}

// WriteString see os.File
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

// Close see os.File
func (f *File) Close() error {
	f.Closed++
	if f.Closed > 1 {
		return os.ErrClosed
	}
	return nil
}

// Name see os.File
func (f *File) Name() string { return f.name }

// Sync see os.File
func (f *File) Sync() error { return nil }

// Exists tells which files there are, Removed is what was removed.
var (
	Exists  func(name string) bool
	Removed []string
)

// Stat see os.Stat ; there is nothing to know about a file
func Stat(name string) (os.FileInfo, error) {
	if Exists == nil || !Exists(name) {
		return nil, os.ErrNotExist
	}
	return nil, nil
}

// Lstat see os.Lstat
func Lstat(name string) (os.FileInfo, error) { return Stat(name) }

// Remove see os.Remove
func Remove(name string) error {
	if Exists == nil || !Exists(name) {
		return os.ErrNotExist
	}
	Removed = append(Removed, name)
	return nil
}
