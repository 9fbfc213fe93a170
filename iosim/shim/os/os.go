// Package os stands in for the standard library's, on the simulated system.
package os

import (
	"io/fs"
	"os"
	"strings"
	"time"

	"verif.local/io/sys"
)

type File = sys.File

var (
	Stdin  = sys.StdFile("/dev/stdin", nullWriter{})
	Stdout = sys.StdFile("/dev/stdout", sys.Stdout)
	Stderr = sys.StdFile("/dev/stderr", sys.Stderr)
	Args   = []string{"/usr/bin/xgo"}
)

type nullWriter struct{}

func (nullWriter) Write(b []byte) (int, error) { return len(b), nil }

func Open(name string) (*File, error)   { return sys.Open(name, os.O_RDONLY, 0) }
func Create(name string) (*File, error) { return sys.Open(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666) }
func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	return sys.Open(name, flag, perm)
}
func ReadFile(name string) ([]byte, error)                       { return sys.ReadFile(name) }
func WriteFile(name string, data []byte, perm FileMode) error    { return sys.WriteFile(name, data, perm) }
func ReadDir(name string) ([]DirEntry, error)                    { return sys.ReadDir(name) }
func Mkdir(name string, perm FileMode) error                     { return sys.Mkdir(name, perm) }
func MkdirAll(name string, perm FileMode) error                  { return sys.MkdirAll(name, perm) }
func MkdirTemp(dir, pattern string) (string, error)              { return sys.MkdirTemp(dir, pattern) }
func CreateTemp(dir, pattern string) (*File, error)              { return sys.CreateTemp(dir, pattern) }
func Remove(name string) error                                   { return sys.Remove(name) }
func RemoveAll(name string) error                                { return sys.RemoveAll(name) }
func Rename(a, b string) error                                   { return sys.Rename(a, b) }
func Stat(name string) (FileInfo, error)                         { return sys.Stat_(name) }
func Lstat(name string) (FileInfo, error)                        { return sys.Lstat(name) }
func Symlink(a, b string) error                                  { return sys.Symlink(a, b) }
func Link(a, b string) error                                     { return sys.Link(a, b) }
func Readlink(name string) (string, error)                       { return sys.Readlink(name) }
func Chmod(name string, mode FileMode) error                     { return sys.Chmod(name, mode) }
func Chown(name string, uid, gid int) error                      { return nil }
func Lchown(name string, uid, gid int) error                     { return nil }
func Chtimes(name string, a, m time.Time) error                  { return sys.Chtimes(name, a, m) }
func Truncate(name string, size int64) error                     { return sys.Truncate(name, size) }
func Chdir(name string) error                                    { return sys.Chdir(name) }
func Getwd() (string, error)                                     { return sys.Cur().Cwd, nil }
func TempDir() string                                            { return sys.TempDir() }
func SameFile(a, b FileInfo) bool                                { return sys.SameFile(a, b) }
func Exit(code int)                                              { sys.Exit(code) }
func Hostname() (string, error)                                  { return "sim", nil }
func Executable() (string, error)                                { return "/usr/bin/xgo", nil }
func Getpid() int                                                { return 1000 + sys.Cur().Index }
func Getppid() int                                               { return 1 }
func Getuid() int                                                { return 1000 }
func Geteuid() int                                               { return 1000 }
func Getgid() int                                                { return 1000 }
func NewFile(fd uintptr, name string) *File                      { return sys.StdFile(name, nullWriter{}) }
func Pipe() (*File, *File, error)                                { a, b := sys.Pipe(); return a, b, nil }
func DirFS(dir string) fs.FS                                     { return dirFS(dir) }
func Getenv(key string) string                                   { v, _ := sys.Getenv(sys.Cur().Env, key); return v }
func LookupEnv(key string) (string, bool)                        { return sys.Getenv(sys.Cur().Env, key) }
func Environ() []string                                          { return append([]string(nil), sys.Cur().Env...) }
func Clearenv()                                                  { sys.Cur().Env = nil }
func ExpandEnv(s string) string                                  { return os.Expand(s, Getenv) }
func UserHomeDir() (string, error)                               { return dirEnv("HOME", "") }
func UserCacheDir() (string, error)                              { return dirEnv("HOME", "/.cache") }
func UserConfigDir() (string, error)                             { return dirEnv("HOME", "/.config") }

func Unsetenv(key string) error {
	p := sys.Cur()
	var out []string
	for _, e := range p.Env {
		if !strings.HasPrefix(e, key+"=") {
			out = append(out, e)
		}
	}
	p.Env = out
	return nil
}

func Setenv(key, value string) error {
	Unsetenv(key)
	p := sys.Cur()
	p.Env = append(p.Env, key+"="+value)
	return nil
}

func dirEnv(key, sub string) (string, error) {
	v := Getenv(key)
	if v == "" {
		return "", &SyscallError{Syscall: "$" + key + " is not defined", Err: os.ErrNotExist}
	}
	return v + sub, nil
}

type dirFS string

func (d dirFS) Open(name string) (fs.File, error) {
	f, err := Open(string(d) + "/" + name)
	if err != nil {
		return nil, err
	}
	return f, nil
}

func CopyFS(dir string, fsys fs.FS) error {
	return fs.WalkDir(fsys, ".", func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() {
			return MkdirAll(dir+"/"+p, 0777)
		}
		b, err := fs.ReadFile(fsys, p)
		if err != nil {
			return err
		}
		return WriteFile(dir+"/"+p, b, 0666)
	})
}

type Process struct {
	Pid int
	P   *sys.Child
}

func (p *Process) Kill() error              { p.P.Kill(); return nil }
func (p *Process) Signal(s os.Signal) error { p.P.Kill(); return nil }
func (p *Process) Release() error           { return nil }
func (p *Process) Wait() (*ProcessState, error) {
	p.P.Wait()
	return &ProcessState{p.P}, nil
}

func FindProcess(pid int) (*Process, error) { return &Process{Pid: pid}, nil }

type ProcessState struct{ P *sys.Child }

func (s *ProcessState) ExitCode() int {
	if s == nil {
		return -1
	}
	return s.P.Code
}
func (s *ProcessState) Success() bool { return s.P.Code == 0 }
func (s *ProcessState) Exited() bool  { return s.P.Code >= 0 }
func (s *ProcessState) Pid() int      { return 0 }
func (s *ProcessState) String() string { return s.P.Status() }
func (s *ProcessState) Sys() interface{} { return nil }
