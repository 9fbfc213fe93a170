package sys

import (
	"fmt"
	"io"
	"os"
	"path"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"verif.local/simk"
)

// Call is one invocation of an external program.
type Call struct {
	Path   string
	Args   []string
	Env    []string
	Dir    string
	Stdin  io.Reader
	Stdout io.Writer
	Stderr io.Writer
	Fail   *Fault // set when this invocation is to fail
}

func (c *Call) Out(format string, a ...interface{}) {
	if c.Stdout != nil {
		fmt.Fprintf(c.Stdout, format, a...)
	}
}

func (c *Call) Errf(format string, a ...interface{}) {
	if c.Stderr != nil {
		fmt.Fprintf(c.Stderr, format, a...)
	}
}

func (c *Call) Getenv(k string) string { v, _ := Getenv(c.Env, k); return v }

// Path resolves a file name relative to the directory of the command.
func (c *Call) File(name string) string {
	if strings.HasPrefix(name, "/") {
		return name
	}
	d := c.Dir
	if d == "" {
		d = Cur().Cwd
	}
	return filepath.Join(abs(d), name)
}

// Command is a simulated program: it returns its exit status, negative for the
// number of a signal.
type Command func(c *Call) int

var Commands map[string]Command

// OnExec observes every started program.
var OnExec func(c *Call)

func HasCommand(name string) bool { return Commands[name] != nil }

// Child is a started program.
type Child struct {
	Code    int
	Sig     int
	done    bool
	WaitErr error
	task    *simk.Task
	killed  bool
}

func (c *Child) Status() string {
	if c.Sig != 0 {
		return "signal: killed"
	}
	return fmt.Sprintf("exit status %d", c.Code)
}

func (c *Child) Kill() { c.killed = true }

func (c *Child) Wait() {
	for !c.done {
		if Gone() {
			return
		}
		simk.Block(unsafe.Pointer(c))
		if Gone() {
			return
		}
	}
}

// Exec starts a program.
func Exec(c *Call) (*Child, error) {
	perr := func(err error) error { return &os.PathError{Op: "fork/exec", Path: c.Path, Err: err} }
	f := op("exec", c.Path)
	if err := f.err(); err != nil {
		return nil, perr(err)
	}
	if c.Dir != "" {
		n, _, _, err := walk(c.Dir, true)
		if err == nil && !n.Mode.IsDir() {
			err = syscall.ENOTDIR
		}
		if err != nil {
			return nil, &os.PathError{Op: "chdir", Path: c.Dir, Err: err}
		}
	}
	name := path.Base(c.Path)
	if !strings.HasPrefix(c.Path, "/usr/bin/") {
		n, _, _, err := walk(c.File(c.Path), true)
		if err == nil && n.Mode.IsDir() {
			err = syscall.EACCES
		}
		if err != nil {
			return nil, perr(err)
		}
	}
	cmd := Commands[name]
	if cmd == nil {
		return nil, perr(syscall.ENOENT)
	}
	if OnExec != nil {
		OnExec(c)
	}
	if f != nil && f.Act == "fail" {
		c.Fail = f
	}
	ch := &Child{}
	if c.Stdout == nil {
		c.Stdout = io.Discard
	}
	if c.Stderr == nil {
		c.Stderr = io.Discard
	}
	w := &checkWriter{w: c.Stdout}
	same := c.Stdout == c.Stderr
	c.Stdout = w
	if same {
		c.Stderr = w
	}
	ch.task = Spawn(func() {
		code := cmd(c)
		if code < 0 {
			ch.Sig = -code
			code = -1
		}
		if ch.killed && code == 0 {
			ch.Sig, code = 9, -1
		}
		ch.Code = code
		ch.WaitErr = w.err
		for _, x := range []io.Writer{c.Stdout, c.Stderr} {
			if cw, ok := x.(*checkWriter); ok {
				x = cw.w
			}
			if p, ok := x.(*File); ok && p.rd == nil && p.name == "|1" {
				p.Close()
				p.std.(*pipe).closeW()
			}
		}
		ch.done = true
		simk.Wake(unsafe.Pointer(ch))
	})
	done(f)
	return ch, nil
}

type checkWriter struct {
	w   io.Writer
	err error
}

func (c *checkWriter) Write(b []byte) (int, error) {
	n, err := c.w.Write(b)
	if err != nil && c.err == nil {
		c.err = err
	}
	return n, err
}

// pipe is a pipe of the system: it holds 64 KB.
type pipe struct {
	buf     []byte
	closed  bool
	rclosed bool
}

func (p *pipe) wait() bool {
	if Gone() {
		return false
	}
	simk.Block(unsafe.Pointer(p))
	return !Gone()
}

func (p *pipe) Read(b []byte) (int, error) {
	for len(p.buf) == 0 {
		if p.closed {
			return 0, io.EOF
		}
		if !p.wait() {
			return 0, ErrDead
		}
	}
	n := copy(b, p.buf)
	p.buf = p.buf[n:]
	simk.Wake(unsafe.Pointer(p))
	return n, nil
}

func (p *pipe) Write(b []byte) (int, error) {
	n := 0
	for {
		if p.closed || p.rclosed {
			return n, syscall.EPIPE
		}
		m := 65536 - len(p.buf)
		if m > len(b) {
			m = len(b)
		}
		p.buf = append(p.buf, b[:m]...)
		b = b[m:]
		n += m
		simk.Wake(unsafe.Pointer(p))
		if len(b) == 0 {
			break
		}
		if !p.wait() {
			return n, ErrDead
		}
	}
	Y()
	return n, nil
}

func (p *pipe) closeW() {
	p.closed = true
	simk.Wake(unsafe.Pointer(p))
}

func (p *pipe) closeR() {
	p.rclosed = true
	simk.Wake(unsafe.Pointer(p))
}

func (p *pipe) Close() error { p.closeW(); return nil }

// CloseReader closes the reading end of a pipe: writing to it fails.
func CloseReader(f *File) {
	f.Close()
	if p, ok := f.rd.(*pipe); ok {
		p.closeR()
	}
}

// Pipe returns the two ends of a pipe.
func Pipe() (*File, *File) {
	p := &pipe{}
	return PipeFile("|0", p, nil), PipeFile("|1", nil, p)
}

// Spawn starts a task of p.
func (p *Proc) Spawn(fn func()) { spawn(p, fn) }

func EvalSymlinks(name string) (string, error) {
	n, _, _, err := walk(name, true)
	if err != nil {
		return "", perr("lstat", name, err)
	}
	return pathOf(n, name), nil
}

func pathOf(n *Node, name string) string {
	var find func(d *Node, p string) string
	find = func(d *Node, p string) string {
		if d == n {
			return p
		}
		for k, c := range d.Kids {
			if r := find(c, path.Join(p, k)); r != "" {
				return r
			}
		}
		return ""
	}
	r := find(root, "/")
	if r == "" {
		return path.Clean(name)
	}
	if !strings.HasPrefix(name, "/") {
		if rel, err := filepath.Rel(Cur().Cwd, r); err == nil {
			return rel
		}
	}
	return r
}

// Rand fills b with bytes that depend on the run only.
func Rand(b []byte) {
	for i := range b {
		ntemp++
		z := (Salt ^ uint64(ntemp)) * 0x9e3779b97f4a7c15
		b[i] = byte(z >> 33)
	}
}

// Ports in use: true once something accepts connections.
var Serving map[int]bool

// Bind decides what happens when the process under test binds a port: nil
// means the driver's own ListenAndServe handling.
var ServeFn func(port int) error

// DialFn decides whether a connection succeeds.
var DialFn func(port int) error

func portOf(addr string) int {
	i := strings.LastIndex(addr, ":")
	p, _ := strconv.Atoi(addr[i+1:])
	return p
}

func Dial(addr string, timeout time.Duration) error {
	f := op("net", addr)
	if err := f.err(); err != nil {
		return err
	}
	if DialFn != nil {
		return DialFn(portOf(addr))
	}
	if Serving[portOf(addr)] {
		return nil
	}
	return syscall.ECONNREFUSED
}

func Listen(addr string) (int, error) {
	op("net", addr)
	p := portOf(addr)
	if Serving[p] {
		return 0, os.NewSyscallError("bind", syscall.EADDRINUSE)
	}
	Serving[p] = true
	return p, nil
}

func Unlisten(p int) { delete(Serving, p) }

// Handler of the latest server: an http.Handler.
var Handler interface{}

func Serve(addr string) (int, error) {
	f := op("net", addr)
	if err := f.err(); err != nil {
		return 0, err
	}
	p := portOf(addr)
	if ServeFn != nil {
		return p, ServeFn(p)
	}
	return p, nil
}

// HTTP answers requests; set by the driver.
var HTTP func(url string) *Response

// Response of the simulated network.
type Response struct {
	Status  int
	Body    []byte
	Cut     int   // bytes delivered before Err; negative: all
	Err     error // nil: a clean end, even if Cut
	DialErr error
	Header  map[string]string
	Length  int64 // declared, -1 unknown
}
